LEVEL = "proof"
TRUSTED = [
 "CBMC 6.11.0 (goto-cc, symbolic execution, MiniSat)",
 "IR operation semantics: the interpreter of vc/lib/irvm.h states the contracts C03 proves of the run-time operations; the two texts are related by inspection",
 "sub-statements, sub-expressions and declarations obey the translator's own contract (one opaque event each; an expression pushes its value)",
 "the table of case labels (kefir_hashtree) delivers each entry once",
]
ASSUMPTIONS = ["controlling types enumerated: all scalar types; switch labels up to 2 per switch, block items up to 2, variable length arrays per block up to 2 (bounded; values and labels symbolic)"]
ERR = ["kefir_set_error", "kefir_set_errorf", "kefir_set_source_error", "kefir_set_source_errorf"]
STUBS = ERR + ["kefir_irblock_length", "kefir_irblock_at", "kefir_ast_translate_expression", "kefir_ast_translator_type_new", "kefir_ast_translator_type_free",
               "kefir_ir_long_double_upper_half", "kefir_ir_long_double_lower_half", "kefir_ast_translate_statement", "kefir_ast_translate_declaration",
               "kefir_ast_translator_flow_control_point_reference", "kefir_ast_translator_flow_control_point_resolve", "kefir_ast_translator_resolve_vla_element",
               "kefir_hashtree_iter", "kefir_hashtree_next"]
CUT = ["kefir_ast_translate_jump", "kefir_ast_translate_sizeof", "kefir_ast_translate_alignof", "kefir_ast_type_layout_resolve", "kefir_ast_type_completion", "kefir_ast_translator_resolve_type_layout",
       "kefir_ast_constant_expression_free", "kefir_ast_constant_expression_integer", "kefir_ast_constant_expression_value_evaluate", "kefir_ast_constant_expression_evaluate",
       "kefir_hashtree_free", "kefir_hashtree_init", "kefir_hashtree_insert", "kefir_hashtree_at", "kefir_hashtree_has"]
N = "ast-translator/nodes/"
S = "while_statement do_while_statement for_statement conditional_statement switch_statement expression_statement compound_statement labeled_statement case_statement return_statement goto_statement label_address".split()
J = ["break_statement", "continue_statement", "goto_statement"]
COMMON = ["ast-translator/typeconv.c", "ast-translator/util.c", "ast/type_conv.c", "ast/type.c", "ast/type/basic.c"]
def k(name, kind, lo=0, hi=0, known=None, nc=0, **kw):
    return dict(name=name, params=dict(NC=nc, KIND="K_" + kind, LO=lo, HI=hi, KNOWN=1 if known else 0), **(dict(known=known, **kw) if known else kw))
UNITS = [
 dict(name="control", file="control.c", enforce=["kefir_ast_translate_%s_node" % x for x in S], srcs=[N + x + ".c" for x in S] + COMMON, stubs=STUBS, unwind=64,
      cut=CUT, params=["NC", "KIND", "LO", "HI", "KNOWN"], defs=["USE_HASHTREE"],
      cases=[k("while", "WHILE"), k("do", "DO"), k("if", "IF"), k("if-else", "IF", 1), k("expression", "EXPR"), k("label", "LABEL"), k("goto-address", "GOTOADDR")]
          + [k("for-%d" % i, "FOR", i) for i in range(5)] + [k("switch-%d-labels%d" % (i, n), "SWITCH", i, i + 10, nc=n) for i in (0, 10) for n in (0, 1, 2, 3)]
          + [k("block-vla%d" % i, "COMPOUND", i) for i in range(3)] + [k("return-%d" % i, "RETURN", i, i + 3) for i in range(0, 18, 3)]
          + [k("known-switch", "SWITCH", "T_SI", "T_SI + 1", known="switch-leak", nc=1)]),
 dict(name="jumps", file="jumps.c", enforce=["kefir_ast_translate_%s_node" % x for x in J], srcs=[N + x + ".c" for x in J] + COMMON, stubs=[x for x in STUBS if "hashtree" not in x],
      unwind=64, cut=[x for x in CUT if x != "kefir_ast_translate_jump"] + ["kefir_hashtree_iter", "kefir_hashtree_next"], params=["MODE", "LO"],
      bounded="up to 2 variable length arrays per block and the nesting block-loop-block-block",
      cases=[dict(name="%s-%d" % (n, lo), params=dict(MODE=i, LO=lo)) for i, n in enumerate(["break-continue", "goto-R", "goto-B", "goto-into-vla-block", "goto-C", "goto-sibling"]) for lo in range(3)]),
 dict(name="points", file="points.c", enforce=["kefir_ast_translator_flow_control_point_reference", "kefir_ast_translator_flow_control_point_resolve"],
      srcs=["ast-translator/flow_control.c", "core/list.c"], stubs=ERR + ["kefir_irblock_length", "kefir_irblock_at"], unwind=12,
      cut=["kefir_hashtree_iter", "kefir_hashtree_next", "kefir_hashtree_free"], bounded="up to 3 references before and 2 after the point is resolved (addresses symbolic)"),
 dict(name="caselabel", file="caselabel.c", enforce=["kefir_ast_analyze_case_statement_node"], srcs=["ast/analyzer/nodes/case_statement.c", "ast/type.c", "ast/type/basic.c"], unwind=32,
      stubs=ERR + ["kefir_ast_analyze_node", "kefir_ast_constant_expression_value_evaluate", "kefir_ast_constant_expression_value_cast", "kefir_ast_flow_control_tree_traverse",
                   "kefir_ast_flow_control_tree_top", "kefir_ast_flow_control_point_alloc", "kefir_ast_flow_control_point_free", "kefir_hashtree_insert"],
      cut=[x for x in CUT if x not in ("kefir_hashtree_insert", "kefir_ast_constant_expression_value_evaluate")]),
]
