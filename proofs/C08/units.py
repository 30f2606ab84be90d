LEVEL = "proof"
TRUSTED = [
 "CBMC 6.11.0 (goto-cc, symbolic execution, MiniSat)",
 "IR operation semantics: the interpreter of vc/lib/irvm.h states the contracts C03 proves of the run-time operations; the two texts are related by inspection",
 "floating-point arithmetic, conversions and 64-bit * / % are uninterpreted functions shared by code and specification",
 "lvalues and sub-expressions obey the translator's own contract (push exactly one address / value)",
]
ASSUMPTIONS = ["objects of scalar type; structure copies are the run-time's BCOPY operation on the size of the type"]
ERR = ["kefir_set_error", "kefir_set_errorf", "kefir_set_source_error", "kefir_set_source_errorf"]
STUBS = ERR + ["kefir_irblock_length", "kefir_irblock_at", "kefir_ast_translate_expression", "kefir_ast_translator_type_new",
               "kefir_ast_translator_type_free", "kefir_ir_long_double_upper_half", "kefir_ir_long_double_lower_half", "kefir_ast_translate_lvalue"]
N = "ast-translator/nodes/"
COMMON = ["ast-translator/typeconv.c", "ast-translator/util.c", "ast-translator/value.c", "ast/type_conv.c", "ast/type.c", "ast/type/basic.c"]
OPS = "SUBTRACT ADD DIVIDE MODULO MULTIPLY SHIFT_LEFT SHIFT_RIGHT BITWISE_AND BITWISE_OR BITWISE_XOR".split()
INTONLY = "MODULO SHIFT_LEFT SHIFT_RIGHT BITWISE_AND BITWISE_OR BITWISE_XOR".split()
def c(name, kind, op="NOP", lo=0, hi=0, **kw):
    return dict(name=name, params=dict(KIND="K_" + kind, OP=op if op == "NOP" else "KEFIR_AST_OPERATION_" + op, LO=lo, HI=hi, KNOWN=int("known" in kw), ALLV=int("thorough_only" in kw)), **kw)
CUT = ["kefir_ast_translate_sizeof", "kefir_ast_translate_alignof", "kefir_ast_type_layout_resolve", "kefir_ast_type_completion", "kefir_ir_type_at", "kefir_ast_translator_resolve_type_layout",
       "kefir_ast_constant_expression_free", "kefir_ast_constant_expression_integer", "kefir_ast_constant_expression_value_evaluate", "kefir_ast_constant_expression_evaluate",
       "kefir_hashtree_free", "kefir_hashtree_init", "kefir_hashtree_insert", "kefir_hashtree_at", "kefir_hashtree_has"]
BFT = ["T_BOOL", "T_UC", "T_SC", "T_US", "T_SS", "T_UI", "T_SI", "T_UL", "T_SL"]
def b(name, kind, t, op="NOP", full=0, **kw):
    return dict(name=name, params=dict(KIND="B_" + kind, OP=op if op == "NOP" else "KEFIR_AST_OPERATION_" + op, LO=t, HI=full, KNOWN=0, ALLV=full), **kw)
INCDEC = ("PREFIX_INCREMENT", "PREFIX_DECREMENT", "POSTFIX_INCREMENT", "POSTFIX_DECREMENT")
BF = [b("read-" + t, "READ", t) for t in BFT] + [b("assign-" + t, "SIMPLE", t) for t in BFT]
BF += [b("%s-%s" % (o.lower(), t), "COMPOUND", t, o) for o in OPS for t in ("T_UI", "T_SI", "T_UL")]
BF += [b("all-%s-%s" % (o.lower(), t), "COMPOUND", t, o, full=1, thorough_only=True) for o in OPS for t in ("T_UC", "T_UI", "T_SI", "T_SL", "T_UL")]
BF += [b("%s-%s" % (o.lower(), t), "INCDEC", t, o) for o in INCDEC for t in ("T_BOOL", "T_UI", "T_SI", "T_UL")]
BF += [b("all-%s-%s" % (k.lower(), t), k, t, full=1, thorough_only=True) for k in ("READ", "SIMPLE") for t in ("T_UI", "T_SI", "T_UL", "T_SL")]
UNITS = [
 dict(name="assign", file="assign.c", cost=4,
      enforce=["kefir_ast_translate_assignment_operator_node", "kefir_ast_translate_unary_operation_node", "kefir_ast_translate_array_subscript_node",
               "kefir_ast_translator_load_value", "kefir_ast_translator_store_value", "kefir_ast_translator_resolve_lvalue", "kefir_ast_translator_store_lvalue"],
      srcs=[N + x for x in ("assignment_operator.c", "unary_operation.c", "array_subscript.c")] + COMMON, stubs=STUBS, unwind=64,
      cut=CUT,
      params=["KIND", "OP", "LO", "HI", "KNOWN", "ALLV"],
      cases=[c("simple-%d" % lo, "SIMPLE", lo=lo, hi=lo + 3) for lo in range(0, 18, 3)]
          + [c("%s-%d" % (o.lower(), lo), "COMPOUND", o, lo, lo + 4 if lo < 12 else 15) for o in OPS for lo in (0, 4, 8, 12) if lo < 12 or o not in INTONLY]
          + [c("all-%s-%d" % (o.lower(), lo), "COMPOUND", o, lo, lo + 4 if lo < 12 else 15, thorough_only=True) for o in OPS for lo in (0, 4, 8, 12) if lo < 12 or o not in INTONLY]
          + [c("all-ptr-add", "PTR", "ADD", thorough_only=True), c("all-ptr-sub", "PTR", "SUBTRACT", thorough_only=True)]
          + [c("ptr-add", "PTR", "ADD"), c("ptr-sub", "PTR", "SUBTRACT")]
          + [c(x.lower(), "INCDEC", x) for x in ("PREFIX_INCREMENT", "PREFIX_DECREMENT", "POSTFIX_INCREMENT", "POSTFIX_DECREMENT")]
          + [c("known-" + o.lower(), "COMPOUND", o, "T_UL", "T_UL + 1", known="compound-signedness") for o in ("MODULO", "SHIFT_RIGHT")]
          + [c("load", "LOAD"), c("indirection", "INDIR"), c("subscript", "SUBSCR")]),
 dict(name="bitfield", file="bitfield.c", cost=3,
      enforce=["kefir_ast_translate_assignment_operator_node", "kefir_ast_translate_unary_operation_node", "kefir_ast_translator_resolve_lvalue", "kefir_ast_translator_store_lvalue", "kefir_ast_translator_store_layout_value"],
      srcs=[N + x for x in ("assignment_operator.c", "unary_operation.c", "array_subscript.c", "struct_member.c")] + COMMON + ["ast/downcast.c"],
      stubs=STUBS + ["kefir_ast_type_layout_resolve", "kefir_ir_type_at", "kefir_ast_type_completion"], unwind=130,
      cut=CUT, params=["KIND", "OP", "LO", "HI", "KNOWN", "ALLV"], cases=BF),
]
