LEVEL = "proof"
TRUSTED = [
 "CBMC 6.11.0 (goto-cc, symbolic execution, MiniSat)",
 "IR operation semantics: the interpreter of vc/lib/irvm.h states the contracts C03 proves of the run-time operations; the two texts are related by inspection",
 "floating-point arithmetic, conversions and 64-bit * / % are uninterpreted functions shared by code and specification",
 "sub-expressions obey the translator's own contract (push exactly one value of their type); kefir_irblock append/length/at behave as their contract (recorded list)",
 "types handed to the translator are those the analyzer assigns (assumed; C01 proves the common types)",
]
ASSUMPTIONS = ["operand types enumerated: all basic arithmetic types, an enumeration, const int, pointers to five representative element types; derived types other than these do not reach these operators"]
ERR = ["kefir_set_error", "kefir_set_errorf", "kefir_set_source_error", "kefir_set_source_errorf"]
OPS = "SUBTRACT ADD DIVIDE MODULO MULTIPLY SHIFT_LEFT SHIFT_RIGHT LESS LESS_EQUAL GREATER GREATER_EQUAL EQUAL NOT_EQUAL BITWISE_AND BITWISE_OR BITWISE_XOR LOGICAL_AND LOGICAL_OR".split()
STUBS = ERR + ["kefir_irblock_length", "kefir_irblock_at", "kefir_ast_translate_expression", "kefir_ast_translator_type_new",
               "kefir_ast_translator_type_free", "kefir_ir_long_double_upper_half", "kefir_ir_long_double_lower_half"]
N = "ast-translator/nodes/"
COMMON = ["ast-translator/typeconv.c", "ast-translator/util.c", "ast/type_conv.c", "ast/type.c", "ast/type/basic.c"]
CONV = ["kefir_ast_translate_typeconv", "kefir_ast_translate_typeconv_normalize"]
def sc(name, kind, lo=0, hi=0, **kw):
    return dict(name=name, params=dict(KIND="K_" + kind, LO=lo, HI=hi, KNOWN=0), **kw)
UNITS = [
 dict(name="binary", file="binary.c", enforce=["kefir_ast_translate_binary_operation_node"] + CONV, cost=4,
      srcs=[N + "binary_operation.c"] + COMMON, stubs=STUBS, unwind=64, params=["OP", "LO", "HI", "KNOWN_CASE"],
      cases=[dict(name=o.lower() + "-%d" % lo, params=dict(OP="KEFIR_AST_OPERATION_" + o, LO=lo, HI=lo + 5, KNOWN_CASE=0)) for o in OPS for lo in (0, 5, 10)]
          + [dict(name="known-" + o.lower(), known="negzero-logical", params=dict(OP="KEFIR_AST_OPERATION_" + o, LO="T_D", HI="T_D+1", KNOWN_CASE=1)) for o in ("LOGICAL_AND", "LOGICAL_OR")]),
 dict(name="pointer", file="pointer.c", enforce=["kefir_ast_translate_binary_operation_node"],
      srcs=[N + "binary_operation.c"] + COMMON, stubs=STUBS, unwind=64, params=["KIND"],
      cases=[dict(name=n, params=dict(KIND=i)) for i, n in enumerate(["add", "radd", "sub", "other"])]),
 dict(name="scalar", file="scalar.c", enforce=["kefir_ast_translate_%s_node" % x for x in ("cast_operator", "unary_operation", "conditional_operator", "comma_operator", "constant")] + CONV,
      srcs=[N + x for x in ("cast_operator.c", "unary_operation.c", "conditional_operator.c", "comma_operator.c", "constant.c")] + COMMON, stubs=STUBS, unwind=64,
      cut=["kefir_ast_translate_lvalue", "kefir_ast_translator_resolve_lvalue", "kefir_ast_translator_store_lvalue", "kefir_ast_translate_sizeof", "kefir_ast_translate_alignof", "kefir_ast_translator_load_value", "kefir_ast_translator_resolve_type_layout"],
      params=["KIND", "LO", "HI", "KNOWN"],
      cases=[sc("conv-%d" % lo, "CONV", lo, lo + 6) for lo in (0, 6, 12)] + [sc("cast-%d" % lo, "CAST", lo, lo + 6) for lo in (0, 6, 12)]
          + [sc("norm", "NORM"), sc("unary", "UNARY"), sc("cond", "COND"), sc("elvis", "ELVIS"), sc("comma", "COMMA"), sc("const", "CONST")]
          + [sc("known-conv", "CONV", "T_F", "T_LD + 1", known="float-to-bool-or-u64"), sc("known-not", "UNARY", known="negzero-logical"),
             sc("known-cond", "COND", known="negzero-logical"), sc("known-condarm-double", "CONDARM", 0, known="conditional-arms"), sc("known-condarm-unsigned", "CONDARM", 1, known="conditional-arms")]),
]
for u in UNITS:
    for c in u["cases"]:
        if c.get("known") and "KNOWN" in c["params"] and "CONDARM" not in c["params"]["KIND"]:
            c["params"]["KNOWN"] = 1
