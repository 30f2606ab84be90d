LEVEL = "proof"
TRUSTED = ["CBMC 6.11 (goto-cc front end, symbolic execution, SAT back end)", "diagnostics entry points by contract: return the code they are given"]
ASSUMPTIONS = ["LP64 data model, 32-bit int, plain char signed (the only model the compiler accepts)",
               "bit-field of an unsigned 64-bit declared type with width exactly 32 left open (implementation-defined)"]
ERR = ["kefir_set_error", "kefir_set_errorf", "kefir_set_source_error", "kefir_set_source_errorf"]
UNITS = [
 dict(name="conv", file="common.c", enforce=["kefir_ast_type_common_arithmetic", "kefir_ast_type_int_promotion",
      "kefir_ast_type_function_default_argument_promotion", "kefir_ast_type_is_signed", "kefir_ast_type_flip_integer_singedness"],
      srcs=["ast/type_conv.c", "ast/type.c", "ast/type/basic.c"], stubs=ERR, unwind=29,
      cases=[dict(name=n, defs=["PART=%d" % i]) for i, n in enumerate(["common", "common_bitfield", "promote", "common_enum"])]),
]
