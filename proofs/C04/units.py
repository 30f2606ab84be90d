LEVEL = "proof"
TRUSTED = [
 "CBMC 6.11.0 (goto-cc, symbolic execution, MiniSat)",
 "containers (vector, hash tree) by contract in the units over the translator",
]
ASSUMPTIONS = ["member types enumerated: every scalar type, pointer, enumeration, qualified, va_list, and arrays (1 and 2 dimensions, flexible), structures, unions and anonymous structures of each; lengths, preceding offsets, subscripts and bit-field widths symbolic"]
ERR = ["kefir_set_error", "kefir_set_errorf", "kefir_set_source_error", "kefir_set_source_errorf"]
CONT = ["kefir_vector_alloc", "kefir_vector_realloc", "kefir_vector_free", "kefir_vector_append", "kefir_hashtree_init", "kefir_hashtree_on_removal", "kefir_hashtree_free", "kefir_hashtree_at", "kefir_hashtree_insert"]
CUT = ["kefir_ast_translate_expression", "kefir_ast_type_completion", "kefir_ast_type_get_top_variable_modificator", "kefir_ast_type_array", "kefir_ast_constant_expression_free", "kefir_ast_constant_expression_value_evaluate", "kefir_ast_type_bundle_add", "kefir_ast_constant_expression_integer",
       "kefir_ast_constant_expression_evaluate", "kefir_hashtree_delete", "kefir_hashtree_iter", "kefir_hashtree_next", "kefir_ast_type_layout_free", "kefir_list_free", "kefir_amd64_sysv_function_insert_appendix", "kefir_amd64_sysv_abi_qwords_next"]
SRCS = ["ast-translator/misc.c", "ast-translator/type_translate.c", "ast-translator/layout.c", "ast-translator/environment.c", "ast/type_layout.c", "ast/type.c", "ast/type/basic.c", "ir/type.c", "ir/builder.c",
        "codegen/amd64/system-v/platform.c", "codegen/amd64/system-v/abi/data_layout.c", "codegen/amd64/system-v/abi/builtins.c", "codegen/amd64/system-v/abi/builtins/vararg.c", "codegen/util.c", "core/list.c", "core/vector.c", "ast/type/array.c"]
def c(name, mode, lo, hi, cmp=0, **kw):
    return dict(name=name, params=dict(MODE="M_" + mode, LO=lo, HI=hi, CMP=cmp), **kw)
NK = 19
CN = ["scalar", "array", "struct", "union", "anonymous", "array2", "flexible"]
T = dict(thorough_only=True)
REP = (1, 4, 6, 13, 14, 17, 18) # one element type per size, alignment and class; all of them in the thorough tier
def rep(m, k): return {} if m == 0 or (k in REP and (m, k) != (1, 18)) else T
UNITS = [
 dict(name="object", file="object.c", enforce=["kefir_ast_translator_environment_init", "kefir_ast_translate_object_type", "kefir_ast_translator_evaluate_type_layout", "kefir_ast_type_layout_resolve_offset", "kefir_ast_translator_resolve_type_layout",
                                               "kefir_amd64_sysv_type_layout", "kefir_codegen_amd64_sysv_target_platform"],
      srcs=SRCS, stubs=ERR + CONT + ["kefir_codegen_pad_aligned"], defs=["STUB_PAD"], cut=CUT, unwind=80, params=["MODE", "LO", "HI", "CMP"],
      cases=[c("alone-%s-%d" % (CN[m], k), "ALONE", k, k + 1, m, **rep(m, k)) for m in (0, 1, 2, 3, 5) for k in range(NK)]
          + [c("member-%s-%d" % (CN[m], k), "STRUCT", k, k + 1, m, **rep(m, k)) for m in range(7) for k in range(NK)]
          + [c("union-%s-%d" % (CN[m], k), "UNION", k, k + 1, m, **rep(m, k)) for m in range(6) for k in range(NK)]
          + [c("alignas-%d" % k, "ALIGN", k, k + 1, **({} if k in (1, 5, 7, 14, 18) else T)) for k in range(NK)]
          + [c("bits-%d-%d" % (i, j), "BITS", i, j, **({} if j == (2 * i + 3) % 9 else T)) for i in range(9) for j in range(9)]
          + [c("deep-%d" % k, "DEEP", k, k + 1, **({} if k in (1, 6, 14) else T)) for k in range(NK)]
          + [c("known-zero-width", "ZERO", 0, 0, known="zero-width")]),
 dict(name="bitfields", file="bitfields.c", enforce=["kefir_codegen_amd64_sysv_bitfield_allocator", "kefir_amd64_sysv_type_layout_of"],
      srcs=["codegen/amd64/system-v/bitfields.c", "codegen/amd64/system-v/abi/data_layout.c", "ir/type.c", "core/vector.c"], stubs=ERR + CONT + ["kefir_codegen_pad_aligned"], cut=CUT, unwind=40,
      params=["C1", "C2"], cases=[dict(name="%d-then-%d" % (8 << i, 8 << j), params=dict(C1=i, C2=j)) for i in range(4) for j in range(4)]),
 dict(name="pad", file="pad.c", enforce=["kefir_codegen_pad_aligned"], srcs=["codegen/util.c"], stubs=ERR, unwind=20),
]
