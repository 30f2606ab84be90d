LEVEL = "proof"
TRUSTED = ["CBMC 6.11 (goto-cc front end, symbolic execution, SAT back end)", "clang 18 AST source ranges (arithmetic abstraction)",
           "diagnostics entry points by contract: return the code they are given",
           "target environment by contract on scalar types (size per System-V AMD64; decided in C04)"]
ASSUMPTIONS = ["operands are integer constants already evaluated to their canonical 64-bit value (induction hypothesis of the recursive evaluator)",
               "node types are those the analyzer assigns (assumed; C01 proves the common types)",
               "64-bit * / % are treated as unknown functions common to code and specification (sound), except in the replay",
               "overflow of signed + - * in a constant expression is undefined in C; the wrapped value is required here, matching run time"]
ERR = ["kefir_set_error", "kefir_set_errorf", "kefir_set_source_error", "kefir_set_source_errorf"]
OPS = "SUBTRACT ADD DIVIDE MODULO MULTIPLY SHIFT_LEFT SHIFT_RIGHT LESS LESS_EQUAL GREATER GREATER_EQUAL EQUAL NOT_EQUAL BITWISE_AND BITWISE_OR BITWISE_XOR LOGICAL_AND LOGICAL_OR".split()
CE = "ast/constant_expression/"
COMMON = [CE + "cast_operator.c", "ast/type_conv.c", "ast/type.c", "ast/type/basic.c"]
ST = ERR + ["kefir_ast_constant_expression_value_evaluate"]
UNITS = [
 dict(name="fold_binary", file="fold_binary.c", enforce=["kefir_ast_evaluate_binary_operation_node"],
      srcs=[CE + "binary_operation.c"] + COMMON,
      stubs=ST, abstract_arith=[CE + "binary_operation.c"], unwind=13, checks=["div"],
      cases=[dict(name=o.lower(), defs=["OP=KEFIR_AST_OPERATION_" + o, "LO=0", "HI=12"]) for o in OPS]),
 dict(name="fold_other", file="fold_other.c", enforce=["kefir_ast_evaluate_unary_operation_node", "kefir_ast_evaluate_cast_operator_node",
      "kefir_ast_evaluate_conditional_operator_node", "kefir_ast_constant_expression_value_cast"],
      srcs=[CE + "unary_operation.c", CE + "conditional_operator.c"] + COMMON, stubs=ST, unwind=13,
      cases=[dict(name=n, defs=["PART=%d" % i]) for i, n in enumerate(["unary", "cast", "conditional", "conditional_short"])]),
]
