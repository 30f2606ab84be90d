prop("C01", "Integer promotion and usual arithmetic conversions follow C on the LP64 target",
     "For every pair of arithmetic operand types (including enumerations and bit-fields of every width), the type kefir gives to the usual arithmetic conversion of the two is exactly the one C17 6.3.1.8 prescribes on the System-V AMD64 target, and it does not depend on operand order. Integer promotion (6.3.1.1) and default argument promotion (6.5.2.2) likewise give exactly the prescribed type.",
     "every ordered pair of arithmetic types and every bit-field width 1..64", "tests sample a few type pairs; a wrong common type shows only in values near the width boundaries or through _Generic",
     ["source/ast/type_conv.c", "source/ast/type/basic.c", "source/compiler/profile.c"], [("common arithmetic type", "kefir_ast_type_common_arithmetic"), ("integer promotion", "kefir_ast_type_int_promotion"), ("default argument promotion", "kefir_ast_type_function_default_argument_promotion")],
     "all ordered type pairs and all bit-field widths enumerated exhaustively by the verifier; no bound", tech=CB)
prop("C02", "Integer constant expressions have exactly the value the C abstract machine gives",
     "For every operator and every operand types and values, folding an integer constant expression (unary, binary, relational, logical, conditional, cast) produces exactly the value C17 prescribes in the type of the expression, represented canonically in that type. A division or remainder by a constant zero is rejected with a diagnostic, and logical and conditional operators evaluate only the operands C says are evaluated.",
     "all operators x all integer types x all 64-bit operand values", "tests fold a handful of literals; errors need particular type/value combinations (sign, width, boundary)",
     ["source/ast/constant_expression/binary_operation.c", "source/ast/constant_expression/unary_operation.c", "source/ast/constant_expression/cast_operator.c", "source/ast/constant_expression/conditional_operator.c"],
     [("constant folding of binary operators", "kefir_ast_evaluate_binary_operation_node"), ("unary operators", "kefir_ast_evaluate_unary_operation_node"), ("casts", "kefir_ast_evaluate_cast_operator_node"), ("conditional operator", "kefir_ast_evaluate_conditional_operator_node")], "values symbolic over 64 bits, types enumerated; * / % as functions shared by code and spec", tech=CB)
prop("C03", "Every run-time operation computes its IR operation for all operand values",
     "Executing any run-time support operation of compiled code (integer, floating, comparison, conversion, load/store, bit-field, stack and control operations) leaves exactly the operation's mathematical result on the operand stack, consumes exactly its operands, writes no other memory, and continues at the right next instruction. This holds for all operand values, including negative, boundary, NaN and signed-zero ones, for loads, stores, comparisons, bit-field extraction/insertion and integer arithmetic.",
     "all 64-bit operand values, all immediate arguments, all memory contents", "the end-to-end tests execute the operations on a few values each",
     ["source/runtime/amd64_sysv.s"], [("operation handlers", "__kefirrt_*_impl")],
     "every operation; floating arithmetic itself is the hardware's (uninterpreted, shared)", py="python3-vt",
     tech="contract-based deductive verification: per-operation contracts, weakest-precondition style verification conditions over the assembled runtime, discharged by z3")
prop("C06", "Compiled operators compute the C value for every operand type and value",
     "For every operator expression (unary, binary, cast, conditional, comma, pointer arithmetic and comparison) and all operand types, the code the compiler emits evaluates the operands C says are evaluated, once and in order, and leaves on the operand stack exactly the value C17 gives the expression, represented canonically in its type. Implicit conversions between all arithmetic types, _Bool, enumerations and pointers give the value C17 6.3 prescribes.",
     "every operator x every pair of operand types x all operand values", "the tests compare emitted IR for a few samples or run a few values; a wrong opcode, missing conversion or missing normalisation shows only for particular type and value combinations",
     ["source/ast-translator/nodes/binary_operation.c", "source/ast-translator/nodes/unary_operation.c", "source/ast-translator/typeconv.c", "source/ast-translator/nodes/cast_operator.c", "source/ast-translator/nodes/conditional_operator.c", "source/ast-translator/nodes/constant.c"],
     [("binary operators", "kefir_ast_translate_binary_operation_node"), ("unary operators", "kefir_ast_translate_unary_operation_node"), ("conversions", "kefir_ast_translate_typeconv"), ("conditional operator", "kefir_ast_translate_conditional_operator_node")],
     "values symbolic over 64 bits, types enumerated exhaustively; the emitted instructions are executed under the contracts proved for the runtime in C03; floating arithmetic and * / % as functions shared by code and spec", tech=CB)
prop("C08", "Assignments and increments store and yield the C value, and disturb nothing else",
     "For every simple assignment, compound assignment, and prefix or postfix increment or decrement, over objects of every scalar type and bit-fields of every width and offset, the emitted code stores into the object exactly the converted value C17 6.5.16 / 6.5.2.4 / 6.5.3.1 prescribes. No memory outside the object (and, for a bit-field, no bit outside its field) changes, and the expression yields the value C prescribes while evaluating each operand exactly once.",
     "every assignment operator x every object and value type x all values x all bit-field widths and offsets", "tests execute a few assignments with small values; truncation, sign and neighbouring-bit errors need particular values",
     ["source/ast-translator/nodes/assignment_operator.c", "source/ast-translator/nodes/unary_operation.c", "source/ast-translator/value.c", "source/ast-translator/lvalue.c"],
     [("assignment", "kefir_ast_translate_assignment_operator_node"), ("increments", "kefir_ast_translate_unary_operation_node"), ("stores", "kefir_ast_translator_store_value"), ("loads", "kefir_ast_translator_resolve_value")],
     "values and memory symbolic; types enumerated; quick tier samples bit-field placements (thorough: all); floating arithmetic and * / % as functions shared by code and spec", tech=CB)
prop("C07", "Statements transfer control as C prescribes with a balanced operand stack",
     "For every if, switch, while, do, for, block, label, break, continue, goto and return statement, whatever the type and value of its controlling expression, the emitted code executes next exactly the part C17 6.8 prescribes and leaves the operand stack as it found it. A case label matches exactly when its value converted to the promoted controlling type equals the controlling value; a returned value is converted to the return type. Leaving a block by any path releases exactly the storage of the variable length arrays that go out of scope.",
     "every statement form x every controlling type and value x every jump out of nested blocks", "tests run a few loops with int conditions; a wrong branch, an unbalanced stack or unreleased storage shows for particular types, values, or after many iterations",
     ["source/ast-translator/nodes/", "source/ast-translator/jump.c", "source/ast-translator/flow_control.c", "source/ast/flow_control.c", "source/ast/analyzer/nodes/case_statement.c"],
     [("loops", "kefir_ast_translate_for_statement_node"), ("switch", "kefir_ast_translate_switch_statement_node"), ("blocks", "kefir_ast_translate_compound_statement_node"), ("jumps", "kefir_ast_translate_jump"), ("return", "kefir_ast_translate_return_statement_node"), ("case labels", "kefir_ast_analyze_case_statement_node")],
     "values and labels symbolic, types enumerated; up to 3 labels per switch, 2 items and 2 variable length arrays per block, fixed nesting for jumps (bounded)", tech=CB)
prop("C04", "Size, alignment and member offsets of every type follow the System-V AMD64 ABI",
     "For every complete object type (scalars, pointers, enumerations, arrays, structures, unions, anonymous members, flexible array members, bit-fields, _Alignas and va_list), the size and alignment kefir uses, and the offset, size and alignment of every member and element reached by any designator, are exactly those the System-V AMD64 psABI prescribes. A bit-field never straddles a storage unit of its declared type, two bit-fields never share bits, and it starts at the first bit the ABI allows.",
     "every member type x every array length x every offset reached x every bit-field width and placement", "tests compute a few fixed layouts; a wrong offset or padding shows only for particular combinations of sizes and alignments and breaks linking with other compilers' code",
     ["source/codegen/amd64/system-v/abi/data_layout.c", "source/codegen/amd64/system-v/bitfields.c", "source/codegen/amd64/system-v/platform.c", "source/ast-translator/type_translate.c", "source/ast-translator/layout.c", "source/ast-translator/environment.c", "source/ast/type_layout.c", "source/ir/type.c"],
     [("target environment", "kefir_ast_translator_environment_init"), ("type translation", "kefir_ast_translate_object_type"), ("layout evaluation", "kefir_ast_translator_evaluate_type_layout"), ("data layout", "kefir_amd64_sysv_type_layout"), ("bit-fields", "kefir_codegen_amd64_sysv_bitfield_allocator")],
     "lengths, preceding sizes, widths symbolic; member types enumerated, nesting two deep (bounded in nesting)", tech=CB)
