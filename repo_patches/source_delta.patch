From 1cce1c1e7e459b1ec63a4a79bb1f970b768176a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:03 +0000
Subject: [PATCH 01/16] fix: give long long a greater conversion rank than long

---
 source/ast/type/basic.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/ast/type/basic.c b/source/ast/type/basic.c
index f20daa1..522b6a7 100644
--- a/source/ast/type/basic.c
+++ b/source/ast/type/basic.c
@@ -98,11 +98,11 @@ SCALAR_TYPE(unsigned_int, KEFIR_AST_TYPE_SCALAR_UNSIGNED_INT, 3)
 SCALAR_TYPE(signed_int, KEFIR_AST_TYPE_SCALAR_SIGNED_INT, 3)
 SCALAR_TYPE(unsigned_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG, 4)
 SCALAR_TYPE(signed_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG, 4)
-SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 4)
-SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 4)
-SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 5)
-SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 6)
-SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 7)
+SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 5)
+SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 5)
+SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 6)
+SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 7)
+SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 8)
 
 #undef SCALAR_TYPE
 
-- 
2.43.0


From a4cc6ee6b7f4ed93bb3f4b2e4752a75c666e2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:07 +0000
Subject: [PATCH 02/16] fix: constant conversions to floating point honour
 unsigned sources and round to double

---
 headers/kefir/ast/constant_expression.h       |  1 +
 .../ast-translator/scope/data_initializer.c   |  3 +-
 .../ast/constant_expression/cast_operator.c   | 30 +++++++++++++++++--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/headers/kefir/ast/constant_expression.h b/headers/kefir/ast/constant_expression.h
index 18df5f7..f99fd22 100644
--- a/headers/kefir/ast/constant_expression.h
+++ b/headers/kefir/ast/constant_expression.h
@@ -86,6 +86,7 @@ kefir_result_t kefir_ast_constant_expression_value_evaluate(struct kefir_mem *,
 kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *, const struct kefir_ast_context *,
                                                         struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_constant_expression_value *,
+                                                        const struct kefir_ast_type *,
                                                         const struct kefir_ast_node_base *,
                                                         const struct kefir_ast_type *);
 
diff --git a/source/ast-translator/scope/data_initializer.c b/source/ast-translator/scope/data_initializer.c
index 45779c8..a4c8ddd 100644
--- a/source/ast-translator/scope/data_initializer.c
+++ b/source/ast-translator/scope/data_initializer.c
@@ -164,7 +164,8 @@ static kefir_result_t visit_value(const struct kefir_ast_designator *designator,
 
     struct kefir_ast_constant_expression_value uncasted_value, value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(param->mem, param->context, expression, &uncasted_value));
-    REQUIRE_OK(kefir_ast_constant_expression_value_cast(param->mem, param->context, &value, &uncasted_value, expression,
+    REQUIRE_OK(kefir_ast_constant_expression_value_cast(param->mem, param->context, &value, &uncasted_value,
+                                                        expression->properties.type, expression,
                                                         resolved_layout->type));
     struct kefir_ir_typeentry *target_typeentry = kefir_ir_type_at(param->type, resolved_layout->value);
     REQUIRE(target_typeentry != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Cannot obtain target IR type entry"));
diff --git a/source/ast/constant_expression/cast_operator.c b/source/ast/constant_expression/cast_operator.c
index 45f848f..bb6d274 100644
--- a/source/ast/constant_expression/cast_operator.c
+++ b/source/ast/constant_expression/cast_operator.c
@@ -85,9 +85,28 @@ static kefir_result_t cast_integral_type(struct kefir_mem *mem, const struct kef
     return KEFIR_OK;
 }
 
+static kefir_result_t cast_integer_to_float(const struct kefir_ast_context *context,
+                                            const struct kefir_ast_type *source_type,
+                                            const struct kefir_ast_constant_expression_value *source,
+                                            kefir_ast_constant_expression_float_t *result) {
+    kefir_bool_t signed_integer = true;
+    const struct kefir_ast_type *unqualified_source = kefir_ast_unqualified_type(source_type);
+    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified_source)) {
+        REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, unqualified_source, &signed_integer));
+    }
+
+    if (signed_integer) {
+        *result = (kefir_ast_constant_expression_float_t) source->integer;
+    } else {
+        *result = (kefir_ast_constant_expression_float_t) source->uinteger;
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                         struct kefir_ast_constant_expression_value *value,
                                                         const struct kefir_ast_constant_expression_value *source,
+                                                        const struct kefir_ast_type *source_type,
                                                         const struct kefir_ast_node_base *node,
                                                         const struct kefir_ast_type *type) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
@@ -96,6 +115,7 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
             KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST constant expression value pointer"));
     REQUIRE(source != NULL,
             KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source AST constant expression value"));
+    REQUIRE(source_type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source AST type"));
     REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid base AST node"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination AST type"));
 
@@ -129,7 +149,7 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
         value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
         switch (source->klass) {
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER:
-                value->floating_point = (kefir_ast_constant_expression_float_t) source->integer;
+                REQUIRE_OK(cast_integer_to_float(context, source_type, source, &value->floating_point));
                 break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
@@ -143,6 +163,10 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_NONE:
                 return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Non-evaluated constant expression");
         }
+
+        if (unqualified->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE) {
+            value->floating_point = (kefir_float64_t) value->floating_point;
+        }
     } else if (unqualified->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         REQUIRE(source->klass != KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->source_location,
@@ -193,7 +217,7 @@ kefir_result_t kefir_ast_evaluate_cast_operator_node(struct kefir_mem *mem, cons
     struct kefir_ast_constant_expression_value arg_value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr, &arg_value));
 
-    REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value, KEFIR_AST_NODE_BASE(node),
-                                                        node->base.properties.type));
+    REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value, node->expr->properties.type,
+                                                        KEFIR_AST_NODE_BASE(node), node->base.properties.type));
     return KEFIR_OK;
 }
-- 
2.43.0


From 6a45dd332a5cce2ecb7eb6e51b83a46e20df2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:07 +0000
Subject: [PATCH 03/16] fix: evaluate integer constant expressions in the type
 of the expression

Operands are converted to their common type and results reduced to the result type; shifts
take the type of the left operand; zero divisors and overflowing signed division no longer
crash the compiler. Preprocessor conditions keep evaluating in (u)intmax_t.
---
 headers/kefir/preprocessor/preprocessor.h     |  3 ++
 .../constant_expression/binary_operation.c    | 41 ++++++++++++++++++-
 .../conditional_operator.c                    | 21 ++++++++--
 .../ast/constant_expression/unary_operation.c |  8 ++++
 source/preprocessor/convert.c                 | 19 +++++++++
 source/preprocessor/preprocessor.c            |  2 +-
 6 files changed, 88 insertions(+), 6 deletions(-)

diff --git a/headers/kefir/preprocessor/preprocessor.h b/headers/kefir/preprocessor/preprocessor.h
index 9628de7..c6b68f1 100644
--- a/headers/kefir/preprocessor/preprocessor.h
+++ b/headers/kefir/preprocessor/preprocessor.h
@@ -123,5 +123,8 @@ kefir_result_t kefir_preprocessor_token_convert(struct kefir_mem *, struct kefir
                                                 const struct kefir_token *);
 kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *, struct kefir_preprocessor *,
                                                        struct kefir_token_buffer *, const struct kefir_token_buffer *);
+kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *, struct kefir_preprocessor *,
+                                                          struct kefir_token_buffer *,
+                                                          const struct kefir_token_buffer *);
 
 #endif
diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index fbab4fb..d55b3e5 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -41,6 +41,19 @@ static kefir_ast_constant_expression_float_t as_float(const struct kefir_ast_con
     return 0.0f;
 }
 
+static kefir_result_t convert_arithmetic_value(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                               const struct kefir_ast_node_base *node,
+                                               const struct kefir_ast_type *type,
+                                               struct kefir_ast_constant_expression_value *value) {
+    REQUIRE(value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER ||
+                value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT,
+            KEFIR_OK);
+    REQUIRE(KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(kefir_ast_unqualified_type(type)), KEFIR_OK);
+    const struct kefir_ast_constant_expression_value source = *value;
+    REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &source, node->properties.type, node, type));
+    return KEFIR_OK;
+}
+
 static kefir_result_t evaluate_pointer_offset(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                               const struct kefir_ast_node_base *node,
                                               struct kefir_ast_constant_expression_pointer *pointer,
@@ -132,8 +145,14 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                                    "Expected constant expression AST node"));
 
     const struct kefir_ast_type *common_arith_type = kefir_ast_type_common_arithmetic(
-        context->type_traits, node->arg1->properties.type, node->arg1->properties.expression_props.bitfield_props,
-        node->arg2->properties.type, node->arg2->properties.expression_props.bitfield_props);
+        context->type_traits, kefir_ast_unqualified_type(node->arg1->properties.type),
+        node->arg1->properties.expression_props.bitfield_props,
+        kefir_ast_unqualified_type(node->arg2->properties.type),
+        node->arg2->properties.expression_props.bitfield_props);
+    if (node->type == KEFIR_AST_OPERATION_SHIFT_LEFT || node->type == KEFIR_AST_OPERATION_SHIFT_RIGHT) {
+        // Type of shift operator is determined solely by its left operand
+        common_arith_type = node->base.properties.type;
+    }
     kefir_bool_t common_type_signed_integer = false;
     if (common_arith_type != NULL && KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(common_arith_type)) {
         REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, common_arith_type, &common_type_signed_integer));
@@ -143,6 +162,12 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg1, &arg1_value));
     if (node->type != KEFIR_AST_OPERATION_LOGICAL_AND && node->type != KEFIR_AST_OPERATION_LOGICAL_OR) {
         REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg2, &arg2_value));
+        if (common_arith_type != NULL) {
+            REQUIRE_OK(convert_arithmetic_value(mem, context, node->arg1, common_arith_type, &arg1_value));
+            if (node->type != KEFIR_AST_OPERATION_SHIFT_LEFT && node->type != KEFIR_AST_OPERATION_SHIFT_RIGHT) {
+                REQUIRE_OK(convert_arithmetic_value(mem, context, node->arg2, common_arith_type, &arg2_value));
+            }
+        }
     }
     switch (node->type) {
         case KEFIR_AST_OPERATION_ADD:
@@ -202,6 +227,9 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
                                                "Expected non-zero divisor in constant expression"));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
+                REQUIRE(arg1_value.integer != KEFIR_AST_CONSTANT_EXPRESSION_INT_MIN || arg2_value.integer != -1,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->base.source_location,
+                                               "Integer overflow in constant expression"));
                 value->integer = arg1_value.integer / arg2_value.integer;
             } else {
                 REQUIRE(arg2_value.integer != 0,
@@ -213,8 +241,14 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             break;
 
         case KEFIR_AST_OPERATION_MODULO:
+            REQUIRE(arg2_value.integer != 0,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                           "Expected non-zero divisor in constant expression"));
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
             if (common_type_signed_integer) {
+                REQUIRE(arg1_value.integer != KEFIR_AST_CONSTANT_EXPRESSION_INT_MIN || arg2_value.integer != -1,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->base.source_location,
+                                               "Integer overflow in constant expression"));
                 value->integer = arg1_value.integer % arg2_value.integer;
             } else {
                 value->uinteger = arg1_value.uinteger % arg2_value.integer;
@@ -392,5 +426,8 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             value->integer = arg1_bool || arg2_bool;
         } break;
     }
+
+    // Reduce the result to its own type
+    REQUIRE_OK(convert_arithmetic_value(mem, context, KEFIR_AST_NODE_BASE(node), node->base.properties.type, value));
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/conditional_operator.c b/source/ast/constant_expression/conditional_operator.c
index 504dc2f..deae3f5 100644
--- a/source/ast/constant_expression/conditional_operator.c
+++ b/source/ast/constant_expression/conditional_operator.c
@@ -23,6 +23,21 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+static kefir_result_t convert_branch(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                     const struct kefir_ast_conditional_operator *node,
+                                     const struct kefir_ast_node_base *branch,
+                                     const struct kefir_ast_constant_expression_value *source,
+                                     struct kefir_ast_constant_expression_value *value) {
+    if (source->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER &&
+        KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(kefir_ast_unqualified_type(node->base.properties.type))) {
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, source, branch->properties.type,
+                                                            branch, node->base.properties.type));
+    } else {
+        *value = *source;
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *mem,
                                                             const struct kefir_ast_context *context,
                                                             const struct kefir_ast_conditional_operator *node,
@@ -72,13 +87,13 @@ kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *me
     if (condition) {
         if (node->expr1 != NULL) {
             REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr1, &arg1_value));
-            *value = arg1_value;
+            REQUIRE_OK(convert_branch(mem, context, node, node->expr1, &arg1_value, value));
         } else {
-            *value = cond_value;
+            REQUIRE_OK(convert_branch(mem, context, node, node->condition, &cond_value, value));
         }
     } else {
         REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr2, &arg2_value));
-        *value = arg2_value;
+        REQUIRE_OK(convert_branch(mem, context, node, node->expr2, &arg2_value, value));
     }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/unary_operation.c b/source/ast/constant_expression/unary_operation.c
index e97e3b5..bf10dfe 100644
--- a/source/ast/constant_expression/unary_operation.c
+++ b/source/ast/constant_expression/unary_operation.c
@@ -182,5 +182,13 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
             REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, context->target_env, opaque_type));
         } break;
     }
+
+    if (node->type == KEFIR_AST_OPERATION_PLUS || node->type == KEFIR_AST_OPERATION_NEGATE ||
+        node->type == KEFIR_AST_OPERATION_INVERT) {
+        // Reduce the result to its own type
+        const struct kefir_ast_constant_expression_value result = *value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &result, node->base.properties.type,
+                                                            KEFIR_AST_NODE_BASE(node), node->base.properties.type));
+    }
     return KEFIR_OK;
 }
diff --git a/source/preprocessor/convert.c b/source/preprocessor/convert.c
index de7d4b9..0ab7ce3 100644
--- a/source/preprocessor/convert.c
+++ b/source/preprocessor/convert.c
@@ -270,3 +270,22 @@ kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *mem, st
     }
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *mem,
+                                                          struct kefir_preprocessor *preprocessor,
+                                                          struct kefir_token_buffer *dst,
+                                                          const struct kefir_token_buffer *src) {
+    REQUIRE_OK(kefir_preprocessor_token_convert_buffer(mem, preprocessor, dst, src));
+    for (kefir_size_t i = 0; i < dst->length; i++) {
+        // Integers in conditional directives act as if they had (u)intmax_t type
+        struct kefir_token *token = &dst->tokens[i];
+        if (token->klass == KEFIR_TOKEN_CONSTANT) {
+            if (token->constant.type == KEFIR_CONSTANT_TOKEN_INTEGER) {
+                token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_INTEGER;
+            } else if (token->constant.type == KEFIR_CONSTANT_TOKEN_UNSIGNED_INTEGER) {
+                token->constant.type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER;
+            }
+        }
+    }
+    return KEFIR_OK;
+}
diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index e5a5ed1..5545f4b 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -338,7 +338,7 @@ static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_pre
     struct kefir_ast_constant_expression_value expr_value;
 
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
-    kefir_result_t res = kefir_preprocessor_token_convert_buffer(mem, preprocessor, &tokens, pp_tokens);
+    kefir_result_t res = kefir_preprocessor_token_convert_condition(mem, preprocessor, &tokens, pp_tokens);
     REQUIRE_CHAIN(&res, kefir_parser_token_cursor_init(&cursor, tokens.tokens, tokens.length));
     REQUIRE_CHAIN(&res, kefir_parser_init(mem, &parser, preprocessor->lexer.symbols, &cursor,
                                           preprocessor->extensions != NULL ? preprocessor->extensions->parser : NULL));
-- 
2.43.0


From 8af287fcc7e26768100a3621cf1b985e9496ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:38 +0000
Subject: [PATCH 04/16] fix: bit-field access handlers honour bit-fields as
 wide as their 64-bit unit

---
 source/runtime/amd64_sysv.s | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 8b869c9..2a908f4 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -673,9 +673,10 @@ define_opcode bcopy
 define_opcode extubits
     mov edx, [INSTR_ARG_PTR]            # Offset
     mov ecx, [INSTR_ARG_PTR4]           # Width
-    mov r11, 1                          # Mask = (1 << Width) - 1
-    shlx r11, r11, rcx
-    sub r11, 1
+    neg rcx                             # Mask = -1 >> (64 - Width)
+    add rcx, 64
+    mov r11, -1
+    shrx r11, r11, rcx
     pop rax                             # Value = (Bitfield >> Offset) & Mask
     shrx rax, rax, rdx
     and rax, r11
@@ -709,10 +710,11 @@ define_opcode insertbits
     sub rax, rdx                        # RAX = 64 - Width - Offset
     shrx rsi, rsi, rax
 
-    # Mask bit-field: Bit-field = Bit-field & ~(((1 << Width) - 1) << Offset)
-    mov rax, 1
-    shlx rax, rax, rcx
-    sub rax, 1
+    # Mask bit-field: Bit-field = Bit-field & ~((-1 >> (64 - Width)) << Offset)
+    neg rcx
+    add rcx, 64
+    mov rax, -1
+    shrx rax, rax, rcx
     shlx rax, rax, rdx
     not rax
     and rdi, rax
-- 
2.43.0


From 17b8819c78f638e66d9898275092fea442d44c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:38 +0000
Subject: [PATCH 05/16] fix: floating-point negative zero controlling
 expression of if and loops is false

---
 headers/kefir/ast-translator/typeconv.h       |  2 ++
 .../nodes/conditional_statement.c             |  5 ++---
 .../ast-translator/nodes/do_while_statement.c |  5 ++---
 source/ast-translator/nodes/for_statement.c   |  5 ++---
 source/ast-translator/nodes/while_statement.c |  5 ++---
 source/ast-translator/typeconv.c              | 21 +++++++++++++++++++
 6 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/headers/kefir/ast-translator/typeconv.h b/headers/kefir/ast-translator/typeconv.h
index a055630..1ad9480 100644
--- a/headers/kefir/ast-translator/typeconv.h
+++ b/headers/kefir/ast-translator/typeconv.h
@@ -28,6 +28,8 @@ kefir_result_t kefir_ast_translate_typeconv_normalize(struct kefir_irbuilder_blo
                                                       const struct kefir_ast_type_traits *,
                                                       const struct kefir_ast_type *);
 
+kefir_result_t kefir_ast_translate_typeconv_condition(struct kefir_irbuilder_block *, const struct kefir_ast_type *);
+
 kefir_result_t kefir_ast_translate_typeconv(struct kefir_irbuilder_block *, const struct kefir_ast_type_traits *,
                                             const struct kefir_ast_type *, const struct kefir_ast_type *);
 
diff --git a/source/ast-translator/nodes/conditional_statement.c b/source/ast-translator/nodes/conditional_statement.c
index e63eebc..ed3de4c 100644
--- a/source/ast-translator/nodes/conditional_statement.c
+++ b/source/ast-translator/nodes/conditional_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
@@ -38,9 +39,7 @@ kefir_result_t kefir_ast_translate_conditional_statement_node(struct kefir_mem *
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_condition(builder, condition_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
diff --git a/source/ast-translator/nodes/do_while_statement.c b/source/ast-translator/nodes/do_while_statement.c
index 124878b..907beb7 100644
--- a/source/ast-translator/nodes/do_while_statement.c
+++ b/source/ast-translator/nodes/do_while_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/core/util.h"
@@ -46,9 +47,7 @@ kefir_result_t kefir_ast_translate_do_while_statement_node(struct kefir_mem *mem
 
     const struct kefir_ast_type *controlling_expr_type =
         kefir_ast_translator_normalize_type(node->controlling_expr->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_condition(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, beginning));
 
     REQUIRE_OK(kefir_ast_translator_flow_control_point_resolve(mem, flow_control_stmt->value.loop.end,
diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 5a152f9..a1e642f 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
@@ -65,9 +66,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
         const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
             mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
-        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-        }
+        REQUIRE_OK(kefir_ast_translate_typeconv_condition(builder, controlling_expr_type));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
diff --git a/source/ast-translator/nodes/while_statement.c b/source/ast-translator/nodes/while_statement.c
index df6a92d..d31af08 100644
--- a/source/ast-translator/nodes/while_statement.c
+++ b/source/ast-translator/nodes/while_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
@@ -43,9 +44,7 @@ kefir_result_t kefir_ast_translate_while_statement_node(struct kefir_mem *mem,
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
     const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
         mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_condition(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(mem, flow_control_stmt->value.loop.end, builder->block,
diff --git a/source/ast-translator/typeconv.c b/source/ast-translator/typeconv.c
index ff306d9..95b9c9c 100644
--- a/source/ast-translator/typeconv.c
+++ b/source/ast-translator/typeconv.c
@@ -89,6 +89,27 @@ static kefir_result_t cast_to_long_double(struct kefir_irbuilder_block *builder,
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_ast_translate_typeconv_condition(struct kefir_irbuilder_block *builder,
+                                                      const struct kefir_ast_type *origin) {
+    REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
+    REQUIRE(origin != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid origin AST type"));
+
+    // Floating-point value is true if and only if it compares unequal to zero
+    const struct kefir_ast_type *normalized_origin = kefir_ast_translator_normalize_type(origin);
+    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(normalized_origin)) {
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+    } else if (normalized_origin->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE) {
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, 0));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F64EQUALS, 0));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
+    } else if (normalized_origin->tag == KEFIR_AST_TYPE_SCALAR_FLOAT) {
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, 0));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F32EQUALS, 0));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t cast_to_integer(const struct kefir_ast_type_traits *type_traits,
                                       struct kefir_irbuilder_block *builder, const struct kefir_ast_type *origin,
                                       const struct kefir_ast_type *target) {
-- 
2.43.0


From ece39441dc3f084d88bd5e755aee76bd4997c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:38 +0000
Subject: [PATCH 06/16] fix: pop both slots of long double tail expression in
 for statement

---
 source/ast-translator/nodes/for_statement.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index a1e642f..a55ca97 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -83,6 +83,9 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
                 KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to obtain normalized expression type"));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->tail, builder, context));
         if (tail_type->tag != KEFIR_AST_TYPE_VOID) {
+            if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(tail_type)) {
+                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
+            }
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
         }
     }
-- 
2.43.0


From 02ddb8e60cbcf588119ee6bf94963d08a02a5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:12 +0000
Subject: [PATCH 07/16] fix: convert case labels to the promoted type of switch
 controlling expression

---
 source/ast/analyzer/nodes/case_statement.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/ast/analyzer/nodes/case_statement.c b/source/ast/analyzer/nodes/case_statement.c
index 45acc00..68a79b9 100644
--- a/source/ast/analyzer/nodes/case_statement.c
+++ b/source/ast/analyzer/nodes/case_statement.c
@@ -72,6 +72,12 @@ kefir_result_t kefir_ast_analyze_case_statement_node(struct kefir_mem *mem, cons
         REQUIRE(value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                        "Expected AST case label to be an integral constant expression"));
+        // Case label is converted to the promoted type of switch controlling expression
+        if (switch_statement->value.switchStatement.controlling_expression_type != NULL) {
+            REQUIRE_OK(kefir_ast_constant_expression_value_cast(
+                mem, context, &value, &value, node->expression->properties.type, node->expression,
+                switch_statement->value.switchStatement.controlling_expression_type));
+        }
         struct kefir_ast_flow_control_point *point = kefir_ast_flow_control_point_alloc(mem, direct_parent);
         REQUIRE(point != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST flow control point"));
         kefir_result_t res =
-- 
2.43.0


From e1144440f9645a1d85cf11fb0e3c4bb69674a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:12 +0000
Subject: [PATCH 08/16] fix: test both slots of long double condition in
 conditional operator

---
 source/ast-translator/nodes/conditional_operator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/ast-translator/nodes/conditional_operator.c b/source/ast-translator/nodes/conditional_operator.c
index 4b0f303..89ddf97 100644
--- a/source/ast-translator/nodes/conditional_operator.c
+++ b/source/ast-translator/nodes/conditional_operator.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/util.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 
@@ -32,8 +33,13 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
     REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
     REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST conditional operator node"));
 
+    const struct kefir_ast_type *condition_type =
+        kefir_ast_translator_normalize_type(node->condition->properties.type);
     if (node->expr1 != NULL) {
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+        }
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
-- 
2.43.0


From dbe8ecb9648e5580e23e18d95d101d360d07d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:34 +0000
Subject: [PATCH 09/16] fix: conversions to float clear the upper half of the
 operand stack slot

---
 source/runtime/amd64_sysv.s | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 2a908f4..98051cc 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -979,7 +979,8 @@ define_opcode intcf32
     mov rax, [rsp]
     pxor xmm0, xmm0
     cvtsi2ss xmm0, rax
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 
 define_opcode intcf64
@@ -995,7 +996,8 @@ define_opcode uintcf32
     test DATA_REG, DATA_REG
     js __kefirrt_uintcf32_signed
     cvtsi2ss xmm0, DATA_REG
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 __kefirrt_uintcf32_signed:
     mov DATA2_REG, DATA_REG
@@ -1004,7 +1006,8 @@ __kefirrt_uintcf32_signed:
     or  DATA_REG, DATA2_REG
     cvtsi2ss xmm0, DATA_REG
     addss xmm0, xmm0
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 
 define_opcode uintcf64
@@ -1034,7 +1037,8 @@ define_opcode f32cf64
 define_opcode f64cf32
     movsd xmm0, [rsp]
     cvtsd2ss xmm0, xmm0
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 
 define_opcode ldcint    
-- 
2.43.0


From 6b2798f2403b93bc56dd3afbe7ac728e73e68a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:26 +0000
Subject: [PATCH 10/16] fix: conditional operator with omitted operand handles
 long double conditions

---
 source/ast-translator/nodes/conditional_operator.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/ast-translator/nodes/conditional_operator.c b/source/ast-translator/nodes/conditional_operator.c
index 89ddf97..c6f652c 100644
--- a/source/ast-translator/nodes/conditional_operator.c
+++ b/source/ast-translator/nodes/conditional_operator.c
@@ -50,9 +50,18 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp2Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
     } else {
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 0));
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+        } else {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 0));
+        }
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
+        }
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp1Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
-- 
2.43.0


From b312725dc10ab2e6fcc0fa5399a2c61b8600bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 11/16] fix: wrap the result of unsigned compound assignment
 operators to their type

---
 .../ast-translator/nodes/assignment_operator.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 5f5b76c..8066792 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -112,6 +112,19 @@ static kefir_result_t reorder_assignment_arguments(struct kefir_irbuilder_block
     return KEFIR_OK;
 }
 
+static kefir_result_t normalize_operation_result(struct kefir_ast_translator_context *context,
+                                                 struct kefir_irbuilder_block *builder,
+                                                 const struct kefir_ast_type *type) {
+    REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type), KEFIR_OK);
+    kefir_bool_t signedness;
+    REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, type, &signedness));
+    if (!signedness) {
+        // Unsigned operations wrap around the width of their type
+        REQUIRE_OK(kefir_ast_translate_typeconv_normalize(builder, context->ast_context->type_traits, type));
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_multiplication(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                                struct kefir_irbuilder_block *builder,
                                                const struct kefir_ast_assignment_operator *node) {
@@ -158,6 +171,7 @@ static kefir_result_t translate_multiplication(struct kefir_mem *mem, struct kef
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMUL, 0));
             break;
     }
+    REQUIRE_OK(normalize_operation_result(context, builder, common_type));
     REQUIRE_OK(
         kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
@@ -216,6 +230,7 @@ static kefir_result_t translate_divide(struct kefir_mem *mem, struct kefir_ast_t
             }
         } break;
     }
+    REQUIRE_OK(normalize_operation_result(context, builder, common_type));
     REQUIRE_OK(
         kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
@@ -294,6 +309,7 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
             return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unexpected assignment operation");
     }
 
+    REQUIRE_OK(normalize_operation_result(context, builder, common_type));
     REQUIRE_OK(
         kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
@@ -349,6 +365,7 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IADD, 0));
                 break;
         }
+        REQUIRE_OK(normalize_operation_result(context, builder, common_type));
         REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type,
                                                 result_normalized_type));
     } else {
@@ -433,6 +450,7 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_ISUB, 0));
                 break;
         }
+        REQUIRE_OK(normalize_operation_result(context, builder, common_type));
         REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type,
                                                 result_normalized_type));
     } else {
-- 
2.43.0


From 004ffcd2c0e537aa2ed64f248bbd9b21d5d2196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 12/16] fix: select type and signedness of %= and shift
 assignments from the (promoted) operand type

---
 .../nodes/assignment_operator.c               | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 8066792..3adbc35 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -248,10 +248,17 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, value_init_normalized_type);
     REQUIRE(value_normalized_type != NULL,
             KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
-    const struct kefir_ast_type *common_type = kefir_ast_type_common_arithmetic(
-        context->ast_context->type_traits, target_normalized_type,
-        node->target->properties.expression_props.bitfield_props, value_normalized_type,
-        node->value->properties.expression_props.bitfield_props);
+    const struct kefir_ast_type *common_type = NULL;
+    if (node->operation == KEFIR_AST_ASSIGNMENT_SHIFT_LEFT || node->operation == KEFIR_AST_ASSIGNMENT_SHIFT_RIGHT) {
+        // Type of a shift is the one of promoted left operand
+        common_type = kefir_ast_type_int_promotion(context->ast_context->type_traits, target_normalized_type,
+                                                   node->target->properties.expression_props.bitfield_props);
+    } else {
+        common_type = kefir_ast_type_common_arithmetic(context->ast_context->type_traits, target_normalized_type,
+                                                       node->target->properties.expression_props.bitfield_props,
+                                                       value_normalized_type,
+                                                       node->value->properties.expression_props.bitfield_props);
+    }
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -269,7 +276,11 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
     switch (node->operation) {
         case KEFIR_AST_ASSIGNMENT_MODULO: {
             kefir_bool_t signedness;
-            REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, value_normalized_type, &signedness));
+            REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, common_type, &signedness));
+            if (!signedness) {
+                REQUIRE_OK(
+                    kefir_ast_type_is_signed(context->ast_context->type_traits, value_normalized_type, &signedness));
+            }
 
             if (signedness) {
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMOD, 0));
@@ -284,7 +295,11 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
 
         case KEFIR_AST_ASSIGNMENT_SHIFT_RIGHT: {
             kefir_bool_t signedness;
-            REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, value_normalized_type, &signedness));
+            REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, common_type, &signedness));
+            if (!signedness) {
+                REQUIRE_OK(
+                    kefir_ast_type_is_signed(context->ast_context->type_traits, value_normalized_type, &signedness));
+            }
 
             if (signedness) {
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IARSHIFT, 0));
-- 
2.43.0


From 226306dd991992aad438c0755fda8d662577b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 13/16] fix: value of prefix increment/decrement of a bit-field
 is truncated to its width

---
 source/ast-translator/nodes/unary_operation.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index 20c4040..46c831f 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -247,6 +247,16 @@ static kefir_result_t translate_preincdec(struct kefir_mem *mem, struct kefir_as
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
     }
     REQUIRE_OK(kefir_ast_translator_store_lvalue(mem, context, builder, node->arg));
+
+    if (node->arg->properties.expression_props.bitfield_props.bitfield &&
+        KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(normalized_type)) {
+        // The value of expression is the new value of bit-field
+        kefir_bool_t signedness;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, normalized_type, &signedness));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder,
+                                                   signedness ? KEFIR_IROPCODE_EXTSBITS : KEFIR_IROPCODE_EXTUBITS, 0,
+                                                   node->arg->properties.expression_props.bitfield_props.width));
+    }
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 6d7bcdf8c0165941a127b7dd05ed84646f39b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:29 +0000
Subject: [PATCH 14/16] fix: convert returned values of qualified types to the
 return type

---
 source/ast-translator/nodes/return_statement.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/ast-translator/nodes/return_statement.c b/source/ast-translator/nodes/return_statement.c
index 736c061..a5165af 100644
--- a/source/ast-translator/nodes/return_statement.c
+++ b/source/ast-translator/nodes/return_statement.c
@@ -45,10 +45,10 @@ kefir_result_t kefir_ast_translate_return_statement_node(struct kefir_mem *mem,
                 KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
 
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expression, builder, context));
-        if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(node->expression->properties.type)) {
-            REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits,
-                                                    node->expression->properties.type,
-                                                    node->base.properties.statement_props.return_type));
+        if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(return_normalized_type)) {
+            REQUIRE_OK(kefir_ast_translate_typeconv(
+                builder, context->ast_context->type_traits, return_normalized_type,
+                kefir_ast_translator_normalize_type(node->base.properties.statement_props.return_type)));
         }
     }
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_RET, 0));
-- 
2.43.0


From 42566a26fcaebd12951c44788be8fea1c0085ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:50 +0000
Subject: [PATCH 15/16] fix: release exactly the variable length arrays that
 are live at a jump or block exit

---
 headers/kefir/ast-translator/misc.h           |  5 ++
 source/ast-translator/jump.c                  | 46 +++++--------------
 source/ast-translator/misc.c                  | 19 ++++++++
 .../ast-translator/nodes/compound_statement.c | 12 ++---
 .../nodes/statement_expression.c              | 12 ++---
 5 files changed, 45 insertions(+), 49 deletions(-)

diff --git a/headers/kefir/ast-translator/misc.h b/headers/kefir/ast-translator/misc.h
index 0b8c3dd..3b39cce 100644
--- a/headers/kefir/ast-translator/misc.h
+++ b/headers/kefir/ast-translator/misc.h
@@ -35,4 +35,9 @@ kefir_result_t kefir_ast_translator_resolve_type_layout(struct kefir_irbuilder_b
 kefir_result_t kefir_ast_translator_resolve_vla_element(struct kefir_mem *, struct kefir_ast_translator_context *,
                                                         struct kefir_irbuilder_block *, kefir_id_t);
 
+kefir_result_t kefir_ast_translator_release_vla_elements(struct kefir_mem *, struct kefir_ast_translator_context *,
+                                                         struct kefir_irbuilder_block *,
+                                                         const struct kefir_list_entry *,
+                                                         const struct kefir_list_entry *);
+
 #endif
diff --git a/source/ast-translator/jump.c b/source/ast-translator/jump.c
index 28f4870..d605d90 100644
--- a/source/ast-translator/jump.c
+++ b/source/ast-translator/jump.c
@@ -47,47 +47,23 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
     struct kefir_ast_flow_control_structure *current_origin_parent = original_position->parent;
     while (current_origin_parent != NULL && current_origin_parent != common_parent) {
         if (current_origin_parent->type == KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK) {
-            if (current_origin_parent->value.block.contains_vla) {
-                const struct kefir_ast_flow_control_data_element *vla_element = NULL;
-                REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(
-                    &current_origin_parent->value.block.data_elements, &vla_element));
-
-                REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
-            }
+            // Only VLAs declared before the jump are to be released
+            REQUIRE_OK(kefir_ast_translator_release_vla_elements(mem, context, builder,
+                                                                 top_origin_block->parent_data_elts.tail, NULL));
         }
         top_origin_block = current_origin_parent->parent_point;
         current_origin_parent =
             current_origin_parent->parent_point != NULL ? current_origin_parent->parent_point->parent : NULL;
     }
 
-    const struct kefir_list_entry *top_target_block_iter = top_target_block->parent_data_elts.head;
-    const struct kefir_list_entry *top_origin_block_iter = top_origin_block->parent_data_elts.head;
-    for (; top_target_block_iter != NULL;
-         kefir_list_next(&top_target_block_iter), kefir_list_next(&top_origin_block_iter)) {
-        REQUIRE(top_origin_block_iter == top_target_block_iter,
-                KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, source_location,
-                                       "Cannot jump in the scope with uninitialized VLA variables"));
-
-        if (top_target_block_iter == top_target_block->parent_data_elts.tail) {
-            kefir_list_next(&top_origin_block_iter);
-            break;
-        }
-        REQUIRE(top_origin_block_iter != top_origin_block->parent_data_elts.tail,
-                KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, source_location,
-                                       "Cannot jump in the scope with uninitialized VLA variables"));
-    }
-
-    if (top_origin_block_iter != NULL) {
-        const struct kefir_ast_flow_control_data_element *vla_element = top_origin_block_iter->value;
-        REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(&current_origin_parent->value.block.data_elements,
-                                                                      &vla_element));
-
-        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
-    }
+    const struct kefir_list_entry *preserved = top_target_block->parent_data_elts.tail;
+    const struct kefir_list_entry *iter = top_origin_block->parent_data_elts.tail;
+    for (; iter != NULL && iter != preserved; iter = iter->prev) {}
+    REQUIRE(iter == preserved,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, source_location,
+                                   "Cannot jump in the scope with uninitialized VLA variables"));
+    REQUIRE_OK(kefir_ast_translator_release_vla_elements(mem, context, builder,
+                                                         top_origin_block->parent_data_elts.tail, preserved));
 
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_JMP, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(mem, target_position, builder->block,
diff --git a/source/ast-translator/misc.c b/source/ast-translator/misc.c
index b38df10..31c29eb 100644
--- a/source/ast-translator/misc.c
+++ b/source/ast-translator/misc.c
@@ -154,3 +154,22 @@ kefir_result_t kefir_ast_translator_resolve_vla_element(struct kefir_mem *mem,
                                                vla_element_layout->value));
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_ast_translator_release_vla_elements(struct kefir_mem *mem,
+                                                         struct kefir_ast_translator_context *context,
+                                                         struct kefir_irbuilder_block *builder,
+                                                         const struct kefir_list_entry *last,
+                                                         const struct kefir_list_entry *preserved) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translator context"));
+    REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
+
+    // Each VLA has opened its own scope, thus scopes are closed in the reverse order of declarations
+    for (const struct kefir_list_entry *iter = last; iter != NULL && iter != preserved; iter = iter->prev) {
+        ASSIGN_DECL_CAST(const struct kefir_ast_flow_control_data_element *, vla_element, iter->value);
+        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
+    }
+    return KEFIR_OK;
+}
diff --git a/source/ast-translator/nodes/compound_statement.c b/source/ast-translator/nodes/compound_statement.c
index 20dd84f..321359f 100644
--- a/source/ast-translator/nodes/compound_statement.c
+++ b/source/ast-translator/nodes/compound_statement.c
@@ -48,13 +48,11 @@ kefir_result_t kefir_ast_translate_compound_statement_node(struct kefir_mem *mem
         }
     }
     if (node->base.properties.statement_props.flow_control_statement->value.block.contains_vla) {
-        const struct kefir_ast_flow_control_data_element *vla_element = NULL;
-        REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(
-            &node->base.properties.statement_props.flow_control_statement->value.block.data_elements, &vla_element));
-
-        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
+        REQUIRE_OK(kefir_ast_translator_release_vla_elements(
+            mem, context, builder,
+            kefir_list_tail(&node->base.properties.statement_props.flow_control_statement->value.block.data_elements
+                                 .elements),
+            NULL));
     }
     return KEFIR_OK;
 }
diff --git a/source/ast-translator/nodes/statement_expression.c b/source/ast-translator/nodes/statement_expression.c
index a1052d1..db4f225 100644
--- a/source/ast-translator/nodes/statement_expression.c
+++ b/source/ast-translator/nodes/statement_expression.c
@@ -60,13 +60,11 @@ kefir_result_t kefir_ast_translate_statement_expression_node(struct kefir_mem *m
     }
 
     if (node->base.properties.expression_props.flow_control_statement->value.block.contains_vla) {
-        const struct kefir_ast_flow_control_data_element *vla_element = NULL;
-        REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(
-            &node->base.properties.expression_props.flow_control_statement->value.block.data_elements, &vla_element));
-
-        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
+        REQUIRE_OK(kefir_ast_translator_release_vla_elements(
+            mem, context, builder,
+            kefir_list_tail(&node->base.properties.expression_props.flow_control_statement->value.block.data_elements
+                                 .elements),
+            NULL));
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From ac094fe133ce6d6b64002c0ec8b443e41cfb8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:04 +0000
Subject: [PATCH 16/16] fix: keep alignments above 255 in IR type entries

_Alignas(256) and larger were silently dropped (truncated to zero) by the
8-bit alignment field of kefir_ir_typeentry.
---
 headers/kefir/ir/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/kefir/ir/type.h b/headers/kefir/ir/type.h
index 1c98483..1d938eb 100644
--- a/headers/kefir/ir/type.h
+++ b/headers/kefir/ir/type.h
@@ -57,7 +57,7 @@ typedef enum kefir_ir_typecode {
 
 typedef struct kefir_ir_typeentry {
     kefir_ir_typecode_t typecode;
-    kefir_uint32_t alignment : 8;
+    kefir_uint32_t alignment;
     kefir_int64_t param;
 } kefir_ir_typeentry_t;
 
-- 
2.43.0

