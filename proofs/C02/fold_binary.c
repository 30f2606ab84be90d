/* Contract of the constant evaluator on binary operators over integer operands, for every pair of integer types and all
 * operand values.  OP selects the operator. */
#include "vc.h"
#include "arith.h"
#include "astenv.h"
#include "errstub.h"
#include "kefir/ast/constant_expression_impl.h"

static struct kefir_ast_node_base g_n1, g_n2;
static struct kefir_ast_binary_operation g_node;
static uint64_t g_v1, g_v2;
static int g_t1, g_t2, g_e1, g_e2; /* operand types, number of evaluations of each operand */

/* callee contract: evaluating an integer constant operand yields its (canonical) value */
kefir_result_t kefir_ast_constant_expression_value_evaluate(struct kefir_mem *mem, const struct kefir_ast_context *ctx,
                                                            const struct kefir_ast_node_base *n,
                                                            struct kefir_ast_constant_expression_value *v) {
    VC_CHECK(mem == &vc_mem && ctx == &vc_ctx && (n == &g_n1 || n == &g_n2), "call-site precondition of operand evaluation");
    v->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
    if (n == &g_n1) { g_e1++; v->uinteger = g_v1; } else { g_e2++; v->uinteger = g_v2; }
    return KEFIR_OK;
}

#define IS_SHIFT (OP == KEFIR_AST_OPERATION_SHIFT_LEFT || OP == KEFIR_AST_OPERATION_SHIFT_RIGHT)
#define IS_DIV (OP == KEFIR_AST_OPERATION_DIVIDE || OP == KEFIR_AST_OPERATION_MODULO)
#define IS_REL (OP == KEFIR_AST_OPERATION_LESS || OP == KEFIR_AST_OPERATION_LESS_EQUAL || OP == KEFIR_AST_OPERATION_GREATER || \
                OP == KEFIR_AST_OPERATION_GREATER_EQUAL || OP == KEFIR_AST_OPERATION_EQUAL || OP == KEFIR_AST_OPERATION_NOT_EQUAL)
#define IS_LOG (OP == KEFIR_AST_OPERATION_LOGICAL_AND || OP == KEFIR_AST_OPERATION_LOGICAL_OR)

#ifndef LO2
#define LO2 0
#define HI2 T_NINT
#endif
static int res_type(void) {
    if (IS_REL || IS_LOG) return T_SI;
    if (IS_SHIFT) return spec_promote(g_t1);
    return spec_common(g_t1, g_t2);
}
/* does C define the value of  v1 OP v2 ?  (signed overflow of + - * is not excluded: there the wrapped value is accepted) */
static _Bool spec_defined(void) {
    int ct = spec_common(g_t1, g_t2);
    if (IS_DIV) {
        uint64_t a = spec_wrap(ct, g_v1), b = spec_wrap(ct, g_v2);
        if (b == 0) return false;
        uint64_t min = t_bits(ct) == 32 ? (uint64_t) (int64_t) INT32_MIN : (uint64_t) INT64_MIN;
        return !(t_signed(ct) && a == min && b == (uint64_t) -1);
    }
    if (IS_SHIFT) return g_v2 < (uint64_t) t_bits(spec_promote(g_t1)); /* negative counts are huge as unsigned */
    return true;
}
static uint64_t spec_value(void) {
    int ct = spec_common(g_t1, g_t2), rt = res_type();
    _Bool sg = t_signed(ct);
    uint64_t a = spec_wrap(ct, g_v1), b = spec_wrap(ct, g_v2);
    switch (OP) {
        case KEFIR_AST_OPERATION_ADD: return spec_wrap(rt, a + b);
        case KEFIR_AST_OPERATION_SUBTRACT: return spec_wrap(rt, a - b);
        case KEFIR_AST_OPERATION_MULTIPLY: return spec_wrap(rt, (uint64_t) VC_MUL((int64_t) a, (int64_t) b));
        case KEFIR_AST_OPERATION_DIVIDE: return spec_wrap(rt, sg ? (uint64_t) VC_DIV((int64_t) a, (int64_t) b) : VC_DIV(a, b));
        case KEFIR_AST_OPERATION_MODULO: return spec_wrap(rt, sg ? (uint64_t) VC_MOD((int64_t) a, (int64_t) b) : VC_MOD(a, b));
        case KEFIR_AST_OPERATION_SHIFT_LEFT: return spec_wrap(rt, spec_wrap(rt, g_v1) << (g_v2 & 63));
        case KEFIR_AST_OPERATION_SHIFT_RIGHT:
            return spec_wrap(rt, t_signed(rt) ? (uint64_t) ((int64_t) spec_wrap(rt, g_v1) >> (g_v2 & 63))
                                              : spec_wrap(rt, g_v1) >> (g_v2 & 63));
        case KEFIR_AST_OPERATION_BITWISE_AND: return spec_wrap(rt, a & b);
        case KEFIR_AST_OPERATION_BITWISE_OR: return spec_wrap(rt, a | b);
        case KEFIR_AST_OPERATION_BITWISE_XOR: return spec_wrap(rt, a ^ b);
        case KEFIR_AST_OPERATION_LESS: return sg ? (int64_t) a < (int64_t) b : a < b;
        case KEFIR_AST_OPERATION_LESS_EQUAL: return sg ? (int64_t) a <= (int64_t) b : a <= b;
        case KEFIR_AST_OPERATION_GREATER: return sg ? (int64_t) a > (int64_t) b : a > b;
        case KEFIR_AST_OPERATION_GREATER_EQUAL: return sg ? (int64_t) a >= (int64_t) b : a >= b;
        case KEFIR_AST_OPERATION_EQUAL: return a == b;
        case KEFIR_AST_OPERATION_NOT_EQUAL: return a != b;
        case KEFIR_AST_OPERATION_LOGICAL_AND: return g_v1 != 0 && g_v2 != 0;
        default: return g_v1 != 0 || g_v2 != 0;
    }
}
static _Bool short_circuit_ok(void) {
    if (OP == KEFIR_AST_OPERATION_LOGICAL_AND) return g_e1 == 1 && g_e2 == (g_v1 != 0);
    if (OP == KEFIR_AST_OPERATION_LOGICAL_OR) return g_e1 == 1 && g_e2 == (g_v1 == 0);
    return true;
}

CONTRACT(kefir_result_t, kefir_ast_evaluate_binary_operation_node,
         (struct kefir_mem *mem, const struct kefir_ast_context *ctx, const struct kefir_ast_binary_operation *n,
          struct kefir_ast_constant_expression_value *v),
         (mem, ctx, n, v),
         REQ(mem == &vc_mem && ctx == &vc_ctx && n == &g_node && v != NULL),
         FRAME(*v, g_e1, g_e2, g_env_live),
         ENS(!spec_defined() || RET == KEFIR_OK)
         ENS(!IS_DIV || spec_wrap(spec_common(g_t1, g_t2), g_v2) != 0 || RET != KEFIR_OK)
         ENS(RET != KEFIR_OK || !spec_defined() || (v->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER && v->uinteger == spec_value()))
         ENS(short_circuit_ok())
         ENS(g_env_live == 0))

void harness(void) {
    vc_ctx_setup();
    vc_expr(&g_node.base, NULL);
    g_node.type = OP;
    g_node.arg1 = &g_n1;
    g_node.arg2 = &g_n2;
    for (g_t1 = LO; g_t1 < HI; g_t1++)
        for (g_t2 = LO2; g_t2 < HI2; g_t2++) {
            vc_expr(&g_n1, ty(g_t1));
            vc_expr(&g_n2, ty(g_t2));
            g_node.base.properties.type = ty(res_type());
            g_v1 = spec_wrap(g_t1, ND64());
            g_v2 = spec_wrap(g_t2, ND64());
            g_e1 = g_e2 = 0;
            struct kefir_ast_constant_expression_value v;
            call_kefir_ast_evaluate_binary_operation_node(&vc_mem, &vc_ctx, &g_node, &v);
        }
    VC_REACH("all type pairs");
}
