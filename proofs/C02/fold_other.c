/* Contracts of the constant evaluator on unary operators, conversions (casts) and the conditional operator over integer
 * constants, for every integer type and all values. */
#include "vc.h"
#include "astenv.h"
#include "errstub.h"
#include "kefir/ast/constant_expression_impl.h"

static struct kefir_ast_node_base g_n[3];
static uint64_t g_v[3];
static int g_t[3], g_e[3], g_rt;

kefir_result_t kefir_ast_constant_expression_value_evaluate(struct kefir_mem *mem, const struct kefir_ast_context *ctx,
                                                            const struct kefir_ast_node_base *n,
                                                            struct kefir_ast_constant_expression_value *v) {
    VC_CHECK(mem == &vc_mem && ctx == &vc_ctx && (n == &g_n[0] || n == &g_n[1] || n == &g_n[2]), "call-site precondition of operand evaluation");
    int i = n == &g_n[0] ? 0 : n == &g_n[1] ? 1 : 2;
    g_e[i]++;
    v->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
    v->uinteger = g_v[i];
    return KEFIR_OK;
}
#define ISINT(v, x) ((v)->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER && (v)->uinteger == (x))

static struct kefir_ast_unary_operation g_un;
static struct kefir_ast_conditional_operator g_cond;
static struct kefir_ast_cast_operator g_cast;
static uint64_t spec_unary(void) {
    switch (g_un.type) {
        case KEFIR_AST_OPERATION_PLUS: return spec_wrap(spec_promote(g_t[0]), g_v[0]);
        case KEFIR_AST_OPERATION_NEGATE: return spec_wrap(spec_promote(g_t[0]), 0 - g_v[0]);
        case KEFIR_AST_OPERATION_INVERT: return spec_wrap(spec_promote(g_t[0]), ~g_v[0]);
        default: return g_v[0] == 0;
    }
}
CONTRACT(kefir_result_t, kefir_ast_evaluate_unary_operation_node,
         (struct kefir_mem *mem, const struct kefir_ast_context *ctx, const struct kefir_ast_unary_operation *n,
          struct kefir_ast_constant_expression_value *v),
         (mem, ctx, n, v),
         REQ(mem == &vc_mem && ctx == &vc_ctx && n == &g_un && v != NULL),
         FRAME(*v, g_e, g_env_live),
         ENS(RET == KEFIR_OK)
         ENS(ISINT(v, spec_unary()))
         ENS(g_env_live == 0))
CONTRACT(kefir_result_t, kefir_ast_evaluate_cast_operator_node,
         (struct kefir_mem *mem, const struct kefir_ast_context *ctx, const struct kefir_ast_cast_operator *n,
          struct kefir_ast_constant_expression_value *v),
         (mem, ctx, n, v),
         REQ(mem == &vc_mem && ctx == &vc_ctx && n == &g_cast && v != NULL),
         FRAME(*v, g_e, g_env_live),
         ENS(RET == KEFIR_OK)
         ENS(ISINT(v, spec_wrap(g_rt, g_v[0])))
         ENS(g_env_live == 0))
CONTRACT(kefir_result_t, kefir_ast_evaluate_conditional_operator_node,
         (struct kefir_mem *mem, const struct kefir_ast_context *ctx, const struct kefir_ast_conditional_operator *n,
          struct kefir_ast_constant_expression_value *v),
         (mem, ctx, n, v),
         REQ(mem == &vc_mem && ctx == &vc_ctx && n == &g_cond && v != NULL),
         FRAME(*v, g_e, g_env_live),
         ENS(RET == KEFIR_OK)
         ENS(n->expr1 != NULL || g_v[0] == 0 || ISINT(v, spec_wrap(g_rt, g_v[0])))
         ENS(n->expr1 == NULL || g_v[0] == 0 || ISINT(v, spec_wrap(g_rt, g_v[1])))
         ENS(g_v[0] != 0 || ISINT(v, spec_wrap(g_rt, g_v[2])))
         ENS(g_e[0] == 1 && g_e[1] == (g_v[0] != 0 && n->expr1 != NULL) && g_e[2] == (g_v[0] == 0)))

void harness(void) {
    vc_ctx_setup();
    struct kefir_ast_constant_expression_value v;
#if PART == 0
    static const int ops[] = {KEFIR_AST_OPERATION_PLUS, KEFIR_AST_OPERATION_NEGATE, KEFIR_AST_OPERATION_INVERT, KEFIR_AST_OPERATION_LOGICAL_NEGATE};
    vc_expr(&g_un.base, NULL);
    g_un.arg = &g_n[0];
    for (int o = 0; o < 4; o++)
        for (g_t[0] = 0; g_t[0] < T_NINT; g_t[0]++) {
            g_un.type = ops[o];
            vc_expr(&g_n[0], ty(g_t[0]));
            g_un.base.properties.type = ty(o == 3 ? T_SI : spec_promote(g_t[0]));
            g_v[0] = spec_wrap(g_t[0], ND64());
            call_kefir_ast_evaluate_unary_operation_node(&vc_mem, &vc_ctx, &g_un, &v);
        }
#elif PART == 1
    vc_expr(&g_cast.base, NULL);
    g_cast.expr = &g_n[0];
    for (g_rt = 0; g_rt < T_NINT; g_rt++)
        for (g_t[0] = 0; g_t[0] < T_NINT; g_t[0]++) {
            vc_expr(&g_n[0], ty(g_t[0]));
            g_cast.base.properties.type = ty(g_rt);
            g_v[0] = spec_wrap(g_t[0], ND64());
            call_kefir_ast_evaluate_cast_operator_node(&vc_mem, &vc_ctx, &g_cast, &v);
        }
#else
    vc_expr(&g_cond.base, NULL);
    g_cond.condition = &g_n[0];
    g_cond.expr2 = &g_n[2];
    for (g_t[1] = 0; g_t[1] < T_NINT; g_t[1]++)
        for (g_t[2] = 0; g_t[2] < T_NINT; g_t[2]++) {
            g_t[0] = PART == 2 ? T_SLL : g_t[1];
            g_cond.expr1 = PART == 2 ? &g_n[1] : NULL; /* PART 3:  c ?: e */
            for (int i = 0; i < 3; i++) vc_expr(&g_n[i], ty(g_t[i]));
            g_rt = spec_common(g_t[1], g_t[2]);
            g_cond.base.properties.type = ty(g_rt);
            for (int i = 0; i < 3; i++) { g_v[i] = spec_wrap(g_t[i], ND64()); g_e[i] = 0; }
            call_kefir_ast_evaluate_conditional_operator_node(&vc_mem, &vc_ctx, &g_cond, &v);
        }
#endif
    VC_REACH("end");
}
