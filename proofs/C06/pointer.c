/* Contract of the translation of pointer arithmetic and comparison: p + i, i + p, p - i move by i elements, p - q counts
 * elements, comparisons and equality compare addresses; conversions of a null pointer constant included. */
#include "trenv.h"
static struct kefir_ast_binary_operation g_node;
static val_t g_spec;
static int g_res;
static _Bool g_scope;
enum { P_ADD, P_ADDR, P_SUB, P_DIFF, P_EQ, P_NE, P_LT, P_LE, P_GT, P_GE, P_AND, P_OR, P_KINDS };
CONTRACT(kefir_result_t, kefir_ast_translate_binary_operation_node,
         (struct kefir_mem *mem, struct kefir_ast_translator_context *ctx, struct kefir_irbuilder_block *b, const struct kefir_ast_binary_operation *n),
         (mem, ctx, b, n),
         REQ(mem == &vc_mem && ctx == &tr_ctx && b == &vm_b && n == &g_node),
         FRAME(vm_code, vm_len),
         ENS(RET == KEFIR_OK))
static void one(int kind, int lt, int rt, int to) {
    static const int ops[] = {KEFIR_AST_OPERATION_ADD, KEFIR_AST_OPERATION_ADD, KEFIR_AST_OPERATION_SUBTRACT, KEFIR_AST_OPERATION_SUBTRACT,
        KEFIR_AST_OPERATION_EQUAL, KEFIR_AST_OPERATION_NOT_EQUAL, KEFIR_AST_OPERATION_LESS, KEFIR_AST_OPERATION_LESS_EQUAL,
        KEFIR_AST_OPERATION_GREATER, KEFIR_AST_OPERATION_GREATER_EQUAL, KEFIR_AST_OPERATION_LOGICAL_AND, KEFIR_AST_OPERATION_LOGICAL_OR};
    tr_reset();
    tr_ptr_to = to;
    tr_operand(0, lt);
    tr_operand(1, rt);
    g_res = kind <= P_SUB ? T_PTR : kind == P_DIFF ? T_SL : T_SI;
    tr_node(&g_node.base, g_res);
    g_node.type = ops[kind];
    g_node.arg1 = &g_n[0];
    g_node.arg2 = &g_n[1];
    call_kefir_ast_translate_binary_operation_node(&vc_mem, &tr_ctx, &vm_b, &g_node);
    vm_run();
    uint64_t a = vm_x[0].lo, b = vm_x[1].lo, sz = spec_sizeof(ty(to));
    _Bool second = true;
    switch (kind) {
        case P_ADD: g_spec = V1(a + uf(UF_MUL, V1(b), V1(sz)).lo); break;
        case P_ADDR: g_spec = V1(b + uf(UF_MUL, V1(a), V1(sz)).lo); break;
        case P_SUB: g_spec = V1(a + uf(UF_MUL, V1(0 - b), V1(sz)).lo); break;
        case P_DIFF: g_spec = uf(UF_SDIV, V1(a - b), V1(sz)); break;
        case P_EQ: g_spec = V1(a == b); break;
        case P_NE: g_spec = V1(a != b); break;
        /* addresses within one object of the user half of the address space: signed and unsigned order agree */
        case P_LT: g_spec = V1(a < b); break;
        case P_LE: g_spec = V1(a <= b); break;
        case P_GT: g_spec = V1(a > b); break;
        case P_GE: g_spec = V1(a >= b); break;
        case P_AND: g_spec = V1(a && b); second = a != 0; break;
        default: g_spec = V1(a || b); second = a == 0; break;
    }
    g_scope = kind < P_LT || kind > P_GE || ((int64_t) a >= 0 && (int64_t) b >= 0);
    VC_CHECK(!g_scope || rt_result_is(g_res, g_spec), "value of the pointer operation");
    VC_CHECK(vm_x_n[0] == 1 && vm_x_n[1] == second, "operands are evaluated as C prescribes");
    VC_CHECK(g_env_live == 0 && tr_type_live == 0, "type descriptions are released");
}
void harness(void) {
    tr_setup();
    static const int tos[] = {T_CHAR, T_SS, T_SI, T_D, T_LD};
    for (int k = 0; k < 5; k++) {
        for (int i = 0; i < T_NINT; i++) {
            if (KIND == 0) one(P_ADD, T_PTR, i, tos[k]);
            if (KIND == 1) one(P_ADDR, i, T_PTR, tos[k]);
            if (KIND == 2) one(P_SUB, T_PTR, i, tos[k]);
        }
        if (KIND == 3)
            for (int c = P_DIFF; c < P_KINDS; c++) one(c, T_PTR, T_PTR, tos[k]);
    }
    if (KIND == 3) {
        one(P_AND, T_PTR, T_SI, T_SI);
        one(P_AND, T_D, T_PTR, T_SI);
    }
    VC_REACH("all pointer operations");
}
