/* Contract of the translation of binary operators on arithmetic operands: for every pair of operand types, the code
 * translated for  e1 OP e2  leaves exactly the value of e1 OP e2 on the operand stack, for all operand values, evaluating
 * each operand as often as C says. */
#include "trenv.h"
#include "opspec.h"
static struct kefir_ast_binary_operation g_node;

static int res_type(void) { return spec_binop_type(OP, g_t[0], g_t[1]); }
static val_t g_spec;
static _Bool evaluations_ok(void) {
    if (!OP_LOG(OP)) return vm_x_n[0] == 1 && vm_x_n[1] == 1;
    _Bool x = rt_truth(g_t[0], vm_x[0]);
    return vm_x_n[0] == 1 && vm_x_n[1] == (OP == KEFIR_AST_OPERATION_LOGICAL_AND ? x : !x) &&
           (vm_x_n[1] == 0 || vm_x_seq[0] < vm_x_seq[1]);
}
/* operand values for which C defines no value, and the recorded findings (see known_findings.txt) */
static _Bool in_scope(void) {
    if (OP_SHIFT(OP)) return vm_x[1].lo < (uint64_t) t_bits(spec_promote(g_t[0]));
    if (OP_LOG(OP)) {
        _Bool negz = false;
        for (int i = 0; i < 2; i++) {
            if (g_t[i] == T_F && vm_x[i].lo == 0x80000000u) negz = true;
            if (g_t[i] == T_D && vm_x[i].lo == 0x8000000000000000ull) negz = true;
        }
        return KNOWN_CASE ? negz : !negz;
    }
    return true;
}

CONTRACT(kefir_result_t, kefir_ast_translate_binary_operation_node,
         (struct kefir_mem *mem, struct kefir_ast_translator_context *ctx, struct kefir_irbuilder_block *b, const struct kefir_ast_binary_operation *n),
         (mem, ctx, b, n),
         REQ(mem == &vc_mem && ctx == &tr_ctx && b == &vm_b && n == &g_node),
         FRAME(vm_code, vm_len),
         ENS(RET == KEFIR_OK))

void harness(void) {
    tr_setup();
    g_node.type = OP;
    g_node.arg1 = &g_n[0];
    g_node.arg2 = &g_n[1];
    for (g_t[0] = LO; g_t[0] < HI; g_t[0]++)
        for (g_t[1] = 0; g_t[1] < T_N; g_t[1]++) {
            if (OP_INTONLY(OP) && (IS_FLT(g_t[0]) || IS_FLT(g_t[1]))) continue;
            tr_reset();
            tr_operand(0, g_t[0]);
            tr_operand(1, g_t[1]);
            tr_node(&g_node.base, res_type());
            call_kefir_ast_translate_binary_operation_node(&vc_mem, &tr_ctx, &vm_b, &g_node);
            vm_run();
            g_spec = spec_binop(OP, g_t[0], g_t[1], vm_x[0], vm_x[1]);
            VC_CHECK(!in_scope() || rt_result_is(res_type(), g_spec), "value of the binary operator");
            VC_CHECK(!in_scope() || evaluations_ok(), "operands are evaluated as C prescribes");
        }
    VC_REACH("all type pairs");
}
