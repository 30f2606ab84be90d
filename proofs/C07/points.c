/* Contracts of the flow control points the statement translators rely on: every reference to a point, made before or after
 * the point is resolved, ends up with the address the point is resolved to, and nothing else is written. */
#include "vc.h"
#include "errstub.h"
#include "arith.h"
#include "kefir/ir/opcodes.h"
#include "kefir/ir/module.h"
#include "kefir/ast-translator/flow_control.h"
#include "kefir/core/list.h"
#define CODE_N 6
static struct kefir_irinstr code[CODE_N];
static struct kefir_irblock blk;
kefir_size_t kefir_irblock_length(const struct kefir_irblock *b) { VC_CHECK(b == &blk, "call-site precondition of kefir_irblock_length"); return CODE_N; }
struct kefir_irinstr *kefir_irblock_at(const struct kefir_irblock *b, kefir_size_t i) {
    VC_CHECK(b == &blk && i < CODE_N, "call-site precondition of kefir_irblock_at");
    return &code[i];
}
static struct kefir_mem vc_mem;
static struct kefir_list_entry p_le[8];
static struct { void *p; kefir_size_t i; } p_any[8];
static int n_le, n_any, live;
static void *p_malloc(struct kefir_mem *m, kefir_size_t sz) {
    (void) m;
    live++;
    VC_CHECK(n_le < 8 && n_any < 8 && (sz == sizeof(struct kefir_list_entry) || sz <= sizeof(p_any[0])), "allocator capacity of the harness");
    if (sz == sizeof(struct kefir_list_entry)) return &p_le[n_le++];
    return &p_any[n_any++];
}
static void p_free(struct kefir_mem *m, void *p) { (void) m; if (p) live--; }
static struct kefir_ast_flow_control_point pt;
static void *slot;
/* the real structure with its union replaced by the member in use (layout asserted): the verifier reads unions bytewise */
static struct { kefir_bool_t resolved; struct kefir_list dependents; } tp;
_Static_assert(__builtin_offsetof(__typeof__(tp), dependents) == __builtin_offsetof(struct kefir_ast_translator_flow_control_point, dependents) &&
               sizeof(tp) == sizeof(struct kefir_ast_translator_flow_control_point), "layout");
static uint64_t g_addr;
#define P struct kefir_mem *mem, struct kefir_ast_flow_control_point *p
CONTRACT(kefir_result_t, kefir_ast_translator_flow_control_point_reference, (P, struct kefir_irblock *b, kefir_size_t i), (mem, p, b, i),
         REQ(p == &pt && b == &blk && i < CODE_N), FRAME(code, tp), ENS(RET == KEFIR_OK) ENS(!tp.resolved || code[i].arg.u64 == g_addr))
CONTRACT(kefir_result_t, kefir_ast_translator_flow_control_point_resolve, (P, kefir_uint64_t v), (mem, p, v),
         REQ(p == &pt && !tp.resolved), FRAME(code, tp), ENS(RET == KEFIR_OK && tp.resolved))
static void one(int before, int after) {
    uint64_t old[CODE_N];
    static const kefir_iropcode_t ops[3] = {KEFIR_IROPCODE_JMP, KEFIR_IROPCODE_BRANCH, KEFIR_IROPCODE_PUSHLABEL};
    n_le = n_any = live = 0;
    for (int i = 0; i < CODE_N; i++) { code[i].opcode = ops[i % 3]; old[i] = code[i].arg.u64 = ND64(); }
    g_addr = ND64();
    tp.resolved = false;
    tp.dependents = (struct kefir_list){.head = NULL};
    slot = &tp;
    pt.ptr = &slot;
    for (int i = 0; i < before; i++) call_kefir_ast_translator_flow_control_point_reference(&vc_mem, &pt, &blk, (kefir_size_t) i);
    for (int i = 0; i < CODE_N; i++) VC_CHECK(code[i].arg.u64 == old[i], "an unresolved reference changes nothing");
    call_kefir_ast_translator_flow_control_point_resolve(&vc_mem, &pt, g_addr);
    for (int i = before; i < before + after; i++) call_kefir_ast_translator_flow_control_point_reference(&vc_mem, &pt, &blk, (kefir_size_t) i);
    for (int i = 0; i < CODE_N; i++)
        VC_CHECK(code[i].arg.u64 == (i < before + after ? g_addr : old[i]) && code[i].opcode == ops[i % 3], "exactly the references get the address the point is resolved to");
    VC_CHECK(kefir_ast_translator_flow_control_point_resolve(&vc_mem, &pt, ND64()) != KEFIR_OK, "a point is resolved once");
    for (int i = 0; i < CODE_N; i++) VC_CHECK(code[i].arg.u64 == (i < before + after ? g_addr : old[i]), "a second resolution changes nothing");
}
void harness(void) {
    vc_mem.malloc = p_malloc;
    vc_mem.free = p_free;
    for (int b = 0; b <= 3; b++)
        for (int a = 0; a <= 2; a++) one(b, a);
    VC_REACH("end");
}
