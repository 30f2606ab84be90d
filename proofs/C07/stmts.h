/* Surroundings of the statement translators.  A sub-statement, sub-expression or declaration is one opaque event; flow
 * control points are ghost addresses (contract of the point services: a reference designates the address the point is
 * resolved to, whichever comes first).  The meaning of a statement is its control-flow graph: from the entry and from
 * behind every event, execution reaches exactly the event C prescribes next, with the operand stack as it was. */
#define VM_MAX 40
#define VM_VLA 0x20000
#include "trenv.h"
#include "kefir/ast-translator/flow_control.h"
#include "kefir/ast-translator/typeconv.h"
#include "kefir/ast-translator/misc.h"
#include "kefir/ast-translator/jump.h"
#include "kefir/core/hashtree.h"
#include "kefir/core/list.h"

#define ST_N 4
static struct kefir_ast_node_base g_s[ST_N], g_d[2];
enum { EV_DECL = VM_STMT + 8, EV_END = VM_OPAQUE, EV_EXT = VM_OPAQUE + 1 }; /* EV_EXT + k: external point k */
/* ---- flow control points ---- */
#define PT_N 8
static struct kefir_ast_flow_control_point g_p[PT_N];
static int64_t pt_addr[PT_N];
static int pt_n_resolved[PT_N];
#define REF_N 10
static struct { int pt; kefir_size_t at; } ref_tab[REF_N];
static int ref_n;
static int pt_of(const struct kefir_ast_flow_control_point *p) {
    for (int i = 0; i < PT_N; i++)
        if ((uintptr_t) p == (uintptr_t) &g_p[i]) return i;
    VC_CHECK(0, "call-site precondition of the flow control point services: a point of this statement");
    return 0;
}
kefir_result_t kefir_ast_translator_flow_control_point_reference(struct kefir_mem *mem, struct kefir_ast_flow_control_point *p,
                                                                 struct kefir_irblock *block, kefir_size_t index) {
    VC_CHECK(mem == &vc_mem && block == &vm_block && index < vm_len, "call-site precondition of flow_control_point_reference");
    VC_CHECK(index < VM_MAX && (vm_code[index].opcode == KEFIR_IROPCODE_JMP || vm_code[index].opcode == KEFIR_IROPCODE_BRANCH ||
                                vm_code[index].opcode == KEFIR_IROPCODE_PUSHLABEL), "call-site precondition: a reference is a jump");
    VC_CHECK(ref_n < REF_N, "reference capacity of the harness");
    if (ref_n < REF_N) { ref_tab[ref_n].pt = pt_of(p); ref_tab[ref_n].at = index; ref_n++; }
    return KEFIR_OK;
}
kefir_result_t kefir_ast_translator_flow_control_point_resolve(struct kefir_mem *mem, struct kefir_ast_flow_control_point *p, kefir_uint64_t v) {
    int i = pt_of(p);
    VC_CHECK(mem == &vc_mem && pt_n_resolved[i] == 0, "call-site precondition of flow_control_point_resolve: not resolved yet");
    pt_n_resolved[i]++;
    pt_addr[i] = (int64_t) v;
    return KEFIR_OK;
}
/* ---- sub-statements ---- */
static int body_cases; /* the switch body: that many labelled statements, then a default one when body_default */
static _Bool body_default, body_is_switch;
enum { P_CONT = 0, P_END = 1, P_THEN = 2, P_ELSE = 3, P_CASE = 4, P_DEFAULT = 7 };
kefir_result_t kefir_ast_translate_statement(struct kefir_mem *mem, const struct kefir_ast_node_base *n, struct kefir_irbuilder_block *b,
                                             struct kefir_ast_translator_context *c) {
    VC_CHECK(mem == &vc_mem && b == &vm_b && c == &tr_ctx, "call-site precondition of kefir_ast_translate_statement");
    int j = -1;
    for (int i = 0; i < ST_N; i++) if (n == &g_s[i]) j = i;
    VC_CHECK(j >= 0, "call-site precondition of kefir_ast_translate_statement: a part of this statement");
    if (body_is_switch) {
        for (int i = 0; i < 3; i++)
            if (i < body_cases) { kefir_ast_translator_flow_control_point_resolve(mem, &g_p[P_CASE + i], vm_len); vm_put(VM_STMT + i, 0); }
        if (body_default) { kefir_ast_translator_flow_control_point_resolve(mem, &g_p[P_DEFAULT], vm_len); vm_put(VM_STMT + 3, 0); }
    } else if (j >= 0) vm_put(VM_STMT + j, 0);
    return KEFIR_OK;
}
kefir_result_t kefir_ast_translate_declaration(struct kefir_mem *mem, const struct kefir_ast_node_base *n, struct kefir_irbuilder_block *b,
                                               struct kefir_ast_translator_context *c) {
    VC_CHECK(mem == &vc_mem && b == &vm_b && c == &tr_ctx && (n == &g_d[0] || n == &g_d[1]), "call-site precondition of kefir_ast_translate_declaration");
    vm_put(EV_DECL + (n == &g_d[1]), 0);
    return KEFIR_OK;
}
/* contract: push the address of the scope saved for that variable length array */
kefir_result_t kefir_ast_translator_resolve_vla_element(struct kefir_mem *mem, struct kefir_ast_translator_context *c, struct kefir_irbuilder_block *b, kefir_id_t id) {
    VC_CHECK(mem == &vc_mem && b == &vm_b && c == &tr_ctx && id < 8, "call-site precondition of kefir_ast_translator_resolve_vla_element");
    vm_put(KEFIR_IROPCODE_PUSHU64, VM_VLA + 8 * (uint64_t) id);
    return KEFIR_OK;
}
/* ---- variable length arrays: storage bases are numbered 1, 2, ... in order of allocation; 0: none ---- */
static uint64_t vla_saved[8], vla_base, vla_scope, vla_next;
static _Bool vla_live[8];
static uint64_t vm_saved_scope(uint64_t i) {
    VC_CHECK(i < 8 && vla_live[i & 7], "the saved scope of a variable length array is read only while that array lives");
    return vla_saved[i & 7];
}
static void vla_alloc(int i) { /* pushscope, alloca */
    vla_saved[i] = vla_scope;
    vla_scope = vla_base;
    vla_base = ++vla_next;
    vla_live[i] = true;
}
static void vla_reset(void) {
    vla_base = vla_next = 1;
    vla_scope = 0;
    for (int i = 0; i < 8; i++) vla_live[i] = false;
}
static void vla_pop(uint64_t saved) { /* popscope, as C03 proves it */
    if (vla_scope != 0) { vla_base = vla_scope; vla_scope = saved; }
}

#define SENTINEL 0x5e5e5e5e12345678ull
static void st_reset(void) {
    tr_reset();
    uf_reset();
    vm_evmode = true;
    ref_n = 0;
    body_is_switch = false;
    for (int i = 0; i < PT_N; i++) { pt_addr[i] = -1; pt_n_resolved[i] = 0; }
    for (int i = 0; i < ST_N; i++) g_s[i].properties.category = KEFIR_AST_NODE_CATEGORY_STATEMENT;
    for (int i = 0; i < 2; i++) g_d[i].properties.category = KEFIR_AST_NODE_CATEGORY_DECLARATION;
}
/* close the translated code: what follows it and the points it refers to but does not own are events of their own */
static void st_link(void) {
    vm_put(EV_END, 0);
    for (int i = 0; i < PT_N; i++) {
        _Bool used = false;
        for (int r = 0; r < REF_N; r++) if (r < ref_n && ref_tab[r].pt == i) used = true;
        if (used && pt_addr[i] < 0) { pt_addr[i] = (int64_t) vm_len; vm_put(EV_EXT + i, 0); }
    }
    for (int r = 0; r < REF_N; r++)
        if (r < ref_n && ref_tab[r].at < VM_MAX) vm_code[ref_tab[r].at].arg.u64 = (uint64_t) pt_addr[ref_tab[r].pt];
}
/* run from instruction pc, the operand stack holding the sentinel and, when given, the value of expression e */
static int g_ev;
static void st_go(uint64_t pc, int e) {
    vm_from = pc;
    vm_st[0] = SENTINEL;
    vm_base = 1;
    if (e >= 0 && !vm_x_void[e]) {
        if (vm_x_ld[e]) vm_st[vm_base++] = vm_x[e].hi;
        vm_st[vm_base++] = vm_x[e].lo;
    }
    vm_run();
    g_ev = vm_ev;
}
static int g_leak; /* tolerated extra depth (known finding units only) */
#define ST_NEXT(cond, what, label)                                                                                                     \
    do {                                                                                                                               \
        VC_CHECK(!(cond) || g_ev == (what), label);                                                                                    \
        VC_CHECK(!(cond) || (vm_ev_depth == 1 && vm_st[0] == SENTINEL), "operand stack unchanged: " label);                            \
    } while (0)
#define FOR_EV(pc, ev) for (kefir_size_t pc = 0; pc < VM_MAX; pc++) if (pc < vm_len && (int) vm_code[pc].opcode == (ev))
static int st_count(int ev) { int n = 0; FOR_EV(i, ev) n++; return n; }
