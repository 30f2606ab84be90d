/* Contracts of break, continue and goto: a jump from inside nested blocks reaches its target with exactly the storage of the
 * variable length arrays that live at the target, or is refused; it is never accepted into the scope of such an array.
 * Nesting:  R block { F loop { B block { C block { jump } } } }, R { D block { label; E block { label } } }; the arrays declared so far in each
 * block (pR, pB, pC) and those declared before the target (q) are enumerated. */
#include "stmts.h"
#include "kefir/ast/flow_control.h"
#define CTX struct kefir_mem *mem, struct kefir_ast_translator_context *ctx, struct kefir_irbuilder_block *b
static _Bool j_legal, j_must;
#define JUMP_CONTRACT(S)                                                                                                              \
    CONTRACT(kefir_result_t, kefir_ast_translate_##S##_node, (CTX, const struct kefir_ast_##S *n), (mem, ctx, b, n),                  \
             REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len, ref_tab, ref_n, pt_addr),                                      \
             ENS(RET != KEFIR_OK || j_legal) ENS(RET == KEFIR_OK || !j_must))
JUMP_CONTRACT(break_statement)
JUMP_CONTRACT(continue_statement)
JUMP_CONTRACT(goto_statement)

/* allocator of the list of parents: every entry is given back */
#define POOL_N 8
static struct kefir_list_entry pool[POOL_N];
static int pool_n, pool_live;
static void *pool_malloc(struct kefir_mem *m, kefir_size_t sz) {
    (void) m;
    VC_CHECK(sz == sizeof(struct kefir_list_entry) && pool_n < POOL_N, "allocation of list entries");
    pool_live++;
    return &pool[pool_n < POOL_N ? pool_n++ : 0];
}
static void pool_free(struct kefir_mem *m, void *p) { (void) m; if (p) pool_live--; }

enum { NIL, R, F, B, C, D, E, LV };
static struct kefir_ast_flow_control_structure g_st[LV];
static struct kefir_ast_flow_control_point g_parent[LV], g_origin;
static struct kefir_ast_flow_control_data_element g_el[LV][2];
static struct kefir_list_entry g_le[LV][2];
static const int parent_of[LV] = {0, 0, R, F, B, R, D};
static const int id_of[LV][2] = {{0, 0}, {0, 1}, {0, 0}, {2, 3}, {4, 5}, {6, 7}, {0, 0}};
static struct kefir_ast_flow_control_structure_data_element_range range(int s, int n) {
    return (struct kefir_ast_flow_control_structure_data_element_range){.head = n ? &g_le[s][0] : NULL, .tail = n ? &g_le[s][n - 1] : NULL};
}
static void mk_structure(int s, int n, int before) { /* n: arrays declared in it altogether; before: declared in its parent before it */
    for (int i = 0; i < 2; i++) {
        g_el[s][i] = (struct kefir_ast_flow_control_data_element){.identifier = (kefir_id_t) id_of[s][i], .parent = &g_st[s]};
        g_le[s][i] = (struct kefir_list_entry){.value = &g_el[s][i], .prev = i ? &g_le[s][0] : NULL, .next = i + 1 < n ? &g_le[s][1] : NULL};
    }
    struct kefir_ast_flow_control_point *pp = NULL;
    if (parent_of[s] != NIL) {
        g_parent[s] = (struct kefir_ast_flow_control_point){.parent = &g_st[parent_of[s]], .parent_data_elts = range(parent_of[s], before)};
        pp = &g_parent[s];
    }
    if (s == F) g_st[s] = (struct kefir_ast_flow_control_structure){.parent_point = pp, .type = KEFIR_AST_FLOW_CONTROL_STRUCTURE_WHILE, .value = {.loop = {.continuation = NULL}}};
    else g_st[s] = (struct kefir_ast_flow_control_structure){.parent_point = pp, .type = KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK, .value = {.block = {.contains_vla = n > 0,
        .data_elements = {.elements = {.head = n ? &g_le[s][0] : NULL, .tail = n ? &g_le[s][n - 1] : NULL, .length = (kefir_size_t) n}}}}};
}
static struct kefir_ast_break_statement g_break;
static struct kefir_ast_continue_statement g_continue;
static struct kefir_ast_goto_statement g_goto;
static struct kefir_ast_node_class g_goto_class;
/* n*: arrays in the block; p*: of them declared before the jump; target in structure ts behind q arrays of it; for ts == D the
 * block D stands behind dp arrays of R; for ts == E the block E stands behind q arrays of D */
static void one_jump(int how, int nR, int pR, int nB, int pB, int nC, int pC, int ts, int q, int nD, int dp) {
    st_reset();
    vla_reset();
    pool_n = pool_live = 0;
    mk_structure(R, nR, 0);
    mk_structure(F, 0, pR);
    mk_structure(B, nB, 0);
    mk_structure(C, nC, pB);
    mk_structure(D, nD, dp);
    mk_structure(E, 0, ts == E ? q : 0);
    g_origin = (struct kefir_ast_flow_control_point){.parent = &g_st[C], .parent_data_elts = range(C, pC)};
    g_p[0] = (struct kefir_ast_flow_control_point){.parent = &g_st[ts], .parent_data_elts = range(ts, ts == F || ts == E ? 0 : q)};
    uint64_t snap_base[3][3], snap_scope[3][3];
    const int ps[3] = {pR, pB, pC}, bs[3] = {R, B, C};
    for (int l = 0; l < 3; l++)
        for (int i = 0; i <= 2; i++) {
            if (i > 0 && i <= ps[l]) vla_alloc(id_of[bs[l]][i - 1]);
            snap_base[l][i] = vla_base; snap_scope[l][i] = vla_scope;
        }
    /* arrays alive at the target must be exactly a prefix of those alive at the jump */
    int l = ts == R || ts == D || ts == E || ts == F ? 0 : ts == B ? 1 : 2, keep = ts == F ? pR : ts == D || ts == E ? dp : q;
    j_legal = keep <= ps[l] && ((ts != D && ts != E) || q == 0);
    j_must = keep <= ps[l] && ((ts != D && ts != E) || nD == 0);
    kefir_result_t res;
    if (how == 0) {
        g_break.base.properties.statement_props.origin_flow_control_point = &g_origin;
        g_break.base.properties.statement_props.target_flow_control_point = &g_p[0];
        res = call_kefir_ast_translate_break_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_break);
    } else if (how == 1) {
        g_continue.base.properties.statement_props.origin_flow_control_point = &g_origin;
        g_continue.base.properties.statement_props.target_flow_control_point = &g_p[0];
        res = call_kefir_ast_translate_continue_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_continue);
    } else {
        g_goto_class.type = KEFIR_AST_GOTO_STATEMENT;
        g_goto.base.klass = &g_goto_class;
        g_goto.base.properties.statement_props.origin_flow_control_point = &g_origin;
        g_goto.base.properties.statement_props.target_flow_control_point = &g_p[0];
        res = call_kefir_ast_translate_goto_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_goto);
    }
    VC_CHECK(pool_live == 0, "jump: no list entry is kept");
    if (res != KEFIR_OK) return;
    st_link();
    uint64_t pc = 0;
    for (int i = 0; i < 7; i++) {
        st_go(pc, -1);
        if (g_ev != KEFIR_IROPCODE_POPSCOPE) break;
        VC_CHECK(vm_ev_depth == 2 && vm_st[0] == SENTINEL, "jump: operand stack at the release of an array");
        vla_pop(vm_st[1]);
        uint64_t at = vm_ev_pc;
        pc = at + 1;
    }
    ST_NEXT(1, EV_EXT + 0, "jump: control reaches the target");
    VC_CHECK(vla_base == snap_base[l][keep <= 2 ? keep : 2] && vla_scope == snap_scope[l][keep <= 2 ? keep : 2], "jump: exactly the arrays living at the target remain");
}
void harness(void) {
    tr_setup();
    vc_mem.malloc = pool_malloc;
    vc_mem.free = pool_free;
    for (int pR = 0; pR <= 2; pR++)
      if (LO == pR)
        for (int pB = 0; pB <= 2; pB++)
            for (int pC = 0; pC <= 2; pC++) {
                if (MODE == 0) { /* break, continue: all arrays declared, or one more to come in C */
                    one_jump(0, pR, pR, pB, pB, pC, pC, F, 0, 0, 0);
                    one_jump(1, pR, pR, pB, pB, 2, pC, F, 0, 0, 0);
                }
                if (MODE == 1) for (int q = 0; q <= 2; q++) one_jump(2, 2, pR, 2, pB, 2, pC, R, q, 0, 0);
                if (MODE == 2) for (int q = 0; q <= 2; q++) one_jump(2, 2, pR, 2, pB, 2, pC, B, q, 0, 0);
                if (MODE == 4) for (int q = 0; q <= 2; q++) one_jump(2, 2, pR, 2, pB, 2, pC, C, q, 0, 0);
                if (MODE == 5) for (int q = 0; q <= pR; q++) { one_jump(2, pR, pR, pB, pB, pC, pC, D, 0, 0, q); if (pB == pC) one_jump(2, pR, pR, pB, pB, pC, pC, E, 0, 0, q); }
                if (MODE == 3) for (int q = 0; q <= 1; q++) for (int dp = 0; dp <= 2; dp++) { one_jump(2, 2, pR, pB, pB, pC, pC, D, q, 1, dp); if (pB == pC) one_jump(2, 2, pR, pB, pB, pC, pC, E, q, 1, dp); }
            }
    VC_REACH("end");
}
