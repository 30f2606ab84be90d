/* Contracts of the statement translators: control reaches exactly the parts C prescribes, in C's order, for every value of the
 * controlling expression, and the operand stack is as before. */
#include "stmts.h"
#include "kefir/ast/flow_control.h"
enum { K_WHILE, K_DO, K_FOR, K_IF, K_SWITCH, K_EXPR, K_COMPOUND, K_LABEL, K_RETURN, K_GOTOADDR, K_LABELADDR };
#define CTX struct kefir_mem *mem, struct kefir_ast_translator_context *ctx, struct kefir_irbuilder_block *b
#define STMT_CONTRACT(S)                                                                                                              \
    CONTRACT(kefir_result_t, kefir_ast_translate_##S##_node, (CTX, const struct kefir_ast_##S *n), (mem, ctx, b, n), \
             REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len, ref_tab, ref_n, pt_addr), ENS(RET == KEFIR_OK))
STMT_CONTRACT(while_statement)
STMT_CONTRACT(do_while_statement)
STMT_CONTRACT(for_statement)
STMT_CONTRACT(conditional_statement)
STMT_CONTRACT(switch_statement)
STMT_CONTRACT(expression_statement)
STMT_CONTRACT(compound_statement)
STMT_CONTRACT(labeled_statement)
STMT_CONTRACT(case_statement)
STMT_CONTRACT(return_statement)
STMT_CONTRACT(goto_statement)
STMT_CONTRACT(label_address)

static struct kefir_ast_flow_control_structure g_fc;
static struct kefir_ast_while_statement g_while;
static struct kefir_ast_do_while_statement g_do;
static struct kefir_ast_for_statement g_for;
static struct kefir_ast_conditional_statement g_if;
static struct kefir_ast_switch_statement g_switch;
static struct kefir_ast_expression_statement g_expr;
static struct kefir_ast_compound_statement g_comp;
static struct kefir_ast_labeled_statement g_lab;
static struct kefir_ast_case_statement g_case;
static struct kefir_ast_return_statement g_ret;
static struct kefir_ast_goto_statement g_goto;
static struct kefir_ast_label_address g_la;

/* the same structure with the union member of a switch in place of the union (the verifier reads a union member written as
 * another one bytewise); the layout is asserted equal */
static struct {
    struct kefir_ast_flow_control_point *parent_point;
    kefir_ast_flow_control_structure_type_t type;
    struct kefir_ast_flow_control_structure_cleanup cleanup;
    __typeof__(g_fc.payload) payload;
    __typeof__(g_fc.value.switchStatement) sw;
} g_fc_sw;
_Static_assert(__builtin_offsetof(__typeof__(g_fc_sw), sw) == __builtin_offsetof(struct kefir_ast_flow_control_structure, value) &&
               __builtin_offsetof(__typeof__(g_fc_sw), type) == __builtin_offsetof(struct kefir_ast_flow_control_structure, type), "layout");
static struct {
    kefir_ast_scoped_identifier_class_t klass;
    struct kefir_ast_scoped_identifier_cleanup cleanup;
    __typeof__(((struct kefir_ast_scoped_identifier *) 0)->label) label;
    char rest[256];
} g_label_id;
_Static_assert(__builtin_offsetof(__typeof__(g_label_id), label) == __builtin_offsetof(struct kefir_ast_scoped_identifier, label), "layout");
static void fc_loop(void) {
    g_fc = (struct kefir_ast_flow_control_structure){.type = KEFIR_AST_FLOW_CONTROL_STRUCTURE_WHILE, .value = {.loop = {.continuation = &g_p[P_CONT], .end = &g_p[P_END]}}};
}
static void one_while(int t) {
    st_reset();
    tr_operand(0, t);
    fc_loop();
    g_while.base.properties.statement_props.flow_control_statement = &g_fc;
    g_while.controlling_expr = &g_n[0];
    g_while.body = &g_s[0];
    call_kefir_ast_translate_while_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_while);
    st_link();
    _Bool tv = rt_truth(t_val(t), vm_x[0]);
    st_go(0, -1);
    ST_NEXT(1, VM_EXPR + 0, "while: the condition is evaluated first");
    FOR_EV(pc, VM_EXPR + 0) {
        st_go(pc + 1, 0);
        ST_NEXT(tv, VM_STMT + 0, "while: a true condition leads to the body");
        ST_NEXT(!tv, EV_END, "while: a false condition ends the loop");
    }
    FOR_EV(pc, VM_STMT + 0) { st_go(pc + 1, -1); ST_NEXT(1, VM_EXPR + 0, "while: the condition follows the body"); }
    VC_CHECK(pt_n_resolved[P_CONT] == 1 && pt_n_resolved[P_END] == 1, "while: break and continue targets are resolved");
    st_go((uint64_t) pt_addr[P_CONT], -1);
    ST_NEXT(1, VM_EXPR + 0, "while: continue leads to the condition");
    st_go((uint64_t) pt_addr[P_END], -1);
    ST_NEXT(1, EV_END, "while: break ends the loop");
}
static void one_do(int t) {
    st_reset();
    tr_operand(0, t);
    fc_loop();
    g_do.base.properties.statement_props.flow_control_statement = &g_fc;
    g_do.controlling_expr = &g_n[0];
    g_do.body = &g_s[0];
    call_kefir_ast_translate_do_while_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_do);
    st_link();
    _Bool tv = rt_truth(t_val(t), vm_x[0]);
    st_go(0, -1);
    ST_NEXT(1, VM_STMT + 0, "do: the body is executed first");
    FOR_EV(pc, VM_EXPR + 0) {
        st_go(pc + 1, 0);
        ST_NEXT(tv, VM_STMT + 0, "do: a true condition repeats the body");
        ST_NEXT(!tv, EV_END, "do: a false condition ends the loop");
    }
    FOR_EV(pc, VM_STMT + 0) { st_go(pc + 1, -1); ST_NEXT(1, VM_EXPR + 0, "do: the condition follows the body"); }
    VC_CHECK(pt_n_resolved[P_CONT] == 1 && pt_n_resolved[P_END] == 1, "do: break and continue targets are resolved");
    st_go((uint64_t) pt_addr[P_CONT], -1);
    ST_NEXT(1, VM_EXPR + 0, "do: continue leads to the condition");
    st_go((uint64_t) pt_addr[P_END], -1);
    ST_NEXT(1, EV_END, "do: break ends the loop");
}
/* init: 0 none, 1 declaration, 2 init declarator, 3 expression of type ti */
static void one_for(int t, int init, _Bool cond, _Bool tail, int ti) {
    st_reset();
    tr_operand(0, t);
    tr_operand(1, ti);
    tr_operand(2, ti);
    fc_loop();
    g_for.base.properties.statement_props.flow_control_statement = &g_fc;
    g_for.init = init == 0 ? NULL : init == 3 ? &g_n[1] : &g_d[0];
    if (init == 2) g_d[0].properties.category = KEFIR_AST_NODE_CATEGORY_INIT_DECLARATOR;
    g_for.controlling_expr = cond ? &g_n[0] : NULL;
    g_for.tail = tail ? &g_n[2] : NULL;
    g_for.body = &g_s[0];
    call_kefir_ast_translate_for_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_for);
    st_link();
    _Bool tv = rt_truth(t_val(t), vm_x[0]);
    const int first = cond ? VM_EXPR + 0 : VM_STMT + 0, iev = init == 3 ? VM_EXPR + 1 : EV_DECL;
    st_go(0, -1);
    ST_NEXT(1, init ? iev : first, "for: the first clause is evaluated first");
    FOR_EV(pc, iev) { st_go(pc + 1, init == 3 ? 1 : -1); ST_NEXT(1, first, "for: the condition (or body) follows the first clause"); }
    FOR_EV(pc, VM_EXPR + 0) {
        st_go(pc + 1, 0);
        ST_NEXT(tv, VM_STMT + 0, "for: a true condition leads to the body");
        ST_NEXT(!tv, EV_END, "for: a false condition ends the loop");
    }
    FOR_EV(pc, VM_STMT + 0) { st_go(pc + 1, -1); ST_NEXT(1, tail ? VM_EXPR + 2 : first, "for: the tail expression follows the body"); }
    FOR_EV(pc, VM_EXPR + 2) { st_go(pc + 1, 2); ST_NEXT(1, first, "for: the condition (or body) follows the tail expression"); }
    VC_CHECK(pt_n_resolved[P_CONT] == 1 && pt_n_resolved[P_END] == 1, "for: break and continue targets are resolved");
    st_go((uint64_t) pt_addr[P_CONT], -1);
    ST_NEXT(1, tail ? VM_EXPR + 2 : first, "for: continue leads to the tail expression");
    st_go((uint64_t) pt_addr[P_END], -1);
    ST_NEXT(1, EV_END, "for: break ends the loop");
}
static void one_if(int t, _Bool els) {
    st_reset();
    tr_operand(0, t);
    g_fc = (struct kefir_ast_flow_control_structure){.type = KEFIR_AST_FLOW_CONTROL_STRUCTURE_IF, .value = {.conditional = {.thenBranchEnd = &g_p[P_THEN], .elseBranchEnd = els ? &g_p[P_ELSE] : NULL}}};
    g_if.base.properties.statement_props.flow_control_statement = &g_fc;
    g_if.condition = &g_n[0];
    g_if.thenBranch = &g_s[0];
    g_if.elseBranch = els ? &g_s[1] : NULL;
    call_kefir_ast_translate_conditional_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_if);
    st_link();
    _Bool tv = rt_truth(t_val(t), vm_x[0]);
    st_go(0, -1);
    ST_NEXT(1, VM_EXPR + 0, "if: the condition is evaluated first");
    FOR_EV(pc, VM_EXPR + 0) {
        st_go(pc + 1, 0);
        ST_NEXT(tv, VM_STMT + 0, "if: a true condition leads to the first substatement");
        ST_NEXT(!tv, els ? VM_STMT + 1 : EV_END, "if: a false condition leads to the second substatement or past the statement");
    }
    FOR_EV(pc, VM_STMT + 0) { st_go(pc + 1, -1); ST_NEXT(1, EV_END, "if: nothing follows the first substatement"); }
    FOR_EV(pc, VM_STMT + 1) { st_go(pc + 1, -1); ST_NEXT(1, EV_END, "if: nothing follows the second substatement"); }
}
/* ---- switch: the case table by contract (each entry delivered once, in some order) ---- */
static struct kefir_hashtree_node ht_node[3];
static int ht_n;
#ifdef USE_HASHTREE
const struct kefir_hashtree_node *kefir_hashtree_iter(const struct kefir_hashtree *t, struct kefir_hashtree_node_iterator *it) {
    VC_CHECK(t == &g_fc_sw.sw.cases, "call-site precondition of kefir_hashtree_iter");
    it->node = ht_n > 0 ? &ht_node[0] : NULL;
    return it->node;
}
const struct kefir_hashtree_node *kefir_hashtree_next(struct kefir_hashtree_node_iterator *it) {
    if (it->node == &ht_node[0] && ht_n > 1) it->node = &ht_node[1];
    else if (it->node == &ht_node[1] && ht_n > 2) it->node = &ht_node[2];
    else it->node = NULL;
    return it->node;
}
#endif
static void one_switch(int t, int n, _Bool dflt) {
    st_reset();
    tr_operand(0, t);
    ht_n = n;
    for (int i = 0; i < 3; i++) {
        ht_node[i].key = spec_wrap(spec_promote(t_val(t)), ND64());
        ht_node[i].value = (kefir_hashtree_value_t) &g_p[P_CASE + i];
    }
    VC_ASSUME(ht_node[0].key != ht_node[1].key && ht_node[0].key != ht_node[2].key && ht_node[1].key != ht_node[2].key);
    const struct kefir_ast_type *cet = tyx(spec_promote(t_val(t)));
    g_fc_sw.type = KEFIR_AST_FLOW_CONTROL_STRUCTURE_SWITCH;
    g_fc_sw.sw.defaultCase = dflt ? &g_p[P_DEFAULT] : NULL;
    g_fc_sw.sw.controlling_expression_type = cet;
    g_fc_sw.sw.end = &g_p[P_END];
    g_switch.base.properties.statement_props.flow_control_statement = (struct kefir_ast_flow_control_structure *) &g_fc_sw;
    g_switch.expression = &g_n[0];
    g_switch.statement = &g_s[0];
    body_is_switch = true;
    body_cases = n;
    body_default = dflt;
    call_kefir_ast_translate_switch_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_switch);
    st_link();
    st_go(0, -1);
    ST_NEXT(1, VM_EXPR + 0, "switch: the controlling expression is evaluated first");
    FOR_EV(pc, VM_EXPR + 0) {
        st_go(pc + 1, 0);
        _Bool any = false;
        for (int i = 0; i < 3; i++) {
            if (i >= n) break;
            _Bool m = vm_x[0].lo == ht_node[i].key;
            if (m) any = true;
            VC_CHECK(!m || g_ev == VM_STMT + i, "switch: a matching case label gets control");
            if (!KNOWN) VC_CHECK(!m || (vm_ev_depth == 1 && vm_st[0] == SENTINEL), "switch: operand stack unchanged at a matching label");
        }
        VC_CHECK(any || g_ev == (dflt ? VM_STMT + 3 : EV_END), "switch: without a match the default label, or else nothing, gets control");
        VC_CHECK(any || vm_st[0] == SENTINEL, "switch: operand stack below the statement is untouched");
        if (KNOWN) VC_CHECK(any || vm_ev_depth == 1, "switch: operand stack unchanged when no label matches");
        else VC_CHECK(any || vm_ev_depth == 1 || vm_ev_depth == 2, "switch: operand stack depth when no label matches");
    }
    VC_CHECK(pt_n_resolved[P_END] == 1, "switch: the break target is resolved");
    st_go((uint64_t) pt_addr[P_END], -1);
    ST_NEXT(1, EV_END, "switch: break leads past the statement");
    const int last = dflt ? VM_STMT + 3 : VM_STMT + n - 1;
    if (n > 0 || dflt) FOR_EV(pc, last) { st_go(pc + 1, -1); ST_NEXT(1, EV_END, "switch: control falls out of the last labelled statement"); }
}
static void one_expr(int t) {
    st_reset();
    tr_operand(0, t);
    g_expr.expression = &g_n[0];
    call_kefir_ast_translate_expression_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_expr);
    st_link();
    st_go(0, -1);
    ST_NEXT(1, VM_EXPR + 0, "expression statement: the expression is evaluated");
    FOR_EV(pc, VM_EXPR + 0) { st_go(pc + 1, 0); ST_NEXT(1, EV_END, "expression statement: its value is discarded"); }
}
static void null_expr(void) {
    st_reset();
    g_expr.expression = NULL;
    call_kefir_ast_translate_expression_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_expr);
    st_link();
    st_go(0, -1);
    ST_NEXT(1, EV_END, "null statement: does nothing");
}
/* ---- blocks ---- */
static struct kefir_list_entry g_item[4], g_vla_le[2];
static struct kefir_ast_flow_control_data_element g_vla[2];
static void one_compound(int n, int pattern, int nvla) {
    int ev[3];
    st_reset();
    vla_reset();
    for (int i = 0; i < 3; i++) {
        int k = pattern >> (2 * i) & 3; /* 0, 1: statement; 2: declaration; 3: init declarator */
        struct kefir_ast_node_base *nd = k <= 1 ? &g_s[i] : &g_d[k - 2];
        ev[i] = k <= 1 ? VM_STMT + i : EV_DECL + (k - 2);
        if (k == 3) g_d[1].properties.category = KEFIR_AST_NODE_CATEGORY_INIT_DECLARATOR;
        g_item[i] = (struct kefir_list_entry){.value = nd, .prev = i ? &g_item[i - 1] : NULL, .next = i + 1 < n ? &g_item[i + 1] : NULL};
    }
    g_comp.block_items = (struct kefir_list){.head = n ? &g_item[0] : NULL, .tail = n ? &g_item[n - 1] : NULL, .length = (kefir_size_t) n};
    for (int i = 0; i < 2; i++) {
        g_vla[i] = (struct kefir_ast_flow_control_data_element){.identifier = (kefir_id_t) (2 * i + 1), .parent = &g_fc};
        g_vla_le[i] = (struct kefir_list_entry){.value = &g_vla[i], .prev = i ? &g_vla_le[0] : NULL, .next = i + 1 < nvla ? &g_vla_le[1] : NULL};
    }
    g_fc = (struct kefir_ast_flow_control_structure){.type = KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK, .value = {.block = {.contains_vla = nvla > 0,
        .data_elements = {.elements = {.head = nvla ? &g_vla_le[0] : NULL, .tail = nvla ? &g_vla_le[nvla - 1] : NULL, .length = (kefir_size_t) nvla}}}}};
    g_comp.base.properties.statement_props.flow_control_statement = &g_fc;
    vla_alloc(0); /* an array of an enclosing block */
    uint64_t base0 = vla_base, scope0 = vla_scope;
    for (int i = 0; i < nvla; i++) vla_alloc(2 * i + 1);
    call_kefir_ast_translate_compound_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_comp);
    st_link();
    uint64_t pc = 0;
    for (int i = 0; i < n; i++) {
        st_go(pc, -1);
        ST_NEXT(1, ev[i], "block: items are executed in order");
        VC_CHECK(st_count(ev[i]) == 1, "block: each item once");
        FOR_EV(q, ev[i]) pc = q + 1;
    }
    for (int i = 0; i < 3; i++) {
        st_go(pc, -1);
        if (g_ev != KEFIR_IROPCODE_POPSCOPE) break;
        VC_CHECK(vm_ev_depth == 2 && vm_st[0] == SENTINEL, "block: operand stack at the release of an array");
        vla_pop(vm_st[1]);
        uint64_t at = vm_ev_pc;
        pc = at + 1;
    }
    ST_NEXT(1, EV_END, "block: nothing follows the last item");
    VC_CHECK(vla_base == base0 && vla_scope == scope0, "block: exactly the storage of the variable length arrays of the block is released");
}
static void labels(void) {
    st_reset();
    g_lab.base.properties.statement_props.target_flow_control_point = &g_p[0];
    g_lab.statement = &g_s[0];
    call_kefir_ast_translate_labeled_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_lab);
    g_case.base.properties.statement_props.target_flow_control_point = &g_p[1];
    g_case.statement = &g_s[1];
    call_kefir_ast_translate_case_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_case);
    st_link();
    st_go(0, -1);
    ST_NEXT(1, VM_STMT + 0, "label: the labelled statement is executed");
    FOR_EV(pc, VM_STMT + 0) { st_go(pc + 1, -1); ST_NEXT(1, VM_STMT + 1, "label: control proceeds to the next statement"); }
    FOR_EV(pc, VM_STMT + 1) { st_go(pc + 1, -1); ST_NEXT(1, EV_END, "case: control proceeds to the next statement"); }
    VC_CHECK(pt_n_resolved[0] == 1 && pt_n_resolved[1] == 1, "label: the label is resolved");
    st_go((uint64_t) pt_addr[0], -1);
    ST_NEXT(1, VM_STMT + 0, "label: a jump to the label leads to the labelled statement");
    st_go((uint64_t) pt_addr[1], -1);
    ST_NEXT(1, VM_STMT + 1, "case: a jump to the label leads to the labelled statement");
}
static void one_return(int from, int to, _Bool qualified) {
    if ((to == T_PTR && IS_FLT(from)) || (from == T_PTR && IS_FLT(to))) return;
    st_reset();
    tr_operand(0, from);
    static struct kefir_ast_type q;
    if (qualified && from != T_CINT) {
        q = (struct kefir_ast_type){.tag = KEFIR_AST_TYPE_QUALIFIED, .ops = kefir_ast_type_signed_int()->ops, .qualified_type = {.type = tyx(from), .qualification = {.constant = true}}};
        g_n[0].properties.type = &q;
    }
    g_ret.expression = &g_n[0];
    g_ret.base.properties.statement_props.return_type = tyx(to);
    call_kefir_ast_translate_return_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_ret);
    st_link();
    st_go(0, -1);
    ST_NEXT(1, VM_EXPR + 0, "return: the expression is evaluated");
    FOR_EV(pc, VM_EXPR + 0) {
        st_go(pc + 1, 0);
        VC_CHECK(g_ev == KEFIR_IROPCODE_RET, "return: the function returns");
        VC_CHECK(vm_st[0] == SENTINEL, "return: nothing below is touched");
        val_t spec = rt_conv(t_val(from), t_val(to), vm_x[0]);
        _Bool excl = rt_conv_excluded(t_val(from), t_val(to), vm_x[0]);
        vm_end_depth = vm_ev_depth - 1;
        VC_CHECK(vm_ev_depth == (to == T_LD ? 3 : 2), "return: exactly the value is on top");
        val_t got = to == T_LD ? (val_t){.lo = vm_st[2], .hi = vm_st[1]} : V1(vm_st[1]);
        VC_CHECK(excl || (t_val(to) == T_F ? (uint32_t) got.lo == (uint32_t) spec.lo : to == T_LD ? same(got, spec) : got.lo == spec.lo), "return: the value converted to the return type");
    }
}
static void void_return(void) {
    st_reset();
    g_ret.expression = NULL;
    g_ret.base.properties.statement_props.return_type = tyx(T_VOID);
    call_kefir_ast_translate_return_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_ret);
    st_link();
    st_go(0, -1);
    ST_NEXT(1, KEFIR_IROPCODE_RET, "return: the function returns");
}
static struct kefir_ast_node_class g_goto_class;
static void goto_address(void) {
    st_reset();
    tr_operand(0, T_PTR);
    g_goto_class.type = KEFIR_AST_GOTO_ADDRESS_STATEMENT;
    g_goto.base.klass = &g_goto_class;
    g_goto.base.properties.statement_props.flow_control_statement = NULL;
    g_goto.target = &g_n[0];
    call_kefir_ast_translate_goto_statement_node(&vc_mem, &tr_ctx, &vm_b, &g_goto);
    st_link();
    st_go(0, -1);
    ST_NEXT(1, VM_EXPR + 0, "goto *: the address is evaluated");
    FOR_EV(pc, VM_EXPR + 0) {
        st_go(pc + 1, 0);
        VC_CHECK(g_ev == KEFIR_IROPCODE_IJMP && vm_ev_depth == 2 && vm_st[1] == vm_x[0].lo && vm_st[0] == SENTINEL, "goto *: control goes to the address");
    }
    st_reset();
    g_la = (struct kefir_ast_label_address){.base = {.properties = {.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION, .expression_props = {.scoped_id = (struct kefir_ast_scoped_identifier *) &g_label_id}}}};
    g_p[0] = (struct kefir_ast_flow_control_point){.parent = NULL};
    g_label_id.klass = KEFIR_AST_SCOPE_IDENTIFIER_LABEL;
    g_label_id.label.point = &g_p[0];
    call_kefir_ast_translate_label_address_node(&vc_mem, &tr_ctx, &vm_b, &g_la);
    VC_CHECK(vm_len == 1 && vm_code[0].opcode == KEFIR_IROPCODE_PUSHLABEL && ref_n == 1 && ref_tab[0].at == 0 && ref_tab[0].pt == 0, "&&label: the address of the label is pushed");
}
void harness(void) {
    tr_setup();
    switch (KIND) {
        case K_WHILE: for (int t = 0; t <= T_CINT; t++) one_while(t); break;
        case K_DO: for (int t = 0; t <= T_CINT; t++) one_do(t); break;
        case K_FOR:
            if (LO == 0) { for (int t = 0; t <= T_CINT; t++) one_for(t, 0, true, true, T_SI); }
            else {
                static const int tis[4] = {T_SI, T_LD, T_VOID, T_D};
                for (int i = 0; i < 4; i++)
                    for (int c = 0; c < 4; c++)
                        if (LO == i + 1) {
                            if (i < 3) one_for(T_SI, i, c & 1, c >> 1, T_SI);
                            else for (int k = 0; k < 4; k++) one_for(T_SI, i, c & 1, c >> 1, tis[k]);
                        }
            }
            break;
        case K_IF: for (int t = 0; t <= T_CINT; t++) { one_if(t, LO); } break;
        case K_SWITCH:
            for (int t = 0; t <= T_CINT; t++)
                if (!IS_FLT(t) && t != T_PTR) { if (LO <= t && t < HI) { one_switch(t, NC, false); one_switch(t, NC, true); } }
            break;
        case K_EXPR: null_expr(); for (int t = 0; t <= T_VOID; t++) one_expr(t); break;
        case K_COMPOUND:
            for (int n = 0; n <= 2; n++)
                for (int p = 0; p < 16; p++)
                    if ((p & 3) != (p >> 2) || (p & 3) <= 1) one_compound(n, p, LO);
            break;
        case K_LABEL: labels(); break;
        case K_RETURN:
            if (LO == 0) void_return();
            for (int f = 0; f <= T_CINT; f++)
                if (LO <= f && f < HI)
                    for (int t = 0; t <= T_ENUM; t++) { one_return(f, t, false); if (t % 3 == f % 3) one_return(f, t, true); }
            break;
        case K_GOTOADDR: goto_address(); break;
    }
    VC_REACH("end");
}
