/* Contract of the case label analyzer: the label enters the table of its switch under its value converted to the promoted type
 * of the controlling expression (C11 6.8.4.2p5), once; default is unique; and of switch: that promoted type is recorded. */
#include "vc.h"
#include "arith.h"
#include "astenv.h"
#include "errstub.h"
#include "kefir/ast/analyzer/nodes.h"
#include "kefir/ast/analyzer/analyzer.h"
#include "kefir/ast/flow_control.h"
#include "kefir/ast/constant_expression.h"
static struct kefir_ast_node_base g_lab, g_body;
static struct kefir_ast_case_statement g_case;
static struct kefir_ast_flow_control_tree g_tree;
static struct kefir_ast_flow_control_structure g_parent;
static struct kefir_ast_flow_control_point g_pt[2];
static struct {
    struct kefir_ast_flow_control_point *parent_point;
    kefir_ast_flow_control_structure_type_t type;
    struct kefir_ast_flow_control_structure_cleanup cleanup;
    __typeof__(g_parent.payload) payload;
    __typeof__(g_parent.value.switchStatement) sw;
} g_sw;
_Static_assert(__builtin_offsetof(__typeof__(g_sw), sw) == __builtin_offsetof(struct kefir_ast_flow_control_structure, value), "layout");
#define SW ((struct kefir_ast_flow_control_structure *) &g_sw)
static uint64_t g_val, ins_key;
static int lt, ct, n_ins, n_alloc, n_free;
static _Bool dup;
kefir_result_t kefir_ast_analyze_node(struct kefir_mem *m, const struct kefir_ast_context *c, struct kefir_ast_node_base *n) {
    VC_CHECK(m == &vc_mem && c == &vc_ctx && (n == &g_lab || n == &g_body), "call-site precondition of kefir_ast_analyze_node");
    return KEFIR_OK;
}
kefir_result_t kefir_ast_constant_expression_value_evaluate(struct kefir_mem *m, const struct kefir_ast_context *c, const struct kefir_ast_node_base *n,
                                                            struct kefir_ast_constant_expression_value *v) {
    VC_CHECK(m == &vc_mem && c == &vc_ctx && n == &g_lab, "call-site precondition of constant_expression_value_evaluate");
    v->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
    v->integer = (int64_t) g_val;
    return KEFIR_OK;
}
/* C02: the value converted to the type */
kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *m, const struct kefir_ast_context *c, struct kefir_ast_constant_expression_value *v,
                                                        const struct kefir_ast_constant_expression_value *s, const struct kefir_ast_type *st,
                                                        const struct kefir_ast_node_base *n, const struct kefir_ast_type *t) {
    (void) m; (void) c; (void) n;
    VC_CHECK(st == g_lab.properties.type, "call-site precondition of constant_expression_value_cast");
    int x = -1;
    for (int i = 0; i < T_NINT; i++) if (t == ty(i)) x = i;
    VC_CHECK(x >= 0, "call-site precondition of constant_expression_value_cast: an integer type");
    v->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
    v->integer = (int64_t) spec_wrap(x >= 0 ? x : 0, (uint64_t) s->integer);
    return KEFIR_OK;
}
kefir_result_t kefir_ast_flow_control_tree_traverse(struct kefir_ast_flow_control_tree *t, kefir_result_t (*f)(const struct kefir_ast_flow_control_structure *, void *, kefir_bool_t *),
                                                    void *p, struct kefir_ast_flow_control_structure **r) {
    VC_CHECK(t == &g_tree, "call-site precondition of flow_control_tree_traverse");
    kefir_bool_t yes = false, no = true;
    VC_CHECK(f(SW, p, &yes) == KEFIR_OK && yes, "the label looks for a switch");
    VC_CHECK(f(&g_parent, p, &no) == KEFIR_OK && !no, "the label looks for nothing but a switch");
    *r = SW;
    return KEFIR_OK;
}
kefir_result_t kefir_ast_flow_control_tree_top(struct kefir_ast_flow_control_tree *t, struct kefir_ast_flow_control_structure **r) {
    VC_CHECK(t == &g_tree, "call-site precondition of flow_control_tree_top");
    *r = &g_parent;
    return KEFIR_OK;
}
struct kefir_ast_flow_control_point *kefir_ast_flow_control_point_alloc(struct kefir_mem *m, struct kefir_ast_flow_control_structure *s) {
    VC_CHECK(m == &vc_mem && s == &g_parent && n_alloc < 2, "call-site precondition of flow_control_point_alloc: the point lies in the block of the label");
    return &g_pt[n_alloc++];
}
kefir_result_t kefir_ast_flow_control_point_free(struct kefir_mem *m, struct kefir_ast_flow_control_point *p) { (void) m; (void) p; n_free++; return KEFIR_OK; }
kefir_result_t kefir_hashtree_insert(struct kefir_mem *m, struct kefir_hashtree *t, kefir_hashtree_key_t k, kefir_hashtree_value_t v) {
    VC_CHECK(m == &vc_mem && t == &g_sw.sw.cases && v == (kefir_hashtree_value_t) &g_pt[0], "call-site precondition of kefir_hashtree_insert");
    n_ins++;
    ins_key = k;
    return dup ? KEFIR_ALREADY_EXISTS : KEFIR_OK;
}
#define BASE g_case.base
CONTRACT(kefir_result_t, kefir_ast_analyze_case_statement_node,
         (struct kefir_mem *mem, const struct kefir_ast_context *c, const struct kefir_ast_case_statement *n, struct kefir_ast_node_base *b), (mem, c, n, b),
         REQ(b == &g_case.base), FRAME(g_case.base.properties, g_sw),
         ENS(n->expression == NULL || (RET == KEFIR_OK) == !dup)
         ENS(n->expression == NULL || (n_ins == 1 && ins_key == spec_wrap(ct, g_val)))
         ENS(n->expression != NULL || (n_ins == 0 && (RET == KEFIR_OK) == !dup))
         ENS(RET != KEFIR_OK || b->properties.statement_props.target_flow_control_point == &g_pt[0])
         ENS(RET != KEFIR_OK || n->expression != NULL || g_sw.sw.defaultCase == &g_pt[0])
         ENS(RET != KEFIR_OK || n->expression == NULL || g_sw.sw.defaultCase == NULL)
         ENS(RET != KEFIR_OK || (b->properties.category == KEFIR_AST_NODE_CATEGORY_STATEMENT && b->properties.statement_props.flow_control_statement == SW)))
static void one(_Bool with_label, _Bool d) {
    n_ins = n_alloc = n_free = 0;
    dup = d;
    vc_expr(&g_lab, ty(lt));
    g_body.properties.category = KEFIR_AST_NODE_CATEGORY_STATEMENT;
    g_val = spec_wrap(lt, ND64());
    vc_ctx.flow_control_tree = &g_tree;
    g_sw.type = KEFIR_AST_FLOW_CONTROL_STRUCTURE_SWITCH;
    g_sw.sw.controlling_expression_type = ty(ct);
    g_sw.sw.defaultCase = !with_label && d ? &g_pt[1] : NULL;
    g_parent = (struct kefir_ast_flow_control_structure){.type = KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK};
    g_case.expression = with_label ? &g_lab : NULL;
    g_case.statement = &g_body;
    call_kefir_ast_analyze_case_statement_node(&vc_mem, &vc_ctx, &g_case, &g_case.base);
}
void harness(void) {
    vc_ctx_setup();
    for (lt = 0; lt < T_NINT; lt++)
        for (ct = 0; ct < T_NINT; ct++)
            if (ct == spec_promote(ct)) { one(true, false); one(true, true); }
    lt = ct = T_SI;
    one(false, false);
    one(false, true);
    VC_REACH("end");
}
