/* Surroundings of a translator function under proof: opaque sub-expressions, C types as AST types, and the type layout
 * service by contract (the id handed out designates the type it was asked for). */
#ifndef VC_TRENV_H_
#define VC_TRENV_H_
#include "vc.h"
#include "astenv.h"
#include "errstub.h"
#include "rtspec.h"
#include "kefir/ast-translator/translator_impl.h"
#include "kefir/ast-translator/translator.h"
#include "kefir/ast-translator/context.h"
#include "kefir/ast-translator/environment.h"
#include "kefir/ast-translator/type.h"
#include "kefir/ast/type_layout.h"

static struct kefir_ast_type tr_ptr_type, tr_enum_type, tr_const_int, tr_void_type;
static int tr_ptr_to = T_SI; /* type the pointers of the unit refer to */
#define T_ENUM (T_N + 1)
#define T_CINT (T_N + 2) /* const int */
#define T_VOID (T_N + 3)
static const struct kefir_ast_type *tyx(int t) {
    if (t == T_PTR) {
        tr_ptr_type = (struct kefir_ast_type){.tag = KEFIR_AST_TYPE_SCALAR_POINTER, .ops = kefir_ast_type_signed_int()->ops, .referenced_type = ty(tr_ptr_to)};
        return &tr_ptr_type;
    }
    if (t == T_ENUM) {
        tr_enum_type = (struct kefir_ast_type){.tag = KEFIR_AST_TYPE_ENUMERATION, .ops = kefir_ast_type_signed_int()->ops,
                                               .enumeration_type = {.complete = true, .underlying_type = kefir_ast_type_signed_int()}};
        return &tr_enum_type;
    }
    if (t == T_CINT) {
        tr_const_int = (struct kefir_ast_type){.tag = KEFIR_AST_TYPE_QUALIFIED, .ops = kefir_ast_type_signed_int()->ops,
                                               .qualified_type = {.type = kefir_ast_type_signed_int(), .qualification = {.constant = true}}};
        return &tr_const_int;
    }
    if (t == T_VOID) return kefir_ast_type_void();
    return ty(t);
}
/* the type whose values those of t are */
static int t_val(int t) { return t == T_ENUM || t == T_CINT ? T_SI : t; }

#define TR_N 4
static struct kefir_ast_node_base g_n[TR_N];
static int g_t[TR_N];
static struct kefir_ast_translator_context tr_ctx;
static struct kefir_ast_translator_environment tr_env;

kefir_result_t kefir_ast_translate_expression(struct kefir_mem *mem, const struct kefir_ast_node_base *n,
                                              struct kefir_irbuilder_block *b, struct kefir_ast_translator_context *c) {
    VC_CHECK(mem == &vc_mem && b == &vm_b && c == &tr_ctx && (n == &g_n[0] || n == &g_n[1] || n == &g_n[2] || n == &g_n[3]),
             "call-site precondition of kefir_ast_translate_expression");
    vm_put(VM_EXPR + (n == &g_n[0] ? 0 : n == &g_n[1] ? 1 : n == &g_n[2] ? 2 : 3), 0);
    return KEFIR_OK;
}

#define TR_TYPE_ID 11
#define TR_TYPE_SLOT 5
static struct kefir_ast_type_layout tr_layout = {.value = TR_TYPE_SLOT};
static struct kefir_ast_translator_type tr_type;
static int tr_type_live;
static uint64_t tr_type_size;
kefir_result_t kefir_ast_translator_type_new(struct kefir_mem *mem, const struct kefir_ast_translator_environment *env,
                                             struct kefir_ir_module *module, const struct kefir_ast_type *type,
                                             kefir_size_t align, struct kefir_ast_translator_type **out) {
    (void) mem; (void) module; (void) align;
    VC_CHECK(env == &tr_env, "call-site precondition of kefir_ast_translator_type_new");
    tr_type_live++;
    tr_type_size = spec_sizeof(type);
    tr_type.type = type;
    tr_type.object.ir_type_id = TR_TYPE_ID;
    tr_type.object.layout = &tr_layout;
    *out = &tr_type;
    return KEFIR_OK;
}
kefir_result_t kefir_ast_translator_type_free(struct kefir_mem *mem, struct kefir_ast_translator_type *t) {
    (void) mem;
    VC_CHECK(t == &tr_type, "call-site precondition of kefir_ast_translator_type_free");
    tr_type_live--;
    return KEFIR_OK;
}
static uint64_t vm_elem_size(uint64_t arg) {
    VC_CHECK(arg == (TR_TYPE_ID | (uint64_t) TR_TYPE_SLOT << 32), "element size is taken from the referenced type");
    return tr_type_size;
}
static uint64_t vm_offset_of(uint64_t arg) { (void) arg; VC_CHECK(0, "no member offset here"); return 0; }

/* halves of a long double constant: only +1 and -1 occur */
kefir_uint64_t kefir_ir_long_double_upper_half(kefir_long_double_t v) {
    VC_CHECK(v == 1.0L || v == -1.0L, "long double constant of the increment is one");
    return v < 0 ? 0xbfff : 0x3fff;
}
kefir_uint64_t kefir_ir_long_double_lower_half(kefir_long_double_t v) { (void) v; return 0x8000000000000000ull; }

static void tr_setup(void) {
    vc_ctx_setup();
    tr_env.target_env = vc_env;
    tr_ctx.ast_context = &vc_ctx;
    tr_ctx.environment = &tr_env;
}
static void tr_node(struct kefir_ast_node_base *n, int t) {
    vc_expr(n, tyx(t));
    n->properties.expression_props.constant_expression = false;
}
static void tr_operand(int i, int t) {
    g_t[i] = t;
    tr_node(&g_n[i], t);
    vm_x_void[i] = t == T_VOID;
    vm_x_ld[i] = t == T_LD;
    vm_x[i] = rt_any(t_val(t));
}
static void tr_reset(void) {
    vm_reset();
    tr_type_live = 0;
}
static _Bool neg_zero(int t, val_t v) { return (t == T_F && v.lo == 0x80000000u) || (t == T_D && v.lo == 0x8000000000000000ull); }
#endif
