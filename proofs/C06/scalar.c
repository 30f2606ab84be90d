/* Contracts of conversion, cast, unary, conditional and comma translation: the code leaves exactly the C value on the
 * operand stack for every operand value, and evaluates exactly the operands C says, in order. */
#include "trenv.h"
#include "kefir/ast-translator/typeconv.h"
enum { K_CONV, K_CAST, K_UNARY, K_COND, K_ELVIS, K_COMMA, K_CONST, K_CONDARM, K_NORM };
static struct kefir_ast_cast_operator g_cast;
static struct kefir_ast_unary_operation g_un;
static struct kefir_ast_conditional_operator g_cond;
static struct kefir_ast_comma_operator g_comma;
static struct kefir_ast_constant g_const;
static struct kefir_list_entry g_le[3];
static val_t g_spec;

#define CTX struct kefir_mem *mem, struct kefir_ast_translator_context *ctx, struct kefir_irbuilder_block *b
CONTRACT(kefir_result_t, kefir_ast_translate_cast_operator_node, (CTX, const struct kefir_ast_cast_operator *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translate_unary_operation_node, (CTX, const struct kefir_ast_unary_operation *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translate_conditional_operator_node, (CTX, const struct kefir_ast_conditional_operator *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translate_comma_operator_node, (CTX, const struct kefir_ast_comma_operator *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translate_constant_node, (CTX, const struct kefir_ast_constant *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translate_typeconv,
         (struct kefir_irbuilder_block *b, const struct kefir_ast_type_traits *tt, const struct kefir_ast_type *from, const struct kefir_ast_type *to),
         (b, tt, from, to), REQ(b == &vm_b && tt == &vc_traits), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translate_typeconv_normalize,
         (struct kefir_irbuilder_block *b, const struct kefir_ast_type_traits *tt, const struct kefir_ast_type *t),
         (b, tt, t), REQ(b == &vm_b && tt == &vc_traits), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))

static void one_conv(int from, int to) {
    if ((to == T_PTR && IS_FLT(from)) || (from == T_PTR && IS_FLT(to))) return; /* constraint violation */
    tr_reset();
    tr_operand(0, from);
    if (KIND == K_CONV) {
        vm_put(VM_EXPR, 0);
        call_kefir_ast_translate_typeconv(&vm_b, &vc_traits, tyx(from), tyx(to));
    } else {
        tr_node(&g_cast.base, to);
        g_cast.expr = &g_n[0];
        call_kefir_ast_translate_cast_operator_node(&vc_mem, &tr_ctx, &vm_b, &g_cast);
    }
    vm_run();
    if (to == T_VOID) {
        VC_CHECK(vm_end_depth == 0, "conversion to void leaves no value");
    } else {
        g_spec = rt_conv(t_val(from), t_val(to), vm_x[0]);
        _Bool excl = rt_conv_excluded(t_val(from), t_val(to), vm_x[0]);
        VC_CHECK((KNOWN ? !excl : excl) || rt_result_is(t_val(to), g_spec), "value of the conversion");
    }
    VC_CHECK(vm_x_n[0] == 1, "the operand is evaluated once");
}
static void one_norm(int t) {
    tr_reset();
    tr_operand(0, t);
    uint64_t raw = ND64();
    if (!IS_FLT(t) && t != T_PTR) vm_x[0].lo = raw;
    vm_put(VM_EXPR, 0);
    call_kefir_ast_translate_typeconv_normalize(&vm_b, &vc_traits, tyx(t));
    vm_run();
    g_spec = IS_FLT(t) || t == T_PTR ? vm_x[0] : V1(spec_wrap(t_val(t), vm_x[0].lo));
    VC_CHECK(rt_result_is(t_val(t), g_spec), "value of the normalisation");
}
static void one_unary(int op, int t) {
    int v = t_val(t), r = spec_promote(v);
    if (op == KEFIR_AST_OPERATION_LOGICAL_NEGATE) r = T_SI;
    else if (t == T_PTR) return;
    if (op == KEFIR_AST_OPERATION_INVERT && IS_FLT(t)) return;
    tr_reset();
    tr_operand(0, t);
    tr_node(&g_un.base, r);
    g_un.type = op;
    g_un.arg = &g_n[0];
    call_kefir_ast_translate_unary_operation_node(&vc_mem, &tr_ctx, &vm_b, &g_un);
    vm_run();
    val_t x = vm_x[0];
    switch (op) {
        case KEFIR_AST_OPERATION_PLUS: g_spec = x; break;
        case KEFIR_AST_OPERATION_NEGATE:
            if (v == T_F) g_spec = V1(x.lo ^ 0x80000000u);
            else if (v == T_D) g_spec = V1(x.lo ^ 0x8000000000000000ull);
            else if (v == T_LD) g_spec = (val_t){.lo = x.lo, .hi = x.hi ^ 0x8000};
            else g_spec = V1(spec_wrap(r, 0 - x.lo));
            break;
        case KEFIR_AST_OPERATION_INVERT: g_spec = V1(spec_wrap(r, ~x.lo)); break;
        default: g_spec = V1(!rt_truth(v, x)); break;
    }
    _Bool excl = op == KEFIR_AST_OPERATION_LOGICAL_NEGATE && neg_zero(v, x);
    VC_CHECK((KNOWN ? !excl : excl) || rt_result_is(r, g_spec), "value of the unary operator");
    VC_CHECK(vm_x_n[0] == 1, "the operand is evaluated once");
}
static void one_cond(int c, int a, int b2, int res) {
    tr_reset();
    tr_operand(0, c);
    tr_operand(1, a);
    tr_operand(2, b2);
    tr_node(&g_cond.base, res);
    g_cond.condition = &g_n[0];
    g_cond.expr1 = KIND == K_ELVIS ? NULL : &g_n[1];
    g_cond.expr2 = &g_n[2];
    call_kefir_ast_translate_conditional_operator_node(&vc_mem, &tr_ctx, &vm_b, &g_cond);
    vm_run();
    _Bool truth = rt_truth(t_val(c), vm_x[0]);
    int rv = t_val(res);
    _Bool excl = neg_zero(t_val(c), vm_x[0]);
    if (KIND == K_ELVIS) g_spec = truth ? rt_conv(t_val(c), rv, vm_x[0]) : rt_conv(t_val(b2), rv, vm_x[2]);
    else g_spec = truth ? rt_conv(t_val(a), rv, vm_x[1]) : rt_conv(t_val(b2), rv, vm_x[2]);
    if (KIND == K_CONDARM) { VC_CHECK(rt_result_is(rv, g_spec), "value of the conditional operator whose arms differ in type"); return; }
    if (res == T_VOID) VC_CHECK((KNOWN ? !excl : excl) || vm_end_depth == 0, "a void conditional leaves no value");
    else VC_CHECK((KNOWN ? !excl : excl) || rt_result_is(rv, g_spec), "value of the conditional operator");
    VC_CHECK((KNOWN ? !excl : excl) || (vm_x_n[0] == 1 && (KIND == K_ELVIS || vm_x_n[1] == truth) && vm_x_n[2] == !truth), "exactly the selected arm is evaluated");
    VC_CHECK((KNOWN ? !excl : excl) || (vm_x_n[1] == 0 || vm_x_seq[0] < vm_x_seq[1]), "the condition is evaluated first");
}
static void one_comma(int a, int b2, int c, int n) {
    tr_reset();
    tr_operand(0, a);
    tr_operand(1, b2);
    tr_operand(2, c);
    for (int i = 0; i < 3; i++) {
        g_le[i].value = &g_n[i];
        g_le[i].next = i + 1 < n ? &g_le[i + 1] : NULL;
        g_le[i].prev = i ? &g_le[i - 1] : NULL;
    }
    g_comma.expressions.head = &g_le[0];
    g_comma.expressions.tail = &g_le[n - 1];
    g_comma.expressions.length = (kefir_size_t) n;
    int last = g_t[n - 1];
    tr_node(&g_comma.base, last);
    call_kefir_ast_translate_comma_operator_node(&vc_mem, &tr_ctx, &vm_b, &g_comma);
    vm_run();
    if (last == T_VOID) VC_CHECK(vm_end_depth == 0, "a void comma expression leaves no value");
    else VC_CHECK(rt_result_is(t_val(last), vm_x[n - 1]), "value of the comma operator");
    for (int i = 0; i < n; i++) VC_CHECK(vm_x_n[i] == 1 && vm_x_seq[i] == i + 1, "operands are evaluated once, left to right");
}
static void one_const(int k) {
    tr_reset();
    uint64_t v = ND64();
    struct kefir_ast_constant c = {.type = (kefir_ast_constant_type_t) k};
    int t;
    switch (k) {
        case KEFIR_AST_BOOL_CONSTANT: v &= 1; c.value.boolean = v != 0; t = T_BOOL; break;
        case KEFIR_AST_CHAR_CONSTANT: c.value.character = (kefir_char_t) v; v = (uint64_t) (int64_t) (char) v; t = T_SI; break;
        case KEFIR_AST_WIDE_CHAR_CONSTANT: c.value.wide_character = (kefir_wchar_t) v; v = (uint64_t) (int64_t) (int32_t) v; t = T_SI; break;
        case KEFIR_AST_UNICODE16_CHAR_CONSTANT: c.value.unicode16_character = (kefir_char16_t) v; v = (uint16_t) v; t = T_US; break;
        case KEFIR_AST_UNICODE32_CHAR_CONSTANT: c.value.unicode32_character = (kefir_char32_t) v; v = (uint32_t) v; t = T_UI; break;
        case KEFIR_AST_INT_CONSTANT: v = spec_wrap(T_SI, v); c.value.integer = (kefir_int_t) v; t = T_SI; break;
        case KEFIR_AST_UINT_CONSTANT: v = spec_wrap(T_UI, v); c.value.uinteger = (kefir_uint_t) v; t = T_UI; break;
        case KEFIR_AST_LONG_CONSTANT: c.value.long_integer = (kefir_long_t) v; t = T_SL; break;
        case KEFIR_AST_ULONG_CONSTANT: c.value.ulong_integer = v; t = T_UL; break;
        case KEFIR_AST_LONG_LONG_CONSTANT: c.value.long_long = (kefir_long_long_t) v; t = T_SLL; break;
        case KEFIR_AST_ULONG_LONG_CONSTANT: c.value.ulong_long = v; t = T_ULL; break;
        case KEFIR_AST_FLOAT_CONSTANT: v = (uint32_t) v; c.value.float32 = vm_f(v); t = T_F; VC_ASSUME(vm_f(v) == vm_f(v)); break;
        default: c.value.float64 = vm_d(v); t = T_D; VC_ASSUME(vm_d(v) == vm_d(v)); break;
    }
    g_const = c;
    tr_node(&g_const.base, t);
    call_kefir_ast_translate_constant_node(&vc_mem, &tr_ctx, &vm_b, &g_const);
    vm_run();
    VC_CHECK(rt_result_is(t, V1(v)), "value of the constant");
}
void harness(void) {
    tr_setup();
    if (KIND == K_CONV || KIND == K_CAST)
        for (int f = LO; f < HI; f++)
            for (int t = 0; t <= T_VOID; t++) one_conv(f, t);
    if (KIND == K_NORM)
        for (int t = 0; t <= T_CINT; t++) one_norm(t);
    if (KIND == K_UNARY)
        for (int t = 0; t <= T_CINT; t++) {
            one_unary(KEFIR_AST_OPERATION_PLUS, t);
            one_unary(KEFIR_AST_OPERATION_NEGATE, t);
            one_unary(KEFIR_AST_OPERATION_INVERT, t);
            one_unary(KEFIR_AST_OPERATION_LOGICAL_NEGATE, t);
        }
    if (KIND == K_COND) {
        for (int c = 0; c <= T_CINT; c++) { one_cond(c, T_SI, T_SI, T_SI); one_cond(c, T_LD, T_LD, T_LD); one_cond(c, T_VOID, T_VOID, T_VOID); }
        for (int r = 0; r <= T_CINT; r++) one_cond(T_SI, r, r, r);
    }
    if (KIND == K_ELVIS)
        for (int c = 0; c <= T_PTR; c++) if (c == spec_promote(c)) one_cond(c, c, c, c);
    if (KIND == K_CONDARM) { if (LO == 0) one_cond(T_SI, T_SI, T_D, T_D); else one_cond(T_SI, T_SI, T_UI, T_UI); }
    if (KIND == K_COMMA)
        for (int a = 0; a <= T_VOID; a++) { one_comma(a, T_SI, T_SI, 2); one_comma(T_LD, a, T_D, 3); one_comma(T_VOID, T_SI, a, 3); one_comma(a, a, a, 1); }
    if (KIND == K_CONST) {
        for (int k = KEFIR_AST_BOOL_CONSTANT; k <= KEFIR_AST_ULONG_LONG_CONSTANT; k++) one_const(k);
        one_const(KEFIR_AST_FLOAT_CONSTANT);
        one_const(KEFIR_AST_DOUBLE_CONSTANT);
    }
    VC_REACH("all cases");
}
