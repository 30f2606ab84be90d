/* Contracts of assignment, compound assignment, ++/--, indirection and subscripting: the object designated by the target
 * receives exactly the C value, no other byte changes, the expression has the value stored (or, postfix, the former
 * one), and target and value are evaluated once. */
#include "trenv.h"
#include "opspec.h"
#include "kefir/ast-translator/lvalue.h"
#include "kefir/ast-translator/value.h"
enum { K_SIMPLE, K_COMPOUND, K_INCDEC, K_LOAD, K_INDIR, K_SUBSCR, K_PTR };
static struct kefir_ast_assignment_operator g_as;
static struct kefir_ast_unary_operation g_un;
static struct kefir_ast_array_subscript g_sub;
static uint8_t g_old[16];
static uint64_t g_off;
#define NOP (-1)
#define CTX struct kefir_mem *mem, struct kefir_ast_translator_context *ctx, struct kefir_irbuilder_block *b
CONTRACT(kefir_result_t, kefir_ast_translate_assignment_operator_node, (CTX, const struct kefir_ast_assignment_operator *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translate_unary_operation_node, (CTX, const struct kefir_ast_unary_operation *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translate_array_subscript_node, (CTX, const struct kefir_ast_array_subscript *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
CONTRACT(kefir_result_t, kefir_ast_translator_load_value, (const struct kefir_ast_type *t, const struct kefir_ast_type_traits *tt, struct kefir_irbuilder_block *b), (t, tt, b),
         REQ(b == &vm_b && tt == &vc_traits), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))

static const struct kefir_ast_node_base *g_target2;
static _Bool is_target(const struct kefir_ast_node_base *n) { return n == &g_n[0] || (g_target2 && n == g_target2); }
kefir_result_t kefir_ast_translate_lvalue(CTX, const struct kefir_ast_node_base *n) {
    VC_CHECK(mem == &vc_mem && b == &vm_b && ctx == &tr_ctx && is_target(n), "call-site precondition of kefir_ast_translate_lvalue");
    vm_put(VM_LVAL, 0);
    return KEFIR_OK;
}
static int size_of(int t) { return t == T_PTR ? 8 : t == T_LD ? 16 : t_bits(t_val(t)) / 8; }
/* memory before: arbitrary, except that the object holds a value of its type */
static val_t memory(int t) {
    for (int i = 0; i < 16; i++) vm_mem[i] = ND8();
    g_off = t == T_LD ? 0 : 4;
    vm_addr[0] = VM_OBJ + g_off;
    if (t == T_BOOL) VC_ASSUME(vm_mem[g_off] <= 1);
    for (int i = 0; i < 16; i++) g_old[i] = vm_mem[i];
    if (t == T_LD) return (val_t){.lo = vm_ld(VM_OBJ, 8), .hi = vm_ld(VM_OBJ + 8, 2)};
    uint64_t v = vm_ld(vm_addr[0], size_of(t));
    return V1(t == T_PTR || IS_FLT(t) ? v : spec_wrap(t_val(t), v));
}
static _Bool frame(int n) {
    _Bool ok = true;
    for (uint64_t i = 0; i < 16; i++) if (i < g_off || i >= g_off + (uint64_t) n) ok = ok && vm_mem[i] == g_old[i];
    return ok;
}
static _Bool holds(int t, val_t v) {
    if (t == T_LD) return vm_ld(VM_OBJ, 8) == v.lo && vm_ld(VM_OBJ + 8, 2) == LDHI(v);
    uint64_t m = size_of(t) == 8 ? ~0ull : (1ull << 8 * size_of(t)) - 1;
    return vm_ld(vm_addr[0], size_of(t)) == (v.lo & m);
}
/* known finding: %= and >>= on a 64-bit unsigned object with a signed right operand use the signed operation */
static _Bool known_signedness(int op, int t, int v, val_t a, val_t b) {
    int rt = spec_binop_type(op, t, v);
    if ((op != KEFIR_AST_OPERATION_MODULO && op != KEFIR_AST_OPERATION_SHIFT_RIGHT) || t_signed(rt) || t_bits(rt) < 64 || !t_signed(v)) return false;
    return (int64_t) spec_wrap(rt, a.lo) < 0 || (op == KEFIR_AST_OPERATION_MODULO && (int64_t) b.lo < 0);
}
static int asg_op(int op) {
    switch (op) {
        case KEFIR_AST_OPERATION_ADD: return KEFIR_AST_ASSIGNMENT_ADD;
        case KEFIR_AST_OPERATION_SUBTRACT: return KEFIR_AST_ASSIGNMENT_SUBTRACT;
        case KEFIR_AST_OPERATION_MULTIPLY: return KEFIR_AST_ASSIGNMENT_MULTIPLY;
        case KEFIR_AST_OPERATION_DIVIDE: return KEFIR_AST_ASSIGNMENT_DIVIDE;
        case KEFIR_AST_OPERATION_MODULO: return KEFIR_AST_ASSIGNMENT_MODULO;
        case KEFIR_AST_OPERATION_SHIFT_LEFT: return KEFIR_AST_ASSIGNMENT_SHIFT_LEFT;
        case KEFIR_AST_OPERATION_SHIFT_RIGHT: return KEFIR_AST_ASSIGNMENT_SHIFT_RIGHT;
        case KEFIR_AST_OPERATION_BITWISE_AND: return KEFIR_AST_ASSIGNMENT_BITWISE_AND;
        case KEFIR_AST_OPERATION_BITWISE_OR: return KEFIR_AST_ASSIGNMENT_BITWISE_OR;
        case KEFIR_AST_OPERATION_BITWISE_XOR: return KEFIR_AST_ASSIGNMENT_BITWISE_XOR;
        default: return KEFIR_AST_ASSIGNMENT_SIMPLE;
    }
}
static void check(int t, val_t stored, val_t value, _Bool excl) {
    VC_CHECK(excl || holds(t, stored), "the object holds the value assigned");
    VC_CHECK(frame(size_of(t)), "no other byte changes");
    VC_CHECK(excl || rt_result_is(t_val(t), value), "value of the assignment expression");
    VC_CHECK(vm_lv_n[0] == 1, "the target is evaluated once");
    VC_CHECK(tr_type_live == 0, "type descriptions are released");
}
static void assign(int op, int t, int v) {
    tr_reset();
    tr_operand(0, t);
    tr_operand(1, v);
    val_t old = memory(t);
    tr_node(&g_as.base, t_val(t));
    g_as.operation = asg_op(op);
    g_as.target = &g_n[0];
    g_as.value = &g_n[1];
    call_kefir_ast_translate_assignment_operator_node(&vc_mem, &tr_ctx, &vm_b, &g_as);
    vm_run();
    int tv = t_val(t), vv = t_val(v);
    val_t res;
    _Bool excl = false;
    if (op == NOP) { res = rt_conv(vv, tv, vm_x[1]); excl = rt_conv_excluded(vv, tv, vm_x[1]); }
    else if (t == T_PTR) {
        uint64_t sz = spec_sizeof(ty(tr_ptr_to));
        res = V1(old.lo + uf(UF_MUL, V1(op == KEFIR_AST_OPERATION_ADD ? vm_x[1].lo : 0 - vm_x[1].lo), V1(sz)).lo);
    } else {
        val_t r = spec_binop(op, tv, vv, old, vm_x[1]);
        res = rt_conv(spec_binop_type(op, tv, vv), tv, r);
        excl = rt_conv_excluded(spec_binop_type(op, tv, vv), tv, r);
    }
    if (op != NOP && t != T_PTR) {
        _Bool kn = known_signedness(op, tv, vv, old, vm_x[1]);
        if (KNOWN && !kn) return;
        excl = excl || spec_ub(op, tv, vv, old, vm_x[1]) || (kn && !KNOWN);
    }
    check(t, res, res, excl);
    VC_CHECK(vm_x_n[1] == 1, "the value is evaluated once");
}
static void incdec(int op, int t) {
    tr_reset();
    tr_operand(0, t);
    val_t old = memory(t);
    tr_node(&g_un.base, t_val(t));
    g_un.type = op;
    g_un.arg = &g_n[0];
    call_kefir_ast_translate_unary_operation_node(&vc_mem, &tr_ctx, &vm_b, &g_un);
    vm_run();
    _Bool inc = op == KEFIR_AST_OPERATION_POSTFIX_INCREMENT || op == KEFIR_AST_OPERATION_PREFIX_INCREMENT;
    _Bool post = op == KEFIR_AST_OPERATION_POSTFIX_INCREMENT || op == KEFIR_AST_OPERATION_POSTFIX_DECREMENT;
    int tv = t_val(t);
    uint64_t d = inc ? 1 : ~0ull;
    val_t res;
    if (t == T_PTR) res = V1(old.lo + uf(UF_MUL, V1(d), V1(spec_sizeof(ty(tr_ptr_to)))).lo);
    else if (t == T_F) res = uf(KEFIR_IROPCODE_F32ADD, old, V1(f32_bits(inc ? 1.0f : -1.0f)));
    else if (t == T_D) res = uf(KEFIR_IROPCODE_F64ADD, old, V1(f64_bits(inc ? 1.0 : -1.0)));
    else if (t == T_LD) res = uf(KEFIR_IROPCODE_LDADD, old, (val_t){.lo = 0x8000000000000000ull, .hi = inc ? 0x3fff : 0xbfff});
    else res = V1(spec_wrap(tv, old.lo + d));
    check(t, res, post ? old : res, false);
}
static void load(int t) {
    tr_reset();
    tr_operand(0, t);
    val_t old = memory(t);
    vm_put(VM_LVAL, 0);
    call_kefir_ast_translator_load_value(tyx(t), &vc_traits, &vm_b);
    vm_run();
    VC_CHECK(rt_result_is(t_val(t), old) && frame(0), "value of the object");
}
static void indir(int t) {
    tr_reset();
    val_t old = memory(t == T_VOID ? T_SI : t);
    tr_operand(0, T_PTR);
    vm_x[0] = V1(vm_addr[0]);
    tr_node(&g_un.base, t);
    g_un.type = KEFIR_AST_OPERATION_INDIRECTION;
    g_un.arg = &g_n[0];
    call_kefir_ast_translate_unary_operation_node(&vc_mem, &tr_ctx, &vm_b, &g_un);
    vm_run();
    if (t == T_VOID) VC_CHECK(vm_end_depth == 0, "a void indirection leaves no value");
    else VC_CHECK(rt_result_is(t_val(t), old), "value of the indirection");
    VC_CHECK(frame(0) && vm_x_n[0] == 1, "indirection reads the object once and changes nothing");
    /* & yields the address the lvalue designates */
    tr_reset();
    tr_operand(0, T_SI);
    tr_node(&g_un.base, T_PTR);
    g_un.type = KEFIR_AST_OPERATION_ADDRESS;
    call_kefir_ast_translate_unary_operation_node(&vc_mem, &tr_ctx, &vm_b, &g_un);
    vm_run();
    VC_CHECK(rt_result_is(T_PTR, V1(vm_addr[0])) && vm_loads == 0, "address of the lvalue");
}
static void subscr(int t, int it, _Bool swapped) {
    tr_reset();
    val_t old = memory(t);
    tr_operand(0, swapped ? it : T_PTR);
    tr_operand(1, swapped ? T_PTR : it);
    val_t ix = vm_x[swapped ? 0 : 1];
    uint64_t off = uf(UF_MUL, ix, V1(spec_sizeof(tyx(t)))).lo;
    vm_x[swapped ? 1 : 0] = V1(vm_addr[0] - off); /* whatever array the element lies in */
    tr_node(&g_sub.base, t);
    g_sub.array = &g_n[0];
    g_sub.subscript = &g_n[1];
    call_kefir_ast_translate_array_subscript_node(&vc_mem, &tr_ctx, &vm_b, &g_sub);
    vm_run();
    VC_CHECK(rt_result_is(t_val(t), old) && frame(0), "value of the array element");
    VC_CHECK(vm_x_n[0] == 1 && vm_x_n[1] == 1 && tr_type_live == 0, "array and subscript are evaluated once");
}
#ifdef BITFIELD_UNIT
void bf_harness(void);
#define harness bf_harness0
#endif
void harness(void) {
    tr_setup();
    static const int tos[] = {T_CHAR, T_SS, T_SI, T_D, T_LD};
    if (KIND == K_SIMPLE)
        for (int t = LO; t < HI; t++)
            for (int v = 0; v <= T_CINT; v++)
                if ((ALLV || v != T_CHAR) && !((t == T_PTR && IS_FLT(v)) || (v == T_PTR && IS_FLT(t)))) assign(NOP, t, v);
    if (KIND == K_COMPOUND)
        for (int t = LO; t < HI; t++)
            for (int v = 0; v < T_N; v++)
                if (!(OP_INTONLY(OP) && (IS_FLT(t) || IS_FLT(v))) && (ALLV || v == T_SC || v == T_SI || v == T_UI || v == T_SLL || v == T_UL || IS_FLT(v)))
                    assign(OP, t, v);
    if (KIND == K_PTR)
        for (int k = 0; k < 5; k++) {
            tr_ptr_to = tos[k];
            for (int v = 0; v < T_NINT; v++) if (ALLV || k == 2 || v == T_UI) assign(OP, T_PTR, v);
            if (k == 3) assign(OP, T_PTR, T_ENUM);
        }
    if (KIND == K_INCDEC) {
        for (int t = 0; t <= T_ENUM; t++) if (t != T_PTR) incdec(OP, t);
        for (int k = 0; k < 5; k++) { tr_ptr_to = tos[k]; incdec(OP, T_PTR); }
    }
    if (KIND == K_LOAD) for (int t = 0; t <= T_CINT; t++) load(t);
    if (KIND == K_INDIR) for (int t = 0; t <= T_VOID; t++) indir(t);
    if (KIND == K_SUBSCR)
        for (int t = 0; t <= T_CINT; t++) {
            tr_ptr_to = T_SI;
            subscr(t, T_SI, false);
            subscr(t, T_UL, true);
            subscr(t, T_SC, false);
        }
    VC_REACH("all cases");
}
#undef harness
#ifdef BITFIELD_UNIT
void harness(void) { bf_harness(); }
#endif
