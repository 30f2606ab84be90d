/* Contracts of access to bit-fields: reading yields the member's value (sign-extended exactly when its type is signed),
 * assignment stores the value modulo the width into exactly the member's bits, every other bit of the structure keeps
 * its value, and the expression has the value the member then holds. */
#define BITFIELD_UNIT
#include "assign.c"
#include "kefir/ast/type_completion.h"
#include "kefir/ir/type.h"
static const struct kefir_ast_node_class AST_STRUCT_MEMBER_CLASS = {.type = KEFIR_AST_STRUCTURE_MEMBER}, AST_STRUCT_INDIRECT_MEMBER_CLASS = {.type = KEFIR_AST_STRUCTURE_INDIRECT_MEMBER};
static struct kefir_ast_struct_member g_mem_node;
static struct kefir_ast_type g_struct_type = {.tag = KEFIR_AST_TYPE_STRUCTURE, .structure_type = {.complete = true}};
static struct kefir_ast_type_layout g_mlayout;
static struct kefir_ir_typeentry g_te;
static int g_w, g_bo;
static const char g_name[] = "m";
static struct kefir_ir_type g_irt;
CONTRACT(kefir_result_t, kefir_ast_translator_resolve_lvalue, (CTX, const struct kefir_ast_node_base *n), (mem, ctx, b, n),
         REQ(ctx == &tr_ctx && b == &vm_b), FRAME(vm_code, vm_len), ENS(RET == KEFIR_OK))
kefir_result_t kefir_ast_type_layout_resolve(struct kefir_ast_type_layout *l, const struct kefir_ast_designator *d,
                                             struct kefir_ast_type_layout **out, kefir_ast_type_layout_resolver_callback_t cb, void *payload) {
    (void) payload;
    VC_CHECK(l == &tr_layout && d->type == KEFIR_AST_DESIGNATOR_MEMBER && d->member == g_name && d->next == 0 && cb == 0,
             "call-site precondition of kefir_ast_type_layout_resolve");
    *out = &g_mlayout;
    return KEFIR_OK;
}
struct kefir_ir_typeentry *kefir_ir_type_at(const struct kefir_ir_type *t, kefir_size_t i) {
    (void) t;
    VC_CHECK(i == TR_TYPE_SLOT + 1, "call-site precondition of kefir_ir_type_at");
    return &g_te;
}
kefir_result_t kefir_ast_type_completion(struct kefir_mem *mem, const struct kefir_ast_context *c, const struct kefir_ast_type **o, const struct kefir_ast_type *t) {
    (void) mem; (void) c;
    *o = t;
    return KEFIR_OK;
}
static void bf_member(int t, int off, int w, _Bool indirect) {
    tr_reset();
    tr_operand(0, T_SI);
    g_n[0].properties.type = &g_struct_type;
    if (indirect) {
        tr_ptr_type = (struct kefir_ast_type){.tag = KEFIR_AST_TYPE_SCALAR_POINTER, .ops = kefir_ast_type_signed_int()->ops, .referenced_type = &g_struct_type};
        g_n[0].properties.type = &tr_ptr_type;
    }
    tr_node(&g_mem_node.base, t);
    g_mem_node.base.self = &g_mem_node;
    g_mem_node.base.klass = indirect ? &AST_STRUCT_INDIRECT_MEMBER_CLASS : &AST_STRUCT_MEMBER_CLASS;
    g_mem_node.base.properties.expression_props.bitfield_props.bitfield = true;
    g_mem_node.base.properties.expression_props.bitfield_props.width = (kefir_size_t) w;
    g_mem_node.structure = &g_n[0];
    g_target2 = &g_mem_node.base;
    tr_type.object.ir_type = &g_irt;
    g_struct_type.ops = kefir_ast_type_signed_int()->ops;
    g_mem_node.member = g_name;
    g_mlayout.type = tyx(t);
    g_mlayout.value = TR_TYPE_SLOT + 1;
    g_mlayout.bitfield = true;
    g_mlayout.bitfield_props.offset = (kefir_size_t) off;
    g_mlayout.bitfield_props.width = (kefir_size_t) w;
    g_te.typecode = KEFIR_IR_TYPE_BITS;
    g_off = 4;
    vm_addr[0] = VM_OBJ + 4;
    for (int i = 0; i < 16; i++) g_old[i] = vm_mem[i] = ND8();
    g_w = w;
    g_bo = 32 + off;
}
/* the w bits at bit position g_bo of a 16-byte image, as the value of type t */
static uint64_t bf_raw(const uint8_t *m) {
    uint64_t v = 0;
    for (int i = 8; i >= 0; i--) {
        int byte = g_bo / 8 + i;
        uint64_t x = byte < 16 ? m[byte] : 0;
        int sh = 8 * i - g_bo % 8;
        if (sh < 64) v |= sh >= 0 ? x << sh : x >> -sh;
    }
    return g_w == 64 ? v : v & ((1ull << g_w) - 1);
}
static uint64_t bf_ext(int t, uint64_t v) {
    if (g_w == 64) return v;
    v &= (1ull << g_w) - 1;
    return t_signed(t) && (v >> (g_w - 1) & 1) ? v | ~0ull << g_w : v;
}
static _Bool bf_frame(void) {
    _Bool ok = true;
    for (int i = 0; i < 16; i++) {
        int lo = g_bo - 8 * i, hi = g_bo + g_w - 8 * i; /* member bits [lo, hi) of this byte */
        unsigned mask = 0;
        if (lo < 0) lo = 0;
        if (hi > 8) hi = 8;
        if (hi > lo) mask = (0xffu >> (8 - (hi - lo))) << lo;
        ok = ok && ((vm_mem[i] ^ g_old[i]) & 0xff & ~mask) == 0;
    }
    return ok;
}
/* C17 6.3.1.1: a bit-field narrower than int promotes to int */
static int bf_prom(int t, int w) { return w < 32 || (w == 32 && t_signed(t)) ? T_SI : spec_promote(t); }
static void bf_check(int t, uint64_t now, uint64_t value, _Bool excl) {
    VC_CHECK(excl || bf_raw(vm_mem) == (g_w == 64 ? now : now & ((1ull << g_w) - 1)), "the bit-field holds the value assigned");
    VC_CHECK(bf_frame(), "no other bit changes");
    VC_CHECK(excl || rt_result_is(t, V1(value)), "value of the expression");
    VC_CHECK(vm_lv_n[0] == 1 && tr_type_live == 0, "the target is evaluated once");
}
static void bf_read(int t, int off, int w, _Bool ind) {
    bf_member(t, off, w, ind);
    uint64_t old = bf_ext(t, bf_raw(vm_mem));
    vm_put(VM_LVAL, 0);
    call_kefir_ast_translator_resolve_lvalue(&vc_mem, &tr_ctx, &vm_b, &g_mem_node.base);
    vm_run();
    VC_CHECK(rt_result_is(t, V1(old)) && tr_type_live == 0, "value of the bit-field");
    for (int i = 0; i < 16; i++) VC_CHECK(vm_mem[i] == g_old[i], "reading changes nothing");
}
static void bf_assign(int op, int t, int off, int w, int v, _Bool ind) {
    bf_member(t, off, w, ind);
    tr_operand(1, v);
    val_t old = V1(bf_ext(t, bf_raw(vm_mem)));
    tr_node(&g_as.base, t);
    g_as.operation = asg_op(op);
    g_as.target = &g_mem_node.base;
    g_as.value = &g_n[1];
    call_kefir_ast_translate_assignment_operator_node(&vc_mem, &tr_ctx, &vm_b, &g_as);
    vm_run();
    int pt = bf_prom(t, w);
    uint64_t r = vm_x[1].lo;
    _Bool excl = false;
    if (op == NOP) r = rt_conv(v, t, vm_x[1]).lo;
    else {
        val_t x = spec_binop(op, pt, v, old, vm_x[1]);
        r = rt_conv(spec_binop_type(op, pt, v), t, x).lo;
        excl = spec_ub(op, pt, v, old, vm_x[1]) || known_signedness(op, pt, v, old, vm_x[1]);
    }
    bf_check(t, r, bf_ext(t, r), excl);
    VC_CHECK(vm_x_n[1] == 1, "the value is evaluated once");
}
static void bf_incdec(int op, int t, int off, int w) {
    bf_member(t, off, w, false);
    uint64_t old = bf_ext(t, bf_raw(vm_mem));
    tr_node(&g_un.base, t);
    g_un.type = op;
    g_un.arg = &g_mem_node.base;
    call_kefir_ast_translate_unary_operation_node(&vc_mem, &tr_ctx, &vm_b, &g_un);
    vm_run();
    _Bool inc = op == KEFIR_AST_OPERATION_POSTFIX_INCREMENT || op == KEFIR_AST_OPERATION_PREFIX_INCREMENT;
    _Bool post = op == KEFIR_AST_OPERATION_POSTFIX_INCREMENT || op == KEFIR_AST_OPERATION_POSTFIX_DECREMENT;
    uint64_t r = inc ? old + 1 : old - 1;
    if (t == T_BOOL) r = inc ? 1 : !old;
    bf_check(t, r, post ? old : bf_ext(t, r), false);
}
enum { B_READ, B_SIMPLE, B_COMPOUND, B_INCDEC };
/* quick subset: every width of the types up to 32 bits, the widths around byte boundaries of the 64-bit ones, offsets in
 * and beyond the first byte; thorough: every offset and width */
static _Bool bf_quick(int o, int w, int bits) { return (o == 0 || o == 3 || o == 7 || o == 13) && (bits <= 32 || w % 8 <= 1 || w % 8 == 5 || w % 8 == 7); }
void bf_harness(void) {
    tr_setup();
    static const int ws[] = {1, 7, 31, 32, 33, 63, 64};
    int bits = LO == T_BOOL ? 1 : t_bits(LO);
    if (KIND == B_READ || KIND == B_SIMPLE)
        for (int w = 1; w <= bits; w++)
            for (int o = 0; o + w <= bits && o < bits; o++)
                if (HI || bf_quick(o, w, bits)) {
                    if (KIND == B_READ) bf_read(LO, o, w, (o + w) & 1);
                    else bf_assign(NOP, LO, o, w, (o + w) & 1 ? T_SL : T_UI, (o + w) & 2);
                }
    if (KIND == B_SIMPLE && !HI)
        for (int v = 0; v < T_NINT; v++) bf_assign(NOP, LO, 0, LO == T_BOOL ? 1 : 5, v, false);
    if (KIND == B_COMPOUND || KIND == B_INCDEC)
        for (int k = 0; k < 7; k++)
            if (ws[k] <= bits) {
                int o = bits - ws[k] > 3 ? 3 : bits - ws[k];
                if (KIND == B_INCDEC) bf_incdec(OP, LO, o, ws[k]);
                else { bf_assign(OP, LO, o, ws[k], k & 1 ? T_SI : T_UL, false); if (ALLV) bf_assign(OP, LO, o, ws[k], k & 1 ? T_UL : T_UI, true); }
            }
    VC_REACH("all bit-field cases");
}
