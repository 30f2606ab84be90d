/* Meaning of translated code.  The translator under proof appends IR instructions through the builder interface; this
 * header supplies that interface (contract: append adds exactly the given instruction at the end), records the
 * instructions, and executes them by the IR operation contracts (the very contracts C03 proves of the run-time
 * operations) on symbolic operand values.  Sub-expressions and lvalues are opaque: translating one appends a pseudo
 * instruction that pushes its (arbitrary) value and counts the evaluation.
 *
 * Floating arithmetic and 64-bit * / % are unknown functions shared with the specification (sound); IEEE
 * comparisons of float and double are interpreted. */
#ifndef VC_IRVM_H_
#define VC_IRVM_H_
#include "vc.h"
#include "kefir/ir/builder.h"
#include "kefir/ir/instr.h"
#include <string.h>

#ifndef VM_MAX
#define VM_MAX 60
#endif
#define VM_STACK 12
enum { VM_EXPR = 0x1000, VM_LVAL = 0x1100, VM_STMT = 0x1200, VM_OPAQUE = 0x1300 };
typedef struct { uint64_t lo, hi; } val_t; /* hi: exponent half of a long double (low 16 bits significant) */
#define V1(x) ((val_t){.lo = (x), .hi = 0})

/* ---- recording builder ---- */
static struct kefir_irinstr vm_code[VM_MAX];
static kefir_size_t vm_len;
static void vm_put(kefir_iropcode_t op, uint64_t arg) {
    VC_CHECK(vm_len < VM_MAX, "recording capacity of the harness");
    if (vm_len < VM_MAX) vm_code[vm_len++] = (struct kefir_irinstr){.opcode = op, .arg = {.u64 = arg}};
}
static uint32_t f32_bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t f64_bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static kefir_result_t vm_i64(struct kefir_irbuilder_block *b, kefir_iropcode_t o, kefir_int64_t a) { (void) b; vm_put(o, (uint64_t) a); return KEFIR_OK; }
static kefir_result_t vm_u64(struct kefir_irbuilder_block *b, kefir_iropcode_t o, kefir_uint64_t a) { (void) b; vm_put(o, a); return KEFIR_OK; }
static kefir_result_t vm_i32(struct kefir_irbuilder_block *b, kefir_iropcode_t o, kefir_int32_t a, kefir_int32_t c) {
    (void) b; vm_put(o, (uint64_t) (uint32_t) a | (uint64_t) (uint32_t) c << 32); return KEFIR_OK; }
static kefir_result_t vm_u32(struct kefir_irbuilder_block *b, kefir_iropcode_t o, kefir_uint32_t a, kefir_uint32_t c) {
    (void) b; vm_put(o, (uint64_t) a | (uint64_t) c << 32); return KEFIR_OK; }
static kefir_result_t vm_f64(struct kefir_irbuilder_block *b, kefir_iropcode_t o, kefir_float64_t a) { (void) b; vm_put(o, f64_bits(a)); return KEFIR_OK; }
static kefir_result_t vm_f32(struct kefir_irbuilder_block *b, kefir_iropcode_t o, kefir_float32_t a, kefir_float32_t c) {
    (void) b; vm_put(o, (uint64_t) f32_bits(a) | (uint64_t) f32_bits(c) << 32); return KEFIR_OK; }
static struct kefir_irblock vm_block;
static struct kefir_irbuilder_block vm_b = {.block = &vm_block, .appendi64 = vm_i64, .appendu64 = vm_u64, .appendi32 = vm_i32,
                                            .appendu32 = vm_u32, .appendf64 = vm_f64, .appendf32 = vm_f32};
kefir_size_t kefir_irblock_length(const struct kefir_irblock *b) {
    VC_CHECK(b == &vm_block, "call-site precondition of kefir_irblock_length");
    return vm_len;
}
struct kefir_irinstr *kefir_irblock_at(const struct kefir_irblock *b, kefir_size_t i) {
    VC_CHECK(b == &vm_block && i < vm_len, "call-site precondition of kefir_irblock_at");
    return &vm_code[i];
}

static float vm_f(uint64_t v) { uint32_t u = (uint32_t) v; float f; memcpy(&f, &u, 4); return f; }
static double vm_d(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }

/* ---- unknown functions ---- */
#define UF_MAX 12
static struct { int op; val_t a, b, r; } uf_tab[UF_MAX];
static int uf_n;
enum { UF_MUL = 0x2000, UF_SDIV, UF_UDIV, UF_SMOD, UF_UMOD, UF_PTR };
#define LDHI(v) ((v).hi & 0xffff)
static _Bool same(val_t a, val_t b) { return a.lo == b.lo && LDHI(a) == LDHI(b); }
#ifdef VC_NATIVE
typedef long double ld_t;
static ld_t ld_of(val_t v) { ld_t x = 0; uint64_t h = LDHI(v); memcpy(&x, &v.lo, 8); memcpy((char *) &x + 8, &h, 2); return x; }
static val_t of_ld(ld_t x) { val_t v = {0, 0}; memcpy(&v.lo, &x, 8); memcpy(&v.hi, (char *) &x + 8, 2); return v; }
static float f_of(val_t v) { uint32_t u = (uint32_t) v.lo; float f; memcpy(&f, &u, 4); return f; }
static double d_of(val_t v) { double d; memcpy(&d, &v.lo, 8); return d; }
static int64_t tr(ld_t x) { return x >= 9223372036854775808.0L || x < -9223372036854775808.0L || x != x ? INT64_MIN : (int64_t) x; }
static val_t uf(int op, val_t a, val_t b) {
    switch (op) {
        case KEFIR_IROPCODE_F32ADD: return V1(f32_bits(f_of(a) + f_of(b)));
        case KEFIR_IROPCODE_F32SUB: return V1(f32_bits(f_of(a) - f_of(b)));
        case KEFIR_IROPCODE_F32MUL: return V1(f32_bits(f_of(a) * f_of(b)));
        case KEFIR_IROPCODE_F32DIV: return V1(f32_bits(f_of(a) / f_of(b)));
        case KEFIR_IROPCODE_F64ADD: return V1(f64_bits(d_of(a) + d_of(b)));
        case KEFIR_IROPCODE_F64SUB: return V1(f64_bits(d_of(a) - d_of(b)));
        case KEFIR_IROPCODE_F64MUL: return V1(f64_bits(d_of(a) * d_of(b)));
        case KEFIR_IROPCODE_F64DIV: return V1(f64_bits(d_of(a) / d_of(b)));
        case KEFIR_IROPCODE_LDADD: return of_ld(ld_of(a) + ld_of(b));
        case KEFIR_IROPCODE_LDSUB: return of_ld(ld_of(a) - ld_of(b));
        case KEFIR_IROPCODE_LDMUL: return of_ld(ld_of(a) * ld_of(b));
        case KEFIR_IROPCODE_LDDIV: return of_ld(ld_of(a) / ld_of(b));
        case KEFIR_IROPCODE_LDEQUALS: return V1(ld_of(a) == ld_of(b));
        case KEFIR_IROPCODE_LDLESSER: return V1(ld_of(a) < ld_of(b));
        case KEFIR_IROPCODE_F32CINT: return V1((uint64_t) tr(f_of(a)));
        case KEFIR_IROPCODE_F64CINT: return V1((uint64_t) tr(d_of(a)));
        case KEFIR_IROPCODE_LDCINT: return V1((uint64_t) tr(ld_of(a)));
        case KEFIR_IROPCODE_INTCF32: return V1(f32_bits((float) (int64_t) a.lo));
        case KEFIR_IROPCODE_INTCF64: return V1(f64_bits((double) (int64_t) a.lo));
        case KEFIR_IROPCODE_INTCLD: return of_ld((ld_t) (int64_t) a.lo);
        case KEFIR_IROPCODE_UINTCF32: return V1(f32_bits((float) a.lo));
        case KEFIR_IROPCODE_UINTCF64: return V1(f64_bits((double) a.lo));
        case KEFIR_IROPCODE_UINTCLD: return of_ld((ld_t) a.lo);
        case KEFIR_IROPCODE_F32CF64: return V1(f64_bits(f_of(a)));
        case KEFIR_IROPCODE_F64CF32: return V1(f32_bits((float) d_of(a)));
        case KEFIR_IROPCODE_F32CLD: return of_ld(f_of(a));
        case KEFIR_IROPCODE_F64CLD: return of_ld(d_of(a));
        case KEFIR_IROPCODE_LDCF32: return V1(f32_bits((float) ld_of(a)));
        case KEFIR_IROPCODE_LDCF64: return V1(f64_bits((double) ld_of(a)));
        case UF_MUL: return V1(a.lo * b.lo);
        case UF_SDIV: return V1(b.lo == 0 || ((int64_t) a.lo == INT64_MIN && b.lo == -1ull) ? 0 : (uint64_t) ((int64_t) a.lo / (int64_t) b.lo));
        case UF_SMOD: return V1(b.lo == 0 || ((int64_t) a.lo == INT64_MIN && b.lo == -1ull) ? 0 : (uint64_t) ((int64_t) a.lo % (int64_t) b.lo));
        case UF_UDIV: return V1(b.lo == 0 ? 0 : a.lo / b.lo);
        case UF_UMOD: return V1(b.lo == 0 ? 0 : a.lo % b.lo);
        default: return V1(a.lo * 0x9e3779b97f4a7c15ull + b.lo * 31 + (uint64_t) op);
    }
}
static void uf_reset(void) {}
#else
uint64_t nondet_uf(void);
static _Bool uf_is_ld(int op) {
    return op == KEFIR_IROPCODE_LDADD || op == KEFIR_IROPCODE_LDSUB || op == KEFIR_IROPCODE_LDMUL || op == KEFIR_IROPCODE_LDDIV ||
           op == KEFIR_IROPCODE_INTCLD || op == KEFIR_IROPCODE_UINTCLD || op == KEFIR_IROPCODE_F32CLD || op == KEFIR_IROPCODE_F64CLD;
}
static _Bool uf_is_f32(int op) {
    return op == KEFIR_IROPCODE_F32ADD || op == KEFIR_IROPCODE_F32SUB || op == KEFIR_IROPCODE_F32MUL || op == KEFIR_IROPCODE_F32DIV ||
           op == KEFIR_IROPCODE_INTCF32 || op == KEFIR_IROPCODE_UINTCF32 || op == KEFIR_IROPCODE_F64CF32 || op == KEFIR_IROPCODE_LDCF32;
}
static _Bool uf_comm(int op) {
    return op == KEFIR_IROPCODE_F32ADD || op == KEFIR_IROPCODE_F32MUL || op == KEFIR_IROPCODE_F64ADD || op == KEFIR_IROPCODE_F64MUL ||
           op == KEFIR_IROPCODE_LDADD || op == KEFIR_IROPCODE_LDMUL || op == KEFIR_IROPCODE_LDEQUALS || op == UF_MUL;
}
static val_t uf(int op, val_t a, val_t b) {
    val_t r = {.lo = nondet_uf(), .hi = 0};
    /* signed and unsigned division agree on non-negative operands */
    if (op == UF_SMOD && (int64_t) a.lo >= 0 && (int64_t) b.lo >= 0) op = UF_UMOD;
    if (op == UF_SDIV && (int64_t) a.lo >= 0 && (int64_t) b.lo >= 0) op = UF_UDIV;
    if (uf_is_ld(op)) r.hi = nondet_uf() & 0xffff;
    if (uf_is_f32(op)) r.lo = (uint32_t) r.lo;
    if (op == KEFIR_IROPCODE_LDEQUALS || op == KEFIR_IROPCODE_LDLESSER) r.lo &= 1;
    /* truncation yields zero exactly below one in magnitude */
    if (op == KEFIR_IROPCODE_F32CINT) VC_ASSUME((r.lo == 0) == (vm_f(a.lo) < 1.0f && vm_f(a.lo) > -1.0f));
    if (op == KEFIR_IROPCODE_F64CINT) VC_ASSUME((r.lo == 0) == (vm_d(a.lo) < 1.0 && vm_d(a.lo) > -1.0));
    for (int i = 0; i < UF_MAX; i++)
        if (i < uf_n && uf_tab[i].op == op &&
            ((same(uf_tab[i].a, a) && same(uf_tab[i].b, b)) || (uf_comm(op) && same(uf_tab[i].a, b) && same(uf_tab[i].b, a))))
            r = uf_tab[i].r;
    VC_CHECK(uf_n < UF_MAX, "function table capacity of the harness");
    if (uf_n < UF_MAX) {
        uf_tab[uf_n].op = op;
        uf_tab[uf_n].a = a;
        uf_tab[uf_n].b = b;
        uf_tab[uf_n].r = r;
        uf_n++;
    }
    return r;
}
static void uf_reset(void) { uf_n = 0; }
#endif
static val_t uf_int2f(int signed_op, int unsigned_op, _Bool sg, uint64_t v) {
    /* the unsigned conversion of a value below 2^63 is the signed one */
    if (sg) return uf(signed_op, V1(v), V1(0));
    if ((int64_t) v >= 0) return uf(signed_op, V1(v), V1(0));
    return uf(unsigned_op, V1(v), V1(0));
}
static _Bool ld_nonzero(val_t v) { return uf(KEFIR_IROPCODE_LDEQUALS, v, V1(0)).lo == 0; }

/* ---- opaque operands ---- */
#define VM_NX 4
static val_t vm_x[VM_NX];       /* value of expression i */
static _Bool vm_x_ld[VM_NX];    /* it is a long double (two slots) */
static _Bool vm_x_void[VM_NX];
static int vm_x_n[VM_NX];       /* number of evaluations performed at run time */
static int vm_x_seq[VM_NX];     /* position of the last evaluation in the order of evaluation */
static int vm_seq;
static uint64_t vm_addr[VM_NX]; /* address designated by lvalue i */
static int vm_lv_n[VM_NX];
/* element size used by ELEMENTPTR / OFFSETPTR with argument `arg` (type id, layout slot) */
static uint64_t vm_elem_size(uint64_t arg);
static uint64_t vm_offset_of(uint64_t arg);

/* ---- memory: one object of up to 16 bytes at VM_OBJ ---- */
#define VM_OBJ 0x10000
static uint8_t vm_mem[16];
static int vm_stores, vm_loads;
#ifdef VM_VLA
static uint64_t vm_saved_scope(uint64_t i);
#endif
static uint64_t vm_ld(uint64_t a, int n) {
    uint64_t v = 0;
#ifdef VM_VLA /* the scope saved for variable length array i lies at VM_VLA + 8 * i */
    if (a >= VM_VLA && a < VM_VLA + 64 && n == 8 && (a & 7) == 0) return vm_saved_scope((a - VM_VLA) >> 3);
#endif
    VC_CHECK(a >= VM_OBJ && a - VM_OBJ + (uint64_t) n <= 16, "load stays within the object");
    uint64_t o = (a - VM_OBJ) & 15;
    for (int i = 7; i >= 0; i--) if (i < n) v = v << 8 | vm_mem[(o + (uint64_t) i) & 15];
    return v;
}
static void vm_stv(uint64_t a, int n, uint64_t v) {
    VC_CHECK(a >= VM_OBJ && a - VM_OBJ + (uint64_t) n <= 16, "store stays within the object");
    uint64_t o = (a - VM_OBJ) & 15;
    for (int i = 0; i < 8; i++) if (i < n) vm_mem[(o + (uint64_t) i) & 15] = (uint8_t) (v >> (8 * i));
}

/* ---- execution ---- */
static uint64_t vm_st[VM_STACK];
static int vm_dep[VM_MAX + 1]; /* operand stack depth at each instruction, -1 when no path leads there */
static int vm_end_depth;
#define VM_JOIN(t, d)                                                                          \
    do {                                                                                       \
        VC_CHECK(vm_dep[t] < 0 || vm_dep[t] == (d), "operand stack depths agree where control flow joins"); \
        vm_dep[t] = (d);                                                                       \
    } while (0)
/* Event mode (statements): execution from an instruction up to the next evaluation of a sub-expression, sub-statement or
 * declaration, a transfer out of the function, or the end of the translated code. */
static _Bool vm_evmode;
static uint64_t vm_from;
static int vm_base, vm_ev, vm_ev_depth;
static uint64_t vm_ev_pc;
enum { VM_END = 0x1f00, VM_NOWHERE = 0x1f01 };
#ifndef VM_PASSES
#define VM_PASSES 3 /* backward jumps followed before the next event; exceeding it fails an obligation */
#endif
/* executes the recorded instructions once; jumps must lead forward (except in event mode) */
static void vm_run(void) {
    uint64_t at = vm_evmode ? vm_from : 0;
    for (int i = 0; i <= VM_MAX; i++) vm_dep[i] = -1;
    vm_dep[at] = vm_evmode ? vm_base : 0;
    vm_ev = VM_NOWHERE;
    vm_seq = 0;
    vm_stores = vm_loads = 0;
    for (int pass = 0; pass < (vm_evmode ? VM_PASSES : 1); pass++)
    for (kefir_size_t pc = 0; pc < VM_MAX; pc++) {
        if (pc >= vm_len) break;
        int d = vm_dep[pc];
        if (d < 0) continue;
        VC_CHECK(d + 4 <= VM_STACK, "operand stack capacity of the harness");
        if (d + 4 > VM_STACK) break;
        const _Bool act = at == pc;
        const int op = (int) vm_code[pc].opcode;
        const uint64_t arg = vm_code[pc].arg.u64;
        uint64_t *const s = vm_st;
        const uint64_t a = d >= 2 ? s[d - 2] : 0, b = d >= 1 ? s[d - 1] : 0;
        const val_t lb = {.lo = b, .hi = a}; /* long double on top */
        const val_t la = {.lo = d >= 3 ? s[d - 3] : 0, .hi = d >= 4 ? s[d - 4] : 0};
        int need = 0, nd = d;
        val_t r = V1(0);
        int push = -1, pop = 0;
        _Bool isld = false, term = false;
        uint64_t next = pc + 1;
        switch (op) {
            case KEFIR_IROPCODE_NOP: break;
            case KEFIR_IROPCODE_JMP: next = arg; term = true; break;
            case KEFIR_IROPCODE_BRANCH: pop = 1; if (b != 0) next = arg; break;
            case KEFIR_IROPCODE_PUSHI64: case KEFIR_IROPCODE_PUSHU64: case KEFIR_IROPCODE_PUSHF32: case KEFIR_IROPCODE_PUSHF64:
            case KEFIR_IROPCODE_PUSHLD: push = 1; r.lo = arg; break;
            case KEFIR_IROPCODE_POP: pop = 1; break;
            case KEFIR_IROPCODE_PICK: need = (int) arg + 1; push = 1; r.lo = need <= d ? s[(d - 1 - (int) arg) & 15] : 0; break;
            case KEFIR_IROPCODE_XCHG: need = (int) arg + 1; break;
            case KEFIR_IROPCODE_DROP: need = (int) arg + 1; break;
            case KEFIR_IROPCODE_IADD: pop = 2; push = 1; r.lo = a + b; break;
            case KEFIR_IROPCODE_IADD1: pop = 1; push = 1; r.lo = b + arg; break;
            case KEFIR_IROPCODE_ISUB: pop = 2; push = 1; r.lo = a - b; break;
            case KEFIR_IROPCODE_IMUL: pop = 2; push = 1; if (act) r = uf(UF_MUL, V1(a), V1(b)); break;
            case KEFIR_IROPCODE_IDIV: pop = 2; push = 1; if (act) r = uf(UF_SDIV, V1(a), V1(b)); break;
            case KEFIR_IROPCODE_IMOD: pop = 2; push = 1; if (act) r = uf(UF_SMOD, V1(a), V1(b)); break;
            case KEFIR_IROPCODE_UDIV: pop = 2; push = 1; if (act) r = uf(UF_UDIV, V1(a), V1(b)); break;
            case KEFIR_IROPCODE_UMOD: pop = 2; push = 1; if (act) r = uf(UF_UMOD, V1(a), V1(b)); break;
            case KEFIR_IROPCODE_INEG: pop = 1; push = 1; r.lo = 0 - b; break;
            case KEFIR_IROPCODE_INOT: pop = 1; push = 1; r.lo = ~b; break;
            case KEFIR_IROPCODE_IAND: pop = 2; push = 1; r.lo = a & b; break;
            case KEFIR_IROPCODE_IOR: pop = 2; push = 1; r.lo = a | b; break;
            case KEFIR_IROPCODE_IXOR: pop = 2; push = 1; r.lo = a ^ b; break;
            case KEFIR_IROPCODE_ILSHIFT: pop = 2; push = 1; r.lo = a << (b & 63); break;
            case KEFIR_IROPCODE_IRSHIFT: pop = 2; push = 1; r.lo = a >> (b & 63); break;
            case KEFIR_IROPCODE_IARSHIFT: pop = 2; push = 1; r.lo = (uint64_t) ((int64_t) a >> (b & 63)); break;
            case KEFIR_IROPCODE_IEQUALS: pop = 2; push = 1; r.lo = a == b; break;
            case KEFIR_IROPCODE_IGREATER: pop = 2; push = 1; r.lo = (int64_t) a > (int64_t) b; break;
            case KEFIR_IROPCODE_ILESSER: pop = 2; push = 1; r.lo = (int64_t) a < (int64_t) b; break;
            case KEFIR_IROPCODE_IABOVE: pop = 2; push = 1; r.lo = a > b; break;
            case KEFIR_IROPCODE_IBELOW: pop = 2; push = 1; r.lo = a < b; break;
            case KEFIR_IROPCODE_BAND: pop = 2; push = 1; r.lo = a & b; VC_CHECK(!act || (a <= 1 && b <= 1), "precondition of band"); break;
            case KEFIR_IROPCODE_BOR: pop = 2; push = 1; r.lo = a | b; VC_CHECK(!act || (a <= 1 && b <= 1), "precondition of bor"); break;
            case KEFIR_IROPCODE_BNOT: pop = 1; push = 1; r.lo = b == 0; break;
            case KEFIR_IROPCODE_TRUNCATE1: pop = 1; push = 1; r.lo = b != 0; break;
            case KEFIR_IROPCODE_EXTEND8: pop = 1; push = 1; r.lo = (uint64_t) (int64_t) (int8_t) b; break;
            case KEFIR_IROPCODE_EXTEND16: pop = 1; push = 1; r.lo = (uint64_t) (int64_t) (int16_t) b; break;
            case KEFIR_IROPCODE_EXTEND32: pop = 1; push = 1; r.lo = (uint64_t) (int64_t) (int32_t) b; break;
            case KEFIR_IROPCODE_ELEMENTPTR: pop = 2; push = 1; if (act) r.lo = a + uf(UF_MUL, V1(b), V1(vm_elem_size(arg))).lo; break;
            case KEFIR_IROPCODE_OFFSETPTR: pop = 1; push = 1; r.lo = b + vm_offset_of(arg); break;
            case KEFIR_IROPCODE_F32ADD: case KEFIR_IROPCODE_F32SUB: case KEFIR_IROPCODE_F32MUL: case KEFIR_IROPCODE_F32DIV:
            case KEFIR_IROPCODE_F64ADD: case KEFIR_IROPCODE_F64SUB: case KEFIR_IROPCODE_F64MUL: case KEFIR_IROPCODE_F64DIV:
                pop = 2; push = 1; if (act) r = uf(op, V1(a), V1(b)); break;
            case KEFIR_IROPCODE_LDADD: case KEFIR_IROPCODE_LDSUB: case KEFIR_IROPCODE_LDMUL: case KEFIR_IROPCODE_LDDIV:
                pop = 4; push = 2; if (act) r = uf(op, la, lb); break;
            case KEFIR_IROPCODE_F32NEG: pop = 1; push = 1; r.lo = b ^ 0x80000000u; break;
            case KEFIR_IROPCODE_F64NEG: pop = 1; push = 1; r.lo = b ^ 0x8000000000000000ull; break;
            case KEFIR_IROPCODE_LDNEG: pop = 2; push = 2; r.lo = b; r.hi = a ^ 0x8000; break;
            case KEFIR_IROPCODE_F32EQUALS: pop = 2; push = 1; r.lo = vm_f(a) == vm_f(b); break;
            case KEFIR_IROPCODE_F32GREATER: pop = 2; push = 1; r.lo = vm_f(a) > vm_f(b); break;
            case KEFIR_IROPCODE_F32LESSER: pop = 2; push = 1; r.lo = vm_f(a) < vm_f(b); break;
            case KEFIR_IROPCODE_F64EQUALS: pop = 2; push = 1; r.lo = vm_d(a) == vm_d(b); break;
            case KEFIR_IROPCODE_F64GREATER: pop = 2; push = 1; r.lo = vm_d(a) > vm_d(b); break;
            case KEFIR_IROPCODE_F64LESSER: pop = 2; push = 1; r.lo = vm_d(a) < vm_d(b); break;
            case KEFIR_IROPCODE_LDEQUALS: pop = 4; push = 1; if (act) r = uf(op, la, lb); break;
            case KEFIR_IROPCODE_LDLESSER: pop = 4; push = 1; if (act) r = uf(op, la, lb); break;
            case KEFIR_IROPCODE_LDGREATER: pop = 4; push = 1; if (act) r = uf(KEFIR_IROPCODE_LDLESSER, lb, la); break;
            case KEFIR_IROPCODE_LDTRUNC1: pop = 2; push = 1; if (act) r.lo = ld_nonzero(lb); break;
            case KEFIR_IROPCODE_F32CINT: case KEFIR_IROPCODE_F64CINT: case KEFIR_IROPCODE_F32CF64: case KEFIR_IROPCODE_F64CF32:
                pop = 1; push = 1; if (act) r = uf(op, V1(b), V1(0)); break;
            case KEFIR_IROPCODE_INTCF32: pop = 1; push = 1; if (act) r = uf_int2f(KEFIR_IROPCODE_INTCF32, 0, true, b); break;
            case KEFIR_IROPCODE_INTCF64: pop = 1; push = 1; if (act) r = uf_int2f(KEFIR_IROPCODE_INTCF64, 0, true, b); break;
            case KEFIR_IROPCODE_INTCLD: pop = 1; push = 2; if (act) r = uf_int2f(KEFIR_IROPCODE_INTCLD, 0, true, b); break;
            case KEFIR_IROPCODE_UINTCF32: pop = 1; push = 1; if (act) r = uf_int2f(KEFIR_IROPCODE_INTCF32, KEFIR_IROPCODE_UINTCF32, false, b); break;
            case KEFIR_IROPCODE_UINTCF64: pop = 1; push = 1; if (act) r = uf_int2f(KEFIR_IROPCODE_INTCF64, KEFIR_IROPCODE_UINTCF64, false, b); break;
            case KEFIR_IROPCODE_UINTCLD: pop = 1; push = 2; if (act) r = uf_int2f(KEFIR_IROPCODE_INTCLD, KEFIR_IROPCODE_UINTCLD, false, b); break;
            case KEFIR_IROPCODE_F32CLD: case KEFIR_IROPCODE_F64CLD: pop = 1; push = 2; if (act) r = uf(op, V1(b), V1(0)); break;
            case KEFIR_IROPCODE_LDCINT: case KEFIR_IROPCODE_LDCF32: case KEFIR_IROPCODE_LDCF64:
                pop = 2; push = 1; if (act) r = uf(op, lb, V1(0)); break;
#define VM_LOAD(N, EXT) pop = 1; push = 1; if (act) { vm_loads++; uint64_t lv = vm_ld(b, N); r.lo = EXT; } break
            case KEFIR_IROPCODE_LOAD8U: VM_LOAD(1, lv);
            case KEFIR_IROPCODE_LOAD8I: VM_LOAD(1, (uint64_t) (int64_t) (int8_t) lv);
            case KEFIR_IROPCODE_LOAD16U: VM_LOAD(2, lv);
            case KEFIR_IROPCODE_LOAD16I: VM_LOAD(2, (uint64_t) (int64_t) (int16_t) lv);
            case KEFIR_IROPCODE_LOAD24U: VM_LOAD(3, lv);
            case KEFIR_IROPCODE_LOAD32U: VM_LOAD(4, lv);
            case KEFIR_IROPCODE_LOAD32I: VM_LOAD(4, (uint64_t) (int64_t) (int32_t) lv);
            case KEFIR_IROPCODE_LOAD40U: VM_LOAD(5, lv);
            case KEFIR_IROPCODE_LOAD48U: VM_LOAD(6, lv);
            case KEFIR_IROPCODE_LOAD56U: VM_LOAD(7, lv);
            case KEFIR_IROPCODE_LOAD64: VM_LOAD(8, lv);
            case KEFIR_IROPCODE_LOADLD: pop = 1; push = 2; if (act) { vm_loads++; r.lo = vm_ld(b, 8); r.hi = vm_ld(b + 8, 8); } break;
#define VM_STORE(N) pop = 2; push = 0; if (act) { vm_stores++; vm_stv(a, N, b); } break
            case KEFIR_IROPCODE_STORE8: VM_STORE(1);
            case KEFIR_IROPCODE_STORE16: VM_STORE(2);
            case KEFIR_IROPCODE_STORE24: VM_STORE(3);
            case KEFIR_IROPCODE_STORE32: VM_STORE(4);
            case KEFIR_IROPCODE_STORE40: VM_STORE(5);
            case KEFIR_IROPCODE_STORE48: VM_STORE(6);
            case KEFIR_IROPCODE_STORE56: VM_STORE(7);
            case KEFIR_IROPCODE_STORE64: VM_STORE(8);
            case KEFIR_IROPCODE_STORELD: pop = 3; push = 0; if (act) { vm_stores++; vm_stv(d >= 3 ? s[d - 3] : 0, 8, b); vm_stv((d >= 3 ? s[d - 3] : 0) + 8, 8, a); } break;
            case KEFIR_IROPCODE_EXTUBITS: case KEFIR_IROPCODE_EXTSBITS: case KEFIR_IROPCODE_INSERTBITS: {
                uint32_t off = (uint32_t) arg, w = (uint32_t) (arg >> 32);
                VC_CHECK(w >= 1 && w <= 64 && off < 64 && off + w <= 64, "precondition of bit-field operations");
                if (w < 1 || w > 64 || off > 63) { w = 1; off = 0; }
                uint64_t mask = ~0ull >> (64 - w);
                push = 1;
                if (op == KEFIR_IROPCODE_INSERTBITS) { pop = 2; r.lo = (a & ~(mask << off)) | ((b & mask) << off); }
                else {
                    pop = 1;
                    uint64_t f = b >> off & mask;
                    r.lo = op == KEFIR_IROPCODE_EXTSBITS && (f >> (w - 1) & 1) ? f | ~mask : f;
                }
            } break;
            default:
                if (vm_evmode && (op >= VM_EXPR || op == KEFIR_IROPCODE_RET || op == KEFIR_IROPCODE_IJMP || op == KEFIR_IROPCODE_POPSCOPE)) {
                    if (act) { vm_ev = op; vm_ev_depth = d; vm_ev_pc = pc; at = VM_NOWHERE; }
                    continue;
                }
                if (op >= VM_EXPR && op < VM_EXPR + VM_NX) {
                    int i = op - VM_EXPR;
                    push = vm_x_void[i] ? 0 : vm_x_ld[i] ? 2 : 1;
                    r = vm_x[i];
                    if (act) { vm_x_n[i]++; vm_x_seq[i] = ++vm_seq; }
                } else if (op >= VM_LVAL && op < VM_LVAL + VM_NX) {
                    int i = op - VM_LVAL;
                    push = 1;
                    r.lo = vm_addr[i];
                    if (act) { vm_lv_n[i]++; vm_x_seq[i] = ++vm_seq; }
                } else {
                    VC_CHECK(!act, "instruction outside the operations the contract allows");
                }
        }
        if (op == KEFIR_IROPCODE_XCHG) {
            VC_CHECK(need <= d, "no operand stack underflow");
            if (need > d) break;
            if (act) { uint64_t t = s[d - 1 - (int) arg]; s[d - 1 - (int) arg] = s[d - 1]; s[d - 1] = t; }
        } else if (op == KEFIR_IROPCODE_DROP) {
            VC_CHECK(need <= d, "no operand stack underflow");
            if (need > d) break;
            for (int i = 0; i < VM_STACK - 1; i++)
                if (i >= d - 1 - (int) arg && i < d - 1) { if (act) s[i] = s[i + 1]; }
            nd = d - 1;
        } else {
            if (pop > need) need = pop;
            VC_CHECK(need <= d, "no operand stack underflow");
            if (need > d) break;
            nd = d - pop;
            if (push == 1) { if (act) s[nd] = r.lo; nd++; }
            if (push == 2) { if (act) { s[nd] = r.hi; s[nd + 1] = r.lo; } nd += 2; }
        }
        if (op == KEFIR_IROPCODE_JMP || op == KEFIR_IROPCODE_BRANCH) {
            VC_CHECK((vm_evmode || arg > pc) && arg <= vm_len, "jump target lies ahead within the translated code");
            if (!((vm_evmode || arg > pc) && arg <= vm_len)) break;
            VM_JOIN(arg, nd);
        }
        if (!term) VM_JOIN(pc + 1, nd);
        if (act) at = next;
    }
    if (vm_evmode) {
        if (at == vm_len) { vm_ev = VM_END; vm_ev_depth = vm_dep[vm_len]; }
        return;
    }
    VC_CHECK(vm_len == 0 || vm_dep[vm_len < VM_MAX ? vm_len : VM_MAX] >= 0, "end of the translated code is reached");
    VC_CHECK(at == vm_len, "execution arrives at the end of the translated code");
    vm_end_depth = vm_dep[vm_len];
}
static void vm_reset(void) {
    vm_len = 0;
    uf_reset();
    for (int i = 0; i < VM_NX; i++) { vm_x_n[i] = vm_lv_n[i] = vm_x_seq[i] = 0; }
}
#endif
