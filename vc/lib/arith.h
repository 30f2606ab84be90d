/* 64-bit integer * / % as unknown functions (sound: what is proved holds for every interpretation, hence for the
 * real operators).  Applied mechanically to repository sources by vc/abstract_arith.py (clang AST source ranges) and used
 * by the specifications, so that code and specification agree by congruence. Division also carries its own
 * no-trap obligation. With VC_NATIVE the real operators are used. */
#ifndef VC_ARITH_H_
#define VC_ARITH_H_
#include <stdint.h>
#if defined(VC_NATIVE) || defined(VC_REAL_ARITH)
#define VC_MUL(a, b) ((a) * (b))
#define VC_DIV(a, b) ((a) / (b))
#define VC_MOD(a, b) ((a) % (b))
#else
/* An unknown function with one remembered application: the same arguments as the previous application give the same
 * result, any other arguments give an arbitrary one (over-approximates every deterministic function). */
uint64_t nondet_vc_arith(void);
struct vc_memo { _Bool valid; uint64_t a, b, r; };
struct vc_memo vc_memo_mul, vc_memo_sdiv, vc_memo_udiv, vc_memo_smod, vc_memo_umod;
static inline uint64_t vc_apply(struct vc_memo *m, uint64_t a, uint64_t b) {
    uint64_t r = nondet_vc_arith();
    if (m->valid && m->a == a && m->b == b) r = m->r;
    m->valid = 1; m->a = a; m->b = b; m->r = r;
    return r;
}
/* low 64 bits of a product do not depend on signedness: one symbol for both */
static inline int64_t vc_smul(int64_t a, int64_t b) { return (int64_t) vc_apply(&vc_memo_mul, (uint64_t) a, (uint64_t) b); }
static inline uint64_t vc_umul(uint64_t a, uint64_t b) { return vc_apply(&vc_memo_mul, a, b); }
static inline int64_t vc_sdiv(int64_t a, int64_t b) {
    __CPROVER_assert(b != 0 && !(a == INT64_MIN && b == -1), "VC signed division cannot trap");
    return (int64_t) vc_apply(&vc_memo_sdiv, (uint64_t) a, (uint64_t) b);
}
static inline uint64_t vc_udiv(uint64_t a, uint64_t b) {
    __CPROVER_assert(b != 0, "VC unsigned division cannot trap");
    return vc_apply(&vc_memo_udiv, a, b);
}
static inline int64_t vc_smod(int64_t a, int64_t b) {
    __CPROVER_assert(b != 0 && !(a == INT64_MIN && b == -1), "VC signed remainder cannot trap");
    return (int64_t) vc_apply(&vc_memo_smod, (uint64_t) a, (uint64_t) b);
}
static inline uint64_t vc_umod(uint64_t a, uint64_t b) {
    __CPROVER_assert(b != 0, "VC unsigned remainder cannot trap");
    return vc_apply(&vc_memo_umod, a, b);
}
#define VC_ARITH_(f, a, b, op)                                                                                   \
    _Generic((a) op (b), long : vc_s##f((a), (b)), long long : vc_s##f((a), (b)), unsigned long : vc_u##f((a), (b)), \
             unsigned long long : vc_u##f((a), (b)), default : ((a) op (b)))
#define VC_MUL(a, b) VC_ARITH_(mul, a, b, *)
#define VC_DIV(a, b) VC_ARITH_(div, a, b, /)
#define VC_MOD(a, b) VC_ARITH_(mod, a, b, %)
#endif
#endif
