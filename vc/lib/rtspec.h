/* Run-time values of C types on the operand stack, and what C says of conversions between them. */
#ifndef VC_RTSPEC_H_
#define VC_RTSPEC_H_
#include "ctypes.h"
#include "irvm.h"
#define T_PTR T_N /* an object pointer; T_ENUM: enumeration whose underlying type is int */
#define IS_FLT(t) ((t) == T_F || (t) == T_D || (t) == T_LD)
#define SLOTS(t) ((t) == T_LD ? 2 : 1)
/* arbitrary value of type t in its run-time representation */
static val_t rt_any(int t) {
    val_t v = {.lo = ND64(), .hi = 0};
    if (t == T_LD) v.hi = ND64() & 0xffff;
    else if (t == T_F) v.lo = (uint32_t) v.lo;
    else if (t != T_D && t != T_PTR) v.lo = spec_wrap(t, v.lo);
    return v;
}
static _Bool rt_truth(int t, val_t v) {
    if (t == T_LD) return ld_nonzero(v);
    if (t == T_D) return vm_d(v.lo) != 0.0;
    if (t == T_F) return vm_f(v.lo) != 0.0f;
    return v.lo != 0;
}
static val_t rt_conv(int from, int to, val_t v) {
    if (from == to) return v;
    if (to == T_BOOL) return V1(rt_truth(from, v));
    if (to == T_PTR) return v;
    if (!IS_FLT(from)) {
        _Bool sg = from != T_PTR && t_signed(from);
        if (to == T_F) return uf_int2f(KEFIR_IROPCODE_INTCF32, KEFIR_IROPCODE_UINTCF32, sg, v.lo);
        if (to == T_D) return uf_int2f(KEFIR_IROPCODE_INTCF64, KEFIR_IROPCODE_UINTCF64, sg, v.lo);
        if (to == T_LD) return uf_int2f(KEFIR_IROPCODE_INTCLD, KEFIR_IROPCODE_UINTCLD, sg, v.lo);
        return V1(spec_wrap(to, v.lo));
    }
    if (!IS_FLT(to)) return V1(spec_wrap(to, uf(from == T_F ? KEFIR_IROPCODE_F32CINT : from == T_D ? KEFIR_IROPCODE_F64CINT : KEFIR_IROPCODE_LDCINT, v, V1(0)).lo));
    int op = from == T_F ? (to == T_D ? KEFIR_IROPCODE_F32CF64 : KEFIR_IROPCODE_F32CLD)
           : from == T_D ? (to == T_F ? KEFIR_IROPCODE_F64CF32 : KEFIR_IROPCODE_F64CLD)
                         : (to == T_F ? KEFIR_IROPCODE_LDCF32 : KEFIR_IROPCODE_LDCF64);
    return uf(op, v, V1(0));
}
/* known finding: 0 < |x| < 1 converts to _Bool false;  [2^63, 2^64) to a 64-bit unsigned type is outside the operation */
static _Bool rt_conv_excluded(int from, int to, val_t v) {
    if (!IS_FLT(from) || IS_FLT(to)) return false;
    if (to == T_BOOL) return from == T_LD || (from == T_D ? vm_d(v.lo) != 0 && vm_d(v.lo) < 1 && vm_d(v.lo) > -1 : vm_f(v.lo) != 0 && vm_f(v.lo) < 1 && vm_f(v.lo) > -1);
    if (to == T_UL || to == T_ULL) return from == T_LD || (from == T_D ? vm_d(v.lo) >= 0x1p63 : vm_f(v.lo) >= 0x1p63f);
    return false;
}
static _Bool rt_result_is(int t, val_t v) {
    if (vm_end_depth != SLOTS(t)) return false;
    if (t == T_LD) return vm_st[1] == v.lo && (vm_st[0] & 0xffff) == LDHI(v);
    return vm_st[0] == v.lo;
}
#endif
