/* C semantics of the binary operators on arithmetic operands in their run-time representation (C17 6.5.5 - 6.5.14). */
#ifndef VC_OPSPEC_H_
#define VC_OPSPEC_H_
#include "rtspec.h"
#include "kefir/ast/constants.h"
#define OP_SHIFT(op) (op == KEFIR_AST_OPERATION_SHIFT_LEFT || op == KEFIR_AST_OPERATION_SHIFT_RIGHT)
#define OP_DIV(op) (op == KEFIR_AST_OPERATION_DIVIDE || op == KEFIR_AST_OPERATION_MODULO)
#define OP_REL(op) (op == KEFIR_AST_OPERATION_LESS || op == KEFIR_AST_OPERATION_LESS_EQUAL || op == KEFIR_AST_OPERATION_GREATER || \
                op == KEFIR_AST_OPERATION_GREATER_EQUAL || op == KEFIR_AST_OPERATION_EQUAL || op == KEFIR_AST_OPERATION_NOT_EQUAL)
#define OP_LOG(op) (op == KEFIR_AST_OPERATION_LOGICAL_AND || op == KEFIR_AST_OPERATION_LOGICAL_OR)
#define OP_INTONLY(op) (OP_SHIFT(op) || op == KEFIR_AST_OPERATION_MODULO || op == KEFIR_AST_OPERATION_BITWISE_AND || \
                    op == KEFIR_AST_OPERATION_BITWISE_OR || op == KEFIR_AST_OPERATION_BITWISE_XOR)
static int spec_binop_type(int op, int t0, int t1) {
    if (OP_REL(op) || OP_LOG(op)) return T_SI;
    if (OP_SHIFT(op)) return spec_promote(t0);
    return spec_common(t0, t1);
}
static _Bool spec_fcmp(int op, int t, val_t a, val_t b) {
    _Bool lt = t == T_LD ? uf(KEFIR_IROPCODE_LDLESSER, a, b).lo != 0 : t == T_D ? vm_d(a.lo) < vm_d(b.lo) : vm_f(a.lo) < vm_f(b.lo);
    _Bool gt = t == T_LD ? uf(KEFIR_IROPCODE_LDLESSER, b, a).lo != 0 : t == T_D ? vm_d(a.lo) > vm_d(b.lo) : vm_f(a.lo) > vm_f(b.lo);
    _Bool eq = t == T_LD ? uf(KEFIR_IROPCODE_LDEQUALS, a, b).lo != 0 : t == T_D ? vm_d(a.lo) == vm_d(b.lo) : vm_f(a.lo) == vm_f(b.lo);
    switch (op) {
        case KEFIR_AST_OPERATION_LESS: return lt;
        case KEFIR_AST_OPERATION_LESS_EQUAL: return lt || eq;
        case KEFIR_AST_OPERATION_GREATER: return gt;
        case KEFIR_AST_OPERATION_GREATER_EQUAL: return gt || eq;
        case KEFIR_AST_OPERATION_EQUAL: return eq;
        default: return !eq;
    }
}
static val_t spec_binop(int op, int t0, int t1, val_t x0, val_t x1) {
    int ct = spec_common(t0, t1), rt = spec_binop_type(op, t0, t1);
    if (OP_LOG(op)) {
        _Bool p = rt_truth(t0, x0), q = rt_truth(t1, x1);
        return V1(op == KEFIR_AST_OPERATION_LOGICAL_AND ? p && q : p || q);
    }
    if (OP_SHIFT(op)) {
        uint64_t a = spec_wrap(rt, x0.lo), n = x1.lo & 63;
        if (op == KEFIR_AST_OPERATION_SHIFT_LEFT) return V1(spec_wrap(rt, a << n));
        return V1(spec_wrap(rt, t_signed(rt) ? (uint64_t) ((int64_t) a >> n) : a >> n));
    }
    val_t a = rt_conv(t0, ct, x0), b = rt_conv(t1, ct, x1);
    if (IS_FLT(ct)) {
        if (OP_REL(op)) return V1(spec_fcmp(op, ct, a, b));
        switch (op) {
            case KEFIR_AST_OPERATION_ADD: return uf(ct == T_F ? KEFIR_IROPCODE_F32ADD : ct == T_D ? KEFIR_IROPCODE_F64ADD : KEFIR_IROPCODE_LDADD, a, b);
            case KEFIR_AST_OPERATION_SUBTRACT: return uf(ct == T_F ? KEFIR_IROPCODE_F32SUB : ct == T_D ? KEFIR_IROPCODE_F64SUB : KEFIR_IROPCODE_LDSUB, a, b);
            case KEFIR_AST_OPERATION_MULTIPLY: return uf(ct == T_F ? KEFIR_IROPCODE_F32MUL : ct == T_D ? KEFIR_IROPCODE_F64MUL : KEFIR_IROPCODE_LDMUL, a, b);
            default: return uf(ct == T_F ? KEFIR_IROPCODE_F32DIV : ct == T_D ? KEFIR_IROPCODE_F64DIV : KEFIR_IROPCODE_LDDIV, a, b);
        }
    }
    _Bool sg = t_signed(ct);
    switch (op) {
        case KEFIR_AST_OPERATION_ADD: return V1(spec_wrap(rt, a.lo + b.lo));
        case KEFIR_AST_OPERATION_SUBTRACT: return V1(spec_wrap(rt, a.lo - b.lo));
        case KEFIR_AST_OPERATION_MULTIPLY: return V1(spec_wrap(rt, uf(UF_MUL, a, b).lo));
        case KEFIR_AST_OPERATION_DIVIDE: return V1(spec_wrap(rt, uf(sg ? UF_SDIV : UF_UDIV, a, b).lo));
        case KEFIR_AST_OPERATION_MODULO: return V1(spec_wrap(rt, uf(sg ? UF_SMOD : UF_UMOD, a, b).lo));
        case KEFIR_AST_OPERATION_BITWISE_AND: return V1(a.lo & b.lo);
        case KEFIR_AST_OPERATION_BITWISE_OR: return V1(a.lo | b.lo);
        case KEFIR_AST_OPERATION_BITWISE_XOR: return V1(a.lo ^ b.lo);
        case KEFIR_AST_OPERATION_LESS: return V1(sg ? (int64_t) a.lo < (int64_t) b.lo : a.lo < b.lo);
        case KEFIR_AST_OPERATION_LESS_EQUAL: return V1(sg ? (int64_t) a.lo <= (int64_t) b.lo : a.lo <= b.lo);
        case KEFIR_AST_OPERATION_GREATER: return V1(sg ? (int64_t) a.lo > (int64_t) b.lo : a.lo > b.lo);
        case KEFIR_AST_OPERATION_GREATER_EQUAL: return V1(sg ? (int64_t) a.lo >= (int64_t) b.lo : a.lo >= b.lo);
        case KEFIR_AST_OPERATION_EQUAL: return V1(a.lo == b.lo);
        default: return V1(a.lo != b.lo);
    }
}
/* the operation has no defined value: shift count outside the width, or a signed result outside its type (6.5p5, 6.5.7p3) */
static _Bool spec_ub(int op, int t0, int t1, val_t x0, val_t x1) {
    int rt = spec_binop_type(op, t0, t1);
    if (OP_SHIFT(op) && x1.lo >= (uint64_t) t_bits(rt)) return true;
    if (IS_FLT(rt) || OP_REL(op) || OP_LOG(op) || !t_signed(rt) || t_bits(rt) == 64) return false;
    uint64_t a = spec_wrap(rt, x0.lo), b = spec_wrap(rt, x1.lo), r;
    switch (op) {
        case KEFIR_AST_OPERATION_ADD: r = a + b; break;
        case KEFIR_AST_OPERATION_SUBTRACT: r = a - b; break;
        case KEFIR_AST_OPERATION_MULTIPLY: r = uf(UF_MUL, V1(a), V1(b)).lo; break;
        case KEFIR_AST_OPERATION_DIVIDE: r = uf(UF_SDIV, V1(a), V1(b)).lo; break;
        case KEFIR_AST_OPERATION_MODULO: r = uf(UF_SMOD, V1(a), V1(b)).lo; break;
        case KEFIR_AST_OPERATION_SHIFT_LEFT: r = x0.lo << (x1.lo & 63); break;
        default: return false;
    }
    return spec_wrap(rt, r) != r;
}
#endif
