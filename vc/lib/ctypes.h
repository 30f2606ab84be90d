/* Specification vocabulary: the C11 basic types under the LP64 / 32-bit-int data model. */
#ifndef SPEC_CTYPES_H_
#define SPEC_CTYPES_H_
#include "kefir/ast/type.h"
#include "kefir/core/data_model.h"

enum { T_BOOL, T_CHAR, T_UC, T_SC, T_US, T_SS, T_UI, T_SI, T_UL, T_SL, T_ULL, T_SLL, T_F, T_D, T_LD, T_N };
#define T_NINT T_F /* integer types are 0 .. T_NINT-1 */

static const struct kefir_ast_type *ty(int i) {
    switch (i) {
        case T_BOOL: return kefir_ast_type_boolean();
        case T_CHAR: return kefir_ast_type_char();
        case T_UC: return kefir_ast_type_unsigned_char();
        case T_SC: return kefir_ast_type_signed_char();
        case T_US: return kefir_ast_type_unsigned_short();
        case T_SS: return kefir_ast_type_signed_short();
        case T_UI: return kefir_ast_type_unsigned_int();
        case T_SI: return kefir_ast_type_signed_int();
        case T_UL: return kefir_ast_type_unsigned_long();
        case T_SL: return kefir_ast_type_signed_long();
        case T_ULL: return kefir_ast_type_unsigned_long_long();
        case T_SLL: return kefir_ast_type_signed_long_long();
        case T_F: return kefir_ast_type_float();
        case T_D: return kefir_ast_type_double();
        default: return kefir_ast_type_long_double();
    }
}
static int t_rank(int i) { static const int r[] = {0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8}; return r[i]; }
/* plain char is signed on the System-V AMD64 target */
static int t_signed(int i) { static const int r[] = {0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 1, 1, 1}; return r[i]; }
static int t_bits(int i) { static const int r[] = {8, 8, 8, 8, 16, 16, 32, 32, 64, 64, 64, 64, 32, 64, 128}; return r[i]; }
/* C11 6.3.1.1p2 integer promotions of a value of type t that is not a bit-field */
static int spec_promote(int t) {
    if (t >= T_NINT) return t;
    if (t_rank(t) < t_rank(T_SI)) return T_SI; /* every narrower type's range fits int under LP64 */
    return t;
}
/* C11 6.3.1.8 usual arithmetic conversions */
static int spec_common(int a, int b) {
    if (a == T_LD || b == T_LD) return T_LD;
    if (a == T_D || b == T_D) return T_D;
    if (a == T_F || b == T_F) return T_F;
    a = spec_promote(a);
    b = spec_promote(b);
    if (a == b) return a;
    if (t_signed(a) == t_signed(b)) return t_rank(a) > t_rank(b) ? a : b;
    int u = t_signed(a) ? b : a, s = t_signed(a) ? a : b;
    if (t_rank(u) >= t_rank(s)) return u;
    if (t_bits(s) > t_bits(u)) return s;
    return s - 1; /* unsigned counterpart */
}
/* value of integer type t whose 64-bit pattern is v, canonically extended to 64 bits (C11 6.3.1.3) */
static uint64_t spec_wrap(int t, uint64_t v) {
    if (t == T_BOOL) return v != 0;
    switch (t_bits(t)) {
        case 8: return t_signed(t) ? (uint64_t) (int64_t) (int8_t) v : (uint64_t) (uint8_t) v;
        case 16: return t_signed(t) ? (uint64_t) (int64_t) (int16_t) v : (uint64_t) (uint16_t) v;
        case 32: return t_signed(t) ? (uint64_t) (int64_t) (int32_t) v : (uint64_t) (uint32_t) v;
        default: return v;
    }
}
static struct kefir_data_model_descriptor vc_data_model = {.model = KEFIR_DATA_MODEL_LP64,
                                                           .byte_order = KEFIR_BYTE_ORDER_LITTLE_ENDIAN,
                                                           .signed_integer_width = 32};
static struct kefir_ast_type_traits vc_traits;
static void vc_traits_setup(void) { kefir_ast_type_traits_init(&vc_data_model, &vc_traits); }
#endif
