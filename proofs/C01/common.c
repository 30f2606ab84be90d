/* Contracts of the arithmetic conversions (C11 6.3.1.1, 6.3.1.8, 6.5.2.2p6) for every pair of arithmetic types.
 * Index T_N + k stands for an enumeration whose underlying type is basic type k. */
#include "vc.h"
#include "ctypes.h"
#include "errstub.h"
#include "kefir/ast/type_conv.h"

static int g_a, g_b, g_wa, g_wb; /* operand type indices; bit-field widths (0 = not a bit-field) */
static struct kefir_ast_type g_enum_a, g_enum_b;
static const struct kefir_ast_type *mk(int i, struct kefir_ast_type *e) {
    if (i < T_N) return ty(i);
    struct kefir_ast_type v = {.tag = KEFIR_AST_TYPE_ENUMERATION,
                               .ops = {.same = ty(T_SI)->ops.same, .compatible = ty(T_SI)->ops.compatible,
                                       .composite = ty(T_SI)->ops.composite, .free = ty(T_SI)->ops.free},
                               .enumeration_type = {.complete = true, .underlying_type = ty(i - T_N)}};
    *e = v;
    return e;
}
static int under(int i) { return i < T_N ? i : i - T_N; }
/* the promoted type of a value of type t held in a w-bit bit-field (w == 0: an ordinary object) */
static int spec_prom_bf(int t, int w) {
    if (w == 0) return spec_promote(t);
    if (w < 32 || (w == 32 && t_signed(t))) return T_SI;
    return t;
}
static int spec_common_bf(int a, int wa, int b, int wb) {
    if (a >= T_NINT || b >= T_NINT) return spec_common(a, b);
    return spec_common(spec_prom_bf(a, wa), spec_prom_bf(b, wb));
}
static struct kefir_ast_bitfield_properties bf(int w) {
    struct kefir_ast_bitfield_properties p = {.bitfield = w != 0, .width = w};
    return p;
}

CONTRACT(const struct kefir_ast_type *, kefir_ast_type_common_arithmetic,
         (const struct kefir_ast_type_traits *tt, const struct kefir_ast_type *t1, struct kefir_ast_bitfield_properties b1,
          const struct kefir_ast_type *t2, struct kefir_ast_bitfield_properties b2),
         (tt, t1, b1, t2, b2),
         REQ(tt == &vc_traits),
         FRAME(),
         ENS(RET == ty(spec_common_bf(under(g_a), g_wa, under(g_b), g_wb))))
CONTRACT(const struct kefir_ast_type *, kefir_ast_type_int_promotion,
         (const struct kefir_ast_type_traits *tt, const struct kefir_ast_type *t, struct kefir_ast_bitfield_properties b),
         (tt, t, b),
         REQ(tt == &vc_traits),
         FRAME(),
         ENS(under(g_a) < T_NINT || RET == NULL)
         ENS(under(g_a) >= T_NINT || RET == ty(spec_prom_bf(under(g_a), g_wa))))
CONTRACT(const struct kefir_ast_type *, kefir_ast_type_function_default_argument_promotion,
         (const struct kefir_ast_type_traits *tt, const struct kefir_ast_type *t),
         (tt, t),
         REQ(tt == &vc_traits && g_a < T_N),
         FRAME(),
         ENS(RET == ty(g_a == T_F ? T_D : spec_promote(g_a))))
CONTRACT(kefir_result_t, kefir_ast_type_is_signed,
         (const struct kefir_ast_type_traits *tt, const struct kefir_ast_type *t, kefir_bool_t *s),
         (tt, t, s),
         REQ(tt == &vc_traits),
         FRAME(*s),
         ENS(under(g_a) < T_NINT ? (RET == KEFIR_OK && *s == (t_signed(under(g_a)) != 0)) : RET != KEFIR_OK))
CONTRACT(const struct kefir_ast_type *, kefir_ast_type_flip_integer_singedness,
         (const struct kefir_ast_type_traits *tt, const struct kefir_ast_type *t),
         (tt, t),
         REQ(tt == &vc_traits && g_a < T_N),
         FRAME(),
         ENS(g_a < T_NINT || RET == NULL)
         ENS(g_a >= T_NINT || RET == ty(g_a == T_BOOL ? T_BOOL : g_a == T_CHAR ? T_UC : t_signed(g_a) ? g_a - 1 : g_a + 1)))

void harness(void) {
    vc_traits_setup();
#if PART == 0 /* all pairs of basic types */
    for (g_a = 0; g_a < T_N; g_a++)
        for (g_b = 0; g_b < T_N; g_b++) call_kefir_ast_type_common_arithmetic(&vc_traits, ty(g_a), bf(0), ty(g_b), bf(0));
#elif PART == 3 /* an enumeration (underlying type int) against every type, in both positions */
    const struct kefir_ast_type *e = mk(T_N + T_SI, &g_enum_a);
    for (int j = 0; j < T_N; j++) {
        g_a = T_N + T_SI;
        g_b = j;
        call_kefir_ast_type_common_arithmetic(&vc_traits, e, bf(0), ty(j), bf(0));
        g_a = j;
        g_b = T_N + T_SI;
        call_kefir_ast_type_common_arithmetic(&vc_traits, ty(j), bf(0), e, bf(0));
    }
#elif PART == 1 /* bit-field of any width with any type, in both positions (C11 bit-field types) */
    static const int bft[] = {T_BOOL, T_SI, T_UI, T_SL, T_UL, T_SLL, T_ULL};
    for (int i = 0; i < 7; i++)
        for (int j = 0; j < T_N; j++) {
            int w = ND8();
            VC_ASSUME(w >= 1 && w <= t_bits(bft[i]) && (bft[i] != T_BOOL || w == 1));
            VC_ASSUME(w != 32 || t_bits(bft[i]) == 32 || t_signed(bft[i])); /* unsigned long :32 may stay unsigned long or become unsigned int */
            g_a = bft[i]; g_wa = w; g_b = j; g_wb = 0;
            call_kefir_ast_type_common_arithmetic(&vc_traits, ty(g_a), bf(w), ty(g_b), bf(0));
            g_a = j; g_wa = 0; g_b = bft[i]; g_wb = w;
            call_kefir_ast_type_common_arithmetic(&vc_traits, ty(g_a), bf(0), ty(g_b), bf(w));
        }
#else
    kefir_bool_t s;
    for (g_a = 0; g_a < T_N + T_NINT; g_a++) {
        g_wa = 0;
        call_kefir_ast_type_int_promotion(&vc_traits, mk(g_a, &g_enum_a), bf(0));
        call_kefir_ast_type_is_signed(&vc_traits, mk(g_a, &g_enum_a), &s);
        if (g_a < T_N) {
            call_kefir_ast_type_function_default_argument_promotion(&vc_traits, ty(g_a));
            call_kefir_ast_type_flip_integer_singedness(&vc_traits, ty(g_a));
        }
        if (g_a < T_NINT) {
            g_wa = ND8();
            VC_ASSUME(g_wa >= 1 && g_wa <= t_bits(g_a) && (g_a != T_BOOL || g_wa == 1));
            VC_ASSUME(g_wa != 32 || t_bits(g_a) == 32 || t_signed(g_a));
            call_kefir_ast_type_int_promotion(&vc_traits, ty(g_a), bf(g_wa));
        }
    }
#endif
    VC_REACH("end");
}
