// Encoding.
#include "vp.hpp"
#include "thls/tops/fp_flopoco.hpp"
using namespace vp;
template<int E, int F> static inline Fl<E, F> anyv(int &c, const char *n1, const char *n2, const char *n3) { c = vp_choose(4, "class"); return Fl<E, F>{(u128)c, var(1, n1), var(E, n2), var(F, n3)}; }
template<int E, int F> static inline void encode()
{
    int c; Fl<E, F> x = anyv<E, F>(c, "sign", "exp", "frac"); int s = vp_decide((int)x.sign);
    for (int how = 0; how < 2; how++) {
        fp_flopoco<E, F> v = how ? fp_flopoco<E, F>(mk<2>(x.flags), mk<1>(x.sign), mk<E>(x.exp), mk<F>(x.frac)) : x.fp();
        require_eq(raw(v.bits), x.pack(), "bits");
        require_eq(raw(v.get_flags()), c, "get_flags"); require_eq(raw(v.get_sign()), s, "get_sign"); require_eq(raw(v.get_exp_bits()), x.exp, "get_exp_bits"); require_eq(raw(v.get_frac_bits()), x.frac, "get_frac_bits");
        require_eq(raw(v.get_exp_frac_bits()), (x.exp << F) + x.frac, "get_exp_frac_bits"); require_eq(raw(v.get_flags_exp_frac_bits()), (((x.flags << E) + x.exp) << F) + x.frac, "get_flags_exp_frac_bits");
        require_eq(raw(v.is_zero()), c == 0, "is_zero"); require_eq(raw(v.is_normal()), c == 1, "is_normal"); require_eq(raw(v.is_inf()), c == 2, "is_inf"); require_eq(raw(v.is_nan()), c == 3, "is_nan");
        require_eq(raw(v.is_positive()), !s, "is_positive"); require_eq(raw(v.is_negative()), s, "is_negative");
        require_eq(raw(v.is_pos_zero()), c == 0 && !s, "is_pos_zero"); require_eq(raw(v.is_neg_zero()), c == 0 && s, "is_neg_zero");
        require_eq(raw(v.is_pos_normal()), c == 1 && !s, "is_pos_normal"); require_eq(raw(v.is_neg_normal()), c == 1 && s, "is_neg_normal");
        require_eq(raw(v.is_pos_inf()), c == 2 && !s, "is_pos_inf"); require_eq(raw(v.is_neg_inf()), c == 2 && s, "is_neg_inf");
        require_eq(raw(v.get_equality_class()), c == 3 ? 0 : c == 0 ? 3 : c == 1 ? (s ? 2 : 4) : (s ? 1 : 5), "get_equality_class");
    }
}
template<int E, int F> static inline void equals()
{
    int ca, cb; Fl<E, F> a = anyv<E, F>(ca, "a.sign", "a.exp", "a.frac"), b = anyv<E, F>(cb, "b.sign", "b.exp", "b.frac");
    u128 r = raw(a.fp().equals(b.fp()));
    bool w = ca != cb ? false : ca == 3 ? true : ca != 1 ? a.sign == b.sign : a.sign == b.sign && a.exp == b.exp && a.frac == b.frac;
    require_eq(r, w, "equals: same value");
}
// two values at most one unit in the last place apart, on the scale 0, smallest normal, ..., largest normal, infinity
template<int E, int F> static inline void ulp()
{
    int ca, cb; Fl<E, F> a = anyv<E, F>(ca, "a.sign", "a.exp", "a.frac"), b = anyv<E, F>(cb, "b.sign", "b.exp", "b.frac");
    u128 r = raw(a.fp().within_1ulp(b.fp()));
    if (ca == 3 || cb == 3) { require_eq(r, ca == cb, "within_1ulp: NaN only with NaN"); return; }
    s128 ma = ca == 0 ? 0 : ca == 2 ? ((s128)1 << (E + F)) + 1 : 1 + (s128)((a.exp << F) + a.frac), mb = cb == 0 ? 0 : cb == 2 ? ((s128)1 << (E + F)) + 1 : 1 + (s128)((b.exp << F) + b.frac);
    bool near = ma - mb <= 1 && mb - ma <= 1;
    if (ca == 0 || cb == 0) require_eq(r, near, "within_1ulp: next to zero the sign does not matter");
    else require_eq(r, near && a.sign == b.sign, "within_1ulp");
}
#define A(E, F) H h_encode_##E##_##F() { encode<E, F>(); } H h_equals_##E##_##F() { equals<E, F>(); } H h_ulp_##E##_##F() { ulp<E, F>(); }
FORMATS
