// IEEE-encoded and packed formats.
#include "vp.hpp"
#include "thls/tops/fp_ieee.hpp"
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/fp_promote.hpp"
using namespace vp;
template<int E, int F> struct Ie {
    u128 sign, exp, frac;
    fp_ieee<E, F> fp() const { return fp_ieee<E, F>(mk<1 + E + F>((((sign << E) + exp) << F) + frac)); }
    static Ie of(const fp_ieee<E, F> &r) { u128 b = raw(r.bits); return Ie{b >> (E + F), (b >> F) & ((((u128)1) << E) - 1), b & ((((u128)1) << F) - 1)}; }
    int cls() const { return vp_decide(exp == 0) ? 0 : vp_decide(exp != ((((u128)1) << E) - 1)) ? 1 : vp_decide(frac == 0) ? 2 : 3; }
};
// an IEEE value of class c
template<int E, int F> static inline Ie<E, F> anyIeee(int &c)
{
    c = vp_choose(4, "class");
    int64_t ones = (1ll << E) - 1;
    Ie<E, F> x; x.sign = var(1, "sign");
    x.exp = c == 0 ? 0 : c == 1 ? rangev(1, ones - 1, "exp") : ones;
    x.frac = c == 2 ? 0 : c == 3 ? rangev(1, (1ll << F) - 1, "frac") : var(F, "frac");
    return x;
}
template<int ER, int FR, int EX, int FX> static inline void same_flopoco(const fp_flopoco<ER, FR> &g, int c, u128 sign, u128 exp, u128 frac)
{
    Fl<ER, FR> r = fields(g);
    require_eq(r.flags, c, "class of the packed value");
    if (c != 3) require_eq(r.sign, sign, "sign of the packed value");
    if (c == 1) {
        require_eq(r.exp, exp + (((int64_t)1 << (ER - 1)) - ((int64_t)1 << (EX - 1))), "exponent of the packed value");
        require_eq(r.frac, frac << (FR - FX), "fraction of the packed value");
    }
}
template<int ER, int FR> static inline void same_ieee(const fp_ieee<ER, FR> &g, int c, u128 sign, u128 exp, u128 frac)
{
    Ie<ER, FR> r = Ie<ER, FR>::of(g);
    require_eq(r.cls(), c, "class of the IEEE value");
    if (c != 3) require_eq(r.sign, sign, "sign of the IEEE value");
    if (c == 1) { require_eq(r.exp, exp, "exponent of the IEEE value"); require_eq(r.frac, frac, "fraction of the IEEE value"); }
    if (c == 0) require_eq(r.frac, 0, "a zero is not a subnormal");
}
#define TOFL(ER, FR, EX, FX, OP) { int c; Ie<EX, FX> x = anyIeee<EX, FX>(c); fp_flopoco<ER, FR> r; thls::OP(r, x.fp()); same_flopoco<ER, FR, EX, FX>(r, c, x.sign, x.exp, x.frac); }
template<int ER, int FR, int EX, int FX, class OP> static inline void to_ieee(OP op)
{
    int c = vp_choose(4, "class");
    Fl<EX, FX> x{(u128)c, var(1, "sign"), var(EX, "exp"), var(FX, "frac")};
    fp_ieee<ER, FR> r = op(x.fp());
    int64_t e = (int64_t)(uint64_t)x.exp + ((1ll << (ER - 1)) - (1ll << (EX - 1)));
    int w = c;
    if (c == 1) { if (vp_decide(e < 1)) w = 0; else if (vp_decide(e > (1ll << ER) - 2)) w = 2; }
    same_ieee<ER, FR>(r, w, x.sign, (u128)e, x.frac << (FR - FX));
}
template<int ER, int FR, int EX, int FX> static inline void ieee_ieee()
{
    int c; Ie<EX, FX> x = anyIeee<EX, FX>(c);
    fp_ieee<ER, FR> r; thls::promote(r, x.fp());
    if (EX == ER && FX == FR) { require_eq(raw(r.bits), raw(x.fp().bits), "same format: same bits"); return; }
    Ie<ER, FR> g = Ie<ER, FR>::of(r);
    require_eq(g.cls(), c, "class of the promoted value");
    if (c != 3) require_eq(g.sign, x.sign, "sign of the promoted value");
    if (c == 1) { require_eq(g.exp, x.exp + (((int64_t)1 << (ER - 1)) - ((int64_t)1 << (EX - 1))), "exponent"); require_eq(g.frac, x.frac << (FR - FX), "fraction"); }
}
template<int E, int F> static inline void preds()
{
    int c; Ie<E, F> x = anyIeee<E, F>(c); fp_ieee<E, F> v = x.fp();
    require_eq(raw(v.get_flags()), c, "get_flags"); require_eq(raw(v.is_zero()), c == 0, "is_zero"); require_eq(raw(v.is_normal()), c == 1, "is_normal");
    require_eq(raw(v.is_inf()), c == 2, "is_inf"); require_eq(raw(v.is_nan()), c == 3, "is_nan");
    require_eq(raw(v.get_sign()), x.sign, "get_sign"); require_eq(raw(v.get_exp_bits()), x.exp, "get_exp_bits"); require_eq(raw(v.get_frac_bits()), x.frac, "get_frac_bits");
    require_eq(raw(v.is_pos_normal()), c == 1 && !x.sign, "is_pos_normal"); require_eq(raw(v.is_neg_normal()), c == 1 && x.sign, "is_neg_normal");
    require_eq(raw(v.is_pos_zero()), c == 0 && !x.sign, "is_pos_zero"); require_eq(raw(v.is_neg_zero()), c == 0 && x.sign, "is_neg_zero");
    require_eq(raw(v.is_pos_inf()), c == 2 && !x.sign, "is_pos_inf"); require_eq(raw(v.is_neg_inf()), c == 2 && x.sign, "is_neg_inf");
    require_eq(raw(v.is_negative()), x.sign, "is_negative"); require_eq(raw(v.is_positive()), 1 - x.sign, "is_positive");
}
template<int E, int F> static inline void equals()
{
    int ca, cb; Ie<E, F> a = anyIeee<E, F>(ca), b = anyIeee<E, F>(cb);
    u128 r = raw(a.fp().equals(b.fp()));
    if (ca != cb) require_eq(r, 0, "different classes are not equal");
    else if (ca == 0 || ca == 3) require_eq(r, 1, "zeros are equal, NaNs denote the same thing");
    else require_eq(r, a.sign == b.sign && a.exp == b.exp && a.frac == b.frac, "same class: same sign, exponent and fraction");
}
#define S(E, F) H h_ieee2flopoco_##E##_##F() TOFL(E, F, E, F, convert) \
    H h_flopoco2ieee_##E##_##F() { to_ieee<E, F, E, F>([](const fp_flopoco<E, F> &a) { fp_ieee<E, F> r; thls::convert(r, a); return r; }); } \
    H h_roundtrip_##E##_##F() { int c; Ie<E, F> x = anyIeee<E, F>(c); fp_flopoco<E, F> m; fp_ieee<E, F> r; thls::convert(m, x.fp()); thls::convert(r, m); same_ieee<E, F>(r, c, x.sign, x.exp, x.frac); } \
    H h_preds_##E##_##F() { preds<E, F>(); } H h_equals_##E##_##F() { equals<E, F>(); }
#define P(ER, FR, EX, FX) H h_promote_i2f_##EX##_##FX##__##ER##_##FR() TOFL(ER, FR, EX, FX, promote) H h_promote_i2i_##EX##_##FX##__##ER##_##FR() { ieee_ieee<ER, FR, EX, FX>(); }
#define Q(ER, FR, EX, FX) H h_promote_f2i_##EX##_##FX##__##ER##_##FR() { to_ieee<ER, FR, EX, FX>([](const fp_flopoco<EX, FX> &a) { fp_ieee<ER, FR> r; thls::promote(r, a); return r; }); }
FORMATS
