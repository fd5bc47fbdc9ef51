// Neighbours and limits. Values are ordered by an integer rank: ... -2 = negative normal of magnitude rank 1, -1 = -0, 0 = +0, 1 = smallest normal ...
#include "vp.hpp"
#include "thls/tops/fp_flopoco.hpp"
#include "thls/tops/fp_ieee.hpp"
using namespace vp;
template<int E, int F> static inline s128 rank(int c, int s, u128 exp, u128 frac)
{ // -0 is one step below +0
    s128 m = c == 0 ? 0 : c == 2 ? ((s128)1 << (E + F)) + 1 : 1 + (((s128)exp << F) + (s128)frac);
    return s ? -1 - m : m;
}
template<int E, int F> static inline s128 rankOf(const fp_flopoco<E, F> &v)
{
    Fl<E, F> g = fields(v);
    int c = vp_decide((int)g.flags), s = vp_decide((int)g.sign);
    if (c == 3) vp_require(false, "the neighbour of a number is not NaN");
    return rank<E, F>(c, s, g.exp, g.frac);
}
template<int E, int F, class OP> static inline void step(OP op, int dir)
{
    int c = vp_choose(4, "class"), s = vp_choose(2, "sign");
    Fl<E, F> x{(u128)c, (u128)s, var(E, "exp"), var(F, "frac")};
    fp_flopoco<E, F> r = op(x.fp());
    if (c == 3) { require_eq(fields(r).flags, 3, "NaN stays NaN"); return; }
    s128 a = rank<E, F>(c, s, x.exp, x.frac), b = rankOf(r);
    bool stay = c == 2 && (dir > 0) == (s == 0);
    require_eq((u128)(b - a), (u128)(s128)(stay ? 0 : dir), dir > 0 ? "next value above" : "next value below");
}
template<int E, int F> static inline void constant(const fp_flopoco<E, F> &v, int c, int s, s128 exp, u128 frac, const char *m)
{
    Fl<E, F> g = fields(v);
    require_eq(g.flags, c, m);
    if (c == 3) return;
    require_eq(g.sign, s, m);
    if (c == 1) { require_eq(g.exp, exp, m); require_eq(g.frac, frac, m); }
}
template<int E, int F> static inline void limits()
{
    typedef std::numeric_limits<fp_flopoco<E, F>> L;
    const int64_t b = (1ll << (E - 1)) - 1, eo = (1ll << E) - 1; u128 fo = (((u128)1) << F) - 1;
    constant<E, F>(L::min(), 1, 0, 0, 0, "min is the smallest positive normal");
    constant<E, F>(L::neg_min(), 1, 1, 0, 0, "neg_min");
    constant<E, F>(L::max(), 1, 0, eo, fo, "max is the largest finite value");
    constant<E, F>(L::neg_max(), 1, 1, eo, fo, "neg_max");
    constant<E, F>(L::lowest(), 1, 1, eo, fo, "lowest is -max");
    constant<E, F>(L::infinity(), 2, 0, 0, 0, "infinity"); constant<E, F>(L::neg_infinity(), 2, 1, 0, 0, "neg_infinity");
    constant<E, F>(L::quiet_NaN(), 3, 0, 0, 0, "quiet_NaN");
    constant<E, F>(L::pos_zero(), 0, 0, 0, 0, "pos_zero"); constant<E, F>(L::neg_zero(), 0, 1, 0, 0, "neg_zero"); constant<E, F>(L::zero(), 0, 0, 0, 0, "zero");
    constant<E, F>(L::pos_one(), 1, 0, b, 0, "pos_one"); constant<E, F>(L::neg_one(), 1, 1, b, 0, "neg_one"); constant<E, F>(L::one(), 1, 0, b, 0, "one");
    constant<E, F>(L::denorm_min(), 1, 0, 0, 0, "denorm_min is min (no subnormals)");
    require_eq(L::digits, F + 1, "digits"); require_eq(L::radix, 2, "radix"); require_eq((u128)(s128)L::min_exponent, (u128)(s128)(-b), "min_exponent"); require_eq(L::max_exponent, b + 1, "max_exponent");
    require_eq((u128)(s128)fp_flopoco<E, F>::min_exponent, (u128)(s128)(-b), "min_exponent"); require_eq(fp_flopoco<E, F>::max_exponent, b + 1, "max_exponent"); require_eq(fp_flopoco<E, F>::bias, b, "bias");
}
template<int E, int F> static inline void ilimits()
{
    typedef std::numeric_limits<fp_ieee<E, F>> L;
    const u128 eo = (((u128)1) << E) - 1, b = eo >> 1, fo = (((u128)1) << F) - 1, sg = ((u128)1) << (E + F);
    auto r = [](const fp_ieee<E, F> &v) { return raw(v.bits); };
    require_eq(r(L::min()), ((u128)1) << F, "ieee min"); require_eq(r(L::neg_min()), sg + (((u128)1) << F), "ieee neg_min");
    require_eq(r(L::max()), ((eo - 1) << F) + fo, "ieee max"); require_eq(r(L::neg_max()), sg + ((eo - 1) << F) + fo, "ieee neg_max"); require_eq(r(L::lowest()), sg + ((eo - 1) << F) + fo, "ieee lowest");
    require_eq(r(L::infinity()), eo << F, "ieee infinity"); require_eq(r(L::neg_infinity()), sg + (eo << F), "ieee neg_infinity");
    require_eq(raw(L::quiet_NaN().is_nan()), 1, "ieee quiet_NaN"); require_eq(raw(L::signalling_NaN().is_nan()), 1, "ieee signalling_NaN");
    require_eq(r(L::pos_zero()), 0, "ieee pos_zero"); require_eq(r(L::neg_zero()), sg, "ieee neg_zero"); require_eq(r(L::zero()), 0, "ieee zero");
    require_eq(r(L::pos_one()), b << F, "ieee pos_one"); require_eq(r(L::neg_one()), sg + (b << F), "ieee neg_one"); require_eq(r(L::one()), b << F, "ieee one");
    require_eq(L::digits, F + 1, "ieee digits"); require_eq((u128)(s128)L::min_exponent, (u128)(1 - (s128)b), "ieee min_exponent"); require_eq(L::max_exponent, b, "ieee max_exponent");
}
#define A(E, F) H h_nextup_##E##_##F() { step<E, F>([](const fp_flopoco<E, F> &a) { return thls::nextup(a); }, 1); } H h_nextdown_##E##_##F() { step<E, F>([](const fp_flopoco<E, F> &a) { return thls::nextdown(a); }, -1); } H h_limits_##E##_##F() { limits<E, F>(); } H h_ilimits_##E##_##F() { ilimits<E, F>(); }
#define N(E, F) H h_nextafterup_##E##_##F() { step<E, F>([](const fp_flopoco<E, F> &a) { return thls::nextafter(a, INFINITY); }, 1); } H h_nextafterdown_##E##_##F() { step<E, F>([](const fp_flopoco<E, F> &a) { return thls::nextafter(a, -INFINITY); }, -1); }
FORMATS
