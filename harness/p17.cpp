// P17: the backend wrappers perform the operation of their name, on their operands in that order.
// Each result is compared with the library primitive applied to the raw operands; operands are of any class.
#include "vp.hpp"
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/policy_ieee_on_flopoco.hpp"
#include <string.h>
using namespace vp;
template<int E, int F> static inline fp_flopoco<E, F> anyf(const char *s, const char *e, const char *f)
{
    Fl<E, F> x{(u128)vp_choose(4, "class"), (u128)vp_choose(2, s), var(E, e), var(F, f)}; return x.fp();
}
#define CMPS(W) \
    vp_require((a < b) == TB(less_than(ra, rb)), #W ": operator<"); vp_require((a <= b) == TB(less_than_equal(ra, rb)), #W ": operator<="); \
    vp_require((a > b) == TB(greater_than(ra, rb)), #W ": operator>"); vp_require((a >= b) == TB(greater_than_equal(ra, rb)), #W ": operator>="); \
    vp_require((a == b) == TB(equal(ra, rb)), #W ": operator=="); vp_require((a != b) == TB(not_equal(ra, rb)), #W ": operator!=");
static inline bool TB(const fw_uint<1> &x) { return x.to_bool(); }
#define RAWEQ(g, w, m) require_eq(raw((g).raw.bits), raw((w).bits), m)
// partition of an operand pair by the distance of the exponents (the result does not depend on it, the analysis does)
template<int F> static inline void by_distance(u128 ea, u128 eb)
{
    const int D = F + 5; int d = vp_choose(2 * D + 1, "exponent distance") - D;
    if (d == D) vp_assume(ea >= eb + D); else if (d == -D) vp_assume(eb >= ea + D); else vp_assume(ea == eb + d);
}
template<int E, int F> static inline u128 expOf(const fp_flopoco<E, F> &x) { return (raw(x.bits) >> F) & ((((u128)1) << E) - 1); }
template<int E, int F> static inline void flopoco_ops(int which)
{
    auto ra = anyf<E, F>("a.sign", "a.exp", "a.frac"), rb = anyf<E, F>("b.sign", "b.exp", "b.frac");
    if (which == 0 || which == 3) by_distance<F>(expOf(ra), expOf(rb));
    fp_flopoco_wrapper<E, F> a(ra), b(rb);
    if (which == 0) { RAWEQ(a + b, (add<E, F>(ra, rb)), "flopoco: operator+"); }
    if (which == 1) { RAWEQ(a * b, (mul<E, F>(ra, rb)), "flopoco: operator*"); }
    if (which == 2) { RAWEQ(a / b, (thls::div<E, F>(ra, rb)), "flopoco: operator/"); }
    if (which == 3) { auto c = a; auto &d = c; auto e = (d += b); auto w = add<E, F>(ra, rb); RAWEQ(c, w, "flopoco: operator+= changes its left operand"); RAWEQ(e, w, "flopoco: value of operator+="); }
    if (which == 4) { auto c = a; auto &d = c; auto e = (d *= b); auto w = mul<E, F>(ra, rb); RAWEQ(c, w, "flopoco: operator*= changes its left operand"); RAWEQ(e, w, "flopoco: value of operator*="); }
    if (which == 5) { CMPS(flopoco) }
}
template<int E, int F> static inline void ieee_ops(int which)
{
    typedef fp_ieee_on_flopoco_wrapper<E, F> W;
    auto any = [](const char *s, const char *e, const char *f) { u128 v = ((u128)vp_choose(2, s) << (E + F)) + (var(E, e) << F) + var(F, f); return fp_ieee<E, F>(mk<1 + E + F>(v)); };
    auto ia = any("a.sign", "a.exp", "a.frac"), ib = any("b.sign", "b.exp", "b.frac");
    W a(ia), b(ib);
    if (which == 0) by_distance<F>((raw(ia.bits) >> F) & ((((u128)1) << E) - 1), (raw(ib.bits) >> F) & ((((u128)1) << E) - 1));
    fp_flopoco<E, F> ra, rb; convert(ra, ia); convert(rb, ib);
    auto out = [](const fp_flopoco<E, F> &x) { fp_ieee<E, F> r; convert(r, x); return r; };
    if (which == 0) RAWEQ(a + b, out(add<E, F>(ra, rb)), "ieee on flopoco: operator+");
    if (which == 1) RAWEQ(a * b, out(mul<E, F>(ra, rb)), "ieee on flopoco: operator*");
    if (which == 2) RAWEQ(a / b, out(thls::div<E, F>(ra, rb)), "ieee on flopoco: operator/");
    if (which == 5) { CMPS(ieee on flopoco) }
}
#define A(E, F) \
    H h_flopoco_add_##E##_##F() { flopoco_ops<E, F>(0); } H h_flopoco_mul_##E##_##F() { flopoco_ops<E, F>(1); } H h_flopoco_div_##E##_##F() { flopoco_ops<E, F>(2); } \
    H h_flopoco_addeq_##E##_##F() { flopoco_ops<E, F>(3); } H h_flopoco_muleq_##E##_##F() { flopoco_ops<E, F>(4); } H h_flopoco_cmp_##E##_##F() { flopoco_ops<E, F>(5); }
#define I(E, F) \
    H h_ieee_add_##E##_##F() { ieee_ops<E, F>(0); } H h_ieee_mul_##E##_##F() { ieee_ops<E, F>(1); } H h_ieee_div_##E##_##F() { ieee_ops<E, F>(2); } H h_ieee_cmp_##E##_##F() { ieee_ops<E, F>(5); }
// the value limits of the wrappers are those of the wrapped format
template<class T, class B> static inline void limits()
{
    typedef std::numeric_limits<T> t; typedef std::numeric_limits<B> b;
    auto eq = [](auto x, auto y, const char *m) { require_eq(raw(x.bits), raw(y.bits), m); };
    eq(t::min(), b::min(), "limits: min"); eq(t::max(), b::max(), "limits: max"); eq(t::lowest(), b::lowest(), "limits: lowest");
    eq(t::epsilon(), b::epsilon(), "limits: epsilon"); eq(t::infinity(), b::infinity(), "limits: infinity"); eq(t::quiet_NaN(), b::quiet_NaN(), "limits: quiet NaN");
    vp_require(t::digits == b::digits && t::radix == b::radix && t::min_exponent == b::min_exponent && t::max_exponent == b::max_exponent, "limits: digits, radix and exponent range");
}
#define L(E, F) H h_limits_##E##_##F() { limits<fp_flopoco_wrapper<E, F>, fp_flopoco<E, F>>(); limits<fp_ieee_on_flopoco_wrapper<E, F>, fp_ieee<E, F>>(); }
// conversion of native floats to and from the packed backend
#define T(E, F) H h_to_##E##_##F() { \
    uint32_t v = (uint32_t)((vp_choose(2, "sign") << 31) + (var(8, "exp") << 23) + var(23, "frac")); float f; memcpy(&f, &v, 4); \
    constexpr convert_policy P = (convert_policy)(allow_overflow | allow_underflow | allow_precision_loss); \
    auto g = to<fp_flopoco_wrapper<E, F>, P>(f); fp_flopoco<E, F> w; convert(w, fp_ieee<8, 23>(fw_uint<32>(v))); RAWEQ(g, w, "to<flopoco>(float)"); } \
  H h_from_##E##_##F() { auto r = anyf<E, F>("sign", "exp", "frac"); constexpr convert_policy P = (convert_policy)(allow_overflow | allow_underflow | allow_precision_loss); \
    float f = to<float, P>(fp_flopoco_wrapper<E, F>(r)); uint32_t v; memcpy(&v, &f, 4); fp_ieee<8, 23> w; convert(w, r); require_eq((u128)v, raw(w.bits), "to<float>(flopoco)"); }
FORMATS
