// P06: product of two normal numbers. S = X*Y is a degree-two polynomial; the cells are the leading-one position of S,
// the round/sticky situation of the discarded bits and the position of the exponent relative to the range limits.
#include "vp.hpp"
#include MULHDR
using namespace vp;
template<int E, int FR, int FX, int FY, class OP> static inline void mul_normal(OP op)
{
    u128 sx = var(1, "x.sign"); int s = vp_choose(2, "result sign");
    Fl<E, FX> x{1, sx, var(E, "x.exp"), var(FX, "x.frac")};
    Fl<E, FY> y{1, s ? 1 - sx : sx, var(E, "y.exp"), var(FY, "y.frac")};
    u128 S = ((((u128)1) << FX) + x.frac) * ((((u128)1) << FY) + y.frac);
    int64_t e0 = (int64_t)(uint64_t)(x.exp + y.exp) - ((1ll << (E - 1)) - 1) - FX - FY;
    Rounded r = rne<E, FR>((u128)s, S, e0);
    auto got = op(x.fp(), y.fp());
    check<E, FR>(got, r, "class of the rounded product", "sign of the product", "exponent of the rounded product", "fraction of the rounded product");
}
#define A(E, F) H h_mul_##E##_##F() { mul_normal<E, F, F, F>([](const fp_flopoco<E, F> &a, const fp_flopoco<E, F> &b) { return MULOP(E, F, E, F, E, F, a, b); }); }
#define M(E, FR, FX, FY) H h_mul_##E##_##FR##__##FX##_##FY() { mul_normal<E, FR, FX, FY>([](const fp_flopoco<E, FX> &a, const fp_flopoco<E, FY> &b) { return MULOP(E, FR, E, FX, E, FY, a, b); }); }
FORMATS
