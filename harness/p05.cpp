// P05: products with at least one operand that is not a normal number: every class pair, every payload.
#include "vp.hpp"
#include MULHDR
using namespace vp;
template<int E, int FR, int FX, int FY, class OP> static inline void mul_special(OP op)
{
    int cx = vp_choose(4, "x.class"), cy = vp_choose(4, "y.class");
    if (cx == 1 && cy == 1) vp_stop();
    u128 sx = var(1, "x.sign"); int s = vp_choose(2, "result sign");
    Fl<E, FX> x{(u128)cx, sx, var(E, "x.exp"), var(FX, "x.frac")};
    Fl<E, FY> y{(u128)cy, s ? 1 - sx : sx, var(E, "y.exp"), var(FY, "y.frac")};
    Fl<E, FR> g = fields<E, FR>(op(x.fp(), y.fp()));
    bool nan = cx == 3 || cy == 3 || (cx == 0 && cy == 2) || (cx == 2 && cy == 0);
    require_eq(g.flags, nan ? 3 : cx == 2 || cy == 2 ? 2 : 0, nan ? "class: NaN" : cx == 2 || cy == 2 ? "class: infinity" : "class: zero");
    if (!nan) require_eq(g.sign, (u128)s, "sign: exclusive-or of the operand signs");
}
#define A(E, F) H h_mulspec_##E##_##F() { mul_special<E, F, F, F>([](const fp_flopoco<E, F> &a, const fp_flopoco<E, F> &b) { return MULOP(E, F, E, F, E, F, a, b); }); }
#define M(E, FR, FX, FY) H h_mulspec_##E##_##FR##__##FX##_##FY() { mul_special<E, FR, FX, FY>([](const fp_flopoco<E, FX> &a, const fp_flopoco<E, FY> &b) { return MULOP(E, FR, E, FX, E, FY, a, b); }); }
FORMATS
