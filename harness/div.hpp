// Quotients. The dividers are digit recurrences: on every trace the digits are constants, so the residual and the final
// rounding condition are affine in the two significands.
//   X/Y correctly rounded with result significand M (E0 = expected biased exponent, L = [X<Y]):
//     (2M-1) Y <= X 2^(F+L+1) <= (2M+1) Y     (a tie is impossible for equal precisions, M never reaches 2^(F+1))
#pragma once
#include "vp.hpp"
namespace vp {
template<int E, int F> static inline void quotient_ok(const fp_flopoco<E, F> &got, u128 sign, u128 X, u128 Y, int64_t e)
{ // X/Y*2^(e-bias), X and Y in [2^F,2^(F+1))
    Fl<E, F> g = fields(got);
    require_eq(g.sign, sign, "sign of the quotient");
    int L = vp_decide(X < Y);
    int64_t E0 = e - L;
    if (E0 < 0) { require_eq(g.flags, 0, "quotient below the smallest normal is zero"); return; }
    if (E0 > (1ll << E) - 1) { require_eq(g.flags, 2, "quotient above the largest normal is infinite"); return; }
    require_eq(g.flags, 1, "class of the quotient");
    require_eq(g.exp, (u128)E0, "exponent of the quotient");
    u128 M = (((u128)1) << F) + g.frac;
    u128 N = X << (F + L + 1);
    vp_require((2 * M - 1) * Y <= N, "quotient not rounded too high");
    vp_require(N <= (2 * M + 1) * Y, "quotient not rounded too low");
}
template<int EX, int FX, int EY, int FY, class OP> static inline void div_normal(OP op, bool sigOnly = false)
{ // sigOnly: positive operands with middle exponents only
    constexpr int E = EX > EY ? EX : EY, F = FX > FY ? FX : FY;
    const int64_t bx = (1ll << (EX - 1)) - 1, by = (1ll << (EY - 1)) - 1, b = (1ll << (E - 1)) - 1;
    Fl<EX, FX> x{1, 0, (u128)bx, var(FX, "x.frac")}; Fl<EY, FY> y{1, 0, (u128)by, var(FY, "y.frac")};
    int s = 0;
    if (!sigOnly) {
        x.sign = var(1, "x.sign"); s = vp_choose(2, "result sign"); y.sign = s ? 1 - x.sign : x.sign;
        x.exp = var(EX, "x.exp"); y.exp = var(EY, "y.exp");
    }
    quotient_ok<E, F>(op(x.fp(), y.fp()), s, ((((u128)1) << FX) + x.frac) << (F - FX), ((((u128)1) << FY) + y.frac) << (F - FY),
        ((int64_t)(uint64_t)x.exp - bx) - ((int64_t)(uint64_t)y.exp - by) + b);
}
template<int E, int F, class OP> static inline void inv_normal(OP op)
{
    Fl<E, F> y{1, var(1, "y.sign"), var(E, "y.exp"), var(F, "y.frac")};
    quotient_ok<E, F>(op(y.fp()), y.sign, ((u128)1) << F, (((u128)1) << F) + y.frac, 2 * ((1ll << (E - 1)) - 1) - (int64_t)(uint64_t)y.exp);
}
template<int EX, int FX, int EY, int FY, class OP> static inline void div_special(OP op)
{
    constexpr int E = EX > EY ? EX : EY, F = FX > FY ? FX : FY;
    int cx = vp_choose(4, "x.class"), cy = vp_choose(4, "y.class");
    if (cx == 1 && cy == 1) vp_stop();
    u128 sx = var(1, "x.sign"); int s = vp_choose(2, "result sign");
    Fl<EX, FX> x{(u128)cx, sx, var(EX, "x.exp"), var(FX, "x.frac")}; Fl<EY, FY> y{(u128)cy, s ? 1 - sx : sx, var(EY, "y.exp"), var(FY, "y.frac")};
    Fl<E, F> g = fields<E, F>(op(x.fp(), y.fp()));
    bool nan = cx == 3 || cy == 3 || (cx == 0 && cy == 0) || (cx == 2 && cy == 2);
    int w = nan ? 3 : cx == 2 || cy == 0 ? 2 : 0;
    require_eq(g.flags, w, nan ? "class: NaN" : w == 2 ? "class: infinity" : "class: zero");
    if (!nan) require_eq(g.sign, s, "sign: exclusive-or of the operand signs");
}
template<int E, int F, class OP> static inline void inv_special(OP op)
{
    int cy = vp_choose(4, "y.class");
    if (cy == 1) vp_stop();
    Fl<E, F> y{(u128)cy, var(1, "y.sign"), var(E, "y.exp"), var(F, "y.frac")};
    Fl<E, F> g = fields<E, F>(op(y.fp()));
    require_eq(g.flags, cy == 3 ? 3 : cy == 2 ? 0 : 2, cy == 3 ? "class: NaN" : cy == 0 ? "class: infinity" : "class: zero");
    if (cy != 3) require_eq(g.sign, y.sign, "sign of the reciprocal");
}
}
