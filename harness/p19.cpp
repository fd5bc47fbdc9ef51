// P19: multiply-add. The product of the significands is exact in the intermediate format (FXY fraction bits), the sum is
// rounded to nearest even there and then once more to the result format, as the header documents.
#include "vp.hpp"
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/fp_flopoco_fma.hpp"
using namespace vp;
// two-step rounding of (-1)^s * S * 2^k  (k unbiased weight of bit 0)
template<int E, int FI, int F> static inline Rounded twice(u128 sign, u128 S, int64_t e0)
{
    int p = vp_decide(msb(S));
    u128 m = S; int64_t er = e0 + p; int top = p;
    if (p > FI) {
        int sh = p - FI; m = S >> sh; u128 rem = S & ((((u128)1) << sh) - 1), half = ((u128)1) << (sh - 1);
        if (rem > half || (rem == half && (m & 1))) m += 1;
        top = vp_decide(msb(m)); er += top - FI;
    }
    return rne<E, F>(sign, m, er - top);
}
template<int E, int F, int FX, int FY, int FZ> static inline void fma_normal()
{
    constexpr int EI = E + 2, FP = FX + FY, FXY = FX + FY + 2, FI = FXY > FZ ? FXY : FZ, W = FP > FZ ? FP : FZ;
    u128 sp = var(1, "product sign"), sx = vp_choose(2, "x.sign"); int sub = vp_choose(2, "effective subtraction");
    u128 sz = sub ? 1 - sp : sp;
    Fl<E, FX> x{1, sx, var(E, "x.exp"), 0};
    Fl<E, FY> y{1, sx ? 1 - sp : sp, var(E, "y.exp"), 0};
    Fl<E, FZ> z{1, sz, var(E, "z.exp"), 0};
    // every significand triple is a cell of its own; the exponents stay symbolic
    x.frac = vp_choose(1 << FX, "x.frac"); y.frac = vp_choose(1 << FY, "y.frac"); z.frac = vp_choose(1 << FZ, "z.frac");
    u128 P = (((((u128)1) << FX) + x.frac) * ((((u128)1) << FY) + y.frac)) << (W - FP);
    u128 Z = ((((u128)1) << FZ) + z.frac) << (W - FZ);
    // exponents of bit W of P and Z, in the bias of the format
    const int64_t B = (1ll << (E - 1)) - 1;
    u128 ep = x.exp + y.exp, ez = z.exp + B;
    constexpr int DM = FI + 4;
    int big = vp_choose(2, "z has the larger exponent"), d = vp_choose(DM + 1, "distance");
    u128 eb = big ? ez : ep, es = big ? ep : ez;
    if (big && d == 0) vp_stop();
    if (d == DM) vp_assume(eb >= es + d); else vp_assume(eb == es + d);
    u128 Xb = big ? Z : P, Xs = big ? P : Z;
    auto got = [&] { return fma<E, F>(x.fp(), y.fp(), z.fp()); };
    u128 S, s;
    u128 A = Xb << d, C = Xs;
    if (d == DM) { A = Xb << DM; C = 1; if (!sub) S = A + C; else S = A - C; s = big ? sz : sp; }
    else if (!sub) { S = A + C; s = sp; }
    else {
        if (A == C) { check<E, F>(got(), Rounded{0, 0, 0, 0}, "exact cancellation gives zero", "exact cancellation gives +0", "", ""); return; }
        if (A > C) { S = A - C; s = big ? sz : sp; } else { S = C - A; s = big ? sp : sz; }
    }
    Rounded r = twice<E, FI, F>(s, S, (int64_t)(uint64_t)eb - d - W - B);
    check<E, F>(got(), r, "class of the multiply-add", "sign of the multiply-add", "exponent of the multiply-add", "fraction of the multiply-add");
}
template<int E, int F> static inline void fma_special()
{
    int cx = vp_choose(4, "x.class"), cy = vp_choose(4, "y.class"), cz = vp_choose(4, "z.class");
    if (cx == 1 && cy == 1 && cz == 1) vp_stop();
    Fl<E, F> x{(u128)cx, (u128)vp_choose(2, "x.sign"), var(E, "x.exp"), var(F, "x.frac")};
    Fl<E, F> y{(u128)cy, (u128)vp_choose(2, "y.sign"), var(E, "y.exp"), var(F, "y.frac")};
    Fl<E, F> z{(u128)cz, (u128)vp_choose(2, "z.sign"), var(E, "z.exp"), var(F, "z.frac")};
    int sp = (int)(x.sign ^ y.sign), sz = (int)z.sign;
    int cp = cx == 3 || cy == 3 || (cx == 0 && cy == 2) || (cx == 2 && cy == 0) ? 3 : cx == 2 || cy == 2 ? 2 : cx == 0 || cy == 0 ? 0 : 1;
    Fl<E, F> g = fields<E, F>(fma<E, F>(x.fp(), y.fp(), z.fp()));
    if (cp == 3 || cz == 3 || (cp == 2 && cz == 2 && sp != sz)) { require_eq(g.flags, 3, "class: NaN"); return; }
    if (cp == 2 || cz == 2) { require_eq(g.flags, 2, "class: infinity"); require_eq(g.sign, cp == 2 ? sp : sz, "sign of the infinity"); return; }
    if (cp == 0 && cz == 0) { require_eq(g.flags, 0, "class: zero"); require_eq(g.sign, sp & sz, "sign of a zero sum"); return; }
    if (cp == 0) { require_eq(g.flags, 1, "class: the addend"); require_eq(g.sign, sz, "sign: the addend"); require_eq(g.exp, z.exp, "exponent: the addend"); require_eq(g.frac, z.frac, "fraction: the addend"); return; }
    // normal product plus zero: the product rounded (it is exact in the intermediate format)
    u128 S = ((((u128)1) << F) + x.frac) * ((((u128)1) << F) + y.frac);
    Rounded r = rne<E, F>((u128)sp, S, (int64_t)(uint64_t)(x.exp + y.exp) - ((1ll << (E - 1)) - 1) - 2 * F);
    check<E, F>(fma<E, F>(x.fp(), y.fp(), z.fp()), r, "class of product plus zero", "sign of product plus zero", "exponent of product plus zero", "fraction of product plus zero");
}
#define A(E, F) H h_fma_##E##_##F() { fma_normal<E, F, F, F, F>(); }
#define M(E, F, FX, FY, FZ) H h_fma_##E##_##F##__##FX##_##FY##_##FZ() { fma_normal<E, F, FX, FY, FZ>(); }
#define S(E, F) H h_fmaspec_##E##_##F() { fma_special<E, F>(); }
FORMATS
