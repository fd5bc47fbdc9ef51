// Addition of two normal operands, parametrised by the structure of the exact sum.
//   big = 2^ebig*X, small = 2^esm*Y (promoted to the common format), d = ebig-esm, exact sum = (X*2^d +- Y)*2^esm
//   Y = 2^d*u + yl,  V = X +- u (-1 if something was borrowed), exact sum = 2^d*V + L, 0<=L<2^d.
// The cells below partition every operand pair: sign, effective operation, which operand is the larger one, d, rounding
// class of yl (in quarters of the unit), leading-one position of V, low bits of V.
#pragma once
#include "vp.hpp"
namespace vp {
static inline u128 one(int k) { return ((u128)1) << k; }
template<int EX, int FX, int EY, int FY, class OP> static inline void add_normal(OP op)
{
    constexpr int E = EX > EY ? EX : EY, F = FX > FY ? FX : FY;
    u128 sx = var(1, "sx"); int sub = vp_choose(2, "effsub"); u128 sy = sub ? 1 - sx : sx;
    int swap = vp_choose(2, "swap"); // 0: x has the larger magnitude, 1: y
    const int Eb = swap ? EY : EX, Es = swap ? EX : EY;
    const int kb = F - (swap ? FY : FX), ks = F - (swap ? FX : FY); // trailing zero bits of the promoted significands
    const int64_t ob = (1ll << (E - 1)) - (1ll << (Eb - 1)), os = (1ll << (E - 1)) - (1ll << (Es - 1)); // bias difference
    int d = vp_choose(F + 5, "d"); // F+4 stands for every larger distance as well
    u128 xes = var(Es, "e"), es = xes + os, eb = es + d;
    if (d == F + 4) eb += var(E, "de");
    vp_assume(eb >= ob);
    vp_assume(eb - ob <= (1ll << Eb) - 1);
    u128 xeb = eb - ob;
    u128 X, Y, V, L;
    if (d <= F + 1) {
        u128 yl = 0; int r = d > ks ? d - ks : 0; // bits of yl above its granularity 2^ks
        if (r > 0) {
            u128 g = one(ks);
            if (r == 1) yl = g * vp_choose(2, "yl");
            else { u128 q = one(r - 2); int c = vp_choose(8, "ylc"); yl = (c >> 1) * q; if (c & 1) { if (q == 1) vp_assume(false); yl += rangev(1, q - 1, "yl"); } yl = yl * g; }
        }
        // u: the part of Y at and above the unit of X (u < 2^(F+1))
        const int64_t ulo = d <= F ? (1ll << (F - d)) : 0, uhi = d <= F ? (1ll << (F + 1 - d)) - 1 : 0, h = 1ll << F;
        if (d == F + 1) vp_assume(yl >= one(F));
        int b = 0;
        if (sub && d > 0) { b = vp_choose(2, "b"); if (b) vp_assume(yl != 0); else vp_assume(yl == 0); } // borrow into the unit of X
        // leading one of V (p), number of low bits of V that are enumerated (nb)
        int p, nb;
        if (!sub) { p = F + vp_choose(2, "carry"); nb = p - F + 1; }
        else if (d <= 1) { p = vp_choose(F + 2, "p") - 1; nb = d == 1 && p == F ? 1 : 0; }
        else { p = F - vp_choose(2, "p"); nb = p == F; }
        if (kb == 0) {
            const int ku = ks > d ? ks - d : 0;
            u128 u = rangev(ulo >> ku, uhi >> ku, "u") << ku;
            if (p < 0) V = 0;
            else if (p < nb) vp_assume(false);
            else V = (rangev((1ll << p) >> nb, ((1ll << (p + 1)) - 1) >> nb, "V") << nb) + (nb ? vp_choose(1 << nb, "v0") : 0);
            X = sub ? V + u + b : V - u;
            Y = (u << d) + yl;
        } else {
            // X = 2^kb*Xn, u = 2^kb*uh + ul, V = 2^kb*Vh + vl
            const int64_t K = 1ll << kb;
            u128 uh = 0, Vh, vl, ul, br = 0;
            if (ulo >= K) uh = rangev(ulo / K, uhi / K, "uh");
            if (p < 0) { Vh = 0; vl = 0; }
            else if (p < kb) { Vh = 0; if (p < nb) vp_assume(false); vl = (rangev((1ll << p) >> nb, ((1ll << (p + 1)) - 1) >> nb, "vl") << nb) + (nb ? vp_choose(1 << nb, "v0") : 0); }
            else if (kb >= nb) { Vh = rangev((1ll << p) / K, ((1ll << (p + 1)) - 1) / K, "Vh"); vl = (rangev(0, (K >> nb) - 1, "vl") << nb) + (nb ? vp_choose(1 << nb, "v0") : 0); }
            else { Vh = 2 * rangev((1ll << p) / K / 2, ((1ll << (p + 1)) - 1) / K / 2, "Vh") + vp_choose(2, "vh0"); vl = vp_choose(2, "v0"); } // kb==1, nb==2
            if (!sub) ul = vl;
            else {
                int z = vp_choose(2, "nb");
                if (z) { if (b) vp_assume(false); vp_assume(vl == 0); vl = 0; ul = 0; }
                else { br = 1; ul = K - b - vl; vp_assume((s128)ul >= 0); vp_assume((s128)ul < K); if (!b) vp_assume(ul != 0); }
            }
            if (ulo < K) { vp_assume((s128)ul >= ulo); vp_assume((s128)ul <= uhi); }
            X = (sub ? Vh + uh + br : Vh - uh) << kb;
            V = (Vh << kb) + vl;
            Y = (((uh << kb) + ul) << d) + yl;
        }
        L = sub && b ? one(d) - yl : sub ? (u128)0 : yl;
        vp_assume((s128)X >= (s128)one(F)); vp_assume(X < one(F + 1));
    } else {
        int c = vp_choose(2, "x");
        X = c ? rangev((1ll << (F - kb)) + 1, (2ll << (F - kb)) - 1, "X") << kb : one(F);
        Y = rangev(1ll << (F - ks), (2ll << (F - ks)) - 1, "Y") << ks;
        if (!sub) { V = X; L = Y; } else { V = X - 1; L = one(d) - Y; }
    }
    u128 xb = (X - one(F)) >> kb, yb = (Y - one(F)) >> ks;
    Fl<EX, FX> x; Fl<EY, FY> y; x.flags = y.flags = 1; x.sign = sx; y.sign = sy;
#ifdef VP_ONLY_UB // every class with every payload: the datapath runs on it before the class decides the result
#ifdef VP_THOROUGH
    x.flags = (u128)vp_choose(4, "x.class"); y.flags = (u128)vp_choose(4, "y.class");
#else
    { int q = vp_choose(4, "classes"); x.flags = q == 0 || q == 1 ? 1 : q == 2 ? 0 : 2; y.flags = q == 0 || q == 2 ? 1 : q == 1 ? 0 : 3; }
#endif
    vp_note(&x.flags, 16, "x.class"); vp_note(&y.flags, 16, "y.class");
#endif
    if (swap) { x.exp = xes; y.exp = xeb; x.frac = yb; y.frac = xb; } else { x.exp = xeb; y.exp = xes; x.frac = xb; y.frac = yb; }
    u128 sbig = swap ? sy : sx;
    vp_note(&x.sign, 16, "x.sign"); vp_note(&x.exp, 16, "x.exp"); vp_note(&x.frac, 16, "x.frac");
    vp_note(&y.sign, 16, "y.sign"); vp_note(&y.exp, 16, "y.exp"); vp_note(&y.frac, 16, "y.frac");
    u128 S = (V << d) + L;
    if (sub && d == 0 && V == 0) {
        auto got = op(x.fp(), y.fp());
        Rounded r{0, 0, 0, 0};
        check<E, F>(got, r, "exact cancellation gives zero", "exact cancellation gives +0", "", "");
        return;
    }
    auto r = rne<E, F>(sbig, S, (int64_t)eb - d - F);
    auto got = op(x.fp(), y.fp());
    check<E, F>(got, r, "class of the rounded sum", "sign of the rounded sum", "exponent of the rounded sum", "fraction of the rounded sum");
}

// ---- special operands: every pair of classes except normal/normal, every payload
template<int EX, int FX, int EY, int FY, class OP> static inline void add_special(OP op)
{
    constexpr int E = EX > EY ? EX : EY, F = FX > FY ? FX : FY;
    int cx = vp_choose(4, "x.class"), cy = vp_choose(4, "y.class");
    if (cx == 1 && cy == 1) vp_stop();
    Fl<EX, FX> x{(u128)cx, var(1, "x.sign"), var(EX, "x.exp"), var(FX, "x.frac")};
    Fl<EY, FY> y{(u128)cy, var(1, "y.sign"), var(EY, "y.exp"), var(FY, "y.frac")};
    Fl<E, F> g = fields<E, F>(op(x.fp(), y.fp()));
    int sx = vp_decide((int)x.sign), sy = vp_decide((int)y.sign);
    if (cx == 3 || cy == 3 || (cx == 2 && cy == 2 && sx != sy)) { require_eq(g.flags, 3, "class: NaN"); return; }
    if (cx == 2 || cy == 2) {
        require_eq(g.flags, 2, "class: infinity"); require_eq(g.sign, cx == 2 ? sx : sy, "sign of the infinity"); return;
    }
    if (cx == 0 && cy == 0) { require_eq(g.flags, 0, "class: zero"); require_eq(g.sign, sx & sy, "sign of a zero sum"); return; }
    // zero + normal
    require_eq(g.flags, 1, "class: the normal operand"); require_eq(g.sign, cx == 1 ? sx : sy, "sign: the normal operand");
    u128 we = cx == 1 ? x.exp + ((1ll << (E - 1)) - (1ll << (EX - 1))) : y.exp + ((1ll << (E - 1)) - (1ll << (EY - 1)));
    u128 wf = cx == 1 ? x.frac << (F - FX) : y.frac << (F - FY);
    require_eq(g.exp, we, "exponent: the normal operand"); require_eq(g.frac, wf, "fraction: the normal operand");
}
}
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
