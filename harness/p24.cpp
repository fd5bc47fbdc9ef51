// P24: the reciprocals made from tables and Newton steps. The result is one of the two numbers of the format
// around the exact reciprocal (less than one unit in the last place away), over the whole range of operands.
#include "vp.hpp"
#include "thls/tops/fp_flopoco_inv_nr.hpp"
using namespace vp;
#ifndef KTOP
#define KTOP 9 // leading bits of the fraction gone through one by one
#endif
// EDGE: the operands of the top two exponents, whose reciprocals are at or below the smallest normal number, too
template<int E, int F, int FY, bool EDGE, class OP> void faithful(OP op)
{
    constexpr int K0 = FY < KTOP ? FY : KTOP, KA = K0 / 2, KB = K0 - KA;
    constexpr int64_t og_ = (((int64_t)1) << E) - 1, bias = og_ / 2;
    u128 hi = vp_decide((int)var(KA, "frac_top")), mid = vp_decide((int)var(KB, "frac_mid")), top = (hi << KB) + mid;
    u128 low = FY > K0 ? var(FY > K0 ? FY - K0 : 1, "frac_low") : 0;
    Fl<E, FY> a;
    a.flags = 1; a.sign = var(1, "sign");
    // the exponents at the ends one by one, the others together
    int part = EDGE ? vp_choose(3, "exponent range") : 0;
    a.exp = part == 0 ? rangev(0, og_ - 2, "exp") : part == 1 ? og_ - 1 : og_;
    a.frac = (top << (FY - K0)) + low;
    u128 y = (((u128)1) << FY) + a.frac;
    constexpr u128 K = ((u128)1) << (F + 1 + FY); // exact: K/y units of 2^-(F+1)
    Fl<E, F> r = fields(op(a.fp()));
    require_eq(r.sign, a.sign, "the reciprocal has the operand's sign");
    u128 m;
    if (part == 2) { require_eq(r.flags, 0, "a reciprocal below the smallest normal number is zero"); return; }
    if (part == 1) {
        if (r.flags == 0) { vp_require(hi + mid + low != 0, "the smallest normal number is the reciprocal of the largest power of two"); return; }
        require_eq(r.flags, 1, "the reciprocal of a normal number in range is normal");
        require_eq(r.exp, 0, "a reciprocal at the smallest normal number has the smallest exponent");
        require_eq(r.frac, 0, "a reciprocal at the smallest normal number has no fraction");
        m = ((u128)2) << F;
    } else {
        require_eq(r.flags, 1, "the reciprocal of a normal number in range is normal");
        u128 d = (u128)(2 * bias) - a.exp - r.exp; // 0: the significand's reciprocal was rounded to one, 1: it is below one
        if (d == 0) m = ((((u128)1) << F) + r.frac) * 2;
        else { require_eq(d, 1, "the exponent of the reciprocal is that of the exact one"); m = (((u128)1) << F) + r.frac; }
    }
    vp_require(m * y < K + y, "the reciprocal is less than one unit in the last place above the exact one");
    vp_require(m * y + y > K, "the reciprocal is less than one unit in the last place below the exact one");
}
#ifndef EDGEFLAG
#define EDGEFLAG true
#endif
#define N(E, F, FY) H h_newton_##E##_##F##_##FY() { faithful<E, F, FY, EDGEFLAG>([](const fp_flopoco<E, FY> &y) { return inv_table_newton<E, F>(y, 0); }); }
#define D(E, F, FY) H h_direct_##E##_##F##_##FY() { faithful<E, F, FY, EDGEFLAG>([](const fp_flopoco<E, FY> &y) { return inv_direct<E, F>(y, 0); }); }
FORMATS
