// P25: the fixed-point type of the reciprocal unit: bits * 2^LSB, unsigned.
#include "vp.hpp"
#include "thls/tops/fp_flopoco_inv_nr.hpp"
using namespace vp;
template<int M, int L> fw_fix<M, L> fixvar(const char *n, u128 &v) { constexpr int W = M - L + 1; v = var(W, n); return fw_fix<M, L>(mk<W>(v)); }
template<int M, int L> u128 fraw(const fw_fix<M, L> &x) { return raw(x.bits); }
template<class T> constexpr int lsbof = T::LSB;
template<class T> constexpr int msbof = T::MSB;
static constexpr u128 ones(int w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }

template<int M1, int L1, int M2, int L2> void mulsub()
{
    u128 x, y;
    auto a = fixvar<M1, L1>("x", x); auto b = fixvar<M2, L2>("y", y);
    auto p = a * b;
    using PT = decltype(p);
    vp_require(lsbof<PT> == L1 + L2 && msbof<PT> == M1 + M2 + 1, "the product has the sum of the weights and room for every product");
    require_eq(fraw(p), x * y, "the product is exact");
    auto d = sub_match(a, b);
    using DT = decltype(d);
    constexpr int LR = L1 < L2 ? L1 : L2, MR = M1 > M2 ? M1 : M2;
    vp_require(lsbof<DT> == LR && msbof<DT> == MR, "a matched difference covers the weights of both operands");
    require_eq(fraw(d), ((x << (L1 - LR)) - (y << (L2 - LR))) & ones(MR - LR + 1), "a matched difference is exact modulo its range");
    if constexpr (M1 == M2 && L1 == L2) require_eq(fraw(a - b), (x - y) & ones(M1 - L1 + 1), "the difference of equal formats is exact modulo its range");
    auto s = ldexp_const<3>(a); auto t = ldexp_const<-2>(a);
    vp_require(lsbof<decltype(s)> == L1 + 3 && msbof<decltype(s)> == M1 + 3 && lsbof<decltype(t)> == L1 - 2 && msbof<decltype(t)> == M1 - 2, "scaling by a constant moves the weights");
    require_eq(fraw(s), x, "scaling by a constant keeps the bits");
    require_eq(fraw(t), x, "scaling by a constant keeps the bits");
}
template<int M, int L, int LR> void roundto()
{
    u128 x;
    auto a = fixvar<M, L>("x", x);
    fw_uint<1> over(0);
    auto r = round_to_lsb<LR>(a, over);
    vp_require(lsbof<decltype(r)> == LR && msbof<decltype(r)> == M, "rounding changes the lowest weight only");
    u128 got = fraw(r) + (raw(over) << (M - LR + 1));
    if constexpr (LR <= L) require_eq(got, x << (L - LR), "extending the fraction is exact");
    else {
        constexpr int D = LR - L;
        u128 w = x >> D, rem = x & ones(D), half = ((u128)1) << (D - 1);
        if (rem > half || (rem == half && (w & 1))) w += 1;
        require_eq(got, w, "rounding gives the nearest value, ties to even, with the carry in the overflow flag");
        require_eq(fraw(trunc_to_lsb<LR>(a)), x >> D, "truncation drops the low bits");
    }
}
template<int M, int L, int MR> void truncmsb()
{
    u128 x;
    auto a = fixvar<M, L>("x", x);
    fw_uint<1> over(0);
    auto r = truncate_to_msb<MR>(a, over);
    vp_require(lsbof<decltype(r)> == L && msbof<decltype(r)> == MR, "truncation changes the highest weight only");
    require_eq(fraw(r), x & ones(MR - L + 1), "the low bits are kept");
    require_eq(raw(over), (x >> (MR - L + 1)) != 0, "the overflow flag tells whether a dropped bit was set");
}
#define B(M1, L1, M2, L2) H h_mulsub_##M1##_##L1##_##M2##_##L2() { mulsub<M1, -(L1), M2, -(L2)>(); }
#define R(M, L, LR) H h_round_##M##_##L##_##LR() { roundto<M, -(L), -(LR)>(); }
#define T(M, L, MR) H h_msb_##M##_##L##_##MR() { truncmsb<M, -(L), MR>(); }
FORMATS
