// P28: generated test operands: every bit is a drawn bit of its own; only enabled classes are drawn, with flags and sign of the class.
#include <algorithm>
#include <array>
#include <boost/mpl/if.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <climits>
#include <cstdio>
#include <gmp.h>
#include <gmpxx.h>
#include <iostream>
#include <mpfr.h>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <type_traits>
#include <utility>
#include <functional>
#include "mock/dbl.hpp"
#define double vpd
#define uniform_real_distribution vp_udist
static vpd vp_uniform();
namespace std { template<class T = vpd> struct vp_udist { vp_udist() {} vp_udist(T, T) {} template<class R> T operator()(R &) { return vp_uniform(); } }; }
#include "vp.hpp"
using namespace vp;
// a number of [0,1): zero, the least and the greatest one of 53 bits, or one with an exponent of -1 to -12 and 41 bits
// (more bits would only add roundings of the product with the total weight)
static vpd vp_uniform()
{
    int j = vp_choose(15, "uniform draw: zero, least, greatest, or its binade");
    if (j == 0) return vpd_raw(0);
    if (j == 13) return vpd_raw((uint64_t)(1023 - 53) << 52);
    if (j == 14) return vpd_raw(((uint64_t)1023 << 52) - 1);
    return vpd_raw((((uint64_t)(1023 - j)) << 52) + (((uint64_t)var(40, "uniform draw: fraction")) << 12));
}
static u128 g_draw[16]; static int g_n;
struct Rng {
    typedef uint32_t result_type;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xFFFFFFFFu; }
    result_type operator()() { if (g_n >= 16) { vp_unsupported("more draws than expected"); vp_stop(); } u128 d = var(32, "draw"); g_draw[g_n++] = d; return (uint32_t)d; }
    void discard(unsigned long long z) { while (z--) (*this)(); }
};
// every bit of x is a drawn bit, and none of the bits already used
static bool g_used[16][32];
static void own_bits(u128 x, int w, const char *what)
{
    if (w < 128) require_eq(x >> w, 0, "the value fits its width");
    for (int j = w - 1; j >= 0; j--) {
        u128 b = (x >> j) & 1; bool hit = false;
        for (int i = 0; i < g_n && !hit; i++) for (int k = 31; k >= 0 && !hit; k--) if (!g_used[i][k] && identical(b, (g_draw[i] >> k) & 1)) hit = g_used[i][k] = true;
        require_eq(hit, 1, what);
    }
}
static void fresh() { g_n = 0; for (auto &r : g_used) for (bool &b : r) b = false; }
template<int W> static void rnd(bool inplace)
{
    fresh(); Rng g;
    fw_uint<W> x = inplace ? mk<W>(var(W, "previous value")) : fw_uint<W>();
    if (inplace) randomise(x, g); else x = random_fw_uint<W>(g);
    own_bits(raw(x), W, "every bit of the value is a drawn bit of its own");
}
// off: the classes that are disabled
template<int E, int F> static void source(int off)
{
    typedef fp_flopoco_random_test_source<E, F> S;
    typedef typename S::Class C;
    static const C all[7] = {S::PosZero, S::NegZero, S::PosNormal, S::NegNormal, S::PosInf, S::NegInf, S::NaN};
    fresh(); Rng g; S s;
    for (int i = 0; i < 7; i++) if ((off >> i) & 1) s.disable_class(all[i]);
    fp_flopoco<E, F> x = s(g);
    Fl<E, F> f = fields(x);
    int flags = vp_decide((int)f.flags);
    if (flags == 3) require_eq((off >> 6) & 1, 0, "only enabled classes are drawn");
    else {
        int sign = vp_decide((int)f.sign), c = flags == 0 ? 0 : flags == 1 ? 2 : 4;
        require_eq((off >> (c + sign)) & 1, 0, "only enabled classes are drawn");
    }
    own_bits(f.exp, E, "every exponent bit is a drawn bit of its own"); own_bits(f.frac, F, "every fraction bit is a drawn bit of its own");
    if (flags == 3) own_bits(f.sign, 1, "the sign of a NaN is a drawn bit");
}
#define R(W) H h_random_##W() { rnd<W>(false); } H h_randomise_##W() { rnd<W>(true); }
// none, one, or all but one of the classes are disabled
#define S1(E, F, N) H h_source_##E##_##F##_##N() { source<E, F>(N == 14 ? 0 : N < 7 ? 1 << N : 127 & ~(1 << (N - 7))); }
#define S(E, F) S1(E, F, 0) S1(E, F, 1) S1(E, F, 2) S1(E, F, 3) S1(E, F, 4) S1(E, F, 5) S1(E, F, 6) S1(E, F, 7) S1(E, F, 8) S1(E, F, 9) S1(E, F, 10) S1(E, F, 11) S1(E, F, 12) S1(E, F, 13) S1(E, F, 14)
FORMATS
