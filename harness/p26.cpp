// P26: conversion from and to the machine's double, for every pattern of a double and every packed number.
#include <algorithm>
#include <array>
#include <boost/mpl/if.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <climits>
#include <cstdio>
#include <gmp.h>
#include <gmpxx.h>
#include <iostream>
#include <mpfr.h>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <type_traits>
#include "mock/dbl.hpp"
#define double vpd
#include "vp.hpp"
using namespace vp;

template<int E, int F> void fromd()
{
    constexpr int64_t bias = (((int64_t)1) << (E - 1)) - 1;
    int cls = vp_choose(5, "double: zero, number, infinity, NaN, subnormal");
    u128 s = var(1, "sign"), f = cls == 1 || cls == 4 ? var(52, "fraction") : cls == 3 ? var(52, "payload") : 0;
    if (cls >= 3) vp_assume(f != 0);
    u128 ex = cls == 1 ? rangev(1, 2046, "exponent field") : cls == 0 || cls == 4 ? 0 : 2047;
    fp_flopoco<E, F> g(vpd_raw((uint64_t)((s << 63) + (ex << 52) + f)));
    Fl<E, F> r = fields(g);
    if (cls == 3) { require_eq(r.flags, 3, "a NaN stays a NaN"); return; }
    require_eq(r.sign, s, "the sign is kept");
    if (cls == 2) { require_eq(r.flags, 2, "an infinity stays an infinity"); return; }
    if (cls == 0) { require_eq(r.flags, 0, "zero stays zero"); return; }
    if (cls == 4) { // lossy: a subnormal double may become zero
        if constexpr (E <= 10) require_eq(r.flags, 0, "a subnormal double becomes zero");
        return;
    }
    int64_t e = (int64_t)ex - 1023 + bias; // biased exponent in the result's format
    if (e < 0) { require_eq(r.flags, 0, "a number below the smallest normal one becomes zero"); return; }
    if (e > 2 * bias + 1) { require_eq(r.flags, 2, "a number above the format's range becomes infinite"); return; }
    if (F < 52 && r.flags == 2) { // only by rounding up
        require_eq(e, 2 * bias + 1, "a number inside the format's range stays finite");
        constexpr int D = 52 - F > 0 ? 52 - F : 0;
        vp_require(f > (((((u128)1) << F) - 1) << D), "only a number above the largest one becomes infinite");
        return;
    }
    require_eq(r.flags, 1, "a number inside the format's range stays normal");
    u128 got = (r.exp << F) + r.frac, x = ((u128)e << 52) + f;
    if constexpr (F >= 52) require_eq(got, x << (F - 52 > 0 ? F - 52 : 0), "a number whose fraction fits is converted exactly");
    else {
        constexpr int D = 52 - F > 0 ? 52 - F : 0;
        vp_require((got << D) < x + (((u128)1) << D), "the result is less than one unit in the last place above the double");
        vp_require((got << D) + (((u128)1) << D) > x, "the result is less than one unit in the last place below the double");
    }
}
template<int E, int F> void tod()
{
    constexpr int64_t bias = (((int64_t)1) << (E - 1)) - 1;
    int cls = vp_choose(4, "class");
    Fl<E, F> a;
    a.flags = cls; a.sign = var(1, "sign"); a.frac = var(F, "frac");
    if (E == 11 && cls == 1 && vp_choose(2, "end of the range")) {
        // exponents at which the double is subnormal or overflows
        int k = vp_choose(2, "which end");
        a.exp = k ? 2047 : 0;
    } else a.exp = E == 11 && cls == 1 ? rangev(1, 2046, "exp") : var(E, "exp");
    uint64_t g = a.fp().to_double().b;
    if (cls == 3) { vp_require(vpd_nan(vpd_raw(g)), "a NaN stays a NaN"); return; }
    require_eq(g >> 63, a.sign, "the sign is kept");
    u128 mag = g & ~(((uint64_t)1) << 63);
    if (cls == 0) { require_eq(mag, 0, "zero stays zero"); return; }
    if (cls == 2) { require_eq(mag, (u128)2047 << 52, "an infinity stays an infinity"); return; }
    int64_t e = 1023 - bias;
    if (E == 11 && a.exp == 2047) { require_eq(mag, (u128)2047 << 52, "a number above the doubles becomes infinite"); return; }
    if (E == 11 && a.exp == 0) {
        u128 m = (((u128)1) << F) + a.frac; // units of 2^(-1023-F), wanted in units of 2^-1074
        if constexpr (F <= 51) require_eq(mag, m << (51 - F > 0 ? 51 - F : 0), "a number that is a subnormal double is converted exactly");
        else { u128 h = m >> 1; require_eq(mag, h + (m & h & 1), "a number among the subnormal doubles is rounded to nearest even"); }
        return;
    }
    require_eq(mag, ((a.exp + (u128)e) << 52) + (a.frac << (52 - F)), "a number is converted exactly");
}
#define A(E, F) H h_from_double_##E##_##F() { fromd<E, F>(); }
#define B(E, F) H h_to_double_##E##_##F() { tod<E, F>(); }
FORMATS
