// Fixed-width unsigned integers: conversion to and from arbitrary-precision integers and machine words (over harness/mock).
#include <gmp.h>
#include <mpfr.h>
#include "vp.hpp"
using namespace vp;
static int g_throw;
extern "C" __attribute__((used)) void vp_on_throw() { require_eq(g_throw, 1, "only a number that does not fit is refused"); vp_stop(); }
template<int W> static void to()
{
    u128 v = var(W, "v");
    mpz_t z; mpz_init(z);
    z->neg = vp_choose(2, "old sign"); z->m = var(20, "old value");
    mk<W>(v).to_mpz_t(z);
    require_eq(z->m, v, "the integer has the value of the word"); require_eq(z->neg, 0, "the integer is not negative");
    mpz_clear(z);
}
// a number of exactly B bits
template<int W, int B> static void from()
{
    u128 v = B == 0 ? 0 : var(B - 1, "v") + (((u128)1) << (B - 1));
    mpz_t z; mpz_init(z); z->neg = 0; z->m = v;
    g_throw = B > W;
    fw_uint<W> r(z);
    require_eq(g_throw, 0, "a number that does not fit is refused");
    require_eq(raw(r), v, "the word has the value of the integer"); require_eq(z->m, v, "the integer is not changed");
    mpz_clear(z);
}
#define Z(W) H h_to_mpz_##W() { to<W>(); } H h_from_mpz_##W() { int b = vp_choose((W) + 3 < 120 ? (W) + 3 : (W) + 1, "bits"); froms_##W(b); }
#define D(W) template<int B> static void fr_##W(int b) { if (b == B) from<W, B>(); else if constexpr (B > 0) fr_##W<B - 1>(b); } static void froms_##W(int b) { fr_##W<((W) + 3 < 120 ? (W) + 2 : (W))>(b); } Z(W)
FORMATS
