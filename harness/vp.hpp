// Interface between the harness translation units and the abstract interpreter (engine/ai.cpp).
// The vp_* functions have no body: the analyser gives them their abstract meaning.
#pragma once
#include <stdint.h>
typedef unsigned __int128 u128;
typedef __int128 s128;
extern "C" {
void vp_var(void *dst, int nbytes, int nbits, const char *name);             // any value in [0,2^nbits)
void vp_range(void *dst, int nbytes, int64_t lo, int64_t hi, const char *name); // any value in [lo,hi]
int vp_choose(int n, const char *name);                                        // partition: any value in [0,n)
int vp_decide(int v);                                                          // partition on the value of v
void vp_assume(bool c);
void vp_require(bool c, const char *msg);
void vp_require_eq(const void *a, const void *b, int nbytes, const char *msg);
void vp_require_mod(const void *a, const void *b, int nbytes, int modbits, const char *msg);
int vp_identical(const void *a, const void *b, int nbytes);                       // 1 if both are known to be the same value
void vp_stop();
void vp_unsupported(const char *why);                                            // the analysis says nothing about this cell
void vp_note(const void *a, int nbytes, const char *name);                       // value to show with a violation
void vp_debug(const void *a, int nbytes, const char *name);
}
#define H extern "C" __attribute__((used, noinline)) void
#ifdef VP_ONLY_UB // P16: the values are judged elsewhere; what counts is that every path to the result is free of traps
static inline void require_eq(u128, u128, const char *) { vp_require(true, "the result is reached without a failed assertion or an undefined operation"); }
#define vp_require_mod(a, b, n, m, msg) vp_require(true, "the result is reached without a failed assertion or an undefined operation")
#define vp_require_eq(a, b, n, msg) vp_require(true, "the result is reached without a failed assertion or an undefined operation")
#define vp_require(c, msg) ((void)(c), (vp_require)(true, "the result is reached without a failed assertion or an undefined operation"))
#else
static inline void require_eq(u128 a, u128 b, const char *msg) { vp_require_eq(&a, &b, 16, msg); }
#endif
static inline bool identical(u128 a, u128 b) { return vp_identical(&a, &b, 16) != 0; }
static inline u128 var(int nbits, const char *name) { u128 v; vp_var(&v, 16, nbits, name); return v; }
static inline u128 rangev(int64_t lo, int64_t hi, const char *name) { u128 v; vp_range(&v, 16, lo, hi, name); return v; }

#include "thls/tops/fp_flopoco.hpp"
namespace vp {
using namespace thls;
template<int W> fw_uint<W> mk(u128 v) { return fw_uint<W>::from_bits((typename fw_uint<W>::bits_t)v); }
template<int W> u128 raw(const fw_uint<W> &x) { return (u128)x.bits; }

// operand of a flopoco format given by its fields
template<int E, int F> struct Fl {
    u128 flags, sign, exp, frac;
    u128 pack() const { return (((flags * 2 + sign) << E) + exp << F) + frac; }
    fp_flopoco<E, F> fp() const { return fp_flopoco<E, F>(mk<3 + E + F>(pack())); }
};
// fields of a result
template<int E, int F> Fl<E, F> fields(const fp_flopoco<E, F> &r)
{
    Fl<E, F> o;
    u128 b = raw(r.bits);
    o.frac = b & ((((u128)1) << F) - 1);
    o.exp = (b >> F) & ((((u128)1) << E) - 1);
    o.sign = (b >> (E + F)) & 1;
    o.flags = b >> (E + F + 1);
    return o;
}
static inline int msb(u128 v) { uint64_t h = v >> 64; return h ? 127 - __builtin_clzll(h) : 63 - __builtin_clzll((uint64_t)v | 0); }

// Mathematical reference: round-to-nearest-even of  (-1)^sign * S * 2^(e2)   to a format with E,F.
// biasedTop is the biased exponent of a value whose leading one is bit 0 of S.
struct Rounded { u128 flags, sign, exp, frac; };
template<int E, int F> Rounded rne(u128 sign, u128 S, int64_t expOfBit0)
{
    Rounded r;
    int p = vp_decide(msb(S));
    int64_t er = expOfBit0 + p;
    u128 m;
    int sh = p - F;
    if (sh <= 0) m = S << -sh;
    else {
        m = S >> sh;
        u128 rem = S & ((((u128)1) << sh) - 1), half = ((u128)1) << (sh - 1);
        if (rem > half || (rem == half && (m & 1))) m += 1;
        if (m >> (F + 1)) { m >>= 1; er += 1; }
    }
    r.sign = sign;
    if (er < 0) { r.flags = 0; r.exp = r.frac = 0; }
    else if (er > (int64_t)((((u128)1) << E) - 1)) { r.flags = 2; r.exp = r.frac = 0; }
    else { r.flags = 1; r.exp = er; r.frac = m & ((((u128)1) << F) - 1); }
    return r;
}
template<int E, int F> void check(const fp_flopoco<E, F> &got, const Rounded &w, const char *m1, const char *m2, const char *m3, const char *m4)
{
    Fl<E, F> g = fields(got);
    require_eq(g.flags, w.flags, m1);
    if (w.flags != 3) require_eq(g.sign, w.sign, m2);
    if (w.flags == 1) { require_eq(g.exp, w.exp, m3); require_eq(g.frac, w.frac, m4); }
}
}
