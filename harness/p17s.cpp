// P17, software IEEE backend: every operator calls the routine of its name once, with its operands in order, and returns that
// routine's result. The routines are replaced by recording stand-ins, so the argument holds whatever they compute.
#include "vp.hpp"
#define softfloat_inline_hpp
#include "thls/tops/policy_softfloat.hpp"
static int calls, opc; static uint64_t ga, gb, gr;
enum { ADD = 1, MUL, DIV, EQ, LE, LT };
#define MOCK(T, W) \
    static T rec##W(int k, T a, T b) { calls++; opc = k; ga = a.v; gb = b.v; T r; r.v = (uint##W##_t)vp::raw(vp::mk<W>(var(W, "result"))); gr = r.v; return r; } \
    static bool recb##W(int k, T a, T b) { calls++; opc = k; ga = a.v; gb = b.v; bool r = vp_choose(2, "result"); gr = r; return r; } \
    T f##W##_add(T a, T b) { return rec##W(ADD, a, b); } T f##W##_mul(T a, T b) { return rec##W(MUL, a, b); } T f##W##_div(T a, T b) { return rec##W(DIV, a, b); } \
    bool f##W##_eq(T a, T b) { return recb##W(EQ, a, b); } bool f##W##_le(T a, T b) { return recb##W(LE, a, b); } bool f##W##_lt(T a, T b) { return recb##W(LT, a, b); } \
    static void expect##W(const char *m, int k, T a, T b, u128 r) { require_eq((u128)calls, 1, "one routine is called"); require_eq((u128)opc, (u128)k, m); require_eq((u128)ga, (u128)a.v, "first operand of the routine"); \
        require_eq((u128)gb, (u128)b.v, "second operand of the routine"); require_eq(r, (u128)gr, "the routine's result is returned"); calls = 0; } \
    H h_soft_ops_##W() { T a, b; a.v = (uint##W##_t)var(W, "a"); b.v = (uint##W##_t)var(W, "b"); calls = 0; \
        { auto r = a + b; expect##W("operator+ adds", ADD, a, b, r.v); } { auto r = a * b; expect##W("operator* multiplies", MUL, a, b, r.v); } { auto r = a / b; expect##W("operator/ divides", DIV, a, b, r.v); } } \
    H h_soft_cmp_##W() { T a, b; a.v = (uint##W##_t)var(W, "a"); b.v = (uint##W##_t)var(W, "b"); calls = 0; \
        { bool r = a == b; expect##W("operator== tests equality", EQ, a, b, r); } { bool r = a != b; expect##W("operator!= tests equality", EQ, a, b, !r); } \
        { bool r = a < b; expect##W("operator< tests less", LT, a, b, r); } { bool r = a > b; expect##W("operator> tests less, swapped", LT, b, a, r); } \
        { bool r = a <= b; expect##W("operator<= tests less or equal", LE, a, b, r); } { bool r = a >= b; expect##W("operator>= tests less or equal, swapped", LE, b, a, r); } }
MOCK(float32_t, 32)
MOCK(float64_t, 64)
template<class T> static inline u128 B(T x) { return (u128)x.v; }
H h_soft_limits() {
    typedef std::numeric_limits<float32_t> s; typedef std::numeric_limits<float64_t> d;
    require_eq(B(s::min()), 0x00800000, "single min"); require_eq(B(s::max()), 0x7f7fffff, "single max"); require_eq(B(s::lowest()), 0xff7fffff, "single lowest");
    require_eq(B(s::epsilon()), 0x34000000, "single epsilon"); require_eq(B(s::infinity()), 0x7f800000, "single infinity"); require_eq(B(s::denorm_min()), 1, "single denorm_min"); require_eq(B(s::round_error()), 0x3f000000, "single round_error");
    require_eq(B(d::min()), 0x0010000000000000, "double min"); require_eq(B(d::max()), 0x7fefffffffffffff, "double max"); require_eq(B(d::lowest()), 0xffefffffffffffff, "double lowest");
    require_eq(B(d::epsilon()), 0x3cb0000000000000, "double epsilon"); require_eq(B(d::infinity()), 0x7ff0000000000000, "double infinity"); require_eq(B(d::denorm_min()), 1, "double denorm_min"); require_eq(B(d::round_error()), 0x3fe0000000000000, "double round_error");
    vp_require((B(s::quiet_NaN()) & 0x7fc00000) == 0x7fc00000 && (B(d::quiet_NaN()) & 0x7ff8000000000000) == 0x7ff8000000000000, "quiet NaN");
    vp_require(s::digits == 24 && s::min_exponent == -125 && s::max_exponent == 128 && d::digits == 53 && d::min_exponent == -1021 && d::max_exponent == 1024, "digits and exponent range");
}
