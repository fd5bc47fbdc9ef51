// P23: the multiple-precision models of the dot products: the exact products, added and rounded once, downwards.
#define VPM_EXACT
#include <mpfr.h>
#include "vp.hpp"
#include "thls/tops/fp_flopoco_dot2_pos_rndd.hpp"
#include "thls/tops/fp_flopoco_dot4_pos_rndd.hpp"
using namespace vp;
static int64_t g_emin, g_emax;
extern "C" __attribute__((used)) void vp_on_throw() { require_eq(0, 1, "positive numbers are accepted"); vp_stop(); }
static u128 up(int64_t e) { return (uint64_t)(e + (((int64_t)1) << 40)); } // exponents, compared as non-negative numbers
struct Num { u128 m, e; }; // m * 2^(e - 2^40)
static const u128 E0 = ((u128)1) << 40;
static Num g_a[4], g_b[4]; static int g_n, g_f; static bool g_on;
static bool num(const __mpfr_struct &x, u128 m, u128 e, bool judge, const char *what) // x is exactly this number
{
    if (!judge) return x.cls == VPM_NUM && identical(x.m, m) && identical(up(x.e), e);
    require_eq(x.cls, VPM_NUM, what); require_eq(x._mpfr_sign < 0, 0, what); require_eq(x.m, m, what); require_eq(up(x.e), e, what);
    return true;
}
static bool prod(const __mpfr_struct &x, int i, bool judge)
{
    int d = (int)x._mpfr_prec - (2 * g_f + 2);
    if (d < 0) { if (judge) require_eq(0, 1, "a term keeps every bit of its product"); return false; }
    return num(x, (g_a[i].m * g_b[i].m) << d, g_a[i].e + g_b[i].e - E0 - d, judge, "a term is exactly its product");
}
static void vpm_hook(vpm_op &o)
{
    if (!g_on) return;
    require_eq(o.rnd, MPFR_RNDD, "downwards"); require_eq(o.prec, g_f + 1, "at the result's precision");
    require_eq((u128)(s128)o.emin, (u128)(s128)g_emin, "in an exponent range that cannot be left"); require_eq((u128)(s128)o.emax, (u128)(s128)g_emax, "in an exponent range that cannot be left");
    if (o.kind == VPM_FMA && g_n == 2) { // a0*b0 + (a1*b1)
        int k = prod(o.arg[2], 1, false) ? 0 : 1;
        prod(o.arg[2], 1 - k, true);
        int w = num(o.arg[0], g_a[k].m, g_a[k].e, false, "") ? 0 : 1;
        num(o.arg[w], g_a[k].m, g_a[k].e, true, "a factor of a product"); num(o.arg[1 - w], g_b[k].m, g_b[k].e, true, "a factor of a product");
    } else {
        require_eq(o.kind == VPM_SUM || (g_n == 2 && o.kind == VPM_ADD), 1, "a sum is rounded"); require_eq(o.nargs, g_n, "the sum of all products");
        bool used[4] = {};
        for (int i = 0; i < g_n && i < o.nargs; i++) {
            int j = 0; while (j < g_n && (used[j] || !prod(o.arg[i], j, false))) j++;
            if (j == g_n) { j = 0; while (used[j]) j++; }
            used[j] = true;
            prod(o.arg[i], j, true);
        }
    }
    vp_stop();
}
static void start() { vpm_emin = g_emin = -1073741823; vpm_emax = g_emax = 1073741823; vpm_tr.n = 0; }
static const char *na[] = {"a0.exp", "a0.frac", "a1.exp", "a1.frac", "a2.exp", "a2.frac", "a3.exp", "a3.frac"}, *nb[] = {"b0.exp", "b0.frac", "b1.exp", "b1.frac", "b2.exp", "b2.frac", "b3.exp", "b3.frac"};
// what is rounded: any operands; of four products one has any exponents and the others integer factors, each in turn
template<int E, int F, int N, class OP> static void dot(OP op)
{
    const u128 base = E0 - (((u128)1) << (E - 1)) + 1 - F, one = ((u128)1) << F;
    fp_flopoco<E, F> a[N], b[N];
    const int64_t top = (((int64_t)1) << E) - 1, low = top / 2 + F < top ? top / 2 + F : top;
    int any = N > 2 ? vp_choose(N, "product with any exponents") : -1;
    auto ex = [&](int i, const char *n) { return any < 0 || any == i ? var(E, n) : (u128)rangev(low, top, n); };
    for (int i = 0; i < N; i++) {
        Fl<E, F> x{1, 0, ex(i, na[2 * i]), var(F, na[2 * i + 1])}, y{1, 0, ex(i, nb[2 * i]), var(F, nb[2 * i + 1])};
        a[i] = x.fp(); b[i] = y.fp(); g_a[i] = {x.frac + one, x.exp + base}; g_b[i] = {y.frac + one, y.exp + base};
    }
    start(); g_n = N; g_f = F; g_on = true;
    op(a, b);
    require_eq(0, 1, "an operation rounds");
}
// what becomes of the rounded number: any rounded number, operands of one exponent each
template<int E, int F, int N, class OP> static void res(OP op)
{
    const int64_t bias = (((int64_t)1) << (E - 1)) - 1;
    fp_flopoco<E, F> a[N], b[N];
    for (int i = 0; i < N; i++) { a[i] = Fl<E, F>{1, 0, ((u128)1) << (E - 1), var(F, na[2 * i + 1])}.fp(); b[i] = Fl<E, F>{1, 0, ((u128)1) << (E - 1), var(F, nb[2 * i + 1])}.fp(); }
    start(); g_on = false;
    fp_flopoco<E, F> r = op(a, b);
    require_eq(vpm_tr.n, 1, "one operation rounds");
    Fl<E, F> g = fields(r);
    const __mpfr_struct &v = vpm_tr.op[0].res;
    if (v.cls == VPM_NAN) require_eq(g.flags, 3, "the rounded number, with the format's flush to zero and overflow");
    else {
        int64_t top = v.e + F; int c = v.cls;
        if (c == VPM_NUM) { if (top < -bias) c = VPM_ZERO; else if (top > bias + 1) c = VPM_INF; }
        require_eq(g.flags, c, "the rounded number, with the format's flush to zero and overflow"); require_eq(g.sign, v._mpfr_sign < 0, "the rounded number's sign");
        if (c == VPM_NUM) { require_eq(g.exp, (u128)(uint64_t)(top + bias), "the rounded number's exponent"); require_eq(g.frac, v.m - (((u128)1) << F), "the rounded number's fraction"); }
    }
}
#define PAIR(NAME, E, F, N, ...) static auto f_##NAME = [](auto *a, auto *b) { return __VA_ARGS__; }; H h_##NAME() { dot<E, F, N>(f_##NAME); } H h_r##NAME() { res<E, F, N>(f_##NAME); }
#define D2(E, F) PAIR(dot2_##E##_##F, E, F, 2, dot2_pos_rndd_ref<E, F>(a[0], a[1], b[0], b[1]))
#define D4(E, F) PAIR(dot4_##E##_##F, E, F, 4, dot4_pos_rndd_ref<E, F>(a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]))
#define L2(E, F) PAIR(dot2l_##E##_##F, E, F, 2, dot2_pos_rndd_ref_large<E, F>(a[0], a[1], b[0], b[1]))
#define L4(E, F) PAIR(dot4l_##E##_##F, E, F, 4, dot4_pos_rndd_ref_large<E, F>(a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]))
FORMATS
