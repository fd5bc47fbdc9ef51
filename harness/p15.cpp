// P15: dot products of positive normal operands: exact sum of products, rounded towards zero.
// S = sum of X_k*Y_k*2^(D-d_k) is exact: D is the largest difference between product exponents of the format.
#include "vp.hpp"
#include <array>
#include <random>
#include DOTHDR
using namespace vp;
template<int E, int F, int N, class OP> static inline void dot_exact(OP op)
{
    // with two terms, one that is D or more places below the other lies entirely below its last bit
    constexpr int Dmax = 2 * ((1 << E) - 1); constexpr bool FAR = N == 2 && Dmax > 2 * F + 3; constexpr int D = FAR ? 2 * F + 3 : Dmax;
    fp_flopoco<E, F> a[N], b[N]; u128 P[N], e[N];
    static const char *const na[] = {"a0", "a1", "a2", "a3"}, *const nb[] = {"b0", "b1", "b2", "b3"};
    int big = vp_choose(N, "largest product exponent");
    for (int k = 0; k < N; k++) {
        Fl<E, F> x{1, 0, var(E, na[k]), var(F, na[k])}, y{1, 0, var(E, nb[k]), var(F, nb[k])};
        a[k] = x.fp(); b[k] = y.fp();
        P[k] = ((((u128)1) << F) + x.frac) * ((((u128)1) << F) + y.frac); e[k] = x.exp + y.exp;
    }
    u128 S = 0;
    for (int k = 0; k < N; k++) {
        int d = k == big ? 0 : vp_choose(D + 1, "exponent difference");
        if (FAR && d == D) { vp_assume(e[big] >= e[k] + d); continue; }
        vp_assume(e[big] == e[k] + d);
        S += P[k] << (D - d);
    }
    int p = vp_decide(msb(S));
    int64_t er = (int64_t)(uint64_t)e[big] - ((1ll << (E - 1)) - 1) + p - (D + 2 * F);
    Rounded r; r.sign = 0;
    if (er < 0) { r.flags = 0; } else if (er > (1ll << E) - 1) r.flags = 2; else { r.flags = 1; r.exp = er; r.frac = (S >> (p - F)) & ((((u128)1) << F) - 1); }
    check<E, F>(op(a, b), r, "class of the dot product", "sign of the dot product", "exponent of the dot product", "fraction of the dot product, rounded down");
}
#ifdef DOT2
#define A(E, F) H h_dot2_##E##_##F() { dot_exact<E, F, 2>([](auto a, auto b) { return dot2_pos_rndd<E, F>(a[0], a[1], b[0], b[1]); }); }
#else
#define A(E, F) H h_dot4_##E##_##F() { dot_exact<E, F, 4>([](auto a, auto b) { return dot4_pos_rndd<E, F>(a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]); }); }
#endif
FORMATS
