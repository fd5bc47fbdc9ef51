// P21: lookup tables and the logic-optimised generator's step.
#include "vp.hpp"
#include "thls/tops/lut_opt.hpp"
using namespace vp;

// any function; one that returns int has to give values the entry's constructor can take, a wider one gives entries themselves
template<int WD> static inline uint64_t f1(uint64_t i)
{
    uint64_t v = i * 0x9E3779B97F4A7C15u + (i >> 2) * 40503u + 7;
    v ^= v >> 29;
    return WD >= 64 ? v : v & ((((uint64_t)1) << (WD & 63)) - 1);
}
template<int WD, int WA> void h_lut()
{
    u128 a = var(WA, "address");
    if constexpr (WD <= 31) {
        static const lut<WD, WA> T([](int i) -> int { return (int)f1<WD>((uint64_t)i); });
        require_eq(raw(T(mk<WA>(a))), f1<WD>((uint64_t)a), "the table entry is the function's value at the address");
    }
    static const lut<WD, WA> T2([](int i) { return mk<WD>(f1<WD>((uint64_t)i)); });
    require_eq(raw(T2(mk<WA>(a))), f1<WD>((uint64_t)a), "the table entry is the function's value at the address");
}
// the documented construction, by itself: cycle i -> (i+1)%n, then successive permutations of it
template<int N, int T, uint32_t S> struct RefTaps {
    int tap[N][T]; int nt[N]; int out[N];
    static constexpr uint32_t A = 1664525u, C = 1013904223u;
    static constexpr void permute(uint32_t &s, int *v) { for (int j = N; j > 1; j--) { int k = (int)(s >> 16) % j; int t = v[j - 1]; v[j - 1] = v[k]; v[k] = t; s = s * A + C; } }
    constexpr RefTaps() : tap(), nt(), out()
    {
        int v[N] = {};
        uint32_t s = S;
        for (int i = 0; i < N; i++) v[i] = out[i] = (i + 1) % N;
        int src[T][N] = {};
        for (int t = 0; t < T; t++) { permute(s, v); for (int i = 0; i < N; i++) src[t][i] = v[i]; }
        permute(s, out);
        for (int i = 0; i < N; i++) {
            nt[i] = 0;
            for (int t = 0; t < T; t++) {
                bool dup = false;
                for (int k = 0; k < nt[i]; k++) if (tap[i][k] == src[t][i]) dup = true;
                if (!dup) tap[i][nt[i]++] = src[t][i];
            }
        }
    }
};
template<int N, int T, uint32_t S> void h_step()
{
    static constexpr RefTaps<N, T, S> R{};
    u128 bit[N];
    fw_uint<N> s(0);
    u128 v = 0;
    for (int i = 0; i < N; i++) { bit[i] = var(1, "state bit"); v |= bit[i] << i; }
    s = mk<N>(v);
    fw_uint<N> r = lut_opt_spec<N, T, S>::step(s);
    for (int o = 0; o < N; o++) {
        int b = R.out[o];
        u128 x = 0;
        for (int k = 0; k < R.nt[b]; k++) x ^= bit[R.tap[b][k]];
        require_eq((raw(r) >> (N - 1 - o)) & 1, x, "the next state's bit is the exclusive or of the distinct taps its seed selects");
    }
}
#define L(D, A) H h_lut_##D##_##A() { h_lut<D, A>(); }
#define S(N, T, S) H h_step_##N##_##T##_##S() { h_step<N, T, S>(); }
FORMATS
