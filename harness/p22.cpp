// P22: compile-time helpers. Every instance is evaluated by the compiler; the analyser compares the folded value with the
// mathematical one. A static assertion that fires on these (valid) arguments is a violation too (see check.py, witness).
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <utility>
#include <iostream>
#include <cassert>
#include "vp.hpp"
#include "thls/core/constfunc_helpers.hpp"
#include "thls/tops/ct/ct_vec.hpp"
#include "thls/tops/ct/ct_vec_create.hpp"
#include "thls/tops/ct/ct_vec_permute.hpp"
#include "thls/tops/ct/ct_vec_unique.hpp"
#include "thls/tops/ct/ct_vec_algorithms.hpp"
#include "thls/tops/ct/ct_rng.hpp"
#include "thls/tops/ct/ct_rng_lcg_mod_2y32.hpp"
#include "thls/tops/ct/ct_rng_lcg_mod_p.hpp"
using namespace thls;
using namespace thls::ct;
#define EQ(a, b, m) require_eq((u128)(s128)(a), (u128)(s128)(b), m)

template<int64_t A, int64_t B> void minmax()
{
    EQ((ctMax<A, B>::val), A > B ? A : B, "ctMax is the larger argument");
    EQ((ctMin<A, B>::val), A < B ? A : B, "ctMin is the smaller argument");
}
static constexpr int64_t mx(int64_t a, int64_t b) { return a > b ? a : b; }
template<int64_t A, int64_t B, int64_t C, int64_t D> void minmax4()
{
    EQ((ctMax4<A, B, C, D>::val), mx(mx(A, B), mx(C, D)), "ctMax4 is the largest argument");
    EQ((ctMin4<A, B, C, D>::val), -mx(mx(-A, -B), mx(-C, -D)), "ctMin4 is the smallest argument");
}
template<int64_t V, int S> void shl() { EQ((ctCheckedShiftLeft<V, S>::val), (s128)V * ((s128)1 << S), "the checked shift is the exact product with the power of two"); }
template<int EA, int64_t A, int EB, int64_t B> void fix()
{
    constexpr int lo = EA < EB ? EA : EB;
    constexpr s128 a = (s128)A * ((s128)1 << (EA - lo)), b = (s128)B * ((s128)1 << (EB - lo));
    EQ((ctFixCompare<EA, A, EB, B>::val), a < b ? -1 : a > b ? 1 : 0, "fixed-point numbers are compared by their values");
    EQ((ctFixLessThan<EA, A, EB, B>::val), a < b, "ctFixLessThan");
    EQ((ctFixLessThanEquals<EA, A, EB, B>::val), a <= b, "ctFixLessThanEquals");
    EQ((ctFixEquals<EA, A, EB, B>::val), a == b, "ctFixEquals");
    EQ((ctFixGreaterThanEquals<EA, A, EB, B>::val), a >= b, "ctFixGreaterThanEquals");
    EQ((ctFixGreaterThan<EA, A, EB, B>::val), a > b, "ctFixGreaterThan");
}
H h_minmax()
{
    minmax<0, 0>(); minmax<1, 2>(); minmax<2, 1>(); minmax<-1, 1>(); minmax<1, -1>(); minmax<-5, -6>(); minmax<-6, -5>();
    minmax<INT64_MAX, INT64_MIN>(); minmax<INT64_MIN, INT64_MAX>(); minmax<((int64_t)1 << 40), ((int64_t)1 << 33)>(); minmax<-((int64_t)1 << 32), 0>();
    minmax4<1, 2, 3, 4>(); minmax4<4, 3, 2, 1>(); minmax4<2, 4, 1, 3>(); minmax4<3, 1, 4, 2>(); minmax4<-1, 0, 1, -2>(); minmax4<5, 5, 5, 5>(); minmax4<-9, -8, -7, -9>();
}
H h_shift() { shl<1, 0>(); shl<1, 62>(); shl<-1, 63>(); shl<-1, 5>(); shl<0, 63>(); shl<12345, 40>(); shl<-12345, 40>(); shl<((int64_t)1 << 40), 22>(); }
H h_fixcompare()
{
    fix<0, 1, 0, 1>(); fix<0, 1, 0, 2>(); fix<0, 2, 0, 1>(); fix<1, 1, 0, 2>(); fix<0, 2, 1, 1>(); fix<1, 1, 0, 3>(); fix<0, 3, 1, 1>(); fix<0, 1, 1, 1>(); fix<1, 1, 0, 1>();
    fix<-3, 7, 2, 0>(); fix<2, 0, -3, 7>(); fix<-4, -16, 0, -1>(); fix<0, -1, -4, -16>(); fix<-4, -17, 0, -1>(); fix<0, -1, -4, -17>(); fix<-4, -15, 0, -1>(); fix<0, -1, -4, -15>();
    fix<20, 1, -20, ((int64_t)1 << 40)>(); fix<20, 1, -20, ((int64_t)1 << 40) + 1>(); fix<-20, ((int64_t)1 << 40) - 1, 20, 1>(); fix<5, 0, -7, 0>(); fix<3, -1, 3, 1>(); fix<3, 1, 9, -1>();
}
// ---- vectors ----
template<int... X> struct L { static constexpr int n = sizeof...(X); static constexpr int v[sizeof...(X) ? sizeof...(X) : 1] = {X...}; };
template<int I> using K = std::integral_constant<int, I>;
template<class T, int I, int... X> struct fill { typedef T type; };
template<class T, int I, int X, int... R> struct fill<T, I, X, R...> { typedef typename fill<typename ct_vec_write<I, K<X>, T>::type, I + 1, R...>::type type; };
template<class Lst> struct vec;
template<int... X> struct vec<L<X...>> { typedef typename fill<typename create_ct_vec<sizeof...(X), K<-7>>::type, 0, X...>::type type; };
template<class V, int I> constexpr int at() { return ct_vec_read<I, V>::type::value; }
template<class V, int... I> static void same(const int *w, int n, std::integer_sequence<int, I...>, const char *m)
{
    require_eq(V::N, n, "length of the vector");
    (EQ((at<V, I>()), w[I], m), ...);
}
template<class V, int N> static void is(const int *w, const char *m) { static_assert(N <= V::N, "vp witness: the vector is shorter than expected"); same<V>(w, N, std::make_integer_sequence<int, N>(), m); }
template<int N> void create()
{
    typedef typename create_ct_vec<N, K<42>>::type V;
    int w[N]; for (int i = 0; i < N; i++) w[i] = 42;
    is<V, N>(w, "a created vector holds its value everywhere");
    typedef typename create_ct_vec_rotation<1, N>::type R1; for (int i = 0; i < N; i++) w[i] = (i + 1) % N;
    is<R1, N>(w, "rotation by one");
    typedef typename create_ct_vec_rotation<0, N>::type R0; for (int i = 0; i < N; i++) w[i] = i;
    is<R0, N>(w, "rotation by none");
    typedef typename create_ct_vec_rotation<3, N>::type R3; for (int i = 0; i < N; i++) w[i] = (i + 3) % N;
    is<R3, N>(w, "rotation by three");
}
template<class Lst, int I, int J> void rw()
{
    typedef typename vec<Lst>::type V;
    constexpr int N = Lst::n;
    int w[N]; for (int i = 0; i < N; i++) w[i] = Lst::v[i];
    is<V, N>(w, "every element written is read back");
    w[I] = 99; is<typename ct_vec_write<I, K<99>, V>::type, N>(w, "a write changes its element and no other");
    for (int i = 0; i < N; i++) w[i] = Lst::v[i];
    { int t = w[I]; w[I] = w[J]; w[J] = t; }
    is<typename ct_vec_swap<I, J, V>::type, N>(w, "a swap exchanges its two elements and no other");
}
template<class Lst> void uniq()
{
    int w[2 * Lst::n + 4] = {}, n = 0;
    for (int lo = -100; lo <= 100; lo++) { bool f = false; for (int i = 0; i < Lst::n; i++) if (Lst::v[i] == lo) f = true; if (f) w[n++] = lo; }
    typedef typename ct_vec_unique<typename vec<Lst>::type>::type U;
    require_eq(U::N, n, "number of distinct elements");
    is<U, (U::N < 2 * Lst::n ? U::N : 2 * Lst::n)>(w, "the distinct elements in increasing order");
}
template<class Rng, uint64_t A, uint64_t C, uint64_t M, int N> void permute(uint64_t s)
{
    typedef typename create_ct_vec_rotation<0, N>::type V;
    typedef ct_vec_permute<Rng, V> P;
    int w[N]; for (int i = 0; i < N; i++) w[i] = i;
    for (int j = N; j > 1; j--) { int k = (int)(s >> 16) % j; int t = w[j - 1]; w[j - 1] = w[k]; w[k] = t; s = (uint64_t)(((u128)s * A + C) % M); }
    is<typename P::type, N>(w, "the permutation the generator's values select");
    require_eq(P::rng::value, s, "the generator after the permutation");
}
struct Visit { u128 *acc; template<class C> void operator()(int off, const C *) { *acc = *acc * 1000 + off * 10 + C::value; } };
struct MR {
    template<class A, class B> struct reduce_type { typedef u128 type; };
    template<int off, class V> struct map_type { typedef u128 type; };
    template<int off, class V> u128 map() const { return ((u128)1 << 64) | (off * 10 + V::value); }
    u128 reduce(u128 a, u128 b) const // (count, digest of the sequence): associative, not commutative
    {
        uint64_t na = (uint64_t)(a >> 64), nb = (uint64_t)(b >> 64), x = (uint64_t)a, y = (uint64_t)b;
        for (uint64_t i = 0; i < nb; i++) x *= 131;
        return ((u128)(na + nb) << 64) | (uint64_t)(x + y);
    }
};
template<class Lst> void algo()
{
    typedef typename vec<Lst>::type V;
    u128 acc = 0, want = 0; uint64_t dig = 0;
    ct_vec_for_each<V>(Visit{&acc});
    for (int i = 0; i < Lst::n; i++) { want = want * 1000 + i * 10 + Lst::v[i]; dig = dig * 131 + (i * 10 + Lst::v[i]); }
    require_eq(acc, want, "for_each visits every element once, in order, with its index");
    require_eq(ct_vec_map_reduce<V>(MR()), ((u128)Lst::n << 64) | dig, "map_reduce combines the mapped elements in order");
}
H h_create() { create<1>(); create<2>(); create<3>(); create<4>(); create<5>(); create<7>(); create<8>(); create<13>(); create<16>(); create<31>(); }
H h_readwrite()
{
    rw<L<5>, 0, 0>(); rw<L<5, 6>, 0, 1>(); rw<L<5, 6>, 1, 0>(); rw<L<5, 6>, 1, 1>(); rw<L<1, 2, 3>, 0, 2>(); rw<L<1, 2, 3>, 1, 2>(); rw<L<1, 2, 3>, 2, 0>(); rw<L<1, 2, 3>, 1, 0>();
    rw<L<4, 3, 2, 1, 0>, 0, 4>(); rw<L<4, 3, 2, 1, 0>, 4, 2>(); rw<L<4, 3, 2, 1, 0>, 1, 2>(); rw<L<4, 3, 2, 1, 0>, 3, 3>(); rw<L<9, -9, 8, -8, 7, -7, 6, -6, 5>, 0, 8>(); rw<L<9, -9, 8, -8, 7, -7, 6, -6, 5>, 4, 3>();
    rw<L<9, -9, 8, -8, 7, -7, 6, -6, 5>, 7, 1>(); rw<L<9, -9, 8, -8, 7, -7, 6, -6, 5>, 5, 6>(); rw<L<9, -9, 8, -8, 7, -7, 6, -6, 5>, 2, 2>();
}
H h_unique()
{
    uniq<L<1>>(); uniq<L<1, 1>>(); uniq<L<2, 1>>(); uniq<L<1, 2>>(); uniq<L<3, 1, 2>>(); uniq<L<3, 3, 3, 3>>(); uniq<L<0, 5, 0, 5, 0>>(); uniq<L<-1, 4, -1, 7, 4, 0>>();
    uniq<L<8, 7, 6, 5, 4, 3, 2, 1>>(); uniq<L<1, 2, 3, 4, 5, 6, 7, 8, 9>>(); uniq<L<15, 0, 15, 0, 3, 3, 9>>(); uniq<L<-5, -4, -5, 100, -100>>();
}
H h_algorithms() { algo<L<1>>(); algo<L<1, 2>>(); algo<L<3, 2, 1>>(); algo<L<4, 0, 9, 5>>(); algo<L<4, 0, 9, 5, 5>>(); algo<L<1, 2, 3, 4, 5, 6, 7>>(); algo<L<1, 9, 2, 8, 3, 7, 4, 6, 5, 5, 0, 1>>(); }
// ---- generators ----
static constexpr u128 mulmod(u128 a, u128 b, u128 m) { return a * b % m; }
template<class Rng> struct params;
template<uint32_t X, uint32_t A, uint32_t C> struct params<lcg_mod_2y32_state<X, A, C>> { static constexpr u128 a = 1664525, c = 1013904223, m = (u128)1 << 32; };
template<uint32_t X, uint32_t M> struct params<lcg_mod_p_state<X, lcg_mod_p_A1, M>> { static constexpr u128 a = 1588635695, c = 0, m = 4294967291u; };
template<uint32_t X, uint32_t M> struct params<lcg_mod_p_state<X, lcg_mod_p_A2, M>> { static constexpr u128 a = 16807, c = 0, m = 2147483647u; };
// k applications of x -> a x + c, by squaring the affine map
static constexpr u128 jump(u128 x, u128 a, u128 c, u128 m, uint64_t k)
{
    u128 ra = 1, rc = 0;
    while (k) { if (k & 1) { rc = (mulmod(a, rc, m) + c) % m; ra = mulmod(a, ra, m); } c = (mulmod(a, c, m) + c) % m; a = mulmod(a, a, m); k >>= 1; }
    return (mulmod(ra, x, m) + rc) % m;
}
template<class Rng, int D> void skip()
{
    typedef params<Rng> Q;
    u128 got = skip_by<Rng, D>::type::value;
    if (D >= 0) require_eq(got, jump(Rng::value, Q::a, Q::c, Q::m, D), "skipping d values is d steps of the generator");
    else require_eq(jump(got, Q::a, Q::c, Q::m, (uint64_t)-(int64_t)D), Rng::value, "skipping back and stepping forward again returns to the start");
    EQ((sample_at<Rng, D>::value), got, "the value sampled at a distance is the value after skipping it");
}
template<class Rng> void gen()
{
    skip<Rng, 0>(); skip<Rng, 1>(); skip<Rng, 2>(); skip<Rng, 3>(); skip<Rng, 4>(); skip<Rng, 5>(); skip<Rng, 6>(); skip<Rng, 7>(); skip<Rng, 8>(); skip<Rng, 9>();
    skip<Rng, 100>(); skip<Rng, 255>(); skip<Rng, 256>(); skip<Rng, 19937>(); skip<Rng, (1 << 24)>(); skip<Rng, (1 << 30) + 12345>(); skip<Rng, 2147483647>();
    skip<Rng, -1>(); skip<Rng, -2>(); skip<Rng, -3>(); skip<Rng, -4>(); skip<Rng, -5>(); skip<Rng, -64>(); skip<Rng, -19937>(); skip<Rng, -(1 << 24)>(); skip<Rng, -2147483647>();
}
H h_lcg_2y32() { gen<make_quick_and_dirty<>::type>(); gen<make_quick_and_dirty<0>::type>(); gen<make_quick_and_dirty<4294967295u>::type>(); gen<make_quick_and_dirty<1>::type>(); EQ(make_quick_and_dirty<77>::type::value, 77, "the seed is the first value"); }
H h_lcg_2y32m5() { gen<make_lcg_mod_2y32m5<>::type>(); gen<make_lcg_mod_2y32m5<1>::type>(); gen<make_lcg_mod_2y32m5<4294967290u>::type>(); EQ(make_lcg_mod_2y32m5<4294967292u>::type::value, 1, "the seed is reduced by the modulus"); }
H h_minstd() { gen<make_minstdrand0<>::type>(); gen<make_minstdrand0<1>::type>(); gen<make_minstdrand0<2147483646u>::type>(); EQ(make_minstdrand0<2147483649u>::type::value, 2, "the seed is reduced by the modulus"); }
H h_permute()
{
    permute<make_quick_and_dirty<5>::type, 1664525, 1013904223, ((uint64_t)1 << 32), 2>(5);
    permute<make_quick_and_dirty<3000000000u>::type, 1664525, 1013904223, ((uint64_t)1 << 32), 3>(3000000000u);
    permute<make_quick_and_dirty<>::type, 1664525, 1013904223, ((uint64_t)1 << 32), 8>(949333985);
    permute<make_quick_and_dirty<4294967295u>::type, 1664525, 1013904223, ((uint64_t)1 << 32), 13>(4294967295u);
    permute<make_quick_and_dirty<1>::type, 1664525, 1013904223, ((uint64_t)1 << 32), 32>(1);
    permute<make_minstdrand0<>::type, 16807, 0, 2147483647u, 9>(2013771743);
    permute<make_lcg_mod_2y32m5<>::type, 1588635695, 0, 4294967291u, 9>(3922919429u);
}
