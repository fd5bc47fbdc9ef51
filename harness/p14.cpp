// Bit heaps and row heaps: the value of the heap is preserved through build, merge, pad, shift, compress and collapse.
#include "vp.hpp"
#undef H
#define ENTRY extern "C" __attribute__((used, noinline)) void
#include <iostream>
struct vp_sink {}; template<class T> static inline vp_sink operator<<(vp_sink s, const T &) { return s; }
namespace std { static vp_sink vp_cerr; }
#define cerr vp_cerr
#include "thls/tops/bit_heap.hpp"
#include "thls/tops/bit_heap_mul.hpp"
#include "thls/tops/row_heap.hpp"
using namespace vp;
template<int H> static inline u128 pop(const fw_uint<H> &x) { u128 s = 0; for (int i = 0; i < H; i++) s += (raw(x) >> i) & 1; return s; }
template<int H> static inline u128 value(const bit_heap_root<H> &h) { return pop<H>(h.bits); }
template<int H, class T> static inline u128 value(const bit_heap_link<H, T> &h) { return (pop<H>(h.bits) << T::width) + value(h.lsbs); }
static inline void eqm(u128 a, u128 b, int w, const char *m) { vp_require_mod(&a, &b, 16, w < 120 ? w : 120, m); }

// a heap of given column heights (most significant first), every bit a separate unknown
template<int H> static inline fw_uint<H> col() { u128 s = 0; for (int i = 0; i < H; i++) s |= var(1, "bit") << i; return mk<H>(s); }
template<int... Hs> struct Mk;
template<int H> struct Mk<H> { typedef bit_heap_root<H> T; static inline T go() { return T(col<H>()); } };
template<int H, int G, int... R> struct Mk<H, G, R...> { typedef bit_heap_link<H, typename Mk<G, R...>::T> T; static inline T go() { return T(col<H>(), Mk<G, R...>::go()); } };

template<int... Hs> static inline void squeeze()
{
    auto h = Mk<Hs...>::go(); typedef decltype(h) T;
    u128 v = value(h);
    auto c = compress(h);
    vp_require(decltype(c)::max_height <= 2, "compressed heap has at most two bits per column");
    eqm(value(c), v, T::width, "compress keeps the sum modulo 2^width");
    eqm(raw(bit_heap_collapse(c)), v, T::width, "collapse of compress is the sum modulo 2^width");
}

template<class A, class B> static inline void join(const A &a, const B &b)
{
    auto m = merge_bit_heaps(a, b);
    vp_require(decltype(m)::width == thls_ctMax(A::width, B::width), "merge keeps the larger width");
    eqm(value(m), value(a) + value(b), 128, "merge is the sum of both heaps");
    eqm(raw(bit_heap_collapse(compress(m))), value(a) + value(b), decltype(m)::width, "compressed merge is the sum of both heaps modulo 2^width");
}
template<int W> static inline void word()
{
    u128 a = var(W, "a");
    auto h = fw_uint_to_bit_heap(mk<W>(a));
    vp_require(decltype(h)::width == W && decltype(h)::max_height == 1, "a word becomes one bit per column");
    eqm(value(h), a, 128, "heap of a word has its value");
    eqm(raw(bit_heap_collapse(compress(h))), a, W, "collapse of a word's heap");
}
template<int W, int P, int S> static inline void padshift()
{
    u128 a = var(W, "a"); auto h = fw_uint_to_bit_heap(mk<W>(a));
    auto p = pad_bit_heap<W + P>(h);
    vp_require(decltype(p)::width == W + P, "padded width"); eqm(value(p), a, 128, "padding keeps the value");
    eqm(raw(bit_heap_collapse(compress(p))), a, W + P, "collapse of a padded heap");
}
template<int A, int B, int C> static inline void words3()
{
    u128 a = var(A, "a"), b = var(B, "b"), c = var(C, "c");
    auto m = merge_bit_heaps(merge_bit_heaps(fw_uint_to_bit_heap(mk<A>(a)), fw_uint_to_bit_heap(mk<B>(b))), fw_uint_to_bit_heap(mk<C>(c)));
    eqm(value(m), a + b + c, 128, "merged heap of three words");
    eqm(raw(bit_heap_collapse(compress(m))), a + b + c, decltype(m)::width, "sum of three words modulo 2^width");
}
template<int T, int A, int B> static inline void product()
{
    u128 a = var(A, "a"), b = var(B, "b");
    auto h = bit_heap_mul<T>(mk<A>(a), mk<B>(b));
    vp_require(decltype(h)::width == A + B, "product heap has the full width");
    eqm(value(h), a * b, A + B, "product heap has the value of the product");
}
template<int T, int A, int B> static inline void productFull()
{
    u128 a = var(A, "a"), b = var(B, "b");
    eqm(raw(bit_heap_collapse(compress(bit_heap_mul<T>(mk<A>(a), mk<B>(b))))), a * b, A + B, "compressed product heap is the product");
}
// row heaps: every bit a separate unknown
template<int W> static inline fw_uint<W> row() { return col<W>(); }
template<int W, int D> static inline u128 total(const row_heap_holder<W, D> &h) { u128 s = 0; for (int i = 0; i < D; i++) s += raw(h.rows[i]); return s; }
template<int W, int D> static inline void rows(bool all)
{ // all: every bit of every row unknown; else two rows unknown and the others a fixed pattern
    row_heap_holder<W, D> h; u128 v = 0;
    int x = all ? 0 : vp_choose(D, "first unknown row"), y = all ? 0 : vp_choose(D, "second unknown row"), k = all ? 0 : vp_choose(3, "pattern");
    if (!all && x >= y) vp_stop();
    const u128 pat[3] = {0x5a5a5a5a5a5a5a5bull, 0xffffffffffffffffull, 0x13579bdf2468ace1ull};
    for (int i = 0; i < D; i++) { h.rows[i] = all || i == x || i == y ? row<W>() : mk<W>((pat[k] >> (3 * i % 7)) & (~(u128)0 >> (128 - W))); v += raw(h.rows[i]); }
    auto c = compress(h);
    eqm(total(c), v, W, "row compress keeps the sum modulo 2^W");
    eqm(raw(collapse(c)), v, W, "row collapse of compress is the sum modulo 2^W");
}
template<int WA, int WB> static inline void rowsum()
{
    u128 a = var(WA, "a"), b = var(WB, "b"), c = var(WA, "c"), d = var(WB, "d");
    auto ra = fw_uint_to_row_heap(mk<WA>(a)), rc = fw_uint_to_row_heap(mk<WA>(c)); auto rb = fw_uint_to_row_heap(mk<WB>(b));
    auto s = ra + rb; eqm(total(s), a + b, 128, "sum of two row heaps");
    auto t = (ra + rc) + (rb + mk<WB>(d)); eqm(total(t), a + c + b + d, 128, "sum of row heaps");
    auto u = ra + mk<WB>(b); eqm(total(u), a + b, 128, "row heap plus word");
    auto w = (ra + rc) + mk<WB>(b); eqm(total(w), a + c + b, 128, "row heap plus word");
    vp_require(decltype(s)::depth == 2 && decltype(t)::depth == 4 && decltype(u)::depth == 2, "depth adds up");
    eqm(raw(collapse(s)), a + b, decltype(s)::width, "collapse of two rows");
}
#define C(n, ...) ENTRY h_compress_##n() { squeeze<__VA_ARGS__>(); }
#define J(n, X, Y) ENTRY h_merge_##n() { auto a = Mk<X>::go(); auto b = Mk<Y>::go(); join(a, b); }
#define K ,
#define WD(W) ENTRY h_word_##W() { word<W>(); }
#define PS(W, P, S) ENTRY h_padshift_##W##_##P##_##S() { padshift<W, P, S>(); }
#define T3(A, B, C) ENTRY h_words_##A##_##B##_##C() { words3<A, B, C>(); }
#define X(T, A, B) ENTRY h_mul_##T##_##A##_##B() { product<T, A, B>(); }
#define Y(T, A, B) ENTRY h_mulfull_##T##_##A##_##B() { productFull<T, A, B>(); }
#define R(W, D) ENTRY h_rows_##W##_##D() { rows<W, D>(true); }
#define R1(W, D) ENTRY h_rowsome_##W##_##D() { rows<W, D>(false); }
#define RS(A, B) ENTRY h_rowsum_##A##_##B() { rowsum<A, B>(); }
FORMATS
