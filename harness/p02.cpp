// Fixed-width unsigned integers: every operation against integers modulo 2^W.
#include "vp.hpp"
using namespace vp;
static constexpr u128 ones(int w) { return w <= 0 ? 0 : ~(u128)0 >> (128 - w); }
template<int W> static inline void eq(const fw_uint<W> &got, u128 want, const char *m) { require_eq(raw(got), want, m); }
template<int W> struct Op { u128 v; Op(const char *n) : v(var(W, n)) {} fw_uint<W> f() const { return mk<W>(v); } };

template<int W> static inline void arith()
{
    Op<W> a("a"), b("b");
    eq<W>(a.f() + b.f(), (a.v + b.v) & ones(W), "a + b mod 2^W");
    eq<W>(a.f() - b.f(), (a.v - b.v) & ones(W), "a - b mod 2^W");
    eq<W>(~a.f(), ones(W) - a.v, "~a");
    fw_uint<1> c(mk<1>(var(1, "c")));
    eq<W>(add_with_cin(a.f(), b.f(), c), (a.v + b.v + raw(c)) & ones(W), "a + b + cin mod 2^W");
    eq<W>(add_cin(a.f(), c), (a.v + raw(c)) & ones(W), "a + cin mod 2^W");
}
template<int W> static inline void addsub()
{
    Op<W> a("a"), b("b"); int s = vp_choose(2, "doSub");
    eq<W>(add_sub(fw_uint<1>(s), a.f(), b.f()), (s ? a.v - b.v : a.v + b.v) & ones(W), "add_sub");
}
template<int W> static inline void bits()
{
    // one bit position at a time: the bits above and below it are arbitrary
    int i = vp_choose(W, "bit"), x = vp_choose(2, "bit of a"), y = vp_choose(2, "bit of b");
    u128 ah = var(W, "a.above") & ones(W - 1 - i), al = var(W, "a.below") & ones(i);
    u128 bh = var(W, "b.above") & ones(W - 1 - i), bl = var(W, "b.below") & ones(i);
    fw_uint<W> a = mk<W>((((ah << 1) | x) << i) | al), b = mk<W>((((bh << 1) | y) << i) | bl);
    require_eq((raw(a & b) >> i) & 1, x & y, "a & b");
    require_eq((raw(a | b) >> i) & 1, x | y, "a | b");
    require_eq((raw(a ^ b) >> i) & 1, x ^ y, "a ^ b");
    if (i == W - 1 && W < 128) { require_eq(raw(a & b) >> (W & 127), 0, "a & b stays below 2^W"); require_eq(raw(a | b) >> (W & 127), 0, "a | b stays below 2^W"); require_eq(raw(a ^ b) >> (W & 127), 0, "a ^ b stays below 2^W"); }
}
template<int W> static inline void withint()
{
    Op<W> a("a");
    constexpr int M = W >= 31 ? 0x7fffffff : (1 << W) - 1;
    static const int ks[] = {0, 1, M, M / 2, M / 3};
    int k = ks[vp_choose(5, "constant")];
    eq<W>(a.f() + k, (a.v + (u128)k) & ones(W), "a + int");
    eq<W>(a.f() - k, (a.v - (u128)k) & ones(W), "a - int");
    eq<W>(a.f() & k, a.v & (u128)k, "a & int");
    eq<W>(a.f() | k, a.v | (u128)k, "a | int");
    eq<W>(a.f() ^ k, a.v ^ (u128)k, "a ^ int");
    eq<1>(a.f() < k, a.v < (u128)k, "a < int");
    eq<1>(a.f() <= k, a.v <= (u128)k, "a <= int");
    eq<1>(a.f() == k, a.v == (u128)k, "a == int");
    eq<1>(a.f() >= k, a.v >= (u128)k, "a >= int");
    eq<1>(a.f() > k, a.v > (u128)k, "a > int");
    eq<1>(a.f() != k, a.v != (u128)k, "a != int");
    eq<W>(fw_uint<W>(k), k, "from int");
    eq<W>(cg<W>(k), k, "cg");
}
template<int W> static inline void compare()
{
    Op<W> a("a"), b("b"); int k = vp_choose(6, "predicate");
    switch (k) {
        case 0: eq<1>(a.f() < b.f(), a.v < b.v, "a < b"); break;
        case 1: eq<1>(a.f() <= b.f(), a.v <= b.v, "a <= b"); break;
        case 2: eq<1>(a.f() == b.f(), a.v == b.v, "a == b"); break;
        case 3: eq<1>(a.f() >= b.f(), a.v >= b.v, "a >= b"); break;
        case 4: eq<1>(a.f() > b.f(), a.v > b.v, "a > b"); break;
        case 5: eq<1>(a.f() != b.f(), a.v != b.v, "a != b"); break;
    }
}
template<int W> static inline void shift()
{
    Op<W> a("a"); int d = vp_choose(W, "distance");
    eq<W>(a.f() << d, (a.v << d) & ones(W), "a << d mod 2^W");
    eq<W>(a.f() >> d, a.v >> d, "a >> d");
}
template<int W, int HI, int LO> static inline void bitsOf(const Op<W> &a)
{
    eq<HI - LO + 1>(get_bits<HI, LO>(a.f()), (a.v >> LO) & ones(HI - LO + 1), "get_bits");
    eq<1>(get_bit<HI>(a.f()), (a.v >> HI) & 1, "get_bit"); eq<1>(get_bit<LO>(a.f()), (a.v >> LO) & 1, "get_bit");
}
template<int W, int B> static inline void ends(const Op<W> &a)
{
    eq<B>(take_lsbs<B>(a.f()), a.v & ones(B), "take_lsbs");
    eq<W - B>(drop_lsbs<B>(a.f()), B == 128 ? 0 : a.v >> (B & 127), "drop_lsbs");
    eq<B>(take_msbs<B>(a.f()), B == 0 ? 0 : a.v >> (W - B), "take_msbs");
    eq<W - B>(drop_msbs<B>(a.f()), a.v & ones(W - B), "drop_msbs");
}
template<int W, int P> static inline void padN(const Op<W> &a)
{
    if constexpr (W + P <= 128) {
        eq<W + P>(zpad_hi<P>(a.f()), a.v, "zpad_hi");
        eq<W + P>(zpad_lo<P>(a.f()), a.v << P, "zpad_lo");
        eq<W + P>(opad_hi<P>(a.f()), a.v | (P ? ones(P) << (W & 127) : 0), "opad_hi");
        eq<W + P>(opad_lo<P>(a.f()), (a.v << P) | ones(P), "opad_lo");
        eq<W + P>(extu<W + P>(a.f()), a.v, "extu");
    }
}
template<int W> static inline void slices()
{
    Op<W> a("a");
    bitsOf<W, W - 1, 0>(a); bitsOf<W, 0, 0>(a); bitsOf<W, W - 1, W - 1>(a); bitsOf<W, W - 1, W / 2>(a); bitsOf<W, W / 2, 0>(a);
    if constexpr (W > 2) { bitsOf<W, W - 2, 1>(a); bitsOf<W, 2 * W / 3, W / 3>(a); bitsOf<W, W - 2, 0>(a); bitsOf<W, W - 1, 1>(a); }
    if constexpr (W > 32) { bitsOf<W, 32, 1>(a); bitsOf<W, 31, 0>(a); bitsOf<W, 32, 0>(a); bitsOf<W, 32, 31>(a); }
    if constexpr (W > 64) { bitsOf<W, 64, 1>(a); bitsOf<W, 63, 0>(a); bitsOf<W, 64, 0>(a); bitsOf<W, 64, 63>(a); bitsOf<W, 64, 32>(a); }
    ends<W, 0>(a); ends<W, 1>(a); ends<W, W / 2>(a); ends<W, W - 1>(a); ends<W, W>(a);
    if constexpr (W > 32) ends<W, 32>(a);
    if constexpr (W > 64) ends<W, 64>(a);
    eq<1>(take_lsb(a.f()), a.v & 1, "take_lsb"); eq<1>(take_msb(a.f()), a.v >> (W - 1), "take_msb");
    if constexpr (W > 1) { eq<W - 1>(drop_lsb(a.f()), a.v >> 1, "drop_lsb"); eq<W - 1>(drop_msb(a.f()), a.v & ones(W - 1), "drop_msb"); }
}
template<int W> static inline void pads()
{
    Op<W> a("a");
    padN<W, 0>(a); padN<W, 1>(a); padN<W, 7>(a); padN<W, 31>(a); padN<W, 32>(a); padN<W, 63>(a); padN<W, 64>(a);
    eq<W>(resize<W>(a.f()), a.v, "resize");
    eq<1>(resize<1>(a.f()), a.v & 1, "resize"); eq<128>(resize<128>(a.f()), a.v, "resize"); eq<32>(resize<32>(a.f()), a.v & ones(32), "resize"); eq<33>(resize<33>(a.f()), a.v & ones(33), "resize"); eq<64>(resize<64>(a.f()), a.v & ones(64), "resize"); eq<65>(resize<65>(a.f()), a.v & ones(65), "resize");
    eq<W>(checked_cast<W>(a.f()), a.v, "checked_cast to the same width");
    eq<W>(zg<W>(), 0, "zg"); eq<W>(og<W>(), ones(W), "og"); eq<W>(fw_uint<W>(), 0, "default value");
    fw_uint<W> t; t = a.f(); eq<W>(t, a.v, "assignment"); fw_uint<W> u(t); eq<W>(u, a.v, "copy");
    eq<W>(fw_uint<W>::from_bits((typename fw_uint<W>::bits_t)a.v), a.v, "from_bits");
    if constexpr (W <= 64) { eq<W>(fw_uint<W>::from_uint64((uint64_t)a.v), a.v, "from_uint64"); require_eq(a.f().to_uint64(), a.v, "to_uint64"); }
    if constexpr (W <= 31) require_eq(a.f().to_int(), a.v, "to_int");
    if constexpr (W <= 32) require_eq(a.f().to_uint32(), a.v, "to_uint32");
    if constexpr (W == 1) { require_eq(a.f().to_bool(), a.v, "to_bool"); }
}
template<int W> static inline void chooses()
{
    Op<W> v0("v0"), v1("v1"), v2("v2"), v3("v3"), v4("v4"), v5("v5"), d("default");
    int n = vp_choose(6, "conditions"), k = vp_choose(7, "first true"); if (k > n + 1) vp_stop();
    fw_uint<1> c[6]; for (int i = 0; i < 6; i++) c[i] = i < k ? fw_uint<1>(0) : i == k ? fw_uint<1>(1) : mk<1>(var(1, "c"));
    fw_uint<W> a0 = v0.f(), a1 = v1.f(), a2 = v2.f(), a3 = v3.f(), a4 = v4.f(), a5 = v5.f(), e = d.f();
    u128 w[7] = {v0.v, v1.v, v2.v, v3.v, v4.v, v5.v, d.v}; u128 want = k > n ? d.v : w[k];
    switch (n) {
        case 0: eq<W>(select(c[0], a0, e), want, "select of 1"); eq<W>(select(k == 0, a0, e), want, "select of 1 on bool"); eq<W>(copybit<W>(c[0]), k == 0 ? ones(W) : 0, "copybit"); break;
        case 1: eq<W>(select(c[0], a0, c[1], a1, e), want, "select of 2"); eq<W>(select(k == 0, a0, c[1], a1, e), want, "select of 2 on bool"); break;
        case 2: eq<W>(select(c[0], a0, c[1], a1, c[2], a2, e), want, "select of 3"); eq<W>(select(k == 0, a0, c[1], a1, k == 2, a2, e), want, "select of 3 on bool"); break;
        case 3: eq<W>(select(c[0], a0, c[1], a1, c[2], a2, c[3], a3, e), want, "select of 4"); eq<W>(select(k == 0, a0, c[1], a1, c[2], a2, k == 3, a3, e), want, "select of 4 on bool"); break;
        case 4: eq<W>(select(c[0], a0, c[1], a1, c[2], a2, c[3], a3, c[4], a4, e), want, "select of 5"); eq<W>(select(k == 0, a0, c[1], a1, c[2], a2, c[3], a3, c[4], a4, e), want, "select of 5 on bool"); break;
        case 5: eq<W>(select(c[0], a0, c[1], a1, c[2], a2, c[3], a3, c[4], a4, c[5], a5, e), want, "select of 6"); eq<W>(select(k == 0, a0, c[1], a1, c[2], a2, c[3], a3, c[4], a4, c[5], a5, e), want, "select of 6 on bool"); break;
    }
}
template<int A, int B> static inline void pair()
{
    Op<A> a("a"); Op<B> b("b");
    eq<A + B>(concat(a.f(), b.f()), (a.v << (B & 127)) | b.v, "concat of 2");
    eq<A + B>(a.f() * b.f(), a.v * b.v, "a * b exact");
    eq<A + B>(full_mul(a.f(), b.f()), a.v * b.v, "full_mul exact");
    if constexpr (A <= 64) eq<2 * A>(square(a.f()), a.v * a.v, "square exact");
}
template<int A, int B, int C, int D> static inline void quad()
{
    Op<A> a("a"); Op<B> b("b"); Op<C> c("c"); Op<D> d("d");
    eq<A + B + C>(concat(a.f(), b.f(), c.f()), (((a.v << B) | b.v) << C) | c.v, "concat of 3");
    eq<A + B + C + D>(concat(a.f(), b.f(), c.f(), d.f()), (((((a.v << B) | b.v) << C) | c.v) << D) | d.v, "concat of 4");
    eq<A>(concat(a.f()), a.v, "concat of 1");
    fw_uint<A> x[4] = {a.f(), mk<A>(var(A, "x1")), mk<A>(var(A, "x2")), mk<A>(var(A, "x3"))};
    eq<3 * A>(concat_array<3, 1>(x), (((raw(x[3]) << A) | raw(x[2])) << A) | raw(x[1]), "concat_array");
    eq<A>(concat_array<2, 2>(x), raw(x[2]), "concat_array of one");
}
#define W1(W) H h_arith_##W() { arith<W>(); } H h_addsub_##W() { addsub<W>(); } H h_bits_##W() { bits<W>(); } H h_int_##W() { withint<W>(); } H h_compare_##W() { compare<W>(); } H h_shift_##W() { shift<W>(); } H h_slices_##W() { slices<W>(); } H h_pads_##W() { pads<W>(); } H h_select_##W() { chooses<W>(); }
#define W2(A, B) H h_pair_##A##_##B() { pair<A, B>(); }
#define W4(A, B, C, D) H h_quad_##A##_##B##_##C##_##D() { quad<A, B, C, D>(); }
FORMATS
