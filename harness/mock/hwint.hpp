// The arithmetic of the vendors' arbitrary-width integers, as documented (Xilinx UG902 "Arbitrary Precision Integers", Mentor
// "Algorithmic C Datatypes"): a value of W bits, signed or not; an operator's result is as wide as its exact value needs
// (shifts, complements and the bitwise operators excepted, see there); conversion to a narrower type drops the upper bits.
#pragma once
#include <stdint.h>
#include <string.h>
#include <type_traits>
namespace hw {
template<int W, bool S> struct num;
template<int W> struct store { // machine type that holds W bits
    static constexpr int bits = W <= 128 ? 128 : W <= 160 ? 160 : 240;
    typedef typename std::conditional<bits == 128, unsigned __int128, typename std::conditional<bits == 160, unsigned _BitInt(160), unsigned _BitInt(240)>::type>::type u;
    typedef typename std::conditional<bits == 128, signed __int128, typename std::conditional<bits == 160, signed _BitInt(160), signed _BitInt(240)>::type>::type s;
};
template<class T> struct native : std::false_type {};
#define HW_N(t, w, s) template<> struct native<t> : std::true_type { static constexpr int width = w; static const bool sgn = s; typedef num<w, s> as; };
HW_N(bool, 1, false) HW_N(char, 8, true) HW_N(signed char, 8, true) HW_N(unsigned char, 8, false) HW_N(short, 16, true) HW_N(unsigned short, 16, false) HW_N(int, 32, true) HW_N(unsigned, 32, false)
HW_N(long, 64, true) HW_N(unsigned long, 64, false) HW_N(long long, 64, true) HW_N(unsigned long long, 64, false) HW_N(__int128, 128, true) HW_N(unsigned __int128, 128, false)
#undef HW_N
static constexpr int mx(int a, int b) { return a > b ? a : b; }
template<int W, bool S> struct num {
    static_assert(W >= 1 && W <= 240, "width");
    typedef typename store<W>::u U; typedef typename store<W>::s I; static constexpr int width = W, spare = store<W>::bits - W;
    U v; // the W bits
    static U cut(U x) { return spare == 0 ? x : x & (~(U)0 >> spare); }
    num() : v(0) {}  // copies are spelled out so that they stay scalar in the IR
    num(const num &o) : v(o.v) {} num &operator=(const num &o) { v = o.v; return *this; }
    template<class T> T ext() const // the value, in a wider machine type
    { if (!S) return (T)v; U h = (v >> (W - 1)) & 1; return (T)v - (((T)h) << (W - 1)) - (((T)h) << (W - 1)); }
    template<int W2, bool S2> num(const num<W2, S2> &o) : v(cut((U)o.template ext<typename store<mx(W, W2)>::u>())) {}
    template<class T, class = typename std::enable_if<native<T>::value>::type> num(T x) : v(cut((U)x)) {}
    template<class T, class = typename std::enable_if<native<T>::value>::type> explicit operator T() const { return (T)ext<typename store<W>::u>(); }
    uint64_t to_uint64() const { return (uint64_t)ext<U>(); } int64_t to_int64() const { return (int64_t)ext<U>(); } unsigned long to_ulong() const { return (unsigned long)ext<U>(); } long to_long() const { return (long)ext<U>(); }
    int to_int() const { return (int)ext<U>(); } unsigned to_uint() const { return (unsigned)ext<U>(); } bool to_bool() const { return v != 0; }
    int length() const { return W; }
    bool operator!() const { return v == 0; }
    template<int W2, bool S2> struct R { // result types of a binary operator
        static constexpr int logic = mx(W + (S2 && !S), W2 + (S && !S2)), sum = logic + 1, prod = W + W2;
        static const bool sgn = S || S2;
    };
    // a distance outside [0,W), which the library excludes, leaves nothing (ap_int would reverse the direction of a negative one)
    U shl(int d) const { U r = cut(v << (store<W>::bits == 128 ? d & 127 : d)); return (unsigned)d >= (unsigned)W ? (U)0 : r; }
    U shr(int d) const { int e = store<W>::bits == 128 ? d & 127 : d; U r = S ? cut((U)(ext<I>() >> e)) : v >> e; return (unsigned)d >= (unsigned)W ? (U)0 : r; }
    static num raw(U x) { num r; r.v = x; return r; }
    num<W + 1, true> operator-() const { typedef typename num<W + 1, true>::U V; return num<W + 1, true>::raw(num<W + 1, true>::cut((V)0 - ext<V>())); }
    num &operator++() { v = cut(v + 1); return *this; } num &operator--() { v = cut(v - 1); return *this; }
};
template<class T> struct is_num : std::false_type {};
template<int W, bool S> struct is_num<num<W, S>> : std::true_type {};
#define HW_BIN(op, w, s) \
    template<int A, bool SA, int B, bool SB> num<num<A, SA>::template R<B, SB>::w, s> operator op(const num<A, SA> &a, const num<B, SB> &b) \
    { typedef num<num<A, SA>::template R<B, SB>::w, s> N; typedef typename N::U U; return N::raw(N::cut(a.template ext<U>() op b.template ext<U>())); } \
    template<int A, bool SA, class T, class = typename std::enable_if<native<T>::value>::type> auto operator op(const num<A, SA> &a, T b) { return a op typename native<T>::as(b); } \
    template<int A, bool SA, class T, class = typename std::enable_if<native<T>::value>::type> auto operator op(T b, const num<A, SA> &a) { return typename native<T>::as(b) op a; }
HW_BIN(+, sum, (SA || SB)) HW_BIN(-, sum, true) HW_BIN(*, prod, (SA || SB)) HW_BIN(&, logic, (SA || SB)) HW_BIN(|, logic, (SA || SB)) HW_BIN(^, logic, (SA || SB))
#undef HW_BIN
#define HW_CMP(op) \
    template<int A, bool SA, int B, bool SB> bool operator op(const num<A, SA> &a, const num<B, SB> &b) \
    { typedef typename store<num<A, SA>::template R<B, SB>::sum>::s I; typedef typename store<(A > B ? A : B)>::u U; if (!SA && !SB) return (U)a.v op (U)b.v; return a.template ext<I>() op b.template ext<I>(); } \
    template<int A, bool SA, class T, class = typename std::enable_if<native<T>::value>::type> bool operator op(const num<A, SA> &a, T b) { return a op typename native<T>::as(b); } \
    template<int A, bool SA, class T, class = typename std::enable_if<native<T>::value>::type> bool operator op(T b, const num<A, SA> &a) { return typename native<T>::as(b) op a; }
HW_CMP(<) HW_CMP(<=) HW_CMP(>) HW_CMP(>=) HW_CMP(==) HW_CMP(!=)
#undef HW_CMP
// shifts keep the width of the left operand
template<int A, bool SA> num<A, SA> operator<<(const num<A, SA> &a, int d) { return num<A, SA>::raw(a.shl(d)); }
template<int A, bool SA> num<A, SA> operator>>(const num<A, SA> &a, int d) { return num<A, SA>::raw(a.shr(d)); }
template<int A, bool SA, int B, bool SB> num<A, SA> operator<<(const num<A, SA> &a, const num<B, SB> &d) { return a << (int)d; }
template<int A, bool SA, int B, bool SB> num<A, SA> operator>>(const num<A, SA> &a, const num<B, SB> &d) { return a >> (int)d; }
#define HW_ASG(op) template<int A, bool SA, class T> auto operator op##=(num<A, SA> &a, const T &b) -> decltype(a op b, a) & { a = num<A, SA>(a op b); return a; }
HW_ASG(+) HW_ASG(-) HW_ASG(*) HW_ASG(&) HW_ASG(|) HW_ASG(^) HW_ASG(<<) HW_ASG(>>)
#undef HW_ASG
}
