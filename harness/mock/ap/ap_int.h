// Stand-in for Xilinx' ap_int.h: ap_(u)int<W> with the documented arithmetic (see hwint.hpp).
#pragma once
#include "../hwint.hpp"
template<int W, bool S> struct ap_range_ref {
    hw::num<W, S> *p; int hi, lo;
    template<int W2, bool S2> void to(hw::num<W2, S2> &r) const { r = hw::num<W2, S2>((*p >> lo).v & mask()); }
    typename hw::num<W, S>::U mask() const { typedef typename hw::num<W, S>::U U; return hw::num<W, S>::cut(~(U)0) >> (W - 1 - (hi - lo)); }
    typename hw::num<W, false> get() const { hw::num<W, false> r; r.v = p->shr(lo) & mask(); return r; }
    template<int W2, bool S2> ap_range_ref &operator=(const hw::num<W2, S2> &x) { p->v = (p->v & ~(mask() << lo)) | ((hw::num<W, false>(x).v & mask()) << lo); return *this; }
    operator uint64_t() const { return (uint64_t)get(); }
    uint64_t to_uint64() const { return (uint64_t)get(); } int to_int() const { return (int)get(); } unsigned long to_ulong() const { return (unsigned long)get(); } unsigned to_uint() const { return (unsigned)get(); }
};
template<int W, bool S> struct ap_bit_ref { hw::num<W, S> *p; int i; operator bool() const { return (p->v >> i) & 1; } bool to_bool() const { return *this; } template<class T> ap_bit_ref &operator=(const T &b) { typedef typename hw::num<W, S>::U U; p->v = (p->v & ~((U)1 << i)) | ((U)(bool)b << i); return *this; } };
template<int W, bool S> struct ap_base : hw::num<W, S> {
    typedef hw::num<W, S> B; typedef typename B::U U;
    ap_base() {} ap_base(const ap_base &o) : B(o) {} ap_base &operator=(const ap_base &o) { this->v = o.v; return *this; }
    template<int W2, bool S2> ap_base(const hw::num<W2, S2> &o) : B(o) {}
    template<int W2, bool S2> ap_base(const ap_range_ref<W2, S2> &o) : B(o.get()) {}
    template<int W2, bool S2> ap_base(const ap_bit_ref<W2, S2> &o) : B((bool)o) {}
    template<class T, class = typename std::enable_if<hw::native<T>::value>::type> ap_base(T x) : B(x) {}
    explicit ap_base(const char *); explicit ap_base(const char *, signed char);
    ap_range_ref<W, S> range(int hi, int lo) const { return ap_range_ref<W, S>{const_cast<ap_base *>(this), hi, lo}; }
    ap_range_ref<W, S> range() const { return range(W - 1, 0); }
    ap_range_ref<W, S> operator()(int hi, int lo) const { return range(hi, lo); }
    ap_bit_ref<W, S> operator[](int i) const { return ap_bit_ref<W, S>{const_cast<ap_base *>(this), i}; }
    bool test(int i) const { return (this->v >> i) & 1; } bool get_bit(int i) const { return test(i); }
    void set_bit(int i, bool b) { this->v = (this->v & ~((U)1 << i)) | ((U)b << i); } void set(int i) { set_bit(i, true); } void clear(int i) { set_bit(i, false); }
    ap_base<W, S> operator~() const { ap_base r; r.v = B::cut(~this->v); return r; }
    bool and_reduce() const { return this->v == B::cut(~(U)0); } bool or_reduce() const { return this->v != 0; }
    template<int W2, bool S2> ap_base<W + W2, false> concat(const ap_base<W2, S2> &o) const { ap_base<W + W2, false> r; typedef typename hw::num<W + W2, false>::U U2; r.v = ((U2)this->v << W2) | (U2)o.v; return r; }
};
template<int A, bool SA, int B, bool SB> ap_base<A + B, false> operator,(const ap_base<A, SA> &a, const ap_base<B, SB> &b) { return a.concat(b); }
template<int W> struct ap_uint : ap_base<W, false> { using ap_base<W, false>::ap_base; ap_uint() {} ap_uint(const ap_uint &o) : ap_base<W, false>(o) {} ap_uint &operator=(const ap_uint &o) { this->v = o.v; return *this; } };
template<int W> struct ap_int : ap_base<W, true> { using ap_base<W, true>::ap_base; ap_int() {} ap_int(const ap_int &o) : ap_base<W, true>(o) {} ap_int &operator=(const ap_int &o) { this->v = o.v; return *this; } };
