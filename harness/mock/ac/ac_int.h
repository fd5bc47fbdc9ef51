// Stand-in for the Algorithmic C datatypes' ac_int.h: ac_int<W,S> with the documented arithmetic (see hwint.hpp).
#pragma once
#include "../hwint.hpp"
template<int W, bool S = true> struct ac_int : hw::num<W, S> {
    typedef hw::num<W, S> B; typedef typename B::U U;
    ac_int() {} ac_int(const ac_int &o) : B(o) {} ac_int &operator=(const ac_int &o) { this->v = o.v; return *this; }
    template<int W2, bool S2> ac_int(const hw::num<W2, S2> &o) : B(o) {}
    template<class T, class = typename std::enable_if<hw::native<T>::value>::type> ac_int(T x) : B(x) {}
    struct bitref { ac_int *p; int i; operator bool() const { return (p->v >> i) & 1; } template<class T> bitref &operator=(const T &b) { p->v = (p->v & ~((U)1 << i)) | ((U)(bool)b << i); return *this; } };
    bitref operator[](int i) const { return bitref{const_cast<ac_int *>(this), i}; }
    ac_int<W + !S, true> operator~() const { typedef typename hw::num<W + !S, true>::U U2; ac_int<W + !S, true> r; r.v = hw::num<W + !S, true>::cut(~(U2)this->template ext<U2>()); return r; }
    template<int N> ac_int<N, S> slc(int lsb) const { ac_int<N, S> r(B::raw(this->shr(lsb))); return r; }
    template<int N> ac_int<N, S> slc(unsigned lsb) const { return slc<N>((int)lsb); }
    template<int W2, bool S2> ac_int &set_slc(int lsb, const ac_int<W2, S2> &o)
    { U m = W2 >= W ? B::cut(~(U)0) : (((U)1 << (W2 % (8 * sizeof(U)))) - 1); this->v = (this->v & ~B::cut(m << lsb)) | B::cut(((U)o.v & m) << lsb); return *this; }
    bool and_reduce() const { return this->v == B::cut(~(U)0); } bool or_reduce() const { return this->v != 0; }
    void bit_fill_hex(const char *, int start = 0);
};
