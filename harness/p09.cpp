// Comparison predicates: every class pair, every sign, every payload.
#include "vp.hpp"
#include "thls/tops/fp_flopoco_ordering.hpp"
using namespace vp;
// an operand of class c and sign s and an integer that orders like its value (NaN: none)
template<int E, int F, int EM, int FM> struct Opd {
    fp_flopoco<E, F> v; s128 key;
    Opd(int c, int s, const char *ne, const char *nf)
    {
        Fl<E, F> f{(u128)c, (u128)s, var(E, ne), var(F, nf)};
        v = f.fp();
        s128 off = ((s128)1 << (EM - 1)) - ((s128)1 << (E - 1)); // bias difference
        s128 mag = c == 0 ? 0 : c == 2 ? (s128)1 << (EM + FM + 2) : 1 + (((s128)f.exp + off) << FM) + ((s128)f.frac << (FM - F));
        key = s ? -mag : mag;
    }
};
template<int EA, int FA, int EB, int FB, class OP> static inline void cmp(OP op, int which)
{
    constexpr int EM = EA > EB ? EA : EB, FM = FA > FB ? FA : FB;
    int ca = vp_choose(4, "a.class"), sa = vp_choose(2, "a.sign"), cb = vp_choose(4, "b.class"), sb = vp_choose(2, "b.sign");
    Opd<EA, FA, EM, FM> a(ca, sa, "a.exp", "a.frac"); Opd<EB, FB, EM, FM> b(cb, sb, "b.exp", "b.frac");
    u128 r = raw(op(a.v, b.v));
    bool w = false;
    if (ca == 3 || cb == 3) w = which == 5;
    else switch (which) {
        case 0: w = a.key < b.key; break;
        case 1: w = a.key > b.key; break;
        case 2: w = a.key <= b.key; break;
        case 3: w = a.key >= b.key; break;
        case 4: w = a.key == b.key; break;
        case 5: w = a.key != b.key; break;
    }
    require_eq(r, w, which == 0 ? "less_than" : which == 1 ? "greater_than" : which == 2 ? "less_than_equal" : which == 3 ? "greater_than_equal" : which == 4 ? "equal" : "not_equal");
}
#define ONE(n, k, EA, FA, EB, FB) H h_##n##_##EA##_##FA##__##EB##_##FB() { cmp<EA, FA, EB, FB>([](const fp_flopoco<EA, FA> &a, const fp_flopoco<EB, FB> &b) { return n(a, b); }, k); }
#define M(EA, FA, EB, FB) ONE(less_than, 0, EA, FA, EB, FB) ONE(greater_than, 1, EA, FA, EB, FB) ONE(less_than_equal, 2, EA, FA, EB, FB) ONE(greater_than_equal, 3, EA, FA, EB, FB) ONE(equal, 4, EA, FA, EB, FB) ONE(not_equal, 5, EA, FA, EB, FB)
#define A(E, F) M(E, F, E, F)
FORMATS
