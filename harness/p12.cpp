// Negation.
#include "vp.hpp"
#include "thls/tops/fp_flopoco_primitives.hpp"
using namespace vp;
template<int ER, int FR, int EX, int FX, class OP> static inline void negate(OP op)
{
    int c = vp_choose(4, "class");
    Fl<EX, FX> x{(u128)c, var(1, "sign"), var(EX, "exp"), var(FX, "frac")};
    Fl<ER, FR> r = fields<ER, FR>(op(x.fp()));
    if (c == 1 && !(EX == ER && FX == FR)) {
        int64_t d = ((1ll << (ER - 1)) - 1) - ((1ll << (EX - 1)) - 1);
        Rounded w = rne<ER, FR>(1 - x.sign, (((u128)1) << FX) + x.frac, (int64_t)(uint64_t)x.exp + d - FX);
        require_eq(r.flags, w.flags, "class"); require_eq(r.sign, w.sign, "sign is flipped");
        if (w.flags == 1) { require_eq(r.exp, w.exp, "exponent"); require_eq(r.frac, w.frac, "fraction"); }
        return;
    }
    require_eq(r.flags, c, "class is kept");
    if (c != 3) require_eq(r.sign, 1 - x.sign, "sign is flipped");
    if (c == 1) { require_eq(r.exp, x.exp, "exponent is kept"); require_eq(r.frac, x.frac, "fraction is kept"); }
}
template<int E, int F> static inline void twice()
{
    int c = vp_choose(4, "class");
    Fl<E, F> x{(u128)c, var(1, "sign"), var(E, "exp"), var(F, "frac")};
    fp_flopoco<E, F> v = x.fp(), r = thls::neg<E, F>(thls::neg<E, F>(v, 0), 0);
    Fl<E, F> g = fields(r);
    require_eq(g.flags, c, "twice: class");
    if (c != 3) require_eq(g.sign, x.sign, "twice: sign");
    if (c == 1) { require_eq(g.exp, x.exp, "twice: exponent"); require_eq(g.frac, x.frac, "twice: fraction"); }
}
#define A(E, F) H h_neg_##E##_##F() { negate<E, F, E, F>([](const fp_flopoco<E, F> &a) { return thls::neg<E, F>(a, 0); }); } \
    H h_negv1_##E##_##F() { negate<E, F, E, F>([](const fp_flopoco<E, F> &a) { return thls::neg_v1<E, F>(a, 0); }); } H h_negneg_##E##_##F() { twice<E, F>(); }
#define M(ER, FR, EX, FX) H h_neg_##EX##_##FX##__##ER##_##FR() { negate<ER, FR, EX, FX>([](const fp_flopoco<EX, FX> &a) { return thls::neg<ER, FR>(a, 0); }); }
FORMATS
