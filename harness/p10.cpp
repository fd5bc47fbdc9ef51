// Width conversion between packed formats.
#include "vp.hpp"
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/fp_flopoco_convert.hpp"
#include "thls/tops/fp_promote.hpp"
using namespace vp;
template<int ER, int FR, int EX, int FX, class OP> static inline void conv(OP op)
{
    int c = vp_choose(4, "class");
    Fl<EX, FX> x{(u128)c, var(1, "sign"), var(EX, "exp"), var(FX, "frac")};
    fp_flopoco<ER, FR> g = op(x.fp());
    if (c == 1) {
        int64_t d = ((1ll << (ER - 1)) - 1) - ((1ll << (EX - 1)) - 1);
        Rounded w = rne<ER, FR>(x.sign, (((u128)1) << FX) + x.frac, (int64_t)(uint64_t)x.exp + d - FX);
        check(g, w, "class of a converted normal number", "sign of a converted normal number", "exponent", "fraction");
    } else {
        Fl<ER, FR> r = fields(g);
        require_eq(r.flags, c, c == 0 ? "zero stays zero" : c == 2 ? "infinity stays infinity" : "NaN stays NaN");
        if (c != 3) require_eq(r.sign, x.sign, "sign of a special value");
    }
}
#define C(ER, FR, EX, FX) \
    H h_convert_##EX##_##FX##__##ER##_##FR() { conv<ER, FR, EX, FX>([](const fp_flopoco<EX, FX> &a) { fp_flopoco<ER, FR> r; thls::convert(r, a); return r; }); } \
    H h_convertval_##EX##_##FX##__##ER##_##FR() { conv<ER, FR, EX, FX>([](const fp_flopoco<EX, FX> &a) { return thls::convert<ER, FR>(a); }); } \
    H h_flopoco_convert_##EX##_##FX##__##ER##_##FR() { conv<ER, FR, EX, FX>([](const fp_flopoco<EX, FX> &a) { fp_flopoco<ER, FR> r; thls::flopoco_convert(r, a); return r; }); }
#define P(ER, FR, EX, FX) H h_promote_##EX##_##FX##__##ER##_##FR() { conv<ER, FR, EX, FX>([](const fp_flopoco<EX, FX> &a) { fp_flopoco<ER, FR> r; thls::promote(r, a); return r; }); }
FORMATS
