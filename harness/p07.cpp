#include "div.hpp"
#include DIVHDR
using namespace vp;
#define A(E, F) H h_divspec_##E##_##F() { div_special<E, F, E, F>([](const fp_flopoco<E, F> &a, const fp_flopoco<E, F> &b) { return DIVOP(E, F, a, b); }); }
#define M(EX, FX, EY, FY) H h_divspecmixed_##EX##_##FX##__##EY##_##FY() { constexpr int E = EX > EY ? EX : EY, F = FX > FY ? FX : FY; \
    div_special<EX, FX, EY, FY>([](const fp_flopoco<EX, FX> &a, const fp_flopoco<EY, FY> &b) { return DIVOP(E, F, a, b); }); }
#define I(E, F) H h_invspec_##E##_##F() { inv_special<E, F>([](const fp_flopoco<E, F> &a) { return INVOP(E, F, a); }); }
FORMATS
