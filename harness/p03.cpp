#include "add.hpp"
#include ADDHDR
using namespace vp;
#define A(E, F) H h_spec_##E##_##F() { add_special<E, F, E, F>([](const fp_flopoco<E, F> &a, const fp_flopoco<E, F> &b) { return ADDOP(E, F, E, F, E, F, a, b); }); }
#define M(EX, FX, EY, FY) H h_specmixed_##EX##_##FX##__##EY##_##FY() { constexpr int E = EX > EY ? EX : EY, F = FX > FY ? FX : FY; \
    add_special<EX, FX, EY, FY>([](const fp_flopoco<EX, FX> &a, const fp_flopoco<EY, FY> &b) { return ADDOP(E, F, EX, FX, EY, FY, a, b); }); }
FORMATS
