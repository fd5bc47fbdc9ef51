// Reference models over the stand-in for MPFR/GMP (harness/mock).
// P23: which operation is recorded on which exact values, and what becomes of any result it may have.
// P18 (-DVP_TYPESTATE): objects are initialised, used and released in order, none is left.   P20 (-DVP_RANGE): the exponent range afterwards.
#include <mpfr.h>
#include "vp.hpp"
#include "thls/tops/fp_ieee.hpp"
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/policy_ieee_on_flopoco.hpp"
#include "thls/tops/policy_native.hpp"
using namespace vp;
#if defined(VP_TYPESTATE) || defined(VP_RANGE)
static inline void req(u128, u128, const char *) {}
#define IS23 0
#else
static inline void req(u128 a, u128 b, const char *m) { require_eq(a, b, m); }
#define IS23 1
#endif
static int g_throw; // 1: an exception is what the case calls for, 0: it is not, -1: not decided yet
static int64_t g_emin, g_emax;
static void after(int own)
{
#ifdef VP_TYPESTATE
    require_eq(vpm_live.n, own, "every multiple-precision object is released before the function returns");
#endif
#ifdef VP_RANGE
    require_eq((u128)(s128)vpm_emin, (u128)(s128)g_emin, "the least exponent is what it was before the call");
    require_eq((u128)(s128)vpm_emax, (u128)(s128)g_emax, "the greatest exponent is what it was before the call");
#endif
}
// the same comparison without a verdict, to tell the order of a commutative operation's operands
static bool is(const __mpfr_struct &x, int cls, u128 neg, u128 m, int mbits, s128 e)
{
    if (!identical(x.cls, cls)) return false;
    if (cls != VPM_NAN && !identical(x._mpfr_sign < 0, neg)) return false;
    if (cls != VPM_NUM) return true;
    int p = (int)x._mpfr_prec;
    return p >= mbits ? identical(x.m, m << (p - mbits)) && identical((u128)(s128)x.e, (u128)(e - (p - mbits))) : identical(x.m << (mbits - p), m) && identical((u128)(s128)(x.e - (mbits - p)), (u128)e);
}
template<class P> static bool is(const __mpfr_struct &x, const P &a) { return is(x, a.cls(), a.neg(), a.m(), P::f + 1, a.ex()); }
// the operation's operands in the order of the terms a, b where the order does not matter
template<class A, class B> static void arrange(vpm_op &o, const A &a, const B &b)
{
    if (!is(o.arg[0], a) && is(o.arg[0], b) && is(o.arg[1], a)) { __mpfr_struct t = o.arg[0]; o.arg[0] = o.arg[1]; o.arg[1] = t; }
}
static int g_own;
extern "C" __attribute__((used)) void vp_on_throw()
{
#if IS23
    require_eq(g_throw, 1, "an exception is thrown only for what cannot be represented, or a wrong precision");
#endif
    after(g_own);
    vp_stop();
}
static void begin(int own, int thr)
{
    int64_t a = 0, b = 0;
    vp_range(&a, 8, -1000000000, -10000000, "emin"); vp_range(&b, 8, 10000000, 1000000000, "emax");
    vpm_emin = g_emin = a; vpm_emax = g_emax = b;
    vpm_tr.n = 0; g_own = own; g_throw = thr;
}
static void done() { req(g_throw, 0, "what cannot be represented is refused"); after(g_own); }
// a multiple-precision value, by class, sign and exact magnitude
static void same(const __mpfr_struct &x, int cls, u128 neg, u128 m, int mbits, s128 e, const char *msg)
{
    req(x.cls, cls, msg);
    if (cls != VPM_NAN) req(x._mpfr_sign < 0, neg, msg);
    if (cls == VPM_NUM) {
        int p = (int)x._mpfr_prec;
        if (p >= mbits) { req(x.m, m << (p - mbits), msg); req((u128)(s128)x.e, (u128)(e - (p - mbits)), msg); }
        else { req(x.m << (mbits - p), m, msg); req((u128)(s128)(x.e - (mbits - p)), (u128)e, msg); }
    }
}
// ---- the two packed formats ----
template<int E, int F> struct Flo {
    typedef fp_flopoco<E, F> T; enum { e = E, f = F };
    Fl<E, F> x;
    T fp() const { return x.fp(); }
    static constexpr s128 bias = (((s128)1) << (E - 1)) - 1, mine = -bias, maxe = bias + 1;
    void any(const char *) { x.flags = (u128)vp_choose(4, "flags"); x.sign = var(1, "sign"); x.exp = var(E, "exp"); x.frac = var(F, "frac"); }
    int cls() const { return (int)x.flags; } u128 neg() const { return x.sign; } u128 m() const { return x.frac + (((u128)1) << F); } s128 ex() const { return (s128)x.exp - bias - F; }
    static void result(const T &r, int cls, u128 neg, u128 m, s128 top, const char *msg) // top: exponent of the leading bit
    {
        Fl<E, F> g = fields(r);
        if (cls == VPM_NUM) { if (top < mine) cls = VPM_ZERO; else if (top > maxe) cls = VPM_INF; }
        req(g.flags, cls, msg);
        if (cls != VPM_NAN) req(g.sign, neg, msg);
        if (cls == VPM_NUM) { req(g.exp, (u128)(top + bias), msg); req(g.frac, m - (((u128)1) << F), msg); }
    }
};
template<int E, int F> struct Iee {
    typedef fp_ieee<E, F> T; enum { e = E, f = F };
    u128 s, ex_, fr; int c;
    static constexpr s128 bias = (((s128)1) << (E - 1)) - 1, mine = 1 - bias, maxe = bias;
    void any(const char *)
    {
        s = var(1, "sign"); ex_ = 0; fr = 0;
        int k = vp_choose(4, "class");
        if (k == 0) { fr = var(F, "frac"); c = VPM_ZERO; }               // zero, or a subnormal number: treated as zero
        else if (k == 1) { ex_ = rangev(1, ((int64_t)1 << E) - 2, "exp"); fr = var(F, "frac"); c = VPM_NUM; }
        else { ex_ = (((u128)1) << E) - 1; c = k == 2 ? VPM_INF : VPM_NAN; if (k == 3) { fr = var(F, "frac"); vp_assume(fr != 0); } }
    }
    T fp() const { return T(mk<1 + E + F>((((s << E) + ex_) << F) + fr)); }
    int cls() const { return c; } u128 neg() const { return s; } u128 m() const { return fr + (((u128)1) << F); } s128 ex() const { return (s128)ex_ - bias - F; }
    static void result(const T &r, int cls, u128 neg, u128 m, s128 top, const char *msg)
    {
        u128 b = raw(r.bits), gf = b & ((((u128)1) << F) - 1), ge = (b >> F) & ((((u128)1) << E) - 1), gs = b >> (E + F);
        if (cls == VPM_NUM) { if (top < mine) cls = VPM_ZERO; else if (top > maxe) cls = VPM_INF; }
        if (cls != VPM_NAN) req(gs, neg, msg);
        if (cls == VPM_NUM) { req(ge, (u128)(top + bias), msg); req(gf, m - (((u128)1) << F), msg); }
        else if (cls == VPM_ZERO) { req(ge, 0, msg); req(gf, 0, msg); }
        else { req(ge, (((u128)1) << E) - 1, msg); if (cls == VPM_INF) req(gf, 0, msg); else req(gf != 0, 1, msg); }
    }
};
static void fresh(__mpfr_struct &x, int prec) { vpm_fresh(x, prec); }
template<class P> static void result(const typename P::T &r, const __mpfr_struct &v, const char *msg) { P::result(r, v.cls, v._mpfr_sign < 0, v.m, (s128)v.e + v._mpfr_prec - 1, msg); }

template<class P> void h_get()
{
    P x; x.any("x");
    mpfr_t d; mpfr_init2(d, P::f + 1);
    begin(1, 0);
    x.fp().get(d);
    req(vpm_tr.n, 0, "extraction at full precision does not round");
    same(*d, x.cls(), x.neg(), x.m(), P::f + 1, x.ex(), "the extracted number is exactly the packed value");
    done();
    mpfr_clear(d);
}
// extraction with rounding: the exact signed value is rounded once in the mode asked for
template<class P> void h_getround()
{
    P x; x.any("x");
    int p = vp_choose(2, "precision") ? 2 : P::f;
    mpfr_rnd_t mode = (mpfr_rnd_t)vp_choose(5, "mode");
    mpfr_t d; mpfr_init2(d, p);
    begin(1, 0);
    x.fp().get(d, mode);
    if (x.cls() != VPM_NUM || p >= P::f + 1) { req(vpm_tr.n, 0, "what is exact does not round"); same(*d, x.cls(), x.neg(), x.m(), P::f + 1, x.ex(), "the extracted number"); }
    else {
        req(vpm_tr.n, 1, "extraction rounds once");
        const vpm_op &o = vpm_tr.op[0];
        bool sym = mode == MPFR_RNDN || mode == MPFR_RNDZ || mode == MPFR_RNDA;
        u128 flip = (o.arg[0]._mpfr_sign < 0) != (x.neg() != 0);
        if (vp_decide((int)flip)) req(sym, 1, "the sign is there when a directed mode rounds");
        same(o.arg[0], VPM_NUM, x.neg() ^ flip, x.m(), P::f + 1, x.ex(), "what is rounded is exactly the packed value");
        req(o.rnd, mode, "it is rounded in the mode asked for");
        req(d->cls, o.res.cls, "the result is the rounded number");
        req((u128)(s128)d->_mpfr_sign, (u128)(s128)(flip ? -o.res._mpfr_sign : o.res._mpfr_sign), "the result is the rounded number");
        if (o.res.cls == VPM_NUM) { req(d->m, o.res.m, "the result is the rounded number"); req((u128)(s128)d->e, (u128)(s128)o.res.e, "the result is the rounded number"); }
    }
    done();
    mpfr_clear(d);
}
template<class P> void h_getbad()
{
    P x; x.any("x");
    mpfr_t d; mpfr_init2(d, P::f + 2);
    begin(1, 1);
    x.fp().get(d);
    done();
}
template<class P> void h_set()
{
    mpfr_t x; mpfr_init2(x, P::f + 1);
    fresh(*x, P::f + 1);
    int allow = vp_choose(2, "allow");
    s128 top = (s128)x->e + P::f;
    bool out = x->cls == VPM_NUM && (top < P::mine || top > P::maxe);
    begin(1, !allow && out);
    g_throw = vp_decide(g_throw);
    typename P::T r(x, allow != 0);
    done();
    result<P>(r, *x, "the packed number has the value given, zero or infinity where it is out of range");
    mpfr_clear(x);
}
template<class P> void h_setbad() { mpfr_t x; mpfr_init2(x, P::f); fresh(*x, P::f); begin(1, 1); typename P::T r(x, true); done(); }

template<class P> static void operand(const vpm_op &o, int i, const P &a, const char *msg) { same(o.arg[i], a.cls(), a.neg(), a.m(), P::f + 1, a.ex(), msg); }
template<class R> static void op1(int kind, int nargs, const char *msg)
{
    req(vpm_tr.n, 1, "one operation rounds");
    const vpm_op &o = vpm_tr.op[0];
    req(o.kind, kind, msg); req(o.nargs, nargs, msg); req(o.rnd, MPFR_RNDN, "to nearest"); req(o.prec, R::f + 1, "at the result's precision");
    req((u128)(s128)o.emin, (u128)(s128)g_emin, "in an exponent range that cannot be left"); req((u128)(s128)o.emax, (u128)(s128)g_emax, "in an exponent range that cannot be left");
}
template<class R, class A, class B, class F> static void binary(int kind, F f)
{
    A a; a.any("a"); B b; b.any("b");
    begin(0, 0);
    typename R::T r = f(a.fp(), b.fp());
    done();
    op1<R>(kind, 2, "the operation asked for");
    if (kind == VPM_ADD || kind == VPM_MUL) arrange(vpm_tr.op[0], a, b);
    operand(vpm_tr.op[0], 0, a, "the first operand, exactly"); operand(vpm_tr.op[0], 1, b, "the second operand, exactly");
    result<R>(r, vpm_tr.op[0].res, "the rounded number, with the format's flush to zero and overflow");
}
template<class R, class A, class F> static void unary(int kind, long k, F f)
{
    A a; a.any("a");
    begin(0, 0);
    typename R::T r = f(a.fp());
    done();
    if (kind == VPM_SET && (int)R::f >= (int)A::f) { // exact
        req(vpm_tr.n, 0, "an exact conversion does not round");
        R::result(r, a.cls(), a.neg(), a.m() << ((int)R::f - (int)A::f), a.ex() + A::f, "the same number");
        return;
    }
    op1<R>(kind, 1, "the operation asked for");
    req((u128)(s128)vpm_tr.op[0].k, (u128)(s128)k, "the operation asked for");
    operand(vpm_tr.op[0], 0, a, "the operand, exactly");
    result<R>(r, vpm_tr.op[0].res, "the rounded number, with the format's flush to zero and overflow");
}
template<class R, class A> static void square()
{
    A a; a.any("a");
    begin(0, 0);
    typename R::T r = ref_square<R::e, R::f>(a.fp());
    done();
    op1<R>(VPM_MUL, 2, "the operation asked for");
    operand(vpm_tr.op[0], 0, a, "the operand, exactly"); operand(vpm_tr.op[0], 1, a, "the operand again, exactly");
    result<R>(r, vpm_tr.op[0].res, "the rounded number, with the format's flush to zero and overflow");
}
template<class R, class A, class F> static void neg(F f)
{
    A a; a.any("a");
    begin(0, 0);
    typename R::T r = f(a.fp());
    done();
    if ((int)R::f >= (int)A::f) { req(vpm_tr.n, 0, "negation does not round"); R::result(r, a.cls(), a.neg() ^ 1, a.m() << ((int)R::f - (int)A::f), a.ex() + A::f, "the negated number"); return; }
    op1<R>(VPM_SET, 1, "the operation asked for");
    same(vpm_tr.op[0].arg[0], a.cls(), a.neg() ^ 1, a.m(), A::f + 1, a.ex(), "the negated operand, exactly");
    result<R>(r, vpm_tr.op[0].res, "the rounded number, with the format's flush to zero and overflow");
}
template<class R, class A> static void reciprocal()
{
    A a; a.any("a");
    begin(0, 0);
    typename R::T r = ref_inv<R::e, R::f>(a.fp());
    done();
    op1<R>(VPM_DIV, 2, "one is divided");
    same(vpm_tr.op[0].arg[0], VPM_NUM, 0, 1, 1, 0, "by the operand: the dividend is one"); operand(vpm_tr.op[0], 1, a, "the operand, exactly");
    result<R>(r, vpm_tr.op[0].res, "the rounded number, with the format's flush to zero and overflow");
}
template<class R, class A> static void reciprocal2()
{
    A a; a.any("a");
    begin(0, 0);
    typename R::T r1, r2;
    ref_inv_faithful(r1, r2, a.fp());
    done();
    req(vpm_tr.n, 2, "two operations round");
    for (int i = 0; i < 2; i++) {
        const vpm_op &o = vpm_tr.op[i];
        req(o.kind, VPM_DIV, "one is divided"); req(o.rnd, i ? MPFR_RNDU : MPFR_RNDD, "once down and once up"); req(o.prec, R::f + 1, "at the result's precision");
        same(o.arg[0], VPM_NUM, 0, 1, 1, 0, "the dividend is one"); operand(o, 1, a, "the operand, exactly");
    }
    result<R>(r1, vpm_tr.op[0].res, "the number rounded down"); result<R>(r2, vpm_tr.op[1].res, "the number rounded up");
}
template<class R, class A, class B, class C> static void fused()
{
    A a; a.any("a"); B b; b.any("b"); C c; c.any("c");
    begin(0, 0);
    typename R::T r = ref_fma<R::e, R::f>(a.fp(), b.fp(), c.fp());
    done();
    op1<R>(VPM_FMA, 3, "a fused multiply-add");
    arrange(vpm_tr.op[0], a, b);
    operand(vpm_tr.op[0], 0, a, "the first factor"); operand(vpm_tr.op[0], 1, b, "the second factor"); operand(vpm_tr.op[0], 2, c, "the addend");
    result<R>(r, vpm_tr.op[0].res, "the rounded number, with the format's flush to zero and overflow");
}
static void exactly(const __mpfr_struct &x, const __mpfr_struct &y, const char *msg)
{
    req(x.cls, y.cls, msg); req((u128)(s128)x._mpfr_sign, (u128)(s128)y._mpfr_sign, msg); req(x._mpfr_prec, y._mpfr_prec, msg); req(x.m, y.m, msg); req((u128)(s128)x.e, (u128)(s128)y.e, msg);
}
// operations of a policy on multiple-precision numbers, in the policy's exponent range (MPFR's exponent of 1.f*2^e is e+1;
// one more binade below keeps a number that rounds up to the least one)
template<class F> static void policy_op(int kind, int prec, s128 lo, s128 hi, bool sub, F f)
{
    __mpfr_struct a, b, r;
    mpfr_init2(&a, prec); mpfr_init2(&b, prec); mpfr_init2(&r, prec);
    fresh(a, prec); fresh(b, prec);
    __mpfr_struct a0 = a, b0 = b;
    begin(3, 0);
    f(&r, &a, &b);
    done();
    req(vpm_tr.n, sub ? 2 : 1, "the operation asked for, rounded once");
    for (int i = 0; i < (sub ? 2 : 1); i++) {
        const vpm_op &o = vpm_tr.op[i];
        req(o.kind, i ? VPM_SUBNORM : kind, "the operation asked for"); req(o.rnd, MPFR_RNDN, "to nearest"); req(o.prec, prec, "at the precision of the result");
        req((u128)(s128)o.emin, (u128)lo, "the format's least exponent"); req((u128)(s128)o.emax, (u128)hi, "the format's greatest exponent");
    }
    const vpm_op &o = vpm_tr.op[0];
    exactly(o.arg[0], a0, "the first operand"); exactly(o.arg[1], b0, "the second operand");
    exactly(r, vpm_tr.op[sub ? 1 : 0].res, "the result is the rounded number");
    if (sub) { exactly(vpm_tr.op[1].arg[0], o.res, "what is made subnormal is the rounded number"); req((u128)(s128)vpm_tr.op[1].k, (u128)(s128)o.ternary, "with its ternary value"); }
    mpfr_clear(&a); mpfr_clear(&b); mpfr_clear(&r);
}
#define FLO(x) Flo<x>
#define CVT(N, P) H h_get_##N() { h_get<P>(); } H h_getround_##N() { h_getround<P>(); } H h_getbad_##N() { h_getbad<P>(); } H h_set_##N() { h_set<P>(); } H h_setbad_##N() { h_setbad<P>(); }
#define A(E, F) typedef Flo<E, F> Flo_##E##_##F; CVT(flopoco_##E##_##F, Flo_##E##_##F) typedef Iee<E, F> Iee_##E##_##F; CVT(ieee_##E##_##F, Iee_##E##_##F)
#define AF(E, F) typedef Flo<E, F> FloX_##E##_##F; CVT(flopoco_##E##_##F, FloX_##E##_##F)
#define B_(N, P, OP, KIND, ER, FR, EA, FA, EB, FB) H h_##OP##_##N() { typedef P<ER, FR> R; typedef P<EA, FA> X; typedef P<EB, FB> Y; binary<R, X, Y>(KIND, [](auto a, auto b) { return ref_##OP<ER, FR>(a, b); }); } \
    H h_##OP##_to_##N() { typedef P<ER, FR> R; typedef P<EA, FA> X; typedef P<EB, FB> Y; binary<R, X, Y>(KIND, [](auto a, auto b) { typename R::T d; ref_##OP(d, a, b); return d; }); }
#define U_(N, OP, KIND, K, ER, FR, EA, FA) H h_##OP##_##N() { typedef Flo<ER, FR> R; typedef Flo<EA, FA> X; unary<R, X>(KIND, K, [](auto a) { return ref_##OP<ER, FR>(a); }); }
#define O(ER, FR, EA, FA, EB, FB) \
    B_(flopoco_##ER##_##FR##_##EA##_##FA##_##EB##_##FB, Flo, add, VPM_ADD, ER, FR, EA, FA, EB, FB) B_(flopoco_##ER##_##FR##_##EA##_##FA##_##EB##_##FB, Flo, mul, VPM_MUL, ER, FR, EA, FA, EB, FB) \
    B_(flopoco_##ER##_##FR##_##EA##_##FA##_##EB##_##FB, Flo, div, VPM_DIV, ER, FR, EA, FA, EB, FB) B_(flopoco_##ER##_##FR##_##EA##_##FA##_##EB##_##FB, Flo, pow, VPM_POW, ER, FR, EA, FA, EB, FB) \
    B_(ieee_##ER##_##FR##_##EA##_##FA##_##EB##_##FB, Iee, add, VPM_ADD, ER, FR, EA, FA, EB, FB) B_(ieee_##ER##_##FR##_##EA##_##FA##_##EB##_##FB, Iee, mul, VPM_MUL, ER, FR, EA, FA, EB, FB)
#define U(ER, FR, EA, FA) \
    U_(flopoco_##ER##_##FR##_##EA##_##FA, sqrt, VPM_SQRT, 0, ER, FR, EA, FA) U_(flopoco_##ER##_##FR##_##EA##_##FA, log, VPM_LOG, 0, ER, FR, EA, FA) U_(flopoco_##ER##_##FR##_##EA##_##FA, exp, VPM_EXP, 0, ER, FR, EA, FA) \
    U_(flopoco_##ER##_##FR##_##EA##_##FA, convert, VPM_SET, 0, ER, FR, EA, FA) \
    H h_ldexp_##ER##_##FR##_##EA##_##FA() { unary<Flo<ER, FR>, Flo<EA, FA>>(VPM_SCALE, 3, [](auto a) { return ref_ldexp_const<ER, FR, 3>(a); }); } \
    H h_ldexpn_##ER##_##FR##_##EA##_##FA() { unary<Flo<ER, FR>, Flo<EA, FA>>(VPM_SCALE, -2, [](auto a) { fp_flopoco<ER, FR> d; ref_ldexp_const<ER, FR, -2>(d, a); return d; }); } \
    H h_convertto_##ER##_##FR##_##EA##_##FA() { unary<Flo<ER, FR>, Flo<EA, FA>>(VPM_SET, 0, [](auto a) { fp_flopoco<ER, FR> d; thls::ref_convert(d, a); return d; }); } \
    H h_square_##ER##_##FR##_##EA##_##FA() { square<Flo<ER, FR>, Flo<EA, FA>>(); } \
    H h_neg_##ER##_##FR##_##EA##_##FA() { neg<Flo<ER, FR>, Flo<EA, FA>>([](auto a) { return ref_neg<ER, FR>(a); }); } \
    H h_inv_##ER##_##FR##_##EA##_##FA() { reciprocal<Flo<ER, FR>, Flo<EA, FA>>(); } 
#define U2(ER, FR, EA, FA) H h_invf_##ER##_##FR##_##EA##_##FA() { reciprocal2<Flo<ER, FR>, Flo<EA, FA>>(); } \
    H h_fma_##ER##_##FR##_##EA##_##FA() { fused<Flo<ER, FR>, Flo<EA, FA>, Flo<ER, FA>, Flo<EA, FR>>(); }
#define PF(E, F) \
    H h_pol_add_##E##_##F() { policy_op(VPM_ADD, F + 1, -(1 << (E - 1)) + 1, (1 << (E - 1)) + 1, false, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { policy_flopoco<E, F>::ref_add(r, a, b); }); } \
    H h_pol_mul_##E##_##F() { policy_op(VPM_MUL, F + 1, -(1 << (E - 1)) + 1, (1 << (E - 1)) + 1, false, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { policy_flopoco<E, F>::ref_mul(r, a, b); }); } \
    H h_pol_div_##E##_##F() { policy_op(VPM_DIV, F + 1, -(1 << (E - 1)) + 1, (1 << (E - 1)) + 1, false, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { policy_flopoco<E, F>::ref_div(r, a, b); }); } \
    H h_poi_add_##E##_##F() { policy_op(VPM_ADD, F + 1, -(1 << (E - 1)) + 2, (1 << (E - 1)), false, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { policy_ieee_on_flopoco<E, F>::ref_add(r, a, b); }); } \
    H h_poi_mul_##E##_##F() { policy_op(VPM_MUL, F + 1, -(1 << (E - 1)) + 2, (1 << (E - 1)), false, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { policy_ieee_on_flopoco<E, F>::ref_mul(r, a, b); }); } \
    H h_poi_div_##E##_##F() { policy_op(VPM_DIV, F + 1, -(1 << (E - 1)) + 2, (1 << (E - 1)), false, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { policy_ieee_on_flopoco<E, F>::ref_div(r, a, b); }); }
#define PN(C, P, LO, HI) \
    H h_nat_add_##C() { policy_op(VPM_ADD, P, LO, HI, true, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { C::ref_add(r, a, b); }); } \
    H h_nat_mul_##C() { policy_op(VPM_MUL, P, LO, HI, true, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { C::ref_mul(r, a, b); }); } \
    H h_nat_div_##C() { policy_op(VPM_DIV, P, LO, HI, true, [](mpfr_ptr r, mpfr_ptr a, mpfr_ptr b) { C::ref_div(r, a, b); }); }
FORMATS
