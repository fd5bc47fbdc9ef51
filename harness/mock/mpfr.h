// Stand-in for <mpfr.h>. Conversions that are exact are carried out; an operation that rounds is taken at its documented
// contract: it is recorded with its operands, the rounding mode, the precision and the exponent range in force, and its
// result is any number of that precision. Which operation is done on what, and what becomes of the result, is then decided
// for every value (P23); objects are registered while they are live (P18); the exponent range is a global (P20).
#pragma once
#include <gmp.h>
typedef long mpfr_prec_t;
typedef long mpfr_exp_t;
typedef enum { MPFR_RNDN = 0, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA, MPFR_RNDF } mpfr_rnd_t;
typedef mpfr_rnd_t mp_rnd_t;
#define GMP_RNDN MPFR_RNDN
enum { VPM_ZERO = 0, VPM_NUM = 1, VPM_INF = 2, VPM_NAN = 3 };
// value: (-1)^neg * m * 2^e with 2^(prec-1) <= m < 2^prec
typedef struct { mpfr_prec_t _mpfr_prec; int _mpfr_sign; int cls; int64_t e; vpm_u128 m; } __mpfr_struct;
typedef __mpfr_struct mpfr_t[1];
typedef __mpfr_struct *mpfr_ptr;
typedef const __mpfr_struct *mpfr_srcptr;
enum { VPM_MUL = 1, VPM_ADD, VPM_DIV, VPM_POW, VPM_FMA, VPM_LOG, VPM_EXP, VPM_SQRT, VPM_SET, VPM_SCALE, VPM_SUBNORM, VPM_SUM };
struct vpm_op { int kind; int nargs; __mpfr_struct arg[4]; long k; mpfr_rnd_t rnd; mpfr_prec_t prec; long emin, emax; __mpfr_struct res; int ternary; };
struct vpm_trace { vpm_op op[4]; int n; };
inline vpm_trace vpm_tr;
inline long vpm_emin, vpm_emax;

static inline mpfr_exp_t mpfr_get_emin() { return vpm_emin; }
static inline mpfr_exp_t mpfr_get_emax() { return vpm_emax; }
static inline int mpfr_set_emin(mpfr_exp_t e) { vpm_emin = e; return 0; }
static inline int mpfr_set_emax(mpfr_exp_t e) { vpm_emax = e; return 0; }

static inline void mpfr_init2(mpfr_ptr r, mpfr_prec_t p) { vpm_init(r); r->_mpfr_prec = p; r->_mpfr_sign = 1; r->cls = VPM_NAN; r->e = 0; r->m = 0; }
static inline void mpfr_clear(mpfr_ptr r) { vpm_drop(r); }
static inline void mpfr_inits2(mpfr_prec_t) {}
template<class... T> static inline void mpfr_inits2(mpfr_prec_t p, mpfr_ptr a, T... t) { if (a) { mpfr_init2(a, p); mpfr_inits2(p, t...); } }
static inline void mpfr_clears() {}
template<class... T> static inline void mpfr_clears(mpfr_ptr a, T... t) { if (a) { mpfr_clear(a); mpfr_clears(t...); } }
static inline mpfr_prec_t mpfr_get_prec(mpfr_srcptr a) { vpm_use(a); return a->_mpfr_prec; }
static inline int mpfr_nan_p(mpfr_srcptr a) { vpm_use(a); return a->cls == VPM_NAN; }
static inline int mpfr_inf_p(mpfr_srcptr a) { vpm_use(a); return a->cls == VPM_INF; }
static inline int mpfr_zero_p(mpfr_srcptr a) { vpm_use(a); return a->cls == VPM_ZERO; }
static inline int mpfr_number_p(mpfr_srcptr a) { vpm_use(a); return a->cls == VPM_ZERO || a->cls == VPM_NUM; }
static inline int mpfr_regular_p(mpfr_srcptr a) { vpm_use(a); return a->cls == VPM_NUM; }
static inline int mpfr_sgn(mpfr_srcptr a) { vpm_use(a); if (a->cls == VPM_NUM || a->cls == VPM_INF) return a->_mpfr_sign; return 0; }
static inline int mpfr_signbit(mpfr_srcptr a) { vpm_use(a); return a->_mpfr_sign < 0; }
static inline void mpfr_set_zero(mpfr_ptr r, int s) { vpm_use(r); r->cls = VPM_ZERO; r->_mpfr_sign = s < 0 ? -1 : 1; r->e = 0; r->m = 0; }
static inline void mpfr_set_inf(mpfr_ptr r, int s) { vpm_use(r); r->cls = VPM_INF; r->_mpfr_sign = s < 0 ? -1 : 1; r->e = 0; r->m = 0; }
static inline void mpfr_set_nan(mpfr_ptr r) { vpm_use(r); r->cls = VPM_NAN; r->e = 0; r->m = 0; }
// any value of precision p: what a rounding operation may return
static inline void vpm_fresh(__mpfr_struct &v, mpfr_prec_t p)
{
    v._mpfr_prec = p;
    int s = 0; vp_var(&v.cls, 4, 2, "class of the rounded result"); vp_var(&s, 4, 1, "sign of the rounded result");
    v._mpfr_sign = 1 - 2 * s;
    vp_range(&v.e, 8, -2000000, 2000000, "exponent of the rounded result");
    vpm_u128 f = 0; if (p > 1) vp_var(&f, 16, (int)p - 1, "fraction of the rounded result");
    v.m = f + (((vpm_u128)1) << (p - 1)); // e and m mean something for numbers only
}
#ifdef VPM_EXACT
static void vpm_hook(vpm_op &); // judges the operation, and may end the path
#endif
static inline int vpm_round(int kind, mpfr_ptr r, mpfr_rnd_t rnd, mpfr_srcptr a, mpfr_srcptr b = nullptr, mpfr_srcptr c = nullptr, long k = 0)
{
    vpm_use(r); vpm_use(a); if (b) vpm_use(b); if (c) vpm_use(c);
    vpm_can(vpm_tr.n < 4, "few rounding operations are made");
    vpm_op &o = vpm_tr.op[vpm_tr.n++];
    o.kind = kind; o.nargs = c ? 3 : b ? 2 : 1;
    o.arg[0] = *a; if (b) o.arg[1] = *b; if (c) o.arg[2] = *c;
    o.k = k; o.rnd = rnd; o.prec = r->_mpfr_prec; o.emin = vpm_emin; o.emax = vpm_emax;
#ifdef VPM_EXACT
    if (kind != VPM_SUM) vpm_hook(o);
#endif
    vpm_fresh(o.res, r->_mpfr_prec);
    *r = o.res;
    int64_t t = 0; vp_range(&t, 8, -1, 1, "ternary value");
    o.ternary = (int)t;
    return o.ternary;
}
#ifdef VPM_EXACT // a product of two numbers that fits the destination's precision is carried out (its top bit may then be zero)
static inline int mpfr_mul(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t rnd)
{
    vpm_use(r); vpm_use(a); vpm_use(b);
    mpfr_prec_t pp = a->_mpfr_prec + b->_mpfr_prec, d = r->_mpfr_prec - pp;
    if (a->cls != VPM_NUM || b->cls != VPM_NUM || d < 0 || r->_mpfr_prec > 127) return vpm_round(VPM_MUL, r, rnd, a, b);
    vpm_u128 m = a->m * b->m; int64_t e = a->e + b->e - d;
    r->cls = VPM_NUM; r->_mpfr_sign = a->_mpfr_sign * b->_mpfr_sign; r->m = m << d; r->e = e;
    return 0;
}
#else
static inline int mpfr_mul(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t m) { return vpm_round(VPM_MUL, r, m, a, b); }
#endif
static inline int mpfr_sum(mpfr_ptr r, const mpfr_ptr *t, unsigned long n, mpfr_rnd_t rnd)
{
    vpm_can(n >= 1 && n <= 4, "few terms are added");
    for (unsigned long i = 0; i < n; i++) vpm_use(t[i]);
    vpm_op &o = vpm_tr.op[vpm_tr.n];
    __mpfr_struct in[4]; for (unsigned long i = 0; i < n; i++) in[i] = *t[i];
    int k = vpm_round(VPM_SUM, r, rnd, t[0]);
    o.nargs = (int)n; for (unsigned long i = 0; i < n; i++) o.arg[i] = in[i];
#ifdef VPM_EXACT
    vpm_hook(o);
#endif
    return k;
}
#ifdef VPM_EXACT
static inline int mpfr_fmma(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_srcptr c, mpfr_srcptr d, mpfr_rnd_t rnd) // a*b + c*d, rounded once
{
    mpfr_t x, y; mpfr_init2(x, a->_mpfr_prec + b->_mpfr_prec); mpfr_init2(y, c->_mpfr_prec + d->_mpfr_prec);
    mpfr_mul(x, a, b, MPFR_RNDN); mpfr_mul(y, c, d, MPFR_RNDN);
    mpfr_ptr t[2] = {x, y}; int k = mpfr_sum(r, t, 2, rnd);
    mpfr_clear(x); mpfr_clear(y); return k;
}
#endif
static inline int mpfr_sqr(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t m) { return vpm_round(VPM_MUL, r, m, a, a); }
static inline int mpfr_add(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t m) { return vpm_round(VPM_ADD, r, m, a, b); }
static inline int mpfr_sub(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t m) { __mpfr_struct t = *b; vpm_use(b); t._mpfr_sign = -t._mpfr_sign; vpm_init(&t); int i = vpm_round(VPM_ADD, r, m, a, &t); vpm_drop(&t); return i; }
static inline int mpfr_div(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t m) { return vpm_round(VPM_DIV, r, m, a, b); }
static inline int mpfr_ui_div(mpfr_ptr r, unsigned long u, mpfr_srcptr b, mpfr_rnd_t m)
{
    vpm_can(u == 1, "the dividend is one");
    __mpfr_struct one; mpfr_init2(&one, 2); one.cls = VPM_NUM; one.m = 2; one.e = -1;
    int i = vpm_round(VPM_DIV, r, m, &one, b); mpfr_clear(&one); return i;
}
static inline int mpfr_si_div(mpfr_ptr r, long u, mpfr_srcptr b, mpfr_rnd_t m) { return mpfr_ui_div(r, (unsigned long)u, b, m); }
static inline int mpfr_d_div(mpfr_ptr r, double u, mpfr_srcptr b, mpfr_rnd_t m) { return mpfr_ui_div(r, (unsigned long)u, b, m); }
static inline int mpfr_pow(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t m) { return vpm_round(VPM_POW, r, m, a, b); }
static inline int mpfr_fma(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_srcptr c, mpfr_rnd_t m) { return vpm_round(VPM_FMA, r, m, a, b, c); }
static inline int mpfr_log(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t m) { return vpm_round(VPM_LOG, r, m, a); }
static inline int mpfr_exp(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t m) { return vpm_round(VPM_EXP, r, m, a); }
static inline int mpfr_sqrt(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t m) { return vpm_round(VPM_SQRT, r, m, a); }
static inline int mpfr_mul_2si(mpfr_ptr r, mpfr_srcptr a, long k, mpfr_rnd_t m) { return vpm_round(VPM_SCALE, r, m, a, nullptr, nullptr, k); }
static inline int mpfr_subnormalize(mpfr_ptr r, int t, mpfr_rnd_t m) { return vpm_round(VPM_SUBNORM, r, m, r, nullptr, nullptr, t); }
// exact when the destination is at least as precise, a rounding otherwise
static inline int mpfr_set(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t m)
{
    vpm_use(r); vpm_use(a);
    if (r->_mpfr_prec < a->_mpfr_prec) return vpm_round(VPM_SET, r, m, a);
    mpfr_prec_t d = r->_mpfr_prec - a->_mpfr_prec;
    r->cls = a->cls; r->_mpfr_sign = a->_mpfr_sign; r->m = a->m << d; r->e = a->e - d;
    return 0;
}
static inline int mpfr_neg(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t m)
{
    vpm_use(r); vpm_use(a);
    __mpfr_struct t = *a; t._mpfr_sign = -a->_mpfr_sign;
    if (r->_mpfr_prec < a->_mpfr_prec) { vpm_init(&t); int i = vpm_round(VPM_SET, r, m, &t); vpm_drop(&t); return i; }
    mpfr_prec_t p = r->_mpfr_prec, d = p - a->_mpfr_prec;
    *r = t; r->_mpfr_prec = p; r->m = t.m << d; r->e = t.e - d;
    return 0;
}
static inline int mpfr_mul_si(mpfr_ptr r, mpfr_srcptr a, long k, mpfr_rnd_t m) { vpm_can(k == -1 || k == 1, "the factor is a sign"); return k == -1 ? mpfr_neg(r, a, m) : mpfr_set(r, a, m); }
static inline int mpfr_setsign(mpfr_ptr r, mpfr_srcptr a, int s, mpfr_rnd_t m) { int i = mpfr_set(r, a, m); r->_mpfr_sign = s ? -1 : 1; return i; }
static inline int mpfr_abs(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t m) { return mpfr_setsign(r, a, 0, m); }
// z * 2^e
static inline int mpfr_set_z_2exp(mpfr_ptr r, mpz_srcptr z, mpfr_exp_t e, mpfr_rnd_t m)
{
    vpm_use(r); vpm_use(z);
    if (z->m == 0) { mpfr_set_zero(r, 1); return 0; }
    int b = vp_decide(vpm_msb(z->m)) + 1;
    __mpfr_struct t; t._mpfr_prec = b; t._mpfr_sign = z->neg ? -1 : 1; t.cls = VPM_NUM; t.e = e; t.m = z->m;
    vpm_init(&t);
    int i = mpfr_set(r, &t, m);
    vpm_drop(&t);
    return i;
}
static inline int mpfr_set_z(mpfr_ptr r, mpz_srcptr z, mpfr_rnd_t m) { return mpfr_set_z_2exp(r, z, 0, m); }
static inline mpfr_exp_t mpfr_get_z_2exp(mpz_ptr z, mpfr_srcptr a) { vpm_use(a); vpm_use(z); vpm_can(a->cls == VPM_NUM, "the number taken apart is a finite non-zero number"); z->neg = a->_mpfr_sign < 0; z->m = a->m; return a->e; }
static inline mpfr_exp_t mpfr_get_exp(mpfr_srcptr a) { vpm_use(a); return a->e + a->_mpfr_prec; }
static inline int mpfr_set_ui(mpfr_ptr r, unsigned long v, mpfr_rnd_t m) { mpz_t z; mpz_init(z); mpz_set_ui(z, v); int i = mpfr_set_z(r, z, m); mpz_clear(z); return i; }
static inline int mpfr_set_si(mpfr_ptr r, long v, mpfr_rnd_t m) { mpz_t z; mpz_init(z); mpz_set_si(z, v); int i = mpfr_set_z(r, z, m); mpz_clear(z); return i; }
#define MPFR_DECL_INIT(x, p) mpfr_t x; mpfr_init2(x, p)
#define mpfr_set_d(r, v, m) mpfr_set_si(r, (long)(v), m) // the library passes whole constants
static inline int mpfr_unordered_p(mpfr_srcptr a, mpfr_srcptr b) { vpm_use(a); vpm_use(b); return a->cls == VPM_NAN || b->cls == VPM_NAN; }
static inline int mpfr_cmp(mpfr_srcptr a, mpfr_srcptr b)
{
    if (mpfr_unordered_p(a, b)) return 0;
    int sa = a->cls == VPM_ZERO ? 0 : a->_mpfr_sign, sb = b->cls == VPM_ZERO ? 0 : b->_mpfr_sign;
    if (sa != sb) return sa < sb ? -1 : 1;
    if (sa == 0) return 0;
    if (a->cls != b->cls) return (a->cls == VPM_INF) == (sa > 0) ? 1 : -1;
    if (a->cls == VPM_INF) return 0;
    int64_t ea = a->e + a->_mpfr_prec, eb = b->e + b->_mpfr_prec;
    if (ea != eb) return (ea < eb) == (sa > 0) ? -1 : 1;
    mpfr_prec_t p = a->_mpfr_prec > b->_mpfr_prec ? a->_mpfr_prec : b->_mpfr_prec;
    vpm_u128 ma = a->m << (p - a->_mpfr_prec), mb = b->m << (p - b->_mpfr_prec);
    if (ma == mb) return 0;
    return (ma < mb) == (sa > 0) ? -1 : 1;
}
static inline int mpfr_equal_p(mpfr_srcptr a, mpfr_srcptr b) { return !mpfr_unordered_p(a, b) && mpfr_cmp(a, b) == 0; }
static inline int mpfr_cmp_d(mpfr_srcptr, double);
static inline int mpfr_sub_d(mpfr_ptr, mpfr_srcptr, double, mpfr_rnd_t);
static inline void mpfr_nextabove(mpfr_ptr);
static inline void mpfr_nextbelow(mpfr_ptr);
static inline int mpfr_urandomb(mpfr_ptr, gmp_randstate_t);
double mpfr_get_d(mpfr_srcptr, mpfr_rnd_t);
float mpfr_get_flt(mpfr_srcptr, mpfr_rnd_t);
template<class... T> static inline int mpfr_fprintf(T...) { return 0; }
template<class... T> static inline int mpfr_printf(T...) { return 0; }
