// Stand-in for <gmp.h> with the documented meaning of the calls the library makes, in terms the analyser can follow.
// A number is a sign and a magnitude below 2^128. Every object is registered while it is live (see P18).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string>
typedef unsigned __int128 vpm_u128;
extern "C" void vp_require(bool c, const char *msg);
extern "C" void vp_require_eq(const void *a, const void *b, int nbytes, const char *msg);
extern "C" int vp_decide(int v);
extern "C" int vp_choose(int n, const char *name);
extern "C" void vp_var(void *dst, int nbytes, int nbits, const char *name);
extern "C" void vp_range(void *dst, int nbytes, int64_t lo, int64_t hi, const char *name);
extern "C" void vp_stop();
extern "C" void vp_unsupported(const char *why);

struct vpm_registry { const void *p[24]; int n; };
inline vpm_registry vpm_live;
#ifdef VP_TYPESTATE
static inline void vpm_ok(bool c, const char *msg) { int ok = c ? 1 : 0, one = 1; vp_require_eq(&ok, &one, 4, msg); if (!ok) vp_stop(); }
#else
static inline void vpm_ok(bool c, const char *) { if (!c) vp_stop(); }
#endif
static inline void vpm_can(bool c, const char *msg) { if (!c) vp_unsupported(msg); }
static inline int vpm_find(const void *p) { for (int i = 0; i < vpm_live.n; i++) if (vpm_live.p[i] == p) return i; return -1; }
static inline void vpm_init(const void *p) { vpm_ok(vpm_find(p) < 0, "a multiple-precision object is not initialised twice"); vpm_can(vpm_live.n < 24, "few objects are live"); vpm_live.p[vpm_live.n++] = p; }
static inline void vpm_use(const void *p) { vpm_ok(vpm_find(p) >= 0, "a multiple-precision object is used while it is initialised"); }
static inline void vpm_drop(const void *p)
{
    int i = vpm_find(p);
    vpm_ok(i >= 0, "a multiple-precision object is released once, after it was initialised");
    vpm_live.p[i] = vpm_live.p[--vpm_live.n];
}

typedef unsigned long mp_limb_t;
typedef unsigned long mp_bitcnt_t;
typedef struct { int neg; vpm_u128 m; } __mpz_struct;
typedef __mpz_struct mpz_t[1];
typedef __mpz_struct *mpz_ptr;
typedef const __mpz_struct *mpz_srcptr;
static inline int vpm_msb(vpm_u128 v) { uint64_t h = (uint64_t)(v >> 64); return h ? 127 - __builtin_clzll(h) : 63 - __builtin_clzll((uint64_t)v | 0); }
static inline void vpm_put(mpz_ptr r, int neg, vpm_u128 m) { r->neg = m == 0 ? 0 : neg; r->m = m; }
static inline void mpz_init(mpz_ptr r) { vpm_init(r); r->neg = 0; r->m = 0; }
static inline void mpz_clear(mpz_ptr r) { vpm_drop(r); }
static inline void mpz_inits(mpz_ptr r, ...) = delete;
static inline void mpz_set(mpz_ptr r, mpz_srcptr a) { vpm_use(r); vpm_use(a); r->neg = a->neg; r->m = a->m; }
static inline void mpz_init2(mpz_ptr r, mp_bitcnt_t) { mpz_init(r); }
static inline void mpz_init_set(mpz_ptr r, mpz_srcptr a) { mpz_init(r); mpz_set(r, a); }
static inline void mpz_set_ui(mpz_ptr r, unsigned long v) { vpm_use(r); r->neg = 0; r->m = v; }
static inline void mpz_init_set_ui(mpz_ptr r, unsigned long v) { mpz_init(r); r->m = v; }
static inline void mpz_set_si(mpz_ptr r, long v) { vpm_use(r); vpm_put(r, v < 0, v < 0 ? -(vpm_u128)(__int128)v : (vpm_u128)v); }
static inline void mpz_swap(mpz_ptr a, mpz_ptr b) { vpm_use(a); vpm_use(b); __mpz_struct t = *a; *a = *b; *b = t; }
static inline int mpz_sgn(mpz_srcptr a) { vpm_use(a); return a->m == 0 ? 0 : a->neg ? -1 : 1; }
static inline void mpz_neg(mpz_ptr r, mpz_srcptr a) { vpm_use(r); vpm_use(a); vpm_put(r, !a->neg, a->m); }
static inline void mpz_abs(mpz_ptr r, mpz_srcptr a) { vpm_use(r); vpm_use(a); vpm_put(r, 0, a->m); }
static inline void mpz_add(mpz_ptr r, mpz_srcptr a, mpz_srcptr b)
{
    vpm_use(r); vpm_use(a); vpm_use(b);
    if (a->neg == b->neg) vpm_put(r, a->neg, a->m + b->m);
    else if (a->m >= b->m) vpm_put(r, a->neg, a->m - b->m);
    else vpm_put(r, b->neg, b->m - a->m);
}
static inline void mpz_sub(mpz_ptr r, mpz_srcptr a, mpz_srcptr b)
{
    vpm_use(r); vpm_use(a); vpm_use(b);
    if (a->neg != b->neg) vpm_put(r, a->neg, a->m + b->m);
    else if (a->m >= b->m) vpm_put(r, a->neg, a->m - b->m);
    else vpm_put(r, !b->neg, b->m - a->m);
}
static inline void mpz_add_ui(mpz_ptr r, mpz_srcptr a, unsigned long v) { __mpz_struct t; vpm_use(r); vpm_use(a); t.neg = 0; t.m = v; if (!a->neg) vpm_put(r, 0, a->m + v); else if (a->m >= t.m) vpm_put(r, 1, a->m - t.m); else vpm_put(r, 0, t.m - a->m); }
static inline void mpz_mul_si(mpz_ptr r, mpz_srcptr a, long v) { vpm_use(r); vpm_use(a); vpm_put(r, v < 0 ? !a->neg : a->neg, v < 0 ? a->m * (vpm_u128)(unsigned long)-v : a->m * (vpm_u128)v); }
static inline void mpz_mul_ui(mpz_ptr r, mpz_srcptr a, unsigned long v) { vpm_use(r); vpm_use(a); vpm_put(r, a->neg, a->m * v); }
static inline void mpz_mul_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { vpm_use(r); vpm_use(a); vpm_put(r, a->neg, n >= 128 ? 0 : a->m << n); }
static inline void mpz_tdiv_q_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { vpm_use(r); vpm_use(a); vpm_put(r, a->neg, n >= 128 ? 0 : a->m >> n); }
static inline void mpz_tdiv_r_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { vpm_use(r); vpm_use(a); vpm_put(r, a->neg, n >= 128 ? a->m : a->m & ((((vpm_u128)1) << n) - 1)); }
static inline void mpz_fdiv_q_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { vpm_can(!a->neg, "floor division of a non-negative number"); mpz_tdiv_q_2exp(r, a, n); }
static inline void mpz_fdiv_r_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { vpm_can(!a->neg, "floor division of a non-negative number"); mpz_tdiv_r_2exp(r, a, n); }
static inline unsigned long mpz_get_ui(mpz_srcptr a) { vpm_use(a); return (unsigned long)a->m; }
static inline long mpz_get_si(mpz_srcptr a) { vpm_use(a); return a->neg ? -(long)(unsigned long)a->m : (long)(unsigned long)a->m; }
static inline int mpz_tstbit(mpz_srcptr a, mp_bitcnt_t n) { vpm_use(a); return (int)((a->m >> n) & 1); }
static inline void mpz_setbit(mpz_ptr r, mp_bitcnt_t n) { vpm_use(r); r->m = r->m | (((vpm_u128)1) << n); }
static inline void mpz_clrbit(mpz_ptr r, mp_bitcnt_t n) { vpm_use(r); r->m = r->m & ~(((vpm_u128)1) << n); }
static inline void mpz_ior(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { vpm_use(r); vpm_use(a); vpm_use(b); vpm_put(r, 0, a->m | b->m); }
static inline size_t mpz_sizeinbase(mpz_srcptr a, int base) { vpm_use(a); vpm_can(base == 2, "size in base two"); return a->m == 0 ? 1 : (size_t)vpm_msb(a->m) + 1; }
static inline int mpz_cmp_ui(mpz_srcptr a, unsigned long v) { vpm_use(a); if (a->neg) return -1; return a->m < v ? -1 : a->m > v ? 1 : 0; }
static inline int mpz_cmp_si(mpz_srcptr a, long v)
{
    vpm_use(a);
    if (v >= 0) { if (a->neg) return -1; return a->m < (vpm_u128)v ? -1 : a->m > (vpm_u128)v ? 1 : 0; }
    if (!a->neg) return 1;
    return a->m < (vpm_u128)(unsigned long)-v ? 1 : a->m > (vpm_u128)(unsigned long)-v ? -1 : 0;
}
static inline int mpz_cmp(mpz_srcptr a, mpz_srcptr b) { vpm_use(a); vpm_use(b); if (a->neg != b->neg) return a->neg ? -1 : 1; int c = a->m < b->m ? -1 : a->m > b->m ? 1 : 0; return a->neg ? -c : c; }
char *mpz_get_str(char *, int, mpz_srcptr);
typedef struct { int x; } gmp_randstate_t[1];
void gmp_randinit_default(gmp_randstate_t);
void gmp_randclear(gmp_randstate_t);
