// A double in the analysed program is replaced by this type: the IEEE binary64 pattern, with exact integer semantics for
// the operations used to take a double apart and put one together. An operation whose result is rounded rounds to nearest
// even; what is not modelled ends the cell as undecided.
#pragma once
#include <cmath>
#include <cfloat>
#include <limits>
#include <type_traits>
#include <stdint.h>
extern "C" int vp_decide(int); extern "C" void vp_unsupported(const char *);
typedef double vpd_builtin;
struct vpd {
    uint64_t b;
    vpd() = default;
    constexpr vpd(vpd_builtin c) : b(__builtin_bit_cast(uint64_t, c)) {}
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> constexpr vpd(T v) : b(0) { if (__builtin_is_constant_evaluated()) b = __builtin_bit_cast(uint64_t, (vpd_builtin)v); else b = from_int(v); }
    template<class T> static uint64_t from_int(T v);
    template<class T, class = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> operator T() const;
    explicit operator float() const { vp_unsupported("conversion to float"); return 0; }
};
// value of a finite number: (-1)^s * m * 2^e
struct vpd_parts { uint64_t s; unsigned __int128 m; int64_t e; int cls; }; // cls 0 zero, 1 number, 2 infinite, 3 NaN
static inline vpd_parts vpd_split(vpd x)
{
    vpd_parts p;
    p.s = x.b >> 63;
    uint64_t ex = (x.b >> 52) & 2047, f = x.b & ((((uint64_t)1) << 52) - 1);
    if (ex == 2047) { p.cls = f ? 3 : 2; p.m = 0; p.e = 0; }
    else if (ex == 0) { p.cls = f ? 1 : 0; p.m = f; p.e = -1074; }
    else { p.cls = 1; p.m = (((uint64_t)1) << 52) + f; p.e = (int64_t)ex - 1075; }
    return p;
}
static inline vpd vpd_raw(uint64_t b) { vpd r; r.b = b; return r; }
static inline vpd vpd_special(uint64_t s, int cls) { return vpd_raw((s << 63) + (cls == 0 ? 0 : cls == 2 ? ((uint64_t)2047 << 52) : ((uint64_t)4095 << 51))); }
static inline int vpd_msb(unsigned __int128 v) { uint64_t h = v >> 64; return h ? 127 - __builtin_clzll(h) : 63 - __builtin_clzll((uint64_t)v); }
// (-1)^s * m * 2^e rounded to nearest even
static inline vpd vpd_make(uint64_t s, unsigned __int128 m, int64_t e)
{
    if (m == 0) return vpd_special(s, 0);
    int p = (m >> 52) == 1 ? 52 : vp_decide(vpd_msb(m));
    int64_t ex = e + p + 1023; // biased exponent
    if (ex >= 2047) return vpd_special(s, 2);
    int64_t drop = p - 52;
    if (ex < 1) { drop += vp_decide((int)(1 - ex)); ex = 0; }
    uint64_t q;
    if (drop <= 0) q = (uint64_t)(m << -drop);
    else if (drop > p + 1) q = 0;
    else {
        q = (uint64_t)(m >> drop);
        unsigned __int128 rem = m & ((((unsigned __int128)1) << drop) - 1), half = ((unsigned __int128)1) << (drop - 1);
        if (rem > half || (rem == half && (q & 1))) q += 1;
    }
    // q has its leading one at 52 (normal) or below (subnormal); a carry moves into the exponent field by itself
    uint64_t field = ex == 0 ? q : (((uint64_t)(ex - 1)) << 52) + q;
    return vpd_raw((s << 63) + field);
}
template<class T> inline uint64_t vpd::from_int(T v)
{
    bool neg = v < 0;
    unsigned __int128 m = neg ? (unsigned __int128)(-(__int128)v) : (unsigned __int128)v;
    return vpd_make(neg, m, 0).b;
}
template<class T, class> inline vpd::operator T() const
{
    vpd_parts p = vpd_split(*this);
    if (p.cls == 0) return 0;
    if (p.cls != 1) { vp_unsupported("conversion of a value that is not finite to an integer"); return 0; }
    int64_t e = p.e;
    if (e >= 0) { int k = vp_decide((int)e); if (k > 64) { vp_unsupported("conversion out of range"); return 0; } p.m <<= k; }
    else { int k = e <= -53 ? 53 : vp_decide((int)-e); p.m >>= k; }
    if (p.m >> (8 * sizeof(T) - (std::is_signed<T>::value ? 1 : 0))) { vp_unsupported("conversion out of range"); return 0; }
    return p.s ? (T)-(T)p.m : (T)p.m;
}
static inline vpd operator-(vpd a) { return vpd_raw(a.b ^ (((uint64_t)1) << 63)); }
static inline vpd operator+(vpd a) { return a; }
static inline vpd vpd_mul(vpd a, vpd b)
{
    vpd_parts x = vpd_split(a), y = vpd_split(b); uint64_t s = x.s ^ y.s;
    if (x.cls == 3 || y.cls == 3 || (x.cls == 2 && y.cls == 0) || (x.cls == 0 && y.cls == 2)) return vpd_special(0, 3);
    if (x.cls == 2 || y.cls == 2) return vpd_special(s, 2);
    if (x.cls == 0 || y.cls == 0) return vpd_special(s, 0);
    while (__builtin_constant_p(y.m) && y.m && !(y.m & 1)) { y.m >>= 1; y.e++; }
    return vpd_make(s, x.m * y.m, x.e + y.e);
}
static inline vpd vpd_add(vpd a, vpd b)
{
    vpd_parts x = vpd_split(a), y = vpd_split(b);
    if (x.cls == 3 || y.cls == 3 || (x.cls == 2 && y.cls == 2 && x.s != y.s)) return vpd_special(0, 3);
    if (x.cls == 2) return a;
    if (y.cls == 2) return b;
    if (y.cls == 0) return x.cls == 0 && x.s != y.s ? vpd_special(0, 0) : a;
    if (x.cls == 0) return b;
    int64_t d = x.e - y.e;
    if (d > 60 || d < -60) { vp_unsupported("sum of numbers far apart"); return a; }
    int k = vp_decide((int)d);
    int64_t e = k >= 0 ? y.e : x.e;
    __int128 u = (__int128)(x.m << (k > 0 ? k : 0)), v = (__int128)(y.m << (k < 0 ? -k : 0));
    __int128 t = (x.s ? -u : u) + (y.s ? -v : v);
    return vpd_make(t < 0, (unsigned __int128)(t < 0 ? -t : t), e);
}
static inline uint64_t vpd_key(vpd a) { uint64_t m = a.b & ~(((uint64_t)1) << 63); return a.b >> 63 ? (((uint64_t)1) << 63) - m : (((uint64_t)1) << 63) + m; } // order of the numbers; both zeros alike
static inline bool vpd_nan(vpd a) { return (a.b & ~(((uint64_t)1) << 63)) > ((uint64_t)2047 << 52); }
template<class T> constexpr bool vpd_num = std::is_arithmetic<T>::value && !std::is_same<T, vpd>::value;
#define VPD_BIN(op, f) \
    static inline vpd operator op(vpd a, vpd b) { return f; } \
    template<class T, class = std::enable_if_t<vpd_num<T>>> static inline vpd operator op(vpd a, T b_) { vpd b(b_); return f; } \
    template<class T, class = std::enable_if_t<vpd_num<T>>> static inline vpd operator op(T a_, vpd b) { vpd a(a_); return f; }
VPD_BIN(+, vpd_add(a, b)) VPD_BIN(-, vpd_add(a, -b)) VPD_BIN(*, vpd_mul(a, b))
static inline vpd vpd_div(vpd a, vpd b)
{
    vpd_parts y = vpd_split(b);
    if (y.cls == 1 && y.m == (((uint64_t)1) << 52)) { vpd_parts x = vpd_split(a); if (x.cls == 1) return vpd_make(x.s ^ y.s, x.m, x.e - y.e - 52); }
    if (y.cls == 2) { vpd_parts x = vpd_split(a); if (x.cls <= 1) return vpd_special(x.s ^ y.s, 0); }
    vp_unsupported("division"); return a;
}
VPD_BIN(/, vpd_div(a, b))
static inline vpd &operator+=(vpd &a, vpd b) { return a = a + b; }
static inline vpd &operator-=(vpd &a, vpd b) { return a = a - b; }
static inline vpd &operator*=(vpd &a, vpd b) { return a = a * b; }
static inline vpd &operator/=(vpd &a, vpd b) { return a = a / b; }
#define VPD_CMP(op, f) \
    static inline bool operator op(vpd a, vpd b) { return f; } \
    template<class T, class = std::enable_if_t<vpd_num<T>>> static inline bool operator op(vpd a, T b_) { vpd b(b_); return f; } \
    template<class T, class = std::enable_if_t<vpd_num<T>>> static inline bool operator op(T a_, vpd b) { vpd a(a_); return f; }
#define VPD_ORD (!vpd_nan(a) && !vpd_nan(b))
VPD_CMP(<, VPD_ORD && vpd_key(a) < vpd_key(b)) VPD_CMP(<=, VPD_ORD && vpd_key(a) <= vpd_key(b)) VPD_CMP(>, VPD_ORD && vpd_key(a) > vpd_key(b))
VPD_CMP(>=, VPD_ORD && vpd_key(a) >= vpd_key(b)) VPD_CMP(==, VPD_ORD && vpd_key(a) == vpd_key(b)) VPD_CMP(!=, !(VPD_ORD && vpd_key(a) == vpd_key(b)))
static inline vpd ldexp(vpd x, int k)
{
    vpd_parts p = vpd_split(x);
    if (p.cls != 1) return x;
    return vpd_make(p.s, p.m, p.e + k);
}
template<class T, class = std::enable_if_t<std::is_integral<T>::value>> static inline vpd ldexp(T x, int k) { return ldexp(vpd(x), k); }
static inline vpd scalbn(vpd x, int k) { return ldexp(x, k); }
static inline vpd frexp(vpd x, int *e)
{
    vpd_parts p = vpd_split(x);
    if (p.cls != 1) { *e = 0; return x; }
    int t = (p.m >> 52) == 1 ? 52 : vp_decide(vpd_msb(p.m));
    *e = (int)(p.e + t + 1);
    return vpd_make(p.s, p.m, -1 - t);
}
static inline vpd fabs(vpd x) { return vpd_raw(x.b & ~(((uint64_t)1) << 63)); }
static inline vpd copysign(vpd x, vpd y) { return vpd_raw((x.b & ~(((uint64_t)1) << 63)) | (y.b & (((uint64_t)1) << 63))); }
static inline vpd trunc(vpd x)
{
    vpd_parts p = vpd_split(x);
    if (p.cls != 1 || p.e >= 0) return x;
    if (p.e <= -53) return vpd_special(p.s, 0);
    int k = vp_decide((int)-p.e);
    return vpd_make(p.s, (p.m >> k) << k, -(int64_t)k);
}
static inline vpd floor(vpd x) { vpd t = trunc(x); return (x.b >> 63) && t != x ? t - 1 : t; }
static inline vpd ceil(vpd x) { vpd t = trunc(x); return !(x.b >> 63) && t != x ? t + 1 : t; }
static inline vpd vpd_round(vpd x, bool even)
{
    vpd_parts p = vpd_split(x);
    if (p.cls != 1 || p.e >= 0) return x;
    if (p.e <= -54) return vpd_special(p.s, 0);
    int k = vp_decide((int)-p.e);
    uint64_t q = (uint64_t)(p.m >> k), r = (uint64_t)p.m & ((((uint64_t)1) << k) - 1), h = ((uint64_t)1) << (k - 1);
    if (r > h || (r == h && (!even || (q & 1)))) q++;
    return vpd_make(p.s, q, 0);
}
static inline vpd round(vpd x) { return vpd_round(x, false); }
static inline vpd rint(vpd x) { return vpd_round(x, true); }
static inline vpd nearbyint(vpd x) { return vpd_round(x, true); }
static inline long lround(vpd x) { return round(x); }
static inline long lrint(vpd x) { return rint(x); }
static inline vpd modf(vpd x, vpd *i) { *i = trunc(x); return x - *i; }
static inline int ilogb(vpd x) { int e; frexp(x, &e); return e - 1; }
static inline vpd logb(vpd x) { return ilogb(x); }
namespace std {
static inline bool signbit(vpd x) { return x.b >> 63; }
static inline bool isnan(vpd x) { return vpd_nan(x); }
static inline bool isinf(vpd x) { return (x.b & ~(((uint64_t)1) << 63)) == ((uint64_t)2047 << 52); }
static inline bool isfinite(vpd x) { return vpd_split(x).cls <= 1; }
static inline bool isnormal(vpd x) { uint64_t e = (x.b >> 52) & 2047; return e && e != 2047; }
static inline int fpclassify(vpd x)
{
    uint64_t e = (x.b >> 52) & 2047, f = x.b << 12;
    return e == 2047 ? (f ? FP_NAN : FP_INFINITE) : e == 0 ? (f ? FP_SUBNORMAL : FP_ZERO) : FP_NORMAL;
}
static inline vpd abs(vpd x) { return ::fabs(x); }
static inline vpd fabs(vpd x) { return ::fabs(x); }
using ::trunc; using ::floor; using ::ceil; using ::round; using ::rint; using ::nearbyint; using ::lround; using ::lrint; using ::modf; using ::ilogb; using ::logb;
template<> struct numeric_limits<vpd> : numeric_limits<vpd_builtin> {
    static constexpr vpd infinity() { return numeric_limits<vpd_builtin>::infinity(); }
    static constexpr vpd quiet_NaN() { return numeric_limits<vpd_builtin>::quiet_NaN(); }
    static constexpr vpd max() { return numeric_limits<vpd_builtin>::max(); }
    static constexpr vpd min() { return numeric_limits<vpd_builtin>::min(); }
    static constexpr vpd lowest() { return numeric_limits<vpd_builtin>::lowest(); }
    static constexpr vpd epsilon() { return numeric_limits<vpd_builtin>::epsilon(); }
    static constexpr vpd denorm_min() { return numeric_limits<vpd_builtin>::denorm_min(); }
};
static inline vpd copysign(vpd x, vpd y) { return ::copysign(x, y); }
static inline vpd ldexp(vpd x, int k) { return ::ldexp(x, k); }
template<class T, class = std::enable_if_t<std::is_integral<T>::value>> static inline vpd ldexp(T x, int k) { return ::ldexp(vpd(x), k); }
static inline vpd scalbn(vpd x, int k) { return ::ldexp(x, k); }
static inline vpd frexp(vpd x, int *e) { return ::frexp(x, e); }
}
using std::signbit; using std::fpclassify; using std::isnan; using std::isinf; using std::isfinite; using std::isnormal;
