// Abstract domain: exact integer polynomials over interval-bounded atoms.
//
// Every abstract integer is a polynomial with (big) integer coefficients over atoms.
// An atom is an interval-bounded variable or a floor/compare/and of polynomials.
// Variables are re-based on demand (v := 2^k*hi + lo) so that bit slices stay affine.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>
#include <algorithm>
#include <random>
#include <stdexcept>

typedef signed _BitInt(256) Int;
typedef unsigned _BitInt(256) UInt;
typedef unsigned __int128 u128;

static inline Int pow2(int k) { return ((Int)1) << k; }
static inline Int fshr(Int v, int k) { return v >> k; } // arithmetic: floor
static inline Int fdiv(Int a, Int b) { Int q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q -= 1; return q; }
static inline Int iabs(Int a) { return a < 0 ? -a : a; }
static inline Int igcd(Int a, Int b) { a = iabs(a); b = iabs(b); while (b != 0) { Int t = a % b; a = b; b = t; } return a; }
static inline int val2(Int a) { if (a == 0) return 100000; int k = 0; UInt u = (UInt)a; while ((uint64_t)u == 0) { u >>= 64; k += 64; } return k + __builtin_ctzll((uint64_t)u); }
static inline int bitlen(Int a) { int n = 0; UInt u = (UInt)a; while (u >> 64 != 0) { u >>= 64; n += 64; } uint64_t x = (uint64_t)u; return n + (x ? 64 - __builtin_clzll(x) : 0); }
static inline std::string istr(Int v)
{
    if (v == 0) return "0";
    bool neg = v < 0; UInt u = neg ? (UInt)(-v) : (UInt)v;
    std::string s;
    while (u != 0) { s += char('0' + (int)(u % 10)); u /= 10; }
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}

struct Infeasible {};                       // the current cell is empty
struct GiveUp { std::string why; };         // the domain cannot follow

typedef int P; // poly id
struct Term {
    int m; Int c; int64_t sc = 0; bool sm = false;
    Term() : m(0), c(0) {}
    Term(int m_, Int c_) : m(m_), c(c_) { sm = c_ < ((Int)1 << 60) && c_ > -((Int)1 << 60); if (sm) sc = (int64_t)c_; else if (c_ >= ((Int)1 << 210) || c_ <= -((Int)1 << 210)) throw std::runtime_error("coefficient"); }
};
struct PolyRep { std::vector<Term> t; };
enum AK { A_VAR, A_GE, A_OPQ };
enum DK { D_INPUT, D_FLOOR, D_MOD, D_FREE };
struct Atom {
    AK kind; Int lo, hi;
    P p = -1, q = -1; int k = 0;     // GE(p) FLOOR(p,k) AND(p,q)  / VAR definition operand
    DK def = D_INPUT;
    std::string name;                // VAR or OPQ operator
    std::vector<P> args;             // OPQ
    bool has_sub = false; P sub = -1;
};

struct Ctx {
    std::vector<PolyRep> polys;
    std::unordered_multimap<size_t, int> polyIdx;
    std::vector<std::vector<int>> monos;
    std::unordered_multimap<size_t, int> monoIdx;
    std::vector<Atom> atoms;
    std::map<std::vector<int>, int> atomIdx; // structured key
    std::unordered_map<int, P> monoRule;     // mono -> poly
    std::set<int> prodVars;                  // factors of eliminated products
    std::vector<P> facts;                    // each >= 0
    std::vector<P> factsRaw;                 // unresolved copies, for concretisation checks
    std::vector<int> inputs;                 // VAR atoms that are harness inputs
    int epoch = 0;
    std::vector<std::pair<int, P>> resCache;    // poly -> (epoch,res)
    // decisions
    std::vector<int> choice, arity; size_t ci = 0;
    std::function<void()> onDecide; std::function<void(P, P, int)> onBits;
    long nRebase = 0, nSlice = 0, nDecide = 0, nRange = 0;
    long budgetOps = 0;

    Ctx() { monos.push_back({}); monoIdx.emplace(hashMono({}), 0); }

    static size_t hashMono(const std::vector<int> &v) { size_t h = 0x9e3779b9; for (int x : v) h = (h ^ x) * 0x100000001b3ull + 0x1234567; return h; }
    static size_t hashInt(const Int &v) { uint64_t w[4]; memcpy(w, &v, 32); size_t h = 0; for (int i = 0; i < 4; i++) h = (h ^ w[i]) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; }

    int mono(std::vector<int> v)
    {
        if (v.size() > 1) {
            std::sort(v.begin(), v.end());
            size_t o = 0;
            for (size_t i = 0; i < v.size(); i++) { if (o && v[o - 1] == v[i] && isBool(v[i])) continue; v[o++] = v[i]; }
            v.resize(o);
        }
        size_t h = hashMono(v);
        auto r = monoIdx.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) if (monos[it->second] == v) return it->second;
        int id = monos.size(); monos.push_back(v); monoIdx.emplace(h, id);
        return id;
    }
    P intern(std::vector<Term> &&t)
    {
        size_t h = t.size();
        for (auto &x : t) h = (h * 31 + x.m) ^ (x.sm ? (size_t)x.sc * 0x9E3779B97F4A7C15ull : hashInt(x.c));
        auto r = polyIdx.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            auto &o = polys[it->second].t;
            if (o.size() != t.size()) continue;
            bool eq = true;
            for (size_t i = 0; i < t.size() && eq; i++) eq = o[i].m == t[i].m && o[i].sm == t[i].sm && (t[i].sm ? o[i].sc == t[i].sc : o[i].c == t[i].c);
            if (eq) return it->second;
        }
        int id = polys.size();
        polys.push_back({std::move(t)});
        polyIdx.emplace(h, id);
        return id;
    }
    P build(std::map<int, Int> &acc) { std::vector<Term> t; for (auto &e : acc) if (e.second != 0) t.push_back({e.first, e.second}); if (t.size() > 3000) throw GiveUp{"polynomial too large"}; return intern(std::move(t)); }
    P cst(Int c) { std::vector<Term> t; if (c != 0) t.push_back({0, c}); return intern(std::move(t)); }
    bool isConst(P p) { auto &t = polys[p].t; return t.empty() || (t.size() == 1 && t[0].m == 0); }
    Int constOf(P p) { auto &t = polys[p].t; if (t.empty()) return 0; return t[0].m == 0 ? t[0].c : (Int)0; }
    P lin(P a, Int ca, P b, Int cb)
    {
        if (cb == 0 && ca == 1) return a;
        std::vector<Term> t; auto &x = polys[a].t; auto &y = polys[b].t;
        t.reserve(x.size() + y.size());
        size_t i = 0, j = 0;
        bool sa = fits(ca, 60), sb = fits(cb, 60);
        int64_t ica = sa ? (int64_t)ca : 0, icb = sb ? (int64_t)cb : 0;
        auto put = [&](int m, __int128 v) { if (v != 0) t.push_back(Term(m, (Int)v)); };
        while (i < x.size() || j < y.size()) {
            if (j == y.size() || (i < x.size() && x[i].m < y[j].m)) {
                if (sa && x[i].sm) put(x[i].m, (__int128)x[i].sc * ica); else { Int c = x[i].c * ca; if (c != 0) t.push_back({x[i].m, c}); }
                i++;
            } else if (i == x.size() || y[j].m < x[i].m) {
                if (sb && y[j].sm) put(y[j].m, (__int128)y[j].sc * icb); else { Int c = y[j].c * cb; if (c != 0) t.push_back({y[j].m, c}); }
                j++;
            } else {
                if (sa && sb && x[i].sm && y[j].sm) put(x[i].m, (__int128)x[i].sc * ica + (__int128)y[j].sc * icb);
                else { Int c = x[i].c * ca + y[j].c * cb; if (c != 0) t.push_back({x[i].m, c}); }
                i++; j++;
            }
        }
        if (t.size() > 3000) throw GiveUp{"polynomial too large"};
        return intern(std::move(t));
    }
    P add(P a, P b) { return lin(a, 1, b, 1); }
    P sub(P a, P b) { return lin(a, 1, b, -1); }
    P addc(P a, Int c) { return c == 0 ? a : lin(a, 1, cst(c), 1); }
    P scale(P a, Int c) { return lin(a, c, cst(0), 0); }
    P atomP(int a) { std::vector<Term> t; t.push_back({mono({a}), 1}); return intern(std::move(t)); }
    P mul(P a, P b)
    {
        if (isConst(a)) return scale(b, constOf(a));
        if (isConst(b)) return scale(a, constOf(b));
        std::map<int, Int> acc;
        auto x = polys[a].t; auto y = polys[b].t;
        if (x.size() * y.size() > 20000) throw GiveUp{"product too large"};
        for (auto &s : x) for (auto &r : y) {
            std::vector<int> v = monos[s.m]; v.insert(v.end(), monos[r.m].begin(), monos[r.m].end());
            if (v.size() > 24) throw GiveUp{"degree too large"};
            acc[mono(v)] += s.c * r.c;
        }
        return build(acc);
    }

    // ---- atoms
    bool isBool(int a) { auto &A = atoms[a]; return A.lo >= 0 && A.hi <= 1; }
    int newVar(const std::string &name, Int lo, Int hi, DK def = D_INPUT, P dp = -1, int dk = 0)
    {
        Atom A; A.kind = A_VAR; A.lo = lo; A.hi = hi; A.name = name; A.def = def; A.p = dp; A.k = dk;
        atoms.push_back(A);
        if (atoms.size() > 20000) throw GiveUp{"too many atoms"};
        if (def == D_INPUT) inputs.push_back((int)atoms.size() - 1);
        return atoms.size() - 1;
    }
    int atomFor(AK k, P p, P q, int kk, Int lo, Int hi)
    {
        std::vector<int> key{(int)k, p, q, kk};
        auto it = atomIdx.find(key);
        if (it != atomIdx.end()) return it->second;
        Atom A; A.kind = k; A.p = p; A.q = q; A.k = kk; A.lo = lo; A.hi = hi;
        atoms.push_back(A);
        if (atoms.size() > 20000) throw GiveUp{"too many atoms"};
        return atomIdx[key] = atoms.size() - 1;
    }
    P opq(const std::string &op, std::vector<P> args, Int lo, Int hi)
    {
        static std::map<std::string, int> opid;
        int o = opid.emplace(op, (int)opid.size()).first->second;
        std::vector<int> key{100, o}; key.insert(key.end(), args.begin(), args.end());
        auto it = atomIdx.find(key);
        if (it != atomIdx.end()) return atomP(it->second);
        Atom A; A.kind = A_OPQ; A.name = op; A.args = args; A.lo = lo; A.hi = hi;
        atoms.push_back(A);
        int id = atomIdx[key] = atoms.size() - 1;
        return atomP(id);
    }

    // ---- resolution of substitutions
    std::unordered_map<P, std::vector<P>> bview;
    P resolve(P p)
    {
        if ((int)resCache.size() < (int)polys.size()) resCache.resize(polys.size() + 256, {-1, -1});
        if (resCache[p].first == epoch) return resCache[p].second;
        int e0 = epoch;
        bool need = false;
        for (auto &t : polys[p].t) if (monoNeeds(t.m)) { need = true; break; }
        P r = p;
        if (need) {
            auto ts = polys[p].t;
            r = cst(0);
            for (auto &t : ts) {
                P mp = resolveMono(t.m);
                r = lin(r, 1, mp, t.c);
            }
            if (r != p) r = resolve(r);
        }
        if ((int)resCache.size() < (int)polys.size()) resCache.resize(polys.size() + 256, {-1, -1});
        if (epoch == e0) { resCache[p] = {epoch, r}; }
        if (bitv && r != p && !isConst(r) && bview.count(p) && !bview.count(r)) {
            std::vector<P> b = bview[p];
            for (auto &x : b) x = resolve(x);
            bview[r] = b;
        }
        return r;
    }
    std::unordered_map<int, std::pair<int, bool>> needCache;
    bool monoNeeds(int m)
    {
        if (m == 0) return false;
        if (!monoRule.empty() && monoRule.count(m)) return true;
        auto &v = monos[m];
        for (size_t i = 0; i < v.size(); i++) {
            if (atomNeeds(v[i])) return true;
            if (i && v[i] == v[i - 1] && isBool(v[i])) return true;
            if (!monoRule.empty() && v.size() > 2) for (size_t j = i + 1; j < v.size(); j++) { std::vector<int> pr{v[i], v[j]}; int pm = mono(pr); if (monoRule.count(pm)) return true; }
        }
        return false;
    }
    bool atomNeeds(int a)
    {
        Atom &A = atoms[a];
        if (A.has_sub || A.lo == A.hi) return true;
        if (A.kind == A_VAR) return false;
        auto it = needCache.find(a);
        if (it != needCache.end() && it->second.first == epoch) return it->second.second;
        bool n = false;
        if (A.p >= 0) n = resolve(A.p) != A.p;
        if (!n && atoms[a].q >= 0) n = resolve(atoms[a].q) != atoms[a].q;
        if (!n) { auto args = atoms[a].args; for (P x : args) if (resolve(x) != x) { n = true; break; } }
        needCache[a] = {epoch, n};
        return n;
    }
    int resDepth = 0;
    P resolveAtom(int a)
    {
        Atom A = atoms[a];
        if (A.lo == A.hi) return cst(A.lo);
        if (A.has_sub) return resolve(A.sub);
        if (A.kind == A_VAR) return atomP(a);
        if (!atomNeeds(a)) return atomP(a);
        if (++resDepth > 200) throw GiveUp{"resolution depth"};
        P r;
        switch (A.kind) {
        case A_GE: r = mkGE(resolve(A.p)); break;
        default: { std::vector<P> v; for (P x : A.args) v.push_back(resolve(x)); r = mkOpq(A.name, v, A.lo, A.hi); }
        }
        resDepth--;
        return r;
    }
    P mkOpq(const std::string &op, std::vector<P> v, Int lo, Int hi)
    {
        bool allc = true; std::vector<Int> c; for (P x : v) { if (!isConst(x)) allc = false; else c.push_back(constOf(x)); }
        if (allc) return cst(evalOpq(op, c));
        return opq(op, v, lo, hi);
    }
    static Int evalOpq(const std::string &op, const std::vector<Int> &c)
    {
        if (op == "udiv") return c[0] / c[1];
        if (op == "urem") return c[0] % c[1];
        throw GiveUp{"opaque " + op};
    }
    P resolveMono(int m)
    {
        auto rit = monoRule.find(m);
        if (rit != monoRule.end()) return resolve(rit->second);
        std::vector<int> v = monos[m];
        if (!monoRule.empty() && v.size() > 2) {
            for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
                std::vector<int> pr{v[i], v[j]}; int pm = mono(pr);
                if (monoRule.count(pm)) {
                    P r = resolve(monoRule[pm]);
                    for (size_t k = 0; k < v.size(); k++) if (k != i && k != j) r = mul(r, resolveAtom(v[k]));
                    return r;
                }
            }
        }
        P r = cst(1);
        for (int a : v) r = mul(r, resolveAtom(a));
        return r;
    }

    // ---- ranges
    struct MR { int ep = -1; bool small = false; Int lo, hi; __int128 slo, shi; };
    std::vector<MR> mrc;
    static bool fits(const Int &v, int bits) { return v < pow2(bits) && v > -pow2(bits); }
    const MR &mrange(int m)
    {
        if ((int)mrc.size() < (int)monos.size()) mrc.resize(monos.size() + 64);
        MR &r = mrc[m];
        if (r.ep == epoch) return r;
        Int lo = 1, hi = 1;
        int bits = 0;
        for (int a : monos[m]) {
            const Int &l = atoms[a].lo, &h = atoms[a].hi;
            bits += std::max(bitlen(iabs(l)), bitlen(iabs(h)));
            if (bits > 220) throw GiveUp{"value too wide"};
            if (lo >= 0 && l >= 0) { lo = lo * l; hi = hi * h; continue; }
            Int c[4] = {lo * l, lo * h, hi * l, hi * h};
            lo = hi = c[0];
            for (int i = 1; i < 4; i++) { if (c[i] < lo) lo = c[i]; if (c[i] > hi) hi = c[i]; }
        }
        r.lo = lo; r.hi = hi; r.ep = epoch;
        r.small = bits <= 62;
        if (r.small) { r.slo = (__int128)lo; r.shi = (__int128)hi; }
        return r;
    }
    void monoRange(int m, Int &lo, Int &hi) { auto &r = mrange(m); lo = r.lo; hi = r.hi; }
    void range(P p, Int &lo, Int &hi)
    {
        nRange++;
        auto &ts = polys[p].t;
        __int128 sl = 0, sh = 0;
        lo = hi = 0;
        for (auto &t : ts) {
            if (t.m == 0) { if (t.sm) { sl += t.sc; sh += t.sc; } else { lo += t.c; hi += t.c; } continue; }
            auto &r = mrange(t.m);
            if (t.sm && r.small) {
                if (t.sc > 0) { sl += (__int128)t.sc * r.slo; sh += (__int128)t.sc * r.shi; } else { sl += (__int128)t.sc * r.shi; sh += (__int128)t.sc * r.slo; }
            } else if (t.c > 0) { lo += t.c * r.lo; hi += t.c * r.hi; } else { lo += t.c * r.hi; hi += t.c * r.lo; }
        }
        lo += (Int)sl; hi += (Int)sh;
    }
    // lower bound with facts: p = a*L + rest  ==> p >= min(rest)
    Int lowerF(P p, int depth)
    {
        Int lo, hi; range(p, lo, hi);
        if (depth == 0) return lo;
        size_t nf = facts.size();
        for (size_t i = 0; i < nf; i++) {
            P L = facts[i];
            std::vector<Int> tried;
            // copy terms: intern may reallocate
            std::vector<std::pair<Int, Int>> cand;
            {
                auto &x = polys[p].t; auto &y = polys[L].t; size_t a = 0, b = 0;
                while (a < x.size() && b < y.size()) {
                    if (x[a].m < y[b].m) a++; else if (y[b].m < x[a].m) b++;
                    else { if (x[a].m != 0 && (x[a].c > 0) == (y[b].c > 0)) cand.push_back({x[a].c, y[b].c}); a++; b++; }
                }
            }
            for (auto &cc : cand) {
                // a = cx/cy : use rational by scaling p: (cy*p - cx*L)/cy
                Int cx = iabs(cc.first), cy = iabs(cc.second);
                Int g = igcd(cx, cy); cx /= g; cy /= g;
                if (cy > pow2(70) || cx > pow2(70)) continue;
                bool dup = false; for (auto &t : tried) if (t == cx * 1000003 + cy) dup = true;
                if (dup) continue;
                tried.push_back(cx * 1000003 + cy);
                P rest = lin(p, cy, L, -cx);
                Int rl = depth > 1 ? lowerF(rest, depth - 1) : rawLo(rest);
                Int b = -fdiv(-rl, cy); // ceil(rl/cy)
                if (b > lo) lo = b;
            }
        }
        return lo;
    }
    // exact bounds of an affine form over two variables under the affine facts about them (convex polygon)
    int bisectN = 0; bool planar = false, symq = false, bitv = false; int quot = 0;
    struct Vtx { Int x, y, w, ea, eb, ec; }; // point (x/w,y/w), line of the edge to the next vertex
    std::map<std::pair<int, int>, std::pair<std::vector<Int>, std::vector<Vtx>>> polyCache;
    bool affine2(P p, int &x, int &y) // all variables of p within {x,y} (extended while <0)
    {
        for (auto &t : polys[p].t) {
            if (t.m == 0) continue;
            auto &v = monos[t.m];
            if (v.size() != 1 || atoms[v[0]].kind != A_VAR || t.c > pow2(60) || t.c < -pow2(60)) return false;
            if (v[0] == x || v[0] == y) continue;
            if (x < 0) x = v[0]; else if (y < 0) y = v[0]; else return false;
        }
        return true;
    }
    static int sg(const Int &v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
    void clip(std::vector<Vtx> &g, Int a, Int b, Int c)
    {
        std::vector<Vtx> o; size_t n = g.size();
        std::vector<int> s(n);
        bool any = false;
        for (size_t i = 0; i < n; i++) { s[i] = sg(a * g[i].x + b * g[i].y + c * g[i].w); if (s[i] < 0) any = true; }
        if (!any) return;
        auto cross = [&](const Vtx &e) { // edge line of e with the clip line
            Int w = e.ea * b - e.eb * a, x = e.eb * c - e.ec * b, y = e.ec * a - e.ea * c;
            if (w < 0) { w = -w; x = -x; y = -y; }
            Int d = igcd(igcd(w, x), y); if (d > 1) { w /= d; x /= d; y /= d; }
            return Vtx{x, y, w, 0, 0, 0};
        };
        for (size_t i = 0; i < n; i++) {
            size_t j = (i + 1) % n;
            if (s[i] >= 0) {
                Vtx v = g[i];
                if (s[j] < 0) {
                    if (s[i] > 0) { o.push_back(v); v = cross(g[i]); }
                    v.ea = a; v.eb = b; v.ec = c;
                }
                o.push_back(v);
            } else if (s[j] > 0) { Vtx v = cross(g[i]); v.ea = g[i].ea; v.eb = g[i].eb; v.ec = g[i].ec; o.push_back(v); }
        }
        g = o;
    }
    const std::vector<Vtx> *polygon(int x, int y)
    {
        if (x > y) std::swap(x, y);
        std::vector<Int> key{(Int)(int64_t)factsRaw.size(), (Int)epoch, atoms[x].lo, atoms[x].hi, atoms[y].lo, atoms[y].hi};
        auto &ent = polyCache[{x, y}];
        if (ent.first == key) return &ent.second;
        Int xl = atoms[x].lo, xh = atoms[x].hi, yl = atoms[y].lo, yh = atoms[y].hi;
        if (iabs(xl) > pow2(60) || iabs(xh) > pow2(60) || iabs(yl) > pow2(60) || iabs(yh) > pow2(60)) return nullptr;
        std::vector<Vtx> g{{xl, yl, 1, 0, 1, -yl}, {xh, yl, 1, -1, 0, xh}, {xh, yh, 1, 0, -1, yh}, {xl, yh, 1, 1, 0, -xl}};
        for (P f : facts) {
            f = resolve(f); int u = x, v = y;
            if (!affine2(f, u, v)) continue;
            Int a = 0, b = 0, c = 0;
            for (auto &t : polys[f].t) { if (t.m == 0) c = t.c; else if (monos[t.m][0] == x) a = t.c; else b = t.c; }
            if (a == 0 && b == 0) continue;
            clip(g, a, b, c);
            if (g.empty()) throw Infeasible{};
        }
        ent.first = key; ent.second = g;
        return &ent.second;
    }
    void rangePlanar(P p, Int &lo, Int &hi)
    {
        int x = -1, y = -1;
        if (!affine2(p, x, y) || x < 0) return;
        if (y < 0) for (P f : facts) { int u = x, v = -1; f = resolve(f); if (affine2(f, u, v) && v >= 0) { bool hx = false; for (auto &t : polys[f].t) if (t.m && monos[t.m][0] == x) hx = true; if (hx) { y = v; break; } } }
        if (y < 0) return;
        if (x > y) std::swap(x, y);
        auto *g = polygon(x, y);
        if (!g) return;
        Int a = 0, b = 0, c = 0;
        for (auto &t : polys[p].t) { if (t.m == 0) c = t.c; else if (monos[t.m][0] == x) a = t.c; else b = t.c; }
        bool first = true; Int l = 0, h = 0;
        for (auto &v : *g) {
            Int n = a * v.x + b * v.y + c * v.w;
            Int cl = -fdiv(-n, v.w), fl = fdiv(n, v.w);
            if (first || cl < l) l = cl;
            if (first || fl > h) h = fl;
            first = false;
        }
        if (l > lo) lo = l;
        if (h < hi) hi = h;
        if (lo > hi) throw Infeasible{};
    }
    Int rawLo(P p) { Int l, h; range(p, l, h); return l; }
    // lower bound of a polynomial with products: p = c*x + p0 with the sign of c known, and a fact a*x + rest >= 0
    // bounding x on the side that matters, give |a|*p >= |a|*p0 -/+ c*rest, where x no longer occurs
    int lowerQn = 0;
    Int lowerQ(P p, int depth)
    {
        Int lo, hi; range(p, lo, hi);
        if (depth == 0 || lo >= 0 || hi < 0 || isConst(p)) return lo;
        std::vector<int> xs;
        for (auto &t : polys[p].t) for (int a : monos[t.m]) if (atoms[a].kind == A_VAR) xs.push_back(a);
        std::sort(xs.begin(), xs.end(), std::greater<int>()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
        int used = 0;
        for (int x : xs) {
            std::vector<Term> pt; std::vector<std::pair<std::vector<int>, Int>> ct; bool deg1 = true;
            for (auto &t : polys[p].t) {
                std::vector<int> rest; int d = 0;
                for (int a : monos[t.m]) if (a == x) d++; else rest.push_back(a);
                if (d > 1) { deg1 = false; break; }
                if (d == 0) pt.push_back(t); else ct.push_back({rest, t.c});
            }
            if (!deg1) continue;
            P c = cst(0);
            for (auto &x1 : ct) c = add(c, intern({Term(mono(x1.first), x1.second)}));
            P p0 = intern(std::move(pt));
            Int cl, ch; range(c, cl, ch);
            int sg = cl >= 0 ? 1 : ch <= 0 ? -1 : 0;
            if (!sg) continue;
            size_t nf = facts.size(); bool any = false;
            for (size_t i = 0; i < nf; i++) {
                P f = facts[i]; Int a = 0; bool pure = true;
                std::vector<Term> rt;
                for (auto &t : polys[f].t) {
                    auto &v = monos[t.m]; bool has = false; for (int y : v) has |= y == x;
                    if (!has) rt.push_back(t); else if (v.size() == 1) a = t.c; else pure = false;
                }
                if (!pure || a == 0 || (a > 0) != (sg > 0)) continue;
                if (++lowerQn > 400) return lo;
                any = true;
                Int A = iabs(a); P rest = intern(std::move(rt));
                P q = sub(scale(p0, A), scale(mul(c, rest), sg > 0 ? 1 : -1));
                if (polys[q].t.size() > 60) continue;
                Int g = 0; for (auto &t : polys[q].t) g = igcd(g, t.c);
                g = igcd(g, A);
                if (g > 1) { auto ts = polys[q].t; for (auto &t : ts) t = Term(t.m, t.c / g); q = intern(std::move(ts)); A /= g; }
                Int l = -fdiv(-lowerQ(q, depth - 1), A);
                if (l > lo) lo = l;
                if (lo >= 0) return lo;
            }
            if (any && ++used >= 2) break;
        }
        return lo;
    }
    bool nonlinear(P p) { for (auto &t : polys[p].t) if (monos[t.m].size() > 1) return true; return false; }
    void rangeQ(P p, Int &lo, Int &hi)
    {
        if (!nonlinear(p)) return;
        try { lowerQn = 0; Int l = lowerQ(p, 4); if (l > lo) lo = l; } catch (std::runtime_error &) {} catch (GiveUp &) {}
        if (lo >= 0) return;
        try { lowerQn = 0; Int h = -lowerQ(scale(p, -1), 4); if (h < hi) hi = h; } catch (std::runtime_error &) {} catch (GiveUp &) {}
    }
    void rangeF(P p, Int &lo, Int &hi, int depth = 2)
    {
        range(p, lo, hi);
        if (facts.empty() || lo == hi) return;
        if (factsEpoch != epoch) { for (auto &f : facts) f = resolve(f); factsEpoch = epoch; }
        if (planar) { int x = -1, y = -1; if (affine2(p, x, y)) { rangePlanar(p, lo, hi); return; } }
        if (quot) { rangeQ(p, lo, hi); if (lo > hi) throw Infeasible{}; }
        P n = scale(p, -1);
        Int l2 = lowerF(p, depth), h2 = -lowerF(n, depth);
        if (l2 > lo) lo = l2;
        if (h2 < hi) hi = h2;
        if (lo > hi) throw Infeasible{};
    }

    // ---- interval updates / facts
    void setBounds(int a, Int lo, Int hi)
    {
        Atom &A = atoms[a];
        bool ch = false;
        if (lo > A.lo) { A.lo = lo; ch = true; }
        if (hi < A.hi) { A.hi = hi; ch = true; }
        if (!ch) return;
        if (A.lo > A.hi) throw Infeasible{};
        bool c = A.lo == A.hi;
        if (c && A.kind == A_GE) {
            P f = A.lo == 1 ? A.p : addc(scale(A.p, -1), -1);
            epoch++;
            pushFact(f);
            return;
        }
        epoch++;
    }
    bool factsDirty = false; int factsEpoch = -1;
    void pushFact(P f) { facts.push_back(f); factsRaw.push_back(f); factsDirty = true; }
    void addFact(P f) // f >= 0
    {
        pushFact(f);
        propagate();
    }
    void propagate()
    {
        for (int round = 0; round < 12; round++) {
            factsDirty = false;
            bool changed = false;
            std::vector<P> nf;
            size_t n0 = facts.size();
            for (size_t i = 0; i < n0; i++) {
                P f = resolve(facts[i]);
                Int lo, hi; range(f, lo, hi);
                if (hi < 0) throw Infeasible{};
                if (lo >= 0) { facts[i] = -1; changed = true; continue; }
                facts[i] = f;
                auto ts = polys[f].t;
                // tighten linear atoms
                for (auto &t : ts) {
                    if (t.m == 0) continue;
                    auto &v = monos[t.m];
                    if (v.size() != 1) continue;
                    int a = v[0];
                    Int l = atoms[a].lo, h = atoms[a].hi;
                    Int mx = t.c > 0 ? t.c * h : t.c * l;
                    Int others = hi - mx; // max of the rest
                    // t.c*v + others >= 0
                    if (t.c > 0) { Int b = -fdiv(others, t.c); if (b > l) { setBounds(a, b, h); changed = true; break; } }
                    else { Int b = fdiv(others, -t.c); if (b < h) { setBounds(a, l, b); changed = true; break; } }
                }
            }
            // facts over the same linear form: keep the strongest, detect contradictions and equalities
            std::vector<P> out; std::map<P, std::pair<Int, size_t>> byForm; P eq = -1;
            for (P f : facts) if (f >= 0) {
                f = resolve(f);
                Int c = constOf(f); P form = addc(f, -c);
                if (isConst(form)) { if (c < 0) throw Infeasible{}; continue; }
                auto it = byForm.find(form);
                if (it != byForm.end()) { if (c < it->second.first) { it->second.first = c; out[it->second.second] = f; } continue; }
                byForm[form] = {c, out.size()};
                out.push_back(f);
            }
            for (auto &e : byForm) {
                P neg = scale(e.first, -1);
                auto it = byForm.find(neg);
                if (it == byForm.end()) continue;
                Int sum = e.second.first + it->second.first;
                if (sum < 0) throw Infeasible{};
                if (sum == 0 && eq < 0) eq = out[e.second.second];
            }
            facts = out;
            if (eq >= 0 && solveEq(eq)) changed = true;
            if (!changed && !factsDirty) break;
        }
    }
    // eq == 0: eliminate a variable with unit coefficient
    bool solveEq(P eq)
    {
        int best = -1; Int bw = -1, bc = 0;
        for (auto &t : polys[eq].t) {
            if (t.m == 0 || (t.c != 1 && t.c != -1) || monos[t.m].size() != 1) continue;
            int a = monos[t.m][0];
            if (atoms[a].kind != A_VAR) continue;
            bool occ = false;
            for (auto &u : polys[eq].t) if (u.m != t.m) for (int b : monos[u.m]) { if (b == a) occ = true; if (atoms[b].kind == A_OPQ && opqHas(b, a, 0)) occ = true; }
            if (occ) continue;
            Int w = atoms[a].hi - atoms[a].lo;
            if (w > bw) { bw = w; best = a; bc = t.c; }
        }
        if (best < 0) return false;
        P def = lin(eq, -bc, atomP(best), 1); // bc*x + rest = 0  =>  x = -bc*rest = x - bc*eq
        Int l = atoms[best].lo, h = atoms[best].hi;
        setSub(best, def);
        pushFact(addc(def, -l)); pushFact(addc(scale(def, -1), h));
        return true;
    }
    void setSub(int a, P s) { atoms[a].has_sub = true; atoms[a].sub = s; epoch++; }

    // slice var a at bit k : a = 2^k*hi + lo
    void slice(int a, int k)
    {
        nSlice++;
        Int lo = atoms[a].lo, hi = atoms[a].hi;
        Int bl = fshr(lo, k), bh = fshr(hi, k);
        P self = atomP(a);
        int vh = newVar(atoms[a].name + "h" + std::to_string(k), bl, bh, D_FLOOR, self, k);
        int vl = newVar(atoms[a].name + "l" + std::to_string(k), 0, pow2(k) - 1, D_MOD, self, k);
        P s = lin(atomP(vh), pow2(k), atomP(vl), 1);
        setSub(a, s);
        bool al = (lo == bl * pow2(k)), ah = (hi == (bh + 1) * pow2(k) - 1);
        if (!al) pushFact(addc(s, -lo));
        if (!ah) pushFact(addc(scale(s, -1), hi));
        if (!al || !ah) propagate();
    }
    // make p a polynomial over variables only (partition on every comparison left in it)
    P flat(P p)
    {
        for (int it = 0; it < 400; it++) {
            p = resolve(p);
            int best = -1; size_t bs = 1e9;
            for (auto &t : polys[p].t) for (int a : monos[t.m]) if (atoms[a].kind == A_GE) {
                size_t s = polys[atoms[a].p].t.size();
                if (s < bs) { bs = s; best = a; }
            }
            if (best < 0) return p;
            splitAtom(best);
        }
        throw GiveUp{"flat: no convergence"};
    }
    bool opqHas(int o, int x, int d)
    {
        if (d > 20) return true;
        auto args = atoms[o].args;
        for (P q : args) for (auto &t : polys[resolve(q)].t) for (int b : monos[t.m]) { if (b == x) return true; if (atoms[b].kind == A_OPQ && opqHas(b, x, d + 1)) return true; }
        return false;
    }
    // introduce R = 2^k*q + m by eliminating a unit-coefficient monomial of R; returns q or -1
    P rebase(P R, int k)
    {
        auto ts = polys[R].t;
        int best = -1; Int bestw = -1; Int bc = 0;
        for (auto &t : ts) {
            if (t.m == 0 || (t.c != 1 && t.c != -1)) continue;
            auto &v = monos[t.m];
            if (v.size() == 1 && atoms[v[0]].kind != A_VAR) continue;
            bool bad = false;
            if (v.size() > 1) { int nb = 0; for (int a : v) { if (atoms[a].kind != A_VAR) bad = true; if (!isBool(a)) nb++; } if (v.size() != 2 || nb != 2) bad = true; }
            if (bad) continue;
            if (v.size() == 1 && isBool(v[0]) && !symq) continue;
            // the eliminated variable (both factors of an eliminated product) must not occur in other monomials of R
            {
                bool occ = false;
                for (auto &u : ts) if (u.m != t.m) {
                    auto &um = monos[u.m];
                    auto has = [&](int x) { return std::find(um.begin(), um.end(), x) != um.end(); };
                    if (v.size() == 1 ? has(v[0]) : (has(v[0]) && has(v[1]))) occ = true;
                    for (int b : um) if (atoms[b].kind == A_OPQ) for (int x : v) if (opqHas(b, x, 0)) occ = true;
                }
                if (occ) continue;
            }
            Int l, h; monoRange(t.m, l, h);
            Int w = h - l;
            if (v.size() > 1) w = w * 4; // prefer eliminating products
            else if (prodVars.count(v[0])) w = w > 0 ? 1 : 0; // substituting a factor would bring back higher powers
            if (w > bestw) { bestw = w; best = t.m; bc = t.c; }
        }
        if (best < 0) return -1;
        nRebase++;
        Int lo, hi; rangeF(R, lo, hi);
        int q = newVar("q", fshr(lo, k), fshr(hi, k), D_FLOOR, R, k);
        int m = -1;
        P val = scale(atomP(q), pow2(k));
        if (k > 0) { m = newVar("m", 0, pow2(k) - 1, D_MOD, R, k); val = add(val, atomP(m)); }
        // R = val ; R = bc*best + rest
        std::vector<Term> t1; t1.push_back({best, 1});
        P mono1 = intern(std::move(t1));
        P rest = lin(R, 1, mono1, -bc);
        P def = scale(sub(val, rest), bc); // bc is +-1
        std::vector<int> v = monos[best];
        if (v.size() == 1) {
            Int l = atoms[v[0]].lo, h = atoms[v[0]].hi;
            setSub(v[0], def);
            pushFact(addc(def, -l)); pushFact(addc(scale(def, -1), h));
        } else {
            monoRule[best] = def; epoch++; prodVars.insert(v[0]); prodVars.insert(v[1]);
            Int xl = atoms[v[0]].lo, xh = atoms[v[0]].hi, yl = atoms[v[1]].lo, yh = atoms[v[1]].hi;
            P X = atomP(v[0]), Y = atomP(v[1]);
            // McCormick envelope of the product
            // (X-xl)(Y-yl)>=0 : XY >= xl*Y + yl*X - xl*yl
            pushFact(add(def, addc(lin(Y, -xl, X, -yl), xl * yl)));
            pushFact(add(def, addc(lin(Y, -xh, X, -yh), xh * yh)));
            pushFact(add(scale(def, -1), addc(lin(Y, xh, X, yl), -(xh * yl))));
            pushFact(add(scale(def, -1), addc(lin(Y, xl, X, yh), -(xl * yh))));
        }
        pushFact(addc(val, -lo)); pushFact(addc(scale(val, -1), hi));
        propagate();
        return atomP(q);
    }

    // replace low-order group whose value is confined to one block
    // returns true if R/k changed. R>>j , k-=j
    bool lowElim(P &R, int k)
    {
        std::vector<int> cuts;
        for (auto &t : polys[R].t) if (t.m != 0) { int v = val2(t.c); if (v > 0 && v < k) cuts.push_back(v); }
        std::sort(cuts.begin(), cuts.end());
        cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
        for (int ci2 = (int)cuts.size() - 1; ci2 >= 0; ci2--) {
            int j = cuts[ci2];
            std::vector<Term> lowt, hit; Int c0 = 0;
            for (auto &t : polys[R].t) { if (t.m == 0) c0 = t.c; else if (val2(t.c) >= j) hit.push_back(t); else lowt.push_back(t); }
            if (lowt.empty() && c0 == fshr(c0, j) * pow2(j)) continue;
            Int cl = c0 - fshr(c0, j) * pow2(j);
            P low = intern(std::vector<Term>(lowt));
            low = addc(low, cl);
            Int lo, hi; range(low, lo, hi);
            if (fshr(lo, j) != fshr(hi, j) && !facts.empty()) rangeF(low, lo, hi, 1);
            if (fshr(lo, j) == fshr(hi, j)) {
                P h = intern(std::vector<Term>(hit));
                h = addc(h, c0 - cl + fshr(lo, j) * pow2(j));
                if (h == R) continue;
                R = h; return true;
            }
        }
        return false;
    }
    P shiftDown(P p, int j)
    { // divide nonconst coefs exactly, floor the const
        std::vector<Term> t;
        for (auto &x : polys[p].t) { Int c = fshr(x.c, j); if (c != 0) t.push_back({x.m, c}); }
        return intern(std::move(t));
    }
    int minVal(P p) { int j = 100000; for (auto &t : polys[p].t) if (t.m != 0) j = std::min(j, val2(t.c)); return j; }

    // ---- words seen as bits (only with symq): polynomial -> one 0/1 polynomial per bit, lowest first
    P fromBits(std::vector<P> b)
    {
        while (!b.empty() && isConst(b.back()) && constOf(b.back()) == 0) b.pop_back();
        P r = cst(0);
        for (size_t i = 0; i < b.size(); i++) r = lin(r, 1, b[i], pow2((int)i));
        if (b.size() > 1 || (b.size() == 1 && !isConst(b[0]))) bview[r] = b;
        return r;
    }
    bool bitsOf(P p, int w, std::vector<P> &out)
    {
        out.clear();
        auto it = bview.find(p);
        if (it != bview.end()) { out = it->second; return (int)out.size() <= w; }
        for (auto &t : polys[p].t) {
            if (t.c < 0) return false;
            if (t.m == 0) { for (int i = 0; i < w; i++) if ((t.c >> i) & 1) { if ((int)out.size() <= i) out.resize(i + 1, cst(0)); if (out[i] != cst(0)) return false; out[i] = cst(1); } continue; }
            if (!allBool(*this, t.m)) return false;
            int i = val2(t.c); if (t.c != pow2(i) || i >= w) return false;
            if ((int)out.size() <= i) out.resize(i + 1, cst(0));
            if (out[i] != cst(0)) return false;
            std::vector<Term> b; b.push_back({t.m, 1}); out[i] = intern(std::move(b));
        }
        if (bitv && !isConst(p)) bview[p] = out;
        return true;
    }
    P halfAnd(P x, P y)
    { // and of two bits; as the carry of a half adder where that keeps everything linear
        if (symq && !isConst(x) && !isConst(y) && x != y) { P q = mkFloor(add(x, y), 1); Int l, h; range(q, l, h); if (l < 0) pushFact(q); if (h > 1) pushFact(addc(scale(q, -1), 1)); return resolve(q); }
        return resolve(mul(x, y));
    }
    bool bitwise(char op, P a, P b, int w, P &r)
    {
        std::vector<P> x, y;
        if (!bitv || !bitsOf(a, w, x) || !bitsOf(b, w, y)) return false;
        size_t n = std::max(x.size(), y.size()); x.resize(n, cst(0)); y.resize(n, cst(0));
        for (size_t i = 0; i < n; i++) {
            x[i] = resolve(x[i]); y[i] = resolve(y[i]);
            P m = halfAnd(x[i], y[i]);
            x[i] = resolve(x[i]); y[i] = resolve(y[i]);
            if (op == '&') x[i] = m;
            else x[i] = lin(add(x[i], y[i]), 1, m, op == '|' ? -1 : -2);
        }
        for (auto &b : x) b = resolve(b);
        r = fromBits(x);
        return true;
    }
    P mkFloor(P p, int k)
    {
        if (k == 0) return resolve(p);
        if (bitv) { p = resolve(p); std::vector<P> b; if (k > 0 && bitsOf(p, 250, b)) { if (k >= (int)b.size()) return cst(0); return fromBits(std::vector<P>(b.begin() + k, b.end())); } }
        P Qacc = cst(0);
        for (int it = 0; it < 600; it++) {
            p = resolve(p);
            if (k == 0) return resolve(add(Qacc, p));
            if (k < 0) return resolve(add(Qacc, scale(p, pow2(-k))));
            std::vector<Term> qt, rt;
            for (auto &t : polys[p].t) {
                Int a = fshr(t.c, k), b = t.c - a * pow2(k);
                if (t.m != 0 && b > pow2(k - 1)) { a += 1; b -= pow2(k); }
                if (a != 0) qt.push_back({t.m, a});
                if (b != 0) rt.push_back({t.m, b});
            }
            if (!qt.empty()) { Qacc = add(Qacc, intern(std::move(qt))); }
            P R = intern(std::move(rt));
            if (isConst(R)) return resolve(Qacc);
            Int lo, hi; range(R, lo, hi);
            if (fshr(lo, k) == fshr(hi, k)) return resolve(addc(Qacc, fshr(lo, k)));
            { // partition on comparisons first
                P f = flat(R);
                if (f != R) { p = f; continue; }
            }
            int j = minVal(R);
            if (j > 0) { if (j >= k) throw GiveUp{"floor: internal"}; R = shiftDown(R, j); k -= j; p = R; continue; }
            if (lowElim(R, k)) { p = R; continue; }
            if (!facts.empty()) { rangeF(R, lo, hi); if (fshr(lo, k) == fshr(hi, k)) return resolve(addc(Qacc, fshr(lo, k))); }
            if (bisectN > 0) {
                Int n = fshr(hi, k) - fshr(lo, k) + 1;
                if (n <= bisectN) {
                    Int l = fshr(lo, k), h = fshr(hi, k);
                    while (l < h) { Int mid = fshr(l + h + 1, 1); if (decide(mkGE(addc(R, -(mid * pow2(k)))))) l = mid; else h = mid - 1; }
                    return resolve(addc(Qacc, l));
                }
            }
            // single variable: slice
            int nv = 0, va = -1; Int vc = 0; bool nonlin = false;
            for (auto &t : polys[R].t) if (t.m != 0) { nv++; auto &v = monos[t.m]; if (v.size() == 1 && atoms[v[0]].kind == A_VAR) { va = v[0]; vc = t.c; } else nonlin = true; }
            if (nv == 1 && !nonlin && (vc == 1 || vc == -1) && fshr(atoms[va].lo, k) != fshr(atoms[va].hi, k)) {
                slice(va, k); p = R; continue;
            }
            Int nb = fshr(hi, k) - fshr(lo, k) + 1;
            if (symq) {
                if (quot && nb == 2) { int na = 0; Int w = 0; for (auto &t : polys[R].t) for (int a : monos[t.m]) { na++; w = atoms[a].hi - atoms[a].lo; } if (na == 1 && w <= 3) { bool c = decide(mkGE(addc(R, -((fshr(lo, k) + 1) * pow2(k))))); return resolve(addc(Qacc, fshr(lo, k) + (c ? 1 : 0))); } }
                P q = quot ? -1 : rebase(R, k); if (q >= 0) return resolve(add(Qacc, q));
                rangeF(R, lo, hi);
                q = atomP(newVar("q", fshr(lo, k), fshr(hi, k), D_FLOOR, R, k)); P m = lin(R, 1, q, -pow2(k));
                pushFact(m); pushFact(addc(scale(m, -1), pow2(k) - 1)); propagate();
                return resolve(add(Qacc, q));
            }
            if (nb == 2) {
                bool c = decide(mkGE(addc(R, -((fshr(lo, k) + 1) * pow2(k)))));
                return resolve(addc(Qacc, fshr(lo, k) + (c ? 1 : 0)));
            }
            P q = rebase(R, k);
            if (q >= 0) return resolve(add(Qacc, q));
            // slice the operands of the sum at the cut
            bool did = false;
            for (auto &t : std::vector<Term>(polys[R].t)) {
                if (t.m == 0) continue;
                auto v = monos[t.m];
                for (int a : v) {
                    int kk = k - val2(t.c);
                    if (atoms[a].kind == A_VAR && kk > 0 && fshr(atoms[a].lo, kk) != fshr(atoms[a].hi, kk)) { slice(a, kk); did = true; break; }
                }
                if (did) break;
            }
            if (did) { p = R; continue; }
            if (nb <= 64) {
                Int mid = fshr(fshr(lo, k) + fshr(hi, k) + 1, 1);
                decide(mkGE(addc(R, -(mid * pow2(k))))); p = R;
                continue;
            }
            throw GiveUp{"floor of a sum without unit coefficient"};
        }
        throw GiveUp{"floor: no convergence"};
    }
    bool leadNeg(P p) { for (auto &t : polys[p].t) if (t.m != 0) return t.c < 0; return false; }

    // p is a 0/1 valued single atom or its negation
    bool isBoolPoly(P p)
    {
        auto &t = polys[p].t;
        if (t.size() == 1 && t[0].c == 1 && t[0].m != 0) { for (int a : monos[t[0].m]) if (!isBool(a)) return false; return true; }
        if (t.size() == 2 && t[0].m == 0 && t[0].c == 1 && t[1].c == -1) { for (int a : monos[t[1].m]) if (!isBool(a)) return false; return true; }
        return false;
    }
    P mkGE(P p)
    { // [p >= 0]
        for (int it = 0; it < 100; it++) {
            p = resolve(p);
            if (isConst(p)) return cst(constOf(p) >= 0);
            Int lo, hi; range(p, lo, hi);
            if (lo >= 0) return cst(1);
            if (hi < 0) return cst(0);
            // gcd of non-constant coefficients
            Int g = 0; Int c0 = 0;
            for (auto &t : polys[p].t) if (t.m != 0) g = igcd(g, t.c); else c0 = t.c;
            if (g > 1) {
                std::vector<Term> t2; for (auto &t : polys[p].t) if (t.m != 0) t2.push_back({t.m, t.c / g});
                p = addc(intern(std::move(t2)), fdiv(c0, g));
                continue;
            }
            { P f = flat(p); if (f != p) { p = f; continue; } }
            P R = p;
            if (lowElim(R, 400)) { p = R; continue; }
            break;
        }
        Int lo, hi; rangeF(p, lo, hi);
        if (lo >= 0) return cst(1);
        if (hi < 0) return cst(0);
        if (lo >= -1 && hi <= 0) return addc(p, 1);
        if (leadNeg(p)) return resolve(lin(cst(1), 1, geAtom(addc(scale(p, -1), -1)), -1));
        return resolve(geAtom(p));
    }
    P geAtom(P p)
    {
        Int lo, hi; range(p, lo, hi);
        if (lo >= -1 && hi <= 0) return addc(p, 1);
        // boolean single atom  b-1>=0 -> b
        int at = atomFor(A_GE, p, -1, 0, 0, 1);
        if (atoms[at].lo == atoms[at].hi) return cst(atoms[at].lo);
        return atomP(at);
    }
    P mkEQ0(P p)
    {
        p = resolve(p);
        if (isBoolPoly(p)) return resolve(sub(cst(1), p));
        if (isConst(p)) return cst(constOf(p) == 0);
        Int lo, hi; range(p, lo, hi);
        if (lo > 0 || hi < 0) return cst(0);
        Int g = 0, c0 = 0;
        for (auto &t : polys[p].t) if (t.m != 0) g = igcd(g, t.c); else c0 = t.c;
        if (c0 % g != 0) return cst(0);
        if (g > 1) { std::vector<Term> t2; for (auto &t : polys[p].t) t2.push_back({t.m, t.c / g}); p = intern(std::move(t2)); }
        rangeF(p, lo, hi);
        if (lo > 0 || hi < 0) return cst(0);
        if (lo == 0 && hi == 0) return cst(1);
        // low-order digits must vanish separately: p = 2^j*h + l with l in (-2^j,2^j)
        if (lo >= 0) return sub(cst(1), mkGE(addc(p, -1)));
        if (hi <= 0) return sub(cst(1), mkGE(addc(scale(p, -1), -1)));
        P a = mkGE(p), b = mkGE(addc(p, -1));
        return resolve(sub(a, b));
    }

    // ---- bitwise
    struct Digit { int pos, w; P p; };
    // decompose p (range in [0,2^w)) into disjoint digits covering [0,w)
    std::vector<Digit> digits(P p, int w)
    {
        p = resolve(p);
        std::vector<Digit> out;
        std::vector<int> cuts;
        for (auto &t : polys[p].t) if (t.m != 0) cuts.push_back(std::min(val2(t.c), w));
        cuts.push_back(w);
        std::sort(cuts.begin(), cuts.end());
        cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
        std::vector<Term> rem = polys[p].t;
        int s = 0;
        for (int v : cuts) {
            if (v <= s) continue;
            std::vector<Term> low, hi; Int c0 = 0;
            for (auto &t : rem) { if (t.m == 0) c0 = t.c; else if (val2(t.c) >= v) hi.push_back(t); else low.push_back(t); }
            Int cl = v >= w ? c0 : c0 - fshr(c0, v) * pow2(v);
            P lp = addc(intern(std::vector<Term>(low)), cl);
            Int l, h; range(lp, l, h);
            if (!(l >= 0 && h < pow2(v)) && !facts.empty()) rangeF(lp, l, h);
            if (l >= 0 && h < pow2(v)) {
                // trim: high zero bits
                int len = std::max(s, std::min(v, bitlen(h)));
                if (low.empty() && cl == 0) { out.push_back({s, v - s, cst(0)}); }
                else {
                    if (len > s) out.push_back({s, len - s, shiftDown(lp, s)});
                    if (v > len) out.push_back({len, v - len, cst(0)});
                }
                rem = hi; if (c0 - cl != 0) rem.insert(rem.begin(), Term{0, c0 - cl});
                s = v;
            }
        }
        if (s < w) {
            P lp = intern(std::vector<Term>(rem));
            out.push_back({s, w - s, shiftDown(lp, s)});
        }
        return out;
    }
    P sliceOf(P p, int lo, int hi)
    { // bits [lo,hi)
        if (bitv) { p = resolve(p); std::vector<P> b; if (bitsOf(p, 250, b)) { b.resize(std::max(hi, (int)b.size()), cst(0)); return fromBits(std::vector<P>(b.begin() + lo, b.begin() + hi)); } }
        P a = mkFloor(p, lo), b = mkFloor(p, hi);
        return resolve(lin(a, 1, b, -pow2(hi - lo)));
    }
    static bool allBool(Ctx &c, int m) { for (int a : c.monos[m]) if (!c.isBool(a)) return false; return true; }
    P mkAnd(P a, P b, int w)
    {
        for (int it = 0; it < 60; it++) {
            a = resolve(a); b = resolve(b);
            if (a == b) return a;
            if (isConst(a) && isConst(b)) return cst((Int)((UInt)constOf(a) & (UInt)constOf(b)));
            if (isConst(a)) std::swap(a, b);
            if (isConst(b)) {
                Int m = constOf(b);
                if (m == 0) return cst(0);
                if (m == pow2(w) - 1) return a;
                { P r; if (bitwise('&', a, b, w, r)) return r; }
                P r = cst(0);
                int i = 0;
                while (i < w) {
                    if (!(bool)((m >> i) & 1)) { i++; continue; }
                    int j = i; while (j < w && (bool)((m >> j) & 1)) j++;
                    r = lin(r, 1, sliceOf(a, i, j), pow2(i));
                    i = j;
                }
                return resolve(r);
            }
            if (w == 1) return halfAnd(a, b);
            { P r; if (bitwise('&', a, b, w, r)) return r; }
            for (int s = 0; s < 2; s++) {
                auto &t = polys[b].t;
                if (t.size() == 1 && t[0].m != 0 && allBool(*this, t[0].m)) {
                    Int c = t[0].c; std::vector<Term> bt; bt.push_back({t[0].m, 1}); P bm = intern(std::move(bt));
                    P r = mkAnd(a, cst(c), w);
                    return resolve(mul(resolve(bm), r));
                }
                std::swap(a, b);
            }
            { P fa = flat(a); P fb = flat(b); fa = resolve(fa); if (fa != a || fb != b) { a = fa; b = fb; continue; } }
            auto da = digits(a, w), db = digits(b, w);
            if (resolve(a) != a || resolve(b) != b) continue;
            if (da.size() == 1 && db.size() == 1) {
                if (add(a, b) == cst(pow2(w) - 1)) return cst(0);
                // bit by bit
                if (onBits) onBits(a, b, w);
                if (w > 64) throw GiveUp{"wide bitwise operation on two unknowns"};
                P r = cst(0);
                for (int i = 0; i < w; i++) {
                    P x = flat(sliceOf(a, i, i + 1)), y = flat(sliceOf(b, i, i + 1));
                    x = resolve(x);
                    r = lin(r, 1, resolve(mul(x, y)), pow2(i));
                }
                return resolve(r);
            }
            std::vector<int> cuts{0, w};
            for (auto &d : da) cuts.push_back(d.pos);
            for (auto &d : db) cuts.push_back(d.pos);
            std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
            P r = cst(0);
            for (size_t i = 0; i + 1 < cuts.size(); i++) {
                int lo = cuts[i], hi = cuts[i + 1];
                P x = pick(da, lo, hi), y = pick(db, lo, hi);
                r = lin(r, 1, mkAnd(x, y, hi - lo), pow2(lo));
            }
            return resolve(r);
        }
        throw GiveUp{"and: no convergence"};
    }
    P pick(std::vector<Digit> &ds, int lo, int hi)
    {
        for (auto &d : ds) if (d.pos <= lo && hi <= d.pos + d.w) {
            if (d.pos == lo && d.pos + d.w == hi) return resolve(d.p);
            return sliceOf(d.p, lo - d.pos, hi - d.pos);
        }
        throw GiveUp{"pick"};
    }

    // ---- decisions (trace partitioning)
    int choose(int n)
    {
        nDecide++;
        if (ci < choice.size()) { arity[ci] = n; return choice[ci++]; }
        if (choice.size() > 400) throw GiveUp{"too many decisions"};
        choice.push_back(0); arity.push_back(n); ci++;
        return 0;
    }
    // split on the values of one atom
    void splitAtom(int a)
    {
        if (atoms[a].kind == A_GE && atoms[a].lo != atoms[a].hi) {
            Int lo, hi; rangeF(resolve(atoms[a].p), lo, hi);
            if (lo >= 0) { setBounds(a, 1, 1); propagate(); return; }
            if (hi < 0) { setBounds(a, 0, 0); propagate(); return; }
        }
        Atom A = atoms[a];
        if (A.lo == A.hi) return;
        if (onDecide) onDecide();
        if (A.hi - A.lo == 1 || A.kind == A_GE) {
            int c = choose(2);
            Int v = c == 0 ? A.hi : A.lo;
            setBounds(a, v, v);
            propagate();
            return;
        }
        if (A.kind == A_VAR) {
            Int n = A.hi - A.lo + 1;
            if (n <= 300) {
                int c = choose((int)n);
                setBounds(a, A.lo + c, A.lo + c); propagate(); return;
            }
            if (quot) { // halve
                Int mid = fshr(A.lo + A.hi, 1);
                if (choose(2)) setBounds(a, mid + 1, A.hi); else setBounds(a, A.lo, mid);
                propagate(); return;
            }
        }
        throw GiveUp{"cannot split atom"};
    }
    bool decide(P p)
    { // p in {0,1}
        for (int it = 0; it < 200; it++) {
            p = resolve(p);
            if (isConst(p)) return constOf(p) != 0;
            // prefer GE atoms with the fewest terms
            int best = -1; size_t bs = 1e9;
            for (auto &t : polys[p].t) for (int a : monos[t.m]) {
                size_t s = atoms[a].kind == A_GE ? polys[atoms[a].p].t.size() : (atoms[a].kind == A_VAR ? 0 : 50);
                if (s < bs) { bs = s; best = a; }
            }
            splitAtom(best);
        }
        throw GiveUp{"decide: no convergence"};
    }
    // restrict the cell to p == 1; false when that is impossible
    bool decideTrue(P p)
    {
        for (int it = 0; it < 200; it++) {
            p = resolve(p);
            if (isConst(p)) return constOf(p) != 0;
            auto &ts = polys[p].t;
            // single atom (or its negation): no partition needed
            if (ts.size() == 1 && ts[0].c == 1 && monos[ts[0].m].size() == 1) { int a = monos[ts[0].m][0]; setBounds(a, 1, 1); propagate(); continue; }
            if (ts.size() == 1 && ts[0].c == 1) { auto v = monos[ts[0].m]; for (int a : v) setBounds(a, 1, 1); propagate(); continue; }
            if (ts.size() == 2 && ts[0].m == 0 && ts[0].c == 1 && ts[1].c == -1 && monos[ts[1].m].size() == 1) { int a = monos[ts[1].m][0]; setBounds(a, 0, 0); propagate(); continue; }
            return decide(p);
        }
        throw GiveUp{"assume"};
    }
    Int decideValue(P p, Int maxN = 300)
    {
        for (int it = 0; it < 200; it++) {
            p = resolve(p);
            if (isConst(p)) return constOf(p);
            Int lo, hi; rangeF(p, lo, hi);
            if (lo == hi) return lo;
            if (hi - lo + 1 > maxN) throw GiveUp{"value not bounded enough"};
            // boolean atoms first
            int ba = -1; int nonb = 0, va = -1;
            for (auto &t : polys[p].t) for (int a : monos[t.m]) { if (isBool(a) || atoms[a].kind != A_VAR) { if (ba < 0) ba = a; } else { nonb++; va = a; } } // comparisons first
            if (ba >= 0) { splitAtom(ba); continue; }
            if (nonb == 1 && bisectN == 0) { splitAtom(va); continue; }
            P q = hi - lo + 1 <= bisectN ? -1 : rebase(p, 0);
            if (q < 0) {
                // bisect with a fact
                Int mid = fshr(lo + hi, 1);
                P g = mkGE(addc(p, -(mid + 1)));
                decide(g);
            }
        }
        throw GiveUp{"decideValue: no convergence"};
    }

    // ---- concretisation of an atom/poly from input values
    bool evalAtom(int a, std::vector<Int> &val, std::vector<char> &have)
    {
        if (have[a]) return true;
        Atom &A = atoms[a];
        Int x;
        switch (A.kind) {
        case A_VAR:
            if (A.def == D_INPUT || A.def == D_FREE) return false;
            if (!evalPoly(A.p, val, have, x)) return false;
            val[a] = A.def == D_FLOOR ? fshr(x, A.k) : x - fshr(x, A.k) * pow2(A.k);
            break;
        case A_GE: if (!evalPoly(A.p, val, have, x)) return false; val[a] = x >= 0; break;
        default: { std::vector<Int> c; for (P q : A.args) { if (!evalPoly(q, val, have, x)) return false; c.push_back(x); } if (A.name == "udiv" && c[1] == 0) return false; val[a] = evalOpq(A.name, c); }
        }
        have[a] = 1;
        return true;
    }
    bool evalPoly(P p, std::vector<Int> &val, std::vector<char> &have, Int &r)
    {
        r = 0;
        for (auto &t : polys[p].t) {
            Int m = t.c;
            for (int a : monos[t.m]) { if (!evalAtom(a, val, have)) return false; m *= val[a]; }
            r += m;
        }
        return true;
    }
};
