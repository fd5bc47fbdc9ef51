// Abstract interpreter for LLVM IR over the polynomial domain of dom.hpp.
//
// usage: vpai FILE.bc [--list] [--entry NAME]... [--budget SECONDS] [--maxleaf N]
// One JSON object per entry point is printed on stdout.
#include "llvm/ADT/APSInt.h"
#include "dom.hpp"
#include <chrono>
#include <cstdio>
#include <memory>
#include <set>
#include <deque>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Thunk;
struct Val {
    enum K { UNDEF, INT, PTR, AGG, FN, LAZY } k = UNDEF;
    std::shared_ptr<Thunk> th; // LAZY: evaluated when its value is needed
    int p = -1;          // INT value, PTR byte offset
    int obj = -1;        // PTR object (0 = null)
    const Function *fn = nullptr;
    std::shared_ptr<std::vector<Val>> el;
};
// a lazy value; kz/ko are bits known to be zero/one without evaluating it
struct Thunk { bool selp = false; int cobj = 0; Val sc, sa, sb; Int kz = 0, ko = 0; int tblObj = 0; Int tblOff = 0, tblScale = 0; int tblW = 0; Val tblIdx; unsigned op = 0; Val A, B; int w = 0, bw = 0; std::function<Val()> f; Val v; bool done = false; double cost = 1; std::vector<const Instruction *> at; };
static Val vint(P p) { Val v; v.k = Val::INT; v.p = p; return v; }
static Val vptr(int o, P off) { Val v; v.k = Val::PTR; v.obj = o; v.p = off; return v; }

struct Cell { int size; Val v; };
struct Obj { std::map<int64_t, Cell> cells; const GlobalVariable *g = nullptr; int64_t size = -1; bool zero = false; };

struct CCell { int64_t off; int size; Int v; bool undef; };
struct Snapshot { std::vector<CCell> cells; };

struct PathEnd { int kind; std::string msg; };   // abnormal end of the current path (assert, trap, throw)
enum { E_ASSERT, E_TRAP, E_THROW, E_UNREACH, E_STOP };

struct Oblig { std::string msg; long ok = 0, undecided = 0, violated = 0; std::string firstUndecided; };
struct Viol { std::string msg, where, inputs, path; };

struct FnInfo { std::unordered_map<const Value *, int> slot; int n = 0; };

static bool dbgSplit = getenv("VP_SPLIT"); static int optBisect = 0, optQuot = 0; static bool optIfConv = false, optSymq = false, optBits = false;
struct Engine {
    Module &M; const DataLayout &DL;
    std::unordered_map<const Function *, FnInfo> finfo;
    std::unordered_map<const GlobalVariable *, Snapshot> statics; // initialised function-local statics
    std::unordered_map<const GlobalVariable *, bool> guardDone;
    std::set<const Function *> analysed;
    std::set<const BasicBlock *> blocksSeen;
    std::set<std::string> scopes; // source functions (also inlined ones) whose code was interpreted
    std::set<const DILocation *> dlSeen;
    void noteScopes(const BasicBlock *bb)
    {
        for (auto &I : *bb)
            for (const DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) {
                if (!dlSeen.insert(l).second) break;
                if (auto *sp = l->getScope()->getSubprogram()) {
                    std::string f = sp->getFilename().str(); size_t p = f.rfind("include/thls/");
                    if (p != std::string::npos) scopes.insert(f.substr(p + 13) + ":" + sp->getName().str().substr(0, 60));
                }
            }
    }
    std::set<std::string> notFollowed;
    long instrs = 0;
    // per run
    std::unique_ptr<Ctx> C;
    std::vector<Obj> objs;
    std::unordered_map<const GlobalVariable *, int> gobj;
    std::vector<std::pair<std::string, int>> inputVars; // name -> atom or const
    std::vector<std::pair<std::string, Int>> inputConsts;
    std::vector<std::pair<int, Int>> inputOrder;  // all inputs in order of creation: variable or constant
    std::vector<Int> lastWitness; const std::vector<Int> *replay = nullptr; size_t replayAt = 0; bool lazyOpt = true;
    std::vector<std::pair<std::string, P>> notes; // values to report with a violation
    std::vector<const Instruction *> stack;
    std::vector<std::string> decisionLocs;
    std::vector<const GlobalVariable *> guardStack;
    std::vector<std::set<const GlobalVariable *>> guardWrites;
    long stepBudget = 0;
    double deadline = 0;
    int runBudgetSteps = 400000;
    // results
    std::map<std::string, Oblig> obligs;
    std::vector<Viol> viols;
    bool finalPhase = false;
    std::set<std::string> violKeys;
    bool confirm = true; bool trace = getenv("VP_TRACE") != nullptr;
    long witnessTries = 4000; int enumBits = 18; double witnessSecs = 4;

    Engine(Module &m) : M(m), DL(m.getDataLayout()) {}

    // ---------- locations
    static std::string shortFile(StringRef f) { size_t i = f.find("include/"); if (i != StringRef::npos) return f.substr(i).str(); i = f.rfind('/'); return i == StringRef::npos ? f.str() : f.substr(i + 1).str(); }
    std::string locOf(const Instruction *I, bool chain = false)
    {
        std::string s;
        const DILocation *L = I ? I->getDebugLoc().get() : nullptr;
        int n = 0;
        while (L && n < 12) {
            std::string one = shortFile(L->getFilename()) + ":" + std::to_string(L->getLine());
            if (auto *sp = L->getScope()->getSubprogram()) one += "(" + sp->getName().str() + ")";
            if (!s.empty()) s += " < ";
            s += one;
            n++;
            if (!chain) break;
            L = L->getInlinedAt();
        }
        return s;
    }
    std::string where(bool chain = true)
    {
        std::string s;
        for (int i = (int)stack.size() - 1, n = 0; i >= 0 && n < 6; i--, n++) { std::string l = locOf(stack[i], chain); if (l.empty()) continue; if (!s.empty()) s += " < "; s += l; }
        return s;
    }

    // ---------- memory
    int newObj(int64_t size, bool zero = false) { Obj o; o.size = size; o.zero = zero; objs.push_back(std::move(o)); return objs.size() - 1; }
    void layoutConst(const Constant *c, int64_t off, Obj &o)
    {
        Type *T = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
            // leaf-wise zeroes are produced on demand
            return;
        }
        if (auto *st = dyn_cast<StructType>(T)) {
            auto *sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) layoutConst(c->getAggregateElement(i), off + sl->getElementOffset(i), o);
            return;
        }
        if (T->isArrayTy() || T->isVectorTy()) {
            unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            Type *et = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
            int64_t es = DL.getTypeAllocSize(et);
            for (unsigned i = 0; i < n; i++) layoutConst(c->getAggregateElement(i), off + es * i, o);
            return;
        }
        Val v = constVal(c);
        o.cells[off] = {(int)DL.getTypeStoreSize(T), v};
    }
    int objOf(const GlobalVariable *g)
    {
        auto it = gobj.find(g);
        if (it != gobj.end()) return it->second;
        int id = newObj(g->getValueType()->isSized() ? (int64_t)DL.getTypeAllocSize(g->getValueType()) : -1, true);
        gobj[g] = id;
        objs[id].g = g;
        auto st = statics.find(g);
        if (st != statics.end()) {
            for (auto &c : st->second.cells) { Val v; if (!c.undef) v = vint(C->cst(c.v)); objs[id].cells[c.off] = {c.size, v}; }
            return id;
        }
        if (g->hasInitializer()) { Obj tmp; layoutConst(g->getInitializer(), 0, tmp); objs[id].cells = tmp.cells; }
        else objs[id].zero = false;
        return id;
    }
    double cost(const Val &v) { return v.k != Val::LAZY ? 0 : v.th->done ? 0 : v.th->cost; }
    Val mkLazy(std::function<Val()> f, double cst = 1) { Val v; v.k = Val::LAZY; v.th = std::make_shared<Thunk>(); v.th->cost = cst + 1; v.th->f = std::move(f); v.th->at.assign(stack.end() - std::min<size_t>(stack.size(), 3), stack.end()); return v; }
    int forceDepth = 0;
    // bits of a w-bit value that are known without evaluating it (w<=128)
    void known(const Val &v, int w, Int &kz, Int &ko)
    {
        kz = ko = 0; Int m = pow2(w) - 1;
        const Val *q = &v;
        if (q->k == Val::LAZY) { if (!q->th->done) { kz = q->th->kz & m; ko = q->th->ko & m; if (q->th->bw > 0 && q->th->bw < w) kz |= m & ~(pow2(q->th->bw) - 1); return; } q = &q->th->v; }
        if (q->k != Val::INT) return;
        P r = q->p;
        if (C->isConst(r)) { Int c = C->constOf(r); ko = c & m; kz = ~c & m; return; }
        Int lo, hi; C->range(r, lo, hi);
        if (lo < 0 || hi > m) return;
        int n = 0; while (n < w && pow2(n) <= hi) n++;
        kz = m & ~(pow2(n) - 1);
    }
    // a lazy value that agrees with v (w bits) on the demanded bits and needs less evaluation
    Val strip(const Val &v0, Int dem, int w)
    {
        Val v = v0; Int m = pow2(w) - 1;
        if (!lazyOpt) return v;
        for (int i = 0; i < 64; i++) {
            if (v.k != Val::LAZY || v.th->done || !v.th->op || v.th->w > w) break;
            Thunk &t = *v.th; Int az, ao, bz, bo;
            if (t.op == Instruction::Or || t.op == Instruction::Xor || (t.op == Instruction::Add)) {
                known(t.A, w, az, ao); known(t.B, w, bz, bo);
                if (t.op == Instruction::Add && ((az | bz) & m) != m) break;
                if ((~bz & m & dem) == 0) { v = t.A; continue; }
                if ((~az & m & dem) == 0) { v = t.B; continue; }
            } else if (t.op == Instruction::And && (cval(t.B) || cval(t.A))) {
                Int k = C->constOf(cval(t.B) ? t.B.p : t.A.p) & m; const Val &o = cval(t.B) ? t.A : t.B;
                known(o, w, az, ao);
                if ((dem & ~k & ~az & m) == 0) { v = o; continue; }
            }
            else if (t.op == Instruction::LShr && cval(t.B) && t.w <= 128 && C->constOf(t.B.p) >= 0 && C->constOf(t.B.p) < t.w) { // push the demand below the shift
                int s = (int)C->constOf(t.B.p); Int mt = pow2(t.w) - 1;
                Val A = strip(t.A, ((dem & mt) << s) & mt, t.w);
                if (t.A.k == Val::LAZY && (A.k == Val::INT || (A.k == Val::LAZY && A.th != t.A.th))) { int tw = t.w; Val B = t.B; v = op2v(A, B, [this](P x, P y) { return vint(C->mkFloor(x, (int)C->constOf(y))); }, Instruction::LShr, tw); continue; }
            }
            break;
        }
        return v;
    }
    void setKnown(Val &r, unsigned op, const Val &a, const Val &b, int w)
    {
        if (r.k != Val::LAZY || w > 128) return;
        Int az, ao, bz, bo, m = pow2(w) - 1; known(a, w, az, ao); known(b, w, bz, bo);
        Int &z = r.th->kz, &o = r.th->ko;
        switch (op) {
        case Instruction::And: z = az | bz; o = ao & bo; break;
        case Instruction::Or: z = az & bz; o = ao | bo; break;
        case Instruction::Xor: z = (az & bz) | (ao & bo); o = (az & bo) | (ao & bz); break;
        case Instruction::Shl: case Instruction::LShr:
            if (cval(b)) {
                Int s = C->constOf(b.p); if (s < 0 || s >= w) break;
                if (op == Instruction::Shl) { z = ((az << (int)s) | (pow2((int)s) - 1)) & m; o = (ao << (int)s) & m; }
                else { z = (az >> (int)s) | (m & ~(m >> (int)s)); o = ao >> (int)s; }
            }
            break;
        case Instruction::Add: { // no carries possible: as or
            if (((az | bz) & m) == m) { z = az & bz; o = ao | bo; }
            break;
        }
        default: break;
        }
    }
    void dumpThunk(const Val &v, int d = 0)
    {
        fprintf(stderr, "%*s", d * 2, "");
        if (v.k == Val::INT) { fprintf(stderr, "int %s\n", show(C->resolve(v.p)).substr(0, 120).c_str()); return; }
        if (v.k != Val::LAZY) { fprintf(stderr, "other %d\n", (int)v.k); return; }
        Thunk &t = *v.th; std::string str; if (!t.at.empty() && t.at.back()) { raw_string_ostream os(str); t.at.back()->print(os); }
        fprintf(stderr, "lazy op=%s w=%d done=%d kz=%llx ko=%llx cost=%g %s\n", t.op ? Instruction::getOpcodeName(t.op) : "-", t.w, t.done, (unsigned long long)t.kz, (unsigned long long)t.ko, t.cost, str.substr(0, 100).c_str());
        if (d < 12 && t.op) { dumpThunk(t.A, d + 1); dumpThunk(t.B, d + 1); }
    }
    Val force(const Val &v)
    {
        if (v.k != Val::LAZY) return v;
        auto th = v.th;
        if (!th->done) {
            if (++forceDepth > 20000) throw GiveUp{"evaluation depth"};
            auto save = stack; if (!th->at.empty()) stack.insert(stack.end(), th->at.begin(), th->at.end());
            Val r = th->f();
            while (r.k == Val::LAZY) r = force(r);
            stack = save;
            th->v = r; th->done = true; th->f = nullptr; th->A = Val(); th->B = Val(); th->op = 0; th->selp = false; th->sc = th->sa = th->sb = Val(); forceDepth--;
            if (trace && r.k == Val::INT) fprintf(stderr, "force %s = %s\n", th->at.empty() || !th->at.back() ? "" : [&] { std::string s; raw_string_ostream os(s); th->at.back()->print(os); return s; }().c_str(), show(C->resolve(r.p)).substr(0, 1500).c_str());
        }
        return th->v;
    }
    Val piece(const Val &v, int vsize, int off, int size)
    { // bytes [off,off+size) of an INT value stored in vsize bytes
        if (off == 0 && size == vsize) return v;
        if (v.k == Val::UNDEF) return v;
        if (v.k == Val::LAZY || (v.k == Val::INT && !C->isConst(v.p))) return mkLazy([this, v, off, size]() { Val x = force(v); if (x.k != Val::INT) return x; return vint(C->sliceOf(x.p, off * 8, (off + size) * 8)); }, cost(v));
        if (v.k != Val::INT) throw GiveUp{"partial access to a pointer"};
        return vint(C->sliceOf(v.p, off * 8, (off + size) * 8));
    }
    void store(Val ptr, Val v, int size)
    {
        ptr = force(ptr);
        if (ptr.k != Val::PTR) throw GiveUp{"store through non-pointer"};
        if (ptr.obj <= 0) throw PathEnd{E_TRAP, "store through null pointer"};
        int64_t off = (int64_t)C->decideValue(ptr.p, 16384);
        Obj &o = objs[ptr.obj];
        if (o.size >= 0 && (off < 0 || off + size > o.size)) throw PathEnd{E_TRAP, "out-of-bounds store"};
        if (o.g && !guardStack.empty()) guardWrites.back().insert(o.g);
        clearRange(o, off, size);
        o.cells[off] = {size, v};
    }
    void clearRange(Obj &o, int64_t off, int64_t size)
    {
        if (size <= 0) return;
        auto it = o.cells.lower_bound(off - 64);
        std::vector<std::pair<int64_t, Cell>> addc;
        while (it != o.cells.end() && it->first < off + size) {
            int64_t a = it->first, b = a + it->second.size;
            if (b <= off) { ++it; continue; }
            Cell c = it->second;
            it = o.cells.erase(it);
            if (a < off) addc.push_back({a, {(int)(off - a), piece(c.v, c.size, 0, off - a)}});
            if (b > off + size) addc.push_back({off + size, {(int)(b - off - size), piece(c.v, c.size, off + size - a, b - off - size)}});
        }
        for (auto &x : addc) o.cells[x.first] = x.second;
    }
    // choice between two places (a conditional that yields a reference), decided when something needs it
    Val selPtr(Val c, Val a, Val b)
    {
        Val r = mkLazy([this, c, a, b]() -> Val {
            Val cv = force(c); if (cv.k != Val::INT) return Val();
            P p = C->resolve(cv.p);
            return force((C->isConst(p) ? C->constOf(p) != 0 : C->decide(p)) ? a : b);
        }, cost(c));
        r.th->selp = true; r.th->sc = c; r.th->sa = a; r.th->sb = b;
        return r;
    }
    bool isSelPtr(const Val &v) { return v.k == Val::LAZY && !v.th->done && v.th->selp; }
    bool loadable(const Val &p, int size)
    {
        if (isSelPtr(p)) return loadable(p.th->sa, size) && loadable(p.th->sb, size);
        if (p.k != Val::PTR || p.obj <= 0 || !C->isConst(p.p)) return false;
        Obj &o = objs[p.obj]; int64_t off = (int64_t)C->constOf(p.p);
        return off >= 0 && (o.size < 0 || off + size <= o.size);
    }
    Val load(Val ptr, int size, bool isPtr)
    {
        if (isSelPtr(ptr) && !isPtr && size <= 16 && loadable(ptr, size)) {
            Val c = ptr.th->sc, a = load(ptr.th->sa, size, false), b = load(ptr.th->sb, size, false);
            if ((a.k == Val::INT || a.k == Val::LAZY) && (b.k == Val::INT || b.k == Val::LAZY)) {
                Val r = mkLazy([this, c, a, b]() -> Val {
                    Val cv = force(c); if (cv.k != Val::INT) return Val();
                    P p = C->resolve(cv.p);
                    if (C->isConst(p)) return force(C->constOf(p) != 0 ? a : b);
                    if (a.k == Val::INT && b.k == Val::INT) return vint(sel(p, a.p, b.p));
                    return force(C->decide(p) ? a : b);
                }, cost(c) + cost(a) + cost(b));
                int w = size * 8; Int az, ao, bz, bo; known(a, w, az, ao); known(b, w, bz, bo); r.th->kz = az & bz; r.th->ko = ao & bo;
                return r;
            }
        }
        if (ptr.k == Val::LAZY && !ptr.th->done && ptr.th->tblObj > 0 && !isPtr) {
            Thunk &t = *ptr.th; Obj &o = objs[t.tblObj];
            Int kz, ko; known(t.tblIdx, t.tblW, kz, ko);
            Int unk = ~(kz | ko) & (pow2(t.tblW) - 1), sub = 0, val = -1; bool same = true; int cnt = 0;
            do { // every index compatible with the known bits
                int64_t off = (int64_t)(t.tblOff + (ko | sub) * t.tblScale);
                auto it = o.cells.find(off);
                if (it == o.cells.end() || it->second.size != size || !cval(it->second.v)) { same = false; break; }
                Int c = C->constOf(it->second.v.p);
                if (val < 0) val = c; else if (val != c) { same = false; break; }
                sub = (sub - unk) & unk;
            } while (sub != 0 && ++cnt < 256);
            if (same && val >= 0) return vint(C->cst(val));
            if (getenv("VP_TBL")) fprintf(stderr, "table not uniform kz=%s ko=%s unk=%s %s\n", istr(kz).c_str(), istr(ko).c_str(), istr(unk).c_str(), where(true).c_str());
        }
        if (optIfConv && ptr.k == Val::LAZY && !ptr.th->done && ptr.th->cobj > 0 && !isPtr) { // entry of a constant table: looked up when needed
            return mkLazy([this, ptr, size]() { return load(force(ptr), size, false); }, cost(ptr));
        }
        ptr = force(ptr);
        if (ptr.k != Val::PTR) throw GiveUp{"load through non-pointer"};
        if (ptr.obj <= 0) throw PathEnd{E_TRAP, "load through null pointer"};
        int64_t off = (int64_t)C->decideValue(ptr.p, 16384);
        Obj &o = objs[ptr.obj];
        if (o.size >= 0 && (off < 0 || off + size > o.size)) throw PathEnd{E_TRAP, "out-of-bounds load"};
        auto it = o.cells.find(off);
        if (it != o.cells.end() && it->second.size == size) return it->second.v;
        // assemble from pieces
        Val acc; int64_t pos = off; bool undef = false;
        std::vector<std::pair<int, Val>> parts; bool lz = false;
        auto lit = o.cells.lower_bound(off - 64);
        std::vector<std::pair<int64_t, Cell>> ov;
        for (; lit != o.cells.end() && lit->first < off + size; ++lit) if (lit->first + lit->second.size > off) ov.push_back(*lit);
        for (auto &x : ov) {
            int64_t a = std::max(off, x.first), b = std::min<int64_t>(off + size, x.first + x.second.size);
            if (a > pos) { if (!objs[ptr.obj].zero) undef = true; }
            Val v = piece(x.second.v, x.second.size, a - x.first, b - a);
            if (v.k == Val::UNDEF) undef = true;
            else if (v.k == Val::LAZY) { lz = true; parts.push_back({(int)(a - off) * 8, v}); }
            else if (v.k != Val::INT) throw GiveUp{"mixed pointer/int memory"};
            else parts.push_back({(int)(a - off) * 8, v});
            pos = b;
        }
        if (pos < off + size && !objs[ptr.obj].zero) undef = true;
        if (undef) return Val();
        double pc = 0; for (auto &x : parts) pc += cost(x.second);
        if (lz && !isPtr) return mkLazy([this, parts]() { P s = C->cst(0); for (auto &x : parts) { Val v = force(x.second); if (v.k != Val::INT) return v.k == Val::UNDEF ? v : throw GiveUp{"mixed pointer/int memory"}; s = C->lin(s, 1, v.p, pow2(x.first)); } return vint(C->resolve(s)); }, pc);
        P sum = C->cst(0);
        for (auto &x : parts) { Val v = force(x.second); if (v.k != Val::INT) return Val(); sum = C->lin(sum, 1, v.p, pow2(x.first)); }
        if (isPtr) { if (C->isConst(sum) && C->constOf(sum) == 0) return vptr(0, C->cst(0)); throw GiveUp{"integer as pointer"}; }
        return vint(C->resolve(sum));
    }
    void copyMem(Val d, Val s, int64_t n)
    {
        if (n == 0) return;
        d = force(d);
        if (isSelPtr(s) && n <= 16 && loadable(s, n)) { Val v = load(s, n, false); if (v.k == Val::INT || v.k == Val::LAZY) { store(d, v, n); return; } }
        s = force(s);
        if (d.obj <= 0 || s.obj <= 0 || d.k != Val::PTR || s.k != Val::PTR) throw GiveUp{"memcpy operands"};
        int64_t so = (int64_t)C->decideValue(s.p, 16384), dof = (int64_t)C->decideValue(d.p, 16384);
        std::vector<std::pair<int64_t, Cell>> got;
        {
            Obj &o = objs[s.obj];
            if (o.size >= 0 && (so < 0 || so + n > o.size)) throw PathEnd{E_TRAP, "out-of-bounds memcpy source"};
            for (auto it = o.cells.lower_bound(so - 64); it != o.cells.end() && it->first < so + n; ++it) {
                int64_t a = std::max(so, it->first), b = std::min<int64_t>(so + n, it->first + it->second.size);
                if (b <= a) continue;
                got.push_back({a - so + dof, {(int)(b - a), piece(it->second.v, it->second.size, a - it->first, b - a)}});
            }
        }
        bool szero = objs[s.obj].zero;
        Obj &o = objs[d.obj];
        if (o.size >= 0 && (dof < 0 || dof + n > o.size)) throw PathEnd{E_TRAP, "out-of-bounds memcpy destination"};
        if (o.g && !guardStack.empty()) guardWrites.back().insert(o.g);
        clearRange(o, dof, n);
        if (szero && !o.zero) { // materialise zero bytes
            int64_t pos = dof;
            std::sort(got.begin(), got.end(), [](auto &a, auto &b) { return a.first < b.first; });
            std::vector<std::pair<int64_t, Cell>> z;
            auto fill = [&](int64_t a, int64_t b) { for (; a < b; a++) z.push_back({a, {1, vint(C->cst(0))}}); };
            for (auto &g : got) { fill(pos, g.first); pos = g.first + g.second.size; }
            fill(pos, dof + n);
            for (auto &x : z) o.cells[x.first] = x.second;
        }
        for (auto &g : got) o.cells[g.first] = g.second;
    }

    // ---------- constants
    Val constVal(const Constant *c)
    {
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            const APInt &a = ci->getValue();
            Int v = 0;
            for (int i = (int)a.getNumWords() - 1; i >= 0; i--) v = (v << 64) | (Int)(UInt)a.getRawData()[i];
            return vint(C->cst(v));
        }
        if (isa<ConstantPointerNull>(c)) return vptr(0, C->cst(0));
        if (auto *g = dyn_cast<GlobalVariable>(c)) return vptr(objOf(g), C->cst(0));
        if (auto *f = dyn_cast<Function>(c)) { Val v; v.k = Val::FN; v.fn = f; return v; }
        if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
        if (isa<UndefValue>(c)) {
            if (c->getType()->isAggregateType()) return zeroAgg(c->getType(), true);
            return Val();
        }
        if (isa<ConstantAggregateZero>(c)) return zeroAgg(c->getType(), false);
        if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
            Val v; v.k = Val::AGG; v.el = std::make_shared<std::vector<Val>>();
            for (auto &o : ca->operands()) v.el->push_back(constVal(cast<Constant>(o.get())));
            return v;
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            Val v; v.k = Val::AGG; v.el = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < cd->getNumElements(); i++) v.el->push_back(constVal(cd->getElementAsConstant(i)));
            return v;
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            if (ce->getOpcode() == Instruction::GetElementPtr) {
                APInt off(64, 0);
                if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) {
                    Val b = constVal(ce->getOperand(0));
                    if (b.k == Val::PTR) { b.p = C->addc(b.p, (Int)off.getSExtValue()); return b; }
                }
            }
            if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) return constVal(ce->getOperand(0));
        }
        if (auto *cf = dyn_cast<ConstantFP>(c)) { if (!c->getType()->isDoubleTy() && !c->getType()->isFloatTy()) return Val(); return vint(C->cst((Int)cf->getValueAPF().bitcastToAPInt().getZExtValue())); }
        throw GiveUp{"constant expression"};
    }
    Val zeroAgg(Type *T, bool undef)
    {
        if (auto *st = dyn_cast<StructType>(T)) {
            Val v; v.k = Val::AGG; v.el = std::make_shared<std::vector<Val>>();
            for (auto *e : st->elements()) v.el->push_back(zeroAgg(e, undef));
            return v;
        }
        if (T->isArrayTy()) {
            Val v; v.k = Val::AGG; v.el = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < T->getArrayNumElements(); i++) v.el->push_back(zeroAgg(T->getArrayElementType(), undef));
            return v;
        }
        if (undef) return Val();
        if (T->isPointerTy()) return vptr(0, C->cst(0));
        if (T->isIntegerTy()) return vint(C->cst(0));
        return Val();
    }

    // ---------- arithmetic helpers
    P wrap(P p, int w)
    {
        p = C->resolve(p);
        if (C->bitv) { auto it = C->bview.find(p); if (it != C->bview.end()) { auto b = it->second; if ((int)b.size() <= w) return p; b.resize(w); return C->fromBits(b); } }
        Int lo, hi; C->range(p, lo, hi);
        if (lo >= 0 && hi < pow2(w)) return p;
        P f = C->mkFloor(p, w);
        p = C->resolve(p);
        return C->resolve(C->lin(p, 1, f, -pow2(w)));
    }
    P sgn(P p, int w)
    {
        P f = C->mkFloor(p, w - 1);
        return C->resolve(C->lin(C->resolve(p), 1, f, -pow2(w)));
    }
    P lshr(P a, int k) { return C->mkFloor(a, k); }

    P binop(unsigned op, P a, P b, int w)
    {
        a = C->resolve(a); b = C->resolve(b);
        switch (op) {
        case Instruction::Add: {
            // subtraction of small constants arrives as addition of 2^w - c
            if (C->isConst(b) && C->constOf(b) >= pow2(w - 1) ) { Int c = pow2(w) - C->constOf(b); return wrap(C->addc(a, -c), w); }
            return wrap(C->add(a, b), w);
        }
        case Instruction::Sub: return wrap(C->sub(a, b), w);
        case Instruction::Mul:
            if (C->isConst(b) && C->constOf(b) >= pow2(w - 1)) return wrap(C->scale(a, C->constOf(b) - pow2(w)), w);
            if (C->quot && a == b && !C->isConst(a)) { // a squared quotient with few values is gone through value by value
                Int lo, hi; C->rangeF(a, lo, hi);
                bool q = false; for (auto &t : C->polys[a].t) for (int x : C->monos[t.m]) q |= C->atoms[x].def == D_FLOOR;
                if (q && hi - lo < C->quot) { Int v = C->decideValue(a); a = b = C->cst(v); }
            }
            return wrap(C->resolve(C->mul(a, b)), w);
        case Instruction::And: return C->mkAnd(a, b, w);
        case Instruction::Or: { if (C->isConst(a)) std::swap(a, b); if (C->isConst(b) && C->constOf(b) == pow2(w) - 1) return b; { P r; if (C->bitwise('|', a, b, w, r)) return r; } P n = C->mkAnd(a, b, w); return C->resolve(C->sub(C->add(C->resolve(a), C->resolve(b)), n)); }
        case Instruction::Xor: {
            if (C->isConst(a)) std::swap(a, b);
            if (C->isConst(b) && C->constOf(b) == pow2(w) - 1) return C->addc(C->scale(a, -1), pow2(w) - 1);
            { P r; if (C->bitwise('^', a, b, w, r)) return r; }
            P n = C->mkAnd(a, b, w);
            return C->resolve(C->lin(C->add(C->resolve(a), C->resolve(b)), 1, n, -2));
        }
        case Instruction::Shl: {
            Int s = C->decideValue(b); if (s >= w) return -1;
            if (C->bitv) { std::vector<P> v; P x = C->resolve(a); if (C->bitsOf(x, w, v)) { v.insert(v.begin(), (size_t)(int)s, C->cst(0)); if ((int)v.size() > w) v.resize(w); return C->fromBits(v); } }
            return wrap(C->scale(C->resolve(a), pow2((int)s)), w);
        }
        case Instruction::LShr: {
            Int s = C->decideValue(b); if (s >= w) return -1;
            return C->mkFloor(a, (int)s);
        }
        case Instruction::AShr: {
            Int s = C->decideValue(b); if (s >= w) return -1;
            return wrap(C->mkFloor(sgn(a, w), (int)s), w);
        }
        case Instruction::UDiv: case Instruction::URem: {
            if (C->isConst(b)) {
                Int d = C->constOf(b);
                if (d == 0) throw PathEnd{E_TRAP, "division by zero"};
                if (C->isConst(a)) return C->cst(op == Instruction::UDiv ? C->constOf(a) / d : C->constOf(a) % d);
                int k = val2(d);
                if (d == pow2(k)) { P f = C->mkFloor(a, k); return op == Instruction::UDiv ? f : C->resolve(C->lin(C->resolve(a), 1, f, -d)); }
            }
            Int lo, hi; C->rangeF(b, lo, hi);
            if (lo <= 0) { P z = C->mkEQ0(b); if (C->decide(z)) throw PathEnd{E_TRAP, "division by zero"}; }
            Int al, ah; C->rangeF(a, al, ah); C->rangeF(b, lo, hi);
            if (op == Instruction::UDiv) return C->mkOpq("udiv", {a, b}, al / hi, ah / lo);
            return C->mkOpq("urem", {a, b}, 0, hi - 1);
        }
        case Instruction::SDiv: case Instruction::SRem: {
            if (!C->isConst(b)) throw GiveUp{"signed division"};
            P sa = sgn(a, w); Int d = C->constOf(b); if (d >= pow2(w - 1)) d -= pow2(w);
            if (d == 0) throw PathEnd{E_TRAP, "division by zero"};
            if (C->isConst(sa)) { Int x = C->constOf(sa); return wrap(C->cst(op == Instruction::SDiv ? x / d : x % d), w); }
            Int lo, hi; C->rangeF(sa, lo, hi);
            int k = val2(d);
            if (lo >= 0 && d == pow2(k)) { P f = C->mkFloor(sa, k); return op == Instruction::SDiv ? f : C->resolve(C->lin(C->resolve(sa), 1, f, -d)); }
            throw GiveUp{"signed division"};
        }
        }
        throw GiveUp{"binary operator"};
    }
    P cmp(CmpInst::Predicate pr, P a, P b, int w)
    {
        if (CmpInst::isSigned(pr)) { a = sgn(a, w); b = sgn(b, w); }
        a = C->resolve(a); b = C->resolve(b);
        P d = C->sub(a, b);
        P r;
        switch (pr) {
        case CmpInst::ICMP_EQ: r = C->mkEQ0(d); break;
        case CmpInst::ICMP_NE: r = C->sub(C->cst(1), C->mkEQ0(d)); break;
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: r = C->mkGE(d); break;
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = C->mkGE(C->addc(d, -1)); break;
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = C->mkGE(C->scale(d, -1)); break;
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = C->mkGE(C->addc(C->scale(d, -1), -1)); break;
        default: throw GiveUp{"comparison"};
        }
        return C->resolve(r);
    }
    P sel(P c, P a, P b)
    {
        c = C->resolve(c);
        if (C->isConst(c)) return C->constOf(c) != 0 ? a : b;
        a = C->resolve(a); b = C->resolve(b);
        if (a == b) return a;
        P d = C->resolve(C->sub(a, b));
        if (C->isConst(d)) return C->resolve(C->lin(b, 1, c, C->constOf(d)));
        Int l1, h1, l2, h2; C->range(a, l1, h1); C->range(b, l2, h2);
        if (l1 >= 0 && h1 <= 1 && l2 >= 0 && h2 <= 1 && C->polys[c].t.size() * (C->polys[d].t.size()) < 12) return C->resolve(C->add(b, C->mul(c, d)));
        return C->decide(c) ? C->resolve(a) : C->resolve(b);
    }
    P ctlz(P a, int w)
    {
        a = C->resolve(a);
        for (int i = w - 1; i >= 0; i--) {
            P g = C->mkGE(C->addc(C->resolve(a), -pow2(i)));
            if (C->decide(g)) return C->cst(w - 1 - i);
        }
        return C->cst(w);
    }
    P cttz(P a, int w)
    {
        for (int i = 1; i <= w; i++) {
            P low = C->sliceOf(C->resolve(a), 0, i);
            P z = C->mkEQ0(low);
            if (!C->decide(z)) return C->cst(i - 1);
        }
        return C->cst(w);
    }

    // ---------- frames
    FnInfo &info(const Function *f)
    {
        auto &fi = finfo[f];
        if (fi.n == 0) {
            for (auto &a : f->args()) fi.slot[&a] = fi.n++;
            for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) fi.slot[&i] = fi.n++;
            fi.n++;
        }
        return fi;
    }
    struct Frame { const Function *f; FnInfo *fi; std::vector<Val> v; };
    Val get(Frame &fr, const Value *v)
    {
        if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
        auto it = fr.fi->slot.find(v);
        if (it == fr.fi->slot.end()) throw GiveUp{"operand"};
        return fr.v[it->second];
    }
    P geti(Frame &fr, const Value *v)
    {
        Val x = force(get(fr, v));
        if (x.k == Val::INT) return C->resolve(x.p);
        if (x.k == Val::UNDEF) {
            if (isa<Constant>(v)) return C->cst(0); // explicit undef/poison constant: any value is allowed
            throw GiveUp{"use of an undefined value"};
        }
        throw GiveUp{"pointer used as integer"};
    }

    // An undecided branch whose arms only compute values and meet again at once: the values at the join become lazy
    // choices, so that a decision nobody depends on is never taken.
    bool ifConvert(Frame &fr, const Instruction *I, const BasicBlock *bb, const BasicBlock *&next)
    {
        const Value *cond; std::vector<const BasicBlock *> succ;
        if (auto *b = dyn_cast<BranchInst>(I)) { if (b->isUnconditional()) return false; cond = b->getCondition(); }
        else if (auto *s = dyn_cast<SwitchInst>(I)) cond = s->getCondition();
        else return false;
        Val c = get(fr, cond);
        if (c.k != Val::LAZY && (c.k != Val::INT || C->isConst(C->resolve(c.p)))) return false;
        if (c.k == Val::LAZY && c.th->done) return false;
        for (unsigned i = 0; i < I->getNumSuccessors(); i++) succ.push_back(I->getSuccessor(i));
        const BasicBlock *J = nullptr;
        auto arm = [&](const BasicBlock *s) -> const BasicBlock * { // join reached through s, or null
            if (s->getUniquePredecessor() != bb) return nullptr;
            for (auto &i : *s) {
                if (i.isTerminator()) { auto *t = dyn_cast<BranchInst>(&i); return t && t->isUnconditional() ? t->getSuccessor(0) : nullptr; }
                if (isa<DbgInfoIntrinsic>(i) || i.isLifetimeStartOrEnd()) continue;
                if (isa<LoadInst>(i)) { if (!i.getType()->isIntegerTy()) return nullptr; continue; }
                if (auto *ii = dyn_cast<IntrinsicInst>(&i)) { if (ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue; return nullptr; }
                if (i.mayHaveSideEffects() || i.mayReadOrWriteMemory() || isa<PHINode>(i) || isa<CallBase>(i)) return nullptr;
            }
            return nullptr;
        };
        for (auto *s : succ) { auto *j = arm(s); if (j) { if (J && J != j) return false; J = j; } }
        if (!J) return false;
        for (auto *s : succ) if (s != J && arm(s) != J) return false;
        if (!isa<PHINode>(J->begin())) return false;
        // arms: everything they compute is lazy already
        auto saved = fr.v; auto memo = objs;
        try {
            std::set<const BasicBlock *> done;
            for (auto *s : succ) if (s != J && done.insert(s).second) for (auto &i : *s) {
                if (i.isTerminator() || isa<DbgInfoIntrinsic>(i) || isa<IntrinsicInst>(i)) continue;
                instrs++;
                if (i.getOpcode() == Instruction::UDiv || i.getOpcode() == Instruction::URem || i.getOpcode() == Instruction::SDiv || i.getOpcode() == Instruction::SRem) throw GiveUp{"arm"};
                if (auto *l = dyn_cast<LoadInst>(&i)) { // guarded load: only if it cannot fail
                    Val p = get(fr, l->getPointerOperand());
                    int sz = l->getModule()->getDataLayout().getTypeStoreSize(l->getType());
                    if (!(p.k == Val::LAZY && !p.th->done && p.th->cobj > 0) && !loadable(p, sz)) throw GiveUp{"arm"};
                }
                fr.v[fr.fi->slot[&i]] = exec(fr, &i);
            }
        } catch (GiveUp &) { fr.v = saved; objs = memo; return false; } catch (PathEnd &) { fr.v = saved; objs = memo; return false; }
        std::function<int()> which;
        if (isa<BranchInst>(I)) which = [this, c]() { Val v = force(c); if (v.k != Val::INT) throw GiveUp{"use of an undefined value"}; P p = C->resolve(v.p); return (C->isConst(p) ? C->constOf(p) != 0 : C->decide(p)) ? 0 : 1; };
        else {
            auto *s = cast<SwitchInst>(I);
            which = [this, c, s]() {
                Val v = force(c); if (v.k != Val::INT) throw GiveUp{"use of an undefined value"};
                for (auto &cs : s->cases()) { P e = C->mkEQ0(C->sub(C->resolve(v.p), constVal(cs.getCaseValue()).p)); if (C->decide(e)) return (int)cs.getSuccessorIndex(); }
                return 0;
            };
        }
        std::vector<std::pair<int, Val>> ph; double cc = cost(c);
        for (auto it = J->begin(); isa<PHINode>(it); ++it) {
            auto *p = cast<PHINode>(it);
            std::vector<Val> in; double cs = cc; bool same = true;
            for (auto *s : succ) { in.push_back(get(fr, p->getIncomingValueForBlock(s == J ? bb : s))); cs += cost(in.back()); }
            for (auto &v : in) if (!(v.k == Val::INT && in[0].k == Val::INT && C->resolve(v.p) == C->resolve(in[0].p))) same = false;
            if (same) { ph.push_back({fr.fi->slot[p], in[0]}); continue; }
            if (!p->getType()->isIntegerTy()) { fr.v = saved; return false; }
            Val r = mkLazy([this, which, in]() { return force(in[which()]); }, cs);
            int w = p->getType()->getIntegerBitWidth();
            if (w <= 128) {
                Int z = pow2(w) - 1, o = z;
                for (auto &v : in) { Int vz, vo; known(v, w, vz, vo); z &= vz; o &= vo; }
                r.th->kz = z; r.th->ko = o;
            }
            ph.push_back({fr.fi->slot[p], r});
        }
        for (auto &x : ph) fr.v[x.first] = x.second;
        next = J;
        return true;
    }
    bool undef(Frame &fr, const Value *v) { if (isa<Constant>(v)) return false; return get(fr, v).k == Val::UNDEF; }
    Val call(const Function *f, std::vector<Val> args)
    {
        if (stack.size() > 200) throw GiveUp{"call depth"};
        analysed.insert(f);
        Frame fr; fr.f = f; fr.fi = &info(f); fr.v.resize(fr.fi->n);
        int i = 0;
        for (auto &a : f->args()) { if (i < (int)args.size()) fr.v[fr.fi->slot[&a]] = args[i]; i++; }
        const BasicBlock *bb = &f->getEntryBlock(), *prev = nullptr; bool converted = false;
        stack.push_back(nullptr);
        while (true) {
            if (blocksSeen.insert(bb).second) noteScopes(bb);
            // phis first
            std::vector<std::pair<int, Val>> ph;
            auto it = bb->begin();
            bool wasConverted = converted; converted = false;
            for (; isa<PHINode>(it); ++it) { auto *p = cast<PHINode>(it); if (wasConverted) continue; ph.push_back({fr.fi->slot[p], get(fr, p->getIncomingValueForBlock(prev))}); }
            for (auto &x : ph) fr.v[x.first] = x.second;
            const BasicBlock *next = nullptr;
            for (; it != bb->end(); ++it) {
                const Instruction *I = &*it;
                instrs++;
                if (--stepBudget < 0) throw GiveUp{"step budget"};
                if ((stepBudget & 255) == 0 && deadline > 0 && now() > deadline) throw GiveUp{"time budget"};
                stack.back() = I;
                if (auto *r = dyn_cast<ReturnInst>(I)) {
                    Val v; if (r->getReturnValue()) v = get(fr, r->getReturnValue());
                    stack.pop_back();
                    return v;
                }
                if (optIfConv && ifConvert(fr, I, bb, next)) { converted = true; break; }
                if (auto *b = dyn_cast<BranchInst>(I)) {
                    if (b->isUnconditional()) next = b->getSuccessor(0);
                    else next = C->decide(geti(fr, b->getCondition())) ? b->getSuccessor(0) : b->getSuccessor(1);
                    break;
                }
                if (auto *s = dyn_cast<SwitchInst>(I)) {
                    P c = geti(fr, s->getCondition());
                    next = s->getDefaultDest();
                    for (auto &cs : s->cases()) {
                        P k = constVal(cs.getCaseValue()).p;
                        P e = C->mkEQ0(C->sub(C->resolve(c), k));
                        if (C->decide(e)) { next = cs.getCaseSuccessor(); break; }
                    }
                    break;
                }
                if (isa<UnreachableInst>(I)) throw PathEnd{E_UNREACH, "unreachable reached"};
                if (auto *iv = dyn_cast<InvokeInst>(I)) {
                    Val v = doCall(fr, iv);
                    if (!I->getType()->isVoidTy()) fr.v[fr.fi->slot[I]] = v;
                    next = iv->getNormalDest();
                    break;
                }
                Val v = exec(fr, I);
                if (v.k == Val::LAZY && I->getType()->isIntegerTy()) { int bw = I->getType()->getIntegerBitWidth(); if (!v.th->bw || v.th->bw > bw) v.th->bw = bw; }
                if (trace && v.k == Val::INT && !I->getType()->isVoidTy()) { std::string str; raw_string_ostream os(str); I->print(os); fprintf(stderr, "%s\n    = %s\n", str.c_str(), show(C->resolve(v.p)).substr(0, 1500).c_str()); }
                if (!I->getType()->isVoidTy()) fr.v[fr.fi->slot[I]] = v;
            }
            if (!next) throw GiveUp{"terminator"};
            prev = bb; bb = next;
        }
    }
    static int width(Type *t) { if (!t->isIntegerTy()) throw GiveUp{"non-integer operation"}; return t->getIntegerBitWidth(); }

    bool cval(const Val &v) { return v.k == Val::INT && C->isConst(v.p); }
    template<class F> Val op2(Frame &fr, const Value *x, const Value *y, F f, unsigned opc = 0, int w = 0)
    {
        Val a = get(fr, x), b = get(fr, y);
        if (a.k == Val::UNDEF && isa<Constant>(x)) a = vint(C->cst(0));
        if (b.k == Val::UNDEF && isa<Constant>(y)) b = vint(C->cst(0));
        return op2v(a, b, f, opc, w);
    }
    template<class F> Val op2v(Val a, Val b, F f, unsigned opc = 0, int w = 0)
    {
        bool isAnd = opc == Instruction::And || opc == Instruction::Mul, isOr = opc == Instruction::Or;
        if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
        if (cval(a) && cval(b)) return f(a.p, b.p);
        if (w <= 128 && (opc == Instruction::And || opc == Instruction::LShr)) {
            Int m = pow2(w) - 1;
            if (opc == Instruction::And && cval(b)) a = strip(a, C->constOf(b.p) & m, w);
            else if (opc == Instruction::And && cval(a)) b = strip(b, C->constOf(a.p) & m, w);
            else if (opc == Instruction::LShr && cval(b)) {
                Int s = C->constOf(b.p);
                if (s >= 0 && s < w) {
                    a = strip(a, m & ~(pow2((int)s) - 1), w);
                    while (a.k == Val::LAZY && !a.th->done && a.th->op == Instruction::Shl && a.th->w <= w && cval(a.th->B)) {
                        Int k = C->constOf(a.th->B.p), z, o; if (k < 0 || k > s) break;
                        known(a.th->A, w, z, o);
                        if ((~z & m & ~((pow2(a.th->w) - 1) >> (int)k)) != 0) break; // bits would be lost
                        s -= k; a = strip(Val(a.th->A), m & ~(pow2((int)s) - 1), w);
                    }
                    if (s == 0) return a;
                    b = vint(C->cst(s));
                }
            }
            if (cval(a) && cval(b)) return f(a.p, b.p);
            if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
        }
        bool isShift = opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr;
        Val res = mkLazy([this, a, b, f, isAnd, isOr, isShift, w]() {
            if (isShift && cost(b) > 0) { Val p = force(a); if (p.k == Val::UNDEF) return Val(); if (p.k == Val::INT) { P r = C->resolve(p.p); if (C->isConst(r) && C->constOf(r) == 0) return vint(r); } }
            if (isAnd || isOr) { // one operand may settle the result
                bool aFirst = cost(a) <= cost(b);
                Val p = force(aFirst ? a : b);
                if (p.k == Val::INT) { P r = C->resolve(p.p); if (C->isConst(r) && C->constOf(r) == (isAnd ? (Int)0 : pow2(w) - 1)) return vint(r); }
            }
            Val p = force(a); if (p.k == Val::UNDEF) return Val();
            Val q = force(b); if (q.k == Val::UNDEF) return Val();
            if (p.k != Val::INT || q.k != Val::INT) throw GiveUp{"pointer used as integer"};
            return f(C->resolve(p.p), C->resolve(q.p));
        }, cost(a) + cost(b));
        if (opc) {
            setKnown(res, opc, a, b, w);
            res.th->op = opc; res.th->A = a; res.th->B = b; res.th->w = w;
            if (w <= 128 && ((res.th->kz | res.th->ko) == pow2(w) - 1)) return vint(C->cst(res.th->ko));
        }
        return res;
    }
    template<class F> Val op1(Frame &fr, const Value *x, F f) { return op1v(get(fr, x), f); }
    template<class F> Val op1v(Val a, F f)
    {
        if (a.k == Val::UNDEF) return a;
        if (cval(a)) return f(a.p);
        return mkLazy([this, a, f]() {
            Val p = force(a); if (p.k == Val::UNDEF) return Val();
            if (p.k != Val::INT) throw GiveUp{"pointer used as integer"};
            return f(C->resolve(p.p));
        }, cost(a));
    }
    Val exec(Frame &fr, const Instruction *I)
    {
        if (auto *bo = dyn_cast<BinaryOperator>(I); bo && !bo->getType()->isFPOrFPVectorTy()) {
            int w = width(I->getType()); unsigned op = bo->getOpcode();
            return op2(fr, bo->getOperand(0), bo->getOperand(1), [this, op, w](P x, P y) { P r = binop(op, x, y, w); return r < 0 ? Val() : vint(r); }, op, w); // an oversized shift is poison
        }
        if (auto *ic = dyn_cast<ICmpInst>(I)) {
            if (ic->getOperand(0)->getType()->isPointerTy()) {
                Val a = force(get(fr, ic->getOperand(0))), b = force(get(fr, ic->getOperand(1)));
                if (a.k != Val::PTR || b.k != Val::PTR) throw GiveUp{"pointer comparison"};
                if (a.obj != b.obj) {
                    if (ic->getPredicate() == CmpInst::ICMP_EQ) return vint(C->cst(0));
                    if (ic->getPredicate() == CmpInst::ICMP_NE) return vint(C->cst(1));
                    throw GiveUp{"pointer comparison"};
                }
                P d = C->sub(a.p, b.p); // same object: compare offsets (non-negative)
                a.p = d; b.p = C->cst(0);
                switch (ic->getPredicate()) {
                case CmpInst::ICMP_EQ: return vint(C->mkEQ0(d));
                case CmpInst::ICMP_NE: return vint(C->sub(C->cst(1), C->mkEQ0(d)));
                case CmpInst::ICMP_UGE: return vint(C->mkGE(d));
                case CmpInst::ICMP_ULT: return vint(C->sub(C->cst(1), C->mkGE(d)));
                case CmpInst::ICMP_ULE: return vint(C->mkGE(C->scale(d, -1)));
                case CmpInst::ICMP_UGT: return vint(C->sub(C->cst(1), C->mkGE(C->scale(d, -1))));
                default: throw GiveUp{"pointer comparison"};
                }
            }
            int w = width(ic->getOperand(0)->getType());
            auto pr = ic->getPredicate();
            if (w <= 128 && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE)) {
                Val a = get(fr, ic->getOperand(0)), b = get(fr, ic->getOperand(1));
                if ((a.k == Val::LAZY && b.k != Val::UNDEF) || (b.k == Val::LAZY && a.k != Val::UNDEF)) {
                    Int az, ao, bz, bo; known(a, w, az, ao); known(b, w, bz, bo);
                    if ((az & bo) != 0 || (ao & bz) != 0) return vint(C->cst(pr == CmpInst::ICMP_NE));
                }
            } else if (w <= 128) { // order decided by the known bits alone
                Val a = get(fr, ic->getOperand(0)), b = get(fr, ic->getOperand(1));
                if ((a.k == Val::LAZY && b.k != Val::UNDEF) || (b.k == Val::LAZY && a.k != Val::UNDEF)) {
                    Int az, ao, bz, bo, m = pow2(w) - 1, top = pow2(w - 1); known(a, w, az, ao); known(b, w, bz, bo);
                    if (!ic->isSigned() || ((az & top) != 0 && (bz & top) != 0)) {
                        Int al = ao, ah = m & ~az, bl = bo, bh = m & ~bz;
                        switch (ICmpInst::getUnsignedPredicate(pr)) {
                        case CmpInst::ICMP_ULE: if (ah <= bl) return vint(C->cst(1)); if (al > bh) return vint(C->cst(0)); break;
                        case CmpInst::ICMP_ULT: if (ah < bl) return vint(C->cst(1)); if (al >= bh) return vint(C->cst(0)); break;
                        case CmpInst::ICMP_UGE: if (al >= bh) return vint(C->cst(1)); if (ah < bl) return vint(C->cst(0)); break;
                        case CmpInst::ICMP_UGT: if (al > bh) return vint(C->cst(1)); if (ah <= bl) return vint(C->cst(0)); break;
                        default: break;
                        }
                    }
                }
            }
            return op2(fr, ic->getOperand(0), ic->getOperand(1), [this, pr, w](P x, P y) { return vint(cmp(pr, x, y, w)); });
        }
        switch (I->getOpcode()) {
        case Instruction::Alloca: {
            auto *ai = cast<AllocaInst>(I);
            int64_t n = DL.getTypeAllocSize(ai->getAllocatedType());
            if (ai->isArrayAllocation()) n *= (int64_t)C->decideValue(geti(fr, ai->getArraySize()));
            return vptr(newObj(n), C->cst(0));
        }
        case Instruction::Load: {
            Type *T = I->getType();
            if (T->isVectorTy() || (T->isFloatingPointTy() && !T->isDoubleTy() && !T->isFloatTy())) throw GiveUp{"load of vector/float"};
            int size = DL.getTypeStoreSize(T);
            if (T->isAggregateType()) throw GiveUp{"aggregate load"};
            Val v = load(get(fr, cast<LoadInst>(I)->getPointerOperand()), size, T->isPointerTy());
            if (T->isIntegerTy() && (int)T->getIntegerBitWidth() < size * 8) {
                int w = T->getIntegerBitWidth();
                if (v.k == Val::INT) v.p = wrap(v.p, w);
                else if (v.k == Val::LAZY) { Val o = v; v = mkLazy([this, o, w]() { Val x = force(o); if (x.k == Val::INT) x.p = wrap(x.p, w); return x; }); }
            }
            if (v.k == Val::LAZY && T->isPointerTy()) v = force(v);
            if (v.k == Val::INT && T->isPointerTy()) { P r = C->resolve(v.p); if (C->isConst(r) && C->constOf(r) == 0) return vptr(0, C->cst(0)); throw GiveUp{"integer as pointer"}; }
            if (v.k == Val::PTR && !T->isPointerTy()) throw GiveUp{"pointer as integer"};
            return v;
        }
        case Instruction::Store: {
            auto *st = cast<StoreInst>(I);
            Type *T = st->getValueOperand()->getType();
            if (T->isVectorTy() || (T->isFloatingPointTy() && !T->isDoubleTy() && !T->isFloatTy()) || T->isAggregateType()) {
                if (auto *c = dyn_cast<Constant>(st->getValueOperand()); c && c->isNullValue() && !T->isFloatingPointTy()) {
                    Val d = get(fr, st->getPointerOperand());
                    int64_t n = DL.getTypeStoreSize(T);
                    for (int64_t i = 0; i < n; i += 8) { Val q = d; q.p = C->addc(q.p, (Int)i); store(q, vint(C->cst(0)), std::min<int64_t>(8, n - i)); }
                    return Val();
                }
                throw GiveUp{"store of vector/float/aggregate"};
            }
            store(get(fr, st->getPointerOperand()), get(fr, st->getValueOperand()), DL.getTypeStoreSize(T));
            return Val();
        }
        case Instruction::GetElementPtr: {
            auto *g = cast<GetElementPtrInst>(I);
            Val b = get(fr, g->getPointerOperand());
            if (isSelPtr(b) && cast<GEPOperator>(g)->hasAllConstantIndices()) {
                APInt ao(64, 0);
                if (cast<GEPOperator>(g)->accumulateConstantOffset(DL, ao)) {
                    std::function<Val(const Val &)> mv = [&](const Val &v) -> Val {
                        if (isSelPtr(v)) { Val x = mv(v.th->sa), y = mv(v.th->sb); return selPtr(v.th->sc, x, y); }
                        if (v.k != Val::PTR) { Val q = force(v); if (q.k != Val::PTR) throw GiveUp{"gep base"}; return vptr(q.obj, C->addc(q.p, (Int)ao.getSExtValue())); }
                        return vptr(v.obj, C->addc(v.p, (Int)ao.getSExtValue()));
                    };
                    return mv(b);
                }
            }
            b = force(b);
            if (b.k != Val::PTR) throw GiveUp{"gep base"};
            P off = b.p;
            for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
                const Value *idx = ti.getOperand();
                if (auto *st = ti.getStructTypeOrNull()) { off = C->addc(off, (Int)(int64_t)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue())); continue; }
                int64_t es = DL.getTypeAllocSize(ti.getIndexedType());
                if (std::next(ti) == te) { // an index that is not evaluated yet: the table lookup may not need it
                    Val iv = get(fr, idx); int iw = width(idx->getType());
                    if (iv.k == Val::LAZY && !iv.th->done && iw <= 64 && C->isConst(C->resolve(off))) {
                        if (optIfConv && objs[b.obj].g && objs[b.obj].g->isConstant()) {
                            P off0 = C->resolve(off); int ob = b.obj;
                            Val r = mkLazy([this, iv, off0, ob, es, iw]() -> Val {
                                Val x = force(iv); if (x.k != Val::INT) return Val();
                                return vptr(ob, C->resolve(C->lin(off0, 1, sgn(C->resolve(x.p), iw), (Int)es)));
                            }, cost(iv));
                            r.th->cobj = ob;
                            return r;
                        }
                        Int kz, ko; known(iv, iw, kz, ko);
                        Int unk = ~(kz | ko) & (pow2(iw) - 1); int n = 0; for (int i = 0; i < iw; i++) n += ((unk >> i) & 1) != 0;
                        if (n <= 8 && ((kz >> (iw - 1)) & 1) != 0) {
                            P off0 = C->resolve(off); int ob = b.obj;
                            Val r = mkLazy([this, iv, off0, ob, es, iw]() -> Val {
                                Val x = force(iv); if (x.k != Val::INT) return Val();
                                return vptr(ob, C->resolve(C->lin(off0, 1, sgn(C->resolve(x.p), iw), (Int)es)));
                            }, cost(iv));
                            r.th->tblObj = ob; r.th->tblOff = C->constOf(off0); r.th->tblScale = es; r.th->tblIdx = iv; r.th->tblW = iw;
                            return r;
                        }
                    }
                }
                P ix = geti(fr, idx);
                ix = sgn(ix, width(idx->getType()));
                off = C->lin(off, 1, ix, (Int)es);
            }
            return vptr(b.obj, C->resolve(off));
        }
        case Instruction::ZExt: {
            Val v = get(fr, I->getOperand(0));
            int w = width(I->getOperand(0)->getType()), w2 = width(I->getType());
            if (v.k == Val::LAZY && !v.th->done && w2 <= 128) v.th->kz |= (pow2(w2) - 1) & ~(pow2(w) - 1);
            return v;
        }
        case Instruction::SExt: {
            int w = width(I->getOperand(0)->getType()), w2 = width(I->getType()); Val a = get(fr, I->getOperand(0));
            Val r = op1(fr, I->getOperand(0), [this, w, w2](P x) { return vint(wrap(sgn(x, w), w2)); });
            if (r.k == Val::LAZY && w2 <= 128) { Int kz, ko; known(a, w, kz, ko); if ((kz >> (w - 1)) & 1) { r.th->kz = kz | ((pow2(w2) - 1) & ~(pow2(w) - 1)); r.th->ko = ko; } }
            return r;
        }
        case Instruction::Trunc: {
            int w = width(I->getType()), w0 = width(I->getOperand(0)->getType()); Val a = get(fr, I->getOperand(0));
            if (w0 <= 128) a = strip(a, pow2(w) - 1, w0);
            Val r = op1v(a, [this, w](P x) { return vint(wrap(x, w)); });
            if (r.k == Val::LAZY && w <= 128) {
                Int kz, ko; known(a, w, kz, ko); r.th->kz = kz; r.th->ko = ko;
                if (a.k == Val::LAZY && w0 <= 128) { Int z0, o0; known(a, w0, z0, o0); if (!a.th->done && a.th->w <= w && ((z0 >> w) == (pow2(w0 - w) - 1))) return a; } // nothing is cut off
                if (r.th != a.th) { r.th->op = Instruction::Trunc; r.th->A = a; r.th->w = w; }
                if ((kz | ko) == pow2(w) - 1) return vint(C->cst(ko));
            }
            return r;
        }
        case Instruction::BitCast: case Instruction::Freeze: { Val v = get(fr, I->getOperand(0)); return v; }
        case Instruction::PtrToInt: throw GiveUp{"ptrtoint"};
        case Instruction::IntToPtr: throw GiveUp{"inttoptr"};
        case Instruction::Select: {
            Val c = get(fr, I->getOperand(0)), a = get(fr, I->getOperand(1)), b = get(fr, I->getOperand(2));
            if (c.k == Val::UNDEF) return Val();
            bool isInt = I->getType()->isIntegerTy(); int w = isInt ? I->getType()->getIntegerBitWidth() : 0;
            auto pick = [this, c, a, b, w, isInt]() -> Val {
                if (isInt && a.k == Val::INT && b.k == Val::INT && C->resolve(a.p) == C->resolve(b.p)) return a;
                if (isInt && cost(c) > 3 * (cost(a) + cost(b)) && a.k != Val::UNDEF && b.k != Val::UNDEF) {
                    Val x = force(a), y = force(b);
                    if (x.k == Val::INT && y.k == Val::INT && C->resolve(x.p) == C->resolve(y.p)) return vint(C->resolve(x.p));
                }
                Val cv = force(c);
                if (cv.k != Val::INT) return Val();
                P p = C->resolve(cv.p);
                if (C->isConst(p)) return force(C->constOf(p) != 0 ? a : b);
                if (w == 1 && cost(a) + cost(b) < 40) {
                    Val x = force(a), y = force(b);
                    if (x.k == Val::INT && y.k == Val::INT) return vint(sel(C->resolve(p), x.p, y.p));
                }
                if (a.k == Val::INT && b.k == Val::INT) return vint(sel(p, a.p, b.p));
                return force(C->decide(p) ? a : b);
            };
            if (c.k == Val::INT && C->isConst(C->resolve(c.p))) return C->constOf(C->resolve(c.p)) != 0 ? a : b;
            if (w == 1 && isInt && (cval(a) || cval(b))) { // logical and / or: evaluate the cheaper side first
                return mkLazy([this, pick, a, b, c]() -> Val {
                    if (cval(b) && C->constOf(b.p) == 0 && a.k != Val::UNDEF && cost(a) < cost(c)) { Val x = force(a); if (cval(x) && C->constOf(x.p) == 0) return x; }
                    if (cval(a) && C->constOf(a.p) == 1 && b.k != Val::UNDEF && cost(b) < cost(c)) { Val x = force(b); if (cval(x) && C->constOf(x.p) == 1) return x; }
                    return pick();
                }, cost(c) + cost(a) + cost(b));
            }
            if (!isInt) return I->getType()->isPointerTy() ? selPtr(c, a, b) : pick();
            Val r = mkLazy(pick, cost(c) + cost(a) + cost(b));
            if (w <= 128 && a.k != Val::UNDEF && b.k != Val::UNDEF) { Int az, ao, bz, bo; known(a, w, az, ao); known(b, w, bz, bo); r.th->kz = az & bz; r.th->ko = ao & bo; }
            return r;
        }
        case Instruction::ExtractValue: {
            Val v = get(fr, I->getOperand(0));
            for (unsigned i : cast<ExtractValueInst>(I)->indices()) { if (v.k != Val::AGG) throw GiveUp{"extractvalue"}; v = (*v.el)[i]; }
            return v;
        }
        case Instruction::InsertValue: {
            auto *iv = cast<InsertValueInst>(I);
            Val v = get(fr, I->getOperand(0));
            if (v.k != Val::AGG) v = zeroAgg(I->getType(), true);
            return insertVal(v, get(fr, I->getOperand(1)), iv->getIndices());
        }
        case Instruction::Call: return doCall(fr, cast<CallBase>(I));
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            Type *T = I->getType(); APFloat a = fp(fr, I->getOperand(0)), b = fp(fr, I->getOperand(1));
            auto rm = APFloat::rmNearestTiesToEven;
            switch (I->getOpcode()) { case Instruction::FAdd: a.add(b, rm); break; case Instruction::FSub: a.subtract(b, rm); break; case Instruction::FMul: a.multiply(b, rm); break; default: a.divide(b, rm); }
            (void)T; return fpv(a);
        }
        case Instruction::FNeg: { APFloat a = fp(fr, I->getOperand(0)); a.changeSign(); return fpv(a); }
        case Instruction::FCmp: { APFloat a = fp(fr, I->getOperand(0)), b = fp(fr, I->getOperand(1)); return vint(C->cst(FCmpInst::compare(a, b, cast<FCmpInst>(I)->getPredicate()) ? 1 : 0)); }
        case Instruction::FPExt: case Instruction::FPTrunc: { APFloat a = fp(fr, I->getOperand(0)); bool l; a.convert(I->getType()->getFltSemantics(), APFloat::rmNearestTiesToEven, &l); return fpv(a); }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            P r = C->resolve(geti(fr, I->getOperand(0))); int w = width(I->getOperand(0)->getType());
            if (w > 64 || !C->isConst(r)) throw GiveUp{"floating-point value of an unknown integer"};
            APFloat a(I->getType()->getFltSemantics());
            a.convertFromAPInt(APInt(w, (uint64_t)C->constOf(r)), I->getOpcode() == Instruction::SIToFP, APFloat::rmNearestTiesToEven);
            return fpv(a);
        }
        case Instruction::FPToUI: case Instruction::FPToSI: {
            APFloat a = fp(fr, I->getOperand(0)); int w = width(I->getType()); bool exact;
            if (w > 64) throw GiveUp{"floating-point value to a wide integer"};
            APSInt r(w, I->getOpcode() == Instruction::FPToUI);
            if (a.convertToInteger(r, APFloat::rmTowardZero, &exact) == APFloat::opInvalidOp) throw PathEnd{E_TRAP, "floating-point value out of the integer's range"};
            return vint(C->cst((Int)r.getZExtValue()));
        }
        case Instruction::Fence: return Val();
        }
        throw GiveUp{std::string("instruction ") + I->getOpcodeName()};
    }
    Val insertVal(Val v, Val x, ArrayRef<unsigned> idx)
    {
        if (idx.empty()) return x;
        Val r = v; r.el = std::make_shared<std::vector<Val>>(*v.el);
        (*r.el)[idx[0]] = insertVal((*r.el)[idx[0]], x, idx.slice(1));
        return r;
    }
    std::string cstring(Val p)
    {
        if (p.k != Val::PTR || p.obj <= 0) return "";
        const GlobalVariable *g = objs[p.obj].g;
        if (!g || !g->hasInitializer()) return "";
        auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer());
        if (!cd || !cd->isString()) return "";
        int64_t o = (int64_t)C->constOf(p.p);
        StringRef s = cd->getAsString();
        if (o > (int64_t)s.size()) return "";
        s = s.substr(o);
        return s.substr(0, s.find('\0')).str();
    }
    Val doCall(Frame &fr, const CallBase *cb)
    {
        const Function *f = cb->getCalledFunction();
        if (!f) { Val c = get(fr, cb->getCalledOperand()); if (c.k != Val::FN) throw GiveUp{"indirect call"}; f = c.fn; }
        StringRef n = f->getName();
        if (auto *ii = dyn_cast<IntrinsicInst>(cb)) return intrinsic(fr, ii);
        if (n.starts_with("vp_")) return vpCall(fr, n, cb);
        if (!f->isDeclaration()) {
            std::vector<Val> a;
            for (unsigned i = 0; i < cb->arg_size(); i++) {
                Val v = get(fr, cb->getArgOperand(i));
                if (cb->isByValArgument(i)) { v = force(v); int64_t sz = DL.getTypeAllocSize(cb->getParamByValType(i)); Val nv = vptr(newObj(sz), C->cst(0)); copyMem(nv, v, sz); v = nv; }
                a.push_back(v);
            }
            Val r = call(f, a);
            return r;
        }
        if (n == "__assert_fail") throw PathEnd{E_ASSERT, "assertion '" + cstring(get(fr, cb->getArgOperand(0))) + "' at " + shortFile(cstring(get(fr, cb->getArgOperand(1)))) + ":" + istr(C->constOf(geti(fr, cb->getArgOperand(2))))};
        if (n == "abort" || n == "exit" || n == "_ZSt9terminatev") throw PathEnd{E_ASSERT, "call of " + n.str()};
        if (n == "__cxa_allocate_exception" && cb->getModule()->getFunction("vp_on_throw") && !cb->getModule()->getFunction("vp_on_throw")->isDeclaration()) call(cb->getModule()->getFunction("vp_on_throw"), {});
        if (n == "__cxa_allocate_exception" || n == "__cxa_throw" || n.starts_with("_ZSt20__throw_") || n.starts_with("_ZSt") && n.contains("__throw")) throw PathEnd{E_THROW, "exception thrown"};
        if (n == "__cxa_guard_acquire") {
            Val g = get(fr, cb->getArgOperand(0));
            guardStack.push_back(objs[g.obj].g); guardWrites.push_back({});
            return vint(C->cst(1));
        }
        if (n == "__cxa_guard_release") {
            Val g = get(fr, cb->getArgOperand(0));
            store(g, vint(C->cst(1)), 1);
            auto ws = guardWrites.back(); guardStack.pop_back(); guardWrites.pop_back();
            ws.insert(objs[g.obj].g);
            bool allc = true;
            std::map<const GlobalVariable *, Snapshot> sn;
            for (auto *gv : ws) for (auto &c : objs[gobj[gv]].cells) {
                CCell cc; cc.off = c.first; cc.size = c.second.size; cc.v = 0;
                Val cv = force(c.second.v); cc.undef = cv.k == Val::UNDEF;
                if (!cc.undef) { if (cv.k != Val::INT) { allc = false; break; } P r = C->resolve(cv.p); if (!C->isConst(r)) { allc = false; break; } cc.v = C->constOf(r); }
                sn[gv].cells.push_back(cc);
            }
            if (allc && guardStack.empty()) for (auto &s : sn) statics[s.first] = s.second;
            return Val();
        }
        if (n == "__cxa_atexit" || n.starts_with("_ZNSt8ios_base4Init")) return cb->getType()->isVoidTy() ? Val() : vint(C->cst(0));
        if (n == "strlen") return vint(C->cst((Int)(int64_t)cstring(get(fr, cb->getArgOperand(0))).size()));
        if (n == "_Znwm" || n == "_Znam" || n == "malloc") return vptr(newObj((int64_t)C->decideValue(geti(fr, cb->getArgOperand(0)))), C->cst(0));
        if (n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "free") return Val();
        if (n == "bcmp" || n == "memcmp") {
            int64_t sz = (int64_t)C->decideValue(geti(fr, cb->getArgOperand(2)));
            Val a = get(fr, cb->getArgOperand(0)), b = get(fr, cb->getArgOperand(1));
            for (int64_t i = 0; i < sz; i++) {
                Val pa = a, pb = b; pa.p = C->addc(pa.p, (Int)i); pb.p = C->addc(pb.p, (Int)i);
                Val x = force(load(pa, 1, false)), y = force(load(pb, 1, false));
                if (x.k != Val::INT || y.k != Val::INT) throw GiveUp{"memcmp of undefined bytes"};
                P d = C->resolve(C->sub(x.p, y.p));
                if (!C->decide(C->mkEQ0(d))) return vint(C->cst(1));
            }
            return vint(C->cst(0));
        }
        if (n == "ldexp" || n == "ldexpf" || n == "scalbn") {
            APFloat a = fp(fr, cb->getArgOperand(0)); P e = C->resolve(sgn(geti(fr, cb->getArgOperand(1)), 32));
            if (!C->isConst(e)) throw GiveUp{"ldexp by an unknown exponent"};
            return fpv(scalbn(a, (int)(int64_t)C->constOf(e), APFloat::rmNearestTiesToEven));
        }
        if (n == "round" || n == "floor" || n == "ceil" || n == "trunc") {
            APFloat a = fp(fr, cb->getArgOperand(0));
            a.roundToIntegral(n == "round" ? APFloat::rmNearestTiesToAway : n == "floor" ? APFloat::rmTowardNegative : n == "ceil" ? APFloat::rmTowardPositive : APFloat::rmTowardZero);
            return fpv(a);
        }
        if (n == "fabs") { APFloat a = fp(fr, cb->getArgOperand(0)); a.clearSign(); return fpv(a); }
        notFollowed.insert(n.str());
        throw GiveUp{"external function " + n.str()};
    }
    // floating-point arithmetic is folded on constants only (tables computed with double)
    APFloat fp(Frame &fr, const Value *v)
    {
        Type *T = v->getType();
        if (!T->isDoubleTy() && !T->isFloatTy()) throw GiveUp{"floating-point type"};
        Val x = force(get(fr, v));
        if (x.k != Val::INT) throw GiveUp{"undefined floating-point value"};
        P r = C->resolve(x.p);
        if (!C->isConst(r)) throw GiveUp{"floating-point operation on an unknown value"};
        return APFloat(T->getFltSemantics(), APInt(T->isDoubleTy() ? 64 : 32, (uint64_t)C->constOf(r)));
    }
    Val fpv(const APFloat &a) { return vint(C->cst((Int)a.bitcastToAPInt().getZExtValue())); }
    Val intrinsic(Frame &fr, const IntrinsicInst *ii)
    {
        int w = ii->getType()->isIntegerTy() ? ii->getType()->getIntegerBitWidth() : 0;
        auto A = [&](int i) { return geti(fr, ii->getArgOperand(i)); };
        switch (ii->getIntrinsicID()) {
        case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing:
            if (ii->getIntrinsicID() == Intrinsic::invariant_start) return vptr(0, C->cst(0));
            return Val();
        case Intrinsic::memcpy: case Intrinsic::memmove: copyMem(get(fr, ii->getArgOperand(0)), get(fr, ii->getArgOperand(1)), (int64_t)C->decideValue(A(2), 1)); return Val();
        case Intrinsic::memset: {
            Val d = get(fr, ii->getArgOperand(0)); P b = A(1); int64_t n = (int64_t)C->decideValue(A(2), 1);
            if (!C->isConst(b)) throw GiveUp{"memset value"};
            Int bv = C->constOf(b);
            for (int64_t i = 0; i < n;) {
                int64_t s = std::min<int64_t>(8, n - i);
                Int x = 0; for (int k = 0; k < s; k++) x = (x << 8) | bv;
                Val q = d; q.p = C->addc(q.p, (Int)i); store(q, vint(C->cst(x)), s); i += s;
            }
            return Val();
        }
        case Intrinsic::umax: { P a = A(0), b = A(1); P c = cmp(CmpInst::ICMP_UGT, a, b, w); return vint(sel(c, a, b)); }
        case Intrinsic::umin: { P a = A(0), b = A(1); P c = cmp(CmpInst::ICMP_ULT, a, b, w); return vint(sel(c, a, b)); }
        case Intrinsic::smax: { P a = A(0), b = A(1); P c = cmp(CmpInst::ICMP_SGT, a, b, w); return vint(sel(c, a, b)); }
        case Intrinsic::smin: { P a = A(0), b = A(1); P c = cmp(CmpInst::ICMP_SLT, a, b, w); return vint(sel(c, a, b)); }
        case Intrinsic::abs: { P s = sgn(A(0), w); P c = C->mkGE(s); return vint(C->decide(c) ? wrap(C->resolve(s), w) : wrap(C->scale(C->resolve(s), -1), w)); }
        case Intrinsic::ctlz: return vint(ctlz(A(0), w));
        case Intrinsic::cttz: return vint(cttz(A(0), w));
        case Intrinsic::ctpop: {
            P s = C->cst(0); P a = A(0);
            for (int i = 0; i < w; i++) { Int lo, hi; a = C->resolve(a); C->range(a, lo, hi); if (hi < pow2(i)) break; s = C->add(s, C->sliceOf(a, i, i + 1)); }
            return vint(C->resolve(s));
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            P a = A(0), b = A(1); int s = (int)C->decideValue(A(2)) % w;
            if (ii->getIntrinsicID() == Intrinsic::fshr) { if (s == 0) return vint(b); s = w - s; }
            else if (s == 0) return vint(a);
            P hi = wrap(C->scale(C->resolve(a), pow2(s)), w), lo = C->mkFloor(C->resolve(b), w - s);
            return vint(C->resolve(C->add(hi, lo)));
        }
        case Intrinsic::bswap: {
            P a = A(0), r = C->cst(0); int n = w / 8;
            for (int i = 0; i < n; i++) r = C->lin(r, 1, C->sliceOf(C->resolve(a), i * 8, i * 8 + 8), pow2((n - 1 - i) * 8));
            return vint(C->resolve(r));
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            auto id = ii->getIntrinsicID();
            P a = A(0), b = A(1); int ww = width(ii->getArgOperand(0)->getType());
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            if (sg) { a = sgn(a, ww); b = sgn(b, ww); }
            a = C->resolve(a); b = C->resolve(b);
            P x = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? C->add(a, b) : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? C->sub(a, b) : C->resolve(C->mul(a, b));
            P ok = sg ? C->resolve(C->mul(C->mkGE(C->addc(x, pow2(ww - 1))), C->mkGE(C->addc(C->scale(x, -1), pow2(ww - 1) - 1)))) : C->resolve(C->mul(C->mkGE(x), C->mkGE(C->addc(C->scale(x, -1), pow2(ww) - 1))));
            Val v; v.k = Val::AGG; v.el = std::make_shared<std::vector<Val>>();
            P wr = wrap(C->resolve(x), ww);
            v.el->push_back(vint(wr)); v.el->push_back(vint(C->resolve(C->sub(C->cst(1), ok))));
            return v;
        }
        case Intrinsic::usub_sat: { P a = A(0), b = A(1); P d = C->sub(a, b); return vint(C->decide(C->mkGE(d)) ? C->resolve(d) : C->cst(0)); }
        case Intrinsic::uadd_sat: { P a = A(0), b = A(1); P d = C->add(a, b); return vint(C->decide(C->mkGE(C->addc(C->scale(d, -1), pow2(w) - 1))) ? C->resolve(d) : C->cst(pow2(w) - 1)); }
        case Intrinsic::ubsantrap: case Intrinsic::trap: case Intrinsic::debugtrap: {
            std::string k = "trap";
            if (ii->getIntrinsicID() == Intrinsic::ubsantrap) {
                int c = (int)C->constOf(A(0));
                static const std::map<int, const char *> nm{{0, "signed add overflow"}, {1, "builtin unreachable"}, {3, "division overflow"}, {10, "invalid bool/enum load"}, {12, "signed multiply overflow"}, {13, "negation overflow"}, {18, "array index out of bounds"}, {19, "pointer overflow"}, {20, "shift out of bounds"}, {21, "signed subtract overflow"}, {22, "null or misaligned access"}};
                auto it = nm.find(c); k = std::string("undefined behaviour: ") + (it == nm.end() ? std::to_string(c) : std::string(it->second));
            }
            throw PathEnd{E_TRAP, k};
        }
        case Intrinsic::fmuladd: { APFloat a = fp(fr, ii->getArgOperand(0)); a.multiply(fp(fr, ii->getArgOperand(1)), APFloat::rmNearestTiesToEven); a.add(fp(fr, ii->getArgOperand(2)), APFloat::rmNearestTiesToEven); return fpv(a); }
        case Intrinsic::fabs: { APFloat a = fp(fr, ii->getArgOperand(0)); a.clearSign(); return fpv(a); }
        case Intrinsic::round: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: {
            auto id = ii->getIntrinsicID(); APFloat a = fp(fr, ii->getArgOperand(0));
            a.roundToIntegral(id == Intrinsic::round ? APFloat::rmNearestTiesToAway : id == Intrinsic::floor ? APFloat::rmTowardNegative : id == Intrinsic::ceil ? APFloat::rmTowardPositive : id == Intrinsic::trunc ? APFloat::rmTowardZero : APFloat::rmNearestTiesToEven);
            return fpv(a);
        }
        case Intrinsic::ldexp: { APFloat a = fp(fr, ii->getArgOperand(0)); P e = C->resolve(sgn(geti(fr, ii->getArgOperand(1)), 32)); if (!C->isConst(e)) throw GiveUp{"ldexp by an unknown exponent"}; return fpv(scalbn(a, (int)(int64_t)C->constOf(e), APFloat::rmNearestTiesToEven)); }
        case Intrinsic::expect: return get(fr, ii->getArgOperand(0));
        case Intrinsic::is_constant: return vint(C->cst(0));
        case Intrinsic::objectsize: return vint(C->cst(pow2(w) - 1));
        default: throw GiveUp{"intrinsic " + ii->getCalledFunction()->getName().str()};
        }
    }

    // ---------- harness interface
    Int nextReplay(Int lo, Int hi, const std::string &nm)
    {
        if (replayAt >= replay->size()) throw Infeasible{};
        Int v = (*replay)[replayAt++];
        if (v < lo || v > hi) throw Infeasible{};
        inputConsts.push_back({nm, v}); inputOrder.push_back({-1, v});
        return v;
    }
    // A violation counts only if analysing the entry again with the input ranges narrowed to the witness, without any of the
    // evaluation-order optimisations, derives it too. (Guards against errors of the analyser itself.)
    bool confirmed()
    {
        if (replay || !confirmEntry) return true;
        Engine E2(M); bool ic = optIfConv, sq = optSymq, bv = optBits; optSymq = optBits = false; int oq = optQuot; optQuot = 0; int ob = optBisect; optIfConv = false; optBisect = 0;
        std::vector<Int> w = lastWitness; E2.replay = &w; E2.lazyOpt = false; E2.runBudgetSteps = runBudgetSteps;
        try { E2.runEntry(confirmEntry, now() + 20, 20, 20, 64, {}); } catch (...) {}
        optIfConv = ic; optQuot = oq; optSymq = sq; optBits = bv; optBisect = ob;
        return !E2.viols.empty();
    }
    const Function *confirmEntry = nullptr;
    Val vpCall(Frame &fr, StringRef n, const CallBase *cb)
    {
        auto arg = [&](int i) { return get(fr, cb->getArgOperand(i)); };
        auto argi = [&](int i) { return geti(fr, cb->getArgOperand(i)); };
        if (n == "vp_var") { // (dst, nbytes, nbits, name)
            int nb = (int)C->constOf(argi(1)), bits = (int)C->constOf(argi(2));
            std::string nm = cstring(arg(3));
            if (replay && bits > 0) { store(arg(0), vint(C->cst(nextReplay(0, pow2(bits) - 1, nm))), nb); return Val(); }
            if (bits <= 0) { store(arg(0), vint(C->cst(0)), nb); return Val(); }
            int a = C->newVar(nm, 0, pow2(bits) - 1);
            inputVars.push_back({nm, a}); inputOrder.push_back({a, 0});
            store(arg(0), vint(C->atomP(a)), nb);
            return Val();
        }
        if (n == "vp_range") { // (dst, nbytes, lo(i64), hi(i64), name)
            int nb = (int)C->constOf(argi(1));
            std::string nm = cstring(arg(4));
            Int lo = C->constOf(argi(2)), hi = C->constOf(argi(3)), half = Int(1) << 63, full = half * 2;
            if (lo >= half) lo -= full; // the bounds are signed
            if (hi >= half) hi -= full;
            if (lo > hi) throw Infeasible{};
            if (replay) { store(arg(0), vint(wrap(C->cst(nextReplay(lo, hi, nm)), 8 * nb)), nb); return Val(); }
            if (lo == hi) { inputConsts.push_back({nm, lo}); inputOrder.push_back({-1, lo}); store(arg(0), vint(wrap(C->cst(lo), 8 * nb)), nb); return Val(); }
            int a = C->newVar(nm, lo, hi);
            inputVars.push_back({nm, a}); inputOrder.push_back({a, 0});
            store(arg(0), vint(lo < 0 ? wrap(C->atomP(a), 8 * nb) : C->atomP(a)), nb);
            return Val();
        }
        if (n == "vp_choose") { // (n, name)
            int k = (int)C->constOf(argi(0));
            int c = replay ? (int)nextReplay(0, k - 1, cstring(arg(1))) : C->choose(k);
            inputOrder.push_back({-1, (Int)c});
            inputConsts.push_back({cstring(arg(1)), (Int)c});
            return vint(C->cst(c));
        }
        if (n == "vp_decide") return vint(C->cst(C->decideValue(argi(0))));
        if (n == "vp_assume") { if (!C->decideTrue(argi(0))) throw Infeasible{}; return Val(); }
        if (n == "vp_unsupported") throw GiveUp{cstring(arg(0))};
        if (n == "vp_require") { requireZero(C->sub(C->cst(1), argi(0)), cstring(arg(1))); return Val(); }
        if (n == "vp_require_eq") { // (a,b,nbytes,msg)
            int nb = (int)C->constOf(argi(2));
            if (getenv("VP_DUMP")) dumpThunk(load(arg(0), nb, false));
            Val a = force(load(arg(0), nb, false)), b = force(load(arg(1), nb, false));
            std::string m = cstring(arg(3));
            if (a.k != Val::INT || b.k != Val::INT) { if (a.k == Val::UNDEF) obl(m, 1, "undefined value"); else obl(m, 1, "pointer"); return Val(); }
            requireZero(C->sub(C->resolve(a.p), C->resolve(b.p)), m);
            return Val();
        }
        if (n == "vp_require_mod") { // (a,b,nbytes,modbits,msg): a == b modulo 2^modbits
            int nb = (int)C->constOf(argi(2)), mb = (int)C->constOf(argi(3));
            Int dm = C->symq ? pow2(nb * 8) - 1 : pow2(mb) - 1;
            Val a = force(strip(load(arg(0), nb, false), dm, nb * 8)), b = force(strip(load(arg(1), nb, false), dm, nb * 8));
            std::string m = cstring(arg(4));
            if (a.k != Val::INT || b.k != Val::INT) { obl(m, 1, "undefined value"); return Val(); }
            P d = C->resolve(C->sub(C->resolve(a.p), C->resolve(b.p)));
            bool z = true; for (auto &t : C->polys[d].t) if (val2(t.c) < mb) z = false;
            if (z) { obl(m, 0, ""); return Val(); }
            { Int l, h; C->range(d, l, h); if (l > -pow2(mb) && h < pow2(mb)) { requireZero(d, m); return Val(); } }
            P f = C->mkFloor(d, mb);
            requireZero(C->resolve(C->lin(C->resolve(d), 1, f, -pow2(mb))), m);
            return Val();
        }
        if (n == "vp_identical") { // (a,b,nbytes): 1 if both are known to be the same value, without any partitioning
            int nb = (int)C->constOf(argi(2));
            Val a = force(load(arg(0), nb, false)), b = force(load(arg(1), nb, false));
            bool same = false;
            if (a.k == Val::INT && b.k == Val::INT) { P d = C->resolve(C->sub(C->resolve(a.p), C->resolve(b.p))); same = C->isConst(d) && C->constOf(d) == 0; }
            return vint(C->cst(same));
        }
        if (n == "vp_note") {
            Val a = force(load(arg(0), (int)C->constOf(argi(1)), false));
            if (a.k == Val::INT) notes.push_back({cstring(arg(2)), a.p});
            return Val();
        }
        if (n == "vp_stop") throw PathEnd{E_STOP, ""};
        if (n == "vp_debug") {
            Val a = force(load(arg(0), (int)C->constOf(argi(1)), false));
            fprintf(stderr, "debug %s = %s\n", cstring(arg(2)).c_str(), a.k == Val::INT ? show(C->resolve(a.p)).c_str() : "?");
            return Val();
        }
        throw GiveUp{"harness call " + n.str()};
    }
    std::string showAtom(int a)
    {
        Atom &A = C->atoms[a];
        switch (A.kind) {
        case A_VAR: return A.name + "#" + std::to_string(a) + "[" + istr(A.lo) + "," + istr(A.hi) + "]";
        case A_GE: return "GE(" + show(A.p) + ")";
        default: { std::string s = A.name + "("; for (P p : A.args) s += show(p) + ","; return s + ")"; }
        }
    }
    std::string show(P p)
    {
        std::string s;
        for (auto &t : C->polys[p].t) {
            if (!s.empty()) s += " + ";
            s += istr(t.c);
            for (int a : C->monos[t.m]) s += "*" + showAtom(a);
        }
        return s.empty() ? "0" : s;
    }
    void obl(const std::string &m, int kind, const std::string &why)
    {
        Oblig &o = obligs[m]; o.msg = m;
        if (kind == 0) o.ok++;
        else if (kind == 1) { o.undecided++; if (o.firstUndecided.empty()) o.firstUndecided = why; }
        else o.violated++;
    }
    // discharge "d == 0" on the current cell
    void requireZero(P d, const std::string &m)
    {
        for (int it = 0; it < 60; it++) {
            d = C->resolve(d);
            if (C->isConst(d)) {
                if (C->constOf(d) == 0) { obl(m, 0, ""); return; }
                break;
            }
            Int lo, hi; C->rangeF(d, lo, hi);
            if (lo > 0 || hi < 0) break;
            if (lo == 0 && hi == 0) { obl(m, 0, ""); return; }
            // normal form with boolean/derived atoms left: partition on them
            int a = -1; size_t bs = 1e9;
            for (auto &t : C->polys[d].t) for (int x : C->monos[t.m]) {
                Atom &A = C->atoms[x];
                if (A.kind == A_VAR && !C->isBool(x)) continue;
                if (A.kind == A_OPQ) continue;
                size_t s = A.kind == A_GE ? C->polys[A.p].t.size() : A.kind == A_VAR ? 0 : 50;
                if (s < bs) { bs = s; a = x; }
            }
            if (a < 0) {
                // only wide variables left; cut the cell where the difference can vanish
                bool lin = true; for (auto &t : C->polys[d].t) if (C->monos[t.m].size() > 1) lin = false;
                P z = C->mkEQ0(d);
                if (C->isConst(z)) continue;
                if (it > 50) break;
                (void)lin;
                if (C->decide(z)) { d = C->resolve(d); Int l, h; C->rangeF(d, l, h); if (l == 0 && h == 0) { obl(m, 0, ""); return; } Int a1, b1; C->rangeF(d, a1, b1, 3); obl(m, 0, ""); return; }
                break;
            }
            C->splitAtom(a);
        }
        d = C->resolve(d);
        std::string in;
        int wr = witness(d, true, in);
        if (wr == 1 && !confirmed()) { obl(m, 1, "a candidate operand tuple was not reproduced: " + in); throw PathEnd{E_STOP, ""}; }
        if (wr == 1) { addViol(m, in); obl(m, 2, ""); throw PathEnd{E_STOP, ""}; }
        if (wr == 2) { obl(m, 0, ""); return; }
        if (getenv("VP_UNDEC")) { fprintf(stderr, "undecided %s: %s\n", m.c_str(), show(d).substr(0, 300).c_str()); for (auto &k : inputConsts) fprintf(stderr, " %s=%s", k.first.c_str(), istr(k.second).c_str()); for (P f : C->facts) fprintf(stderr, "\n   fact %s", show(f).substr(0, 300).c_str()); for (auto &l : decisionLocs) fprintf(stderr, "\n   split %s", l.c_str()); fprintf(stderr, "\n"); }
        obl(m, 1, "difference " + show(d).substr(0, 200) + " not shown zero at " + where(false));
    }
    void addViol(const std::string &m, const std::string &in)
    {
        Viol v; v.msg = m; v.inputs = in;
        std::string w = where(true); v.where = w;
        std::string p; std::set<std::string> seen;
        for (auto &l : decisionLocs) if (!l.empty() && seen.insert(l).second) { if (p.size() < 1500) p += (p.empty() ? "" : " ; ") + l; }
        v.path = p;
        if (violKeys.insert(m).second) viols.push_back(v);
    }
    // Is the current cell inhabited (by a point where d != 0)?
    // 1 = inhabited, concrete point in `out`; 0 = none found; 2 = cell proven empty
    int witness(P d, bool useD, std::string &out)
    {
        Ctx &c = *C;
        std::mt19937_64 rng(12345);
        // basis: unsubstituted VARs reachable from inputs and facts
        std::vector<P> inp; for (auto &iv : inputVars) inp.push_back(c.resolve(c.atomP(iv.second)));
        if (useD) d = c.resolve(d);
        std::set<int> basis; std::vector<int> bl;
        std::function<void(P, int)> coll = [&](P p, int dep) {
            if (dep > 20) return;
            for (auto &t : c.polys[p].t) for (int a : c.monos[t.m]) {
                Atom &A = c.atoms[a];
                if (A.kind == A_VAR) { if (basis.insert(a).second) bl.push_back(a); }
                else { if (A.p >= 0) coll(c.resolve(A.p), dep + 1); if (c.atoms[a].q >= 0) coll(c.resolve(c.atoms[a].q), dep + 1); for (P x : c.atoms[a].args) coll(c.resolve(x), dep + 1); }
            }
        };
        for (P p : inp) coll(p, 0);
        std::vector<P> rawF = c.factsRaw;
        size_t na = c.atoms.size();
        // exhaustive enumeration is used when the inputs are tiny
        std::vector<Int> val(na); std::vector<char> have(na);
        auto checkInputs = [&](const std::vector<Int> &iv) -> bool {
            std::fill(have.begin(), have.end(), 0);
            for (size_t i = 0; i < inputVars.size(); i++) { int a = inputVars[i].second; val[a] = iv[i]; have[a] = 1; }
            Int r;
            for (P f : rawF) { if (!c.evalPoly(f, val, have, r) || r < 0) return false; }
            for (size_t a = 0; a < na; a++) {
                Atom &A = c.atoms[a];
                if (A.kind == A_VAR && A.def == D_INPUT && !have[a]) return false;
                if (!c.evalAtom(a, val, have)) { continue; }
                if (val[a] < A.lo || val[a] > A.hi) return false;
            }
            if (useD) { if (!c.evalPoly(d, val, have, r) || r == 0) return false; }
            lastWitness.clear();
            for (auto &o : inputOrder) lastWitness.push_back(o.first < 0 ? o.second : val[o.first]);
            out.clear();
            for (auto &k : inputConsts) out += (out.empty() ? "" : " ") + k.first + "=" + istr(k.second);
            for (size_t i = 0; i < inputVars.size(); i++) out += (out.empty() ? "" : " ") + inputVars[i].first + "=" + istr(iv[i]);
            if (!notes.empty()) {
                out = "";
                for (auto &nt : notes) { Int r; out += (out.empty() ? "" : " ") + nt.first + "=" + (c.evalPoly(nt.second, val, have, r) ? istr(r) : "?"); }
            }
            return true;
        };
        auto rnd = [&](Int lo, Int hi) -> Int {
            Int n = hi - lo + 1;
            Int x = 0; for (int i = 0; i < 4; i++) x = (x << 64) | (Int)(UInt)rng();
            x = x % n; if (x < 0) x += n;
            return lo + x;
        };
        std::vector<Int> bv(na);
        for (long t = 0; t < witnessTries; t++) {
            std::vector<char> bh(na, 0);
            for (int a : bl) {
                Atom &A = c.atoms[a];
                int mode = t < 8 ? t : (int)(rng() % 6);
                Int v;
                if (t == 0) v = A.lo; else if (t == 1) v = A.hi; else if (t == 2) v = fshr(A.lo + A.hi, 1);
                else if (mode == 3) v = A.lo; else if (mode == 4) v = A.hi;
                else if (mode == 5) { Int m = rnd(0, 3); v = (rng() & 1) ? A.lo + m : A.hi - m; if (v < A.lo) v = A.lo; if (v > A.hi) v = A.hi; }
                else v = rnd(A.lo, A.hi);
                bv[a] = v; bh[a] = 1;
            }
            std::vector<Int> iv; bool ok = true;
            std::vector<Int> v2 = bv; std::vector<char> h2 = bh;
            for (size_t i = 0; i < inp.size() && ok; i++) {
                Int r; if (!c.evalPoly(inp[i], v2, h2, r)) { ok = false; break; }
                Atom &A = c.atoms[inputVars[i].second];
                if (r < A.lo || r > A.hi) ok = false;
                iv.push_back(r);
            }
            if (ok && checkInputs(iv)) return 1;
        }
        // The constraints of the cell fall into groups that share no input; each group is searched on its own. A group with few
        // points is gone through completely: without a solution the cell holds no (violating) point at all.
        std::vector<std::vector<int>> deps(na); std::vector<char> free_(na, 0);
        auto pdeps = [&](P p, std::vector<int> &o, char &fr) { for (auto &t : c.polys[p].t) for (int a : c.monos[t.m]) { o.insert(o.end(), deps[a].begin(), deps[a].end()); fr |= free_[a]; } };
        for (size_t a = 0; a < na; a++) {
            Atom &A = c.atoms[a];
            if (A.kind == A_VAR && A.def == D_INPUT) { deps[a] = {(int)a}; continue; }
            if (A.kind == A_VAR && A.def == D_FREE) { free_[a] = 1; continue; }
            if (A.kind == A_VAR || A.kind == A_GE) { if (A.p >= 0) pdeps(A.p, deps[a], free_[a]); }
            else for (P q : A.args) pdeps(q, deps[a], free_[a]);
            std::sort(deps[a].begin(), deps[a].end()); deps[a].erase(std::unique(deps[a].begin(), deps[a].end()), deps[a].end());
        }
        struct Con { int kind; int id; std::vector<int> d; };   // 0 fact, 1 atom range, 2 difference
        std::vector<Con> cons; bool partial = false;
        auto addCon = [&](int kind, int id, std::vector<int> dd, char fr) { std::sort(dd.begin(), dd.end()); dd.erase(std::unique(dd.begin(), dd.end()), dd.end()); if (fr) { if (kind != 1) partial = true; return; } if (!dd.empty()) cons.push_back({kind, id, dd}); };
        for (P f : rawF) { std::vector<int> dd; char fr = 0; pdeps(f, dd, fr); addCon(0, f, dd, fr); }
        if (useD) { std::vector<int> dd; char fr = 0; pdeps(d, dd, fr); addCon(2, d, dd, fr); }
        for (size_t a = 0; a < na; a++) { Atom &A = c.atoms[a]; if (A.kind == A_VAR && A.def == D_INPUT) continue; if (A.kind == A_GE) continue; addCon(1, (int)a, deps[a], free_[a]); }
        std::map<int, int> uf; std::function<int(int)> fnd = [&](int x) { return uf[x] == x ? x : uf[x] = fnd(uf[x]); };
        for (auto &iv : inputVars) uf[iv.second] = iv.second;
        for (auto &k : cons) for (int x : k.d) { if (!uf.count(x)) uf[x] = x; uf[fnd(x)] = fnd(k.d[0]); }
        std::map<int, std::vector<int>> groups; for (auto &u : uf) groups[fnd(u.first)].push_back(u.first);
        std::vector<Int> sol(na); bool all = true;
        double wstart = now();
        for (auto &g : groups) {
            std::vector<int> &vs = g.second; std::vector<Con *> ks; for (auto &k : cons) if (fnd(k.d[0]) == g.first) ks.push_back(&k);
            std::stable_sort(ks.begin(), ks.end(), [](Con *x, Con *y) { return (x->kind == 1) < (y->kind == 1); });
            std::vector<Int> v(na); std::vector<char> h(na);
            auto test = [&](const std::vector<Int> &x) -> bool {
                std::fill(h.begin(), h.end(), 0);
                for (size_t i = 0; i < vs.size(); i++) { v[vs[i]] = x[i]; h[vs[i]] = 1; }
                Int r;
                for (Con *k : ks) {
                    if (k->kind == 1) { Atom &A = c.atoms[k->id]; if (!c.evalAtom(k->id, v, h)) continue; if (v[k->id] < A.lo || v[k->id] > A.hi) return false; continue; }
                    if (!c.evalPoly(k->id, v, h, r)) { partial = true; continue; }
                    if (k->kind == 0 ? r < 0 : r == 0) return false;
                }
                return true;
            };
            Int total = 1; for (int x : vs) { total *= (c.atoms[x].hi - c.atoms[x].lo + 1); if (total > pow2(40)) break; }
            bool found = false; std::vector<Int> x(vs.size());
            if (total <= pow2(enumBits)) {
                bool timed = false; long n = 0;
                for (size_t i = 0; i < vs.size(); i++) x[i] = c.atoms[vs[i]].lo;
                while (true) {
                    if (test(x)) { found = true; break; }
                    if ((++n & 255) == 0 && now() - wstart > witnessSecs) { timed = true; break; }
                    size_t i = 0;
                    for (; i < vs.size(); i++) { if (x[i] < c.atoms[vs[i]].hi) { x[i] += 1; break; } x[i] = c.atoms[vs[i]].lo; }
                    if (i == vs.size()) break;
                }
                if (!found && !timed) return 2;
            } else {
                for (long t = 0; t < witnessTries && !found && now() - wstart <= witnessSecs; t++) {
                    for (size_t i = 0; i < vs.size(); i++) {
                        Atom &A = c.atoms[vs[i]]; int mode = (int)(rng() % 5);
                        if (mode == 0) x[i] = A.lo; else if (mode == 1) x[i] = A.hi;
                        else if (mode == 2) { Int m = rnd(0, 7); x[i] = (rng() & 1) ? A.lo + m : A.hi - m; if (x[i] < A.lo) x[i] = A.lo; if (x[i] > A.hi) x[i] = A.hi; }
                        else x[i] = rnd(A.lo, A.hi);
                    }
                    found = test(x);
                }
            }
            if (!found) { all = false; continue; }
            for (size_t i = 0; i < vs.size(); i++) sol[vs[i]] = x[i];
        }
        if (all) { std::vector<Int> iv; for (auto &x : inputVars) iv.push_back(sol[x.second]); if (checkInputs(iv)) return 1; }
        return 0;
    }

    // ---------- exploration of one entry
    struct Result { long leaves = 0, dead = 0, gaveup = 0; bool complete = true; std::vector<std::vector<int>> rest; std::map<std::string, long> why; double wall = 0; long ends[5] = {0, 0, 0, 0, 0}; };
    // Explores the subtree of traces below `prefix`. After `slice` seconds the rest of the subtree is handed back as prefixes.
    Result runEntry(const Function *f, double hardEnd, double slice, double leafCap, long maxLeaf, std::vector<int> prefix)
    {
        Result R;
        double t0 = now();
        std::vector<int> ch = prefix, ar(prefix.size(), 1 << 30);
        confirmEntry = f;
        while (true) {
            C.reset(new Ctx()); C->bisectN = optBisect; C->planar = optBisect > 0; C->symq = optSymq || optQuot; C->quot = optQuot; C->bitv = optBits;
            C->choice = ch; C->arity = ar;
            objs.clear(); objs.emplace_back(); gobj.clear(); inputVars.clear(); inputConsts.clear(); inputOrder.clear(); replayAt = 0; notes.clear(); stack.clear(); decisionLocs.clear(); guardStack.clear(); guardWrites.clear(); forceDepth = 0;
            stepBudget = runBudgetSteps;
            C->onDecide = [&]() { if (dbgSplit) fprintf(stderr, "split at %s\n", where(true).c_str()); if (!stack.empty() && stack.back()) { std::string l = locOf(stack.back()); if (decisionLocs.size() < 64) decisionLocs.push_back(l); } };
            bool timeup = false;
            if (getenv("VP_BITS")) C->onBits = [&](P a, P b, int w) { fprintf(stderr, "bits %d: %s & %s\n  at %s\n", w, show(a).substr(0, 200).c_str(), show(b).substr(0, 200).c_str(), where(true).c_str()); };
            double tl = now();
            deadline = std::min(hardEnd, tl + leafCap);
            try {
                for (auto *gc : ctors()) call(gc, {});
                call(f, {});
                R.leaves++;
            } catch (Infeasible &) { R.dead++; if (trace) fprintf(stderr, "INFEASIBLE %s\n", where(true).c_str()); }
            catch (std::runtime_error &e) { R.gaveup++; R.why[std::string(e.what()) + " @ " + where(false)]++; }
            catch (GiveUp &g) {
                if (g.why == "time budget") timeup = true;
                R.gaveup++; R.why[g.why + " @ " + where(false)]++;
            } catch (PathEnd &e) {
                R.ends[e.kind]++;
                if (e.kind == E_STOP) R.leaves++;
                else if (e.kind == E_THROW) { R.leaves++; handleEnd("exception: ", e, R, "no exception escapes"); }
                else { R.leaves++; handleEnd("", e, R, "no assertion failure or undefined behaviour"); }
            }
            if (getenv("VP_SLOW") && now() - tl > atof(getenv("VP_SLOW"))) {
                fprintf(stderr, "slow cell %.2fs facts=%zu atoms=%zu polys=%zu decisions=%zu rebase=%ld slice=%ld:", now() - tl, C->facts.size(), C->atoms.size(), C->polys.size(), C->ci, C->nRebase, C->nSlice);
                for (auto &k : inputConsts) fprintf(stderr, " %s=%s", k.first.c_str(), istr(k.second).c_str());
                for (P f : C->facts) fprintf(stderr, "\n   fact %s", show(f).c_str());
                for (auto &l : decisionLocs) fprintf(stderr, "\n   split %s", l.c_str());
                fprintf(stderr, "\n");
            }
            if (!viols.empty() && violKeys.size() >= 1) { R.complete = false; break; }
            ch = C->choice; ar = C->arity;
            ch.resize(C->ci); ar.resize(C->ci);
            if (timeup) { R.complete = false; if (now() >= hardEnd) break; }
            // next
            int i = (int)ch.size() - 1;
            while (i >= (int)prefix.size() && ch[i] + 1 >= ar[i]) i--;
            if (i < (int)prefix.size()) break;
            if (now() - t0 > slice) {
                for (int k = (int)prefix.size(); k <= i; k++)
                    for (int c = ch[k] + 1; c < ar[k]; c++) { std::vector<int> p(ch.begin(), ch.begin() + k); p.push_back(c); R.rest.push_back(p); }
                break;
            }
            ch.resize(i + 1); ar.resize(i + 1); ch[i]++;
            if (now() > hardEnd || R.leaves + R.dead + R.gaveup > maxLeaf) { R.complete = false; break; }
        }
        R.wall = now() - t0;
        return R;
    }
    void handleEnd(const std::string &pre, PathEnd &e, Result &R, const std::string &obligName)
    {
        std::string in;
        try {
            int w = witness(C->cst(1), false, in);
            if (w == 1 && !confirmed()) obl(obligName, 1, "a candidate operand tuple was not reproduced: " + in);
            else if (w == 1) { addViol(pre + e.msg, in); obl(obligName, 2, ""); }
            else if (w == 0) obl(obligName, 1, pre + e.msg + " at " + where(false));
        } catch (Infeasible &) {}
        catch (GiveUp &g) { obl(obligName, 1, e.msg + " (" + g.why + ")"); }
        catch (std::runtime_error &) { obl(obligName, 1, e.msg); }
    }
    std::vector<const Function *> ctorCache; bool ctorInit = false;
    std::vector<const Function *> &ctors()
    {
        if (!ctorInit) {
            ctorInit = true;
            if (auto *g = M.getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
                for (auto &o : ca->operands()) { auto *cs = cast<Constant>(o.get()); if (auto *f = dyn_cast<Function>(cs->getAggregateElement(1)->stripPointerCasts())) ctorCache.push_back(f); }
        }
        return ctorCache;
    }
};

static std::string js(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}

// A 128-bit value passed in two registers is taken apart and put together again: undo that (exact rewriting).
static void rejoinHalves(Module &M)
{
    using namespace llvm::PatternMatch;
    for (auto &F : M) for (bool again = true; again;) {
        again = false;
        for (auto &B : F) for (auto it = B.begin(); it != B.end();) {
            Instruction *I = &*it++;
            Value *H, *L, *X, *R = nullptr;
            auto whole = m_c_Or(m_Shl(m_ZExt(m_Value(H)), m_SpecificInt(64)), m_ZExt(m_Value(L)));
            auto halves = [&]() { return H->getType()->isIntegerTy(64) && L->getType()->isIntegerTy(64); };
            if (I->getType()->isIntegerTy(128)) {
                if (match(I, whole) && halves() && match(H, m_Trunc(m_LShr(m_Value(X), m_SpecificInt(64)))) && match(L, m_Trunc(m_Specific(X)))) R = X;
            } else if (I->getType()->isIntegerTy(64)) {
                if (match(I, m_Trunc(m_Value(X))) && X->getType()->isIntegerTy(128)) {
                    Value *Y;
                    if (match(X, whole) && halves()) R = L;
                    else if (match(X, m_LShr(m_Value(Y), m_SpecificInt(64))) && match(Y, whole) && halves()) R = H;
                }
            }
            if (R) { I->replaceAllUsesWith(R); I->eraseFromParent(); again = true; }
        }
    }
}

int main(int argc, char **argv)
{
    std::string file; std::vector<std::string> entries; double budget = 60; long maxLeaf = 1000000; bool list = false; std::vector<int> prefix; bool verbose = false; int steps = 400000, pool = 0; double slice = 0.7, leafCap = 20;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entries.push_back(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--maxleaf") maxLeaf = atol(argv[++i]);
        else if (a == "--steps") steps = atoi(argv[++i]);
        else if (a == "--ifconv") optIfConv = true;
        else if (a == "--symq") optSymq = true;
        else if (a == "--bits") optBits = true;
        else if (a == "--quot") { optQuot = atoi(argv[++i]); }
        else if (a == "--planar") { optBisect = atoi(argv[++i]); }
        else if (a == "--pool") pool = atoi(argv[++i]);
        else if (a == "--slice") slice = atof(argv[++i]);
        else if (a == "--leafcap") leafCap = atof(argv[++i]);
        else if (a == "--list") list = true;
        else if (a == "-v") verbose = true;
        else if (a == "--prefix") { std::string s = argv[++i]; size_t p = 0; while (p < s.size()) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); prefix.push_back(atoi(s.substr(p, q - p).c_str())); p = q + 1; } }
        else file = a;
    }
    LLVMContext lc; SMDiagnostic err;
    auto M = parseIRFile(file, err, lc);
    if (!M) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
    rejoinHalves(*M);
    if (list) { for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("h_")) printf("%s\n", f.getName().str().c_str()); return 0; }

    auto runOne = [&](const std::string &e, const std::vector<int> &pre, double hardEnd, double sl, std::vector<std::vector<int>> &rest, bool &violated) -> std::string {
        Engine E(*M);
        E.runBudgetSteps = steps;
        const Function *f = M->getFunction(e);
        if (!f || f->isDeclaration()) return "{\"entry\":" + js(e) + ",\"error\":\"entry not found\"}";
        auto R = E.runEntry(f, hardEnd, sl, leafCap, maxLeaf, pre);
        rest = R.rest; violated = !E.viols.empty();
        std::string o = "{\"entry\":" + js(e);
        o += ",\"cells\":" + std::to_string(R.leaves) + ",\"empty\":" + std::to_string(R.dead) + ",\"gaveup\":" + std::to_string(R.gaveup) + ",\"complete\":" + (R.complete ? "true" : "false");
        o += ",\"instrs\":" + std::to_string(E.instrs) + ",\"wall\":" + std::to_string(R.wall);
        o += ",\"functions\":" + std::to_string(E.analysed.size()) + ",\"blocks\":" + std::to_string(E.blocksSeen.size());
        o += ",\"obligations\":[";
        bool first = true;
        for (auto &x : E.obligs) { o += (first ? "" : ",") + std::string("{\"msg\":") + js(x.first) + ",\"ok\":" + std::to_string(x.second.ok) + ",\"undecided\":" + std::to_string(x.second.undecided) + ",\"violated\":" + std::to_string(x.second.violated) + ",\"why\":" + js(x.second.firstUndecided) + "}"; first = false; }
        o += "],\"why\":{"; first = true;
        for (auto &x : R.why) { o += (first ? "" : ",") + js(x.first) + ":" + std::to_string(x.second); first = false; }
        o += "},\"violations\":["; first = true;
        for (auto &v : E.viols) { o += (first ? "" : ",") + std::string("{\"msg\":") + js(v.msg) + ",\"inputs\":" + js(v.inputs) + ",\"where\":" + js(v.where) + ",\"path\":" + js(v.path) + "}"; first = false; }
        o += "],\"analysed\":["; first = true;
        if (verbose) for (auto &g : E.scopes) { o += (first ? "" : ",") + js(g); first = false; }
        o += "]}";
        return o;
    };
    double t0 = now(), end = t0 + budget;
    if (pool <= 0) {
        int bad = 0;
        for (auto &e : entries) { std::vector<std::vector<int>> r; bool v = false; auto o = runOne(e, prefix, now() + budget, 1e18, r, v); printf("%s\n", o.c_str()); fflush(stdout); if (o.find("\"error\"") != std::string::npos) bad = 3; }
        return bad;
    }
    // pool: each task is one forked worker exploring one subtree for a slice of time
    struct Task { int e; std::vector<int> pre; };
    struct Work { pid_t pid; int fd; int e; std::string buf; };
    std::deque<Task> q; std::vector<Work> ws; std::vector<char> stop(entries.size(), 0);
    for (size_t i = 0; i < entries.size(); i++) q.push_back({(int)i, {}});
    long unexplored = 0, crashed = 0;
    while (!q.empty() || !ws.empty()) {
        while (!q.empty() && (int)ws.size() < pool) {
            Task t = q.front(); q.pop_front();
            if (stop[t.e]) continue;
            if (now() > end) { unexplored++; printf("{\"entry\":%s,\"unexplored\":1}\n", js(entries[t.e]).c_str()); continue; }
            int p[2]; if (pipe(p)) return 3;
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                close(p[0]);
                struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)3 << 30; setrlimit(RLIMIT_AS, &rl);
                std::vector<std::vector<int>> r; bool v = false;
                std::string o;
                try { o = runOne(entries[t.e], t.pre, end, slice, r, v); } catch (std::bad_alloc &) { o = "{\"entry\":" + js(entries[t.e]) + ",\"crashed\":\"out of memory\"}"; }
                std::string h = v ? "V" : "-";
                for (auto &x : r) { h += " "; for (size_t i = 0; i < x.size(); i++) h += (i ? "," : "") + std::to_string(x[i]); }
                o = h + "\n" + o + "\n";
                size_t w = 0; while (w < o.size()) { ssize_t k = write(p[1], o.data() + w, o.size() - w); if (k <= 0) break; w += k; }
                _exit(0);
            }
            close(p[1]);
            ws.push_back({pid, p[0], t.e, ""});
        }
        if (ws.empty()) continue;
        std::vector<pollfd> pf; for (auto &w : ws) pf.push_back({w.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        for (int i = (int)ws.size() - 1; i >= 0; i--) {
            if (now() > end + leafCap + 5) kill(ws[i].pid, SIGKILL);
            if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
            char b[65536]; ssize_t k = read(ws[i].fd, b, sizeof b);
            if (k > 0) { ws[i].buf.append(b, k); continue; }
            close(ws[i].fd); int st; waitpid(ws[i].pid, &st, 0);
            auto &s = ws[i].buf; size_t nl = s.find('\n');
            if (nl == std::string::npos) { crashed++; printf("{\"entry\":%s,\"crashed\":\"worker ended with status %d\"}\n", js(entries[ws[i].e]).c_str(), st); }
            else {
                if (s[0] == 'V') stop[ws[i].e] = 1;
                size_t p = 1;
                std::vector<Task> nt;
                while (p < nl) { p++; Task t; t.e = ws[i].e; while (p < nl && s[p] != ' ') { int v = 0; while (p < nl && isdigit(s[p])) v = v * 10 + (s[p++] - '0'); t.pre.push_back(v); if (p < nl && s[p] == ',') p++; } if (!t.pre.empty()) nt.push_back(t); }
                for (auto &t : nt) q.push_back(t);
                fputs(s.c_str() + nl + 1, stdout);
            }
            ws.erase(ws.begin() + i);
        }
    }
    return 0;
}
