// vpts: typestate and effect analysis over LLVM IR (P18, P20).
//
// A forward dataflow analysis of each library function, after its library callees were merged into it, over
//   - the state of every multiple-precision object with automatic storage (not made / live / released), by its allocation and offset;
//   - MPFR's global exponent range (as it was on entry / changed), with the SSA values that hold the entry bounds.
// States are kept apart by path facts (branch conditions taken), up to a cap, then joined.  Nothing is executed, no solver is used.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <deque>
#include <string>
using namespace llvm;

enum { S_NEW = 1, S_LIVE = 2, S_GONE = 4 };
typedef std::pair<const AllocaInst *, int64_t> Key;
struct St {
    bool own = false; const Instruction *thrower = nullptr; // unwinding, and from which throw expression
    std::map<int, int> obj;                 // object index -> possible states
    int rng[2] = {1, 1};                    // 1: as on entry, 2: changed (mask)
    const Instruction *chg[2] = {nullptr, nullptr};
    std::set<const Value *> tok[2];         // values that hold the entry bound
    std::map<const Value *, bool> facts;    // branch conditions taken
    std::map<int, const Instruction *> born;
    bool operator<(const St &o) const { return key() < o.key(); }
    std::tuple<bool, const Instruction *, std::map<int, int>, int, int, std::set<const Value *>, std::set<const Value *>, std::map<const Value *, bool>> key() const { return {own, thrower, obj, rng[0], rng[1], tok[0], tok[1], facts}; }
};
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
static std::string shortFile(StringRef f) { size_t p = f.find("include/"); if (p != StringRef::npos) return f.substr(p).str(); p = f.rfind('/'); return p == StringRef::npos ? f.str() : f.substr(p + 1).str(); }
static std::string loc(const Instruction *I)
{
    if (!I) return "?";
    std::string s;
    for (const DILocation *L = I->getDebugLoc(); L; L = L->getInlinedAt()) {
        if (!s.empty()) s += " < ";
        auto *sp = L->getScope()->getSubprogram();
        s += shortFile(L->getFilename()) + ":" + std::to_string(L->getLine()) + (sp ? "(" + sp->getName().str() + ")" : "");
        if (s.size() > 600) break;
    }
    return s.empty() ? "?" : s;
}
static bool inLibrary(const Function &F)
{
    auto *sp = F.getSubprogram();
    return sp && (sp->getDirectory() + "/" + sp->getFilename()).str().find("include/thls/") != std::string::npos;
}
static bool isMP(StringRef n) { return n.starts_with("mpfr_") || n.starts_with("__gmp") || n.starts_with("mpz_"); }

struct FnA {
    Function &F;
    bool objects, range;
    std::vector<Key> keys; std::vector<std::string> names; std::vector<int> size;
    std::vector<const DILocation *> home; // where the variable is declared
    std::map<Key, int> idx;
    std::set<const AllocaInst *> loose; int untracked = 0, sites = 0;
    struct Ob { int ok = 0, bad = 0; }; std::map<std::string, Ob> obl;
    struct Vio { std::string msg, what, where; }; std::vector<Vio> vios; std::set<std::string> seen;
    const DataLayout &DL;
    FnA(Function &f, bool o, bool r) : F(f), objects(o), range(r), DL(f.getParent()->getDataLayout()) {}

    const AllocaInst *base(const Value *v, int64_t &off)
    {
        APInt o(64, 0);
        const Value *b = v->stripAndAccumulateConstantOffsets(DL, o, true);
        off = o.getSExtValue();
        return dyn_cast<AllocaInst>(b);
    }
    static StringRef callee(const CallBase &cb) { auto *f = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts()); return f ? f->getName() : StringRef(); }
    void result(const std::string &m, bool good, const Instruction *at, const std::string &what)
    {
        Ob &o = obl[m];
        if (good) { o.ok++; return; }
        o.bad++;
        std::string k = m + what + loc(at);
        if (seen.insert(k).second) vios.push_back({m, what, loc(at)});
    }
    void scan()
    {
        std::map<const AllocaInst *, std::pair<std::string, const DILocation *>> decl;
        for (auto &B : F) for (auto &I : B) {
            if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) for (auto *op : d->location_ops()) if (auto *a = dyn_cast_or_null<AllocaInst>(op)) if (!decl.count(a)) decl[a] = {d->getVariable()->getName().str(), d->getDebugLoc().get()};
        }
        for (auto &B : F) for (auto &I : B) {
            auto *cb = dyn_cast<CallBase>(&I); if (!cb) continue;
            StringRef n = callee(*cb);
            if (!isMP(n)) continue;
            sites++;
            for (auto &a : cb->args()) {
                if (!a->getType()->isPointerTy() || isa<ConstantPointerNull>(a)) continue;
                int64_t off; auto *al = base(a, off);
                if (!al) { if (!isa<Argument>(a->stripPointerCasts()) && !isa<Constant>(a)) untracked++; continue; }
                Key k{al, off};
                if (idx.count(k)) continue;
                Type *t = al->getAllocatedType();
                if (t->isIntegerTy() || t->isDoubleTy() || t->isFloatTy() || t->isPointerTy()) continue; // a buffer or a scalar
                idx[k] = keys.size(); keys.push_back(k); size.push_back(n.starts_with("mpfr") || n.starts_with("__gmp_rand") ? 32 : 16);
                names.push_back(decl.count(al) ? decl[al].first : "object"); home.push_back(decl.count(al) ? decl[al].second : nullptr);
            }
        }
        for (auto &k : keys) escape(k.first, k.first, 0);
    }
    void escape(const AllocaInst *al, const Value *v, int d)
    {
        for (auto *u : v->users()) {
            if (auto *g = dyn_cast<GetElementPtrInst>(u)) { if (!g->hasAllConstantIndices()) { loose.insert(al); continue; } escape(al, g, d + 1); continue; }
            if (isa<LoadInst>(u)) continue;
            if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getValueOperand() == v) loose.insert(al); continue; }
            if (isa<BitCastInst>(u) || isa<AddrSpaceCastInst>(u)) { escape(al, u, d + 1); continue; }
            if (isa<ICmpInst>(u)) continue;
            if (isa<DbgInfoIntrinsic>(u)) continue;
            if (auto *cb = dyn_cast<CallBase>(u)) {
                if (auto *ii = dyn_cast<IntrinsicInst>(cb)) { if (ii->isLifetimeStartOrEnd()) continue; if (isa<MemSetInst>(ii)) continue; loose.insert(al); continue; }
                if (isMP(callee(*cb))) continue;
                loose.insert(al); continue;
            }
            loose.insert(al);
        }
    }
    std::string nm(int i) { return names[i] + (keys[i].second ? "+" + std::to_string(keys[i].second) : ""); }
    int find(const Value *p) { int64_t off; auto *al = base(p, off); if (!al || loose.count(al)) return -1; auto it = idx.find({al, off}); return it == idx.end() ? -1 : it->second; }
    int findIn(const Value *p) // an object that contains the address
    {
        int64_t off; auto *al = base(p, off); if (!al || loose.count(al)) return -1;
        for (size_t i = 0; i < keys.size(); i++) if (keys[i].first == al && off >= keys[i].second && off < keys[i].second + size[i]) return i;
        return -1;
    }
    int st(St &s, int i) { auto it = s.obj.find(i); return it == s.obj.end() ? S_NEW : it->second; }
    void init(St &s, const Value *p, const Instruction *at) { int i = find(p); if (i < 0 || !objects) return; result("a multiple-precision object is not initialised while it is live", !(st(s, i) & S_LIVE), at, nm(i) + " initialised again"); s.obj[i] = S_LIVE; s.born[i] = at; }
    void use(St &s, const Value *p, const Instruction *at)
    {
        int i = find(p); if (i < 0 || !objects) return;
        int m = st(s, i);
        result("a multiple-precision object is used only while it is live", m == S_LIVE, at, nm(i) + (m & S_GONE ? " used after release" : " used before initialisation"));
        s.obj[i] = S_LIVE;
    }
    void clear(St &s, const Value *p, const Instruction *at)
    {
        int i = find(p); if (i < 0 || !objects) return;
        int m = st(s, i);
        result("a multiple-precision object is released once, after initialisation", m == S_LIVE, at, nm(i) + (m & S_GONE ? " released twice" : " released before initialisation"));
        s.obj[i] = S_GONE;
    }
    static bool sameInstance(const DILocation *a, const DILocation *b)
    {
        if (!a || !b) return false;
        return a->getScope()->getSubprogram() == b->getScope()->getSubprogram() && a->getInlinedAt() == b->getInlinedAt();
    }
    void leave(St &s, const Instruction *at, const Instruction *thrown, const char *how)
    {
        if (objects) for (size_t i = 0; i < keys.size(); i++) {
            if (loose.count(keys[i].first)) continue;
            if (thrown && !sameInstance(home[i], thrown->getDebugLoc().get())) continue;
            int m = st(s, i);
            result("every multiple-precision object is released before its function is left", !(m & S_LIVE), at, nm(i) + " (made at " + loc(s.born.count(i) ? s.born[i] : nullptr) + ") is still live " + how);
        }
        if (range) for (int k = 0; k < 2; k++) {
            if (thrown && s.chg[k] && !sameInstance(s.chg[k]->getDebugLoc().get(), thrown->getDebugLoc().get())) continue;
            result(k ? "the greatest exponent is restored before the function is left" : "the least exponent is restored before the function is left", s.rng[k] == 1, at, std::string("changed at ") + loc(s.chg[k]) + " and not restored " + how);
        }
    }
    // effect of one instruction; false: the path ends here
    bool step(St &s, const Instruction &I)
    {
        if (!s.facts.empty()) s.facts.erase(&I);
        if (auto *cb = dyn_cast<CallBase>(&I)) {
            StringRef n = callee(*cb);
            if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
                if (ii->isLifetimeStartOrEnd() && objects) {
                    bool end = ii->getIntrinsicID() == Intrinsic::lifetime_end;
                    const Value *p = ii->getArgOperand(1); int64_t off; auto *al = base(p, off);
                    if (al && !loose.count(al)) for (size_t i = 0; i < keys.size(); i++) if (keys[i].first == al) {
                        if (end && !s.own && !unwinding(ii->getParent())) result("every multiple-precision object is released before its scope ends", !(st(s, i) & S_LIVE), &I, nm(i) + " is still live where its scope ends");
                        s.obj[i] = S_NEW;
                    }
                }
                return true;
            }
            if (n == "mpfr_get_emin" || n == "mpfr_get_emax") { int k = n == "mpfr_get_emax"; if (s.rng[k] == 1) s.tok[k].insert(&I); else s.tok[k].erase(&I); return true; }
            if (n == "mpfr_set_emin" || n == "mpfr_set_emax") {
                int k = n == "mpfr_set_emax";
                const Value *v = cb->getArgOperand(0);
                while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
                if (s.tok[k].count(v)) { s.rng[k] = 1; s.chg[k] = nullptr; } else { s.rng[k] = 2; s.chg[k] = &I; }
                return true;
            }
            if (isMP(n)) {
                auto arg = [&](unsigned i) { return cb->getArgOperand(i); };
                unsigned na = cb->arg_size();
                if (n == "mpfr_init2" || n == "mpfr_init" || n == "__gmpz_init" || n == "__gmpz_init2" || n == "mpz_init" || n.starts_with("__gmp_randinit")) { init(s, arg(0), &I); return true; }
                if (n.starts_with("__gmpz_init_set")) { if (n == "__gmpz_init_set") use(s, arg(1), &I); init(s, arg(0), &I); return true; }
                if (n == "mpfr_inits2" || n == "mpfr_inits" || n == "__gmpz_inits") { for (unsigned i = n == "mpfr_inits2"; i < na; i++) if (arg(i)->getType()->isPointerTy() && !isa<ConstantPointerNull>(arg(i))) init(s, arg(i), &I); return true; }
                if (n == "mpfr_clear" || n == "__gmpz_clear" || n == "__gmp_randclear") { clear(s, arg(0), &I); return true; }
                if (n == "mpfr_clears" || n == "__gmpz_clears") { for (unsigned i = 0; i < na; i++) if (arg(i)->getType()->isPointerTy() && !isa<ConstantPointerNull>(arg(i))) clear(s, arg(i), &I); return true; }
                for (unsigned i = 0; i < na; i++) if (arg(i)->getType()->isPointerTy()) use(s, arg(i), &I);
                return true;
            }
            if (n == "__cxa_throw") { if (isa<CallInst>(I)) { leave(s, &I, &I, "where an exception is thrown"); return false; } s.own = true; s.thrower = &I; return true; }
            if (n == "__cxa_begin_catch") { s.own = false; s.thrower = nullptr; return true; }
            return true;
        }
        if (auto *l = dyn_cast<LoadInst>(&I)) { int i = objects ? findIn(l->getPointerOperand()) : -1; if (i >= 0) { int m = st(s, i); result("a multiple-precision object is used only while it is live", m == S_LIVE, &I, nm(i) + (m & S_GONE ? " read after release" : " read before initialisation")); s.obj[i] = S_LIVE; } }
        if (isa<ReturnInst>(I)) { leave(s, &I, nullptr, "where the function returns"); return false; }
        if (isa<ResumeInst>(I)) { if (s.own) leave(s, s.thrower, s.thrower, "where this exception leaves the function"); return false; }
        return true;
    }
    std::map<const BasicBlock *, bool> uw;
    bool unwinding(const BasicBlock *b) // a clean-up block, reached only through a landing pad
    {
        auto it = uw.find(b); if (it != uw.end()) return it->second;
        uw[b] = true;
        bool r = false;
        if (b->isLandingPad()) r = true;
        else if (b != &F.getEntryBlock()) { r = !pred_empty(b); for (auto *p : predecessors(b)) if (!unwinding(p)) { r = false; break; } }
        return uw[b] = r;
    }
    static void join(St &a, const St &b)
    {
        for (auto &k : b.obj) if (!a.obj.count(k.first)) a.obj[k.first] = S_NEW;
        for (auto &k : a.obj) { auto it = b.obj.find(k.first); k.second |= it == b.obj.end() ? S_NEW : it->second; }
        for (int k = 0; k < 2; k++) { a.rng[k] |= b.rng[k]; if (!a.chg[k]) a.chg[k] = b.chg[k]; std::set<const Value *> t; for (auto *v : a.tok[k]) if (b.tok[k].count(v)) t.insert(v); a.tok[k] = t; }
        for (auto it = a.facts.begin(); it != a.facts.end();) { auto jt = b.facts.find(it->first); if (jt == b.facts.end() || jt->second != it->second) it = a.facts.erase(it); else ++it; }
        for (auto &x : b.born) a.born.insert(x);
    }
    int steps = 0; bool capped = false;
    void run()
    {
        scan();
        if (keys.empty() && !range) return;
        // conditions that are branched on more than once are remembered
        std::map<const Value *, int> cond;
        for (auto &B : F) if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) if (br->isConditional()) cond[br->getCondition()]++;
        std::map<const BasicBlock *, std::set<St>> in;
        std::deque<std::pair<const BasicBlock *, St>> work;
        auto push = [&](const BasicBlock *b, St s, const BasicBlock *from) {
            for (auto &I : *b) { auto *ph = dyn_cast<PHINode>(&I); if (!ph) break; const Value *v = ph->getIncomingValueForBlock(from);
                for (int k = 0; k < 2; k++) { if (s.tok[k].count(v)) s.tok[k].insert(ph); else s.tok[k].erase(ph); }
                s.facts.erase(ph); if (auto *c = dyn_cast<ConstantInt>(v)) if (c->getType()->isIntegerTy(1)) s.facts[ph] = c->isOne(); }
            auto &S = in[b];
            if (S.count(s)) return;
            if (S.size() >= 16) { // join what has the same unwinding state
                capped = true;
                St j = s; j.facts.clear();
                for (auto &x : S) if (x.own == j.own && x.thrower == j.thrower) join(j, x);
                if (S.count(j)) return;
                S.insert(j); work.push_back({b, j}); return;
            }
            S.insert(s); work.push_back({b, s});
        };
        { St s; in[&F.getEntryBlock()].insert(s); work.push_back({&F.getEntryBlock(), s}); }
        while (!work.empty()) {
            if (++steps > 400000) { capped = true; break; }
            auto [b, s] = work.front(); work.pop_front();
            bool go = true;
            for (auto &I : *b) { if (!step(s, I)) { go = false; break; } }
            if (!go) continue;
            const Instruction *t = b->getTerminator();
            if (auto *br = dyn_cast<BranchInst>(t)) {
                if (br->isConditional()) {
                    const Value *c = br->getCondition();
                    for (int k = 0; k < 2; k++) {
                        bool val = k == 0;
                        auto it = s.facts.find(c); if (it != s.facts.end() && it->second != val) continue;
                        if (auto *ci = dyn_cast<ConstantInt>(c)) if (ci->isOne() != val) continue;
                        St n = s; if (cond[c] > 1) n.facts[c] = val;
                        push(br->getSuccessor(k), n, b);
                    }
                    continue;
                }
                push(br->getSuccessor(0), s, b); continue;
            }
            if (auto *iv = dyn_cast<InvokeInst>(t)) {
                bool thr = callee(*iv) == "__cxa_throw";
                St n = s; n.own = thr; n.thrower = thr ? iv : nullptr;
                push(iv->getUnwindDest(), n, b);
                if (!thr) push(iv->getNormalDest(), s, b);
                continue;
            }
            std::set<const BasicBlock *> done;
            for (auto *sb : successors(b)) if (done.insert(sb).second) push(sb, s, b);
        }
    }
};

int main(int argc, char **argv)
{
    bool objects = false, range = false, list = false; std::set<std::string> only; std::string path;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--objects") objects = true; else if (a == "--range") range = true; else if (a == "--list") list = true;
        else if (a == "--entry") only.insert(argv[++i]); else if (a.rfind("--", 0)) path = a; else if (a == "--pool" || a == "--budget" || a == "--leafcap" || a == "--steps") i++;
    }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(path, err, ctx);
    if (!M) { err.print("vpts", errs()); return 2; }
    M->convertFromNewDbgValues();
    for (auto &A : make_early_inc_range(M->aliases())) { A.replaceAllUsesWith(A.getAliasee()); A.eraseFromParent(); }
    for (auto &F : *M) if (!F.isDeclaration()) {
        F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr);
        F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
        if (inLibrary(F) ) F.addFnAttr(Attribute::AlwaysInline);
    }
    // a helper of other library functions (a guard's constructor and destructor, say) is judged where it is used: it is merged into its callers
    std::set<std::string> helper;
    auto tests = [](const Function &F) { auto *sp = F.getSubprogram(); return sp && sp->getFilename().ends_with("policy_test.hpp"); };
    for (auto &F : *M) if (!F.isDeclaration() && inLibrary(F)) {
        bool byLib = false, other = false;
        std::vector<const Value *> w{&F}; std::set<const Value *> seen;
        while (!w.empty()) {
            const Value *v = w.back(); w.pop_back();
            if (!seen.insert(v).second) continue;
            for (auto *u : v->users()) {
                if (auto *cb = dyn_cast<CallBase>(u)) {
                    const Function *c = cb->getFunction();
                    if (c == &F) continue;
                    if (cb->getCalledOperand() == v && inLibrary(*c)) { if (!tests(*c)) byLib = true; } else other = true;
                } else if (isa<Instruction>(u)) other = true; else w.push_back(u);
                if (isa<GlobalVariable>(u)) other = true;
            }
        }
        if (byLib && !other) helper.insert(F.getName().str());
    }
    {
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
        ModulePassManager mpm;
        if (auto e = pb.parsePassPipeline(mpm, "function(sroa),always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,adce,jump-threading,simplifycfg)")) { errs() << toString(std::move(e)); return 2; }
        mpm.run(*M, mam);
    }
    for (auto &F : *M) {
        if (F.isDeclaration() || !inLibrary(F)) continue;
        std::string name = demangle(F.getName().str());
        FnA A(F, objects, range);
        A.scan();
        bool touches = false;
        for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) { StringRef n = FnA::callee(*cb); if (range ? n == "mpfr_set_emin" || n == "mpfr_set_emax" : isMP(n)) touches = true; }
        if (!touches || (objects && A.keys.empty()) || (range && helper.count(F.getName().str()))) continue;
        std::string entry = name; for (auto &c : entry) if (c == ' ') c = '_';
        if (list) { outs() << entry << "\n"; continue; }
        if (!only.empty() && !only.count(entry)) continue;
        FnA R(F, objects, range);
        R.run();
        int tracked = 0; for (auto &k : R.keys) if (!R.loose.count(k.first)) tracked++;
        std::string o = "{\"entry\":" + js(entry) + ",\"cells\":" + std::to_string(R.steps) + ",\"empty\":0,\"gaveup\":0,\"complete\":true,\"instrs\":" + std::to_string(F.getInstructionCount()) + ",\"wall\":0,\"objects\":" + std::to_string(tracked) +
            ",\"escaping\":" + std::to_string(R.keys.size() - tracked) + ",\"untracked\":" + std::to_string(R.untracked) + ",\"sites\":" + std::to_string(R.sites) + ",\"joined\":" + (R.capped ? "true" : "false") + ",\"obligations\":[";
        bool first = true;
        for (auto &x : R.obl) { o += (first ? "" : ",") + std::string("{\"msg\":") + js(x.first) + ",\"ok\":" + std::to_string(x.second.ok) + ",\"undecided\":0,\"violated\":" + std::to_string(x.second.bad) + ",\"why\":\"\"}"; first = false; }
        o += "],\"why\":{},\"violations\":["; first = true;
        for (auto &v : R.vios) { o += (first ? "" : ",") + std::string("{\"msg\":") + js(v.msg) + ",\"inputs\":" + js(v.what) + ",\"where\":" + js(v.where) + "}"; first = false; }
        if (getenv("VP_TRACE")) for (auto &k : R.keys) if (R.loose.count(k.first)) { errs() << name << ": " << R.nm(R.idx[k]) << " "; k.first->print(errs()); errs() << "\n"; for (auto *u : k.first->users()) { errs() << "     "; u->print(errs()); errs() << "\n"; } }
        auto *sp = F.getSubprogram();
        o += "],\"analysed\":[" + js(shortFile(sp->getFilename()) + ":" + sp->getName().str()) + "]}";
        outs() << o << "\n";
    }
    return 0;
}
