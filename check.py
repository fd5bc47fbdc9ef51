#!/usr/bin/env python3
"""Runs the static check of one property against /repo's current source.

  check.py P04 [--tier quick|thorough] [-v]

Every run compiles the harness translation units of the property (they include /repo/include) to LLVM IR and
hands them to the abstract interpreter engine/build/vpai (or to the typestate pass engine/build/vpts).
Exit 0: no violation.  Exit 1: "VIOLATION property=<id> replay=<path>".  Exit 3: the check could not be made
(anchor vanished, harness does not compile, nothing was analysed).
"""
import sys, os, json, fnmatch, subprocess, tempfile, shutil, time, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
VPAI = os.path.join(HERE, "engine/build/vpai")
VPTS = os.path.join(HERE, "engine/build/vpts")
CLANG, OPT = "/usr/bin/clang++-18", "/usr/bin/opt-18"
if not os.path.exists(OPT): OPT = "/usr/lib/llvm-18/bin/opt"
LUTPASSES = "cgscc(inline),function(sroa,early-cse,simplifycfg<switch-to-lookup>,instsimplify,adce,early-cse,simplifycfg<switch-to-lookup;bonus-inst-threshold=30>,adce)"
PASSES = "cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,adce,early-cse,simplifycfg,adce)"

sys.path.insert(0, HERE)
from checks import CHECKS

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)

class Fail(Exception): pass
class Witness(Exception): pass   # a program that must be accepted is rejected by the compiler (or the reverse)

def compile_unit(work, i, unit, tier):
    src = os.path.join(HERE, "harness", unit["src"])
    raw, bc = f"{work}/u{i}r.bc", f"{work}/u{i}.bc"
    flags = ["-std=c++20", "-O1", "-w", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize",
             "-DTHLS_FW_UINT_ON_MASKED_UINT=1", "-I", os.path.join(HERE, "harness"), "-I", os.path.join(REPO, "include")]
    if unit.get("ub"): flags += ["-DVP_ONLY_UB", "-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return,bool,enum,vla-bound", "-fsanitize-trap=all"]
    elif not unit.get("asserts"): flags.append("-DNDEBUG")
    if tier == "thorough": flags.append("-DVP_THOROUGH=1")
    if unit.get("vpts"): flags.append("-g")
    flags += unit.get("flags", [])
    r = sh([CLANG] + flags + ["-emit-llvm", "-c", "-Xclang", "-disable-llvm-passes", src, "-o", raw])
    if r.returncode and unit.get("witness"):
        # the instances of a witness unit are valid programs: rejecting one is a violation, unless a name they use is gone
        errs = [l for l in r.stderr.splitlines() if " error: " in l]
        anchor = re.compile(r"file not found|no member named|no template named|undeclared|unknown type name|no type named|expected |no matching")
        bad = [l for l in errs if not anchor.search(l)]
        if bad and len(bad) == len(errs): raise Witness(unit["src"], bad[0], r.stderr[:3000])
    if r.returncode: raise Fail(f"{unit['src']} does not compile against {REPO}/include:\n" + r.stderr[:3000])
    if unit.get("vpts"):
        ents = sh([VPTS, raw, "--list"] + unit["vpts"]).stdout.split()
        if len(ents) < unit.get("least", 1): raise Fail(f"{unit['src']}: {len(ents)} functions with such objects were found, at least {unit.get('least', 1)} are expected")
        return raw, ents
    r = sh([OPT, "-passes=" + (LUTPASSES if unit.get("lut") else PASSES), raw, "-o", bc])
    if r.returncode: raise Fail("opt failed: " + r.stderr[:2000])
    os.unlink(raw)
    ents = sh([VPAI, bc, "--list"]).stdout.split()
    if unit.get("only"): ents = [e for e in ents if re.search(unit["only"], e)]
    if not ents: raise Fail(f"{unit['src']}: no obligations were instantiated")
    return bc, ents

def compile_split(work, i, unit, tier, skipped):
    """A unit that does not compile as a whole: each of its formats by itself; the ones that do not compile are reported as not analysed."""
    try: return [(unit,) + compile_unit(work, i, unit, tier)]
    except Fail as e:
        fl = [f for f in unit.get("flags", []) if f.startswith("-DFORMATS=")]
        toks = re.findall(r"\w+\([^()]*\)", fl[0]) if fl else []
        if len(toks) < 2 or unit.get("vpts"): raise
        out = []
        def one(k):
            u = dict(unit, flags=[f for f in unit["flags"] if not f.startswith("-DFORMATS=")] + ["-DFORMATS=" + toks[k]])
            try: return (u,) + compile_unit(work, f"{i}_{k}", u, tier)
            except Fail: return None
        with ThreadPoolExecutor(8) as ex: got = list(ex.map(one, range(len(toks))))
        bad = [t for t, g in zip(toks, got) if g is None]
        kind = lambda t: t.split("(")[0]
        if 4 * len(bad) > len(toks) or {kind(t) for t in toks} != {kind(t) for t in toks if t not in bad}: raise e # too little is left, or nothing of a kind
        skipped += [f"{unit['src']} {t}" for t in bad]
        return [g for g in got if g is not None]

def run_unit(bc, ents, budget, unit, pool):
    cmd = [VPAI, bc, "--pool", str(pool), "--budget", str(budget), "--leafcap", str(unit.get("leafcap", 15)), "-v"]
    if unit.get("steps"): cmd += ["--steps", str(unit["steps"])]
    cmd += unit.get("vpai", [])
    for e in ents: cmd += ["--entry", e]
    if unit.get("vpts"): cmd = [VPTS, bc] + unit["vpts"]
    r = sh(cmd)
    out = {e: dict(cells=0, empty=0, gaveup=0, unexplored=0, crashed=0, incomplete=0, instrs=0, obligations={}, why={}, violations=[], analysed=set(), wall=0.0) for e in ents}
    for l in r.stdout.splitlines():
        d = json.loads(l)
        o = out[d["entry"]]
        if "error" in d: raise Fail(d["entry"] + ": " + d["error"])
        if "unexplored" in d: o["unexplored"] += 1; continue
        if "crashed" in d: o["crashed"] += 1; o["why"][d["crashed"]] = 1; continue
        for k in ("cells", "empty", "gaveup", "instrs", "wall"): o[k] += d[k]
        if not d["complete"]: o["incomplete"] += 1
        for x in d["obligations"]:
            y = o["obligations"].setdefault(x["msg"], dict(ok=0, undecided=0, violated=0, why=""))
            for k in ("ok", "undecided", "violated"): y[k] += x[k]
            if x["why"] and not y["why"]: y["why"] = x["why"]
        for k, v in d["why"].items(): o["why"][k] = o["why"].get(k, 0) + v
        o["violations"] += d["violations"]
        o["analysed"].update(d["analysed"])
        for k in ("objects", "escaping", "sites"):
            if k in d: o.setdefault("typestate", {})[k] = d[k]
    if r.returncode not in (0,): raise Fail(f"analyser ended with {r.returncode}: " + r.stderr[-1500:])
    return out

def known_findings(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+entry=(\S+)\s+what=(.*)", l)
            if m and m.group(1) == pid: res.append((m.group(2), m.group(3).strip()))
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[pid]
    t0 = time.time()
    if not os.path.exists(VPAI) or not os.path.exists(VPTS): subprocess.check_call([os.path.join(HERE, "engine/build.sh")])
    if "special" in chk:
        import importlib
        sys.exit(importlib.import_module(chk["special"]).main(pid, chk, tier, seed, verbose))
    work = tempfile.mkdtemp(prefix="vp_")
    try:
        units = [u for u in chk["units"] if tier == "thorough" or not u.get("thorough_only")]
        total = chk.get("budget", 40) if tier == "quick" else chk.get("thorough_budget", 600)
        with ThreadPoolExecutor(8) as ex:
            skipped = []
            futs = [ex.submit(compile_split, work, i, u, tier, skipped) for i, u in enumerate(units)]
            built = [b for f in futs for b in f.result()]
        for t in skipped: print(f"  not analysed, this instance does not compile: {t}")
        t1 = time.time()
        res = {}
        for i, (u, bc, ents) in enumerate(built):
            left = max(3.0, total - (time.time() - t1))
            share = left if i == len(built) - 1 else max(3.0, left * 0.7)
            for e, o in run_unit(bc, ents, share, u, 8).items(): res[(u["name"] + ":" if "name" in u else "") + e] = (u, o)
    except Witness as e:
        shutil.rmtree(work, ignore_errors=True)
        edir = os.path.join(HERE, "evidence"); os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
        rp = os.path.join(edir, "replay", pid + ".json")
        json.dump([dict(harness=e.args[0], msg=e.args[1], compiler=e.args[2])], open(rp, "w"), indent=1)
        json.dump(dict(property=pid, tier=tier, seed=seed, level=chk["level"], wall_s=round(time.time() - t0, 2), violations=1,
                       coverage=dict(explanation="a witness program that must compile is rejected: " + e.args[1], checker_cmd=f"python3 check.py {pid} --tier {tier}", obligations=1, discharged=0)), open(os.path.join(edir, pid + ".json"), "w"), indent=1)
        print(f"  {e.args[0]}: a program that must compile is rejected: {e.args[1]}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    except Fail as e:
        print(f"ERROR property={pid}: {e}")
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(3)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kf = known_findings(pid)
    nviol, printed_kf = 0, set()
    viols = []
    tot = dict(ok=0, undecided=0, violated=0)
    funcs, per = set(), []
    dead = []
    for e, (u, o) in sorted(res.items()):
        for m, y in o["obligations"].items():
            for k in tot: tot[k] += y[k]
        funcs |= o["analysed"]
        okc = sum(y["ok"] for y in o["obligations"].values())
        und = sum(y["undecided"] for y in o["obligations"].values())
        comp = not (o["incomplete"] or o["gaveup"] or o["unexplored"] or o["crashed"] or und)
        per.append(dict(entry=e, cells=o["cells"], empty_cells=o["empty"], undecided=und, gave_up=o["gaveup"], unexplored=o["unexplored"] + o["crashed"], discharged=okc, complete=comp and not o["violations"],
                        obligations={m: {k: y[k] for k in ("ok", "undecided", "violated")} for m, y in o["obligations"].items()},
                        first_reasons=[y["why"] for y in o["obligations"].values() if y["why"]][:2] + list(o["why"])[:3], cpu_s=round(o["wall"], 2), **o.get("typestate", {})))
        if okc == 0 and not o["violations"]: dead.append(e)
        for v in o["violations"]:
            vtext = v["msg"] + " | " + v.get("inputs", "")
            known = [(ke, w) for (ke, w) in kf if fnmatch.fnmatchcase(e, ke) and (w.split(" :: ")[0] in vtext or w.split(" :: ")[0] == "*")]
            if known:
                if known[0] not in printed_kf: print(f"KNOWN-FINDING: property={pid} {e.split('(')[0]}: {known[0][1]}")
                printed_kf.add(known[0])
                continue
            viols.append((e, u, v)); break
    edir = os.path.join(HERE, "evidence"); os.makedirs(edir, exist_ok=True)
    rdir = os.path.join(edir, "replay"); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + ".json")
    if os.path.exists(rp): os.unlink(rp)
    proved = [p["entry"] for p in per if p["complete"]]
    ev = dict(property=pid, tier=tier, seed=seed, level=chk["level"], wall_s=round(time.time() - t0, 2), violations=len(viols),
              coverage=dict(
                  obligations=sum(tot.values()), discharged=tot["ok"], undecided=tot["undecided"], violated=tot["violated"],
                  instances_not_compiling=skipped, instances=len(per), instances_fully_discharged=len(proved),
                  cells=sum(p["cells"] for p in per), empty_cells=sum(p["empty_cells"] for p in per),
                  cells_given_up=sum(p["gave_up"] for p in per), subtrees_unexplored=sum(p["unexplored"] for p in per),
                  ir_instructions_interpreted=sum(o["instrs"] for _, (u, o) in res.items()),
                  functions_analysed=sorted(funcs)[:400], n_functions=len(funcs),
                  checker_cmd=f"python3 check.py {pid} --tier {tier}",
                  trusted_base=["clang 18 front end and the listed opt passes", "engine/ai.cpp, engine/dom.hpp transfer functions", "harness/*.hpp reference semantics"],
                  explanation=chk["explanation"], per_instance=per),
              assumptions=chk.get("assumptions", []))
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
    print(f"{pid} [{tier}] {len(per)} instances ({len(proved)} fully discharged), {ev['coverage']['cells']} cells, obligations ok={tot['ok']} undecided={tot['undecided']} violated={tot['violated']}, "
          f"given up={ev['coverage']['cells_given_up']}, unexplored={ev['coverage']['subtrees_unexplored']}, functions={len(funcs)}, {ev['wall_s']} s")
    if verbose:
        for p in per: print("  ", p["entry"], {k: p[k] for k in ("cells", "discharged", "undecided", "gave_up", "unexplored", "complete", "cpu_s")}, "" if p["complete"] else [r[:300] for r in p["first_reasons"]])
    if viols:
        json.dump([dict(entry=e, harness=u["src"], **v) for e, u, v in viols], open(rp, "w"), indent=1)
        for e, u, v in viols[:6]:
            print(f"  {e} ({u['src']}): {v['msg']}\n    operands: {v['inputs'][:600]}\n    at {v['where'][:400]}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if dead:
        print(f"ERROR property={pid}: nothing could be discharged for {dead[:5]}")
        sys.exit(3)
    sys.exit(0)

main()
