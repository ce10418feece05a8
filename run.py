#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources to LLVM bitcode, runs every
harness job of the property in apexsym (symbolic execution + z3), replays solver models
against a native ASan build of the same sources, writes evidence/<id>.json.

usage: run.py <property> [--tier quick|thorough] [--only entry] [-v] [--keep]
exit 0: held on everything explored; exit 1: a VIOLATION line was printed."""
import sys, os, re, json, subprocess, tempfile, shutil, time, threading, concurrent.futures as cf, hashlib, glob
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("APEX_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine/bin/apexsym")
HDIR = os.path.join(VERIF, "harness")
INC = ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/src/extensions" % REPO, "-I%s/stubinc" % HDIR, "-I/usr/include/cmark-gfm", "-I%s" % HDIR]
DEFS = ["-DAPEX_HAVE_LIBYAML=1", "-D_GNU_SOURCE"]
SLOTS = int(os.environ.get("SV_SLOTS", "8"))
FIRST = os.environ.get("SV_FIRST") == "1"      # development aid: stop after the first job with a violation

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

class Job: pass

def load_jobs():
    jobs = []
    for h in sorted(glob.glob(HDIR + "/*.c")):
        txt = open(h).read()
        base = os.path.basename(h)
        srcs = [s for m in re.finditer(r'^//@src (.*)$', txt, re.M) for s in m.group(1).split()]
        flags = [s for m in re.finditer(r'^//@cflags (.*)$', txt, re.M) for s in m.group(1).split()]
        sflags = [s for m in re.finditer(r'^//@srcflags (.*)$', txt, re.M) for s in m.group(1).split()]
        for m in re.finditer(r'^//@job (\S+) (\S+)(.*)$', txt, re.M):
            j = Job(); j.props = m.group(1).split(","); j.entry = m.group(2); j.file = base; j.srcs = srcs; j.flags = flags; j.sflags = sflags
            kv = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(3)))
            j.quick = float(kv.get("quick", 40)); j.thorough = float(kv.get("thorough", 300)); j.workers = int(kv.get("workers", 1))
            j.max_instr = int(kv.get("max_instr", 20000000)); j.bound = kv.get("bound", '""').strip('"'); j.tier = kv.get("tier", "quick")
            j.depth = int(kv.get("depth", 600)); j.symonly = kv.get("symonly") == "1"
            jobs.append(j)
    return jobs

def cc_bc(src, out, extra):
    return sh(["clang", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-builtin", "-fno-strict-aliasing", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-w", "-emit-llvm", "-c", src, "-o", out] + INC + DEFS + extra)

def build_unit(tmp, base, jobs, tier, log):
    """returns (bc path or None, reason)"""
    j = jobs[0]; tdef = ["-DSV_TIER=%d" % (2 if tier == "thorough" else 1), "-DREPO=" + REPO] + j.flags
    units = [("h", os.path.join(HDIR, base))] + [("s%d" % i, os.path.join(REPO, s) if not s.startswith("@") else os.path.join(VERIF, s[1:])) for i, s in enumerate(j.srcs)] + [("libc", VERIF + "/model/libc.c"), ("posix", VERIF + "/model/posix.c")]
    d = os.path.join(tmp, base + ".d"); os.makedirs(d, exist_ok=True)
    outs = []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = []
        for n, s in units:
            o = os.path.join(d, n + ".bc"); outs.append(o)
            futs.append((s, ex.submit(cc_bc, s, o, tdef + (j.sflags if s.startswith(REPO + "/") else []))))
        for s, f in futs:
            r = f.result()
            if r.returncode: return None, "compile failed: %s: %s" % (s, r.stderr.decode(errors="replace")[:600])
    full = os.path.join(tmp, base + ".bc"); t2 = os.path.join(d, "all.bc")
    r = sh(["llvm-link", "-o", t2] + outs)
    if r.returncode: return None, "link failed: " + r.stderr.decode(errors="replace")[:600]
    r = sh(["opt", "-passes=function(sroa,instsimplify,adce)", t2, "-o", full])
    if r.returncode: return None, "opt failed: " + r.stderr.decode(errors="replace")[:600]
    return full, ""

def build_native(tmp, base, jobs, tier):
    j = jobs[0]; tdef = ["-DSV_TIER=%d" % (2 if tier == "thorough" else 1), "-DREPO=" + REPO, "-DSV_NATIVE"] + j.flags
    d = os.path.join(tmp, base + ".nd"); os.makedirs(d, exist_ok=True)
    units = [os.path.join(HDIR, base), os.path.join(HDIR, "native_main.c")] + [os.path.join(REPO, s) for s in j.srcs if not s.startswith("@")]
    def one(i, s):
        o = os.path.join(d, "%d.o" % i)
        r = sh(["clang", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-w", "-c", s, "-o", o] + INC + DEFS + tdef + (j.sflags if s.startswith(REPO + "/") else []))
        return o, r
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: one(*t), enumerate(units)))
    for o, r in res:
        if r.returncode: return None, r.stderr.decode(errors="replace")[:600]
    out = os.path.join(tmp, base + ".native")
    r = sh(["clang", "-fsanitize=address", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all", "-o", out] + [o for o, _ in res] + ["-lcmark-gfm-extensions", "-lcmark-gfm", "-lyaml", "-ldl", "-lm"])
    if r.returncode: return None, r.stderr.decode(errors="replace")[:600]
    return out, ""

def native_run(tmp, exe, entry, inputs, tmo=20):
    """runs inputs (hex) natively; returns list of dict(exit/signal, lines)"""
    if not inputs: return []
    out = []
    def chunk(k, part):
        sd = tempfile.mkdtemp(prefix="nat", dir=tmp); fn = os.path.join(sd, "in")
        open(fn, "w").write("\n".join(part) + "\n")
        env = dict(os.environ, SV_ENTRY=entry, SV_SCRATCH=sd, LC_ALL="C", HOME=sd); env.pop("APEX_PROFILE", None)
        try:
            r = subprocess.run([exe, fn, str(tmo)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=sd, timeout=tmo * (len(part) + 2))
            txt = r.stdout.decode("latin1"); err = r.stderr.decode("latin1")
        except subprocess.TimeoutExpired: txt = ""; err = "timeout"
        res = []; cur = None
        for ln in txt.split("\n"):
            m = re.match(r'case (\d+) (exit|signal) (\d+)', ln)
            if m: cur = {"kind": m.group(2), "code": int(m.group(3)), "lines": []}
            elif ln == "end" and cur is not None: res.append(cur); cur = None
            elif cur is not None: cur["lines"].append(ln[2:])
        while len(res) < len(part): res.append({"kind": "none", "code": -1, "lines": []})
        for x in res: x["stderr"] = err[-3000:] if len(part) == 1 else ""
        shutil.rmtree(sd, ignore_errors=True)
        return res
    n = max(1, (len(inputs) + 7) // 8)
    parts = [inputs[i:i + n] for i in range(0, len(inputs), n)]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda t: chunk(*t), enumerate(parts)): out += r
    return out

def failed(r):
    if r["kind"] == "signal" and r["code"] != 9: return True
    return r["kind"] == "exit" and r["code"] in (66, 77)

class Slots:
    def __init__(self, n): self.n = n; self.c = threading.Condition()
    def take(self, k):
        with self.c:
            while self.n < k: self.c.wait()
            self.n -= k
    def give(self, k):
        with self.c: self.n += k; self.c.notify_all()

def merge(parts):
    t = {"violations": [], "samples": [], "covers": {}, "incomplete_why": {}, "functions": set(), "died": 0}
    for p in parts:
        if "worker_died" in p: t["died"] += 1; continue
        for k, v in p.items():
            if k in ("violations", "samples"): t[k] += v
            elif k in ("covers", "incomplete_why"):
                for a, b in v.items(): t[k][a] = t[k].get(a, 0) + b
            elif k == "functions": t[k] |= set(v)
            elif k == "work_left": pass
            else: t[k] = t.get(k, 0) + v
    # left-over work: the first record of a multi-worker run holds the frontier handed to workers
    lefts = [p.get("work_left", 0) for p in parts if "worker_died" not in p]
    t["work_left"] = sum(lefts) if len(parts) == 1 else sum(lefts[1:])
    return t

def main():
    t0 = time.time(); args = sys.argv[1:]; prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick"); only = None; verbose = "-v" in args; keep = "--keep" in args
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    if "--only" in args: only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hard = 780 if tier == "quick" else 7200
    r = sh(["bash", VERIF + "/engine/build.sh"])
    if r.returncode: print("engine build failed", r.stderr.decode()[:2000]); return 2
    jobs = [j for j in load_jobs() if (prop in j.props or prop == "ALL") and (tier == "thorough" or j.tier == "quick") and (not only or re.search(only, j.entry))]
    if not jobs: print("no jobs for", prop); return 2
    tmp = tempfile.mkdtemp(prefix="apexsym.")
    try: return run(t0, prop, tier, seed, hard, jobs, tmp, verbose)
    finally:
        if keep: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

def run(t0, prop, tier, seed, hard, jobs, tmp, verbose):
    files = {}
    for j in jobs: files.setdefault(j.file, []).append(j)
    known = json.load(open(VERIF + "/known_findings.json"))["findings"] if os.path.exists(VERIF + "/known_findings.json") else []
    skipped = []; bcs = {}; natives = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fb = {f: ex.submit(build_unit, tmp, f, js, tier, None) for f, js in files.items()}
        fn = {f: ex.submit(build_native, tmp, f, js, tier) for f, js in files.items()}
        for f in files:
            bcs[f], why = fb[f].result()
            if not bcs[f]: skipped.append((f, why))
            natives[f], why2 = fn[f].result()
            if not natives[f]: skipped.append((f, "native: " + why2))
    slots = Slots(SLOTS); results = {}
    def go(j):
        if not bcs[j.file]: return
        w = min(j.workers, SLOTS); slots.take(w)
        try:
            if FIRST and any(m.get("violations") for m in results.values()): return
            budget = j.quick if tier == "quick" else j.thorough
            budget = max(5, min(budget, hard - (time.time() - t0)))
            t = time.time()
            cmd = [ENGINE, bcs[j.file], "--entry", j.entry, "--time", str(budget), "--workers", str(w), "--max-instr", str(j.max_instr), "--max-depth", str(j.depth), "--seed", str(seed), "--samples", "24"]
            if verbose and os.environ.get("SV_TRACE"): cmd.append("-v")
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 60)
                parts = [json.loads(l) for l in r.stdout.decode("latin1").split("\n") if l.startswith("{")]
                if verbose and r.stderr: print(j.entry, r.stderr.decode(errors="replace")[:3000])
                if not parts: results[j] = {"error": "engine exit %d %s" % (r.returncode, r.stderr.decode(errors="replace")[:300])}
                else:
                    m = merge(parts); m["wall"] = time.time() - t
                    if r.returncode: m["died"] += 1
                    results[j] = m
            except subprocess.TimeoutExpired: results[j] = {"error": "engine timeout"}
        finally: slots.give(w)
    with cf.ThreadPoolExecutor(32) as ex: list(ex.map(go, sorted(jobs, key=lambda j: -j.workers)))
    # replay
    viol = []; spurious = []; knownhits = []; validated = 0; mismatches = []; evsamples = []
    for j in jobs:
        m = results.get(j)
        if not m or "error" in m or not natives[j.file]: continue
        vs = m["violations"]; seen = {}
        pick = []
        for v in vs:
            k = (v["kind"], v["msg"], v["loc"]); seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 3: pick.append(v)
        rs = native_run(tmp, natives[j.file], j.entry, [v["input"] for v in pick])
        got = set()
        for v, r in zip(pick, rs):
            (viol if failed(r) else spurious).append((j, v, r))
            if failed(r): got.add((v["kind"], v["msg"], v["loc"]))
        # none of the first counterexamples at a place reproduced: try the others found there
        more = [v for v in vs if v not in pick and (v["kind"], v["msg"], v["loc"]) not in got][:400]
        for v, r in zip(more, native_run(tmp, natives[j.file], j.entry, [v["input"] for v in more])):
            k = (v["kind"], v["msg"], v["loc"])
            if failed(r) and k not in got: got.add(k); viol.append((j, v, r))
            elif not failed(r): spurious.append((j, v, r))
        sm = [] if j.symonly else m["samples"]
        rs = native_run(tmp, natives[j.file], j.entry, [s["input"] for s in sm])
        for s, r in zip(sm, rs):
            if failed(r):
                viol.append((j, {"kind": "replay", "msg": "native run of a solver model failed: " + (r["lines"][-1] if r["lines"] else "%s %d" % (r["kind"], r["code"])), "loc": "", "stack": "", "input": s["input"]}, r)); continue
            em = ["emit %s %s" % (a, b) for a, b in s["emits"]]
            ne = [l for l in r["lines"] if l.startswith("emit ")]
            if r["lines"] and r["lines"][-1] == "done" and [x.rstrip() for x in ne] == [x.rstrip() for x in em]: validated += 1
            else: mismatches.append({"job": j.entry, "input": s["input"], "symbolic": em[:4], "native": r["lines"][:5], "st": [r["kind"], r["code"]]})
        for s in sm[:2]: evsamples.append({"job": j.entry, "input_hex": s["input"], "input": bytes.fromhex(s["input"]).decode("latin1"), "emits": [[a, bytes.fromhex(b).decode("latin1")[:200]] for a, b in s["emits"][:3]]})
    # classify
    fresh = []
    for j, v, r in viol:
        hit = None
        for k in known:
            if k.get("status") == "known" and k["property"] == prop and k["entry"] == j.entry and re.search(k["msg"], v["msg"]) and re.search(k.get("loc", ""), v["loc"]) and re.search(k.get("input", ""), v["input"]): hit = k
        if hit: knownhits.append((hit, v))
        else: fresh.append((j, v, r))
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + "/%s-*.json" % prop): os.unlink(f)
    for k in {json.dumps(h, sort_keys=True) for h, _ in knownhits}:
        k = json.loads(k); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    n = 0; printed = set()
    for j, v, r in fresh:
        key = (j.entry, v["msg"], v["loc"])
        if key in printed: continue
        printed.add(key); path = os.path.join(rdir, "%s-%d.json" % (prop, n)); n += 1
        native = native_run(tmp, natives[j.file], j.entry, [v["input"]])[0]
        json.dump({"property": prop, "harness": j.file, "entry": j.entry, "violated": v["msg"], "kind": v["kind"], "where": v["stack"], "input_hex": v["input"], "input_latin1": bytes.fromhex(v["input"]).decode("latin1"),
                   "native": {k: native[k] for k in ("kind", "code", "lines", "stderr")}, "rerun": "python3 /verif/run.py %s --only %s" % (prop, j.entry)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path)); print("  %s: %s [%s] input=%r at %s" % (j.entry, v["msg"], v["kind"], bytes.fromhex(v["input"]), v["loc"]))
    # evidence
    tot = lambda k: sum(m.get(k, 0) for m in results.values() if "error" not in m)
    jl = []; exhaustive = not skipped
    for j in jobs:
        m = results.get(j)
        if not m: jl.append({"job": j.entry, "skipped": True}); exhaustive = False; continue
        if "error" in m: jl.append({"job": j.entry, "error": m["error"]}); exhaustive = False; continue
        full = not m["stopped"] and not m["incomplete"] and not m["died"] and not m["work_left"] and not m["unknown"]
        exhaustive &= full
        jl.append({"job": j.entry, "harness": j.file, "bound": j.bound, "paths": m["paths"], "inputs_covered": m["inputs"], "paths_with_relational_constraints": m["rel_paths"], "instructions": m["instrs"], "assertions_checked": m["asserts"], "symbolic_assertions_z3": m["sym_asserts"], "z3_queries": m["queries"], "z3_s": round(m["solver_s"], 3), "covers": m["covers"], "complete_within_bound": full, "incomplete": m["incomplete_why"], "workers_died": m["died"], "wall_s": round(m["wall"], 2), "violations": len(m["violations"])})
    fns = sorted(set().union(*[m["functions"] for m in results.values() if "error" not in m])) if results else []
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot("forks") + len(results), "transitions": tot("instrs"), "traces_validated_against_impl": validated, "samples": evsamples[:12],
                       "paths": tot("paths"), "inputs_covered": tot("inputs"), "z3_queries": tot("queries"), "z3_sat": tot("sat"), "z3_unsat": tot("unsat"), "z3_unknown": tot("unknown"), "solver_time_s": round(tot("solver_s"), 3), "assertions_checked": tot("asserts"), "functions_encoded": fns, "jobs": jl, "exhaustive": bool(exhaustive),
                       "trace_mismatches": mismatches[:10], "unreproduced_counterexamples": [{"job": j.entry, "msg": v["msg"], "input": v["input"], "loc": v["loc"]} for j, v, r in spurious][:10], "skipped": [list(x) for x in skipped], "domain_vs_z3_disagreements": tot("dom_mismatch")},
          "assumptions": ["bounds: as stated per job (templates and number of symbolic bytes); inputs outside them are not covered", "memory allocation succeeds", "libc behaves as the C model in /verif/model (C locale), cross-checked by native replays", "LLVM IR produced by clang -O1 without optimisation passes is faithful to the C source"],
          "wall_s": round(time.time() - t0, 2), "violations": n}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    if verbose:
        for x in jl: print(json.dumps(x))
        for x in mismatches[:5]: print("MISMATCH", json.dumps(x))
        for j, v, r in spurious[:8]: print("SPURIOUS", j.entry, v["msg"], v["loc"], bytes.fromhex(v["input"]), r["kind"], r["code"], r["lines"][:3])
        for s in skipped: print("SKIPPED", s)
    print("%s: %d jobs, %d paths, %.4g inputs, %d z3 queries (%.1fs), %d traces replayed, exhaustive=%s, %d violation(s), %.1fs" % (prop, len(jobs), tot("paths"), tot("inputs"), tot("queries"), tot("solver_s"), validated, exhaustive, n, time.time() - t0))
    return 1 if n else 0

if __name__ == "__main__": sys.exit(main())
