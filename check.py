#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of its harnesses.
   check.py <property> [--tier quick|thorough] [--only harness] [--job k=v,...] [-v]"""
import sys, os, json, hashlib, subprocess, time, re, shutil, argparse, random, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LLVM = "/usr/lib/llvm-18/bin"
CLANGXX = LLVM + "/clang++" if os.path.exists(LLVM + "/clang++") else "clang++-18"
CLANG = LLVM + "/clang" if os.path.exists(LLVM + "/clang") else "clang-18"
sys.path.insert(0, HERE)
BC_FLAGS = ["-std=c++20", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
            "-gline-tables-only", "-DSYMX", "-w", "-U_FORTIFY_SOURCE", "-fno-stack-protector"]
NAT_FLAGS = ["-std=c++20", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1"]
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,pointer-overflow,bool,enum,unreachable,return,null", "-fsanitize-trap=all"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

_n = [0]
def tmpname(out):
    _n[0] += 1
    return "%s.tmp%d-%d-%d" % (out, os.getpid(), threading.get_ident() & 0xffffff, _n[0])

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def tree_hash(d):
    h = hashlib.sha256()
    for r, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(r, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def build_engine():
    src = [os.path.join(HERE, "engine", f) for f in ("symx.cpp", "expr.h")]
    key = sha(*[open(s, "rb").read() for s in src])
    out = os.path.join(BUILD, "symx-" + key)
    if not os.path.exists(out):
        tmp = tmpname(out)
        os.makedirs(BUILD, exist_ok=True)
        fl = [f for f in sh(["llvm-config", "--cxxflags"]).stdout.split() if not f.startswith("-std=") and f != "-fno-exceptions"] \
            if shutil.which("llvm-config") else ["-I/usr/lib/llvm-18/include"]
        r = sh(["g++", "-std=c++20", "-O2", "-fno-rtti", "-w", src[0], "-o", tmp] + fl +
               ["-fexceptions", "-I" + os.path.join(HERE, "engine"), "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
        if r.returncode: print(r.stdout[-3000:]); sys.exit("engine build failed")
        os.rename(tmp, out)
    return out

def build_rt():
    src = os.path.join(HERE, "harness", "rt_sym.c")
    out = os.path.join(BUILD, "rt-" + sha(open(src, "rb").read()) + ".bc")
    if not os.path.exists(out):
        tmp = tmpname(out)
        r = sh([CLANG, "-O1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c", src, "-o", tmp])
        if r.returncode: sys.exit("rt build failed " + r.stdout)
        os.rename(tmp, out)
    return out

_inc = None
def inc_hash():
    global _inc
    if _inc is None: _inc = tree_hash(os.path.join(REPO, "include")) + tree_hash(os.path.join(HERE, "harness"))
    return _inc

class BuildError(Exception): pass

def compile_bc(h, flags):
    src = os.path.join(HERE, "harness", h + ".cpp")
    out = os.path.join(BUILD, "bc-%s-%s.bc" % (h, sha(inc_hash(), *flags, *BC_FLAGS)))
    if not os.path.exists(out):
        tmp = tmpname(out)
        r = sh([CLANGXX] + BC_FLAGS + flags + ["-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "include"), "-emit-llvm", "-c", src, "-o", tmp])
        if r.returncode: raise BuildError("harness %s does not compile:\n%s" % (h, r.stdout[-3000:]))
        os.rename(tmp, out)
    return out

def compile_native(h, flags, variant="gcc"):
    src = os.path.join(HERE, "harness", h + ".cpp")
    dfl = [f for f in flags if f.startswith("-D") or f.startswith("-std")]
    nf = {"gcc": ["g++"] + NAT_FLAGS, "clang-pattern": [CLANGXX] + NAT_FLAGS + ["-ftrivial-auto-var-init=pattern"],
          "clang-O0": [CLANGXX] + [f for f in NAT_FLAGS if f != "-O1"] + ["-O0", "-ftrivial-auto-var-init=zero"],
          "gcc-O2": ["g++", "-std=c++20", "-O2", "-w", "-g1"]}[variant]
    out = os.path.join(BUILD, "nat-%s-%s" % (h, sha(inc_hash(), *dfl, *nf)))
    if not os.path.exists(out):
        tmp = tmpname(out)
        r = sh(nf + dfl + ["-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "include"), src,
                           os.path.join(HERE, "harness", "native.cpp"), "-o", tmp])
        if r.returncode: raise BuildError("harness %s does not compile natively:\n%s" % (h, r.stdout[-3000:]))
        os.rename(tmp, out)
    return out

def case_text(cfg, inputs):
    return "case\n" + "".join("set %s %d\n" % kv for kv in sorted(cfg.items())) + "".join("in %s %s\n" % (k.replace(" ", "_"), v) for k, v in sorted(inputs.items()))

def run_native(exe, path, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1")
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return -999, "TIMEOUT\n" + (e.stdout or b"").decode("latin1")

def parse_native(txt):
    """-> list of (trace, done, checkfails, assume)"""
    out = []
    for l in txt.splitlines():
        if l.startswith("CASE "): out.append(dict(trace=[], done=False, fails=[], assume=False))
        elif not out: continue
        elif l.startswith("T "): out[-1]["trace"].append(l[2:])
        elif l == "DONE": out[-1]["done"] = True
        elif l.startswith("CHECKFAIL "): out[-1]["fails"].append(l[10:])
        elif l == "ASSUME": out[-1]["assume"] = True
    return out

def main():
    if sys.argv[1:] == ["--setup"]:
        build_engine(); build_rt(); print("engine built"); return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--job"); ap.add_argument("-v", action="store_true"); ap.add_argument("--no-native", action="store_true"); ap.add_argument("--flags", help="space separated, all must be present")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("SYMX_PROCS", "8")))
    a = ap.parse_args()
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import specs
    spec = specs.SPECS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    budget = spec.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    jobs = list(spec["jobs"](tier))
    if a.flags: jobs = [j for j in jobs if all(f in j.get("flags", ()) for f in a.flags.split())]; a.only = a.only or ""
    if a.only: jobs = [j for j in jobs if j["h"] == a.only]
    if a.job:
        want = dict(kv.split("=") for kv in a.job.split(","))
        jobs = [j for j in jobs if all(str(j["cfg"].get(k)) == v for k, v in want.items())]
    engine = build_engine(); rt = build_rt()
    # ---- build all harness variants (bitcode and native) in parallel
    variants = sorted(set((j["h"], tuple(j.get("flags", ()))) for j in jobs))
    bc, nat, buildfail = {}, {}, []
    with ThreadPoolExecutor(a.procs) as ex:
        fb = {v: ex.submit(compile_bc, v[0], list(v[1])) for v in variants}
        fn = {} if a.no_native else {v: ex.submit(compile_native, v[0], list(v[1])) for v in variants}
        for v in variants:
            try:
                bc[v] = fb[v].result()
                if fn: nat[v] = fn[v].result()
            except BuildError as e: buildfail.append(str(e))
    if buildfail:
        for b in buildfail: print(b)
        print("ERROR property=%s harness build failed" % a.prop); return 2
    tb = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%s" % (a.prop, tier)); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    def run_job(ij):
        i, j = ij
        left = budget - (time.time() - t0)
        if left < 5: return dict(skipped=True)
        tmax = min(j.get("time", 150 if tier == "quick" else 1200), left)
        out = os.path.join(work, "job%d.json" % i)
        cmd = [engine, bc[(j["h"], tuple(j.get("flags", ())))], rt, "--out", out, "--max-time", str(int(tmax)), "--seed", str(seed + i), "--samples", str(j.get("samples", 6))]
        for k, v in j["cfg"].items(): cmd += ["--set", "%s=%d" % (k, v)]
        if "query_ms" in j: cmd += ["--query-ms", str(j["query_ms"])]
        if "max_insts" in j: cmd += ["--max-insts", str(j["max_insts"])]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmax + 150)
        except subprocess.TimeoutExpired:
            return dict(killed="engine exceeded its time limit")
        if not os.path.exists(out): return dict(killed="engine ended with code %d: %s" % (r.returncode, r.stdout[-300:]))
        res = json.load(open(out)); res["log"] = r.stdout[-500:]
        if a.v: print("  job %s %s: paths %d insts %d checks %d/%d queries %d solver %.1fs wall %.1fs%s%s" % (j["h"], j["cfg"], res["paths"], res["insts"], res["checks_solver"], res["checks"], res["queries"], res["solver_s"], res["wall_s"], " INCOMPLETE " + str(res["incomplete"]) if res["incomplete"] else "", " VIOL " + str([v["msg"] for v in res["violations"]]) if res["violations"] else ""), flush=True)
        return res
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
    results = [None] * len(jobs)
    with ThreadPoolExecutor(a.procs) as ex:
        for i, r in zip(order, ex.map(run_job, [(i, jobs[i]) for i in order])): results[i] = r
    # ---- collect
    tot = {k: 0 for k in ("insts", "forks", "paths", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits", "checks", "checks_solver", "checks_simplified", "solver_s", "assume_dead")}
    errors, incomplete, viols, covers, fns, lines = [], [], [], {}, set(), {}
    done = 0
    for i, (j, r) in enumerate(zip(jobs, results)):
        tag = "%s %s" % (j["h"], json.dumps(j["cfg"], sort_keys=True))
        if r.get("skipped"): incomplete.append(tag + ": not started within the time budget"); continue
        if r.get("killed"): (errors if "ended with code" in r["killed"] and "code -9" not in r["killed"] else incomplete).append(tag + ": " + r["killed"]); continue
        for k in tot: tot[k] += r[k]
        if r.get("error"): errors.append(tag + ": " + r["error"])
        if r["incomplete"] and not r["violations"]: incomplete.append(tag + ": " + "; ".join(r["incomplete"]))
        if not r["incomplete"] and not r.get("error"): done += 1
        for c, n in r["covers"].items(): covers.setdefault(j["h"], {}); covers[j["h"]][c] = covers[j["h"]].get(c, 0) + n
        fns.update(r["functions"])
        for f, ls in r["lines"].items(): lines.setdefault(f, set()).update(ls)
        for v in r["violations"]: viols.append((i, v))
    # ---- engine validation: replay samples natively, compare traces
    validated, mismatches, samples_out = 0, [], []
    if nat:
        bygrp = {}
        for i, (j, r) in enumerate(zip(jobs, results)):
            if r.get("samples"): bygrp.setdefault((j["h"], tuple(j.get("flags", ()))), []).extend((i, s) for s in r["samples"])
        def val(g):
            v, ss = g; p = os.path.join(work, "val-%s.txt" % sha(str(v))); open(p, "w").write("".join(case_text(jobs[i]["cfg"], s["inputs"]) for i, s in ss))
            rc, txt = run_native(nat[v], p, 300); return v, ss, rc, txt, parse_native(txt)
        with ThreadPoolExecutor(a.procs) as ex:
            for v, ss, rc, txt, pn in ex.map(val, bygrp.items()):
                bad = set(i for i, _ in viols)
                for k, (i, s) in enumerate(ss):
                    if k < len(pn) and pn[k]["done"] and pn[k]["trace"] == s["trace"] and not pn[k]["assume"]: 
                        validated += 1
                        if pn[k]["fails"] and i not in bad: mismatches.append((i, s, "native check failed: " + str(pn[k]["fails"])))
                    elif i not in bad: mismatches.append((i, s, "trace differs: " + (str(pn[k])[:300] if k < len(pn) else "no result") + " expected " + str(s["trace"])[:200] + ("\n" + txt[-1500:] if rc not in (0, 1) else "")))
                    if k < len(pn) and not pn[k]["done"]: break
                if len(samples_out) < 4 and ss: samples_out.append(dict(harness=v[0], config=jobs[ss[0][0]]["cfg"], inputs=dict(list(ss[0][1]["inputs"].items())[:24]), trace=ss[0][1]["trace"][:24]))
    # ---- violations: replay each against the native build
    known = json.load(open(os.path.join(HERE, "known_findings.json"))) if os.path.exists(os.path.join(HERE, "known_findings.json")) else {"findings": []}
    confirmed, unconfirmed, known_hit = [], [], []
    rdir = os.path.join(HERE, "evidence", "replay", a.prop); shutil.rmtree(rdir, ignore_errors=True)
    seen = set()
    for n, (i, v) in enumerate(viols):
        j = jobs[i]; key = (j["h"], re.sub(r"\d+", "N", v["msg"]))
        if key in seen and len(seen) > 12 or len(confirmed) >= 12: continue
        if sum(1 for c in confirmed if c[3] == key) >= 2: continue
        seen.add(key); d = os.path.join(rdir, "v%d" % n); os.makedirs(d); cp = os.path.join(d, "case.txt"); open(cp, "w").write(case_text(j["cfg"], v["inputs"]))
        var = (j["h"], tuple(j.get("flags", ()))); ok = False; log = ""
        for variant in ("gcc", "clang-pattern", "clang-O0", "gcc-O2"):
            try: exe = compile_native(j["h"], list(j.get("flags", ())), variant)
            except BuildError as e: log += str(e); continue
            rc, txt = run_native(exe, cp, 60); pn = parse_native(txt); log += "== native variant %s: exit %d\n%s\n" % (variant, rc, txt[-3000:])
            if pn and pn[0]["assume"]: continue
            if rc != 0: ok = True; break
        open(os.path.join(d, "info.txt"), "w").write(json.dumps(dict(property=a.prop, harness=j["h"], flags=j.get("flags", []), cfg=j["cfg"], **v), indent=1) + "\n" + log)
        open(os.path.join(d, "replay.sh"), "w").write("#!/bin/sh\n# rebuilds the harness from the current tree and replays the counterexample (non-zero exit: reproduced)\nset -e\nT=$(mktemp -d)\ng++ %s %s -I%s/harness -I%s/include %s/harness/%s.cpp %s/harness/native.cpp -o $T/r\nset +e\n$T/r %s; R=$?\nrm -rf \"$T\"\nexit $R\n" % (" ".join(NAT_FLAGS), " ".join(f for f in j.get("flags", []) if f.startswith("-D")), HERE, REPO, HERE, j["h"], HERE, cp)); os.chmod(os.path.join(d, "replay.sh"), 0o755)
        if not ok: unconfirmed.append((i, v, d)); continue
        kf = None
        for k in known.get("findings", []):
            if k["property"] == a.prop and k["harness"] == j["h"] and re.search(k["msg"], v["msg"]) and all(j["cfg"].get(c) in (x if isinstance(x, list) else [x]) for c, x in k.get("cfg", {}).items()) and all(v["inputs"].get(c) in (x if isinstance(x, list) else [x]) for c, x in k.get("inputs", {}).items()): kf = k; break
        if kf: known_hit.append((kf, d))
        else: confirmed.append((i, v, d, key))
    missing = []
    if not a.only and not a.job and not a.flags:
        for h, cs in spec.get("covers", {}).items():
            for c in cs:
                if not covers.get(h, {}).get(c): missing.append(h + ":" + c)
    for k in {json.dumps(k, sort_keys=True): (k, d) for k, d in known_hit}.values(): print("KNOWN-FINDING: property=%s %s" % (a.prop, k[0]["what"]))
    for i, v, d, key in confirmed:
        print("VIOLATION property=%s replay=%s" % (a.prop, d)); print("  %s: %s\n  harness %s %s\n  inputs %s\n  at %s" % (v["kind"], v["msg"], jobs[i]["h"], jobs[i]["cfg"], json.dumps(v["inputs"])[:600], v["loc"][:400]))
    for i, v, d in unconfirmed: print("UNCONFIRMED (does not reproduce natively) %s: %s %s %s see %s" % (v["kind"], v["msg"], jobs[i]["h"], jobs[i]["cfg"], d))
    for e in errors: print("ENGINE ERROR " + e)
    for i, s, w in mismatches[:5]: print("VALIDATION MISMATCH %s %s %s: %s" % (jobs[i]["h"], jobs[i]["cfg"], json.dumps(s["inputs"])[:300], w))
    for x in incomplete: print("INCOMPLETE (not claimed) " + x)
    for m in missing: print("VACUITY: no path reached " + m)
    demangled = []
    if fns:
        r = subprocess.run(["c++filt"], input="\n".join(sorted(fns)), stdout=subprocess.PIPE, text=True) if shutil.which("c++filt") else None
        names = (r.stdout.splitlines() if r and r.returncode == 0 else sorted(fns))
        base = {}
        for nme in names:
            b = re.sub(r"<[^<>]*>", "", nme)
            while re.search(r"<[^<>]*>", b): b = re.sub(r"<[^<>]*>", "", b)
            b = re.sub(r"\(.*", "", b).split(" ")[-1]
            base[b] = base.get(b, 0) + 1
        demangled = sorted(base)
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(confirmed),
        coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["insts"], traces_validated_against_impl=validated, samples=samples_out or [dict(note="native replay disabled")],
            paths_completed=tot["paths"], forks=tot["forks"], paths_excluded_by_assumption=tot["assume_dead"], queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], query_cache_hits=tot["cache_hits"], branches_decided_by_model=tot["model_hits"],
            checks_executed=tot["checks"], checks_decided_by_solver=tot["checks_solver"], checks_decided_by_rewriting=tot["checks_simplified"], solver_s=round(tot["solver_s"], 2), build_s=round(tb, 2),
            jobs=len(jobs), jobs_exhausted=done, exhaustive_within_bounds=(done == len(jobs)), bounds=spec["bounds"], not_covered=incomplete[:50], functions_encoded=demangled, functions_encoded_instances=len(fns), source_lines_encoded={f: len(l) for f, l in sorted(lines.items())}, reachability_witnesses=covers, solver="z3 (libz3, QF_FD incremental bit-vectors; every model re-evaluated on the query by the engine)"),
        assumptions=spec.get("assumptions", []) + ["IR produced by clang 18 -O1 from /repo's headers; the native replays use g++", "bounded: only what is listed under bounds is claimed"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only and not a.job and not a.flags: json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    json.dump({f: sorted(l) for f, l in lines.items()}, open(os.path.join(work, "lines.json"), "w"))
    print("%s %s: jobs %d/%d exhausted, paths %d, checks %d (%d by solver), queries %d, solver %.1fs, validated %d, wall %.1fs" % (a.prop, tier, done, len(jobs), tot["paths"], tot["checks"], tot["checks_solver"], tot["queries"], tot["solver_s"], validated, wall))
    if confirmed: return 1
    if errors or unconfirmed or mismatches or missing: return 2
    if done == 0: print("ERROR nothing was explored to the end"); return 2
    return 0

if __name__ == "__main__": sys.exit(main())
