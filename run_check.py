#!/usr/bin/env python3
"""Decide one property: compile /repo and the harness to LLVM IR, execute it
symbolically (build/jsym), replay what it finds against a native build."""
import hashlib, json, os, pathlib, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks as C
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = f"{V}/build/cache"
T0 = time.time()
BASE = ["-std=c++17", "-g", f"-I{V}/models/include", f"-I{REPO}", "-isystem", "/usr/include/android", "-Wno-everything"]
UB = "signed-integer-overflow,float-cast-overflow,shift,integer-divide-by-zero,bool,enum,return,unreachable,array-bounds"
BCF = [f"-I{V}/models/symlib"] + BASE + ["-O1", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-jump-tables",
              "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm"]
BCREPO = BCF + ["-fsanitize=" + UB, "-fsanitize-trap=all"]
NATF = BASE + ["-O1"]
SANF = BASE + ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address," + UB, "-fno-sanitize-recover=all"]
TSAN = BASE + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-O1", "-DSYM_THREADS"]
VALF = BASE + ["-O0", "-gdwarf-4"]
LIBS = ["-Wl,--as-needed"] + sorted("-l" + p.stem[3:] for p in pathlib.Path("/usr/lib/x86_64-linux-gnu").glob("libabsl_*.so")
                                    if "test" not in p.stem and "flags" not in p.stem) + ["-lpthread"]
MODELS = ["std", "absl", "clock", "crypto", "pb"]
NATMODELS = ["clock", "crypto", "pb"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def readb(p):
    with open(p, "rb") as f:
        return f.read()


def tree(dirs, exts):
    out = []
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts) or (exts == (".h",) and "." not in f):
                    p = os.path.join(r, f)
                    out.append(p.encode() + b":" + readb(p))
    return b"\n".join(out)


_hdr = None


def headers():
    global _hdr
    if _hdr is None:
        _hdr = sha(tree([f"{V}/models/include", f"{V}/models/symlib", f"{V}/harness"], (".h",)),
                   tree([f"{REPO}/jwt_verify_lib", f"{REPO}/simple_lru_cache", f"{REPO}/src"], (".h",)))
    return _hdr


def compile1(src, flags, defs=()):
    key = sha(readb(src), src, headers(), flags, defs)
    out = f"{CACHE}/{key}.o"
    if os.path.exists(out):
        return out, None
    os.makedirs(CACHE, exist_ok=True)
    tmp = f"{out}.{os.getpid()}.{os.urandom(6).hex()}"
    r = subprocess.run(["clang++-18", *flags, *defs, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return None, f"{src}: {r.stderr[:1500]}"
    os.rename(tmp, out)
    return out, None


def srcs_of(run):
    n = run.get("src")
    if n is None:
        return sorted(os.path.join(REPO, "src", f) for f in os.listdir(f"{REPO}/src") if f.endswith(".cc"))
    return [f"{REPO}/src/{f}" for f in n if os.path.exists(f"{REPO}/src/{f}")]


def units(run, mode):
    h = f"{V}/harness/{run['harness']}"
    defs = tuple("-D" + d for d in run.get("defs", []))
    u = []
    if mode == "bc":
        u.append((h, BCF if not run.get("ub_in_harness") else BCREPO, defs))
        u += [(s, BCREPO, ()) for s in srcs_of(run)]
        u += [(f"{V}/models/model_{m}.cc", BCF, ()) for m in run.get("models", MODELS)]
    elif mode == "tsan":  # the models are not instrumented: races in them are not the repository's
        u.append((h, TSAN + ["-fsanitize=thread"], defs))
        u += [(s, TSAN + ["-fsanitize=thread"], ()) for s in srcs_of(run)]
        u += [(f"{V}/models/model_{m}.cc", TSAN, ()) for m in run.get("models", NATMODELS) if m in NATMODELS]
        u.append((f"{V}/models/sym_native.cc", TSAN, ()))
    else:
        f = {"nat": NATF, "san": SANF, "val": VALF}[mode]
        u.append((h, f, defs))
        u += [(s, f, ()) for s in srcs_of(run)]
        u += [(f"{V}/models/model_{m}.cc", f, ()) for m in run.get("models", NATMODELS) if m in NATMODELS]
        u.append((f"{V}/models/sym_native.cc", f, ()))
    return u


def build(run, mode, pool):
    futs = [pool.submit(compile1, *u) for u in units(run, mode)]
    objs = []
    for f in futs:
        o, err = f.result()
        if err:
            raise RuntimeError("does not compile: " + err)
        objs.append(o)
    if mode == "bc":
        return objs
    key = sha(objs, mode)
    exe = f"{CACHE}/{key}.exe"
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.{os.urandom(6).hex()}"
        f = ["-fsanitize=address,undefined"] if mode == "san" else ["-fsanitize=thread"] if mode == "tsan" else []
        r = subprocess.run(["clang++-18", *f, *objs, *LIBS, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("does not link: " + r.stderr[-1500:])
        os.rename(tmp, exe)
    return exe


def replay(exe, inp, timeout=20, pre=(), env=None, keep=6000):
    e = dict(os.environ, SYM_INPUT=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=1", UBSAN_OPTIONS="print_stacktrace=1")
    e.update(env or {})
    try:
        r = subprocess.run([*pre, exe], capture_output=True, text=True, errors="replace", timeout=timeout, env=e)
        return r.returncode, r.stdout[-3000:] + r.stderr[-keep:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


def confirm(run, vfile, pool):
    """Does the counterexample fail against the native build?"""
    head = dict(l.rstrip("\n").split(" ", 1) for l in open(vfile) if l.startswith(("kind ", "label ")))
    kind, label = head.get("kind", ""), head.get("label", "")
    if kind == "race":
        rc, out = replay(build(run, "tsan", pool), vfile, 60, env={"TSAN_OPTIONS": "exitcode=0:halt_on_error=0"}, keep=1 << 20)
        return kind, label, any(REPO + "/" in b or "google::jwt_verify::" in b for b in out.split("WARNING: ThreadSanitizer: data race")[1:]), out
    exe = build(run, "san", pool)
    rc, out = replay(exe, vfile)
    if rc == 42:
        return kind, label, True, out
    if kind == "hang":
        return kind, label, rc == "timeout", out
    if rc == "timeout":
        return kind, label, kind not in ("property", "leak"), out
    if rc not in (0, 77, 78, 79) :
        return kind, label, True, out  # sanitizer report, assertion, uncaught exception
    # reads of uninitialised memory
    if kind == "uninit" or kind == "property":
        val = build(run, "val", pool)
        rc, out2 = replay(val, vfile, 120, ["valgrind", "--quiet", "--error-exitcode=99"])
        if rc not in (0, 77, 78, 79):
            return kind, label, True, out2
    return kind, label, False, out


def squeeze(path):
    """The inputs of a path: name=value, runs of one name as a list."""
    seq = []
    for l in open(path):
        w = l.split()
        if len(w) == 4 and w[0] == "in":
            v = w[3] if w[2] != "8" or not (32 < int(w[3]) < 127) else repr(chr(int(w[3])))
            if seq and seq[-1][0] == w[1]:
                seq[-1][1].append(v)
            else:
                seq.append((w[1], [v]))
    return [f"{n}={' '.join(v[:24])}" + (f" ... ({len(v)})" if len(v) > 24 else "") for n, v in seq][:60]


def known():
    p = f"{V}/known_findings.txt"
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) label=\"([^\"]*)\" (.*)", l)
            if m:
                res.append(m.groups())
    return res


def warm():
    pool = ThreadPoolExecutor(max_workers=os.cpu_count() or 4)
    seen = {}
    for spec in C.CHECKS.values():
        for run in spec["quick"] + spec.get("thorough", []):
            for m in ("bc", "nat"):
                for u in units(run, m):
                    k = (u[0], str(u[1]), u[2])
                    if k not in seen:
                        seen[k] = pool.submit(compile1, *u)
    for k, f in seen.items():
        if f.result()[1]:
            print(f.result()[1])
    runs = {(r["harness"], tuple(r.get("defs", []))): r for spec in C.CHECKS.values() for r in spec["quick"]}
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as p2:
        for f in [p2.submit(build, r, "nat", pool) for r in runs.values()]:
            try:
                f.result()
            except RuntimeError as e:
                print(e)
    print("warmed", len(seen), "compilations")
    return 0


def main():
    if sys.argv[1] == "--warm":
        return warm()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = C.CHECKS[prop]
    runs = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"])
    ncpu = os.cpu_count() or 4
    pool = ThreadPoolExecutor(max_workers=max(4, ncpu))
    work = f"{V}/build/run/{prop}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tot = dict(paths=0, forks=0, instructions=0, queries=0, solver_calls=0, sat=0, unsat=0, unknown=0, fp_calls=0, solver_s=0.0)
    reach, fns, lines, samples, bounds, runsum = {}, set(), {}, [], [], []
    validated = crossn = 0
    problems, confirmed, knownhit = [], [], []
    kn = [k for k in known() if k[0] == prop]
    # start every compilation now
    pre = {}
    for run in runs:
        for m in ("bc", "nat"):
            for u in units(run, m):
                if (u[0], str(u[1]), u[2]) not in pre:
                    pre[(u[0], str(u[1]), u[2])] = pool.submit(compile1, *u)
    for i, run in enumerate(runs):
        out = f"{work}/{i}"
        os.makedirs(out)
        try:
            bcs = build(run, "bc", pool)
        except RuntimeError as e:
            problems.append(str(e))
            continue
        limit = run.get("time", 600 if tier == "quick" else 3600)
        cmd = [f"{V}/build/jsym", "--out", out, "--workers", str(run.get("workers", ncpu)), "--time", str(limit), "--repo", REPO + "/",
               "--samples", str(run.get("samples", 6 if tier == "quick" else 24)), "--max-inst", str(run.get("max_inst", 3000000)),
               "--max-violations", "12" if kn else "1"]
        cross = run.get("cross", 0 if tier == "quick" else 50)
        if cross:
            cmd += ["--cross", str(cross)]
        r = subprocess.run(cmd + bcs, capture_output=True, text=True)
        if not os.path.exists(f"{out}/result.json"):
            problems.append(f"engine failed rc={r.returncode}: {r.stderr[-600:]}")
            continue
        res = json.load(open(f"{out}/result.json"))
        for k in tot:
            tot[k] += res.get(k, 0)
        for k, n in res["reach"].items():
            reach[k] = reach.get(k, 0) + n
        fns.update(res["repo_functions"])
        for f, l in res["lines"].items():
            f = f.replace(REPO + "/", "")
            a = lines.setdefault(f, [set(), l["total"]])
            miss = set(l["missed"])
            a[0] = miss if a[0] == set() and "seen" not in a else a[0] & miss
            if "seen" not in a:
                a.append("seen")
        bounds.append(run.get("bounds", ""))
        runsum.append({"harness": run["harness"], "defs": run.get("defs", []), "paths": res["paths"], "queries": res["queries"],
                       "solver_s": round(res["solver_s"], 2), "explore_s": round(res["explore_s"], 2), "reach": res["reach"], "max_depth": res["max_depth"]})
        if res["inconclusive"]:
            problems.append("not decided: " + "; ".join(res["inconclusive_msgs"])[:1500])
        # counterexamples
        for vf in sorted(f for f in os.listdir(out) if f.startswith("violation-")):
            try:
                kind, label, ok, log = confirm(run, f"{out}/{vf}", pool)
            except RuntimeError as e:
                problems.append(str(e))
                continue
            k = [x for x in kn if x[1] == label]
            if ok and k:
                knownhit.append(k[0])
                continue
            rd = f"{V}/build/replay/{prop}"
            os.makedirs(rd, exist_ok=True)
            dst = f"{rd}/{tier}-{i}-{vf}"
            shutil.copy(f"{out}/{vf}", dst)
            with open(dst, "a") as f:
                f.write(f"\n# replay: harness {run['harness']} {run.get('defs', [])}; native outcome:\n" + "".join("# " + l + "\n" for l in log.splitlines()[-60:]))
            if ok:
                confirmed.append((dst, kind, label))
            else:
                problems.append(f"counterexample not reproduced natively: {kind} {label} ({dst})\n{log[-400:]}")
        # vacuity
        need = run.get("reach", [])
        miss = [l for l in need if not res["reach"].get(l)]
        if miss and not res["violations"] and not res["inconclusive"]:
            problems.append("vacuous: never reached " + ", ".join(miss))
        # translator validation: sampled paths re-executed natively
        if not res["violations"] and run.get("validate", True):
            try:
                exe = build(run, "nat", pool)
                sf = sorted(f for f in os.listdir(out) if f.startswith("sample-"))
                for f, (rc, log) in zip(sf, pool.map(lambda f: replay(exe, f"{out}/{f}"), sf)):
                    if rc == 0:
                        validated += 1
                        if len(samples) < 6:
                            samples.append({"harness": run["harness"], "inputs": squeeze(f"{out}/{f}")})
                    else:
                        problems.append(f"path replays differently natively ({f}, rc {rc}): {log[-500:]}")
                        shutil.copy(f"{out}/{f}", f"{V}/build/bad-{prop}-{i}-{f}")
            except RuntimeError as e:
                problems.append(str(e))
        # second solver
        if cross:
            qs = [f for f in os.listdir(out) if f.endswith(".smt2")][:200]

            def second(f):
                try:
                    o = subprocess.run(["cvc5", "--tlimit=20000", f"{out}/{f}"], capture_output=True, text=True, timeout=40).stdout.split()
                except subprocess.TimeoutExpired:
                    return None
                a = o[0] if o else ""
                want = "sat" if ".sat." in f else "unsat"
                return None if a not in ("sat", "unsat") else a == want
            for f, v in zip(qs, pool.map(second, qs)):
                if v is True:
                    crossn += 1
                elif v is False:
                    shutil.copy(f"{out}/{f}", f"{V}/build/cross-{prop}-{f}")
                    problems.append(f"solvers disagree on {f}")
        if confirmed:
            break
    shutil.rmtree(work, ignore_errors=True)
    cov = {
        "states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
        "samples": samples[:4],
        "functions_encoded": sorted(fns), "bounds": [b for b in dict.fromkeys(bounds) if b],
        "outside_bounds": spec.get("outside", ""),
        "ir_instructions_executed": tot["instructions"], "queries_discharged": tot["queries"], "solver_calls": tot["solver_calls"],
        "solver_sat": tot["sat"], "solver_unsat": tot["unsat"], "solver_unknown": tot["unknown"], "floating_point_queries": tot["fp_calls"],
        "solver_s": round(tot["solver_s"], 3), "second_solver_agreed": crossn,
        "reached": reach, "runs": runsum,
        "repo_lines_never_executed": {f: sorted(a[0])[:80] for f, a in lines.items() if f in spec.get("files", [])},
        "problems": problems, "states_are": "fully explored symbolic paths", "transitions_are": "solver-feasible forks",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + C.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": len(confirmed)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and cov["functions_encoded"]:
        cov["functions_encoded"] = cov["functions_encoded"][: len(cov["functions_encoded"]) // 2]
        cov["samples"] = cov["samples"][:1]
        cov["repo_lines_never_executed"] = {}
        txt = json.dumps(ev, indent=1)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        f.write(txt + "\n")
    print(f"{prop} {tier}: paths={tot['paths']} queries={tot['queries']} solver={tot['solver_s']:.1f}s validated={validated} cross={crossn} wall={time.time()-T0:.1f}s reach={reach}")
    for k in {x[1]: x for x in knownhit}.values():
        print(f"KNOWN-FINDING: property={prop} {k[1]}: {k[2]}")
    if confirmed:
        for d, kind, label in confirmed:
            print(f"  {kind}: {label}")
            print(f"VIOLATION property={prop} replay={d}")
        return 1
    if problems:
        for p in problems:
            print("PROBLEM", p)
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
