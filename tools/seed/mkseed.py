#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants the bugs of a spec file (list SEEDS of dicts id, property,
file, edits [(old, new)], needs, breaks, demo, cache) in a scratch tree, confirms each (builds, passes the
tests, the demonstration tells it from the original) and writes seeded/<id>."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = "/tmp/seedtree"
HERE = os.path.dirname(os.path.abspath(__file__))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    if not os.path.exists(T + "/_b/build.ninja"):
        sh(f"CC=clang-18 CXX=clang++-18 cmake -S /opt/vp/cmake -B {T}/_b -G Ninja -DREPO={T} -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS_DEBUG='-g -O1'")
        sh(f"rm -rf {T}/_build; ln -s _b {T}/_build")
    r = sh(f"ninja -C {T}/_b")
    return r.returncode == 0, r.stdout[-2000:]
def tests():
    r = sh(f"TEST_SRCDIR=/ TEST_WORKSPACE=repo ctest --test-dir {T}/_b -j8 --timeout 300", timeout=600)
    m = re.search(r"(\d+) tests failed out of (\d+)", r.stdout)
    bad = re.findall(r"- (\S+) \(", r.stdout.split("The following tests FAILED")[-1]) if m and m.group(1) != "0" else []
    return m and m.group(1) == "0" and int(m.group(2)) >= 207, bad[:5] or r.stdout[-200:]
def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    if not os.path.exists(T):
        sh(f"cp -a /repo {T}; rm -rf {T}/_build")
    sh(f"git -C {T} checkout -q -- . ; git -C {T} fetch -q /repo HEAD && git -C {T} checkout -q FETCH_HEAD")
    for s in spec["SEEDS"]:
        if only and s["id"] not in only: continue
        d = f"{V}/seeded/{s['id']}"
        if os.path.exists(d + "/ok") and not only: continue
        sh(f"git -C {T} checkout -q -- .")
        ok, log = build()
        if not ok: print("clean tree does not build", log); return
        os.makedirs(d, exist_ok=True)
        cache = s["file"].startswith("simple_lru")
        inc = "cache.h" if cache else "common.h"
        shutil.copy(f"{HERE}/{inc}", d)
        shutil.copy(f"{HERE}/demo_race.sh" if s.get("race") else f"{HERE}/demo.sh", d + "/demo.sh")
        open(d + "/demo.cc", "w").write(f'#include "{inc}"\n' + s.get("pre", "") + "int main() {\n" + s["demo"].strip("\n") + ("\n  done();" if cache else "\n  return 0;") + "\n}\n")
        r0 = sh(f"bash {d}/demo.sh", cwd=T)
        p = f"{T}/{s['file']}"
        src = open(p).read()
        new = src
        for a, b in s["edits"]:
            if new.count(a) != 1: print(s["id"], "edit matches", new.count(a), "times:", a[:60]); break
            new = new.replace(a, b)
        else:
            open(p, "w").write(new)
            diff = sh(f"git -C {T} diff").stdout
            ok, log = build()
            if not ok: print(s["id"], "does not build:", log[-600:]); shutil.rmtree(d); continue
            t, bad = tests()
            r1 = sh(f"bash {d}/demo.sh", cwd=T)
            good = r0.returncode == 0 and r1.returncode not in (0, 3) and t
            print(s["id"], "OK" if good else "BAD", "| clean", r0.returncode, r0.stdout[-200:], r0.stderr[-300:], "| planted", r1.returncode, r1.stdout[-150:], "| tests", t, "" if t else bad)
            if good:
                open(d + "/patch.diff", "w").write(diff)
                json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            else:
                shutil.rmtree(d)
            continue
        shutil.rmtree(d)
    sh(f"git -C {T} checkout -q -- .")
main()
