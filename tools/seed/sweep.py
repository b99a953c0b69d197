#!/usr/bin/env python3
"""sweep.py [IDs]: runs each planted bug's check on a scratch tree with the bug."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = "/tmp/sweeptree"
if not os.path.exists(T): subprocess.run(f"git clone -q /repo {T}", shell=True)
subprocess.run(f"git -C {T} fetch -q /repo HEAD && git -C {T} checkout -qf FETCH_HEAD", shell=True)
tier = "--thorough" if "-t" in sys.argv else "--quick"
for i in [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    subprocess.run(f"git -C {T} checkout -q -- . && git -C {T} apply {V}/seeded/{i}/patch.diff", shell=True, check=True)
    t = time.time()
    r = subprocess.run(["timeout", "900", "python3", V + "/run_check.py", m["property"], tier], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=T))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    caught = r.returncode == 1 and v
    f = V + "/tools/caught.json"
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[i] = m["property"] + (" quick" if tier == "--quick" else " thorough") if caught else "missed"
    json.dump(d, open(f, "w"), indent=0, sort_keys=True)
    print(i, "CAUGHT" if caught else "MISSED", "rc", r.returncode, "%.0fs" % (time.time() - t), "" if caught else (r.stdout + r.stderr)[-300:].replace("\n", " | "), flush=True)
subprocess.run(f"git -C {T} checkout -q -- .", shell=True)
