#!/usr/bin/env python3
"""Runs every quick check (or the IDs given), records wall times in tools/costs.json."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks as C
f = f"{V}/tools/costs.json"
cost = json.load(open(f)) if os.path.exists(f) else {}
for i in sys.argv[1:] or list(C.CHECKS):
    t = time.time()
    r = subprocess.run(["timeout", "900", "python3", V + "/run_check.py", i, "--quick"], capture_output=True, text=True)
    cost[i] = round(time.time() - t)
    print(i, "rc", r.returncode, cost[i], "" if not r.returncode else (r.stdout + r.stderr)[-500:], flush=True)
json.dump(cost, open(f, "w"), indent=0, sort_keys=True)
