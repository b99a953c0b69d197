#!/usr/bin/env python3
"""blame.py ID...: says which planted bugs change only lines of later commits (those do not count)."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
base = "de44269"
for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    f = None; old = 0; mine = []; theirs = 0; adds = 0
    for l in open(f"{V}/seeded/{i}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: old = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-L", f"{old},{old}", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout
            if b.startswith("^") or b.startswith(base): theirs += 1
            else: mine.append((f, old))
            old += 1
        elif l.startswith(" "): old += 1
        elif l.startswith("+") and not l.startswith("+++"): adds += 1
    print(i, "original lines:", theirs, "added:", adds, "own:", mine)
