"""apply.py TREE SET: rewrites TREE the way SET.py says (edits that keep the behaviour)."""
import os, sys
T, name = sys.argv[1:3]
ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py")).read(), ns)
for f, edits in ns["E"].items():
    p = f"{T}/{f}"
    s = open(p).read()
    for a, b in edits:
        if isinstance(a, tuple):  # from .. to (exclusive)
            i = s.index(a[0])
            s = s[:i] + b + s[s.index(a[1], i):]
        else:
            assert s.count(a) == 1, (f, s.count(a), a[:80])
            s = s.replace(a, b)
    open(p, "w").write(s)
