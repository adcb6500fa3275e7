#!/usr/bin/env python3
"""counts.py DIR...: does each patch change a line of the original repository
(one that none of our own /repo commits added)?"""
import re, subprocess, sys
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).decode().split()[0]
root = "a075974"
cache = {}
def added(path):
    if path not in cache:
        out = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "--line-porcelain", root + "..HEAD", "--", path]).decode(errors="replace")
        ours, n, cur = set(), 0, None
        for l in out.splitlines():
            m = re.match(r"^(\^?[0-9a-f]{40}) \d+ (\d+)", l)
            if m: cur, boundary, n = m[1], False, int(m[2])
            elif l == "boundary": boundary = True
            elif l.startswith("\t"):
                if not boundary: ours.add(n)
        cache[path] = (ours, n)
    return cache[path]
for d in sys.argv[1:]:
    # regenerate with no context
    t = open(d + "/patch.diff").read()
    ok = False
    for f in re.split(r"(?m)^diff --git ", t)[1:]:
        path = re.search(r"(?m)^\+\+\+ b/(.*)$", f)[1]
        ours, total = added(path)
        for h in re.split(r"(?m)^(?=@@ )", f)[1:]:
            m = re.match(r"@@ -(\d+)", h); old = int(m[1]); dels = []; ins = False
            def flush():
                global ok
                if dels: ok = ok or any(x not in ours for x in dels)
                elif ins: ok = ok or all(x not in ours for x in (old - 1, old) if 1 <= x <= total)
            for l in h.splitlines()[1:]:
                if l.startswith("-"): dels.append(old); old += 1
                elif l.startswith("+"): ins = ins or l[1:].strip() != ""
                else: flush(); dels, ins = [], False; old += 1
            flush()
    if not ok: print(d, "does not count")
