#!/usr/bin/env python3
"""For each planted bug: do the lines it touches come from the original repository?"""
import os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BASE = "6fdf275"
R = "/repo"
orig = set(subprocess.run(["git", "-C", R, "rev-list", BASE], capture_output=True, text=True).stdout.split())
for d in sorted(os.listdir(ROOT + "/seeded")):
    f = None
    res = []
    for l in open(f"{ROOT}/seeded/{d}/patch.diff"):
        if l.startswith("--- "):
            f = l[6:].strip()
        elif l.startswith("+++ "):
            pass
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
            blame = subprocess.run(["git", "-C", R, "blame", "-l", "-s", "--", f], capture_output=True, text=True).stdout.splitlines()
            own = lambda k: k - 1 < len(blame) and blame[k - 1].split()[0].lstrip("^")[:39] not in {o[:39] for o in orig}
        elif l.startswith("-"):
            res.append("own" if own(n) else "orig"); n += 1
        elif l.startswith("+"):
            res.append("add-own" if own(n) or own(n - 1) else "add")
        elif l.startswith(" "):
            n += 1
    c = {k: res.count(k) for k in sorted(set(res))}
    print(("   " if "orig" in c else "?? "), d, c)
