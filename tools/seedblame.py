#!/usr/bin/env python3
"""seedblame.py: every line a planted change removes must come from the original repository (commit 411a927)"""
import glob, re, subprocess
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None; bad = []; n = 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-") :
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", f"{n},{n}", "--", f], capture_output=True, text=True).stdout
            if not b.startswith("^411a927"): bad.append((f, n, b[:60]))
            n += 1
        elif l.startswith(" "): n += 1
    if bad: print(p, bad)
