#!/usr/bin/env python3
"""Development tool: which planted bugs change lines that the repository had before our own commits."""
import glob, re, subprocess, os
BASE = "2f0f02c"
for d in sorted(glob.glob("/verif/seeded/*")):
    f = None; good = bad = 0; added = 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%d,%d" % (n, n), BASE + "..HEAD", "--", f], stdout=subprocess.PIPE).stdout.decode()
            if b.startswith("^" ): good += 1
            else: bad += 1
            n += 1
        elif l.startswith(" "): n += 1
        elif l.startswith("+") and not l.startswith("+++"): added += 1
    if not good or bad: print(os.path.basename(d), "original lines", good, "ours", bad, "added", added)
