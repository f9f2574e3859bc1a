#!/usr/bin/env python3
"""origin.py [id...] : which planted bugs change lines that /repo's own commits of this work added"""
import glob, os, re, subprocess, sys
R = "/repo"
ROOTC = subprocess.run(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()[0]
for d in sorted(glob.glob("/verif/seeded/*/")):
    i = os.path.basename(d[:-1])
    if sys.argv[1:] and i not in sys.argv[1:]:
        continue
    f, old, tot, orig = None, 0, 0, 0
    for l in open(d + "patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "-C", R, "blame", "-s", "-l", "--root", "-L", "%d,%d" % (old, old), f], stdout=subprocess.PIPE, text=True).stdout
            tot += 1
            orig += b.lstrip("^").startswith(ROOTC[:30])
            old += 1
        elif l.startswith(" "):
            old += 1
    print(i, "%d of %d removed lines original" % (orig, tot), "" if orig else "  <-- none")
