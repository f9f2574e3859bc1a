#!/usr/bin/env python3
"""seed.py [--check] id... : make and confirm seeded bugs"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
R = "/repo"
OUT = "/verif/seeded"

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(b):
    d = os.path.join(OUT, b["id"]); os.makedirs(d, exist_ok=True)
    assert sh("git -C %s status --porcelain" % R).stdout == ""
    try:
        for f, old, new, *rest in b["edits"]:
            p = os.path.join(R, f); s = open(p).read()
            nth = rest[0] if rest else None
            if nth is None:
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                s = s.replace(old, new)
            else:
                parts = s.split(old); assert len(parts) > nth + 1, (b["id"], len(parts))
                s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, "w").write(s)
        diff = sh("git -C %s diff" % R).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        sh("git -C %s checkout -- ." % R)
    shutil.copy(HERE + "/demo.sh", d + "/demo.sh")
    shutil.copy(HERE + "/Cargo.lock" if "shared::" not in b["demo"] else "/verif/harness/Cargo.lock", d + "/Cargo.lock")
    pre = open(HERE + "/prelude.rs").read()
    open(d + "/main.rs", "w").write(pre + "\n" + b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return d

def confirm(b, d):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = sh("bash %s/demo.sh" % d, cwd=R)
    print("  demo on the unchanged tree:", r.returncode, r.stdout[-300:] if r.returncode else "")
    a = sh("git -C %s apply %s/patch.diff" % (R, d)); assert a.returncode == 0, a.stdout
    ok = r.returncode == 0
    try:
        x = sh("bash /opt/vp/build.sh")
        if x.returncode: print("  DOES NOT BUILD", x.stdout[-1500:]); return False
        sh("bash /opt/vp/test.sh /tmp/seed-o.json")
        passed = set(json.load(open("/tmp/seed-o.json"))["passed"])
        if base - passed: print("  TESTS FAIL:", base - passed); return False
        r = sh("bash %s/demo.sh" % d, cwd=R)
        print("  demo with the patch:", r.returncode, r.stdout.strip()[-200:])
        ok = ok and r.returncode not in (0, 8, 9)
        if "--check" in sys.argv:
            c = sh("timeout 900 python3 run.py check %s" % b["property"], cwd="/verif")
            print("  check:", c.returncode, c.stdout.strip()[-400:])
            open("/tmp/seed-results.txt", "a").write("%s %s %d %s\n" % (b["id"], b["property"], c.returncode, "CONFIRMED" if ok else "BAD"))
            if "--all" in sys.argv:
                for k in range(1, 28):
                    p = "C%02d" % k
                    if p == b["property"]: continue
                    c = sh("timeout 900 python3 run.py check %s" % p, cwd="/verif")
                    if c.returncode: print("    also", p, c.returncode)
    finally:
        sh("git -C %s checkout -- ." % R)
    return ok

ids = [a for a in sys.argv[1:] if not a.startswith("--")]
for b in BUGS:
    if ids and b["id"] not in ids: continue
    print(b["id"], b["property"]); sys.stdout.flush()
    d = make(b)
    print("  =>", "CONFIRMED" if confirm(b, d) else "*** NOT CONFIRMED"); sys.stdout.flush()
