#!/usr/bin/env python3
"""probe.py [--workers N] [--all] FILE [id...] : judge hand-written changes, in copies under /tmp/mut.

FILE defines probes with probe(id, "C01" or "C01,C05", [(file, old, new[, nth])]); a result line names the properties whose checks
report the change (with --all, all 26 are tried; otherwise the named ones, all of them).
"""
import argparse, importlib.util, os, re, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
from mutate import sh, env, setup

PROBES = []


def probe(id, props, edits):
    PROBES.append((id, props, edits))


def edit(d, edits):
    for f, old, new, *rest in edits:
        p = os.path.join(d, "repo", f)
        s = open(p).read()
        if rest:
            parts = s.split(old)
            assert len(parts) > rest[0] + 1, (f, len(parts), old)
            s = old.join(parts[:rest[0] + 1]) + new + old.join(parts[rest[0] + 1:])
        else:
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)


def one(d, edits, props, cpus):
    try:
        edit(d, edits)
        rc, out = sh("ulimit -v 16000000; cargo test --workspace --lib --offline -- --test-threads 4 && cd rtbvh_ffi && cargo test --offline -- --test-threads 4", d + "/repo", 240, env())
        if rc:
            return "DOES NOT BUILD " + out[-600:] if "could not compile" in out else "TESTS FAIL"
        rc, out = sh("python3 one.py %d %s 0" % (cpus, props), d + "/verif", 3000)
        sh("pkill -9 -f ^%s/" % d, "/tmp", 10)
        m = re.search(r"RESULT (.*)", out)
        t = " ".join(re.findall(r"^(?:TOOL|EXC).*", out, re.M))
        return (m.group(1) or "-- missed --") + " " + t if m else "!! " + out[-500:]
    finally:
        sh("git checkout -q -- .", d + "/repo", 30)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--workers", type=int, default=4)
    a.add_argument("--all", action="store_true")
    a.add_argument("file")
    a.add_argument("ids", nargs="*")
    g = a.parse_args()
    names = dict(S="src/builders/spatial_sah.rs", BI="src/builders/binned_sah.rs", L="src/builders/locb.rs", M="src/mbvh_node.rs", A="src/aabb.rs",
                 B="src/bvh.rs", N="src/bvh_node.rs", IT="src/iter.rs", IX="src/iter_indices.rs", F="rtbvh_ffi/src/lib.rs", MO="src/morton.rs",
                 R="src/ray.rs", U="src/utils.rs", LIB="src/lib.rs", probe=probe)
    exec(open(g.file).read(), names)
    todo = [p for p in PROBES if not g.ids or p[0] in g.ids]
    lock = threading.Lock()
    os.makedirs("/tmp/mut", exist_ok=True)

    def work(w):
        d = setup(w)
        while True:
            with lock:
                if not todo:
                    return
                id, props, edits = todo.pop(0)
            t = time.time()
            if g.all:
                props = ",".join(props.split(",") + [q for q in ("C%02d" % k for k in range(1, 27)) if q not in props])
            try:
                r = one(d, edits, props, max(2, 8 // g.workers))
            except Exception as e:
                r = "!! " + repr(e)
            with lock:
                print("%-22s %-12s %s (%d s)" % (id, props if not g.all else "", r, time.time() - t))
                sys.stdout.flush()
    th = [threading.Thread(target=work, args=(w,)) for w in range(g.workers)]
    [x.start() for x in th]
    [x.join() for x in th]


if __name__ == "__main__":
    main()
