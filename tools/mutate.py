#!/usr/bin/env python3
"""mutate.py [--workers N] [--max N] [--seed S] [--files a,b] OUT : a campaign of small syntactic changes to the library.

Every change that builds and passes the tests is judged by the checks (without the design models, which do not depend on the
code). OUT gets one JSON line per change: where, what, and the properties whose check reported it ([] = survived).
Works in copies under /tmp/mut; never touches /repo or /verif.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time

SRC = ["src/aabb.rs", "src/bvh.rs", "src/bvh_node.rs", "src/iter.rs", "src/iter_indices.rs", "src/mbvh_node.rs", "src/morton.rs",
       "src/ray.rs", "src/utils.rs", "src/lib.rs", "src/builders/binned_sah.rs", "src/builders/locb.rs", "src/builders/spatial_sah.rs",
       "src/builders/mod.rs", "rtbvh_ffi/src/lib.rs", "shared/src/lib.rs"]
Q = ["C05", "C06", "C07", "C08", "C09", "C21", "C15"]
BLD = ["C01", "C02", "C17", "C03", "C04", "C12", "C13"]
ORDER = {
    "src/aabb.rs": ["C18", "C24", "C01", "C05", "C21", "C10", "C11", "C22"],
    "src/bvh.rs": ["C16", "C10", "C11", "C08", "C05", "C06", "C23", "C01", "C15", "C07"],
    "src/bvh_node.rs": ["C25", "C05", "C06", "C21", "C08", "C09", "C11", "C16", "C10", "C07"],
    "src/iter.rs": Q, "src/iter_indices.rs": Q,
    "src/mbvh_node.rs": ["C25", "C10", "C05", "C06", "C21", "C08", "C09", "C07", "C23"],
    "src/morton.rs": ["C22", "C01", "C13"],
    "src/ray.rs": ["C20", "C24", "C19", "C05", "C06", "C15"],
    "src/utils.rs": ["C19", "C09", "C05", "C06", "C01", "C18"],
    "src/lib.rs": ["C19", "C18", "C01", "C12"],
    "src/builders/binned_sah.rs": BLD, "src/builders/locb.rs": BLD, "src/builders/spatial_sah.rs": BLD + ["C19"], "src/builders/mod.rs": BLD,
    "shared/src/lib.rs": ["C26"],
    "rtbvh_ffi/src/lib.rs": ["C15", "C14", "C12", "C01"],
}

PAIRS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" & ", " | "), (r" \| ", " & "), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"cmpge", "cmpgt"), (r"cmpgt", "cmpge"),
         (r"cmplt", "cmple"), (r"cmple", "cmplt"), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"_x\b", "_y"), (r"_y\b", "_z"), (r"_z\b", "_x"), (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"),
         (r"\.min\b(?!\()", ".max"), (r"\.max\b(?!\()", ".min"), (r"\bleft", "right"), (r"\bright", "left"), (r"\bmin_", "max_"), (r"\bmax_", "min_"),
         (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\[3\]", "[2]"), (r"\[1\]", "[2]"),
         (r"(?<![\w.\[])(\d+)(?![\w.\]])", "+1"), (r"(?<![\w.\[])(\d+)(?![\w.\]])", "-1"), (r"(\d+\.\d+)", "fl"), (r"!(?=[a-z(])", ""),
         (r"\bt1\b", "t2"), (r"\bt2\b", "t1"), (r"\bi\b", "(i + 1)"), (r"\bcontinue;", "break;"), (r"\.\.=", ".."), (r"<<", ">>"), (r">>", "<<"),
         (r"SeqCst", "Relaxed"), (r"\bgrow_bb\b", "intersection"), (r"\bunion_of\b", "intersection_of"), (r"\bif (?!let)([^{]+) \{$", "if true"),
         (r"\bif (?!let)([^{]+) \{$", "if false"), (r"^(\s+)(?!let|return|use|pub|type|#|}|break|continue)([\w.*\[\]]+.*;)$", "delete")]


def code_lines(text):
    """Line numbers of code outside tests, comments, attributes and other targets' variants"""
    out = []
    ls = text.split("\n")
    skip = None
    for n, l in enumerate(ls):
        if re.match(r'\s*(#\[cfg\()?feature = "wasm_support"', l):
            skip = "start"      # another target's variant of the next statement or block
            depth = 0
            continue
        if skip:
            if l.strip() in ("))]", ")]"):
                continue
            depth += sum(l.count(x) for x in "({[") - sum(l.count(x) for x in ")}]")
            if depth == 0 and re.search(r"[;}]\s*$", l):
                skip = None
            continue
        if re.match(r"\s*#\[cfg\(test\)\]", l) or re.match(r"\s*mod tests", l):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "mod ", "pub mod", "pub use", "impl", "pub trait", "trait ", "///", "where")):
            continue
        if "debug_assert" in s or "assert" in s:
            continue
        out.append(n)
    return out


def mutants(root):
    for f in SRC:
        text = open(os.path.join(root, f)).read()
        ls = text.split("\n")
        for n in code_lines(text):
            l = ls[n]
            for pat, rep in PAIRS:
                for m in re.finditer(pat, l):
                    if "//" in l[:m.start()]:
                        continue
                    if rep == "+1":
                        new = l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
                    elif rep == "-1":
                        if int(m.group(1)) == 0:
                            continue
                        new = l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():]
                    elif rep == "fl":
                        v = float(m.group(1))
                        new = l[:m.start()] + ("1.0" if v == 0 else "0.0" if v == 1 else repr(v * 2)) + l[m.end():]
                    elif rep in ("if true", "if false"):
                        new = l[:m.start()] + rep + " {"
                        if rep + " {" in l:
                            continue
                    elif rep == "delete":
                        new = m.group(1)
                    else:
                        new = l[:m.start()] + rep + l[m.end():]
                    if new != l:
                        yield f, n, l, new


WORKER = r'''
import json, os, sys, random
sys.path.insert(0, os.getcwd())
from lib import driver, plan
driver.CPUS = int(sys.argv[1])
driver.STALL = 25
import resource
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
driver.limits = limits
res = []
try:
    driver.build_harness()
except driver.ToolError as e:
    print("RESULT nobuild"); sys.exit(0)
stop = sys.argv[3] == "1"
build = driver.build_harness
driver.build_harness = lambda: True
tlc = driver.tlc
def tlc2(module, cfg, d, trace=None, limit=600, workers=None, args=()):
    return tlc(module, cfg, d, trace, 240, workers or driver.CPUS, args)
driver.tlc = tlc2
def sc(tla, cfg, d, limit=300):
    f = "/tmp/mut/%s.json" % cfg
    if os.path.exists(f):
        return json.load(open(f)), {"distinct": 0, "gen": 0}
    x, r = scen(tla, cfg, d, limit)
    json.dump(x, open(f + str(os.getpid()), "w")); os.rename(f + str(os.getpid()), f)
    return x, r
scen = driver.scenarios
driver.scenarios = sc
for p in sys.argv[2].split(","):
    plan.PLANS[p]["models"] = []
    try:
        rc = driver.check(p, "quick", 1)
    except driver.ToolError as e:
        rc = 2
        print("TOOL", p, str(e)[:300])
    except Exception as e:
        rc = 3
        print("EXC", p, repr(e)[:300])
    if rc:
        res.append(p if rc == 1 else p + "?")
        if rc == 1 and stop: break
print("RESULT " + ",".join(res))
'''


def sh(c, cwd, t, env=None):
    p = subprocess.Popen(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTFLAGS="-Awarnings")
    e.pop("CARGO_TARGET_DIR", None)
    return e


FROM = os.environ.get("MUT_SRC", "/repo")


def setup(w):
    d = "/tmp/mut/w%d" % w
    if os.path.exists(d + "/ready"):
        sh("git checkout -q -- . ; git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD" % FROM, d + "/repo", 60)
        sh("rsync -a --delete --exclude work --exclude harness/target --exclude seeded --exclude .git /verif/ %s/verif/ || (cp -r /verif/lib /verif/spec /verif/run.py %s/verif/; cp -r /verif/harness/src %s/verif/harness/)" % (d, d, d), "/tmp", 600)
    else:
        os.makedirs(d)
        sh("cp -a " + FROM + " %s/repo; mkdir %s/verif; cp -a /verif/lib /verif/spec /verif/run.py /verif/known_findings.txt %s/verif/; mkdir %s/verif/evidence; cp -a /verif/harness %s/verif/harness" % (d, d, d, d, d), "/tmp", 900)
        open(d + "/ready", "w").close()
    for f in ("Cargo.toml", "ffi_shim/Cargo.toml"):
        p = d + "/verif/harness/" + f
        s = open(p).read().replace('"/repo', '"%s/repo' % d)
        open(p, "w").write(s)
    open(d + "/verif/one.py", "w").write(WORKER)
    return d


def one(d, f, n, old, new, cpus, full):
    p = os.path.join(d, "repo", f)
    text = open(p).read()
    ls = text.split("\n")
    assert ls[n] == old
    ls[n] = new
    open(p, "w").write("\n".join(ls))
    try:
        e = env()
        rc, out = sh("ulimit -v 16000000; cargo test --workspace --lib --offline -- --test-threads 4 && cd rtbvh_ffi && cargo test --offline -- --test-threads 4", d + "/repo", 120, e)
        if rc:
            return "nobuild" if "could not compile" in out else "tests"
        rc, out = sh("python3 one.py %d %s %d" % (cpus, ",".join(full), 0 if ARGS.all else 1), d + "/verif", 1500)
        sh("pkill -9 -f ^%s/" % d, "/tmp", 10)
        m = re.search(r"RESULT (.*)", out)
        tools = re.findall(r"^(?:TOOL|EXC).*", out, re.M)
        if not m:
            return ["!! " + out[-300:]]
        if m.group(1) == "nobuild":
            return "noharness"
        return [x for x in m.group(1).split(",") if x] + tools
    finally:
        open(p, "w").write(text)


def main():
    global ARGS
    a = argparse.ArgumentParser()
    a.add_argument("--workers", type=int, default=4)
    a.add_argument("--max", type=int, default=10**9)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--files", default="")
    a.add_argument("--all", action="store_true")
    a.add_argument("--again", default="", help="a former OUT: only its survivors")
    a.add_argument("--hours", type=float, default=12)
    a.add_argument("out")
    ARGS = a.parse_args()
    os.makedirs("/tmp/mut", exist_ok=True)
    if ARGS.again:
        todo = []
        for l in open(ARGS.again):
            x = json.loads(l)
            if isinstance(x["r"], list) and not [p for p in x["r"] if re.fullmatch(r"C\d\d", p)]:
                todo.append((x["f"], x["n"], x["old"], x["new"]))
    else:
        todo = list(mutants("/repo"))
        if ARGS.files:
            todo = [t for t in todo if any(x in t[0] for x in ARGS.files.split(","))]
    random.Random(ARGS.seed).shuffle(todo)
    todo = todo[:ARGS.max]
    done = set()
    if os.path.exists(ARGS.out):
        for l in open(ARGS.out):
            x = json.loads(l)
            done.add((x["f"], x["n"], x["new"]))
    todo = [t for t in todo if (t[0], t[1], t[3]) not in done]
    print(len(todo), "changes")
    lock = threading.Lock()
    end = time.time() + 3600 * ARGS.hours

    def work(w):
        d = setup(w)
        while time.time() < end:
            with lock:
                if not todo:
                    return
                t = todo.pop(0)
            t0 = time.time()
            try:
                r = one(d, *t, cpus=max(2, 8 // ARGS.workers), full=ORDER[t[0]])
            except Exception as e:
                r = ["!! " + repr(e)]
            with lock:
                with open(ARGS.out, "a") as g:
                    g.write(json.dumps({"f": t[0], "n": t[1], "old": t[2], "new": t[3], "r": r, "s": round(time.time() - t0, 1)}) + "\n")
    th = [threading.Thread(target=work, args=(w,)) for w in range(ARGS.workers)]
    [x.start() for x in th]
    [x.join() for x in th]


if __name__ == "__main__":
    main()
