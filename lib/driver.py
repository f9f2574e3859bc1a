"""Runs scenarios through the harness and the recorded sessions through TLC."""
import collections
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import time

from lib import plan

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(HARNESS, "target")
WORK = os.path.join(ROOT, "work")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, os.cpu_count() or 8)
TICK = 0.02
STALL = 45          # seconds without a finished case: a hang


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ building

def build_harness():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
    env.pop("RUSTC_WRAPPER", None)
    log = ""
    # The second line: a tree in which the hooks do not build is still judged, without scheduling hooks
    for flags in ("--cfg rtbvh_verif -Awarnings", "-Awarnings"):
        env["RUSTFLAGS"] = flags
        p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return "--cfg" in flags
        log = p.stdout
    raise ToolError("the harness does not build:\n" + log[-3000:])


def binary():
    return os.path.join(TARGET, "release", "harness")


# ------------------------------------------------------------------ running the library

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))


def lines(path):
    if not os.path.exists(path):
        return 0
    n = 0
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            n += b.count(b"\n")
    return n


def cut_partial(path):
    """Drops an unfinished last line"""
    if not os.path.exists(path):
        return
    with open(path, "rb+") as f:
        d = f.read()
        if d and not d.endswith(b"\n"):
            f.truncate(d.rfind(b"\n") + 1)


def start(cases, trace, first):
    # Its messages go to a file: nobody reads a pipe while it runs
    with open(trace + ".err", "w") as err:
        return subprocess.Popen([binary(), cases, trace, str(first)], stdout=subprocess.DEVNULL, stderr=err,
                                preexec_fn=limits, start_new_session=True,
                                env=dict(os.environ, RAYON_NUM_THREADS=os.environ.get("RAYON_NUM_THREADS", "8"), RUST_BACKTRACE="0", MALLOC_ARENA_MAX="4"))


def said(trace):
    try:
        with open(trace + ".err", errors="replace") as f:
            return f.read()[-1000:]
    except OSError:
        return ""


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def run_once(case, d, limit=STALL):
    """Runs one case alone; its trace line, or None if the process died or hung"""
    c, t = os.path.join(d, "one.cases"), os.path.join(d, "one.trace")
    for x in (c, t):
        if os.path.exists(x):
            os.remove(x)
    with open(c, "w") as f:
        f.write(json.dumps(case) + "\n")
    p = start(c, t, 0)
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        stop(p)
        return None, "hang"
    if p.returncode == 70:
        raise ToolError("harness: " + said(t))
    if p.returncode == 0:
        with open(t) as f:
            return f.readline(), ""
    return None, "exit %s" % p.returncode


def died(case, how, d, budget):
    """A case the library did not survive: the line recorded up to the operation that killed it"""
    ops = case["ops"]
    lo, hi = 0, len(ops)        # a prefix of lo operations survives; hi: dies
    line = None
    t0 = time.time()
    once, why = run_once(case, d, 20)
    if once is not None:
        # Not reproducible alone: keep what is known
        rec = {x: v for x, v in case.items() if x != "ops"}
        rec["evs"] = [{"e": "crash", "op": "?", "how": how}]
        return json.dumps(rec) + "\n"
    while hi - lo > 1 and time.time() - t0 < budget:
        m = (lo + hi) // 2
        got, w = run_once(dict(case, ops=ops[:m]), d, 20)
        if got is None:
            hi, why = m, w
        else:
            lo, line = m, got
    rec = json.loads(line) if line else dict({x: v for x, v in case.items() if x != "ops"}, evs=[])
    op = ops[hi - 1]["op"] if hi - lo == 1 else "?"
    rec["evs"].append({"e": "crash", "op": op, "how": why})
    return json.dumps(rec) + "\n"


def run_cases(cases, d):
    """Every case through the library; returns the trace files"""
    os.makedirs(d, exist_ok=True)
    order = sorted(range(len(cases)), key=lambda i: -len(cases[i]["tris"]) * max(1, len(cases[i]["ops"])))
    procs = max(1, min(CPUS // 2, len(cases)))
    shards = [[] for _ in range(procs)]
    for j, i in enumerate(order):
        shards[j % procs].append(cases[i])
    run = []
    for s, shard in enumerate(shards):
        c, t = os.path.join(d, "s%d.cases" % s), os.path.join(d, "s%d.trace" % s)
        with open(c, "w") as f:
            for x in shard:
                f.write(json.dumps(x) + "\n")
        run.append({"c": c, "t": t, "shard": shard, "p": start(c, t, 0), "n": 0, "idle": 0, "bytes": 0})
    deaths = hangs = 0
    todo = list(run)
    while todo:
        time.sleep(TICK)
        for r in list(todo):
            rc = r["p"].poll()
            if rc is None:
                size = os.path.getsize(r["t"]) if os.path.exists(r["t"]) else 0
                if size != r["bytes"]:
                    r["bytes"], r["idle"] = size, 0
                    continue
                r["idle"] += TICK
                # Not by the clock: it jumps when the machine was suspended
                if r["idle"] > STALL:
                    stop(r["p"])
                    rc = "hang"
                else:
                    continue
            if rc == 0:
                todo.remove(r)
                continue
            if rc == 70:
                raise ToolError("harness: " + said(r["t"]))
            cut_partial(r["t"])
            at = lines(r["t"])
            deaths += 1
            if at >= len(r["shard"]):
                todo.remove(r)
                continue
            with open(r["t"], "a") as f:
                f.write(died(r["shard"][at], str(rc), d, 60 if deaths < 3 else 15))
            hangs += rc == "hang"
            if hangs >= 2:
                # Enough to report; the rest is left out
                for x in todo:
                    stop(x["p"])
                    cut_partial(x["t"])
                todo = []
                break
            if deaths >= 6:
                # the rest of this shard is left out
                todo.remove(r)
                continue
            r["p"] = start(r["c"], r["t"], at + 1)
            r["idle"] = 0
    return [r["t"] for r in run if os.path.exists(r["t"])], deaths


# ------------------------------------------------------------------ TLC

def cfg_text(consts, extra=""):
    s = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    for n, v in consts.items():
        s += "CONSTANT %s = %s\n" % (n, v)
    return s + extra


def tlc(module, cfg, d, trace=None, limit=600, workers=None, args=()):
    os.makedirs(d, exist_ok=True)
    meta = os.path.join(d, "states")
    shutil.rmtree(meta, ignore_errors=True)
    cf = os.path.join(d, os.path.basename(module)[:-4] + ".cfg")
    with open(cf, "w") as f:
        f.write(cfg)
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    if trace:
        env["TRACE"] = trace
    cmd = ["java", "-Xss256m", "-Xmx10g", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-workers",
           str(workers or CPUS), "-noTE", "-metadir", meta, "-config", cf] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish %s in %d s" % (module, limit))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    res = {"out": out, "rc": p.returncode, "gen": int(m.group(1).replace(",", "")) if m else 0,
           "distinct": int(m.group(2).replace(",", "")) if m else 0, "done": "Model checking completed. No error" in out}
    if "Parse Error" in out or "Semantic errors" in out or "errors while parsing" in out or "Parsing or semantic analysis failed" in out:
        raise ToolError("TLC cannot read %s: %s" % (module, out[-600:]))
    if "OutOfMemoryError" in out:
        raise ToolError("TLC ran out of memory")
    if not res["done"] and not m and "Error:" not in out:
        raise ToolError("TLC: " + out[-1500:])
    return res


# PrintT breaks long tuples over several lines
REJECT = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}\s*>>')
ACCEPT = re.compile(r'<<\s*"ACCEPT",\s*"([^"]*)",\s*(\d+)\s*>>')


def expected_states(recs):
    n = 0
    for r in recs:
        n += 1
        for e in r["evs"]:
            n += len(e["y"]) + 2 if e["e"] == "q" else len(e["got"]) + 2 if e["e"] == "many" else 1
    return n


def judge(path, prop, d, kind):
    """One trace file through the specification: rejections [(case, event, props)], states, transitions"""
    with open(path) as f:
        text = [l for l in f if l.strip()]
    return judge_lines(text, prop, d, kind, path)


def judge_lines(text, prop, d, kind, path=None):
    if not text:
        return [], 0, 0
    if path is None:
        path = os.path.join(d, "part.trace")
        with open(path, "w") as f:
            f.writelines(text)
    recs = [json.loads(l) for l in text]
    if kind == "ffi":
        res = tlc("FfiTrace.tla", cfg_text({}), d, path)
        if res["done"]:
            ok = {(m.group(1), int(m.group(2))) for m in ACCEPT.finditer(res["out"])}
            bad = []
            for r in recs:
                for i, e in enumerate(r["evs"]):
                    if e["e"] not in ("ffi", "crowd", "ledger") or (r["id"], i + 1) not in ok:
                        bad.append((r["id"], i + 1, [prop]))
                        break
            return bad, res["distinct"], res["gen"] - len(recs)
    else:
        res = tlc("RtTrace.tla", cfg_text({"Props": '{"%s"}' % prop}), d, path)
        if res["done"]:
            bad = [(m.group(1), int(m.group(2)), re.findall(r'"(C\d+)"', m.group(3))) for m in REJECT.finditer(res["out"])]
            n = expected_states(recs)
            if res["distinct"] == n:
                return bad, res["distinct"], res["gen"] - len(recs)
            if len(recs) == 1:
                # The machine has no step for what was recorded
                return bad or [(recs[0]["id"], 0, [prop])], res["distinct"], res["gen"]
    if "StackOverflowError" in res["out"] and len(text) == 1:
        raise ToolError("TLC: stack overflow")
    # A record the specification cannot even be evaluated on: find it
    if len(text) == 1:
        if not recs[0]["evs"]:
            raise ToolError("TLC: " + res["out"][-1500:])
        return [(recs[0]["id"], 0, [prop])], 0, 0
    m = len(text) // 2
    a = judge_lines(text[:m], prop, d, kind)
    if a[0]:
        return a            # one suffices
    b = judge_lines(text[m:], prop, d, kind)
    return a[0] + b[0], a[1] + b[1], a[2] + b[2]


# ------------------------------------------------------------------ design models

def run_model(m, d, tier):
    """One TLC run of a design specification; returns what it explored"""
    t0 = time.time()
    with open(os.path.join(SPEC, m["cfg"])) as f:
        cfg = f.read()
    res = tlc(m["tla"], cfg, d, limit=m.get("limit", 300))
    ok = res["done"] if not m.get("breaks") else (m["breaks"] in res["out"])
    if not ok:
        raise ToolError("model %s (%s): %s" % (m["tla"], m["cfg"], res["out"][-1500:]))
    return {"model": m["tla"][:-4], "config": m["cfg"], "states": res["distinct"], "transitions": res["gen"],
            "expected": "violation of " + m["breaks"] if m.get("breaks") else "holds", "wall_s": round(time.time() - t0, 1)}


def scenarios(tla, cfg, d, limit=300):
    """What a specification prints as scenarios: one JSON value per line"""
    with open(os.path.join(SPEC, cfg)) as f:
        text = f.read()
    res = tlc(tla, text, d, limit=limit, workers=1)
    if not res["done"]:
        raise ToolError("model %s (%s): %s" % (tla, cfg, res["out"][-1500:]))
    out = [json.loads(json.loads(l)) for l in res["out"].split("\n") if l[:2] in ('"{', '"[')]
    if not out:
        raise ToolError("model %s (%s) printed no scenarios" % (tla, cfg))
    return sorted(out, key=lambda x: json.dumps(x, sort_keys=True)), res


# ------------------------------------------------------------------ findings

def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def known():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


# ------------------------------------------------------------------ a check

def counts(recs, cov):
    for r in recs:
        for e in r["evs"]:
            n = e["e"]
            if n == "build":
                n = "build:%s%s" % (e["b"], "" if e["via"] == "lib" else ":" + e["via"]) if e["ok"] else "build refused"
            elif n == "q":
                n = "query:%s:%s:%s" % (e["on"], e["kind"], e["api"])
                cov["offers"] += len(e["y"])
            elif n == "qall":
                n = "query:%s:%s:every entry point" % (e["on"], e["kind"])
            elif n == "ffi":
                cov["calls"] += len(e["calls"])
            elif n in ("mbvh", "refit", "serde"):
                n = n + ":" + str(e.get("via", e.get("on", "")))
            cov[n] += 1


def sample(rec):
    s = json.dumps({"id": rec["id"], "tris": rec["tris"][:2], "evs": rec["evs"][:2]})
    return s if len(s) < 1200 else s[:1200] + "..."


def check(prop, tier, seed):
    t0 = time.time()
    p = plan.PLANS[prop]
    d = os.path.join(WORK, prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ev = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    hooks = build_harness()
    built = time.time() - t0
    budget = 600 if tier == "thorough" else 0
    cov = collections.Counter()
    states = trans = traces = deaths = rounds = 0
    bad = []
    samples = []
    keys = set()
    models = []
    for m in p.get("models", []):
        if tier == "thorough" or m.get("quick", True):
            models.append(run_model(m, d, tier))
    told = []
    for m in p.get("runs", []):
        tla, cfg = m["tla"], m["cfg"][1 if tier == "thorough" else 0]
        x, res = scenarios(tla, cfg, d)
        told.append((m, x))
        models.append({"model": tla[:-4], "config": cfg, "states": res["distinct"], "transitions": res["gen"],
                       "scenarios": len(x), "expected": "scenarios to replay"})
    t1 = time.time()        # the time for sessions counts from here
    while True:
        r = random.Random("%s %d %d" % (prop, seed, rounds))
        cases = p["gen"](r, tier, rounds)
        for m, x in told:
            cases += m["make"](r, x, m["count"][1 if tier == "thorough" else 0])
        for i, c in enumerate(cases):
            c["id"] = "%d.%d:%s" % (rounds, i, c["id"])
        files, dd = run_cases(cases, d)
        deaths += dd
        whole = os.path.join(d, "all.trace")
        recs = {}
        with open(whole, "w") as f:
            for x in files:
                with open(x) as g:
                    for l in g:
                        f.write(l)
                        rec = json.loads(l)
                        recs[rec["id"]] = rec
        for x in files:
            os.remove(x)
        counts(recs.values(), cov)
        b, s, tr = judge(whole, prop, d, p.get("kind", "session"))
        states += s
        trans += tr
        traces += len(recs)
        keys |= {digest({k: v for k, v in c.items() if k != "id"}) for c in cases}
        if not samples:
            samples = [sample(x) for x in list(recs.values())[:2]]
        by = {c["id"]: c for c in cases}
        for cid, k, props in b:
            if prop in props:
                bad.append((by[cid], k, recs[cid]))
        rounds += 1
        if bad or tier != "thorough" or time.time() - t1 + (time.time() - t1) / rounds > budget:
            break
    kn = known()
    new = []
    for c, k, rec in bad:
        key = digest([{x: v for x, v in c.items() if x != "id"}, k])
        if (prop, key) in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, key)]))
        else:
            new.append((c, k, rec, key))
    rep = ""
    if new:
        new.sort(key=lambda x: len(x[0]["ops"]) * (1 + len(x[0]["tris"])))
        c, k, rec, key = new[0]
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        rep = os.path.join(WORK, "replay", "%s-%s.json" % (prop, key))
        with open(rep, "w") as f:
            json.dump({"property": prop, "event": k, "rejected": rec["evs"][k - 1] if 0 < k <= len(rec["evs"]) else None,
                       "kind": p.get("kind", "session"), "case": c}, f)
    out = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
           "coverage": {"states": states + sum(m["states"] for m in models), "transitions": trans + sum(m["transitions"] for m in models),
                        "traces_validated_against_impl": traces, "distinct_cases": len(keys), "rounds": rounds,
                        "events": dict(sorted(cov.items())), "deaths": deaths, "scheduling_hooks": hooks,
                        "models": models, "samples": samples},
           "assumptions": plan.ASSUMPTIONS,
           "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    with open(ev, "w") as f:
        json.dump(out, f, indent=1)
    for x in os.listdir(d):
        if x.endswith((".cases", ".trace", ".err")):
            os.remove(os.path.join(d, x))
    print("%s: %d sessions, %d events, %d states, %d rejected; built in %.0f s, %.0f s in all"
          % (prop, traces, sum(cov.values()) - cov["offers"] - cov["calls"], states, len(bad), built, time.time() - t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    build_harness()
    d = os.path.join(WORK, "replaying")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    line, why = run_once(v["case"], d)
    if line is None:
        line = died(v["case"], why, d, 120)
    b, _, _ = judge_lines([line], v["property"], d, v["kind"])
    for cid, k, props in b:
        print("rejected: case %s event %d %s" % (cid, k, props))
    rec = json.loads(line)
    with open(os.path.join(d, "trace.json"), "w") as f:
        json.dump(rec, f)
    print("trace: " + os.path.join(d, "trace.json"))
    if b:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    return 0
