#!/usr/bin/env python3
"""corrupt.py [SEED [N]] : does the specification notice when a recording is changed?

Records small sessions of the library, changes one number in one event of each, and lets TLC judge them (all properties at
once). Prints, per kind of event and field, how many of the changes were rejected. Inputs of an operation (scene, rays,
parameters) may be changed without being noticed; results may not, except where the specification leaves them free.
"""
import collections, copy, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import driver, gen as g, plan

seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
N = int(sys.argv[2]) if len(sys.argv) > 2 else 3000
r = random.Random(seed)
D = "/tmp/corrupt"
os.makedirs(D, exist_ok=True)
driver.build_harness()
small = lambda cs: [c for c in cs if len(c["tris"]) <= 20]
cases = (small(g.g_build(r, 40, 0))[:20] + small(g.g_own(r, 20, 0))[:10] + small(g.g_invalid(r, 20))[:10] + small(g.g_query(r, 30, "rp", plan.MORE, big=0))[:20]
         + small(g.g_proto(r, 30))[:15] + small(g.g_wide(r, 20, 5, 0))[:15] + small(g.g_refit(r, 30, 0))[:15] + small(g.g_validate(r, 20))[:10]
         + small(g.g_serde(r, 20))[:10] + small(g.g_cbuild(r, 20))[:12] + small(g.g_skip(r, 20))[:10] + g.g_box(r, 15) + g.g_tri(r, 15) + g.g_rays(r, 15) + g.g_morton(r, 15))
for i, c in enumerate(cases):
    c["id"] = str(i)
files, deaths = driver.run_cases(cases, D)
recs = [json.loads(l) for f in files for l in open(f)]


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, (int, str)):
        yield path


# What an operation was given
GIVEN = {"via", "n", "b", "bb", "leaf", "pad", "m", "on", "kind", "api", "con", "rays", "tris", "plen", "lim", "cnt", "cuts", "must", "al", "hasfresh", "stopped"}
bad, info, what = [], {}, {}
by = collections.defaultdict(list)
for x in recs:
    for k, e in enumerate(x["evs"]):
        if e["e"] in ("panic", "crash", "scene", "synth"):
            continue
        fields = collections.defaultdict(list)
        for p in leaves(e):
            if p[0] != "e" and p[0] not in GIVEN and (e["e"] not in ("box", "tri", "rays", "morton") or p[0] == "out"):
                fields[p[0]].append(p)
        for f in fields:
            by[(e["e"] + (":" + e.get("via", "") if e["e"] == "build" else ""), f)].append((x, k, fields[f]))
per = max(1, N // len(by))
n = 0
for key, l in sorted(by.items()):
    for _ in range(per):
        x, k, ps = r.choice(l)
        p = r.choice(ps)
        y = copy.deepcopy(x)
        t = y["evs"][k]
        for s in p[:-1]:
            t = t[s]
        v = t[p[-1]]
        if isinstance(v, str):
            t[p[-1]] = v + "x"
        elif abs(v) < 1000:
            t[p[-1]] = v + r.choice([1, -1]) if v not in (0, 1) or r.random() < 0.3 else 1 - v
        else:
            t[p[-1]] = v + r.choice([200, -200, 1 << 20, -(1 << 20), -2 * v])
        y["id"] = "m%d" % n
        # what comes later was recorded after the real event
        y["evs"] = y["evs"][:k + 1]
        info[y["id"]] = key
        what[y["id"]] = (p, v, t[p[-1]])
        n += 1
        bad.append(json.dumps(y) + "\n")
ALL = "{%s}" % ", ".join('"C%02d"' % i for i in range(1, 25))


errs = collections.Counter()


def judge(ls):
    if not ls:
        return set()
    p = os.path.join(D, "c.trace")
    open(p, "w").writelines(ls)
    res = driver.tlc("RtTrace.tla", driver.cfg_text({"Props": ALL}), D, p)
    if res["done"]:
        no = {m.group(1) for m in driver.REJECT.finditer(res["out"])}
        if len(ls) == 1 and res["distinct"] != driver.expected_states([json.loads(ls[0])]):
            no.add(json.loads(ls[0])["id"])
        return no
    if len(ls) == 1:
        x = json.loads(ls[0])
        errs[info[x["id"]]] += 1
        if errs[info[x["id"]]] < 3:
            print("error:", info[x["id"]], [l for l in res["out"].split("\n") if l.strip()][-40:], flush=True)
        return {x["id"]}
    m = len(ls) // 2
    return judge(ls[:m]) | judge(ls[m:])


no = set()
groups = collections.defaultdict(list)
for l in bad:
    groups[info[json.loads(l)["id"]]].append(l)
allg = list(groups.values())
for i in range(0, len(allg), 6):
    no |= judge([l for gg in allg[i:i + 6] for l in gg])
tot = collections.Counter(info.values())
rej = collections.Counter(info[i] for i in no)
for k in sorted(tot):
    print("%-14s %-8s %3d of %3d changes rejected" % (k[0], k[1], rej[k], tot[k]))
print("%d of %d" % (sum(rej.values()), n))
if "-v" in sys.argv:
    for i in what:
        if i not in no:
            print("accepted:", info[i], what[i])
