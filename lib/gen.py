"""Scenarios per property. Each function returns a list of cases for the harness."""
import math

from lib.scenes import *


def build(b, leaf=0, bb="own", **kw):
    return dict({"op": "build", "b": b, "leaf": leaf, "bb": bb}, **kw)


def q(on, kind, rays, api="idx", con="none", **kw):
    return dict({"op": "q", "on": on, "kind": kind, "rays": rays, "api": api, "con": con}, **kw)


def leaf(r):
    return r.choice([0, 0, 1, 2, 3, 4, 8, r.choice([16, 50, 256, 65536, 65539, 10**6, 2**31 - 1])])


def cleaf(r):
    """Sizes that look small in a narrower type"""
    return r.choice([256, 257, 259, 65536, 65537, 65538, 65540, (1 << 24) + 1, (1 << 30) + 2]) if r.random() < 0.3 else leaf(r)


def sizes(r, k, big=0.15):
    out = []
    for i in range(k):
        if i < 6:
            out.append(i + 1)
        elif r.random() < big:
            out.append(r.choice([64, 100, 150, 200]))
        else:
            out.append(r.choice([2, 3, 4, 5, 6, 8, 16, 24, 32, 33, r.randint(7, 15), r.randint(7, 15), r.randint(7, 20), r.randint(17, 45)]))
    return out


def perturb(r):
    return {"thr": r.choice([0, 1, 2, 8]), "spawn": r.choice([1, 2, 8, 1024]), "perturb": r.choice([0, 0, r.randint(1, 10**6)])}


# ------------------------------------------------------------------ stateless operations

def gbox(r, R=60):
    m = r.random()
    if m < 0.05:
        return []
    a, b = pt(r, R), pt(r, R)
    if m < 0.15:
        return a + b                      # any two corners: often invalid
    if m < 0.25:
        i = r.randrange(3)
        b[i] = a[i]                       # flat
    if m < 0.3:
        b = list(a)                       # a point
    if 0.3 <= m < 0.4:
        a = [r.choice([0, x]) for x in a]
        b = [r.choice([0, x]) for x in b] # corners at the origin
    return [min(x, y) for x, y in zip(a, b)] + [max(x, y) for x, y in zip(a, b)]


def sub_box(r, b):
    """Inside, touching, overlapping or disjoint: boxes sharing coordinates with b"""
    out = []
    for i in range(3):
        c = [b[i], b[i + 3], b[i] - r.randint(0, 3), b[i + 3] + r.randint(0, 3), (b[i] + b[i + 3]) // 2]
        x, y = r.choice(c), r.choice(c)
        out.append((min(x, y), max(x, y)))
    return [x for x, _ in out] + [y for _, y in out]


def near_box_pt(r, b):
    return [r.choice([b[i], b[i + 3], b[i] - 1, b[i + 3] + 1, (b[i] + b[i + 3]) // 2, r.randint(-60, 60)]) for i in range(3)]


def calc_case(r, i, off=True):
    return {"id": "calc%d" % i, "tris": [], "sh": r.choice([0, 0, 1, 2, 4]),
            "off": [r.choice([0, 100, -300, 500]) for _ in range(3)] if off and r.random() < 0.25 else [0, 0, 0], "flt": 0,
            "cen": "centroid", "ops": []}


def wild_boxes(r, i):
    """Boxes of any floats"""
    def wk(x):
        return 2147483647 if x != x else key(x)

    def num():
        m = r.random()
        if m < 0.04:
            return float("nan")
        if m < 0.12:
            return r.choice([float("inf"), -float("inf"), 3e38, -3e38, 1e34, -1e34])
        if m < 0.3:
            return r.choice([0.0, 0.0, 1.0, -1.0, 1e-40, -1e-40])
        return r.choice([-1, 1]) * 10.0 ** r.uniform(-20, 36 if r.random() < 0.3 else 4)

    def box():
        a = [num() for _ in range(6)]
        if r.random() < 0.8:
            for j in range(3):
                if a[j] > a[j + 3]:
                    a[j], a[j + 3] = a[j + 3], a[j]
        return [wk(x) for x in a]
    c = calc_case(r, i, off=False)
    c.update(id="wild%d" % i, flt=1, sh=0)
    for _ in range(10):
        a = box()
        p = [wk(num()) for _ in range(3)]
        if r.random() < 0.5:
            p = [r.choice([a[j], a[j + 3], p[j], (a[j] + a[j + 3]) // 2]) for j in range(3)]
        c["ops"].append({"op": "calc", "f": "box", "a": a, "b": box(), "p": p, "d": 0, "list": [box() for _ in range(r.randint(0, 4))],
                         "pts": [[wk(num()) for _ in range(3)] for _ in range(r.randint(0, 5))], "m": []})
    return c


def g_box(r, k):
    out = [wild_boxes(r, i) for i in range(k // 5)]
    for i in range(k):
        c = calc_case(r, i)
        for _ in range(8):
            a = gbox(r)
            b = sub_box(r, a) if a and r.random() < 0.6 else gbox(r)
            o = {"op": "calc", "f": "box", "a": a, "b": b, "p": near_box_pt(r, a) if a else pt(r, 60), "d": r.randint(-5, 20),
                 "list": [gbox(r) for _ in range(r.randint(0, 4))], "pts": [pt(r, 60) for _ in range(r.randint(0, 5))]}
            if r.random() < 0.6:
                m = [r.randint(-4, 4) for _ in range(16)]
                if r.random() < 0.3:
                    m = [0] * 16
                    for j, q in enumerate(r.sample(range(3), 3)):
                        m[4 * j + q] = r.choice([-2, -1, 1, 3])
                m[3] = m[7] = m[11] = 0
                m[15] = 1
                if r.random() < 0.5:
                    for j in (12, 13, 14):
                        m[j] = r.randint(-50, 50)
                o["m"] = m
            else:
                o["m"] = []
            c["ops"].append(o)
        out.append(c)
    return out


def edge_ray(r, t):
    """Towards the border of a triangle"""
    w = r.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (2, 1, 0), (3, 1, 0), (1, 1, 1)])
    s = sum(w)
    p = [sum(w[j] * t[3 * j + i] for j in range(3)) // s for i in range(3)]
    p = [x + r.choice([0, 0, 0, 1, -1]) for x in p]
    d = rdir(r)
    k = r.choice([1, 2, 4, 9])
    return ray([max(-64, min(64, p[i] - k * d[i])) for i in range(3)], d, [r.randrange(2) for _ in range(3)])


def g_tri(r, k):
    out = []
    for i in range(k):
        c = calc_case(r, i, off=r.random() < 0.3)
        for _ in range(10):
            t = tri(r, r.choice([4, 20, 60]), r.choice([2, 6, 30]))
            if r.random() < 0.3:
                t = s_layers(r, 1, 40)[0]
            rs = []
            for _ in range(4):
                q = rand_ray(r, [t]) if r.random() < 0.7 else edge_ray(r, t)
                if r.random() < 0.4:
                    q = with_t(r, q)
                if r.random() < 0.05:
                    q = dict(q, nan=r.randint(1, 6))
                rs.append(q)
            if r.random() < 0.2:
                rs = [rs[0]] * 4
            o = {"op": "calc", "f": "tri", "tri": t, "rays": rs, "tms": []}
            if r.random() < 0.6:
                o["tms"] = [[r.randint(1, 40), r.choice([1, 2, 3])] for _ in range(4)]
                if r.random() < 0.2:
                    o["tms"] = [o["tms"][0]] * 4
            c["ops"].append(o)
        out.append(c)
    return out


def box_ray(r, b):
    p = [r.randint(min(b[i], b[i + 3]), max(b[i], b[i + 3])) if r.random() < 0.8 else r.choice([b[i], b[i + 3], b[i] - 2, b[i + 3] + 2]) for i in range(3)]
    d = rdir(r)
    k = r.choice([0, 1, 1, 2, 5, -3])
    q = ray([max(-64, min(64, p[i] - k * d[i])) for i in range(3)], d, [r.randrange(2) for _ in range(3)])
    return q


def passes(b, q):
    """Where a ray's line enters and leaves a box, as fractions, or nothing"""
    from fractions import Fraction as Fr
    lo, hi = None, None
    for i in range(3):
        if q["d"][i] == 0:
            if not b[i] < q["o"][i] < b[i + 3]:
                return None
            continue
        x, y = sorted([Fr(b[i] - q["o"][i], q["d"][i]), Fr(b[i + 3] - q["o"][i], q["d"][i])])
        lo, hi = x if lo is None else max(lo, x), y if hi is None else min(hi, y)
    return (lo, hi) if lo is not None and lo < hi else None


def g_rays(r, k, nan=True):
    out = []
    for i in range(k):
        c = calc_case(r, i, off=r.random() < 0.3)
        for _ in range(8):
            bs = [gbox(r) for _ in range(4)]
            bs = [b if len(b) == 6 else [-3, -4, -5, 6, 7, 8] for b in bs]
            rs = []
            for _ in range(4):
                q = box_ray(r, r.choice(bs)) if r.random() < 0.7 else ray(pt(r, 60), rdir(r), [r.randrange(2) for _ in range(3)])
                if r.random() < 0.4:
                    q = with_t(r, q)
                if nan and r.random() < 0.03:
                    q = dict(q, nan=r.randint(1, 6))
                rs.append(q)
            if r.random() < 0.2:
                rs = [dict(rs[0], d=[-x for x in rs[0]["d"]]) if j % 2 else rs[0] for j in range(4)]
            mins = [with_tm(r, rs[0])["tm"] for _ in range(3)]
            if r.random() < 0.3:
                # Exactly the distances at which a box is entered or left
                j = r.randrange(4)
                if r.random() < 0.7:
                    rs[j] = dict(rs[j], d=[r.choice([0, 1, -1, 2, -4]) for _ in range(3)])
                    rs[j]["d"] = rs[j]["d"] if any(rs[j]["d"]) else [0, 0, -2]
                w = passes(r.choice(bs), rs[j])
                if w and w[0] > 0 and not rs[j]["nan"]:
                    rs[j] = dict(rs[j], t=[w[0].numerator, w[0].denominator])
                    if r.random() < 0.7:
                        rs = [rs[j] if m == j or not passes(bs[0], x) else dict(x, d=[-v for v in x["d"]]) for m, x in enumerate(rs)]
                if w and w[1] > 0:
                    mins[0] = [w[1].numerator, w[1].denominator]
            n = r.choice([[1, 0, 0], [0, -1, 0], [0, 0, 1], [r.randint(-2, 2) for _ in range(3)]])
            c["ops"].append({"op": "calc", "f": "rays", "rays": rs, "boxes": bs, "lane": r.randrange(4), "t1": [r.randint(1, 90), r.choice([1, 2, 3])],
                             "at": r.randint(-5, 9), "hp": pt(r, 60), "nn": n, "eps": r.choice([0, 1, 4, 16]),
                             "mins": mins})
        out.append(c)
    return out


def g_node(r, k):
    out = []
    for i in range(k):
        c = calc_case(r, i)
        for _ in range(8):
            bs = [gbox(r) for _ in range(4)]
            rs = [box_ray(r, r.choice([b for b in bs if len(b) == 6] or [[-3, -4, -5, 6, 7, 8]])) for _ in range(4)]
            rs = [with_t(r, x) if r.random() < 0.4 else x for x in rs]
            val = lambda: r.choice([-1, 0, 1, r.randrange(100), 255, 256, 65535, 65536, r.randrange(1 << 31), (1 << 31) - 1])
            c["ops"].append({"op": "calc", "f": "node", "how": r.randrange(2), "boxes": bs, "rays": rs,
                             "sets": [[r.randrange(4), val()] for _ in range(r.randint(1, 8))],
                             "puts": [[r.randrange(4), r.randrange(4), r.randrange(2)] for _ in range(r.randint(0, 8))]})
        out.append(c)
    return out


def g_cam(r, k):
    out = []
    for i in range(k):
        c = {"id": "cam%d" % i, "tris": [], "sh": 0, "off": [0, 0, 0], "flt": 0, "cen": "centroid", "ops": []}
        for _ in range(8):
            res = [r.choice([2, 4, 16, 32, 64, 512, 1024]) for _ in range(2)]
            px = [[r.randrange(res[0] + 1), r.randrange(res[1] + 1)] for _ in range(4)]
            px[r.randrange(4)] = [res[0] // 2, res[1] // 2]
            t = tri(r, 20, r.choice([3, 10, 20]))
            c["ops"].append({"op": "calc", "f": "cam", "res": res, "px": px, "pos": pt(r, 10), "p1": pt(r, 10), "right": pt(r, 8), "up": pt(r, 8),
                             "dir": r.choice([[1, 0, 0], [-1, 0, 0], [0, 0, 1], [0, 0, -1]]), "asp": r.choice([1, 1, 2, 3]),
                             "moves": [[0, 0, 0]] + [[r.randint(-5, 5) for _ in range(3)] for _ in range(r.randint(0, 3))],
                             "turn": [r.randint(-6, 6), r.randint(-6, 6), r.randint(-3, 3)], "after": [r.randint(-5, 5) for _ in range(3)], "tri": t, "w": r.choice([1, 0, -3])})
        out.append(c)
    return out


def g_morton(r, k):
    out = []
    for i in range(k):
        c = calc_case(r, i, off=False)
        if r.random() < 0.2:
            c["sh"] = r.choice([8, 11, 14])
        for _ in range(5):
            a = pt(r, 60)
            w = [r.choice([1, 2, 4, 16, 32, 64, 3, 7, 50, 100]) for _ in range(3)]
            if r.random() < 0.1:
                w[r.randrange(3)] = 0
            b = a + [a[j] + w[j] for j in range(3)]
            dim = r.choice([1024, 1024, 512, 256, 64, 8, 2, 1, 1000, 37])
            n = r.choice([1, 2, 5, 20]) if i % 400 else r.choice([600, 1500, 5000])
            pts = [[r.randint(b[j] - 3, b[j + 3] + 3) if r.random() < 0.5 else r.randint(b[j], b[j + 3]) for j in range(3)] for _ in range(n)]
            if r.random() < 0.3:
                pts = [r.choice(pts) for _ in range(n)]
            cells = [[r.choice([r.randrange(1024), 1 << r.randrange(10), 1023]) for _ in range(3)] for _ in range(4)]
            ints = [r.choice([r.randrange(1024), 1 << r.randrange(10)]) for _ in range(6)]
            c["ops"].append({"op": "calc", "f": "morton", "ints": ints, "cells": cells, "box": b, "dim": dim, "pts": pts})
        out.append(c)
    return out


# ------------------------------------------------------------------ histories of the C interface

def g_ffi(r, k):
    out = []
    for i in range(k):
        # Scenes of one group have the same number of primitives: a structure may be refitted from one to another
        groups = []
        scenes = []
        at = []
        for g in range(r.randint(1, 3)):
            n = r.choice([1, 2, 3, 5, 8, 13])
            ids = []
            for _ in range(r.randint(1, 3)):
                sh = [40 * (len(scenes) % 5) - 80, 40 * (len(scenes) // 5), r.randint(-20, 20)]
                t = r.choice([s_random, s_clusters, s_mesh, s_dup])(r, n, 12)
                scenes.append([[v + sh[j % 3] for j, v in enumerate(x)] for x in t])
                ids.append(len(scenes))
                at.append((t, sh))
            groups.append(ids)
        state = {}          # name -> [kind, group, alive]
        nxt = [1]

        def create():
            g = r.choice(groups)
            s = r.choice(g)
            h = nxt[0]
            nxt[0] += 1
            b = r.choice(BUILDERS)
            d = {"c": "create", "h": h, "sc": s, "tris": scenes[s - 1], "b": b, "leaf": r.choice([0, 1, 2, 4]),
                 "bb": "none" if b == "spatial" and r.random() < 0.3 else "own", "cs": r.choice([12, 16])}
            return h, d, ["b", g, True]

        def known(kind=None, alive=None):
            return [h for h, s in state.items() if (kind is None or s[0] == kind) and (alive is None or s[2] == alive)]

        def query(h, s, inner=()):
            t, sh = at[r.choice(s[1]) - 1]
            kind = r.choice("rp")
            rays = [rand_ray(r, t)] if kind == "r" else rand_packet(r, t)
            rays = [dict(x, o=[a + b for a, b in zip(x["o"], sh)]) for x in rays]
            return {"c": "q" if s[0] == "b" else "qw", "h": h, "kind": kind, "rays": rays, "al": r.randint(0, 3),
                    "stop": r.choice([-1, -1, -1, 1, 2]), "inner": list(inner)}

        def step(frozen=(), fresh=None):
            """One call; frozen: handles this thread must not change or read"""
            m = r.random()
            bs = [h for h in known("b") if h not in frozen]
            if m < 0.3 or not bs:
                h, d, s = create()
                (fresh if fresh is not None else state)[h] = s
                return d
            if m < 0.5:
                h = nxt[0]
                nxt[0] += 1
                f = r.choice(known("b", True) or bs)
                if r.random() < 0.1:
                    f = r.choice([900, r.choice(bs)])
                s = ["w", state[f][1], True] if f in state and state[f][2] else None
                if s:
                    (fresh if fresh is not None else state)[h] = s
                return {"c": "wide", "h": h, "from": f}
            if m < 0.75:
                h = r.choice(bs)
                if r.random() < 0.1:
                    return {"c": "refit", "h": 901, "sc": 1, "tris": scenes[0]}
                s = r.choice(state[h][1])
                return {"c": "refit", "h": h, "sc": s, "tris": scenes[s - 1]}
            if m < 0.85:
                h = r.choice(bs + [h for h in known("w") if h not in frozen])
                if r.random() < 0.08:
                    return r.choice([{"c": "free", "h": 902}, {"c": "freew", "h": 903}])
                kind = state[h][0]
                state[h][2] = False
                return {"c": "free" if kind == "b" else "freew", "h": h}
            al = [h for h in known(alive=True) if h not in frozen]
            if not al:
                return {"c": "free", "h": 902}
            h = r.choice(al)
            if r.random() < 0.5 and fresh is None:
                return query(h, state[h], [step(set(frozen) | {h}) for _ in range(r.choice([0, 1, 1, 2]))])
            return {"c": "look" if state[h][0] == "b" else "lookw", "h": h}

        def looks():
            al = known(alive=True)
            r.shuffle(al)
            return [{"c": "look" if state[h][0] == "b" else "lookw", "h": h} for h in al[:6]]

        phases = []
        budget = 22
        while budget > 0:
            m = r.random()
            if m < 0.45:
                n = r.randint(2, 6)
                phases.append([[step() for _ in range(n)]])
                budget -= n
            elif m < 0.7:
                # Several threads, each creating; everything else is frozen
                th = r.randint(2, 4)
                fresh = {}
                ph = []
                old = [h for h in known(alive=True)]
                for _ in range(th):
                    own = []
                    for _ in range(r.randint(1, 2)):
                        if old and r.random() < 0.3:
                            h = r.choice(old)
                            own.append(query(h, state[h]))
                        h, d, s = create()
                        fresh[h] = s
                        own.append(d)
                        if r.random() < 0.4:
                            own.append({"c": "look", "h": h} if r.random() < 0.6 else query(h, s))
                        if r.random() < 0.3:
                            w = nxt[0]
                            nxt[0] += 1
                            fresh[w] = ["w", s[1], True]
                            own += [{"c": "wide", "h": w, "from": h}]
                            if r.random() < 0.5:
                                own += [{"c": "lookw", "h": w}]
                        if r.random() < 0.2:
                            own.append({"c": "free", "h": h})
                            s[2] = False
                    ph.append(own)
                state.update(fresh)
                phases.append(ph)
                budget -= sum(map(len, ph))
            else:
                # Several threads on shared handles: no thread looks at what another one may change
                th = r.randint(2, 3)
                fresh = {}
                ph = []
                for _ in range(th):
                    own = []
                    for _ in range(r.randint(1, 3)):
                        d = step(fresh=fresh)
                        while d["c"] in ("look", "lookw"):
                            d = step(fresh=fresh)
                        own.append(d)
                    ph.append(own)
                # what was made from a handle that somebody freed meanwhile may be empty
                for own in ph:
                    for d in own:
                        if d["c"] == "wide" and d["from"] in state and not state[d["from"]][2]:
                            fresh.get(d["h"], [0, 0, 0])[2] = False
                state.update(fresh)
                phases.append(ph)
                budget -= sum(map(len, ph))
            phases.append([looks()])
        phases.append([looks()])
        out.append({"id": "h%d" % i, "tris": [], "sh": 0, "off": [0, 0, 0], "flt": 0, "cen": r.choice(["centroid", "box"]),
                    "ops": [{"op": "ffi", "scenes": scenes, "phases": [p for p in phases if any(p)]}]})
    return out


def crowds(r, k=1):
    """Very many structures at once. "w" converts, "m" moves, "f" frees the binary structure, "g" the 4-wide one"""
    out = []
    for i in range(k):
        acts = [r.choice(["", "", "m", "f", "w", "wf", "wm", "mw", "mwf", "wg", "wmf", "mwfg", "wmg", "mm"]) for _ in range(r.randint(2, 7))]
        if i % 4 == 0:
            acts = [a if "w" in a else "w" + a for a in acts]
        n = r.choice([66000, 70000]) if i % 2 == 0 else r.choice([129, 255, 256, 257, 300, 1025, 5000, 33000])
        out.append({"id": "crowd%d" % n, "tris": [], "sh": 0, "off": [0, 0, 0], "flt": 0, "cen": "centroid",
                    "ops": [{"op": "crowd", "n": n, "th": r.choice([1, 1, 4]), "shift": r.choice([-1, 1]) * r.choice([2, 4, 1000, 2 * n + 6]), "acts": acts}]})
    return out


def ledger_case(name, via, ns, steps):
    for s in steps:
        s.setdefault("from", -1)
        s.setdefault("k", 0)
    return {"id": name, "tris": [], "sh": 0, "off": [0, 0, 0], "flt": 0, "cen": "centroid",
            "ops": [{"op": "ledger", "via": via, "sizes": ns, "steps": steps}]}


def ledgers(r, k):
    """Histories of calls after each of which the memory in use is looked at"""
    out = []
    for i in range(k):
        via = ["ffi", "lib", "ffi"][i % 3]
        ns = [r.choice([1, 2, 100, 1000, 3000, r.randint(2000, 20000)]) for _ in range(4)]
        ns[0] = r.randint(6000, 20000)
        steps, bs, ws, dead, at = [], [], [], [], 0
        for _ in range(r.randint(20, 60)):
            x = r.random()
            if x < 0.3 or not bs:
                steps.append({"c": "create", "h": at, "k": r.randrange(4), "b": r.choice(BUILDERS + (["left", "right"] if via == "lib" else [])),
                              "own": r.choice([0, 1]) if via == "lib" else 1})
                bs.append(at)
                at += 1
            elif x < 0.5:
                steps.append({"c": "wide", "h": at, "from": r.choice(bs)})
                ws.append(at)
                at += 1
            elif x < 0.58:
                steps.append({"c": "refit", "h": r.choice(bs), "n": r.choice([1, 1, 40])})
            elif x < 0.62:
                steps.append({"c": "cycle", "h": -1, "k": r.choice([30, 60, 100, 200, 500, 1000]), "n": r.randint(60, 200), "b": r.choice(BUILDERS),
                              "own": r.choice([0, 1]) if via == "lib" else 1})
            elif x < 0.71:
                steps.append({"c": "ask", "h": r.choice(bs + ws)})
            elif x < 0.76:
                if dead and r.random() < 0.7:
                    steps.append({"c": "again", "h": r.choice(dead), "a": r.choice(["free", "wide", "refit"])})
                else:
                    steps.append({"c": "empty", "h": -1, "b": r.choice(BUILDERS), "own": r.choice([0, 1])})
            else:
                h = r.choice(bs + ws)
                steps.append({"c": "free", "h": h})
                (bs if h in bs else ws).remove(h)
                dead.append(h)
        rest = bs + ws
        r.shuffle(rest)
        steps += [{"c": "free", "h": h} for h in rest]
        out.append(ledger_case("ledger%d" % i, via, ns, steps))
    return out


def g_ledger_runs(r, runs, k):
    """Call sequences of RegistryRuns.tla, several after each other, with the memory looked at after every call"""
    out = []
    runs = r.sample(runs, min(k, len(runs)))
    for at in range(0, len(runs), 10):
        ns = [r.randint(3000, 6000), 1, 2, r.randint(1, 3000)]
        steps, base = [], 0
        for h in runs[at:at + 10]:
            alive, made = set(), set()
            for c in h:
                me = base + c[1] + (100 if c[0] == "freew" else 0)
                if c[0] == "create":
                    steps.append({"c": "create", "h": me, "k": r.randrange(4), "b": r.choice(BUILDERS), "own": 1})
                    alive.add(me)
                    made.add(me)
                elif c[0] == "wide" and me in alive:
                    w = base + 100 + c[2]
                    steps.append({"c": "wide", "h": w, "from": me})
                    alive.add(w)
                    made.add(w)
                elif c[0] in ("free", "freew", "refit") and me in alive:
                    steps.append({"c": c[0][:4] if c[0] != "refit" else "refit", "h": me})
                    if c[0] != "refit":
                        alive.discard(me)
                elif me in made:
                    steps.append({"c": "again", "h": me, "a": c[0] if c[0] != "freew" else "free"})
            steps += [{"c": "free", "h": x} for x in sorted(alive)]
            base += 1000
        out.append(ledger_case("rooms%d" % at, "ffi", ns, steps))
    return out


# ------------------------------------------------------------------ builds

def bbs(r, b):
    """How the boxes are given: computed by the builder, the primitives' own, or larger ones"""
    m = r.choice(["own", "none", "own", "none", "pad"])
    return {"bb": m, "pad": r.choice([1, 1, 2, 5]) if m == "pad" else 0}


def rnd_build(r, b=None, **kw):
    b = b or r.choice(BUILDERS)
    d = build(b, leaf(r), **bbs(r, b))
    if r.random() < 0.3:
        d["bx"] = r.choice([1, -1, 5, 1000])
    if r.random() < 0.3:
        d.update(perturb(r))
    d.update(kw)
    return d


def case(i, c, ops):
    return dict(c, id=str(i), ops=ops)


def few_threads(n, op):
    """Large builds do not get a thread for every node"""
    if "spawn" in op and n > 200:
        op["spawn"] = max(op["spawn"], n // 40)
    return op


def big_flt(r, i, n, ops, mode=None):
    c = flt_scene(r, n, mode or r.choice(["line", "far", "sphere", "rand", "rand"]))
    if mode in ("extreme", "broken"):
        for o in ops:
            if o.get("bb") == "pad":
                o.update(bb="own", pad=0)
    return case(i, c, [few_threads(n, o) for o in ops])


def g_build(r, k, big=6, broken=True, huge=(12000,)):
    """Every builder on every kind of scene"""
    out = []
    for i in range(k // 10):
        # Without broken, the bounds of spatial SAH's nodes are out of the specification's reach
        m = r.choice(["extreme", "extreme", "broken"]) if broken else "extreme"
        bs = BUILDERS if broken else ["binned", "locb"]
        out.append(big_flt(r, "x%d" % i, r.choice([1, 2, 3, 5, 9, 20, 40, 90]), [rnd_build(r, b) for b in bs], m))
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        ops = [rnd_build(r, b) for b in BUILDERS] + [rnd_build(r) for _ in range(3)]
        out.append(case(i, c, ops))
    for i in range(big):
        n = r.choice([300, 700, 1100, 1500, 2100, 3000, 5000])
        ops = [rnd_build(r, b) for b in BUILDERS]
        out.append(big_flt(r, "big%d" % i, n, ops))
    for n in huge:
        out.append(big_flt(r, "huge", n, [rnd_build(r, b) for b in BUILDERS]))
    for i in range(max(2, big // 2)):
        out.append(big_flt(r, "deep%d" % i, r.choice([30, 60, 90, 150]), [rnd_build(r, b) for b in BUILDERS], "shrink"))
    for i in range(max(2, k // 25)):
        ops = [build(b, r.choice([0, 1, 1, 2, 3]), r.choice(["own", "none"])) for b in (("binned", "spatial", "binned", "locb") if broken else ("binned", "locb"))]
        out.append(big_flt(r, "chain%d" % i, r.choice([150, 300, 300, 400]), ops, "chains"))
    for i in range(max(1, big // 6) if broken else 0):
        out.append(big_flt(r, "tower%d" % i, 1920, [build("spatial", r.choice([0, 1, 1]), r.choice(["own", "none"]))], "tower"))
    return out


def g_own(r, k, big=6):
    """Boxes given and not given"""
    out = []
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        ops = []
        for b in BUILDERS:
            l = leaf(r)
            x = [build(b, l, "own"), build(b, l, "none")]
            if r.random() < 0.4:
                x[1].update(perturb(r))
            if r.random() < 0.5:
                x.append(build(b, l, "none"))
            ops += x
        out.append(case(i, c, ops))
    for i in range(big):
        c = flt_scene(r, r.choice([300, 600, 900, 1500, 4000]), r.choice(["line", "sphere", "rand"]))
        ops = []
        for b in BUILDERS:
            l = leaf(r)
            ops += [build(b, l, "own"), build(b, l, "none")]
        out.append(case("big%d" % i, c, ops))
    for i in range(k // 10):
        ops = []
        for b in BUILDERS:
            l = leaf(r)
            ops += [build(b, l, "own"), build(b, l, "none")]
        out.append(case("wild%d" % i, flt_scene(r, r.choice([1, 2, 3, 5, 9, 20, 40]), "extreme"), ops))
    return out


def g_invalid(r, k):
    out = []
    for i in range(k):
        n = r.choice([0, 1, 2, 3, 5, 9])
        c = scene(r, max(1, n))
        ops = []
        for b in BUILDERS:
            for bb in ("own", "none", "len"):
                d = build(b, leaf(r), bb, n=n)
                if bb == "len":
                    d["m"] = r.choice([0, 1, n, n + 1, max(0, n - 1), 2 * n, n + 16])
                if r.random() < 0.3:
                    d.update(perturb(r))
                ops.append(d)
            for bb in ("own", "none"):
                ops.append(build(b, leaf(r), bb, n=r.choice([0, n]), via="ffi", cs=r.choice([12, 16])))
        r.shuffle(ops)
        out.append(case(i, c, ops))
    out += [wild(r, i, False) for i in range(k // 10)]
    return out


def g_sched(r, k, big=5, reps=4):
    """The same build under different schedules"""
    out = []
    thr = [1, 2, 3, 4, 8, 0]
    for i in range(k + big):
        if i < k:
            n = r.choice([3, 7, 12, 20, 33, 50, 80, 120, r.randint(4, 40)])
            c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        else:
            c = flt_scene(r, r.choice([400, 900, 1600, 3000]), r.choice(["sphere", "rand", "line"]))
        ops = []
        for b in BUILDERS:
            l = leaf(r)
            bb = bbs(r, b)
            base = dict(build(b, l, **bb), thr=1, spawn=100000, perturb=0)
            ops.append(base)
            for j in range(reps):
                ops.append(few_threads(len(c["tris"]), dict(base, thr=r.choice(thr), spawn=r.choice([1, 1, 2, 5]), perturb=r.choice([0, r.randint(1, 10**6), r.randint(1, 10**6)]))))
        out.append(case(i, c, ops))
    return out


# ------------------------------------------------------------------ hand-made trees

def tbox(tris, ids, pad=0):
    lo = [min(tris[i][j] for i in ids for j in range(a, 9, 3)) - pad for a in range(3)]
    hi = [max(tris[i][j] for i in ids for j in range(a, 9, 3)) + pad for a in range(3)]
    return lo + hi


def synth(r, tris, shape="random", order=None, gap=False, per=1, pad=None):
    """A binary tree of the wanted shape over the primitives: nodes as grid boxes, count, first"""
    ids = order or list(range(len(tris)))
    if order is None:
        r.shuffle(ids)
    groups = []
    i = 0
    while i < len(ids):
        n = r.randint(1, per)
        groups.append(ids[i:i + n])
        i += n
    idx = [x for g in groups for x in g]
    starts = [0]
    for g in groups:
        starts.append(starts[-1] + len(g))
    p = r.choice([0, 0, 1]) if pad is None else pad
    nodes = [None]

    def put(at, lo, hi):
        work = [(at, lo, hi)]
        while work:
            at, lo, hi = work.pop()
            b = tbox(tris, [x for g in groups[lo:hi] for x in g], p)
            if hi - lo == 1:
                nodes[at] = b + [len(groups[lo]), starts[lo]]
                continue
            if shape == "left":
                m = hi - 1
            elif shape == "right":
                m = lo + 1
            elif shape == "zig":
                m = lo + 1 if (hi - lo) % 2 else hi - 1
            elif shape == "even":
                m = (lo + hi) // 2
            else:
                m = r.randint(lo + 1, hi - 1)
            f = len(nodes)
            nodes.extend([None, None])
            nodes[at] = b + [-1, f]
            work.append((f, lo, m))
            work.append((f + 1, m, hi))

    put(0, 0, len(groups))
    return {"op": "synth", "nodes": nodes, "idx": idx, "raw": r.choice([0, 0, 1])}


def shapes(n):
    """All binary trees with n leaves"""
    if n == 1:
        return ["x"]
    return [(a, b) for i in range(1, n) for a in shapes(i) for b in shapes(n - i)]


def synth_shape(r, tris, s):
    nodes = [None]
    cnt = [0]
    p = r.choice([0, 1])

    def leaves(t):
        return 1 if t == "x" else leaves(t[0]) + leaves(t[1])

    def put(at, t, lo):
        k = leaves(t)
        b = tbox(tris, range(lo, lo + k), p)
        if t == "x":
            nodes[at] = b + [1, lo]
            return
        f = len(nodes)
        nodes.extend([None, None])
        nodes[at] = b + [-1, f]
        put(f, t[0], lo)
        put(f + 1, t[1], lo + leaves(t[0]))

    put(0, s, 0)
    return {"op": "synth", "nodes": nodes, "idx": list(range(leaves(s))), "raw": r.choice([0, 1])}


def g_wide(r, k, exact=6, big=3):
    """Conversion: all tree shapes with few leaves, shapes of any depth, and built trees"""
    out = []
    for n in range(1, exact + 1):
        for j, s in enumerate(shapes(n)):
            c = scene(r, n, kinds=[s_random, s_clusters, s_line], far=False)
            ops = []
            for v in (["construct", "raw"] if j % 2 else ["from", "raw"]):
                y = synth_shape(r, c["tris"], s)
                y["raw"] = 0 if v == "from" else y["raw"]
                ops += [y, {"op": "mbvh", "via": v}, {"op": "into"}]
            out.append(case("shape%d_%d" % (n, j), c, ops))
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        ops = []
        for b in BUILDERS:
            ops += [rnd_build(r, b), {"op": "mbvh", "via": r.choice(["construct", "from", "raw"])}, {"op": "into"}]
        if c["off"] == [0, 0, 0] or True:
            for sh in r.sample(["left", "right", "zig", "even", "random"], 2):
                ops += [synth(r, c["tris"], sh, per=r.choice([1, 3])), {"op": "mbvh", "via": r.choice(["construct", "raw"])}]
        ops += [rnd_build(r), {"op": "refit", "tris": moved(r, c["tris"]), "pad": 0, "x": 0}, {"op": "mbvh", "via": "construct"}]
        ops += [build(r.choice(BUILDERS), leaf(r), via="ffi", cs=12), {"op": "mbvh", "via": "ffi"}]
        out.append(case(i, c, ops))
    for i in range(big):
        n = r.choice([200, 500, 1000, 3000])
        ops = []
        for b in BUILDERS:
            ops += [rnd_build(r, b), {"op": "mbvh", "via": r.choice(["construct", "from", "raw"])}]
        out.append(big_flt(r, "big%d" % i, n, ops))
    return out


# ------------------------------------------------------------------ moving primitives

def moved(r, tris, R=60):
    """New places for the same number of primitives"""
    m = r.randrange(6)
    if m == 0:
        d = pt(r, 20)
        return [[max(-64, min(64, t[j] + d[j % 3])) for j in range(9)] for t in tris]
    if m == 1:
        return [tri(r, R, r.choice([2, 8, 30])) for _ in tris]
    if m == 2:
        t = list(tris)
        r.shuffle(t)
        return [list(x) for x in t]
    if m == 3:
        return [[v // 2 for v in t] for t in tris]
    if m == 4:
        return [list(t) if r.random() < 0.7 else tri(r, R, 4) for t in tris]
    return [[-v for v in t] for t in tris]


def g_refit(r, k, big=2):
    out = []
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        ops = []
        for b in r.sample(BUILDERS, 2):
            ops.append(rnd_build(r, b))
            for _ in range(r.randint(1, 4)):
                t = c["tris"] if r.random() < 0.2 else moved(r, c["tris"])
                ops.append({"op": "refit", "tris": t, "pad": r.choice([0, 0, 0, 1, 4]), "x": r.choice([0, 0, 1, 5])})
                if r.random() < 0.5:
                    ops.append({"op": "scene", "tris": t})
                    ops.append(q("b", "r", [rand_ray(r, t)]))
                if r.random() < 0.2:
                    ops.append({"op": "serde"})
        ops.append(synth(r, c["tris"], r.choice(["left", "right", "random"]), per=2))
        ops[-1]["raw"] = 0
        for _ in range(2):
            ops.append({"op": "refit", "tris": moved(r, c["tris"]), "pad": 0, "x": r.choice([0, 3])})
        b = build(r.choice(BUILDERS), leaf(r), via="ffi", cs=r.choice([12, 16]))
        ops += [b, {"op": "refit", "tris": moved(r, c["tris"]), "pad": 0, "x": 0}, {"op": "refit", "tris": moved(r, c["tris"]), "pad": 1, "x": 2}]
        out.append(case(i, c, ops))
    for i in range(big):
        c = flt_scene(r, r.choice([300, 800, 2500]), r.choice(["sphere", "rand"]))
        ops = []
        for b in BUILDERS:
            ops.append(rnd_build(r, b, bb="own", pad=0, **({"leaf": r.choice([200, 300, 1000, len(c["tris"])])} if r.random() < 0.4 else {})))
            for _ in range(2):
                t = [list(x) for x in c["tris"]]
                r.shuffle(t)
                ops.append({"op": "refit", "tris": t, "pad": 0, "x": 0})
        out.append(case("big%d" % i, c, ops))
    for i in range(big):
        # Crowded leaves, in which the last primitives matter as much as the first
        c = scene(r, r.choice([300, 600, 1200]), kinds=[s_random, s_mesh, s_samecen], far=False)
        n = len(c["tris"])
        ops = []
        for per in (r.choice([n // 3, n]), 3 * n):
            t = moved(r, c["tris"])
            a = r.randrange(9)
            ops.append(dict(synth(r, c["tris"], "random", order=sorted(range(n), key=lambda j: (t[j][a], j)), per=per), raw=0))
            ops += [{"op": "refit", "tris": t, "pad": 0, "x": r.choice([0, 3])}, {"op": "refit", "tris": moved(r, c["tris"]), "pad": 0, "x": 0}]
        out.append(case("crowd%d" % i, c, ops))
    for i in range(k // 10):
        n = r.choice([1, 2, 3, 5, 9, 20, 40])
        ops = []
        for b in BUILDERS:
            ops.append(build(b, leaf(r)))
            for _ in range(2):
                ops.append({"op": "refit", "tris": flt_scene(r, n, r.choice(["extreme", "rand", "shrink"]))["tris"], "pad": 0, "x": 0})
        out.append(case("wild%d" % i, flt_scene(r, n, r.choice(["extreme", "rand"])), ops))
    return out


# ------------------------------------------------------------------ queries

def trees(r, c):
    """Ways to get a binary and a 4-wide tree for a scene"""
    m = r.random()
    if m < 0.75:
        ops = [rnd_build(r)]
        if ops[0]["bb"] == "pad" and r.random() < 0.5:
            ops[0].update(bb="own", pad=0)
    elif m < 0.85:
        t = moved(r, c["tris"])
        ops = [rnd_build(r), {"op": "refit", "tris": t, "pad": 0, "x": 0}, {"op": "scene", "tris": t}]
        c = dict(c, tris=t)
    else:
        ops = [synth(r, c["tris"], r.choice(["left", "right", "zig", "even", "random"]), per=r.choice([1, 2, 4]), pad=1)]
    if r.random() < 0.15:
        ops.append({"op": "serde"}) if ops[0]["op"] == "build" else None
    ops.append({"op": "mbvh", "via": r.choice(["construct", "from", "raw"])})
    return ops, c["tris"]


APIS = ["idx", "sidx", "nidx", "tidx", "obj", "sobj", "nobj", "tobj"]


def cuts(r, lanes):
    return [[[r.randint(1, 90), r.choice([1, 1, 2, 3])] if r.random() < 0.4 else [] for _ in range(30)] for _ in range(lanes)]


def rnd_q(r, tris, on, kind, cons):
    rays = [rand_ray(r, tris)] if kind == "r" else rand_packet(r, tris)
    if kind == "r" and r.random() < 0.3:
        rays = [with_t(r, rays[0])]
    if r.random() < 0.06:
        rays = [far_t(r, x) if r.random() < 0.7 else x for x in rays]
    if kind == "r" and r.random() < 0.25:
        rays = [with_tm(r, rays[0])]
    con = r.choice(cons)
    kw = {"mk": r.choice(["new", "new", "from", "lane"])}
    if con == "cut":
        kw["cuts"] = cuts(r, len(rays))
    if con == "stop":
        con = r.choice(["none", "cut", "closest"])
        kw["stop"] = r.choice([1, 1, 2, 3, 5])
        if con == "cut":
            kw["cuts"] = cuts(r, len(rays))
    return q(on, kind, rays, r.choice(APIS), con, **kw)


def g_query(r, k, kinds, cons, per=10, big=5, both="bw", solid=SOLID):
    out = []
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[solid[i % len(solid)]])
        ops = []
        for _ in range(2):
            o, t = trees(r, c)
            ops += o
            for _ in range(per):
                for on in both:
                    ops.append(rnd_q(r, t, on, r.choice(kinds), cons))
            if t is not c["tris"]:
                ops.append({"op": "scene", "tris": c["tris"]})
        out.append(case(i, c, ops))
    for i in range(big):
        c = flt_scene(r, r.choice([100, 300, 700]), r.choice(["sphere", "rand", "line", "far"]) if i % 2 else "vast")
        ops = []
        for b in BUILDERS:
            ops += [rnd_build(r, b, bb="own", pad=0, **({"leaf": r.choice([100, 300, 1000])} if r.random() < 0.15 else {})), {"op": "mbvh", "via": "construct"}]
            for _ in range(9):
                for on in both:
                    kind = r.choice(kinds)
                    rays = [flt_ray(r, c["tris"]) for _ in range(1 if kind == "r" else 4)]
                    ops.append(q(on, kind, rays, "idx", r.choice(["none", "closest"] if "closest" in cons else ["none"])))
        out.append(case("big%d" % i, c, ops))
    return out


def slab_axis(tris):
    """The axis every triangle is perpendicular to, if there is one"""
    for a in range(3):
        if all(t[a] == t[a + 3] == t[a + 6] for t in tris):
            return a
    return None


def tower_asks(r, n, ls, refit=False, short=True):
    """Traversals along the row and across it, and the 4-wide form"""
    ops = []

    def one():
        x = 2 * r.choice([-1, 0, 1, ls - 1, ls, ls // 2, r.randrange(ls), r.randrange(ls), min(ls - 1, 65535), min(ls - 1, 32768)]) + 1
        if r.random() < 0.5:
            return [0, r.choice([x, -3, 2 * ls + 3]), r.choice([1, -1]), r.choice([-1, -1, r.randrange(1, ls + 3), r.randrange(1, 40)])]
        return [1, x, r.choice([1, 1, 1, -1]), -1]

    def ask(on):
        k = r.choice("rp")
        rays = [one() for _ in range(1 if k == "r" else 4)]
        if k == "p" and r.random() < 0.5:
            rays = [[1, 2 * r.randrange(ls) + 1, 1, -1] if r.random() < 0.7 else x for x in rays]
        ops.append({"op": "tower_q", "on": on, "kind": k, "rays": rays, "plen": r.choice([n, n, n, n - 1, n // 2, 0]) if short else n})

    def both(on):
        return [{"op": "tower_q", "on": on, "kind": "r", "rays": [[0, s, d, -1]], "plen": n} for s, d in ((-3, 1), (2 * ls + 3, -1))]

    ops += both("b")
    for _ in range(6):
        ask("b")
    if refit:
        return ops
    for via in r.sample(["construct", "raw", "from"], 2):
        ops.append({"op": "tower_mbvh", "via": via})
        ops += both("w")
        for _ in range(4):
            ask("w")
    return ops


def tower(r, ls, fat=1, shape=None, refit=0.4):
    """A tree of leaves in a row, as deep as it gets; validated, converted, traversed, refitted"""
    sh = shape or r.choice(["left", "right", "zig", "comb", "combr", "even"])
    n = ls * fat
    ops = [{"op": "tower", "n": n, "shape": sh, "fat": fat}, {"op": "tower_validate", "mod": n, "gap": -1, "cnts": [n, n + 1, n + 256]}]
    for m in (r.randint(1, n), r.choice([max(1, n // r.choice([255, 256, 257, 512])), 1, 2, 256])):
        m = min(m, n)
        ops.append({"op": "tower_validate", "mod": m, "gap": r.choice([-1, -1, 0, m - 1, r.randrange(m)]), "cnts": [m, m, m + r.randint(1, 300)]})
    ops += tower_asks(r, n, ls)
    if r.random() < refit:
        ops.append({"op": "tower_refit", "off": r.choice([-1, 1]) * (ls + r.randint(5, 1000))})
        ops += tower_asks(r, n, ls, r.random() < 0.6)
    return case("tower%dx%d%s" % (ls, fat, sh), {"tris": [], "off": [0, 0, 0], "sh": 0, "flt": 0}, ops)


FATS = [127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537]


def fats(r, k=1, refit=0):
    """Leaves whose sizes need another bit, at every place below a node that is converted"""
    return [tower(r, r.choice([2, 3, 3, 4, 4, 4, 5, 6, 8]), f, sh, refit) for _ in range(k)
            for f, sh in [(f, r.choice(["left", "right", "even"])) for f in r.sample(FATS, 5)] + [(r.choice([65536, 65537, 70000]), sh) for sh in ("left", "right", "even")]]


def repeats(r):
    """Trees that refer to each of their ids the same number of times"""
    out = []
    for q in [1, 2, 127, 128, 255, 256, 257, 512, 768, 65535, 65536, 65537]:
        m = r.choice([1, 2, 3])
        fat = r.choice([f for f in (1, 1, q, m, 16) if q * m % f == 0])
        out.append(case("repeat%dx%d" % (m, q), {"tris": [], "off": [0, 0, 0], "sh": 0, "flt": 0},
                        [{"op": "tower", "n": q * m, "shape": r.choice(["left", "even", "right"]), "fat": fat}] +
                        [{"op": "tower_validate", "mod": m, "gap": g, "cnts": [m, m + 1]} for g in (-1, r.randrange(m))]))
    return out


def heap(r, n, b=None, twins=1, ask=True, c=False):
    """A row of n primitives, built by the library"""
    b = b or r.choice(["binned", "spatial", "locb"])
    # Neighbours with equal distances in a sorted row merge one pair per round in LOCB: quadratic, so not with many of them
    order = [7, 7919] if b == "locb" and n > 10000 else [1, 7, 7919, n - 1]
    mul = next(m for m in (r.choice(order), 7919, 7907, 7901) if math.gcd(m, n) == 1)
    op = {"op": "tower_build", "n": n, "b": b, "leaf": 1 if n >= 200000 else r.choice([0, 1, 2, 4, 9, 300]), "bb": r.choice(["own", "none"]), "mul": mul}
    ops = [op]
    for i in range(twins):
        ops.append(dict(op, bb=r.choice(["own", "none"]) if i or twins > 1 else {"own": "none", "none": "own"}[op["bb"]]))
        if c:
            # The C interface
            ops[-1].update(via="ffi", cs=r.choice([12, 16]), bb="none" if b == "spatial" and r.random() < 0.5 else "own")
            if b == "spatial":
                vs = r.choice([12, 16])
                ops[-1].update(vs=vs, ts=3 * vs + r.choice([0, 0, 4, 64]))
    if ask:
        ops += tower_asks(r, n, n, False, mul == 1)
        if r.random() < 0.5:
            ops.append({"op": "tower_refit", "off": r.choice([-1, 1]) * (n + r.randint(5, 1000))})
            ops += tower_asks(r, n, n, True, mul == 1)
    return case("heap%d%s" % (n, b), {"tris": [], "off": [0, 0, 0], "sh": 0, "flt": 0}, ops)


def heaps(r, k=1, twins=1, ask=True, c=False):
    """As many primitives as no other scenario has"""
    sizes = {"spatial": [(33000, 40000, 66000, 70000)], "binned": [(33000, 66000, 70000), (100000, 140000)], "locb": [(33000, 66000, 70000), (100000, 140000)]}
    if c:
        sizes["binned"].append((200000, 230000))     # more than 65536 4-wide nodes
    return [heap(r, r.choice(n), b, twins, ask, c) for _ in range(k) for b in sizes for n in sizes[b]] + \
           [heap(r, r.choice([1000, 1024, 1025, 2048, 2049, 5000]), b, twins, ask, c) for _ in range(k) for b in sizes]


def towers(r, k=2, refit=0.4):
    return [tower(r, r.choice([33000, 66000, 70000, 100000, 140000]), refit=refit) for _ in range(k)] + \
           [tower(r, r.choice([2, 3, 5, 33, 65, 257, 1000, 5000, 20000]), refit=refit) for _ in range(k)] + \
           [tower(r, r.choice([1, 2, 2, 3, 3, 4, 5, 9]), r.choice([127, 128, 255, 256, 257, 300, 32768, 65535, 65536, 65537]), refit=refit) for _ in range(2 * k)]


def g_many(r, k, parts=7):
    """Several traversals under way at once, in trees of every depth"""
    out = []
    for i in range(k):
        n = r.choice([1, 2, 3, 5, 8, 13, 20, 40, 70, 90])
        c = scene(r, n, kinds=[r.choice([s_line, s_slabs, s_slabs, s_clusters, s_random, s_dup])])
        t = c["tris"]
        axis = slab_axis(t)
        ops = []
        for _ in range(2):
            if r.random() < 0.6:
                a = axis if axis is not None else r.randrange(3)
                order = sorted(range(n), key=lambda j: t[j][a], reverse=r.random() < 0.5)
                ops += [synth(r, t, r.choice(["left", "right", "zig"]), order=order, per=r.choice([1, 1, 1, 3]), pad=1),
                        {"op": "mbvh", "via": r.choice(["construct", "raw"])}]
                ops[-2]["raw"] = r.choice([0, 0, 1])
            else:
                a = r.randrange(3)
                o, _ = trees(r, dict(c))
                ops += o

            def through():
                o, d = [0, 0, 0], [0, 0, 0]
                s = r.choice([-1, 1])
                o[a], d[a] = 64 * s, -s
                o[(a + 1) % 3], o[(a + 2) % 3] = r.choice([0, 0, -1, 1]), r.choice([0, -1, -1, 1])
                return ray(o, d)

            def job():
                kind = r.choice("rrp")
                one = lambda: through() if r.random() < 0.5 else rand_ray(r, t)
                cs = [[r.randint(1, 90), r.choice([1, 1, 2, 3])] if r.random() < 0.2 else [] for _ in range(40)] if r.random() < 0.5 else []
                return {"on": r.choice("bw"), "kind": kind, "api": r.choice(APIS), "rays": [one() for _ in range(1 if kind == "r" else 4)], "cuts": cs}

            for _ in range(parts):
                ts = [job() for _ in range(r.randint(2, 4))]
                if r.random() < 0.4:
                    ts[1] = dict(ts[0], api=r.choice(APIS))
                if r.random() < 0.3:
                    ops.append({"op": "many", "mode": "threads", "ts": ts + [job() for _ in range(4)], "seed": r.randrange(1 << 30)})
                    continue
                m = len(ts)
                order = []
                style = r.choice(["turns", "random", "nest", "blocks", "abandon"])
                if style == "turns":
                    order = list(range(m)) * (n + 10)
                elif style == "random":
                    order = [r.randrange(m) for _ in range(m * (n + 10))]
                elif style == "nest":
                    # each goes a few steps, then the next one runs to its end, and then they go on
                    for w in range(m):
                        order += [w] * r.randint(1, max(2, n // 2))
                    for w in reversed(range(m)):
                        order += [w] * (2 * n + 10)
                elif style == "blocks":
                    while len(order) < m * (n + 10):
                        order += [r.randrange(m)] * r.choice([1, 2, 3, 5, 10, 33])
                else:
                    for w in range(m):
                        order += [w] * r.randint(0, n + 3)
                        if r.random() < 0.6:
                            order.append(-1 - w)
                    order += list(range(m)) * (n + 10)
                ops.append({"op": "many", "mode": "steps", "ts": ts, "order": order})
            if r.random() < 0.3 and not any(x.get("raw") for x in ops):
                t = moved(r, t)
                ops += [{"op": "refit", "tris": t, "pad": 0, "x": 0}, {"op": "scene", "tris": t}, {"op": "mbvh", "via": "construct"},
                        {"op": "many", "mode": "steps", "ts": [job(), job()], "order": [0, 1] * (n + 10)}]
        out.append(case(i, c, ops))
    return out


def g_deep(r, k, depth=120):
    """Trees of every depth: chains, and scenes that make the builders go deep"""
    out = []
    for i in range(k):
        n = r.choice([20, 33, 40, 64, 65, 70, 90, 100, depth])
        c = scene(r, n, kinds=[r.choice([s_line, s_slabs, s_slabs, s_clusters, s_dup])])
        axis = slab_axis(c["tris"])
        ops = []
        for sh in r.sample(["left", "right", "zig", "random"], 2):
            order = None
            if r.random() < 0.6:
                # in the order along an axis: a ray along it descends everywhere
                a = axis if axis is not None and r.random() < 0.8 else r.randrange(3)
                order = sorted(range(n), key=lambda j: c["tris"][j][a], reverse=r.random() < 0.5)
            ops.append(synth(r, c["tris"], sh, order=order, per=1, pad=1))
            ops.append({"op": "mbvh", "via": r.choice(["construct", "raw"])})
            for _ in range(3):
                for on in "bw":
                    kind = r.choice("rp")
                    rays = [rand_ray(r, c["tris"])] if kind == "r" else rand_packet(r, c["tris"])
                    rays = [dict(x, t=[]) if r.random() < 0.8 else x for x in rays]
                    ops.append({"op": "qall", "on": on, "kind": kind, "rays": rays})
            if order is not None:
                # through everything, from both ends: one of them has to keep a node of every level for later
                for s in (-1, 1):
                    o, d = [0, 0, 0], [0, 0, 0]
                    o[a], d[a] = 64 * s, -s
                    o[(a + 1) % 3] = r.choice([0, 0, -1, 1])
                    o[(a + 2) % 3] = r.choice([0, -1, -1, 1])
                    x = ray(o, d)
                    for on in "bw":
                        ops.append({"op": "qall", "on": on, "kind": "r", "rays": [x]})
                        ops.append({"op": "qall", "on": on, "kind": "p", "rays": [x if r.random() < 0.7 else rand_ray(r, c["tris"]) for _ in range(4)]})
        out.append(case(i, c, ops))
    for i in range(max(3, k // 12)):
        # Hundreds of levels: everything is on the way, and one of the two directions keeps a node of every level for later
        n = r.choice([[300, 400], [150, 200, 257, 300], [600]][i % 3])
        a = r.randrange(3)
        tris = s_slabs(r, n, 60, a)
        order = sorted(range(n), key=lambda j: tris[j][a], reverse=r.random() < 0.5)
        ops = [synth(r, tris, "zig" if n < 300 and r.random() < 0.3 else r.choice(["left", "right"]), order=order, per=1, pad=1), {"op": "mbvh", "via": "construct"}]
        for s in (-1, 1):
            o, d = [0, 0, 0], [0, 0, 0]
            o[a], d[a] = 64 * s, -s
            o[(a + 1) % 3] = r.choice([0, 0, -1, 1])
            x = ray(o, d)
            other = dict(x, o=[v + (40 if j != a else 0) for j, v in enumerate(o)])
            for on in "bw":
                for api in (r.choice(APIS[:4]), r.choice(APIS[4:])):
                    ops.append(q(on, "r", [x], api))
                    rays = [x] + [r.choice([x, other]) for _ in range(3)]
                    r.shuffle(rays)
                    ops.append(q(on, "p", rays, api, r.choice(["none", "none", "closest"])))
        out.append(case("long%d" % i, {"tris": tris, "sh": 0, "off": [0, 0, 0], "flt": 0, "cen": "centroid"}, ops))
    for i in range(max(2, k // 4)):
        n = r.choice([40, 70, 100, 150])
        if i % 3 == 0:
            n = r.choice([150, 200, 300])
        c = flt_scene(r, n, "chains" if i % 3 == 0 else "shrink")
        ops = []
        for b in BUILDERS:
            ops += [build(b, r.choice([0, 1, 2])), {"op": "mbvh", "via": "construct"}]
            for _ in range(4):
                x = r.choice([1.0, -1.0])
                far = ray([key(-2.0 * x), key(0.0), key(0.0)], [key(x), key(0.0), key(0.0)])
                rays = [flt_ray(r, c["tris"][:20]), far, flt_ray(r, c["tris"][:20]), flt_ray(r, c["tris"][:20])]
                r.shuffle(rays)
                kind = r.choice("rp")
                for on in "bw":
                    ops.append({"op": "qall", "on": on, "kind": kind, "rays": rays[:1] if kind == "r" else rays})
        out.append(case("shrink%d" % i, c, ops))
    return out


def g_proto(r, k):
    """Every entry point with the same ray"""
    out = []
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        ops = []

        def ask(m, t):
            for _ in range(m):
                for on in "bw":
                    kind = r.choice("rp")
                    rays = [rand_ray(r, t)] if kind == "r" else rand_packet(r, t)
                    if r.random() < 0.2:
                        j = r.randrange(len(rays))
                        rays = list(rays)
                        rays[j] = dict(rays[j], nan=r.randint(1, 6))
                    pl = r.choice([n, n, n, 0, n - 1, max(0, n // 2), 1])
                    if r.random() < 0.6:
                        ops.append({"op": "qall", "on": on, "kind": kind, "rays": rays, "plen": pl})
                    else:
                        ops.append(q(on, kind, rays, r.choice(APIS), r.choice(["none", "closest", "any", "cut"]), plen=pl,
                                     cuts=cuts(r, len(rays)), stop=r.choice([-1, -1, 1, 2])))
        for _ in range(2):
            o, t = trees(r, c)
            ops += o
            ask(4, t)
        if i % 4 == 0:
            ops.append({"op": "empty"})
            ask(3, c["tris"])
            ops.append({"op": "synth", "nodes": [], "idx": [], "raw": 1})
            ask(1, c["tris"])
        if i % 3 == 0:
            # ids in any order, referenced several times
            y = synth(r, c["tris"], "random", per=3)
            y["idx"] = [r.randrange(n) for _ in y["idx"]]
            y["raw"] = 0
            ops += [y, {"op": "mbvh", "via": "construct"}]
            ask(2, c["tris"])
        out.append(case(i, c, ops))
    out += [wild(r, i) for i in range(k // 4)]
    return out


def wild(r, i, queries=True):
    """Scenes whose areas overflow or vanish, or with coordinates that are no numbers"""
    n = r.choice([1, 2, 3, 5, 9, 20, 40])
    c = flt_scene(r, n, r.choice(["extreme", "broken"]))
    ops = []
    for b in BUILDERS:
        ops += [build(b, leaf(r)), {"op": "mbvh", "via": r.choice(["construct", "from", "raw"])}]
        for _ in range(2 if queries else 0):
            rays = [flt_ray(r, c["tris"] if r.random() < 0.8 else [[key(1.0)] * 9]) for _ in range(4)]
            kind = r.choice("rp")
            for on in "bw":
                ops.append({"op": "qall", "on": on, "kind": kind, "rays": rays[:1] if kind == "r" else rays})
    return case("wild%d" % i, c, ops)


def g_skip(r, k):
    """Rays that miss most of the scene"""
    out = []
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]], far=False)
        ops = []
        for _ in range(2):
            o, t = trees(r, c)
            ops += o
            for _ in range(8):
                for on in "bw":
                    kind = r.choice("rp")
                    rays = [rand_ray(r, t)] if kind == "r" else rand_packet(r, t)
                    if r.random() < 0.5:
                        rays = [with_t(r, x) for x in rays]
                    if kind == "r" and r.random() < 0.2:
                        rays = [with_tm(r, rays[0])]
                    if r.random() < 0.3:
                        rays = [dict(x, d=[-v for v in x["d"]]) for x in rays]
                    ops.append(q(on, kind, rays, r.choice(["idx", "sidx", "obj", "sobj"]), "none"))
        out.append(case(i, c, ops))
    return out


def g_validate(r, k):
    out = []
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        ops = [{"op": "empty"}, {"op": "validate", "cnt": 0}, {"op": "validate", "cnt": r.randint(1, 5)}]
        for _ in range(3):
            if r.random() < 0.7:
                ops.append(rnd_build(r))
            else:
                y = synth(r, c["tris"], r.choice(["left", "right", "random"]), per=3)
                y["raw"] = 0
                if r.random() < 0.4:
                    # leaves that leave out part of the index list
                    for nd in y["nodes"]:
                        if nd[6] > 1 and r.random() < 0.7:
                            nd[6] -= 1
                            nd[7] += r.randrange(2)
                ops.append(y)
            for _ in range(5):
                m = []
                if r.random() < 0.6:
                    m = [[r.randrange(4 * n), r.choice([0, n - 1, r.randrange(n)])] for _ in range(r.randint(1, 2))]
                ops.append({"op": "validate", "cnt": r.choice([n, n, n, n + 1, n + 7]), "mut": m})
        out.append(case(i, c, ops))
    return out


def g_serde(r, k):
    out = []
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        ops = []
        rays = [("b", "r", [rand_ray(r, c["tris"])]), ("b", "p", rand_packet(r, c["tris"])),
                ("w", "r", [rand_ray(r, c["tris"])]), ("w", "p", rand_packet(r, c["tris"]))]

        def ask():
            for on, kind, x in rays:
                ops.append({"op": "qall", "on": on, "kind": kind, "rays": x})
        for _ in range(2):
            ops += [rnd_build(r), {"op": "mbvh", "via": r.choice(["construct", "from", "raw"])}]
            if r.random() < 0.5:
                ops.append({"op": "refit", "tris": moved(r, c["tris"]), "pad": 0, "x": r.choice([0, 2])})
            ask()
            ops.append({"op": "serde"})
            ask()
            if r.random() < 0.7:
                ops += [{"op": "refit", "tris": moved(r, c["tris"]), "pad": 0, "x": 0}, {"op": "serde"},
                        {"op": "mbvh", "via": "construct"}, {"op": "serde"}, {"op": "validate", "cnt": n}]
                ops.append({"op": "refit", "tris": moved(r, c["tris"]), "pad": 0, "x": 0})
        if i % 5 == 0:
            ops += [{"op": "empty"}, {"op": "serde"}, {"op": "validate", "cnt": 1}]
        out.append(case(i, c, ops))
    return out


def layout(r, b, n):
    """How a C program lays out its arrays"""
    vs = r.choice([12, 16, 20, 24])
    ts = r.choice([2 * vs + 12, 3 * vs, 3 * vs + 4, 3 * vs + 32])
    if r.random() < 0.2:
        ts, vs = vs, r.choice([12, 16, 24]) * n      # all first vertices, then all second ones, ...
        vs = max(vs, n * ts)
    cs = r.choice([12, 16]) if b != "spatial" else r.choice([12, 16, 20, 32, ts])
    if b == "spatial" and n <= 6 and r.random() < 0.2:
        cs = r.choice([1 << 28, 1 << 30, (1 << 30) + 12])   # memory that is hardly ever touched
        if n > 1 and r.random() < 0.4:
            ts, vs = r.choice([((1 << 32) // (n - 1) // 4 * 4 + 64, 12), (12, (1 << 31) + 64)])
    one = {"cs": cs, "vs": vs, "ts": ts, "bal": r.choice([0, 0, 1, 2, 3]), "trim": int(b == "spatial" and r.random() < 0.5)}
    if r.random() < 0.5:
        one["fill"] = r.choice([0, 1, 2, -3, 1000])
    return one


def g_cbuild(r, k):
    """The C interface: builds with every stride, queries against the library's"""
    out = []
    for i, n in enumerate(sizes(r, k)):
        c = scene(r, n, kinds=[KINDS[i % len(KINDS)]])
        if c["cen"] == "nan":
            c["cen"] = "wild"      # centres stand for omitted boxes
        ops = []
        for b in BUILDERS:
            one = build(b, cleaf(r), r.choice(["own", "own", "none", "pad"]))
            if one["bb"] == "pad":
                one["pad"] = 1
            # The library's tree, or the one from arrays laid out differently
            if r.random() < 0.5 and (b == "spatial" or one["bb"] != "none"):
                ops.append(dict(one))
            elif r.random() < 0.5:
                ops.append(dict(one, via="ffi", **layout(r, b, n)))
            ops.append(dict(one, via="ffi", bx=r.choice([0, 0, 1, -3]), **layout(r, b, n)))
            if r.random() < 0.3:
                t = moved(r, c["tris"])
                ops += [{"op": "refit", "tris": t, "pad": 0, "x": r.choice([0, 2]), "bal": r.choice([0, 0, 1, 2, 3])}, {"op": "scene", "tris": t}]
            else:
                t = c["tris"]
            ops.append({"op": "mbvh", "via": "ffi"})
            for on in "bw":
                for kind in "rp":
                    for _ in range(3):
                        rays = [rand_ray(r, t)] if kind == "r" else rand_packet(r, t)
                        if kind == "r" and r.random() < 0.3:
                            rays = [with_t(r, rays[0])]
                        if r.random() < 0.15:
                            rays = [far_t(r, x) if r.random() < 0.7 else x for x in rays]
                        if r.random() < 0.15:
                            j = r.randrange(len(rays))
                            rays = list(rays)
                            rays[j] = dict(rays[j], nan=r.randint(1, 6))
                        con = r.choice(["none", "closest", "any", "cut", "set", "none"])
                        kw = {"cuts": cuts(r, len(rays))} if con in ("cut", "set") else {}
                        if con != "any" and r.random() < 0.25:
                            kw["stop"] = r.choice([1, 2, 3])
                        ops.append(q(on, kind, rays, "ffi", con, al=r.randint(0, 3), **kw))
                        ops.append(q(on, kind, rays, "sidx", con, **kw))
            if t is not c["tris"]:
                ops.append({"op": "scene", "tris": c["tris"]})
        out.append(case(i, c, ops))
    for i in range(k // 8):
        n = r.choice([1, 2, 3, 5, 9, 20, 40])
        ops = []
        for b in BUILDERS:
            one = build(b, cleaf(r), r.choice(["own", "own", "none"]))
            ops.append(dict(one) if b == "spatial" or one["bb"] == "own" else dict(one, via="ffi", **layout(r, b, n)))
            ops += [dict(one, via="ffi", **layout(r, b, n)) for _ in range(2)]
        out.append(case("wild%d" % i, flt_scene(r, n, r.choice(["extreme", "broken"])), ops))
    return out


# ------------------------------------------------------------------ scenarios of the design specifications

def g_runs(r, runs, k, kinds, cons, every=False):
    """Scenarios of Traverse.tla played to the real traversals: which rays hit which entry how far away, in which tree"""
    out = []
    runs = r.sample(runs, min(k, len(runs)))
    for at in range(0, len(runs), 12):
        ops = []
        first = None
        for s in runs[at:at + 12]:
            perm = r.sample(range(3), 3)
            sign = [r.choice([-1, 1]) for _ in range(3)]
            sx, sy = r.choice([-1, 0, 1]), r.choice([-1, 0, 1])

            def put(x, y, z):
                v = (x + sx * z // 4, y + sy * z // 4, z)
                return [sign[i] * v[perm[i]] for i in range(3)]

            def far(d):
                return 8 * d - 8
            lanes = len(s["hit"])
            tris = []
            miss = s["miss"]
            for p in range(len(s["hit"][0])):
                by = [(l, s["hit"][l][p]) for l in range(lanes) if s["hit"][l][p] < miss]
                if not by:
                    z = 4 * r.randint(-4, 4)
                    t = put(-44, -4, z) + put(-36, -3, z + r.choice([0, 4])) + put(-40, 5, z)
                elif len(by) == 1:
                    x, z = 8 * by[0][0] + 8, far(by[0][1])
                    t = put(x - 3, -3, z) + put(x + 3, -3, z) + put(x, 4, z)
                else:
                    z, e = far(by[0][1]), by[1][1] - by[0][1]
                    t = put(4, -4, z - 4 * e) + put(4, 4, z - 4 * e) + put(24, 0, z + 16 * e)
                j = r.randrange(3)
                t = t[3 * j:] + t[:3 * j]
                tris.append(t)
            T = s["T"]
            nodes = []

            def below(i):
                return list(range(T[i][1], T[i][1] + T[i][0])) if T[i][0] >= 0 else below(T[i][1]) + below(T[i][1] + 1)
            for i in range(len(T)):
                b = tbox(tris, below(i), 1)
                if i in s["extra"]:
                    for l in range(lanes):
                        c = put(8 * l + 8, 0, -8)
                        b = [min(x, y) for x, y in zip(b[:3], c)] + [max(x, y) for x, y in zip(b[3:], c)]
                nodes.append(b + list(T[i]))
            rs = [ray(put(8 * l + 8, 0, -24), [x // 4 for x in put(0, 0, 4)] if sx == sy == 0 else put(0, 0, 4)) for l in range(lanes)]
            if first is None:
                first = tris
            else:
                ops.append({"op": "scene", "tris": tris})
            ops += [{"op": "synth", "nodes": nodes, "idx": list(range(len(tris))), "raw": r.choice([0, 0, 1])},
                    {"op": "mbvh", "via": r.choice(["construct", "raw"])}]
            kind = "r" if lanes == 1 and (kinds == "r" or r.random() < 0.6) else "p"
            if kind not in kinds:
                kind = kinds[0]
            use = rs[:1] if kind == "r" else rs + [r.choice(rs + [ray([60, 60, 60], [1, 1, 1])]) for _ in range(4 - lanes)]
            r.shuffle(use)
            for on in "bw":
                if every:
                    ops.append({"op": "qall", "on": on, "kind": kind, "rays": use})
                for con in cons:
                    kw = {"cuts": cuts(r, len(use))} if con == "cut" else {}
                    if con == "stop":
                        con, kw = "none", {"stop": r.choice([1, 2])}
                    ops.append(q(on, kind, use, r.choice(APIS), con, **kw))
        out.append({"id": "run%d" % at, "tris": first, "sh": 0, "off": [0, 0, 0], "flt": 0, "cen": "centroid", "ops": ops})
    return out


def g_histories(r, runs, k):
    """Call sequences of RegistryRuns.tla, with everything looked at after every call"""
    out = []
    runs = r.sample(runs, min(k, len(runs)))
    for at, h in enumerate(runs):
        n = r.choice([1, 2, 3, 5])
        scenes = []
        for i in range(3):
            t = r.choice([s_random, s_clusters, s_mesh])(r, n, 10)
            scenes.append([[v + [30 * i - 30, 5 * i, -20 * i][j % 3] for j, v in enumerate(x)] for x in t])
        alive = {}
        calls = []
        for c in h:
            if c[0] == "create":
                b = r.choice(BUILDERS)
                sc = r.randint(1, 3)
                calls.append({"c": "create", "h": c[1], "sc": sc, "tris": scenes[sc - 1], "b": b, "leaf": r.choice([0, 2]),
                              "bb": "none" if b == "spatial" and r.random() < 0.3 else "own", "cs": r.choice([12, 16])})
                alive[c[1]] = "look"
            elif c[0] == "wide":
                calls.append({"c": "wide", "h": 100 + c[2], "from": c[1]})
                if c[1] in alive:
                    alive[100 + c[2]] = "lookw"
            elif c[0] == "refit":
                sc = r.randint(1, 3)
                calls.append({"c": "refit", "h": c[1], "sc": sc, "tris": scenes[sc - 1]})
            elif c[0] == "free":
                calls.append({"c": "free", "h": c[1]})
                alive.pop(c[1], None)
            else:
                calls.append({"c": "freew", "h": 100 + c[1]})
                alive.pop(100 + c[1], None)
            calls += [{"c": alive[x], "h": x} for x in sorted(alive)]
        out.append({"id": "run%d" % at, "tris": [], "sh": 0, "off": [0, 0, 0], "flt": 0, "cen": r.choice(["centroid", "box"]),
                    "ops": [{"op": "ffi", "scenes": scenes, "phases": [[calls]]}]})
    return out
