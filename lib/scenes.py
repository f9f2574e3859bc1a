"""Random scenes and rays on the integer grid. Every choice comes from the given random.Random."""
import struct

BUILDERS = ["binned", "spatial", "locb"]


def key(f):
    b = struct.unpack("<I", struct.pack("<f", max(-3e38, min(3e38, f)) if abs(f) < float("inf") else f))[0]
    return b if b < 0x80000000 else -(b & 0x7FFFFFFF)


def pt(r, R):
    return [r.randint(-R, R) for _ in range(3)]


def near(r, p, s, R):
    return [max(-R, min(R, p[i] + r.randint(-s, s))) for i in range(3)]


def tri(r, R, s):
    p = pt(r, R)
    return p + near(r, p, s, R) + near(r, p, s, R)


def s_random(r, n, R):
    s = r.choice([2, 4, 8, 16, 40])
    return [tri(r, R, s) for _ in range(n)]


def s_flat(r, n, R):
    a = r.randrange(3)
    v = r.choice([0, 0, 3, -7])
    out = s_random(r, n, R)
    for t in out:
        for i in range(3):
            t[3 * i + a] = v
    return out


def s_layers(r, n, R):
    """Axis-parallel rectangles' halves: flat boxes facing each axis"""
    out = []
    for _ in range(n):
        a = r.randrange(3)
        p = pt(r, R - 10)
        e = [r.randint(1, 10), r.randint(1, 10)]
        b, c = [x for x in range(3) if x != a]
        q = list(p)
        q[b] += e[0]
        s = list(p)
        s[c] += e[1]
        if r.random() < 0.3:
            q[c] += e[1]
        out.append(p + q + s)
    return out


def s_line(r, n, R):
    a = r.randrange(3)
    out = []
    for _ in range(n):
        p = [0, 0, 0]
        p[a] = r.randint(-R + 4, R - 4)
        out.append(p + near(r, p, 3, R) + near(r, p, 3, R))
    return out


def s_dup(r, n, R):
    k = r.choice([1, 1, 2, 3])
    base = [tri(r, R, r.choice([4, 12])) for _ in range(k)]
    return [list(r.choice(base)) for _ in range(n)]


def s_samecen(r, n, R):
    """Different triangles around one centroid"""
    c = pt(r, R // 2)
    out = []
    for _ in range(n):
        u, v = near(r, [0, 0, 0], R // 3, R // 3), near(r, [0, 0, 0], R // 3, R // 3)
        w = [-u[i] - v[i] for i in range(3)]
        f = lambda q: [max(-64, min(64, c[i] + q[i])) for i in range(3)]
        out.append(f(u) + f(v) + f(w))
    return out


def s_mixed(r, n, R):
    out = [tri(r, R, 2) for _ in range(n)]
    for _ in range(max(1, n // 8)):
        out[r.randrange(n)] = tri(r, R, 2 * R)
    return out


def s_degen(r, n, R):
    out = []
    for _ in range(n):
        k = r.randrange(4)
        p = pt(r, R)
        q = near(r, p, 6, R)
        out.append([p + p + p, p + q + p, p + q + [(p[i] + q[i]) // 2 for i in range(3)], tri(r, R, 8)][k])
    return out


def s_mesh(r, n, R):
    """A height field with shared edges"""
    w = max(1, int((n / 2) ** 0.5))
    st = max(1, (2 * R) // (w + 1))
    h = [[r.randint(-3, 3) for _ in range(w + 2)] for _ in range(w + 2)]
    a = r.randrange(3)
    P = lambda i, j: [-R + i * st, h[i][j], -R + j * st] if a == 0 else ([h[i][j], -R + i * st, -R + j * st] if a == 1 else [-R + i * st, -R + j * st, h[i][j]])
    out = []
    for i in range(w):
        for j in range(w):
            out.append(P(i, j) + P(i + 1, j) + P(i, j + 1))
            out.append(P(i + 1, j + 1) + P(i, j + 1) + P(i + 1, j))
    out = out[:n]
    while len(out) < n:
        out.append(tri(r, R, 4))
    return out


def s_long(r, n, R):
    """Long thin triangles crossing each other: spatial splits"""
    out = []
    for _ in range(n):
        p, q = pt(r, R), pt(r, R)
        out.append(p + q + near(r, q, 2, R))
    return out


def s_clusters(r, n, R):
    k = r.randint(2, 4)
    cs = [pt(r, R - 6) for _ in range(k)]
    out = []
    for _ in range(n):
        p = near(r, r.choice(cs), 4, R)
        out.append(p + near(r, p, 3, R) + near(r, p, 3, R))
    return out


def s_stairs(r, n, R):
    """Distances that double: unbalanced trees"""
    a = r.randrange(3)
    out = []
    for i in range(n):
        p = [0, 0, 0]
        p[a] = min(60, 2 ** (i % 7) - 1) - (i // 7)
        out.append(p + near(r, p, 2, R) + near(r, p, 2, R))
    return out


def s_slabs(r, n, R, a=None):
    """Large parallel sheets, one behind the other"""
    a = r.randrange(3) if a is None else a
    b, c = [x for x in range(3) if x != a]
    out = []
    for i in range(n):
        z = r.randint(-R, R)
        v = []
        s = r.randint(4, R)
        for (x, y) in ((-s, -s), (s, -s), (r.randint(-s, s), s)):
            p = [0, 0, 0]
            p[a], p[b], p[c] = z, x, y
            v += p
        out.append(v)
    return out


KINDS = [s_random, s_flat, s_layers, s_line, s_dup, s_samecen, s_mixed, s_degen, s_mesh, s_long, s_clusters, s_stairs, s_slabs]
SOLID = [s_random, s_layers, s_mesh, s_clusters, s_slabs, s_mixed, s_flat, s_long, s_stairs, s_samecen, s_dup]


def scene(r, n, kinds=None, far=True):
    """Fields of a case: triangles, scale, offset, centre"""
    k = r.choice(kinds or KINDS)
    sh = r.choice([0, 0, 0, 1, 2, 4])
    off = [0, 0, 0]
    if far and r.random() < 0.2:
        off = [r.choice([0, 100, -300, 500]) for _ in range(3)]
    R = r.choice([12, 20, 50, 60])
    tris = k(r, n, R)
    if r.random() < 0.2:
        r.shuffle(tris)
    return {"tris": tris, "sh": sh, "off": off, "flt": 0, "cen": r.choice(["centroid", "centroid", "centroid", "box", "v0", "zero", "wild", "nan"])}


def ray(o, d, nz=(0, 0, 0), t=(), nan=0):
    return {"o": list(o), "d": list(d), "nz": list(nz), "t": list(t), "nan": nan, "tm": []}


DIRS = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]


def rdir(r):
    m = r.random()
    if m < 0.35:
        d = list(r.choice(DIRS))
        s = r.choice([1, 1, 1, 2, 5])
        return [x * s for x in d]
    if m < 0.55:
        d = [r.randint(-8, 8) for _ in range(3)]
        d[r.randrange(3)] = 0
    else:
        d = [r.randint(-8, 8) for _ in range(3)]
    return d if any(d) else [1, 0, 0]


def inside_pt(r, t):
    """An integer point close to the inside of the triangle"""
    w = [r.randint(0, 6) for _ in range(3)]
    s = sum(w) or 1
    if sum(w) == 0:
        w = [1, 0, 0]
        s = 1
    return [round(sum(w[j] * t[3 * j + i] for j in range(3)) / s) for i in range(3)]


def clampo(o):
    return all(-64 <= x <= 64 for x in o)


def rand_ray(r, tris):
    """Aimed at a primitive (most of the time), from afar, from inside or just past it"""
    nz = [r.randrange(2) for _ in range(3)]
    m = r.random()
    d = rdir(r)
    if m < 0.85 and tris:
        p = inside_pt(r, r.choice(tris))
        if m < 0.3:
            # Perpendicular to the triangle's main axis
            t = r.choice(tris)
            p = inside_pt(r, t)
            ext = [max(t[i::3]) - min(t[i::3]) for i in range(3)]
            a = ext.index(min(ext))
            d = [0, 0, 0]
            d[a] = r.choice([-1, 1]) * r.choice([1, 1, 2, 4])
            if r.random() < 0.3:
                d[(a + 1) % 3] = r.randint(-2, 2)
        for _ in range(4):
            k = r.choice([1, 2, 3, 5, 8, 20, 40])
            o = [p[i] - k * d[i] for i in range(3)]
            if clampo(o):
                return ray(o, d, nz)
        return ray([max(-64, min(64, p[i] - d[i])) for i in range(3)], d, nz)
    return ray(pt(r, 60), d, nz)


def with_t(r, q):
    """A finite initial distance, often close to where something may be hit"""
    q = dict(q)
    q["t"] = [r.randint(1, 80), r.choice([1, 1, 2, 3, 4])]
    return q


def far_t(r, q):
    """An initial distance beyond the library's own: the largest number, or infinity"""
    return dict(q, t=[r.choice([1, 2]), 0])


def with_tm(r, q):
    """A minimum distance of the caller's own, often between the things that may be hit"""
    q = dict(q)
    q["tm"] = r.choice([[r.randint(1, 80), r.choice([1, 1, 2, 3, 4])], [r.randint(1, 10), 8], [0, 1]])
    return q


def rand_packet(r, tris):
    m = r.randrange(8)
    a = rand_ray(r, tris)
    if m == 0:
        q = [a, a, a, a]
    elif m == 1:
        q = [dict(a, d=[x + r.randint(-1, 1) for x in a["d"]]) for _ in range(4)]
    elif m == 2:
        q = [a] + [dict(a, d=[-x for x in a["d"]]) for _ in range(3)]
    elif m == 3:
        # One ray hits, three leave the scene
        q = [ray([64, 64, 64], [1, r.randint(0, 3), 1]) for _ in range(4)]
        q[r.randrange(4)] = a
    elif m == 4:
        q = [dict(a, o=[max(-64, min(64, x + r.randint(-3, 3))) for x in a["o"]]) for _ in range(4)]
    elif m == 5:
        # Four directions from one point
        q = [dict(a, d=rdir(r)) for _ in range(4)]
    else:
        q = [rand_ray(r, tris) for _ in range(4)]
    for i in range(4):
        if not any(q[i]["d"]):
            q[i] = dict(q[i], d=[1, 0, 0])
        q[i] = dict(q[i], d=[max(-8, min(8, x)) for x in q[i]["d"]])
    if r.random() < 0.35:
        q = [with_t(r, x) if r.random() < 0.6 else x for x in q]
    if r.random() < 0.1:
        i = r.randrange(4)
        q[i] = dict(q[i], t=[1, 1000])
    return q


def flt_scene(r, n, mode):
    """Scenes with arbitrary float coordinates, given as keys"""
    tris = []
    if mode == "tower":
        return {"tris": tower(r.choice([1, 3, 4, 5, 5]) if n < 60 else 5), "sh": 0, "off": [0, 0, 0], "flt": 1, "cen": "centroid"}
    size = 10.0 ** r.uniform(2, 6)
    top = 10.0 ** r.choice([r.uniform(-40, 33), r.uniform(17, 33), r.uniform(19, 20)])
    mix = r.random() < 0.3
    for i in range(n):
        if mode in ("extreme", "broken"):
            # Areas and volumes overflow or vanish
            s = top * (10.0 ** -r.uniform(0, 10) if mix else 1)
            c = [r.uniform(-1, 1) * s for _ in range(3)]
            w = r.choice([0, 1e-3, 0.1, 1])
            v = [max(-9.9e33, min(9.9e33, c[j % 3] + s * w * r.uniform(-1, 1))) for j in range(9)]
            if mode == "broken" and r.random() < 0.4:
                for j in range(9):
                    if r.random() < 0.4:
                        v[j] = r.choice([float("nan"), float("inf"), float("-inf"), 3e38, -3e38])
        elif mode == "shrink":
            s = 2.0 ** -(i % 60)
            c = [s, 0.3 * s, 0.2 * s]
            v = [c[j % 3] + 0.25 * s * r.uniform(-1, 1) for j in range(9)]
        elif mode == "chains":
            # Geometric series along one to three axes, and a bundle at their common end: trees as deep as they get
            if i == 0:
                ax, ratio = r.choice([1, 2, 3, 3]), r.choice([2.0, 3.0, 4.0, 8.0, 17.0, 20.0])
                hi = 2.0 ** r.choice([0, r.randint(0, 60), 60, 62, r.randint(60, 108), 106])
                lo = r.choice([1e-5, 1e-20])
                bundle = r.choice([0, n // 4, n // 2])
            k = i // ax
            s = hi * ratio ** -min(k, 200)
            s = s if i < n - bundle and s > lo else 0.0
            c = [s if j == i % ax else 0.0 for j in range(3)]
            w = s * 0.1 if s else lo * 0.1
            v = [c[j % 3] + w * r.uniform(-1, 1) for j in range(9)]
        elif mode == "line":
            c = [0.001 * i, 0.0, 0.0]
            v = [c[j % 3] + 0.0005 * r.uniform(-1, 1) for j in range(9)]
        elif mode == "vast":
            # Far apart and large, many of them flat where an absolute tolerance is less than a rounding error
            c = [r.uniform(-1, 1) * size for _ in range(3)]
            w = size * r.uniform(0.02, 0.2)
            v = [c[j % 3] + w * r.uniform(-1, 1) for j in range(9)]
            if r.random() < 0.6:
                a = r.randrange(3)
                v[a] = v[a + 3] = v[a + 6]
        elif mode == "far":
            c = [r.uniform(900, 1000) for _ in range(3)]
            v = [c[j % 3] + r.uniform(-2, 2) for j in range(9)]
        elif mode == "sphere":
            import math
            a, b = r.uniform(0, 2 * math.pi), math.acos(r.uniform(-1, 1))
            c = [30 * math.cos(a) * math.sin(b), 30 * math.sin(a) * math.sin(b), 30 * math.cos(b)]
            v = [c[j % 3] + r.uniform(-2, 2) for j in range(9)]
        else:
            c = [r.uniform(-50, 50) for _ in range(3)]
            s = r.choice([0.1, 1.0, 5.0])
            v = [c[j % 3] + s * r.uniform(-1, 1) for j in range(9)]
        tris.append([key(x) for x in v])
    return {"tris": tris, "sh": 0, "off": [0, 0, 0], "flt": 1, "cen": r.choice(["centroid", "box", "centroid", "box", "wild"])}


def tower(up):
    """Points for which splitting by surface areas takes off one at a time as long as areas can tell, below `up` levels
    where areas overflow and the list is halved. With five levels spatial SAH goes as deep as it ever does."""
    at, s = [], 2.0 ** 63
    for k in range(60):
        at.append(s)
        s /= max(60 - k, 2) ** 0.5
        s = s if s * s > 1e-44 else 1e-38
    s = 1e21
    for _ in range(up):
        m = len(at)
        at += [s * (1 + 0.1 * i / m) for i in range(m)]
        s *= 300.0
    return [[key(x)] * 9 for x in at]


def unkey(k):
    return struct.unpack("<f", struct.pack("<I", k if k >= 0 else (-k) | 0x80000000))[0]


def flt_ray(r, tris):
    t = [unkey(x) for x in r.choice(tris)]
    w = [r.random() + 0.05 for _ in range(3)]
    s = sum(w)
    p = [sum(w[j] * t[3 * j + i] for j in range(3)) / s for i in range(3)]
    d = [r.uniform(-1, 1) for _ in range(3)]
    if r.random() < 0.3:
        d = [float(x) for x in r.choice(DIRS)]
    k = r.uniform(1, 40) * max(1.0, max(abs(t[i] - t[i + 3]) for i in range(6)) / 5)
    d1 = r.choice([1.0, 1.0, 0.01, 0.1, 10.0, 50.0])
    return ray([key(p[i] - k * d[i]) for i in range(3)], [key(x * d1) for x in d])
