"""What each check runs: scenarios, and models of the design."""
from lib import gen as g

ASSUMPTIONS = [
    "TLC evaluates the specification correctly; the harness records faithfully what the library returned",
    "scenes are on a grid on which every vertex and every exact hit is representable; other scenes only where the specification needs no arithmetic",
    "only the executions that were run are judged: the scenarios are a seeded sample",
]

ALL = ["none", "closest", "any", "cut"]
MORE = ["closest", "any", "cut", "stop", "closest"]


def two(quick, thorough):
    """Scenarios of one round for each tier"""
    return lambda r, tier, i: (thorough if tier == "thorough" else quick)(r)



def model(name, quick, deep, breaks, limit=900):
    """The configurations of a design specification: the quick ones every time, the others in the thorough tier.
    Those with a deliberate mistake must fail, so that the properties are known to mean something."""
    return ([{"tla": name + ".tla", "cfg": "%s_%s.cfg" % (name, c)} for c in quick] +
            [{"tla": name + ".tla", "cfg": "%s_%s.cfg" % (name, c), "quick": False, "limit": limit} for c in deep] +
            [{"tla": name + ".tla", "cfg": "%s_%s.cfg" % (name, c), "quick": False, "breaks": b} for c, b in breaks])


SPATIAL = model("Spatial", ["quick"], ["deep", "leaf2"], [("no-move", "Filled"), ("shared-room", "Disjoint"),
                                                          ("too-much-room", "Disjoint"), ("drop-right", "Covers")])
BINNED = model("Binned", ["quick"], ["deep"], [("no-half", "Proper"), ("bin-boxes", "Enclosed")])
LOCB = model("Locb", ["quick"], ["deep"], [("no-copy", "Forest"), ("next-tie", "Shrinks")])
TASKS = model("Tasks", ["quick", "ends"], ["deep"], [("two-steps", "Apart"), ("lost-task", "Same")])
COLLAPSE = model("Collapse", ["quick"], ["deep"], [("lost-leaf", "Kept")])
REFIT = model("Refit", ["quick"], ["deep"], [("forward", "Exact"), ("grow", "Exact")])
REGISTRY = model("Registry", ["quick"], ["deep", "long"], [("len-outside", "Answers"), ("remove", "Refines"), ("no-entry", "Answers"),
                                                           ("shared", "Own"), ("order", "Deadlock")])
MEMORY = model("Memory", ["quick"], ["deep"], [("kept", "Even"), ("stack", "Even"), ("retire", "Even"), ("list", "Even")])
TOGETHER = model("Together", ["quick"], ["deep"], [("one-store", "Alike"), ("emptied", "Alike")])
ONE = model("Traverse", ["quick_b1", "quick_w1"], ["deep_b1", "deep_w1"], [("far-only", "Complete"), ("stale-entry", "Complete")])
FOUR = model("Traverse", ["quick_b2", "quick_w2"], ["deep_b2", "deep_w2"], [("first-ray", "Complete"), ("shortest", "Complete")])


def runs(kinds, cons, count, rays="1", every=False):
    """Scenarios of the traversal specification, played to the real one"""
    return [{"tla": "TraverseRuns.tla", "cfg": ["TraverseRuns_%s.cfg" % x] * 2, "count": count,
             "make": lambda r, s, n: g.g_runs(r, s, n, kinds, cons, every)} for x in rays]


PLANS = {
    "C01": {"gen": two(lambda r: g.g_build(r, 400, 16) + g.heaps(r, 1, 1, False), lambda r: g.g_build(r, 900, 40, huge=r.choice([(12000,), (40000,), (66000,)])) + g.heaps(r, 3, 1, False)), "models": SPATIAL + BINNED + LOCB},
    "C02": {"gen": two(lambda r: g.g_build(r, 400, 16) + g.heaps(r, 1, 1, False), lambda r: g.g_build(r, 900, 40, huge=r.choice([(12000,), (40000,), (66000,)])) + g.heaps(r, 3, 1, False)), "models": SPATIAL + BINNED + LOCB + TASKS},
    "C03": {"gen": two(lambda r: g.g_build(r, 300, 10, False) + g.heaps(r, 1, 0), lambda r: g.g_build(r, 600, 20, False, r.choice([(12000,), (40000,), (66000,)])) + g.heaps(r, 3, 0)), "models": SPATIAL + BINNED},
    "C04": {"gen": two(lambda r: g.g_own(r, 400, 16) + g.heaps(r, 1, 1, False), lambda r: g.g_own(r, 900, 30) + g.heaps(r, 3, 1, False))},
    "C05": {"gen": two(lambda r: g.g_query(r, 150, "r", ALL, big=8) + g.towers(r, 1) + g.fats(r) + g.heaps(r, 1, 0), lambda r: g.g_query(r, 300, "r", ALL, per=14, big=10) + g.towers(r, 4) + g.fats(r) + g.heaps(r, 2, 0)), "models": ONE, "runs": runs("r", ["none", "closest"], (250, 800))},
    "C06": {"gen": two(lambda r: g.g_query(r, 130, "p", ALL, big=8) + g.towers(r, 1) + g.fats(r) + g.heaps(r, 1, 0), lambda r: g.g_query(r, 250, "p", ALL, per=14, big=10) + g.towers(r, 4) + g.fats(r) + g.heaps(r, 2, 0)), "models": FOUR, "runs": runs("p", ["none", "closest"], (150, 600), "12")},
    "C07": {"gen": two(lambda r: g.g_query(r, 150, "rp", MORE), lambda r: g.g_query(r, 300, "rp", MORE, per=14, big=6)), "models": ONE + FOUR, "runs": runs("rp", ["closest", "any"], (150, 600), "12")},
    "C08": {"gen": two(lambda r: g.g_proto(r, 120) + g.towers(r, 1) + g.fats(r), lambda r: g.g_proto(r, 300) + g.towers(r, 4) + g.fats(r)), "models": ONE, "runs": runs("rp", ["stop"], (120, 500), "12", True)},
    "C09": {"gen": two(lambda r: g.g_deep(r, 70) + g.towers(r, 3), lambda r: g.g_deep(r, 150, 200) + g.towers(r, 8)), "models": ONE},
    "C10": {"gen": two(lambda r: g.g_wide(r, 80, 7) + g.towers(r, 2) + g.fats(r) + g.heaps(r, 1, 0), lambda r: g.g_wide(r, 200, 8, 6) + g.towers(r, 6) + g.fats(r, 4) + g.heaps(r, 3, 0)), "models": COLLAPSE},
    "C11": {"gen": two(lambda r: g.g_refit(r, 200) + g.towers(r, 1, 1) + g.heaps(r, 1, 0), lambda r: g.g_refit(r, 500, 4) + g.towers(r, 4, 1) + g.heaps(r, 3, 0)), "models": REFIT},
    "C12": {"gen": two(lambda r: g.g_invalid(r, 500), lambda r: g.g_invalid(r, 1500))},
    "C13": {"gen": two(lambda r: g.g_sched(r, 150, 12) + g.heaps(r, 1, 3, False), lambda r: g.g_sched(r, 300, 24, 8) + g.heaps(r, 3, 6, False)), "models": TASKS + BINNED},
    "C14": {"gen": two(lambda r: g.crowds(r, 4) + g.g_ffi(r, 400), lambda r: g.crowds(r, 16) + g.g_ffi(r, 1000)), "kind": "ffi", "models": REGISTRY, "runs": [{"tla": "RegistryRuns.tla", "cfg": ["RegistryRuns_5.cfg", "RegistryRuns_6.cfg"], "count": (300, 1500), "make": g.g_histories}]},
    "C15": {"gen": two(lambda r: g.g_cbuild(r, 130) + g.heaps(r, 1, 1, True, True), lambda r: g.g_cbuild(r, 300) + g.heaps(r, 2, 1, True, True))},
    "C16": {"gen": two(lambda r: g.g_validate(r, 400) + g.towers(r, 2) + g.repeats(r), lambda r: g.g_validate(r, 1000) + g.towers(r, 6) + g.repeats(r))},
    "C17": {"gen": two(lambda r: g.g_build(r, 500, 20) + g.heaps(r, 1, 1, False), lambda r: g.g_build(r, 900, 40, huge=r.choice([(12000,), (40000,), (66000,)])) + g.heaps(r, 3, 1, False)), "models": SPATIAL + BINNED + LOCB},
    "C18": {"gen": two(lambda r: g.g_box(r, 1500), lambda r: g.g_box(r, 4000))},
    "C19": {"gen": two(lambda r: g.g_tri(r, 1500), lambda r: g.g_tri(r, 4000))},
    "C20": {"gen": two(lambda r: g.g_rays(r, 700), lambda r: g.g_rays(r, 2500))},
    "C21": {"gen": two(lambda r: g.g_skip(r, 150) + g.towers(r, 2), lambda r: g.g_skip(r, 400) + g.towers(r, 6)), "models": FOUR, "runs": runs("rp", ["none"], (150, 600), "12")},
    "C22": {"gen": two(lambda r: g.g_morton(r, 1200), lambda r: g.g_morton(r, 4000))},
    "C23": {"gen": two(lambda r: g.g_serde(r, 140) + g.g_rays(r, 60), lambda r: g.g_serde(r, 400) + g.g_rays(r, 200))},
    "C25": {"gen": two(lambda r: g.g_node(r, 300), lambda r: g.g_node(r, 1500))},
    "C26": {"gen": two(lambda r: g.g_cam(r, 200), lambda r: g.g_cam(r, 1000))},
    "C27": {"gen": two(lambda r: g.g_many(r, 110), lambda r: g.g_many(r, 150, 12)), "models": TOGETHER},
    "C28": {"gen": two(lambda r: g.ledgers(r, 40), lambda r: g.ledgers(r, 120)), "kind": "ffi", "models": MEMORY,
            "runs": [{"tla": "RegistryRuns.tla", "cfg": ["RegistryRuns_5.cfg", "RegistryRuns_6.cfg"], "count": (200, 1000), "make": g.g_ledger_runs}]},
    "C24": {"gen": two(lambda r: g.g_rays(r, 500), lambda r: g.g_rays(r, 2000))},
}
