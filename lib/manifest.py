"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification (RtTrace.tla) checked by TLC against recorded sessions of the library"
NOTE = ("Every recorded step of the library in the explored sessions is a step the specification allows; sessions are a seeded sample "
        "of scenes, operation sequences, rays and schedules (see DESIGN.md). Trusts TLC, the harness's recording and the grid "
        "arithmetic of the specification.")
SPECIAL = {
    "C14": ("TLA+ specification of the handle registry (FfiTrace.tla): TLC searches a linearization of every recorded concurrent history",
            "Every explored history of calls from up to four threads has an order that explains all answers; histories are a seeded sample, "
            "real-time interleavings are those the operating system produced."),
    "C13": ("TLA+ specification (RtTrace.tla) checked by TLC against sessions recorded under perturbed schedules", NOTE),
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    from lib import plan

    def technique(i):
        t = SPECIAL.get(i, (TRACE, NOTE))[0]
        ms = sorted({m["tla"][:-4] for m in plan.PLANS[i].get("models", [])})
        if ms:
            t += "; design models checked by TLC for all small cases: " + ", ".join(ms)
        if plan.PLANS[i].get("runs"):
            t += "; scenarios enumerated by " + plan.PLANS[i]["runs"][0]["tla"][:-4] + " are played to the library"
        return t

    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "hooks": {"guard": "rtbvh_verif", "enable": "RUSTFLAGS=\"--cfg rtbvh_verif\" (set by lib/driver.py when it builds harness/)",
                   "source_commits": ["739d2c5"]},
         "checks": [{"property": i, "quick_cmd": "python3 run.py check " + i,
                     "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
                     "technique": technique(i), "level": "model_checking",
                     "level_note": SPECIAL.get(i, (TRACE, NOTE))[1]} for i in ids],
         "not_applicable": []}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
