"""Regenerate /verif/MANIFEST.json from the harnesses that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = (
    "symbolic execution of the package's current source under CPython with Z3 proxies; "
    "every assertion is an SMT query over all values on the path; counterexamples are replayed on the real code"
)
NOTE = (
    "Bounded: holds for every value of the symbolic inputs within the stated bounds (evidence lists them per task). "
    "Trusts Z3, the proxies/containers/stubs in px/ (checked on each run by replaying sampled paths on the real code) and the oracle in the harness."
)
SPECIAL = {
    "C02": (
        "partial-order SMT encoding of all interleavings of the store operations executed by the constructors "
        "(traced from the current source and the standard library's weakref.py); schedules replayed on real threads",
        "Bounded: two or three threads building the same expression, one construction each, every interleaving of their store events "
        "under sequential consistency (the GIL). Trusts Z3 and the event model of dict operations.",
    ),
}
NA = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", pid.lower() + ".py")) and pid not in NA:
        t, n = SPECIAL.get(pid, (TECH, NOTE))
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"python3-vt -m px.run {pid} --tier quick",
                "thorough_cmd": f"python3-vt -m px.run {pid} --tier thorough",
                "technique": t,
                "level": "model_checking",
                "level_note": n,
            }
        )
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3-vt -m px.selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the engine instruments the source it loads. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks", len(na), "not claimed")
