"""Writes MANIFEST.json from the check modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
PENDING = "no check has been built yet"
checks, na = [], []
NOTE = (
    "Every generated workload is run against the real package and each observation judged "
    "by an independent oracle; nothing is claimed about inputs outside of what the "
    "workloads reach (see the counts in the evidence file). Trusts numpy, scipy, shapely "
    "and pandas, used by the oracle in other ways than by the package."
)
TECH = {
    "C11": "runtime monitoring: containment, shape and count monitors on simulator output",
    "C12": "runtime monitoring: replayed call histories and hooked global generators",
    "C13": "runtime monitoring: structural oracles and statistical monitors on simulator output",
    "C14": "runtime monitoring: statistical monitors on simulator output",
    "C28": "runtime monitoring: oracle over the drawn artists and hooked KDE calls",
    "C29": "runtime monitoring: oracle over the drawn artists",
    "C32": "runtime monitoring: results under thread schedules, nesting and fresh processes against results alone; process state before and after every call",
    "C30": "runtime monitoring: deep snapshots of all arguments around every public call",
    "C08": "runtime monitoring: random operation histories against a model",
}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", f"{i}.py")):
        checks.append(
            dict(
                property=i,
                quick_cmd=f"./check {i}",
                thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                evidence_file=f"evidence/{i}.json",
                technique=TECH.get(i, "runtime monitoring: generated workloads judged call by call by an independent oracle"),
                level="exploration",
                level_note=NOTE,
            )
        )
    else:
        na.append(dict(property=i, reason=PENDING))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
