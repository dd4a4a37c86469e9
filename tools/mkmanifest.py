"""Writes /verif/MANIFEST.json from the list of properties and harness/props.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import props  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Every recorded step of the real code is decided by TLC against the TLA+ transition relation; exhaustive only for the "
        "bounded model configurations, sampled (seeded) for executions. Trusts TLC, AT's tracking, and the projection in harness/.")
NA = dict(N01="numerical accuracy against physics (tunes, beta beating, apertures): no discrete state or history to specify; an explicit-state "
              "model over fixed point numbers cannot carry lattice optics at the required accuracy",
          N02="graphical output: what a figure shows is not state the specification can observe; C22 covers that nothing is modified")
extra = {p: t for p, t in getattr(props, "NOTES", {}).items()}
checks = [dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough",
               technique="TLA+ specification (TLC): trace validation of recorded executions, model behaviours replayed into the code",
               level="model_checking", level_note=extra.get(p, "") + NOTE) for p in ids if p in props.PARTS]
na = [dict(property=p, reason=NA.get(p, "not built yet")) for p in ids if p not in props.PARTS]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Language: TLA+ checked with TLC (see DESIGN.md).")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), len(na))
