#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]   (see DESIGN.md)
Decides one property: runs drivers on the code in /repo, lets TLC decide the recorded executions against spec/, explores
the specification itself, writes evidence/<property>.json.  Exit 0: held on everything explored, 1: VIOLATION, 2: machinery."""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import common  # noqa: E402
import props  # noqa: E402


def known(prop):
    path = os.path.join(common.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=" + prop + " "):
                key, _, what = line[len("known: property=" + prop + " "):].strip().partition(" | ")
                out.append((key, what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    t0 = time.time()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    viol, assumptions, rc = [], [], 0
    try:
        for part in props.PARTS[a.prop]:
            ctx = props.Ctx(a.prop, a.tier, a.seed, t0, len(props.PARTS[a.prop]))
            c, v, asm = part(ctx)
            for k in ("states", "transitions", "traces_validated_against_impl"):
                cov[k] += c.get(k, 0)
            cov["samples"] += c.get("samples", [])
            for k, x in c.items():
                if k not in cov:
                    cov[k] = x
            viol += v
            assumptions += [x for x in asm if x not in assumptions]
            if viol and a.tier == "quick":
                break
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        common.cleanup()
    listed, new = known(a.prop), []
    for v in viol:
        hit = [w for k, w in listed if k == v.get("key")]
        if hit:
            print(f"KNOWN-FINDING: property={a.prop} {hit[0]}")
        else:
            new.append(v)
    if new:
        d = os.path.join(common.EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, a.prop + ".json")
        json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, violations=new[:20]), open(path, "w"), indent=1, default=str)
        for v in new[:5]:
            print("  ", json.dumps({k: x for k, x in v.items() if k != "trace"}, default=str)[:1200])
        print(f"VIOLATION property={a.prop} replay={path}")
        rc = 1
    if rc != 2:
        cov["samples"] = cov["samples"][:8]
        common.evidence(a.prop, a.tier, a.seed, cov, time.time() - t0, assumptions,
                        len(new))
        if rc == 0:
            print(f"OK property={a.prop} tier={a.tier} states={cov['states']} traces={cov['traces_validated_against_impl']} "
                  f"wall={time.time() - t0:.1f}s")
    sys.exit(rc)


if __name__ == "__main__":
    main()
