"""mkseed.py SPEC.py...: build /verif/seeded/<id>/ from a seed description and confirm it (tests pass, demo distinguishes).
A description defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
SH = '''#!/bin/bash
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 \\
  /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def build(spec):
    s = runpy.run_path(spec)
    d = os.path.join(V, "seeded", s["ID"])
    work = tempfile.mkdtemp(prefix="seed_")
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        demo = os.path.join(work, "demo")
        os.makedirs(demo)
        open(os.path.join(demo, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
        open(os.path.join(demo, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        run = lambda: subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=280)
        p0 = run()
        if p0.returncode != 0:
            return s["ID"], "demo fails on clean tree: " + p0.stderr[-800:] + p0.stdout[-300:]
        for f, old, new in s["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["ID"], f"edit matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        # the changed lines must be original lines
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=repo, capture_output=True, text=True).stdout.strip()
        for f, _, _ in s["EDITS"]:
            bl = subprocess.run(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd=repo, capture_output=True, text=True).stdout.splitlines()
            orig = set(l.split(")", 1)[1][1:] for l in bl if l.lstrip("^").startswith(base[:39]))
            rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            for l in rem:
                if l.strip() and l not in orig and len(s["EDITS"]) == 1:
                    print("WARNING", s["ID"], "changes a line that is not original:", l)
        p1 = run()
        if p1.returncode == 0:
            return s["ID"], "demo passes with the change"
        rep = os.path.join(work, "j.xml")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-x"],
                           cwd=repo, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
        if t.returncode != 0:
            return s["ID"], "tests fail: " + "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "Error" in l)[-600:]
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(demo, d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        return s["ID"], "ok: " + (p1.stderr.strip().splitlines() or p1.stdout.strip().splitlines() or [""])[-1][:150]
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for r in ex.map(build, sys.argv[1:]):
            print(*r)
