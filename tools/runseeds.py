"""runseeds.py [ids...]: run the check of every planted change's property (and with --all every check) on a copy of /repo with it applied."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    sid, props = job
    work = tempfile.mkdtemp(prefix="seedrun_")
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        if sid:
            subprocess.run(["git", "apply", os.path.join(V, "seeded", sid, "patch.diff")], cwd=repo, check=True)
        out = []
        for p in props:
            r = subprocess.run([os.path.join(V, "run.sh"), p], capture_output=True, text=True,
                               env=dict(os.environ, PYSC_VERIF_REPO=repo, PYSC_VERIF_EVID=os.path.join(work, "ev")))
            out.append((p, r.returncode, (r.stdout + r.stderr)[-700:] if r.returncode == 2 else r.stdout[:300]))
        return sid, out
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    verbose = "-v" in args
    args = [a for a in args if a != "-v"]
    ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
    jobs = [(i, [json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]]) for i in ids]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for sid, out in ex.map(one, jobs):
            for p, rc, txt in out:
                print(sid, p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR"), txt if verbose or rc == 2 else "", flush=True)
