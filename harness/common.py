"""Environment, TLC runner, evidence and verdict plumbing shared by all checks."""
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.environ.get("PYSC_VERIF_EVID", os.path.join(VERIF, "evidence"))
PY = "/opt/venv/bin/python"
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="pysc_verif_")
    return SCRATCH


def cleanup():
    global SCRATCH
    if SCRATCH and os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH, ignore_errors=True)
    SCRATCH = None


class TlcError(RuntimeError):
    pass


def _unescape(s):
    out, k = [], 0
    while k < len(s):
        if s[k] == "\\" and k + 1 < len(s):
            out.append({"n": "\n", "t": "\t", "r": "\r"}.get(s[k + 1], s[k + 1]))
            k += 2
        else:
            out.append(s[k])
            k += 1
    return "".join(out)


class TlcResult:
    def __init__(self, out):
        self.out = out
        self.verdicts, self.lines = [], {}
        for line in out.splitlines():
            m = re.match(r'^"([A-Z]+) (.*)"$', line)
            if m:
                val = json.loads(_unescape(m.group(2)))
                self.lines.setdefault(m.group(1), []).append(val)
        self.verdicts = self.lines.get("VERDICT", [])
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "", 0))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            self.generated = max(self.generated, int(m[-1].replace(",", "")))
        self.violated = re.findall(r"Error: (?:Invariant|Action property|Temporal properties were|Property) ?(\S+)", out)
        self.ok = "Model checking completed. No error has been found." in out


def tlc(module, cfg=None, env=None, workers=4, timeout=800, extra=(), expect_ok=True, heap="4g"):
    """Run TLC on spec/<module>.tla in a scratch copy of spec; raise TlcError on machinery failure."""
    meta = tempfile.mkdtemp(dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}", f"-Xmx{heap}", "-Xss16m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-config", os.path.join(SPEC, cfg or module + ".cfg"), "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise TlcError(f"TLC timeout on {module}") from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult(p.stdout)
    if expect_ok and not res.ok and "-simulate" not in extra:
        raise TlcError(f"TLC failed on {module}\n" + p.stdout[-6000:] + p.stderr[-2000:])
    return res


def write_trace(obj, name="trace.json"):
    path = os.path.join(scratch(), name)
    with open(path, "w") as f:
        json.dump(obj, f, separators=(",", ":"))
    return path


class Ended:
    def __init__(self, returncode, stdout, stderr):
        self.returncode, self.stdout, self.stderr = returncode, stdout, stderr


def run_driver(script, args, timeout=500):
    """Run a driver (code under test) in its own interpreter; the driver writes the trace file given as --out.
    Its whole process group is ended with it; return code None: no end within the time."""
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONSTARTUP")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", MPLCONFIGDIR=os.path.join(scratch(), "mpl"), TMPDIR=scratch())
    p = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "harness", script), *map(str, args)],
                         cwd=scratch(), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        err = p.communicate(timeout=timeout)[1]
        return Ended(p.returncode, "", err)
    except subprocess.TimeoutExpired:
        return Ended(None, "", f"no end within {timeout} s")
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def evidence(prop, tier, seed, coverage, wall, assumptions=None, violations=None):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage, wall_s=round(wall, 2))
    if assumptions:
        d["assumptions"] = assumptions
    if violations is not None:
        d["violations"] = violations
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)
