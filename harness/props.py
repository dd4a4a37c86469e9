"""Which drivers, specifications and verdicts decide which property."""
import concurrent.futures
import json
import os
import random
import re
import shutil
import time

import common
import core_ops

BUDGET = 480          # seconds a thorough check spends on repeated rounds


class Ctx:
    def __init__(self, prop, tier, seed, t0, nparts):
        self.prop, self.tier, self.seed, self.t0, self.nparts = prop, tier, seed, t0, nparts
        self.thorough = tier == "thorough"
        self.start = time.time()

    def more(self):
        """another round of a thorough check?"""
        return self.thorough and time.time() - self.start < BUDGET / self.nparts and time.time() - self.t0 < 700


def driver(script, args):
    """Run a driver.  On the unchanged code none fails (all its randomness is seeded), so a failure is a violation: the code under test
    raised where nothing may be raised, returned something that cannot even be recorded, killed its interpreter or did not end.
    Only failures of the sandbox itself are machinery errors."""
    p = common.run_driver(script, args)
    if p.returncode == 0:
        return None
    last = (p.stderr.splitlines() or [""])[-1]
    if not any(x in last for x in ("MemoryError", "OSError", "BlockingIOError", "No space", "PermissionError", "FileNotFoundError")):
        return dict(key="crash", kind="crash", driver=script, args=[str(a) for a in args], stderr=p.stderr[-3000:])
    raise RuntimeError(f"driver {script} failed: {p.stderr[-3000:]}")


def brief(step):
    return {k: v for k, v in step.items() if k not in ("d", "ret", "argsok") and v not in ([], "")}


def trace_part(script, module, args, filt, key=None, assume=(), cfg=None):
    """Record executions with a driver, decide them with the trace specification `module`, keep the verdicts of this property."""
    def part(ctx):
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], steps=0)
        viol, rnd = [], 0
        while True:
            out = os.path.join(common.scratch(), f"{module}_{rnd}.json")
            crash = driver(script, ["--out", out, "--seed", ctx.seed * 1000 + rnd, *args(ctx)])
            if crash:
                return cov, [crash], list(assume)
            with open(out) as fh:
                traces = json.load(fh)["traces"]
            if traces:
                res = common.tlc(module, cfg=cfg, env=dict(TRACE=out), workers=6, expect_ok=False)
                stuck = None
                if not res.ok:      # a recorded value outside of everything the specification can compare (the unchanged code records none)
                    if not any(x in res.out for x in ("Overflow when computing", "Attempted to", "evaluating the")):
                        raise common.TlcError(f"TLC failed on {module}\n" + res.out[-6000:])
                    m = re.findall(r"^(?:/\\ )?(t|i) = (\d+)", res.out, re.M)
                    at = {k: int(x) for k, x in m}
                    stuck = dict(t=at.get("t", 1), step=at.get("i", 0) + 1, op="", kind="unjudgeable", key="", exp="a value the specification can compare", got=res.out[-1500:])
                cov["states"] += res.distinct
                cov["transitions"] += res.generated
                cov["traces_validated_against_impl"] += len(traces)
                cov["steps"] += sum(len(t["steps"]) for t in traces)
                for t in traces[:2]:
                    cov["samples"].append(dict(spec=module, trace=[brief(s) for s in t["steps"][:6]]))
                for v in res.verdicts + [stuck] * (stuck is not None):
                    t = traces[v["t"] - 1]
                    st = t["steps"][v["step"] - 1] if 0 < v.get("step", 0) <= len(t["steps"]) else {}
                    if v is stuck or filt(v, st, t):
                        viol.append(dict(key=(key(v, st, t) if key else "") or v.get("op", ""), verdict=v, step=brief(st),
                                         meta={k: x for k, x in t.items() if k not in ("steps", "init")},
                                         history=[brief(s) for s in t["steps"][:v.get("step", 0)]][-12:]))
            else:       # nothing of what is asked for could be done
                viol.append(dict(key="vacuous", kind="vacuous", driver=script, args=args(ctx)))
            os.unlink(out)
            rnd += 1
            if viol or not ctx.more():
                return cov, viol, list(assume)
    return part


# ------------------------------------------------------------------ Core: registry, setpoints, fields
CHILDREN = {0: {6}, 1: {6}, 2: {2}, 3: {0, 2, 7, 10}}      # of every variant of the toy lattice
CORE_ASSUME = ("values on a dyadic grid of 1/4096 so that double and fixed point arithmetic agree exactly; what is not "
               "representable there is not claimed",)


def core(profile, filt, n=14, steps=28):
    return trace_part("core_driver.py", "CoreTrace",
                      lambda c: ["--n", n * (4 if c.thorough else 2), "--steps", steps, "--profile", profile], filt,
                      assume=CORE_ASSUME)


def core_mc(filt, num=8):
    """Explore the specification itself exhaustively, then replay behaviours generated by TLC into pySC."""
    def part(ctx):
        s = common.scratch()
        for v in (0, 2):
            c = driver("core_driver.py", ["--init", os.path.join(s, f"i{v}"), "--variant", v])
            if c:
                return {}, [c], []
        with open(os.path.join(s, "o2"), "w") as fh:
            json.dump(core_ops.small(), fh)
        r = common.tlc("CoreMC", cfg="CoreMC_deep.cfg" if ctx.thorough else "CoreMC.cfg",
                       env=dict(INIT=os.path.join(s, "i2"), OPS=os.path.join(s, "o2")), workers=8)
        cov = dict(states=r.distinct, transitions=r.generated, traces_validated_against_impl=0, samples=[], steps=0,
                   model_states=r.distinct)
        viol, rnd = [], 0
        while True:
            with open(os.path.join(s, "o0"), "w") as fh:
                json.dump(core_ops.toy(random.Random(ctx.seed * 977 + rnd)), fh)
            r = common.tlc("CoreMC", cfg="CoreSim.cfg", env=dict(INIT=os.path.join(s, "i0"), OPS=os.path.join(s, "o0")), workers=4,
                           extra=("-simulate", f"num={num}", "-depth", "14", "-seed", str(ctx.seed + 17 * rnd)), expect_ok=False)
            beh = r.lines.get("BEH", [])
            if not beh or "Error:" in r.out:
                raise common.TlcError("simulation of CoreMC failed\n" + r.out[-3000:])
            with open(os.path.join(s, "beh"), "w") as fh:
                json.dump(beh, fh)
            cov["transitions"] += r.generated
            sub = trace_part("core_driver.py", "CoreTrace", lambda c: ["--ops", os.path.join(s, "beh")], filt)
            c, v, _ = sub(Ctx(ctx.prop, "quick", ctx.seed, ctx.t0, 1))
            for k in ("states", "transitions", "traces_validated_against_impl", "steps"):
                cov[k] += c.get(k, 0)
            cov["samples"] += [dict(behaviour_of="CoreMC", ops=beh[0][:5])]
            viol += v
            rnd += 1
            if viol or not ctx.more():
                return cov, viol, list(CORE_ASSUME)
    return part


SETTERS = {"set_mag", "set_cm", "upd_mag", "set_cav", "upd_cav", "get_cm", "sys_mult", "rand_mult"}
REGS = {"reg_bpm", "reg_rf", "reg_mag", "reg_sup"}
FIELDS = {"PA", "PB", "MO", "KA"}


def f_c01(v, st, t):
    return v["field"] == "user" or (v["field"] == "ideal" and v["op"] != "edit") or (v["kind"] == "el" and v["role"] == "other" and v["op"] in SETTERS | REGS)


def f_c02(v, st, t):
    return v["op"] == "copy" or (v["mi"] != v["m0"] and v["kind"] in ("el", "top")) or (v["op"] == "edit" and v["field"] != "user")


def f_c41(v, st, t):
    return v["op"] in ("new", "edituser") or (v["mi"] != v["m0"] and v["kind"] in ("el", "top")) or st.get("what") == "apply to new"


def f_c03(v, st, t):
    return v["kind"] == "args"


def f_c04(v, st, t):
    return v["op"] in REGS or (v["kind"] == "top" and v["op"] in SETTERS and v["field"] not in ("user", "ideal"))


def f_c05(v, st, t):
    return v["op"] == "bad"


def f_c06(v, st, t):
    return v["op"] in ("set_mag", "set_cm", "upd_mag") and (v["field"] in FIELDS or v["kind"] == "exc" or v["role"] == "other")


def f_c07(v, st, t):
    return v["op"] == "set_mag"


def f_c08(v, st, t):
    return v["op"] in ("set_cm", "get_cm")


def f_c09(v, st, t):
    return v["op"] == "set_mag"


def f_c10(v, st, t):
    return v["op"] in SETTERS | REGS and v["kind"] == "el" and (v["role"] == "child" or v["ord"] in CHILDREN[t["variant"]] or v["field"] == "kids") \
        or (v["op"] in ("upd_mag", "set_mag", "set_cm") and v["kind"] == "exc")


def f_c11(v, st, t):
    return v["op"] in ("sys_mult", "rand_mult") or (v["op"] in ("set_mag", "set_cm", "upd_mag")
                                                     and (v["field"] in FIELDS or v["kind"] == "exc"))


def f_c12(v, st, t):
    return v["op"] in ("set_cav", "upd_cav") or v["field"] == "rf"


def f_c13(v, st, t):
    return v["op"] == "switch" or v["field"] == "pm"


def f_c22(v, st, t):
    return (v["op"] == "frame" and st.get("what") in OBSERVE) or v["op"] in ("get_cm", "verify") and v["kind"] in ("el", "top")


OBSERVE = {"bpm", "bpms", "trans", "bunch", "allel", "sup", "modelring", "modelrm", "modeldisp", "getcm"}


def f_c38(v, st, t):
    return v["op"] == "verify"


# ------------------------------------------------------------------ Errors: uncertainties and draws
def errors(filt, n=40):
    return trace_part("errors_driver.py", "ErrorsTrace", lambda c: ["--n", n * (4 if c.thorough else 2)], filt,
                      assume=("draws are judged by their bounds, their identity (12 digits) and their spread, not by a goodness-of-fit test",))


def f_c14(v, st, t):
    return v["op"] in ("apply", "settle") or v["kind"] == "spread"


def f_c15(v, st, t):
    return v["kind"] == "errorfree" or (v["op"] in ("apply", "settle") and (v["nth"] > 1 or v["kind"] == "zero"))


def f_c11e(v, st, t):
    return v["op"] == "mult"


# ------------------------------------------------------------------ Support and Align: misalignments
def mc(module, deep=None, extra=()):
    """Explore a specification by itself, exhaustively."""
    def part(ctx):
        r = common.tlc(module, cfg=(deep if ctx.thorough and deep else module) + ".cfg", workers=8, expect_ok=False)
        if not r.ok:
            raise common.TlcError(f"{module} does not satisfy its own properties\n" + r.out[-3000:])
        return dict(states=r.distinct, transitions=r.generated, traces_validated_against_impl=0, samples=[], steps=0, model_states=r.distinct), [], []
    return part


def support(n=60):
    return trace_part("support_driver.py", "SupportTrace", lambda c: ["--n", n * (4 if c.thorough else 2)], lambda v, st, t: True,
                      assume=("offsets compared to 8/2^20; pitch and yaw of a structure whose ends carry another structure are not claimed",))


def align(filt, n=100):
    return trace_part("align_driver.py", "AlignTrace", lambda c: ["--n", n * (4 if c.thorough else 2)], filt,
                      assume=("rotations up to 3e-5 (2e-8), exact rolls for straight elements, bending angle with sine 3/5",))


# ------------------------------------------------------------------ Beam: injections, readings, losses
def beam(kinds, filt, n=64):
    return trace_part("beam_driver.py", "BeamTrace", lambda c: ["--n", n * (4 if c.thorough else 2), "--kinds", kinds], filt,
                      assume=("particles on a grid of 2^-14 through drifts, thin linear kicks and rectangular apertures; closed orbits are taken from the "
                              "tracking library; no claim for particles within 16/2^20 of an aperture",))


def multi(st):
    return st.get("S", 1) > 1 or st.get("mode") == "PORB"


def f_c18(v, st, t):
    return v["kind"] in ("reading", "shape", "badbpm", "position", "indep") or (v["kind"] == "spread" and v["op"] == "read") or (v["kind"] == "exc" and v["op"] in ("read", "allel", "indep") and not multi(st))


def f_c19(v, st, t):
    return v["kind"] in ("dark", "bright", "sum", "meansum", "turns", "frac") or v["kind"] == "exc" and v["op"] in ("read", "trans")


def f_c20(v, st, t):
    return v["kind"] in ("mean", "meansum", "err", "mode") or v["kind"] in ("dark", "bright", "exc", "shape") and multi(st)


def f_c21(v, st, t):
    return v["op"] == "gen" or v["kind"] == "post"


def steer(kinds, n):
    return trace_part("steer_driver.py", "SteerTrace", lambda c: ["--n", n * (4 if c.thorough else 2), "--kinds", kinds], lambda v, st, t: True,
                      assume=("single-particle injections steered by a script, response matrices with a known pseudo-inverse (signed partial permutations) or exact drift-line "
                              "responses; correctors given in ring order; closed-orbit corrections are judged at their end only",))


def steer_gen(kind, num=24):
    """Replay behaviours of the protocols, generated by TLC, into pySC."""
    def part(ctx):
        s = common.scratch()
        total, rnd = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], steps=0), 0
        while True:
            r = common.tlc("SteerGen", cfg=f"SteerGen_{kind}.cfg", workers=4, expect_ok=False,
                           extra=("-simulate", f"num={num * (3 if ctx.thorough else 1)}", "-depth", "70", "-seed", str(ctx.seed * 31 + rnd)))
            beh = r.lines.get("BEH", [])
            if not beh or "Error:" in r.out:
                raise common.TlcError("simulation of SteerGen failed\n" + r.out[-3000:])
            plans = os.path.join(s, f"plans_{kind}")
            with open(plans, "w") as fh:
                json.dump(beh, fh)
            sub = trace_part("steer_driver.py", "SteerTrace", lambda c: ["--plans", plans], lambda v, st, t: True)
            c, v, _ = sub(Ctx(ctx.prop, "quick", ctx.seed + 7 * rnd, ctx.t0, 1))
            for k in ("states", "transitions", "traces_validated_against_impl", "steps"):
                total[k] += c.get(k, 0)
            total["transitions"] += r.generated
            total["samples"] = [dict(behaviour_of="SteerGen", **beh[0])]
            rnd += 1
            if v or not ctx.more():
                return total, v, []
    return part


# ------------------------------------------------------------------ Model: model lattice, model and measured responses
def model(kinds, filt, n):
    return trace_part("model_driver.py", "ModelTrace", lambda c: ["--n", n * (4 if c.thorough else 2), "--kinds", kinds], filt,
                      assume=("linear machines of drifts, thin kicks and thin gradients, compared to 40/2^16 m/rad; on closed orbits the model and the measured "
                              "response are compared with each other (2 per cent)",))


def f_c24(v, st, t):
    return v["op"] in ("rm", "pred") or v["op"] == "bad" and not st["what2"].startswith("amp") or v["op"] == "orb" and st.get("what2") in ("rm", "eta")


def f_c28(v, st, t):
    return v["op"] == "bad" and st["what2"].startswith("amp") or v["op"] in ("exc", "cav", "meas", "disp") or v["op"] == "orb" and st.get("what2") not in ("rm", "eta")


# ------------------------------------------------------------------ Scan: tune scan and RF corrections
def scan(kinds, n):
    return trace_part("scan_driver.py", "ScanTrace", lambda c: ["--n", n * (4 if c.thorough else 2), "--kinds", kinds], lambda v, st, t: True,
                      assume=("beams scripted at every injection: losses per particle and turn (tune scan), energy drift as a function of the RF parameter (RF corrections); "
                              "measurements are either clear or hopeless, borderline precision is not judged",))


# ------------------------------------------------------------------ Bba: beam-based alignment
def bba(kinds, filt, n):
    return trace_part("bba_driver.py", "BbaTrace", lambda c: ["--n", n * (4 if c.thorough else 2), "--kinds", kinds], filt,
                      assume=("straight noise-free trajectories up to the magnet under test (thin quadrupoles, skew quadrupoles and sextupoles), positions on a grid of "
                              "2^-20 m, results to 2^-22 m; BPMs without calibration errors and roll",))


# ------------------------------------------------------------------ Fit: fits and linear algebra
FIT_ASSUME = dict(
    tune="stable rings of 6 cells within 1.5 % of the design strengths; strength changes compared to 2^-20, tunes to the fit tolerance",
    chroma="rings of 4 or 6 cells; strength changes compared to 2^-16, chromaticities to the fit tolerance",
    inj="straight lines with kicks (drift fit) or thin gradients (trajectory fit), noise-free BPMs, 3/2^20 m",
    loco="Jacobians on the machine (useIdealRing=False) against independently perturbed copies; solvers on well-conditioned linear problems with known solution, the "
         "Gauss-Newton one with unit weights and zero initial guess",
    circ="elements with pass method DriftPass are the drifts",
    pinv="matrices built from signed partial permutations and Hadamard matrices with chosen singular values")


def fit(kind, n):
    return trace_part("fit_driver.py", "FitTrace", lambda c: ["--n", n * (4 if c.thorough else 2), "--kinds", kind], lambda v, st, t: True, assume=(FIT_ASSUME[kind],))


def statistics(n):
    return trace_part("stats_driver.py", "StatsTrace", lambda c: ["--n", n * (4 if c.thorough else 2)], lambda v, st, t: True,
                      assume=("integers with errors 1, 1/2 and 1/4, circular statistics for values close together or mirrored about a centre; circular_rms is not claimed",))


GUARDED = (("core", 4, ["--steps", 20, "--profile", "args,bad,all"]), ("errors", 3, []), ("support", 6, []), ("align", 6, []),
           ("beam", 12, ["--kinds", "toy,orb,gen,noise"]), ("model", 24, ["--kinds", "toy,meas,orb,ring"]),
           ("steer", 20, ["--kinds", "first,stitch,balance,correct,orb"]), ("scan", 12, ["--kinds", "rf,tune,static"]),
           ("bba", 16, ["--kinds", "tbt,fake"]), ("fit", 30, ["--kinds", "loco,chroma,tune,inj,circ,pinv"]), ("stats", 24, []), ("args", 3, []))


def guarded(mode):
    """Run every driver with all outermost calls into pySC recorded: what belongs to the caller, before and after each call."""
    def one(job):
        name, n, args, seed, thorough, d = job
        os.makedirs(d)
        crash = driver("guard_main.py", [mode, d, name + "_driver.py", "--out", d + ".json", "--n", n * (4 if thorough else 2), "--seed", seed, *args])
        calls = []
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f)) as fh:
                calls.append([json.loads(x) for x in fh if x.endswith("\n")])
        shutil.rmtree(d)
        return crash, [dict(driver=name, steps=c[k:k + 100]) for c in calls for k in range(0, len(c), 100)]

    def part(ctx):
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], steps=0)
        viol, rnd = [], 0
        while True:
            jobs = [(name, n, args, ctx.seed * 1000 + 500 + rnd, ctx.thorough, os.path.join(common.scratch(), f"guard_{name}_{rnd}")) for name, n, args in GUARDED]
            common.scratch()
            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                res = list(ex.map(one, jobs))
            traces = [t for _, ts in res for t in ts]
            viol += [c for c, _ in res if c]
            out = common.write_trace(dict(traces=traces), f"guard_{rnd}.json")
            r = common.tlc("ArgsTrace", env=dict(TRACE=out), workers=6)
            os.unlink(out)
            cov["states"] += r.distinct
            cov["transitions"] += r.generated
            cov["traces_validated_against_impl"] += len(traces)
            cov["steps"] += sum(len(t["steps"]) for t in traces)
            if not rnd:
                cov["samples"] += [dict(functions=sorted({s["f"] for t in traces for s in t["steps"]}))]
            for v in r.verdicts:
                viol.append(dict(key=v["op"], verdict=v, meta=dict(driver=traces[v["t"] - 1]["driver"])))
            rnd += 1
            if viol or not ctx.more():
                return cov, viol, ["only outermost calls of pySC are judged, for the arrays, lists and tables handed over (now or earlier) that the machine did not own before"
                                   if mode == "args" else "the guard compares the lattices around every outermost call that is given a machine" if mode == "lattice" else
                                   "the guard compares the machine around every outermost observation"]
    return part


PARTS = {
    "C01": [core("all2,observe,copy", f_c01), guarded("lattice")],
    "C02": [core("copy,copy,all2", f_c02)],
    "C03": [core("args,bad,all", f_c03), guarded("args")],
    "C04": [core("reg,reg,all", f_c04, n=18), core_mc(f_c04)],
    "C05": [core("bad,bad", f_c05, n=18)],
    "C06": [core("fields,mult,cm", f_c06), core_mc(f_c06)],
    "C07": [core("mag,mag,fields", f_c07), core_mc(f_c07)],
    "C08": [core("cm,cm", f_c08, n=18), core_mc(f_c08)],
    "C09": [core("comp,comp", f_c09, n=18), core_mc(f_c09)],
    "C10": [core("fields,comp,split", f_c10), core_mc(f_c10), align(lambda v, st, t: v["kind"] in ("child", "exc"), 60)],
    "C11": [core("mult,mult,fields", f_c11), errors(f_c11e, 16)],
    "C12": [core("cav,cav", f_c12, n=18), core_mc(f_c12)],
    "C13": [core("switch,switch", f_c13, n=18), core_mc(f_c13)],
    "C14": [errors(f_c14), mc("ErrorsMC", "ErrorsMC_deep")],
    "C15": [errors(f_c15), mc("ErrorsMC", "ErrorsMC_deep")],
    "C16": [support(), mc("SupportMC", "SupportMC_deep")],
    "C17": [align(lambda v, st, t: v["kind"] not in ("machinery", "child")), mc("AlignMC", "AlignMC_deep")],
    "C18": [beam("toy,toy,orb,toy,noise", f_c18), mc("BeamMC", "BeamMC_deep")],
    "C19": [beam("toy", f_c19), mc("BeamMC", "BeamMC_deep")],
    "C20": [beam("toy,toy,toy,orb", f_c20), mc("BeamMC", "BeamMC_deep")],
    "C21": [beam("gen,gen,toy", f_c21, 36)],
    "C22": [core("observe,observe", f_c22, n=18), guarded("machine")],
    "C23": [model("ring", lambda v, st, t: True, 96)],
    "C24": [model("toy,toy,orb", f_c24, 120), mc("ModelMC", "ModelMC_deep")],
    "C28": [model("meas,meas,orb", f_c28, 96), mc("ModelMC", "ModelMC_deep")],
    "C25": [steer("first", 96), steer_gen("first"), mc("SteerMC", "SteerMC_deep")],
    "C26": [steer("stitch,balance", 128), steer_gen("two"), mc("SteerMC", "SteerMC_deep")],
    "C27": [steer("correct,correct,correct,orb", 128), steer_gen("correct"), mc("SteerMC", "SteerMC_deep")],
    "C29": [scan("tune", 96), mc("ScanMC", "ScanMC_deep")],
    "C30": [scan("rf,rf,rf,rf,rf,rf,rf,static", 128), mc("RfMC", "RfMC_deep")],
    "C31": [bba("tbt", lambda v, st, t: v["kind"] != "apply", 160), mc("BbaMC", "BbaMC_deep")],
    "C32": [bba("fake,fake,tbt", lambda v, st, t: v["kind"] in ("apply", "offset") or v["op"] in ("apply", "fake"), 240), mc("BbaMC", "BbaMC_deep")],
    "C33": [fit("chroma", 160)],
    "C41": [core("new,new,new", f_c41)],
    "C40": [fit("tune", 64)],
    "C34": [fit("inj", 320), mc("FitMC", "FitMC_deep")],
    "C35": [fit("loco", 400)],
    "C36": [fit("circ", 320), mc("FitMC", "FitMC_deep")],
    "C37": [fit("pinv", 480), mc("FitMC", "FitMC_deep")],
    "C38": [core("verify,verifybad,reg", f_c38)],
    "C39": [statistics(250), mc("StatsMC", "StatsMC_deep")],
}
