"""Executes operation sequences on real machines and records every observable effect (for spec/CoreTrace.tla)."""
import argparse
import json
import multiprocessing
import os
import random
import sys

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))  # overridden only while developing the checks

import at  # noqa: E402
import numpy as np  # noqa: E402

import project as pj  # noqa: E402
from pySC.core.beam import (all_elements_reading, beam_transmission, bpm_reading, generate_bunches)  # noqa: E402
from pySC.core.lattice_setting import switch_cavity_and_radiation  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402
from pySC.lattice_properties.response_model import (SCgetModelDispersion, SCgetModelRING, SCgetModelRM)  # noqa: E402
from pySC.utils import sc_tools  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
ONE = pj.ONE


def toy_lattice(variant=0):
    """All values are small dyadic numbers, so that double and fixed point arithmetic agree exactly."""
    rf = at.RFCavity('RF', 0.0, 4.0, 3e8, 1, 2.5e9)
    qf = at.Quadrupole('QF', 0.5, 1.0)
    dr = at.Drift('D', 1.0)
    b = at.Bend('B', 1.0, 1 / 16, 0.5)
    b2 = at.Bend('B2', 0.5, 1 / 32, 0.5)
    sx = at.Sextupole('S', 0.25, 2.0)
    c = at.Corrector('C', 0.0, [0, 0])
    c.PolynomA, c.PolynomB = np.zeros(2), np.zeros(2)
    els = [rf, dr, qf, qf, dr, b, b2, sx, c, at.Monitor('BPM'), at.Drift('D2', 0.5), at.Monitor('BPM'),
           at.RFCavity('RF2', 0.0, 2.0, 3e8, 1, 2.5e9), at.Quadrupole('QS', 0.25, 0.0), at.Drift('D3', 0.25)]
    if variant == 1:      # shared drifts, shared sextupole, aperture
        dr.EApertures = np.array([0.5, 0.5])
        els = els[:10] + [sx, dr, qf] + els[10:]
    if variant == 2:      # smallest lattice with every kind of element
        els = [qf, b, b2, c, rf]
    if variant == 3:      # two split bends (one bending the other way), a bend with fringe fields, a long corrector, another kind of cavity
        bn, bn2 = at.Bend('BN', 0.5, -1 / 32, 0.25), at.Bend('BN2', 0.25, -1 / 64, 0.25)
        be = at.Bend('BE', 1.0, 1 / 16, -0.5)
        be.PassMethod = 'BndMPoleSymplectic4E2Pass'
        cl = at.Corrector('C', 0.5, [0, 0])
        cl.PolynomA, cl.PolynomB = np.zeros(2), np.zeros(2)
        rf2 = at.RFCavity('RF2', 0.0, 2.0, 3e8, 1, 2.5e9)
        rf2.PassMethod = 'CavityPass'
        els = [bn2, rf, b2, dr, qf, bn, cl, b2.deepcopy(), at.Monitor('BPM'), b, bn2.deepcopy(), be, sx, c, at.Drift('D2', 0.5), at.Monitor('BPM'), rf2,
               at.Quadrupole('QS', 0.25, 0.0), at.Drift('D3', 0.25)]
    if variant in (1, 3):
        els += [at.RFCavity('RF3', 0.0, 1.0, 3e8, 1, 2.5e9), at.Monitor('BPM')]
    lat = at.Lattice(els, name='toy', energy=2.5e9, periodicity=1)
    for el in lat:
        if el.FamName in ("QS", "S"):
            el.PolynomA = np.r_[0.0, 0.5, np.zeros(len(el.PolynomB) - 2)]
        if hasattr(el, 'Frequency'):
            el.Frequency = 8.0
            el.TimeLag = 0.5
    return lat


def f(x):
    """fixed point -> float, with the infinity sentinel"""
    return np.inf if x == pj.INF else x / ONE


def perturb(sc, sign):
    def go(v, where):
        if isinstance(v, np.ndarray):
            if v.dtype.kind == "f" and v.flags.writeable:
                v += sign * 0.25
            elif v.dtype.kind in "iu":
                v += sign
        elif isinstance(v, dict):
            for k in list(v):
                if k not in ("__x", 10 ** 6):
                    go(v[k], where)
            key = "__x" if any(isinstance(k, str) for k in v) else 10 ** 6
            if sign > 0:
                v[key] = np.zeros(1) if where == "el" else 1.0 if key == "__x" else {"__x": 1.0}
            else:
                v.pop(key, None)
        elif isinstance(v, (list, tuple)):
            for x in v:
                go(x, where)
    for ring in (sc.RING, sc.IDEALRING):
        for el in ring:
            for v in vars(el).values():
                go(v, "el")
    for part, where in ((sc.INJ, "inj"), (sc.ORD, "ord"), (sc.SIG, "sig")):
        for v in list((part if isinstance(part, dict) else vars(part)).values()):
            go(v, where)


class Recorder:
    def __init__(self, variant=0):
        self.user = toy_lattice(variant)
        self.scs = [SimulatedCommissioning(self.user)]
        self.proj = [pj.proj_machine(self.scs[0], self.user)]
        self.init = json.loads(json.dumps(self.proj[0]))
        self.steps = []

    def rec(self, op, mi, call, args=(), **fields):
        before = [pj.canon(a) for a in args]
        exc, ret = "", []
        try:
            ret = call()
        except Exception as ex:  # noqa
            exc = type(ex).__name__
        argsok = before == [pj.canon(a) for a in args]
        if op in ("copy", "new") and exc == "":
            dst = fields["dst"]
            if dst == len(self.scs) + 1:
                self.scs.append(ret)
                self.proj.append(self.proj[mi - 1])
            else:
                self.scs[dst - 1], self.proj[dst - 1] = ret, self.proj[mi - 1]
        ds = []
        for k, sc in enumerate(self.scs):
            new = pj.proj_machine(sc, self.user)
            ds.append(pj.delta(self.proj[k], new))
            self.proj[k] = new
        if op == "new" and exc == "":
            fields["fresh"] = pj.proj_fresh(ret)
        st = dict(op=op, mi=mi, exc=exc, argsok=argsok, d=ds, **fields)
        st.setdefault("ret", pj.nums(ret) if op == "get_cm" and exc == "" else [])
        self.steps.append(st)
        return exc

    # ------------------------------------------------------------ operations (all arguments are JSON values)
    def run(self, o):
        sc = self.scs[o["mi"] - 1]
        getattr(self, "op_" + o["op"])(sc, o)

    def _ords(self, o):
        n = np.array(o["ords"], dtype=int)
        form = o.get("form", 0)
        return n if form == 0 else n.tolist() if form == 1 else (int(n[0]) if len(n) == 1 else n)

    def _vals(self, o):
        v = [f(x) for x in o["vals"]]
        form = o.get("vform", 0)
        if form == 3 and all(x == int(x) for x in v if np.isfinite(x)) and np.all(np.isfinite(v)):
            v = [int(x) for x in v]
            return v[0] if len(v) == 1 else np.array(v, dtype=int) if o.get("form", 0) == 0 else v
        if len(v) == 1 and form == 2:
            return v[0]
        return np.array(v) if form in (0, 2, 3) else v

    @staticmethod
    def _kw(v):
        if isinstance(v, dict):
            return np.asarray(v["two"], dtype=float)
        if isinstance(v, list) and len(v) == 2 and isinstance(v[0], list):
            return [np.asarray(v[0], dtype=float), v[1]]
        return np.asarray(v, dtype=float) if isinstance(v, list) else v

    def op_reg_bpm(self, sc, o):
        kw = {k: self._kw(v) for k, v in o.get("kw", {}).items()}
        a = self._ords(dict(o, form=0))
        self.rec("reg_bpm", o["mi"], lambda: sc.register_bpms(a, **kw), [a, kw], ords=o["ords"],
                 kws=[[k, pj.canon(v)] for k, v in kw.items()])

    def op_reg_rf(self, sc, o):
        kw = {k: self._kw(v) for k, v in o.get("kw", {}).items()}
        a = self._ords(dict(o, form=0))
        self.rec("reg_rf", o["mi"], lambda: sc.register_cavities(a, **kw), [a, kw], ords=o["ords"],
                 kws=[[k, pj.canon(v)] for k, v in kw.items()])

    def op_reg_mag(self, sc, o):
        kw = {k: self._kw(v) for k, v in o.get("kw", {}).items()}
        t = dict(cf=o["typ"].get("cf", False), hcm=o["typ"].get("hcm", []), vcm=o["typ"].get("vcm", []),
                 skq=o["typ"].get("skq", []), kids=o["typ"].get("kids", []))
        full = dict(kw)
        if t["cf"]:
            full["CF"] = 1
        for k, name in (("hcm", "HCM"), ("vcm", "VCM"), ("skq", "SkewQuad")):
            if t[k]:
                full[name] = f(t[k][0])
        a = self._ords(dict(o, form=0))
        if t["kids"]:
            full["MasterOf"] = np.array([dict(map(tuple, t["kids"]))[i] for i in o["ords"]]).T
        self.rec("reg_mag", o["mi"], lambda: sc.register_magnets(a, **full), [a, full], ords=o["ords"], typ=t,
                 kws=[[k, pj.canon(v)] for k, v in kw.items()])

    def op_reg_sup(self, sc, o):
        a = np.array(o["pairs"], dtype=int).T
        kw = {k: self._kw(v) for k, v in o.get("kw", {}).items()}
        kws = []
        for k, v in kw.items():
            arr, wrap = (v[0], (lambda x: [x, v[1]])) if isinstance(v, list) else (v, (lambda x: x))
            kws.append([o["kind"] + k, pj.canon(wrap(arr if arr.ndim == 1 else arr[0])),
                        "" if arr.ndim == 1 else pj.canon(wrap(arr[1]))])
        self.rec("reg_sup", o["mi"], lambda: sc.register_supports(a, o["kind"], **kw), [a, kw], kind=o["kind"],
                 pairs=o["pairs"], kws=kws)

    def op_set_mag(self, sc, o):
        a, v = self._ords(o), self._vals(o)
        kw = {}
        if o["method"] != "abs" or o.get("vform") == 1:
            kw["method"] = o["method"]
        if o["comp"]:
            kw["dipole_compensation"] = True
        self.rec("set_mag", o["mi"], lambda: sc.set_magnet_setpoints(a, v, o["skew"], o["order"], **kw), [a, v],
                 ords=o["ords"], vals=o["vals"], skew=o["skew"], order=o["order"], method=o["method"], comp=o["comp"])

    def op_set_cm(self, sc, o):
        a, v = self._ords(o), self._vals(o)
        kw = {} if o["method"] == "abs" and o.get("vform") != 1 else dict(method=o["method"])
        self.rec("set_cm", o["mi"], lambda: sc.set_cm_setpoints(a, v, bool(o["dim"]), **kw), [a, v],
                 ords=o["ords"], vals=o["vals"], dim=o["dim"], method=o["method"])

    def op_get_cm(self, sc, o):
        a = self._ords(o)
        self.rec("get_cm", o["mi"], lambda: sc.get_cm_setpoints(a, bool(o["dim"])), [a], ords=o["ords"], dim=o["dim"])

    def op_set_cav(self, sc, o):
        a, v = self._ords(o), self._vals(o)
        par = dict(V="Voltage", F="Frequency", P="TimeLag")[o["par"]]
        kw = {} if o["method"] == "abs" and o.get("vform") != 1 else dict(method=o["method"])
        self.rec("set_cav", o["mi"], lambda: sc.set_cavity_setpoints(a, v, par, **kw), [a, v],
                 ords=o["ords"], vals=o["vals"], par=o["par"], method=o["method"])

    def op_upd_mag(self, sc, o):
        a = np.array(o["ords"], dtype=int)
        self.rec("upd_mag", o["mi"], (lambda: sc.update_magnets()) if o["all"] else (lambda: sc.update_magnets(a)), [a],
                 all=o["all"], ords=o["ords"])

    def op_upd_cav(self, sc, o):
        a = np.array(o["ords"], dtype=int)
        self.rec("upd_cav", o["mi"], (lambda: sc.update_cavities()) if o["all"] else (lambda: sc.update_cavities(a)), [a],
                 all=o["all"], ords=o["ords"])

    def op_sys_mult(self, sc, o):
        a, tab = self._ords(dict(o, form=0)), np.array([[f(x), f(y)] for x, y in o["tab"]])
        self.rec("sys_mult", o["mi"], lambda: sc.set_systematic_multipole_errors(a, tab, o["order"], o["skew"]), [a, tab],
                 ords=o["ords"], tab=o["tab"], order=o["order"], skew=o["skew"])

    def op_rand_mult(self, sc, o):
        a, tab = self._ords(dict(o, form=0)), np.array([[f(x), f(y)] for x, y in o["tab"]])
        self.rec("rand_mult", o["mi"], lambda: sc.set_random_multipole_errors(a, tab), [a, tab], ords=o["ords"], tab=o["tab"])

    def op_switch(self, sc, o):
        def call():
            sc.RING = switch_cavity_and_radiation(sc.RING, *o["modes"])
        self.rec("switch", o["mi"], call, [], modes=o["modes"])

    def op_copy(self, sc, o):
        if o.get("plot"):
            self.rec("frame", o["mi"], lambda: setattr(sc, "plot", True), may=[], maytop=["other"], mayraise=False, what="plot")
        self.rec("copy", o["mi"], sc.very_deep_copy, [], dst=o["dst"])
        if o.get("plot"):
            for mi in {o["mi"], o["dst"]}:
                self.rec("frame", mi, lambda: setattr(self.scs[mi - 1], "plot", False), may=[], maytop=["other"], mayraise=False, what="plot")

    def op_new(self, sc, o):
        self.rec("new", o["mi"], lambda: SimulatedCommissioning(self.user), dst=o["dst"])
        if o.get("apply"):          # nothing is registered
            self.rec("frame", o["dst"], lambda: self.scs[o["dst"] - 1].apply_errors(o["apply"]), may=[], maytop=[], mayraise=False, what="apply to new")

    def op_edituser(self, sc, o):
        """The user goes on working on the lattice the machines were made from."""
        for sign in (1, -1):
            def call():
                for el in self.user:
                    for v in vars(el).values():
                        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                            v += sign * 0.25
                    el.Length += sign
                self.user[0], self.user[1] = self.user[1], self.user[0]
            self.rec("edituser", o["mi"], call, what=f"lattice of the user {sign:+d}")

    def op_edit(self, sc, o):
        """Everything mutable that can be reached from one machine is changed in place, and put back."""
        for sign in (1, -1):
            self.rec("edit", o["mi"], lambda: perturb(sc, sign), what=f"in place {sign:+d}")

    def op_verify(self, sc, o):
        self.rec("verify", o["mi"], sc.verify_structure)

    def op_brk(self, sc, o):
        """Made inconsistent, verified, and put back."""
        old = []
        for ord_, field, _ in o["sets"]:
            obj, name = (getattr(sc, field.split(".")[0]), field.split(".")[1]) if ord_ < 0 else (sc.RING[ord_], field)
            had = name in obj if isinstance(obj, dict) else name in vars(obj)
            old.append((obj, name, had, getattr(obj, name, None)))
        self.op_poke(sc, o)
        self.op_verify(sc, o)

        def back():
            for obj, name, had, v in old[::-1]:
                if had:
                    setattr(obj, name, v)
                else:
                    delattr(obj, name)
        self.rec("poke", o["mi"], back)
        if o["again"]:
            self.op_verify(sc, o)

    def op_poke(self, sc, o):
        def call():
            for ord_, field, val in o["sets"]:
                if ord_ < 0:
                    name = field.split(".")
                    setattr(getattr(sc, name[0]), name[1], np.zeros(val))
                elif field == "delattr":
                    delattr(sc.RING[ord_], val)
                elif isinstance(val, list):
                    setattr(sc.RING[ord_], field, np.array([f(x) for x in val]))
                else:
                    setattr(sc.RING[ord_], field, f(val) if not isinstance(val, (bool, str)) else val)
        self.rec("poke", o["mi"], call)

    def op_bad(self, sc, o):
        """A call that has to be rejected."""
        a = np.array(o["ords"], dtype=int)
        w = o["what"]
        v = np.zeros(len(a))
        ba, bo = np.zeros((3, 3)), np.zeros(3)
        lst = [int(x) for x in a]
        calls = dict(
            kw_bpm=lambda: sc.register_bpms(a, Offsets=np.zeros(2)),
            kw_rf=lambda: sc.register_cavities(a, VoltageError=1.0),
            kw_mag=lambda: sc.register_magnets(a, CalErrorB=np.zeros(2), Foo=1.0),
            kw_mag2=lambda: sc.register_magnets(a, HCM=1.0, CalErrorC=np.zeros(2)),
            kw_sup=lambda: sc.register_supports(a[:2].reshape(2, 1), "Girder", Offsets=np.zeros(3)),
            sup_type=lambda: sc.register_supports(a[:2].reshape(2, 1), "Plint", Offset=np.zeros(3)),
            sup_shape=lambda: sc.register_supports(np.array([[0, 1], [1, 2], [2, 3]]), "Girder"),
            twice=lambda: sc.register_magnets(np.r_[a, a[-1:]], MasterOf=np.array([[int(x) + 1 for x in np.r_[a, a[-1:]]]]), HCM=1.0, CalErrorB=np.zeros(2)),
            param=lambda: sc.set_cavity_setpoints(a, v if o["method"] == "rel" else 1.0, "Phase" if o["method"] == "abs" else "Voltages", o["method"]),
            met_mag=lambda: sc.set_magnet_setpoints(a, v, False, 1, "absolute"),
            met_cm=lambda: sc.set_cm_setpoints(a, v, False, "set"),
            met_cav=lambda: sc.set_cavity_setpoints(a, v, "Voltage", "multiply"),
            cnt_mag=lambda: sc.set_magnet_setpoints(a, np.ones(len(a) + 1), False, 1, o["method"]),
            cnt_mag2=lambda: sc.set_magnet_setpoints(lst, [0.25] * (len(a) + 2), True, 0, o["method"]),
            cnt_cm=lambda: sc.set_cm_setpoints(a, np.ones(len(a) + 1), False, o["method"]),
            cnt_cm2=lambda: sc.set_cm_setpoints(np.r_[a, a, a], np.ones(2), True, o["method"]),
            cnt_cav=lambda: sc.set_cavity_setpoints(a, np.ones(len(a) + 2), "TimeLag", o["method"]),
            ba_sys=lambda: sc.set_systematic_multipole_errors(a, ba, 1, False),
            ba_sys1=lambda: sc.set_systematic_multipole_errors(a, bo, 1, True),
            ba_rand=lambda: sc.set_random_multipole_errors(a, ba),
            ba_rand1=lambda: sc.set_random_multipole_errors(a, bo),
            track=lambda: setattr(sc.INJ, "trackMode", o["method"].upper()),
            switch=lambda: switch_cavity_and_radiation(sc.RING, "cavityoff", "radiation"),
            switch2=lambda: switch_cavity_and_radiation(sc.RING, "radiationon", "cavityOn"),
            circ=lambda: sc_tools.scale_circumference(sc.RING, 2.0, "relative"),
            model=lambda: SCgetModelRM(sc, a, [a, a], trackMode="PORB"),
        )
        self.rec("bad", o["mi"], calls[w], [a, lst, ba, bo, v], ords=o["ords"], what=w)

    def op_frame(self, sc, o):
        w = o["what"]
        a = np.array(o.get("ords", []), dtype=int)
        s = np.array([0.25, 1.75, 2.5])
        z = np.zeros(6)
        cms = [sc.ORD.HCM, sc.ORD.VCM]
        argl = [a, s, z]

        def supports():
            sc.support_offset_and_roll(s)

        def modelring():
            r = SCgetModelRING(sc, includeAperture=bool(o.get("flag")))
            for el in r:      # the result is the caller's: changing it must not reach the machine
                for k in ("PolynomB", "PolynomA", "SetPointB", "T1", "R1", "EApertures"):
                    if hasattr(el, k):
                        getattr(el, k)[...] = 7.0
        calls = dict(
            bpm=lambda: bpm_reading(sc),
            bpms=lambda: bpm_reading(sc, bpm_ords=a),
            trans=lambda: beam_transmission(sc, nParticles=2, nTurns=2),
            bunch=lambda: generate_bunches(sc, nParticles=3),
            allel=lambda: all_elements_reading(sc),
            sup=supports, modelring=modelring,
            modelrm=lambda: SCgetModelRM(sc, a, cms, trackMode="TBT", nTurns=int(o.get("n", 1))),
            modeldisp=lambda: SCgetModelDispersion(sc, a, sc.ORD.RF, trackMode="TBT", rfStep=0.25),
            getcm=lambda: sc.get_cm_setpoints(sc.ORD.HCM, False),
            updsup=lambda: sc.update_supports(),
            apply=lambda: sc.apply_errors(),
            apply1=lambda: sc.apply_errors(1.0),
            inj=lambda: setattr(sc.INJ, "nTurns", int(o["n"])),
            injz=lambda: sc.INJ.Z0.__setitem__(0, f(o["n"])),
            injs=lambda: setattr(sc.INJ, "nShots", int(o["n"])),
            injl=lambda: setattr(sc.INJ, "beamLostAt", o["n"] / 4),
            injb=lambda: setattr(sc.INJ, "beamSize", np.diag([f(o["n"])] * 6)),
            injp=lambda: sc.INJ.Z0ideal.__setitem__(o["n"], 0.5),
            injr=lambda: setattr(sc.INJ, "randomInjectionZ", np.full(6, f(o["n"]))),
            mode=lambda: setattr(sc.INJ, "trackMode", o["mode"]),
        )
        self.rec("frame", o["mi"], calls[w], argl, may=o["may"], maytop=o["maytop"], mayraise=o["mayraise"], what=w)


# ------------------------------------------------------------------ random operation sequences
Q = ONE // 4


class Gen:
    """Random valid operation sequences; knows only what it registered itself."""

    def __init__(self, rng, variant, profile):
        self.r, self.v, self.profile = rng, variant, profile
        self.lat = toy_lattice(variant)
        n = lambda cls: [i for i, e in enumerate(self.lat) if isinstance(e, cls)]
        self.rf, self.bpm = n(at.RFCavity), n(at.Monitor)
        self.quad = [i for i in n(at.Quadrupole) if i not in n(at.Bend)]
        self.bend = [i for i, e in enumerate(self.lat) if e.FamName in ('B', 'BN', 'BE')]
        fam = lambda n: [i for i, e in enumerate(self.lat) if e.FamName == n]
        self.kids = {i: fam(self.lat[i].FamName + '2') for i in self.bend if fam(self.lat[i].FamName + '2')}
        self.child = sum(self.kids.values(), [])
        self.sext = n(at.Sextupole)
        self.corr = n(at.Corrector)
        self.magpool = self.quad + self.bend + self.sext + self.corr
        self.machines = [dict(mag=set(), rf=set(), bpm=set(), sup=set(), kids=False, girder=False, poison=False)]

    def sub(self, pool, kmax=3):
        pool = sorted(pool)
        k = self.r.randint(1, min(kmax, len(pool)))
        return self.r.sample(pool, k)

    def nord(self, i):
        return len(self.lat[i].PolynomB)

    def val(self, scale=8):
        return self.r.choice([0, 1, -1, 2, -2, 3, -3, 4, -4, 5, 6, -7, 8, -8]) * Q

    def limit(self):
        return self.r.choice([Q, 2 * Q, 3 * Q, ONE, 0, pj.INF, pj.INF])

    def cut(self, v):
        return [v, self.r.choice([1, 2])] if self.r.random() < 0.3 and isinstance(v, list) else v

    def sig(self, n):
        return self.cut([self.r.choice([0.0, 0.25, 0.5]) for _ in range(n)])

    def setup(self, mi=1):
        """A mostly complete machine, so that later operations have something to act on."""
        out = []
        out.append(dict(op="reg_mag", mi=mi, ords=self.sub(self.quad, 4), kw={}, typ=dict(hcm=[self.limit()], vcm=[self.limit()])))
        split = self.r.sample(sorted(self.kids), len(self.kids)) if self.r.random() < 0.8 else []
        for ords in (split, [i for i in self.bend if i not in split]):
            if not ords:
                continue
            typ = dict(cf=self.r.random() < 0.8)
            for k, p in (("hcm", 0.7), ("vcm", 0.2)):
                if self.r.random() < p:
                    typ[k] = [self.limit()]
            if ords is split:
                typ["kids"] = [[i, list(self.kids[i])] for i in ords]
            out.append(dict(op="reg_mag", mi=mi, ords=ords, kw={}, typ=typ))
        out.append(dict(op="reg_mag", mi=mi, ords=list(self.corr), kw={}, typ=dict(hcm=[self.limit()], vcm=[self.limit()])))
        out.append(dict(op="reg_mag", mi=mi, ords=self.sub(self.sext), kw={},
                        typ=self.r.choice([{}, dict(skq=[self.limit()]), dict(vcm=[self.limit()], skq=[self.limit()])])))
        out.append(dict(op="reg_rf", mi=mi, ords=self.sub(self.rf), kw={}))
        out.append(dict(op="reg_bpm", mi=mi, ords=self.sub(self.bpm), kw={}))
        self.r.shuffle(out)
        for o in out:
            self.note(o)
        return out

    def note(self, o):
        m = self.machines[o["mi"] - 1]
        if o["op"] == "reg_mag":
            m["mag"] |= set(o["ords"])
            m["kids"] = m["kids"] or bool(o["typ"].get("kids"))
        elif o["op"] == "reg_rf":
            m["rf"] |= set(o["ords"])
        elif o["op"] == "reg_bpm":
            m["bpm"] |= set(o["ords"])
        elif o["op"] == "reg_sup":
            m["sup"].add(o["kind"])
        elif o["op"] in ("copy", "new"):
            c = {k: (set(v) if isinstance(v, set) else v) for k, v in m.items()}
            if o["op"] == "new":
                c = {k: (set() if isinstance(v, set) else False) for k, v in c.items()}
            if o["dst"] > len(self.machines):
                self.machines.append(c)
            else:
                self.machines[o["dst"] - 1] = c

    def next(self):
        kinds, weights = zip(*self.profile.items())
        for _ in range(50):
            k = self.r.choices(kinds, weights)[0]
            mi = self.r.randint(1, len(self.machines))
            o = getattr(self, "g_" + k)(mi, self.machines[mi - 1])
            if o is not None:
                o["mi"] = mi
                self.note(o)
                return o
        raise RuntimeError("generator stuck")

    def forms(self, ords):
        return dict(form=self.r.choice([0, 1, 2]), vform=self.r.choice([0, 1, 2, 3]))

    def vals(self, ords, method, scale=None):
        n = 1 if self.r.random() < 0.4 else len(ords)
        if method == "rel":
            return [self.r.choice([-ONE, 0, ONE // 2, ONE, 3 * ONE // 2, 2 * ONE]) for _ in range(n)]
        return [self.val() for _ in range(n)]

    def g_reg_bpm(self, mi, m):
        kw = {}
        for k, n in (("Offset", 2), ("CalError", 2), ("Noise", 2), ("NoiseCO", 2)):
            if self.r.random() < 0.3:
                kw[k] = self.sig(n) if "Noise" not in k else [0.25, 0.5]
        for k in ("Roll", "SumError"):
            if self.r.random() < 0.3:
                kw[k] = 0.25
        ords = self.sub(self.bpm)
        if self.r.random() < 0.2:
            ords = ords + ords[:1]
        return dict(op="reg_bpm", ords=ords, kw=kw)

    def g_reg_rf(self, mi, m):
        kw = {}
        for k in ("Voltage", "Frequency", "TimeLag"):
            for e in ("Offset", "CalError"):
                if self.r.random() < 0.25:
                    kw[k + e] = self.r.choice([0.25, 0.5])
        return dict(op="reg_rf", ords=self.sub(self.rf), kw=kw)

    def g_reg_mag(self, mi, m):
        kw, typ = {}, {}
        ords = self.sub(self.magpool)
        nn = {self.nord(i) for i in ords}
        for k in ("CalErrorA", "CalErrorB"):
            if self.r.random() < 0.4 and len(nn) == 1:
                kw[k] = self.sig(list(nn)[0])
        for k in ("MagnetOffset", "MagnetRoll"):
            if self.r.random() < 0.3:
                kw[k] = self.sig(3)
        if self.r.random() < 0.4:
            typ["hcm"] = [self.limit()]
        if self.r.random() < 0.4:
            typ["vcm"] = [self.limit()]
        if self.r.random() < 0.3:
            typ["skq"] = [self.limit()]
        if self.r.random() < 0.15 and m["kids"]:      # the same master again, with other children
            i = self.r.choice(sorted(self.kids))
            ords, kw = [i], {}
            typ["kids"] = [[i, self.r.sample(self.kids[i], self.r.randint(1, len(self.kids[i])))]]
        if all(i in self.bend for i in ords):
            if self.r.random() < 0.5:
                kw["BendingAngle"] = 0.25
            typ["cf"] = self.r.random() < 0.5
        return dict(op="reg_mag", ords=ords, kw=kw, typ=typ)

    def g_rekid(self, mi, m):
        """A master registered again, with other children."""
        b = sorted(set(self.kids) & m["mag"])
        if not m["kids"] or not b:
            return None
        i = self.r.choice(b)
        return dict(op="reg_mag", ords=[i], kw={}, typ=dict(kids=[[i, self.r.sample(self.kids[i], self.r.randint(1, len(self.kids[i])))]]))

    def g_reg_sup(self, mi, m):
        kind = self.r.choice(["Girder", "Girder", "Plinth", "Section"])
        if kind != "Girder" and not m["girder"] and "break" not in self.profile:
            kind = "Girder"
        pts = self.r.sample(range(len(self.lat)), 2 * self.r.randint(1, 2))
        pairs = [[pts[2 * k], pts[2 * k + 1]] for k in range(len(pts) // 2)]
        if self.r.random() < 0.7:
            pairs = [sorted(p) for p in pairs]
        kw = {}
        if self.r.random() < 0.7:
            v = [0.25, 0.5, 0.0]
            kw["Offset"] = v if self.r.random() < 0.6 else [v, [0.5, 0.25, 0.0]]
            if self.r.random() < 0.3 and not isinstance(kw["Offset"][0], list):
                kw["Offset"] = [v, 1]
        if self.r.random() < 0.5:
            kw["Roll"] = [0.25, 0.0, 0.0]
        two = isinstance(kw.get("Offset", [0])[0], list) and len(kw["Offset"]) == 2 and isinstance(kw["Offset"][1], list)
        if two:
            kw["Offset"] = {"two": kw["Offset"]}
        m["girder"] = m["girder"] or kind == "Girder"
        return dict(op="reg_sup", kind=kind, pairs=pairs, kw=kw)

    def g_set_mag(self, mi, m):
        if not m["mag"]:
            return None
        ords = self.sub(m["mag"], self.r.choice([4, 4, 9]))
        skew = self.r.random() < 0.35
        order = self.r.randint(0, min(self.nord(i) for i in ords) - 1)
        method = self.r.choice(["abs", "rel", "add"])
        comp = self.r.random() < 0.4
        if comp and any(i in self.bend for i in ords) is False and self.r.random() < 0.7:
            b = sorted(set(self.bend) & m["mag"])
            if b:
                ords = list(dict.fromkeys(ords + b))
                order, skew = min(1, order), False
                order = 1
        return dict(op="set_mag", ords=ords, vals=self.vals(ords, method), skew=skew, order=order, method=method, comp=comp,
                    **self.forms(ords))

    def g_set_cm(self, mi, m):
        if not m["mag"]:
            return None
        ords = self.sub(m["mag"], self.r.choice([4, 4, 9]))
        method = self.r.choice(["abs", "rel", "add"])
        return dict(op="set_cm", ords=ords, vals=self.vals(ords, method), dim=self.r.randint(0, 1), method=method, **self.forms(ords))

    def g_get_cm(self, mi, m):
        if not m["mag"]:
            return None
        return dict(op="get_cm", ords=self.sub(m["mag"], 4), dim=self.r.randint(0, 1), form=self.r.choice([0, 1, 2]))

    def g_set_cav(self, mi, m):
        if not m["rf"]:
            return None
        ords = self.sub(m["rf"])
        method = self.r.choice(["abs", "rel", "add"])
        return dict(op="set_cav", ords=ords, vals=self.vals(ords, method), par=self.r.choice("VFP"), method=method, **self.forms(ords))

    def g_upd_mag(self, mi, m):
        if not m["mag"]:
            return None
        al = self.r.random() < 0.5
        return dict(op="upd_mag", all=al, ords=[] if al else self.sub(m["mag"], 4))

    def g_upd_cav(self, mi, m):
        if not m["rf"]:
            return None
        al = self.r.random() < 0.5
        return dict(op="upd_cav", all=al, ords=[] if al else self.sub(m["rf"]))

    def g_sys_mult(self, mi, m):
        if not m["mag"]:
            return None
        ords = self.sub(m["mag"])
        top = [i for i in sorted(m["mag"]) if self.nord(i) > 2]
        if top and self.r.random() < 0.4:
            ords = top[:1]
        if m["kids"] and self.r.random() < 0.3:
            ords = ords + self.child
        order = self.r.randint(0, min(self.nord(i) for i in ords) - 1)
        rows = self.r.randint(max(1, order + 1), 5)
        tab = [[self.r.choice([0, Q, -Q, 2 * Q, ONE]), self.r.choice([0, Q, -2 * Q, ONE])] for _ in range(rows)]
        skew = self.r.random() < 0.5
        return dict(op="sys_mult", ords=ords, tab=tab, order=order, skew=skew)

    def g_rand_mult(self, mi, m):
        if not m["mag"]:
            return None
        rows = self.r.randint(1, 4)
        tab = [[self.r.choice([0, Q, 2 * Q, ONE]), self.r.choice([0, Q, ONE])] for _ in range(rows)]
        return dict(op="rand_mult", ords=self.sub(m["mag"], 4), tab=tab)

    def g_switch(self, mi, m):
        modes = self.r.sample(["radiationoff", "radiationon", "cavityoff", "cavityon"], self.r.randint(1, 4))
        return dict(op="switch", modes=modes)

    def g_copy(self, mi, m):
        n = len(self.machines)
        return dict(op="copy", dst=n + 1 if n < 3 else self.r.randint(1, n), plot=self.r.random() < 0.15)

    def g_new(self, mi, m):
        n = len(self.machines)
        return dict(op="new", dst=n + 1 if n < 3 else self.r.randint(1, n), apply=self.r.choice([0, 1, 2, 3.5]))

    def g_edituser(self, mi, m):
        return dict(op="edituser")

    def g_edit(self, mi, m):
        return dict(op="edit")

    def g_verify(self, mi, m):
        return dict(op="verify")

    def g_poke(self, mi, m):
        """Known errors put in directly, at exactly representable values."""
        sets = []
        if m["mag"]:
            for i in self.sub(m["mag"], 4):
                n = self.nord(i)
                for ab in "AB":
                    if self.r.random() < 0.6:
                        sets.append([i, "CalError" + ab, [self.r.choice([0, Q, -Q, 2 * Q, -2 * Q, ONE]) for _ in range(n)]])
                if self.r.random() < 0.3:
                    k = self.r.randint(1, 4)
                    for ab in "AB":
                        sets.append([i, f"Polynom{ab}Offset", [self.r.choice([0, Q, -2 * Q]) for _ in range(k)]])
                if i in self.bend and self.r.random() < 0.6:
                    sets.append([i, "BendingAngleError", self.r.choice([0, Q, -2 * Q])])
            if m["kids"] and self.r.random() < 0.3:
                for ab in "AB":
                    sets.append([self.child[0], f"Polynom{ab}Offset", [self.r.choice([0, Q, ONE]) for _ in range(3)]])
        for i in self.sub(m["bpm"]) if m["bpm"] and self.r.random() < 0.3 else []:
            for k in ("Noise", "NoiseCO", "Offset", "CalError"):
                sets.append([i, k, [self.r.choice([0, Q, -Q]) for _ in (0, 1)]])
            sets += [[i, k, self.r.choice([0, Q, -Q])] for k in ("Roll", "SumError")]
        for i in self.sub(m["mag"]) if m["mag"] and self.r.random() < 0.3 else []:
            sets += [[i, k, [self.r.choice([0, Q, -Q]) for _ in range(3)]] for k in ("MagnetOffset", "MagnetRoll")]
        if m["rf"] and self.r.random() < 0.7:
            for i in self.sub(m["rf"]):
                for p in ("Voltage", "Frequency", "TimeLag"):
                    sets.append([i, p + "Offset", self.r.choice([0, Q, -Q])])
                    sets.append([i, p + "CalError", self.r.choice([0, Q, -2 * Q, ONE])])
        return dict(op="poke", sets=sets) if sets else None

    def g_break(self, mi, m):
        """Inconsistent machine followed by verification (the poke is the harness' doing)."""
        mags = sorted(m["mag"])
        if not mags:
            return None
        i = self.r.choice(mags)
        ch = [[[-1, "INJ.beamSize", [6]]], [[-1, "INJ.beamSize", [5, 5]]], [[-1, "SIG.randomInjectionZ", [5]]],
              [[-1, "SIG.staticInjectionZ", [7]]], [[-1, "SIG.staticInjectionZ", [6, 1]]], [[-1, "SIG.randomInjectionZ", [1, 6]]],
              [[i, "PolynomA", [0] * (self.nord(i) + 2)]],
              [[i, "CalErrorA", [0] * (self.nord(i) + 1)]], [[i, "CalErrorB", [0] * (self.nord(i) + 1)]],
              [[i, "CalErrorA", [0] * (self.nord(i) - 1)]], [[i, "CalErrorB", [0] * (self.nord(i) - 1)]],
              [[i, "PolynomAOffset", [0, 0, 0]], [i, "PolynomBOffset", [0, 0]]],
              [[i, "PolynomAOffset", [0, 0, 0]], [i, "PolynomBOffset", [0, 0, 0, 0]]]]
        if i not in self.bend:
            ch += [[[i, "CombinedFunction", True]]] * 2
        if m["sup"] - {"Girder"} and self.r.random() < 0.4:
            ch = [[[-1, "ORD.Girder", [2, 0]]]]
        elif self.r.random() < 0.2:
            return dict(op="poke", sets=self.r.choice(ch))
        return dict(op="brk", sets=self.r.choice(ch), again=self.r.random() < 0.5)

    def g_bad(self, mi, m):
        met = self.r.choice(["abs", "rel", "add"])
        w = self.r.choice(["kw_bpm", "kw_rf", "kw_mag", "kw_mag2", "kw_sup", "sup_type", "sup_shape", "twice", "param", "met_mag", "met_cm", "met_cav",
                           "cnt_mag", "cnt_mag2", "cnt_cm", "cnt_cm2", "cnt_cav", "ba_sys", "ba_sys1", "ba_rand", "ba_rand1",
                           "track", "switch", "switch2", "circ", "model"])
        if w in ("kw_bpm",):
            ords = self.sub(self.bpm)
        elif w in ("kw_rf",):
            ords = self.sub(self.rf)
        elif w in ("met_cav", "cnt_cav", "param"):
            if not m["rf"]:
                return None
            ords = self.sub(m["rf"])
        elif w in ("kw_sup", "sup_type", "sup_shape"):
            ords = self.r.sample(range(len(self.lat)), 4)
        elif w == "model":
            if not m["bpm"]:
                return None
            ords = sorted(m["bpm"])
        else:
            if not m["mag"]:
                return None
            ords = self.sub(m["mag"])
        return dict(op="bad", what=w, ords=ords, method=met)

    def g_observe(self, mi, m):
        w = self.r.choice(["bpm", "bpms", "trans", "bunch", "allel", "sup", "modelring", "modelring", "modelrm", "modeldisp", "getcm"])
        if w in ("bpm", "bpms", "allel", "modelrm", "modeldisp") and not m["bpm"]:
            return None
        if w == "modeldisp" and not m["rf"]:
            return None
        return dict(op="frame", what=w, ords=sorted(m["bpm"]), n=self.r.randint(1, 2), flag=self.r.random() < 0.5, may=[], maytop=[],
                    mayraise=True)

    def g_updsup(self, mi, m):
        return dict(op="frame", what="updsup", may=["so", "sr", "t1", "t2", "rr", "bpm", "raw"], maytop=[], mayraise=False)

    def g_apply(self, mi, m):
        return dict(op="frame", what=self.r.choice(["apply", "apply1"]), maytop=["inj"], mayraise=False,
                    may=["so", "sr", "t1", "t2", "rr", "bpm", "raw", "PA", "PB", "KA", "MO", "CA", "CB", "bae", "hbae", "mo", "mr", "rf", "sup"])

    def g_inj(self, mi, m):
        w = self.r.choice(["inj", "injz", "mode", "inj", "injz", "mode", "injs", "injl", "injb", "injp", "injr"])
        return dict(op="frame", what=w, n=self.r.randint(1, 3), mode=self.r.choice(["TBT", "PORB", "ORB"]), may=[], maytop=["inj"],
                    mayraise=False)


REG = dict(reg_bpm=1, reg_rf=1, reg_mag=2, reg_sup=2)
SET = dict(set_mag=5, set_cm=4, get_cm=1, upd_mag=2, set_cav=3, upd_cav=1)
PROFILES = dict(
    all={**REG, **SET, **dict(sys_mult=1, switch=1, copy=0.5, verify=1, poke=2, bad=2, observe=2, inj=0.5)},
    reg=dict(reg_bpm=3, reg_rf=2, reg_mag=5, reg_sup=5, poke=2, set_mag=1, set_cm=1, verify=0.7, bad=0.5),
    fields=dict(poke=4, set_mag=5, set_cm=3, upd_mag=4, sys_mult=2, rand_mult=0.3),
    mag=dict(poke=2, set_mag=10, set_cm=1, reg_mag=0.5),
    cm=dict(poke=1, set_cm=10, get_cm=3, reg_mag=1, set_mag=1),
    comp=dict(poke=2, set_mag=10, set_cm=3, reg_mag=0.3),
    split=dict(poke=3, set_mag=5, set_cm=2, upd_mag=3, rekid=1.5, sys_mult=1),
    mult=dict(sys_mult=5, rand_mult=3, upd_mag=4, set_mag=4, set_cm=1, poke=2),
    cav=dict(poke=3, set_cav=10, upd_cav=3, reg_rf=1, set_mag=0.5),
    switch=dict(switch=10, set_mag=1, set_cav=1, set_cm=1),
    copy={**REG, **SET, **dict(copy=4, edit=2, poke=2, inj=3, switch=1, sys_mult=1, rand_mult=1, apply=1, observe=1, updsup=1)},
    new={**REG, **SET, **dict(new=4, edit=2, edituser=1.5, poke=2, inj=5, switch=1, sys_mult=1, rand_mult=1, apply=2, updsup=1)},
    bad={**REG, **SET, **dict(bad=14, poke=2)},
    args={**REG, **SET, **dict(bad=3, sys_mult=3, rand_mult=2, observe=2)},
    observe={**REG, **SET, **dict(observe=10, verify=1, poke=1, inj=2, switch=1, sys_mult=1)},
    verify={**REG, **dict(verify=8, rand_mult=1, sys_mult=1, set_mag=1, apply=1, updsup=1)},
    verifybad={**REG, **{"break": 5, "verify": 4, "reg_sup": 3}},
)
PROFILES["all2"] = {**PROFILES["all"], "apply": 1, "edit": 1, "rand_mult": 1, "updsup": 1}


def one(job):
    seed, profile, nsteps, variant, ops = job
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 32))
    r = Recorder(variant)
    if ops is not None:
        for o in ops:
            r.run(dict(dict(mi=1, form=rng.choice([0, 1, 2]), vform=rng.choice([0, 1, 2, 3])), **o))
    else:
        g = Gen(rng, variant, PROFILES[profile])
        todo = g.setup() if rng.random() < (0.3 if profile in ("reg", "verify", "verifybad") else 0.95) else []
        if not todo:
            todo = [g.g_reg_mag(1, g.machines[0])]
            todo[0]["mi"] = 1
            g.note(todo[0])
        for o in todo:
            r.run(o)
        for _ in range(nsteps):
            r.run(g.next())
    return dict(init=r.init, steps=r.steps, seed=seed, variant=variant, profile=profile)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=10)
    ap.add_argument("--steps", type=int, default=20)
    ap.add_argument("--profile", default="all")
    ap.add_argument("--ops", default="")
    ap.add_argument("--variant", type=int, default=0)
    ap.add_argument("--init", default="")
    a = ap.parse_args()
    jobs = []
    if a.init:
        json.dump(Recorder(a.variant).init, open(a.init, "w"))
        return
    if a.ops:
        for k, ops in enumerate(json.load(open(a.ops))):
            jobs.append((a.seed * 100003 + k, "", 0, 0, ops))
    else:
        for j, p in enumerate(a.profile.split(",")):
            for k in range(a.n):
                jobs.append((a.seed * 100003 + k * 7 + j * 50021 + sum(map(ord, p)) * 1009, p, a.steps, (0, 1, 3)[k % 3], None))
    with multiprocessing.Pool(8) as pool:
        traces = pool.map(one, jobs, chunksize=1)
    json.dump(dict(traces=traces), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
