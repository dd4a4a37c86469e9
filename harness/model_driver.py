"""Model lattices, model and measured responses on toy machines (for spec/ModelTrace.tla)."""
import argparse
import copy
import json
import os
import random
import sys
import warnings
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

from project import AT_OWN, Near, canon, digest, elem_vars, state, nums, num  # noqa: E402
from pySC.core.beam import bpm_reading  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402
from pySC.correction import loco  # noqa: E402
from pySC.lattice_properties import response_measurement as rme  # noqa: E402
from pySC.lattice_properties.response_model import SCgetModelDispersion, SCgetModelRING, SCgetModelRM  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
UR, UM, UK = 2 ** 26, 2 ** 16, 2 ** 30
NAN, BAD = 1777777777, 1666666666


def q(v, u):
    return [NAN if np.isnan(x) else BAD if abs(x * u) > 9e8 else int(round(float(x) * u)) for x in np.ravel(v)]


def corrector():
    c = at.Corrector("C", 0.0, [0.0, 0.0])
    c.PolynomA, c.PolynomB, c.MaxOrder = np.zeros(2), np.zeros(2), 1
    return c


def machine_digest(sc, mask=lambda k, d: d):
    parts = [type(el).__name__ + canon(mask(k, state(el))) for k, el in enumerate(sc.RING)]
    inj = {a: v for a, v in vars(sc.INJ).items() if a != "postFun"}
    ide = "".join(canon(state(el)) for el in sc.IDEALRING)
    return dict(ring=Near("|".join(parts)), inj=Near(inj), ideal=Near(ide), ORD=Near(dict(sc.ORD)), SIG=Near(dict(sc.SIG)))


class Rec:
    def __init__(self, seed, kind):
        self.r = r = random.Random(seed)
        np.random.seed(seed % 2 ** 32)
        self.kind, self.steps, self.desc = kind, [], []
        self.mask = lambda k, d: d

    def snap(self):
        self.o0 = machine_digest(self.sc, self.mask)

    def same(self):
        o = machine_digest(self.sc, self.mask)
        bad = [k for k in o if o[k] != self.o0[k]]
        return dict(oth=not bad, what=",".join(bad))

    # ---------------------------------------------------------------- toy line
    def toy(self, aperture=True):
        r = self.r
        none = dict(L=0, k=[0, 0], g=[0, 0])
        els, desc = [], []
        for _ in range(r.choice([1, 2])):
            els.append(at.RFCavity("RF", 0.0, 0.0, 5e8, 1, 1e9))
            desc.append(dict(none, ty="mark"))
        for _ in range(r.randint(7, 12)):
            c = r.random()
            if c < 0.3:
                L = r.choice([2, 4, 8])
                els.append(at.Drift("D", L / 8))
                desc.append(dict(none, ty="drift", L=L))
            elif c < 0.45:
                g = [r.choice([0, 8, -8, 16]), r.choice([0, 0, 8])]
                els.append(at.ThinMultipole("T", [0.0, g[1] / 64], [0.0, g[0] / 64]))
                desc.append(dict(none, ty="thin", g=g))
            elif c < 0.6:
                els.append(corrector())
                desc.append(dict(none, ty="cm"))
            elif c < 0.75:
                els.append(at.Quadrupole("Q", 0.25, 0.0))
                desc.append(dict(none, ty="cm", L=2))
            else:
                els.append(at.Monitor("BPM"))
                desc.append(dict(none, ty="mark"))
        els += [at.Quadrupole("Q", 0.25, 0.0), at.Drift("D", 0.5), corrector(), at.Drift("D", 0.5), at.Monitor("BPM")]
        desc += [dict(none, ty="cm", L=2), dict(none, ty="drift", L=4), dict(none, ty="cm"), dict(none, ty="drift", L=4), dict(none, ty="mark")]
        if r.random() < 0.5:
            k = r.randrange(len(els))
            els[k:] = els[k:] + [at.Drift("D", 0.25)]
            desc.append(dict(none, ty="drift", L=2))
        if aperture:
            self.wall = 0.0625
            els.append(at.Aperture("AP", [-self.wall, self.wall, -self.wall, self.wall]))
            desc.append(dict(none, ty="mark"))
        self.lat, self.desc = at.Lattice(els, energy=1e9, periodicity=1), desc
        sc = self.sc = SimulatedCommissioning(self.lat)
        n = lambda name: [k for k, e in enumerate(self.lat) if e.FamName == name]
        self.bpms, self.cms, self.thin, self.cav = n("BPM"), n("C") + n("Q"), n("T"), n("RF")
        self.cms.sort()
        self.err = self.kind == "toy" and r.random() < 0.5
        kw = dict(CalErrorB=np.array([0.01, 0.01]), MagnetOffset=1e-4 * np.ones(3), MagnetRoll=1e-3 * np.ones(3)) if self.err else {}
        sc.register_bpms(np.array(self.bpms), **(dict(Offset=1e-4 * np.ones(2), CalError=0.02 * np.ones(2), Roll=1e-3) if self.err else {}))
        sc.register_cavities(np.array(self.cav), **(dict(FrequencyOffset=1e2, VoltageOffset=1e3) if self.err else {}))
        self.lim = r.choice([0.05, 2.0 ** -9] + [2.0 ** -13] * (self.kind == "meas"))
        sc.register_magnets(np.array(self.cms), HCM=self.lim, VCM=self.lim, **kw)
        if self.thin:
            sc.register_magnets(np.array(self.thin), **kw)
        if self.err:
            sc.apply_errors()
        sc.INJ.nParticles, sc.INJ.nShots, sc.INJ.trackMode, sc.INJ.beamLostAt = 1, 1, "TBT", 1.0
        self.ring = copy.deepcopy(desc)
        self.mutate()

    def mutate(self):
        """present setpoints away from the design"""
        r, sc = self.r, self.sc
        for k in self.thin:
            for p, skew in ((0, False), (1, True)):
                if r.random() < 0.4:
                    g = r.choice([0, 4, -8, 16])
                    sc.set_magnet_setpoints(k, g / 64, skew, 1, "abs")
                    self.ring[k]["g"][p] = g
        for k in self.cms:
            for pl in (False, True):
                if r.random() < 0.3:
                    sc.set_cm_setpoints(k, r.choice([0, 1, -1, 2]) * 2.0 ** -13, skewness=pl)
        if r.random() < 0.5:
            for c in self.cav:
                sc.RING[c].FrequencyOffset = r.choice([0.0, 2048.0, -512.0])
            sc.set_cavity_setpoints(np.array(self.cav), np.array([r.choice([5e8, 5e8 + 1024.0, 4e8]) for _ in self.cav]), "Frequency", "abs")

    def choose(self):
        r = self.r
        pick = lambda lo=0: sorted(r.sample(self.cms, r.randint(min(lo, len(self.cms)), min(4, len(self.cms)))))
        self.cmh, self.cmv = pick(1), pick(0)
        self.bord = sorted(r.sample(self.bpms, r.randint(1, len(self.bpms))))
        self.T = r.choice([1, 1, 2, 3])

    def rm(self):
        r, sc = self.r, self.sc
        self.choose()
        ideal = r.random() < 0.4
        st = dict(op="rm", exc="", ideal=ideal, T=self.T, bord=[b + 1 for b in self.bord], cmh=[k + 1 for k in self.cmh], cmv=[k + 1 for k in self.cmv], ring=copy.deepcopy(self.ring), RM=[])
        kw = dict(nTurns=self.T, useIdealRing=ideal)
        for a, usual in (("nTurns", 1), ("useIdealRing", True)):
            if kw[a] == usual and r.random() < 0.4:
                kw.pop(a)
        if r.random() < 0.5:
            kw["dkick"] = r.choice([1e-5, 1e-6, 2.0 ** -14, -1e-5])
        if r.random() < 0.3:
            kw["Z0"] = np.array([r.choice([0, 1, -1]) * 2.0 ** -10 for _ in range(4)] + [0, 0])
        if r.random() < 0.3:
            kw["trackMode"] = "TBT"
        self.snap()
        try:
            st["RM"] = [q(c, UM) for c in SCgetModelRM(sc, np.array(self.bord), [np.array(self.cmh, dtype=int), np.array(self.cmv, dtype=int)], **kw).T]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st.update(self.same())
        self.steps.append(st)

    def bad(self):
        r, sc = self.r, self.sc
        self.choose()
        c = r.choice(["mode", "lost", "dmode", "dlost"])
        st = dict(op="bad", exc="", what2=c)
        self.snap()
        lost = np.array([2.0, 0, 2.0, 0, 0, 0])
        B, C = np.array(self.bord), [np.array(self.cmh, dtype=int), np.array(self.cmv, dtype=int)]
        try:
            if c == "mode":
                SCgetModelRM(sc, B, C, trackMode="XYZ", useIdealRing=r.random() < 0.5)
            elif c == "lost":
                SCgetModelRM(sc, B, C, Z0=lost, useIdealRing=r.random() < 0.5, nTurns=2)
            elif c == "dmode":
                SCgetModelDispersion(sc, B, np.array(self.cav), trackMode="XYZ")
            else:
                SCgetModelDispersion(sc, B, np.array(self.cav), trackMode="TBT", Z0=lost, nTurns=2, useIdealRing=r.random() < 0.5)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st.update(self.same())
        self.steps.append(st)

    def pred(self):
        """on the error-free machine, a corrector step changes the readings by its column"""
        r, sc = self.r, self.sc
        if self.err:
            return
        self.choose()
        cm, plane, m = r.choice(self.cms), r.choice([1, 2]), r.choice([1, -1, 2])
        st = dict(op="pred", exc="", T=self.T, bord=[b + 1 for b in self.bord], cm=cm + 1, plane=plane, m=m, ring=copy.deepcopy(self.ring), d=[])
        sc.INJ.nTurns = self.T
        z = [r.choice([0, 1, -1]) * 2.0 ** -12 for _ in range(4)]
        sc.INJ.Z0 = np.array(z + [0.0, 0.0])
        step = 2.0 ** -15 * m
        start = copy.deepcopy(sc)
        self.snap()
        try:
            a = bpm_reading(sc, np.array(self.bord))[0]
            sc.set_cm_setpoints(cm, step, skewness=plane == 2, method="add")
            b = bpm_reading(sc, np.array(self.bord))[0]
            st["d"] = q((np.ravel(b) - np.ravel(a)) * 32, UR)
            sc.set_cm_setpoints(cm, -step, skewness=plane == 2, method="add")
            if any(x == NAN for x in st["d"]):
                self.sc = start
                return
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st.update(self.same())
        self.steps.append(st)

    # ------------------------------------------------------------ measurements
    def setpoints(self):
        sc, out = self.sc, []
        for pl, ords in ((0, self.cmh), (1, self.cmv)):
            for o in ords:
                el = sc.RING[o]
                v = (el.SetPointB if pl == 0 else el.SetPointA)[0]
                out.append(v if el.PassMethod == "CorrectorPass" else v * (-1) ** (pl + 1) * el.Length)
        return q(out, UK)

    def mask_cms(self, k, d):
        for pl, ords in ((0, self.cmh), (1, self.cmv)):
            if k in ords:
                for f in ("SetPoint", "Polynom"):
                    d[f + "BA"[pl]] = np.delete(np.asarray(d[f + "BA"[pl]]), 0)
                if "KickAngle" in d:
                    d["KickAngle"] = np.array([0 if j == pl else x for j, x in enumerate(d["KickAngle"])])
        return d

    def mask_rounding(self, k, d):
        for f in ("SetPointA", "SetPointB", "PolynomA", "PolynomB", "KickAngle"):
            if f in d:
                d[f] = np.round(np.asarray(d[f]), 15) + 0.0
        d.pop("MaxOrder", None)     # set on the first update; without effect
        return d

    def meas(self):
        r, sc = self.r, self.sc
        self.choose()
        T = sc.INJ.nTurns = self.T
        full = [copy.deepcopy(e) for e in sc.RING]
        mode, n = r.choice(["fixedKick", "fixedKick", "fixedOffset"]), r.choice([2, 2, 3, 4, 5])
        z = [r.choice([0, 1, -1]) * 2.0 ** -12, 0.0, r.choice([0, 1]) * 2.0 ** -12, 0.0]
        if r.random() < 0.25:      # beam reaches only part of the ring
            z[3] = r.choice([0.5, 0.2, 0.1, 0.05]) * 0.0625
        self.ztrack = z

        def post(Z):
            Z = np.zeros_like(np.asarray(Z, dtype=float))
            Z[:4, 0] = z
            self.steps.append(dict(op="exc", sp=self.setpoints(), lim=lim, **self.same()))
            return Z
        lim = [int(round(self.lim * UK))] * (len(self.cmh) + len(self.cmv))
        Z = np.zeros((6, 1), order="F")
        Z[:4, 0] = z
        out = at.Lattice(full, energy=1e9, periodicity=1).track(Z, nturns=T, refpts=np.array(self.bord), use_mp=False)[0]
        ref = [out[0, 0, k, t] for t in range(T) for k in range(len(self.bord))] * 2
        dark = [bool(x) for x in np.isnan(ref)]
        if dark[0]:
            return
        # the beam must have room for the excitation
        amp = r.choice([2.0 ** -14, 2.0 ** -13, 1e-4, 2.0 ** -12]) if mode == "fixedKick" else r.choice([2.0 ** -13, 1e-4])
        far = mode == "fixedKick" and not any(dark) and r.random() < 0.4     # the beam gets lost until the kick is reduced
        if far:
            amp = r.choice([2.0 ** -7, 0.01, 0.02, 0.04])
        if not self.roomy(full, z, T, amp * 0.9 ** 16 if far else amp):
            return
        a = amp
        if r.random() < 0.3:
            a = [np.full(len(self.cmh), amp), np.full(len(self.cmv), amp)]
        st = dict(op="meas", exc="", T=T, bord=[b + 1 for b in self.bord], cmh=[k + 1 for k in self.cmh], cmv=[k + 1 for k in self.cmv], ring=copy.deepcopy(self.ring), RM=[], dark=dark,
                  mode=mode, n=n, mayfail=False, steps=[], amp=int(round(amp * UK)), lim=lim)
        if mode == "fixedOffset" and any(abs(x) + 2 >= self.lim * UK for x in self.setpoints()):
            return                 # no room for the excitation in one direction
        self.mask = self.mask_cms
        self.snap()
        self.steps.append(dict(op="hold", sp=self.setpoints()))
        sc.INJ.postFun = post
        kw = {}
        if mode != "fixedKick" or r.random() < 0.5:
            kw["mode"] = mode
        if n != 2 or r.random() < 0.5:
            kw["n_steps"] = n
        try:
            res = rme.response_matrix(sc, a, np.array(self.bord), [np.array(self.cmh, dtype=int), np.array(self.cmv, dtype=int)], **kw)
            st["RM"] = [q(c, UM) for c in res[0].T]
            st["steps"] = [q(c, UK) for p in res[2] for c in np.asarray(p).T]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["sp"] = self.setpoints()
        st.update(self.same())
        sc.INJ.postFun = np.array
        self.mask = lambda k, d: d
        self.steps.append(st)

    def badamp(self):
        """amplitudes that do not match the correctors"""
        r, sc = self.r, self.sc
        self.choose()
        nh, nv = len(self.cmh), len(self.cmv)
        c = r.choice(["array", "short", "long", "horizontal", "vertical"])
        if c == "array":
            amp = np.full(max(2, r.choice([nh, nh + nv])), 1e-4)
        else:
            dh, dv = dict(short=(-1, 0), long=(1, 1), horizontal=(r.choice([-1, 1]), 0), vertical=(0, 1))[c]
            amp = [np.full(nh + dh, 1e-4), np.full(nv + dv, 1e-4)]
        st = dict(op="bad", exc="", what2="amp " + c)
        self.snap()
        try:
            rme.response_matrix(sc, amp, np.array(self.bord), [np.array(self.cmh, dtype=int), np.array(self.cmv, dtype=int)])
        except ValueError as ex:
            st["exc"] = type(ex).__name__
        except Exception:  # noqa
            pass
        st.update(self.same())
        self.steps.append(st)

    def roomy(self, ring, z, T, amp):
        """the number of readings does not depend on kicks of this size"""
        n = []
        for dz in (0, 1, -1):
            for dp in (0, 1, -1):
                Z = np.zeros((6, 1), order="F")
                Z[:4, 0] = [z[0] + dz * amp * 8, 4 * dp * amp, z[2] + dz * amp * 8, z[3] + 4 * dp * amp]
                out = at.Lattice(ring, energy=1e9, periodicity=1).track(Z, nturns=T, refpts=np.array(self.bord), use_mp=False)[0]
                n.append(int(np.sum(np.isnan(out[0]))))
        return len(set(n)) == 1

    def disp(self):
        r, sc = self.r, self.sc
        self.choose()
        T = sc.INJ.nTurns = self.T
        cavs = sorted(r.sample(self.cav, r.randint(1, len(self.cav))))
        f0 = {c: sc.RING[c].Frequency for c in cavs}
        s0 = {c: sc.RING[c].FrequencySetPoint for c in cavs}
        zv = [r.choice([0, 1, -2]) * 8192 for _ in range(4)]
        z0 = [r.choice([0, 1]) * 2.0 ** -12, 0.0, 0.0, 0.0]

        def mask(k, d):
            if k in cavs:
                d.pop("Frequency"), d.pop("FrequencySetPoint")
            return d

        def post(Z):
            Z = np.zeros_like(np.asarray(Z, dtype=float))
            Z[:4, 0] = np.array(z0) + np.array(zv) / UR * (sc.RING[cavs[-1]].Frequency - f0[cavs[-1]])
            self.steps.append(dict(op="cav", f=q([sc.RING[c].Frequency - f0[c] for c in cavs], 1024), **self.same()))
            return Z
        n, step = r.choice([2, 2, 3, 5]), r.choice([4.0, 8.0, -8.0])
        full = at.Lattice([copy.deepcopy(e) for e in sc.RING], energy=1e9, periodicity=1)
        for df in (0, step, -step):
            Z = np.zeros((6, 1), order="F")
            Z[:4, 0] = np.array(z0) + np.array(zv) / UR * df
            if np.any(np.isnan(full.track(Z, nturns=T, refpts=np.array(self.bord), use_mp=False)[0])):
                return
        self.mask = mask
        self.snap()
        st = dict(op="disp", exc="", T=T, bord=[b + 1 for b in self.bord], ring=copy.deepcopy(self.ring), z=zv, eta=[], n=n)
        sc.INJ.postFun = post
        kw = dict(n_steps=n) if n != 2 or r.random() < 0.5 else {}
        allb = self.bord == self.bpms and r.random() < 0.5
        allc = cavs == self.cav and r.random() < 0.5
        try:
            st["eta"] = q(rme.dispersion(sc, step, **kw, **({} if allb else dict(bpm_ords=np.array(self.bord))), **({} if allc else dict(cav_ords=np.array(cavs)))), UR)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["f"] = q([sc.RING[c].Frequency - f0[c] for c in cavs] + [sc.RING[c].FrequencySetPoint - s0[c] for c in cavs], 1024)
        st.update(self.same())
        sc.INJ.postFun = np.array
        self.mask = lambda k, d: d
        self.steps.append(st)

    # ------------------------------------------------------------ closed orbits
    def orbit(self):
        r = self.r
        els = [at.RFCavity("RF", 0.0, 5e5, 0.0, 4, 1e9), at.RFCavity("RF", 0.0, 5e5, 0.0, 4, 1e9)]
        for k in range(6):
            els += [at.Quadrupole("QF", 0.25, 1.2), at.Drift("D", 0.5), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.25), corrector(), at.Drift("D", 0.25)]
            if r.random() < 0.8 or k == 0:
                els.append(at.Monitor("BPM"))
            els += [at.Quadrupole("QD", 0.25, -1.0), at.Drift("D", 0.5), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5)]
        self.lat = at.Lattice(els, energy=1e9, periodicity=1)
        for k in (0, 1):
            self.lat[k].Frequency = 299792458.0 / sum(e.Length for e in els) * 4
        self.lat.enable_6d()
        sc = self.sc = SimulatedCommissioning(self.lat)
        n = lambda *names: [k for k, e in enumerate(self.lat) if e.FamName in names]
        self.bpms, self.cms, self.cav = n("BPM"), n("C", "QF", "QD", "B"), n("RF")
        sc.register_bpms(np.array(self.bpms))
        sc.register_cavities(np.array(self.cav))
        sc.register_magnets(np.array(self.cms), HCM=1.0, VCM=1.0)
        sc.INJ.nTurns, sc.INJ.nParticles = r.choice([1, 3]), r.choice([1, 2])
        if r.random() < 0.5:
            sc.INJ.trackMode = "ORB"
        self.quads = n("QF", "QD")
        for k in self.quads:       # setpoints away from the design
            if r.random() < 0.5:
                sc.set_magnet_setpoints(k, 1 + r.choice([0.01, -0.01, 0.005]), False, 1, "rel")
        for k in self.cms:         # some correctors already in use
            for pl in (False, True):
                if r.random() < 0.2:
                    sc.set_cm_setpoints(k, r.choice([1, -1, 2]) * 2.0 ** -18, skewness=pl)

    def orbstep(self):
        r, sc = self.r, self.sc
        self.choose()
        B, C = np.array(self.bord), [np.array(self.cmh, dtype=int), np.array(self.cmv, dtype=int)]
        what = r.choice(["rm", "eta", "measure", "measure", "disp", "meas", "turns"])
        if what == "turns":
            return self.turns()
        st = dict(op="orb", exc="", what2=what, d=[], e=[], big=0)

        def put(d, e, u):
            big = np.max(np.abs(e))
            u = 2 ** 20 / big
            st["d"], st["e"], st["big"] = q(d, u), q(e, u), 2 ** 20
        keep = sc.INJ.trackMode, sc.INJ.nTurns, sc.INJ.nParticles
        self.mask = self.mask_rounding
        self.snap()
        try:
            if what in ("rm", "measure", "meas"):
                if not self.cmh + self.cmv:
                    return
                M = SCgetModelRM(sc, B, C, trackMode="ORB", useIdealRing=False)
                j = r.randrange(M.shape[1])
                if what == "measure":
                    kw = dict(dkick=r.choice([1e-5, 2e-6, -1e-5])) if r.random() < 0.6 else {}
                    e = loco.measure_closed_orbit_response_matrix(sc, B, C, **kw)
                    put(np.ravel(e), np.ravel(M), UM)
                elif what == "meas":
                    if sc.INJ.trackMode != "ORB":
                        return
                    e = rme.response_matrix(sc, 1e-6, B, C, n_steps=r.choice([2, 3]))[0]
                    put(np.ravel(e), np.ravel(M), UM)
                else:
                    cm, pl = (self.cmh + self.cmv)[j], j >= len(self.cmh)
                    sc.INJ.trackMode = "ORB"
                    a = bpm_reading(sc, B)[0]
                    s0 = copy.deepcopy(sc.RING[cm])
                    sc.set_cm_setpoints(cm, 2.0 ** -18, skewness=pl, method="add")
                    b = bpm_reading(sc, B)[0]
                    sc.RING[cm] = s0
                    put((np.ravel(b) - np.ravel(a)) * 2 ** 18, M[:, j], UM)
            else:
                cavs = np.array(self.cav)       # cavities of different frequencies have no common closed orbit
                eta = SCgetModelDispersion(sc, B, cavs, trackMode="ORB", rfStep=20.0, useIdealRing=False)
                step = 10.0
                if what == "disp":
                    if sc.INJ.trackMode != "ORB":
                        return
                    e = rme.dispersion(sc, step, B, cavs, n_steps=r.choice([2, 3]))
                    put(e, eta, 1)
                else:
                    sc.INJ.trackMode = "ORB"
                    a = bpm_reading(sc, B)[0]
                    s0 = [copy.deepcopy(sc.RING[int(c)]) for c in cavs]
                    sc.set_cavity_setpoints(cavs, step, "Frequency", "add")
                    b = bpm_reading(sc, B)[0]
                    for c, s in zip(cavs, s0):
                        sc.RING[int(c)] = s
                    put((np.ravel(b) - np.ravel(a)) / step, eta, 1)
            if what in ("rm", "eta"):
                sc.INJ.trackMode, sc.INJ.nTurns, sc.INJ.nParticles = keep
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st.update(self.same())
        self.steps.append(st)

    def turns(self):
        """the model dispersion of a trajectory: the given cavities, and no others, by the same step"""
        r = self.r
        sc = self.sc
        keep = copy.deepcopy(sc)
        sc.set_cavity_setpoints(np.array(self.cav), np.array([sc.RING[self.cav[0]].FrequencySetPoint + r.choice([0.0, 5e5]), sc.RING[self.cav[0]].FrequencySetPoint - r.choice([0.0, 7e5])]), "Frequency", "abs")
        cavs, T, ideal, step = sorted(r.sample(self.cav, r.choice([1, 2]))), r.randint(1, 3), r.random() < 0.4, r.choice([1e3, 5e4, -1e4])
        Z0 = np.array([1e-4, 0.0, 0.0, 0.0, 0.0, r.choice([0.25, -0.125])])
        ring = sc.IDEALRING.deepcopy() if ideal else SCgetModelRING(sc)
        track = lambda: ring.track(np.asfortranarray(Z0.reshape(6, 1)), nturns=T, refpts=np.array(self.bord), use_mp=False)[0][[0, 2], 0].transpose(0, 2, 1).ravel()
        a = track()
        for c in cavs:
            ring[c].Frequency += step
        e = (track() - a) / step
        st = dict(op="orb", exc="", what2="eta", d=[], e=[], big=0)
        self.snap()
        try:
            d = SCgetModelDispersion(sc, np.array(self.bord), np.array(cavs), trackMode="TBT", Z0=Z0, rfStep=step, **({} if T == 1 and r.random() < 0.5 else dict(nTurns=T)), useIdealRing=ideal)
            big = np.max(np.abs(e))
            if big < 1e-16:
                self.sc = keep
                return
            st["d"], st["e"], st["big"] = q(d, 2 ** 20 / big), q(e, 2 ** 20 / big), 2 ** 20
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st.update(self.same())
        self.sc = keep
        self.steps.append(st)

    # ----------------------------------------------------------- model lattice
    def ring_machine(self):
        from core_driver import toy_lattice
        r = self.r
        self.lat = toy_lattice(r.choice([0, 1]))
        n = lambda *cls: [k for k, e in enumerate(self.lat) if isinstance(e, cls)]
        if r.random() < 0.5:
            self.lat[1].EApertures = np.array([0.25, 0.125])
        if r.random() < 0.5:
            self.lat[2].RApertures = np.array([-0.25, 0.25, -0.125, 0.125])
        sc = self.sc = SimulatedCommissioning(self.lat)
        self.mags = n(at.Quadrupole, at.Sextupole, at.Corrector, at.Bend)
        self.cavs = n(at.RFCavity)
        sc.register_bpms(np.array(n(at.Monitor)), Offset=1e-4 * np.ones(2))
        reg = [c for c in self.cavs if r.random() < 0.8]
        if reg:
            sc.register_cavities(np.array(reg), FrequencyOffset=0.5, VoltageOffset=0.25, TimeLagOffset=0.125)
        self.regcav = reg
        self.regmag = sorted(r.sample(self.mags, r.randint(1, len(self.mags))))
        for k in self.regmag:
            cm = {p: 0.5 for p in ("HCM", "VCM") if r.random() < 0.7}
            sc.register_magnets(np.array([k]), **cm, CalErrorB=np.array([0.1, 0.1]), CalErrorA=np.array([0.1, 0.1]), MagnetOffset=1e-3 * np.ones(3), MagnetRoll=1e-3 * np.ones(3))

    def ring_step(self):
        r, sc = self.r, self.sc
        c = r.random()
        if c < 0.2:
            sc.apply_errors()
        elif c < 0.5:
            k = r.choice(self.regmag)
            n = len(sc.RING[k].SetPointB)
            sc.set_magnet_setpoints(k, r.choice([0, 1, -3, 5]) / 8, r.random() < 0.4, r.randint(r.choice([0, 1, 1]), n - 1) if n > 1 else 0, r.choice(["abs", "add"]))
        elif c < 0.7:
            sc.set_cm_setpoints(r.choice(self.regmag), r.choice([0, 1, -1]) / 256, skewness=r.random() < 0.5)
        elif c < 0.85 and self.regcav:
            sc.set_cavity_setpoints(np.array([r.choice(self.regcav)]), r.choice([1, 5, 9]) / 4, r.choice(["Voltage", "Frequency", "TimeLag"]), r.choice(["abs", "add"]))
        elif c < 0.95:
            k = r.randrange(len(sc.RING))
            if r.random() < 0.5:
                sc.RING[k].EApertures = np.array([r.choice([1, 2, 3]) / 64, 1 / 32])
            else:
                sc.RING[k].RApertures = np.array([-1, 1, -r.choice([1, 2]), 1]) / 64
        else:
            t = np.zeros((4, 2))
            t[1, 1] = 1.0
            t[2, 0] = 1e-3
            k = r.choice(self.regmag)
            sc.set_systematic_multipoles if False else None
            sc.RING[k].PolynomBOffset = np.array([0.0, 1e-3])
            sc.update_magnets(np.array([k]))

    def project(self, lat, machine=False):
        out = []
        for k, el in enumerate(lat):
            d = elem_vars(el)
            g = d.get
            e = dict(PA=nums(g("PolynomA", [])), PB=nums(g("PolynomB", [])), V=num(g("Voltage", 0.0)), F=num(g("Frequency", 0.0)), P=num(g("TimeLag", 0.0)),
                     ea=digest(g("EApertures")) if "EApertures" in d else "-", ra=digest(g("RApertures")) if "RApertures" in d else "-")
            e["mo"] = int(g("MaxOrder", -1))
            if machine:
                e.update(hsp="SetPointA" in d and "SetPointB" in d, SA=nums(g("SetPointA", [])), SB=nums(g("SetPointB", [])), isrf=k in [int(x) for x in self.sc.ORD.RF],
                         VS=num(g("VoltageSetPoint", 0.0)), FS=num(g("FrequencySetPoint", 0.0)), PS=num(g("TimeLagSetPoint", 0.0)))
            else:
                e["rest"] = digest({a: v for a, v in d.items() if a not in AT_OWN | {"MaxOrder", "PolynomA", "PolynomB", "Voltage", "Frequency", "TimeLag", "EApertures", "RApertures"}})
            out.append(e)
        return out

    def getring(self):
        r, sc = self.r, self.sc
        ap = r.random() < 0.5
        self.snap()
        st = dict(op="ring", exc="", ap=ap, des=self.project(sc.IDEALRING), mac=self.project(sc.RING, True), got=[])
        m = None
        try:
            m = SCgetModelRING(sc, includeAperture=ap) if ap or r.random() < 0.5 else SCgetModelRING(sc)
            st["got"] = self.project(m)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st.update(self.same())
        self.steps.append(st)
        if m is None:
            return
        # scribble over the model: neither machine nor design may notice
        for el in m:
            for a, v in list(vars(el).items()):
                if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable:
                    v += 1.0
            el.FamName = "X"
        self.steps.append(dict(op="aloof", **self.same()))


def one(job):
    seed, kind = job
    rec = Rec(seed, kind)
    r = rec.r
    if kind == "toy":
        rec.toy()
        for _ in range(8):
            c = r.random()
            rec.rm() if c < 0.5 else rec.pred() if c < 0.85 else rec.bad() if rec.__dict__.get("bord") else rec.rm()
            if r.random() < 0.3 and not rec.err:
                rec.mutate()
    elif kind == "meas":
        rec.toy()
        for _ in range(4):
            c = r.random()
            rec.meas() if c < 0.65 else rec.disp() if c < 0.93 else rec.badamp()
    elif kind == "orb":
        rec.orbit()
        for _ in range(4):
            rec.orbstep()
    else:
        rec.ring_machine()
        for _ in range(8):
            rec.ring_step()
            if r.random() < 0.6:
                rec.getring()
    return dict(kind=kind, design=rec.desc, steps=rec.steps)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--kinds", default="toy")
    a = ap.parse_args()
    kinds = a.kinds.split(",")
    jobs = [(a.seed * 7919 + k, kinds[k % len(kinds)]) for k in range(a.n)]
    with ProcessPoolExecutor(8) as pool:
        res = list(pool.map(one, jobs, chunksize=1))
    json.dump(dict(traces=res), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
