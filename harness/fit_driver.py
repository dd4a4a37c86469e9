"""Runs chromaticity, injection and optics fits, circumference scaling and the pseudo-inverse (for spec/FitTrace.tla)."""
import argparse
import copy
import json
import os
import random
import sys
import warnings
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

import model_driver  # noqa: E402
from project import AT_OWN, Near, canon, elem_vars, state  # noqa: E402
from pySC.core.beam import bpm_reading  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402
from pySC.correction import chroma, injection_fit, loco, tune  # noqa: E402
from pySC.lattice_properties.response_model import SCgetModelDispersion, SCgetModelRM  # noqa: E402
from pySC.utils import at_wrapper, sc_tools  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
NAN, BAD = 1777777777, 1666666666
U = 2.0 ** -20


def q(v, u=1.0):
    return [NAN if np.isnan(x) else BAD if abs(x / u) > 9e8 else int(round(float(x) / u)) for x in np.ravel(v)]


def corrector():
    c = at.Corrector("C", 0.0, [0.0, 0.0])
    c.PolynomA, c.PolynomB, c.MaxOrder = np.zeros(2), np.zeros(2), 1
    return c


def thin(g):
    m = at.ThinMultipole("T", np.zeros(3), np.zeros(3))
    m.Length, m.PolynomB[1], m.MaxOrder = 0.0, g, 1
    return m


class Base:
    def __init__(self, seed):
        self.r = random.Random(seed)
        np.random.seed(seed % 2 ** 32)
        self.steps = []
        self.mask = lambda k, d: d

    def digest(self):
        sc, out = self.sc, {}
        ring = lambda lat, m: "|".join(type(el).__name__ + canon(m(k, state(el))) for k, el in enumerate(lat))
        out["ring"] = Near(ring(sc.RING, self.mask))
        out["inj"] = Near({a: v for a, v in vars(sc.INJ).items() if a not in ("postFun", "Z0")})
        out["ideal"] = Near(ring(sc.IDEALRING, lambda k, d: d))
        out["ORD"], out["SIG"] = Near(dict(sc.ORD)), Near(dict(sc.SIG))
        return out

    def same(self):
        o = self.digest()
        bad = [k for k in o if o[k] != self.o0[k]]
        return dict(oth=not bad, what=",".join(bad))

    def only(self, where):
        """mask the given (element, A or B, order) strengths"""
        def mask(k, d):
            for o, ab, n in where:
                if o == k:
                    for x in ("SetPoint" + ab, "Polynom" + ab):
                        v = np.array(d[x])
                        v[n] = 0
                        d[x] = v
            return d
        self.mask = mask


class Chroma(Base):
    def run(self):
        r = self.r
        els = []
        for k in range(r.choice([4, 6])):
            els += [at.Quadrupole("QF", 0.25, 1.2), at.Drift("D", 0.25), at.Sextupole("SF", 0.125, r.choice([0.0, 2.0])), at.Drift("D", 0.25), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0),
                    at.Drift("D", 0.5), at.Quadrupole("QD", 0.25, -1.0), at.Drift("D", 0.25), at.Sextupole("SD", 0.125, -1.0), at.Drift("D", 0.25), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5)]
        lat = at.Lattice(els, energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(lat)
        n = lambda f: [k for k, e in enumerate(lat) if e.FamName == f]
        fams = [n("SF"), n("SD")]
        if r.random() < 0.3:
            fams = fams[::-1]
        if r.random() < 0.4:
            fams[0] = r.sample(fams[0], len(fams[0]) - 1)
        allm = [k for k, e in enumerate(lat) if e.FamName in ("QF", "QD", "B", "SF", "SD")]
        sc.register_magnets(np.array(allm))
        for k in fams[0] + fams[1]:
            if r.random() < 0.5:
                sc.set_magnet_setpoints(k, r.choice([0.5, -0.25, 1.0, 3.0]), False, 2, "abs")
            if r.random() < 0.3:
                sc.RING[k].CalErrorB = np.array([0.0, 0.0, r.choice([0.125, -0.0625])])
        for k in n("QF"):
            if r.random() < 0.3:
                sc.set_magnet_setpoints(k, r.choice([0.99, 1.01]), False, 1, "rel")
        sc.update_magnets()
        kind = r.choice(["near", "far", "design", "nan", "fine", "exact"])
        kw = {}
        now = sc.RING.get_chrom()[:2]
        target = lat.get_chrom()[:2]
        if kind != "design":
            target = now + np.array([r.uniform(-1, 1), r.uniform(-1, 1)]) * (3 if kind == "far" else 0.5)
            if kind == "nan":
                target[r.randrange(2)] = np.nan
            kw["target_chroma"] = np.array(target)
        if kind == "fine":
            kw.update(xtol=1e-6, ftol=1e-6)
        if kind == "exact":     # the first try is the solution, everything tried later is worse
            x = np.array([r.choice([1.0, 3.0]), r.choice([2.0, -2.0])])
            m = copy.deepcopy(sc)
            for j, f in enumerate(fams):
                for k in f:
                    m.set_magnet_setpoints(k, m.RING[k].SetPointB[2] + x[j], False, 2, "abs")
            kw.update(target_chroma=np.array(m.RING.get_chrom()[:2]), init_step_size=x, xtol=r.choice([0.05, 0.01]), ftol=r.choice([0.05, 1.0]))
        elif r.random() < 0.3:
            kw["init_step_size"] = np.array([r.choice([1.0, 5.0]), r.choice([1.0, 3.0])])
        self.only([(k, "B", 2) for f in fams for k in f])
        self.o0 = self.digest()
        sp = lambda: [[int(round(sc.RING[k].SetPointB[2] * 2 ** 16)) for k in f] for f in fams]
        st = dict(op="chroma", bad=kind == "nan", tol=20 if kind == "fine" else 2 if kind == "exact" else 200, sp0=sp(), target=q(kw.get("target_chroma", target), 1e-4), exc="")
        keep = [np.array(f) for f in fams]
        try:
            if len(fams[0]) == len(fams[1]) and r.random() < 0.5:
                chroma.fit_chroma(sc, np.vstack(keep), **kw)
            else:
                chroma.fit_chroma(sc, keep, **kw)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["sp"], st["got"] = sp(), q(sc.RING.get_chrom()[:2], 1e-4)
        st.update(self.same())
        self.steps.append(st)


class Tune(Base):
    def run(self):
        r = self.r
        els = []
        for k in range(6):
            els += [at.Quadrupole("QF", 0.25, 1.6), at.Drift("D", 0.25), at.Sextupole("S", 0.125, r.choice([0.0, 1.0])), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5), at.Quadrupole("QD", 0.25, -1.6),
                    at.Drift("D", 0.25), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5)]
        rf = r.random() < 0.25
        if rf:
            els.append(at.RFCavity("CAV", 0.0, 1e6, 100 * 299792458.0 / sum(e.Length for e in els), 100, 1e9))
            els[-1].PassMethod = "RFCavityPass"
        lat = at.Lattice(els, energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(lat)
        n = lambda f: [k for k, e in enumerate(lat) if e.FamName == f]
        fams = [n("QF"), n("QD")]
        if r.random() < 0.3:
            fams = fams[::-1]
        if r.random() < 0.5:
            j = r.randrange(2)
            fams[j] = r.sample(fams[j], r.randint(3, len(fams[j])))
        sc.register_magnets(np.array([k for k, e in enumerate(lat) if e.FamName[0] in "QBS"]), **({} if r.random() < 0.5 else dict(HCM=1.0, VCM=1.0)))
        for k in n("QF") + n("QD"):
            if r.random() < 0.5:
                sc.set_magnet_setpoints(k, r.choice([0.995, 1.005, 1.01]), False, 1, "rel")
            if r.random() < 0.3:
                sc.RING[k].CalErrorB = np.array([0.0, r.choice([0.0078125, -0.00390625])])
        sc.update_magnets()
        integer = r.random() < 0.5
        read = lambda lat: np.array(at.get_tune(lat, get_integer=integer))[:2]
        kind = r.choice(["near", "near", "design", "fine", "exact"])
        kw = {} if integer and r.random() < 0.5 else dict(fit_integer=integer)
        m44 = lambda lat: at.find_m44(at.Lattice([e for e in lat if e.FamName != "CAV"], energy=1e9, periodicity=1))[0]
        ok = lambda lat: max(abs(m44(lat)[0, 0] + m44(lat)[1, 1]), abs(m44(lat)[2, 2] + m44(lat)[3, 3])) < 1.8
        if not ok(sc.RING):
            return
        target = read(lat)
        if kind in ("near", "fine"):
            target = read(sc.RING) + np.array([r.uniform(-0.03, 0.03), r.uniform(-0.03, 0.03)])
            kw["target_tune"] = target.copy()
        if kind == "fine":
            kw.update(xtol=1e-7, ftol=1e-7)
        if kind == "exact":     # the first try is the solution, everything tried later is worse
            x = np.array([r.choice([1, -1]), r.choice([1, -1])]) / 64
            m = copy.deepcopy(sc)
            for j, f in enumerate(fams):
                for k in f:
                    m.set_magnet_setpoints(k, m.RING[k].SetPointB[1] + x[j], False, 1, "abs")
            if not ok(m.RING):
                return
            target = read(m.RING)
            kw.update(target_tune=target.copy(), init_step_size=x, xtol=r.choice([0.05, 0.01]), ftol=r.choice([0.05, 1.0]))
        elif r.random() < 0.3:
            kw["init_step_size"] = np.array([r.choice([0.02, -0.01]), r.choice([0.005, 0.01])])
        self.only([(k, "B", 1) for f in fams for k in f])
        self.o0 = self.digest()
        sp = lambda: [[int(round(sc.RING[k].SetPointB[1] * 2 ** 20)) for k in f] for f in fams]
        st = dict(op="tune", bad=False, tol=100 if kind == "fine" else 20 if kind == "exact" else 500, sp0=sp(), target=q(target, 1e-6), exc="")
        keep = [np.array(f) for f in fams]
        try:
            tune.fit_tune(sc, np.vstack(keep) if len(fams[0]) == len(fams[1]) and r.random() < 0.5 else keep, **kw)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["sp"], st["got"] = sp(), q(read(sc.RING), 1e-6)
        st.update(self.same())
        self.steps.append(st)


class Inj(Base):
    def run(self):
        r = self.r
        drift = r.random() < 0.5
        els, sb, kick, s = [], [], [], 0
        N = r.randint(2, 5) if not drift else r.randint(1, 4)
        wall = 2.0 ** -6
        for k in range(N):
            d = r.randint(4, 16)
            els.append(at.Drift("D", d / 8))
            s += d
            els.append(at.Monitor("BPM"))
            sb.append(s)
            if k < N - 1 or not drift:
                els.append(at.Drift("D", 0.125))
                s += 1
                els.append(corrector() if drift else thin(r.choice([0, 0.0625, -0.125, 0.125])))
                kick.append(s)
        d = r.randint(2, 8)
        els.append(at.Drift("D", d / 8))
        s += d
        loss = r.random() < 0.25
        els.insert(r.randrange(len(els)) if loss else len(els), at.Aperture("AP", [-wall, wall, -wall, wall] if not loss else [-1e-9, 1e-9, -1e-9, 1e-9]))
        lat = at.Lattice(els, energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(lat)
        B = [k for k, e in enumerate(lat) if e.FamName == "BPM"]
        C = [k for k, e in enumerate(lat) if e.FamName == "C"]
        T = [k for k, e in enumerate(lat) if e.FamName == "T"]
        sc.register_bpms(np.array(B))
        if C:
            sc.register_magnets(np.array(C), HCM=np.ones(1), VCM=np.ones(1))
        if T:
            sc.register_magnets(np.array(T))
        kicks = []
        for c, x in zip(C, kick):
            a, b = 8 * r.randint(-6, 6), 8 * r.randint(-6, 6)
            sc.set_cm_setpoints(c, a * U, False, "abs")
            sc.set_cm_setpoints(c, b * U, True, "abs")
            kicks.append([x, a, b])
        z = [r.randint(-900, 900), 8 * r.randint(-16, 16), r.randint(-900, 900), 8 * r.randint(-16, 16)]
        if r.random() < 0.2:
            z[0] = z[1] = 0
        e = [r.randint(-300, 300), 8 * r.randint(-8, 8), r.randint(-300, 300), 8 * r.randint(-8, 8)] if r.random() < 0.5 else [0] * 4
        sc.INJ.Z0 = np.array([x * U for x in z] + [r.choice([0.0, 1e-4]) if not drift and not T else 0.0, 0.0])
        off = np.array([x * U for x in e] + [0, 0])
        sc.INJ.postFun = lambda Z: Z + off.reshape(6, 1)
        model = False
        if T and not loss and r.random() < 0.4:        # machine and design differ
            for k in T:
                if r.random() < 0.7:
                    sc.set_magnet_setpoints(k, r.choice([0.125, -0.125, 0.0625]), False, 1, "add")
                    model = True
        sc.INJ.nParticles, sc.INJ.nShots, sc.INJ.trackMode = 1, r.choice([1, 1, 3]), "TBT"
        sc.INJ.nTurns = 2 if drift else r.choice([1, 1, 2])
        self.o0 = self.digest()
        kw, inds = {}, []
        if not drift:
            inds = sorted(r.sample(range(N), 2 if model else r.randint(2, N)))
            if N > 2 and not model and r.random() < 0.4:
                inds = [0, 1, 2]
            design = lambda z: at_wrapper.lattice_track(sc.IDEALRING, np.append(z, [0.0, 0.0]), 1, np.array(B)[inds], keep_lattice=False)[[0, 2], 0, :, 0]
            if model:       # two positions determine the two coordinates of a plane
                m = np.array([design(v)[p] for p in range(2) for v in (np.eye(4)[2 * p] * U, np.eye(4)[2 * p + 1] * U)]).reshape(2, 2, 2) / U
                if min(abs(np.linalg.det(x)) for x in m) < 0.25:
                    return
            if inds == list(range(3)) and r.random() < 0.5:
                pass
            else:
                kw["bpm_inds"] = np.array(inds)
        tail = sc.INJ.Z0[4:].copy()
        ap = [k for k, x in enumerate(lat) if x.FamName == "AP"][0]
        used = [B[k] for k in inds] if not drift else B
        blind = loss and any(b > ap for b in used) if not drift else loss
        # a beam that happens to be on axis survives
        if loss:
            sure = bool(np.any(np.isnan(bpm_reading(sc)[0][:, inds] if not drift else bpm_reading(sc)[0][:, [N - 1, N]])))
            if sure != blind:
                return
        st = dict(op="inj", drift=drift, s=s, kicks=kicks, z0=z, e=e, blind=bool(blind), model=model, exc="", ret=[], seen=[], pred=[])
        if model:
            st["seen"] = q(bpm_reading(sc)[0][:, inds], U)
        try:
            out = (injection_fit.fit_injection_drift if drift else injection_fit.fit_injection_trajectory)(sc, **kw)
            st["ret"] = q(out, U)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["z"], st["tail"] = q(sc.INJ.Z0[:4], U), bool(np.all(sc.INJ.Z0[4:] == tail))
        st["read"] = []
        if model and st["exc"] == "":
            st["pred"] = q(design(-np.array(out[:4])), U)
        elif not drift and not blind:
            st["read"] = q(bpm_reading(sc)[0][:, inds], U)
        st.update(self.same())
        self.steps.append(st)


class Loco(Base):
    def run(self):
        {"jac": self.jac, "lm": self.lm, "ng": self.lm, "set": self.setc, "cut": self.cut, "beat": self.beat}[self.r.choice(["jac", "lm", "lm", "ng", "ng", "set", "set", "set", "cut", "beat"])]()

    def beat(self):
        """the beta beating: rms of the relative deviations from the given optics, per plane"""
        r = self.r
        els = []
        for k in range(6):
            els += [at.Quadrupole("QF", 0.25, 2.0), at.Drift("D", 0.25), at.Monitor("BPM"), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5), at.Quadrupole("QD", 0.25, -2.0), at.Monitor("BPM"),
                    at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5)]
        lat = at.Lattice(els, energy=1e9, periodicity=1)
        pick = np.array(sorted(r.sample(range(len(els)), r.randint(1, 12))))
        twiss = at.get_optics(lat, pick)[2]
        for e in lat:
            if e.FamName[0] == "Q":
                e.K = e.K * r.uniform(0.985, 1.015)
        if abs(at.find_m44(lat)[0][0, 0] + at.find_m44(lat)[0][1, 1]) > 1.9 or abs(at.find_m44(lat)[0][2, 2] + at.find_m44(lat)[0][3, 3]) > 1.9:
            return      # not stable
        now = at.get_optics(lat, pick)[2]
        dig = lambda: "|".join(type(e).__name__ + canon(elem_vars(e)) for e in lat)
        d0, b0 = dig(), twiss.beta.copy()
        st = dict(op="beat", m=[q(b0[:, p], 2.0 ** -14) for p in (0, 1)], b=[q(now.beta[:, p], 2.0 ** -14) for p in (0, 1)], exc="", ret=[])
        try:
            st["ret"] = q(loco.model_beta_beat(lat, twiss, pick, **({} if r.random() < 0.5 else dict(plot=False))), 2.0 ** -12)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["oth"], st["what"] = dig() == d0 and np.array_equal(twiss.beta, b0), "lattice"
        self.steps.append(st)

    def cut(self):
        """only the strongest modes of the fit are kept; here every parameter is a mode of its own"""
        r = self.r
        n = r.randint(2, 5)
        M, N, keep = r.randint(n, n + 2), r.randint(2, 3), r.randint(0, n)
        size = r.sample([1, 2, 3, 4, 6, 8], n)
        J = np.zeros((n, M, N))
        for k, m in enumerate(r.sample(range(M), n)):
            J[k, m, r.randrange(N)] = size[k] * r.choice([1, -1])
        p = [r.randint(-16, 16) for _ in range(n)]
        st = dict(op="cut", size=size, keep=keep, p=p, exc="", ret=[], oth=True, what="")
        a0 = [np.zeros(n), np.ones((M, N)), np.ones((M, N)) + np.einsum("ijk,i->jk", J, np.array(p) / 8), J]
        a1 = copy.deepcopy(a0)
        try:
            st["ret"] = q(loco.loco_correction_ng(*a0, [n, 0, 0], ["quads"], s_cut=keep), 2.0 ** -16)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        if any(not np.array_equal(a, b) for a, b in zip(a0, a1)):
            st.update(oth=False, what="arguments")
        self.steps.append(st)

    def jac(self):
        r = self.r
        rec = model_driver.Rec(r.randrange(10 ** 6), "toy")
        orb = r.random() < 0.4
        if orb:
            rec.orbit()
            quads = [int(x) for x in r.sample(rec.quads, 2)]
        else:
            for _ in range(50):
                rec.toy()
                if rec.thin:
                    break
            else:
                return
            quads = [int(x) for x in r.sample(rec.thin, r.randint(1, len(rec.thin)))]
        # one worker process: the jobs of several quadrupoles share one machine
        alone = r.random() < 0.4
        if alone:
            quads = (quads * 9)[:r.choice([5, 9])]
        sc = self.sc = rec.sc
        B = np.array(sorted(r.sample(rec.bpms, min(len(rec.bpms), r.randint(1, 3)))))
        nh = r.randint(1, 2)
        C = [np.array(sorted(r.sample(rec.cms, min(len(rec.cms), n)))) for n in (nh, r.randint(1, 2))]
        mode = "ORB" if orb else "TBT"
        skew = not orb and r.random() < 0.3
        dk, dkick = r.choice([1e-3, 2.0 ** -10]) if orb else r.choice([2.0 ** -4, -2.0 ** -3]), r.choice([1e-5, 2.0 ** -12])
        disp = orb and r.random() < 0.6
        kw = dict(trackMode=mode, useIdealRing=False)
        rm = lambda m: SCgetModelRM(m, B, C, dkick=dkick, **kw)
        if disp:
            kw2 = dict(includeDispersion=True, cav_ords=np.array(rec.cav), rf_step=r.choice([20.0, 50.0]))
            eta = lambda m: SCgetModelDispersion(m, B, kw2["cav_ords"], rfStep=kw2["rf_step"], useIdealRing=False).reshape(-1, 1)
            full = False
        else:
            kw2, full = {}, r.random() < 0.7
        model = rm(sc)
        exp = []
        for k in quads:
            m = copy.deepcopy(sc)
            getattr(m.RING[k], "SetPointA" if skew else "SetPointB")[1] += dk
            x = (rm(m) - model) / dk
            exp.append(np.hstack((x, (eta(m) - eta(sc)) / dk)) if disp else x)
        big = float(np.max(np.abs(exp))) or 1.0
        u, uc = big / 2 ** 20, (float(np.max(np.abs(model))) or 1.0) / 2 ** 20
        if disp:        # two parts of their own size
            ue = (float(np.max(np.abs(np.array(exp)[:, :, -1]))) or 1.0) / 2 ** 20
        self.o0 = self.digest()
        st = dict(op="jac", exc="", full=full, nq=len(quads), J=[], E=[[[]]], C=[q(row, uc) for row in model], tol=2 ** 12 if orb else 16)
        mat = lambda m, v: [q(row, v) for row in m]
        count = os.cpu_count
        try:
            if alone:
                os.cpu_count = lambda: 1
            if not full or r.random() < 0.4:
                kw2["full_jacobian"] = full
            if skew or r.random() < 0.4:
                kw2["skewness"] = skew
            if orb and r.random() < 0.5:
                kw.pop("trackMode")
            if r.random() < 0.3:
                kw2.update(order=1, method="add")
            J = loco.calculate_jacobian(sc, model.copy(), dkick, C, B, np.array(quads), dk, **kw, **kw2)
            J = [np.array(x) for x in J]
            st["J"] = [mat(x, u if k < len(quads) else uc) for k, x in enumerate(J)]
            if disp:
                for k, x in enumerate(J):
                    st["J"][k] = [q(row[:-1], u) + q(row[-1:], ue) for row in x]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
            import traceback
            st["tb"] = traceback.format_exc()[-300:]
        os.cpu_count = count
        st["E"] = [mat(x, u) for x in exp]
        if disp:
            st["E"] = [[q(row[:-1], u) + q(row[-1:], ue) for row in x] for x in exp]
        st.update(self.same())
        self.steps.append(st)

    def lm(self):
        r = self.r
        ng = r.random() < 0.5
        lens = [r.randint(0, 3), r.randint(0, 3), r.randint(0, 3)]
        inc = [g for g in ("quads", "cor", "bpm") if r.random() < 0.6]
        names = ("quads", "cor", "bpm")
        P = sum(lens)
        on = [names[k] in inc for k in range(3) for _ in range(lens[k])]
        n = sum(on)
        if n == 0:
            return
        M, N = r.randint(max(2, n), n + 3), r.randint(2, 4)
        for _ in range(100):
            J = np.array([[[r.randint(-4, 4) for _ in range(N)] for _ in range(M)] for _ in range(P)], dtype=float)
            A = np.sum(J[np.array(on)], axis=2) if ng else J[np.array(on)].reshape(n, -1)
            s = np.linalg.svd(A, compute_uv=False)
            if s[-1] > 0.05 * s[0]:
                break
        else:
            return
        p = [r.randint(-16, 16) if x else 0 for x in on]
        model = np.array([[r.randint(-9, 9) for _ in range(N)] for _ in range(M)], dtype=float)
        meas = model + np.einsum("ijk,i->jk", J, np.array(p) / 8)
        noisy = r.random() < 0.5        # no exact solution
        if noisy:
            meas = meas + np.array([[r.randint(-9, 9) for _ in range(N)] for _ in range(M)])
        st = dict(op="lm", ng=ng, on=on, p=p, exc="", ret=[], oth=True, what="", noisy=noisy, lam=0, w=[1] * M, J=[[list(map(int, x)) for x in j] for j in J[np.array(on)]],
                  D=[[int(x) for x in row] for row in np.round((meas - model) * 8)])
        r.shuffle(inc)
        a0 = [np.zeros(P), model, meas, J]
        if not ng and r.random() < 0.5:
            a0[0] = np.array([r.randint(-3, 3) * 1.0 for _ in range(P)])
        keep = copy.deepcopy(a0)
        try:
            if ng:
                kw = dict(s_cut=n + r.choice([0, 0, 2]))
                if noisy and r.random() < 0.5:
                    st["lam"] = r.choice([1, 4, 8])
                    kw["LM_lambda"] = st["lam"] / 8
                st["ret"] = q(loco.loco_correction_ng(*a0, lens, inc, **kw), 2.0 ** -16)
            else:
                kw = {}
                if r.random() < 0.4:
                    st["w"] = [r.choice([1, 4, 2]) for _ in range(M)]
                    kw["weights"] = np.diag(np.array(st["w"], dtype=float))
                st["ret"] = q(loco.loco_correction_lm(*a0, lens, inc, verbose=0, **kw), 2.0 ** -16)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        if any(not np.array_equal(a, b) for a, b in zip(a0, keep)):
            st.update(oth=False, what="arguments")
        self.steps.append(st)

    def setc(self):
        r = self.r
        n = r.randint(3, 7)
        els = []
        for _ in range(n):
            els += [at.Drift("D", 0.5), at.Multipole("M", 0.25, [0.0, 0.0, 0.0], [0.0, r.choice([0.5, -0.25, 0.0]), r.choice([0, 1.0])])]
            if r.random() < 0.3:        # combined function magnet
                els[-1] = at.Dipole("M", 0.25, 0.125, PolynomA=[0.0, 0.0, 0.0], PolynomB=[0.0, r.choice([0.5, -0.25]), 0.0])
        lat = at.Lattice(els, energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(lat)
        M = [k for k, e in enumerate(lat) if e.FamName == "M"]
        sc.register_magnets(np.array(M), **({} if r.random() < 0.3 else dict(HCM=r.choice([1.0, 1e9]) * 1e3)))
        for k in M:
            if r.random() < 0.5:
                sc.set_magnet_setpoints(k, r.choice([0.25, 0.75]), False, 1, "abs")
            if r.random() < 0.4:
                sc.RING[k].CalErrorB = np.array([0.0, 0.125, 0.0])
        sc.update_magnets()
        skew, order = r.random() < 0.3, r.choice([1, 1, 2])
        ab = "A" if skew else "B"
        picks = r.sample(M, r.randint(1, n))
        single = r.random() < 0.5
        if single:
            groups = [[k] for k in picks]
        else:
            k = r.randint(1, len(picks))
            groups = [g for g in (picks[j::k] for j in range(k)) if g]
        rr = [r.choice([0, 1, -3, 1024, -65536, 7777]) for _ in groups]
        kw = {}
        if skew:
            kw["skewness"] = True
        if order != 1:
            kw["order"] = order
        if not single:
            kw["individuals"] = False
        comp = r.random() < 0.7
        if not comp or r.random() < 0.3:
            kw["dipole_compensation"] = comp
        # the horizontal corrector of a combined function magnet takes the change of the angle: angle / (nominal strength * length)
        gain = lambda k: int(0.5 / sc.RING[k].NomPolynomB[1]) if comp and not skew and order == 1 and k in sc.ORD.HCM and getattr(lat[k], "BendingAngle", 0) else 0
        self.only([(k, ab, order) for k in picks] + [(k, "B", 0) for k in picks])
        self.o0 = self.digest()
        sp = lambda: [[int(round(getattr(sc.RING[k], "SetPoint" + ab)[order] / U)) for k in g] for g in groups]
        cm = lambda: [[int(round(sc.RING[k].SetPointB[0] / U)) for k in g] for g in groups]
        st = dict(op="set", r=rr, sp0=sp(), cm0=cm(), gain=[[gain(k) for k in g] for g in groups], exc="")
        arg = np.array(picks) if single else [np.array(g) for g in groups]
        try:
            loco.set_correction(sc, np.array(rr) * U, arg, **kw)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["sp"], st["cm"] = sp(), cm()
        st.update(self.same())
        self.steps.append(st)


class Circ(Base):
    def run(self):
        r = self.r
        els, shared = [], []
        f = r.choice([1, 1, 1 / 32, 16])       # size of everything
        for _ in range(r.randint(2, 9)):
            c = r.random()
            L = r.randint(1, 128) / 64 * f
            if c < 0.5:
                e = at.Drift("D", L)
            elif c < 0.6:
                e = at.Drift("X", L)
                e.PassMethod = r.choice(["IdentityPass", "ExactHamiltonianPass"]) if r.random() < 0.5 else "IdentityPass"
            elif c < 0.75:
                e = at.Quadrupole("Q", L, 1.0)
            elif c < 0.85:
                e = at.Bend("B", L, 0.1)
            elif c < 0.92:
                e = at.Marker("M")
            else:
                e = at.Monitor("BPM")
            els.append(e)
            if r.random() < 0.25:
                els.append(e)       # the same object again
        if not any(e.PassMethod == "DriftPass" for e in els):
            els.append(at.Drift("D", 1.0 * f))
        ring = at.Lattice(els, energy=1e9, periodicity=1)
        mode = r.choice(["abs", "abs", "abs", "rel", "rel", "rel", r.choice(["ABS", "relative", "", "add", "REL", "absolute", "total", None])])
        C = int(round(sum(e.Length for e in ring) / f * 64))
        D = int(round(sum(e.Length for e in ring if e.PassMethod == "DriftPass") / f * 64))
        if mode == "rel":
            num = r.choice([15, 17, 16, 18])
            goal, arg = C * num, num / 16           # goal in 1/1024
        else:
            goal = C * 16 + r.randint(-8 * D, 16 * D)
            arg = goal * f / 1024
        strip = lambda e: {a: v for a, v in elem_vars(e).items() if a not in AT_OWN and not (a == "Length" and e.PassMethod == "DriftPass")}
        dig = lambda: Near("|".join(type(e).__name__ + canon(strip(e)) for e in ring))
        st = dict(op="circ", bad=mode not in ("abs", "rel"), C=C, D=D, goal=goal, old=[int(round(e.Length / f * 64)) for e in ring], dr=[e.PassMethod == "DriftPass" for e in ring], exc="")
        ids = [id(e) for e in ring]
        d0 = dig()
        try:
            out = sc_tools.scale_circumference(ring, arg, **({} if mode == "abs" and r.random() < 0.5 else dict(mode=mode)))
            if out is None:
                st["exc"] = "nothing returned"
            else:
                if out is not ring and [id(e) for e in ring] != ids:
                    st["exc"] = "elements exchanged"
                ring = out
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["new"] = [int(round(e.Length / f * 4096)) for e in ring]
        st["oth"], st["what"] = dig() == d0, "elements"
        self.steps.append(st)


class Pinv(Base):
    def run(self):
        r = self.r
        k = r.randint(1, 5)
        pool = r.sample([1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64] if r.random() < 0.6 else [1, 2, 4, 8, 256, 512, 1024, 2048], k)       # singular values in quarters
        zeros = r.choice([0, 0, 1, 2])
        had = zeros == 0 and r.random() < 0.4 and k >= 4
        if had:
            k, pool = 4, sorted(r.sample([2, 4, 8, 16, 32], 4), reverse=True)
            H = np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]])
            Uo, Vo = H[:, r.sample(range(4), 4)], H[r.sample(range(4), 4)].T
            D = 2
        sig = list(pool) + [0] * zeros
        n = len(sig)
        rows, cols = (4, 4) if had else (n + r.choice([0, 0, 2]), n + r.choice([0, 0, 1]))
        u, v = np.zeros((rows, n), dtype=int), np.zeros((cols, n), dtype=int)
        if had:
            ex = r.choice([0, 0, 1])
            u, v = Uo, Vo
            if ex:
                u = np.vstack((u, np.zeros((1, 4), dtype=int)))
        else:
            D = 1
            for j, (a, b) in enumerate(zip(r.sample(range(rows), n), r.sample(range(cols), n))):
                u[a, j], v[b, j] = r.choice([1, -1]), r.choice([1, -1])
        M = (u / D) @ np.diag(np.array(sig) / 4) @ (v / D).T
        if not had and r.random() < 0.4 and zeros == 0 and rows == cols:
            pass
        rem, al, damp = r.choice([0, 0, 1, 2, n, max(0, n - 1)]), r.choice([0, 0, 1, 2, 4, 8]), r.choice([4, 4, 2, 3, 1, 6, 8])
        rem = min(rem, min(M.shape))
        kw = {}
        if rem or r.random() < 0.3:
            kw["num_removed"] = rem
        if al or r.random() < 0.3:
            kw["alpha"] = al / 4 if r.random() < 0.8 else -al / 4
        if damp != 4 or r.random() < 0.3:
            kw["damping"] = damp / 4
        keep = M.copy()
        st = dict(op="pinv", u=[list(map(int, x)) for x in u], v=[list(map(int, x)) for x in v], D=D, sig=sig, rem=rem, mn=int(min(M.shape)), al=al, damp=damp, exc="", ret=[])
        try:
            st["ret"] = [q(x, 2.0 ** -16) for x in sc_tools.pinv(M, **kw)]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["oth"], st["what"] = bool(np.array_equal(M, keep)), "argument"
        self.steps.append(st)


KINDS = dict(chroma=Chroma, tune=Tune, inj=Inj, loco=Loco, circ=Circ, pinv=Pinv)


def one(job):
    seed, kind = job
    rec = KINDS[kind](seed)
    rec.run()
    return dict(kind=kind, steps=rec.steps)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--kinds", default="chroma")
    a = ap.parse_args()
    kinds = a.kinds.split(",")
    jobs = [(a.seed * 7919 + k, kinds[k % len(kinds)]) for k in range(a.n)]
    with ProcessPoolExecutor(8) as pool:
        res = list(pool.map(one, jobs, chunksize=1))
    json.dump(dict(traces=[x for x in res if x["steps"]]), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
