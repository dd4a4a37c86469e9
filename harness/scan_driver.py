"""Runs the tune scan and the RF corrections on toy lines with scripted beams (for spec/ScanTrace.tla)."""
import argparse
import json
import os
import random
import sys
import warnings
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

from project import Near, canon, state  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402
from pySC.correction import rf  # noqa: E402
from pySC.correction.tune import tune_scan  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
NAN, BAD = 1777777777, 1666666666
WALL = 0.0625


def q(v, u=1):
    return [NAN if np.isnan(x) else BAD if abs(x * u) > 9e8 else int(round(float(x) * u)) for x in np.ravel(v)]


def corrector():
    c = at.Corrector("C", 0.0, [0.0, 0.0])
    c.PolynomA, c.PolynomB, c.MaxOrder = np.zeros(2), np.zeros(2), 1
    return c


class Base:
    def __init__(self, seed):
        self.r = random.Random(seed)
        np.random.seed(seed % 2 ** 32)
        self.steps = []

    def digest(self):
        sc, out = self.sc, {}
        parts = []
        for k, el in enumerate(sc.RING):
            d = state(el)
            parts.append(type(el).__name__ + canon(self.mask(k, d)))
        out["ring"] = Near("|".join(parts))
        out["inj"] = Near({a: v for a, v in vars(sc.INJ).items() if a != "postFun"})
        out["ideal"] = Near("".join(canon(state(el)) for el in sc.IDEALRING))
        out["ORD"], out["SIG"] = Near(dict(sc.ORD)), Near(dict(sc.SIG))
        return out

    def same(self):
        o = self.digest()
        bad = [k for k in o if o[k] != self.o0[k]]
        return dict(oth=not bad, what=",".join(bad))


class Tune(Base):
    def run(self):
        r = self.r
        els = []
        names = []
        for _ in range(r.randint(4, 8)):
            c = r.choice(["QF", "QD", "D", "C", "QX"])
            names.append(c)
        names += ["QF", "QD"]
        r.shuffle(names)
        knom = {}
        for k, c in enumerate(names):
            if c.startswith("Q"):
                knom[k] = r.choice([1, 2, -1, 3]) * 2.0 ** -20
                els.append(at.Quadrupole(c, 0.25, knom[k]))
                if r.random() < 0.3:
                    els[-1].PolynomA[1] = 2.0 ** -21
            else:
                els.append(at.Drift("D", 0.25) if c == "D" else corrector())
        L = sum(e.Length for e in els)
        els.append(at.Drift("D", 2.0 - L % 2.0))
        L = sum(e.Length for e in els)
        els += [at.Monitor("BPM"), at.Aperture("AP", [-WALL, WALL, -WALL, WALL])]
        lat = at.Lattice(els, energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(lat)
        fam = [[k for k, c in enumerate(names) if c == n] for n in ("QF", "QD")]
        for f in fam:
            r.shuffle(f)
            if len(f) > 1 and r.random() < 0.3:
                f.pop()
        mags = [k for k, c in enumerate(names) if c != "D"]
        sc.register_bpms(np.array([len(els) - 2]))
        sc.register_magnets(np.array(mags))
        for k in mags:
            if names[k].startswith("Q"):
                if r.random() < 0.4:
                    sc.RING[k].CalErrorB = np.array([0.0, r.choice([0.125, -0.0625])])
                if r.random() < 0.4:
                    sc.set_magnet_setpoints(k, r.choice([0.5, 0.75, 1.25]), False, 1, "rel")
        P, T = r.choice([1, 4, 8]), r.randint(1, 5)
        sc.INJ.trackMode, sc.INJ.nShots = "TBT", 1
        kw = {}
        if r.random() < 0.5:
            sc.INJ.nParticles = P
        else:
            sc.INJ.nParticles, kw["nParticles"] = r.choice([1, 2]), P
        if r.random() < 0.5:
            sc.INJ.nTurns = T
        else:
            sc.INJ.nTurns, kw["nTurns"] = r.choice([1, 7]), T
        limit = r.choice([16, 8, 8, 4, 12])
        sc.INJ.beamLostAt = limit / 16
        f = [np.array(sorted(r.sample(range(40, 90), r.choice([1, 2, 3, 3, 4, 5, 5, 6])))) for _ in (0, 1)]
        for k in (0, 1):
            if r.random() < 0.3:
                f[k] = f[k][::-1]
        n, full = r.choice([2, 3, 5, 8, 12, 16, 60]), r.random() < 0.4
        if n != 60 or r.random() < 0.2:
            kw["n_points"] = n
        target = r.choice([1, 1, 0.5, 0.25, 0.75])
        if r.random() < 0.3:
            kw["target"] = target
        else:
            target = 1
        if full:
            kw["full_scan"] = True
        # the transmission map
        style, table = r.choice(["dark", "early", "mixed", "mixed", "good", "flat"]), {}
        if style == "flat":     # many are lost at once or late: the most turns and the most survivors are at different points
            P, T = 8, max(T, 3)
            sc.INJ.nParticles, sc.INJ.nTurns = P, T
            kw.pop("nParticles", None), kw.pop("nTurns", None)
            sc.INJ.beamLostAt = (limit := 4) / 16

        def lost(a, b):
            if (a, b) not in table:
                if style == "dark":
                    v = [1] * P
                elif style == "early":
                    v = [r.randint(1, T) for _ in range(P)]
                elif style == "flat":
                    v = [r.choice([1, 2])] * 3 + [0] * 5 if r.random() < 0.4 else [T] * 7 + [0]
                elif style == "good":
                    v = [r.choice([0, 0, 0, r.randint(1, T)]) for _ in range(P)] if r.random() < 0.7 else [0] * P
                else:
                    v = [r.choice([0, r.randint(1, T), r.randint(1, T)]) for _ in range(P)]
                table[a, b] = v
            return table[a, b]

        def fac():
            return [[int(round(sc.RING[k].SetPointB[1] / knom[k] * 64)) for k in f_] for f_ in fam]

        def mask(k, d):
            if k in fam[0] + fam[1]:
                for a in ("SetPointB", "PolynomB"):
                    d[a] = np.delete(np.asarray(d[a]), 1)
            d.pop("MaxOrder", None)
            return d

        def post(Z):
            now = fac()
            v = lost(now[0][0], now[1][0])
            out = np.zeros((6, np.shape(Z)[1]))
            for j in range(out.shape[1]):
                m = v[j % P]
                if m:       # reaches the wall in the middle of turn m
                    out[r.choice([1, 3]), j] = r.choice([-1, 1]) * WALL / (m - 0.5) / L
            self.steps.append(dict(op="tinj", fac=now, lost=[v[j % P] for j in range(out.shape[1])], **self.same()))
            return out

        self.mask = mask
        self.o0 = self.digest()
        self.steps.append(dict(op="tstart", f=[[int(x) for x in g] for g in f], n=n, full=full, target=int(np.ceil(target * P)), P=P, T=T, limit=limit))
        sc.INJ.postFun = post
        self.o0["inj"] = self.digest()["inj"]
        st = dict(op="tend", exc="", ret=[], mt=[], tr=[])
        arg = [np.array(fam[0]), np.array(fam[1])]
        try:
            res = tune_scan(sc, arg if r.random() < 0.7 or len(fam[0]) != len(fam[1]) else np.vstack(arg), [g / 64 for g in f], **kw)
            st["ret"] = q(res[1], 64)
            st["mt"] = [q(x) for x in res[2]]
            st["tr"] = [[q(y, P) for y in x] for x in res[3]]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["fac"] = fac()
        st.update(self.same())
        self.steps.append(st)


class Rf(Base):
    def run(self):
        r = self.r
        phase = r.random() < 0.5
        f0 = 2 * 299792458.0
        els, ncav = [], r.randint(1, 3)
        for _ in range(ncav):
            els.append(at.RFCavity("RF", 0.0, 0.0, f0, 1, 1e9))
        nb = r.randint(1, 4)
        els.append(at.Drift("D", 0.5))
        for _ in range(nb):
            els += [at.Monitor("BPM"), at.Drift("D", 2.0 ** -8)]
        els.append(at.Drift("D", 0.5 - nb * 2.0 ** -8))
        els.append(at.Aperture("AP", [-WALL, WALL, -WALL, WALL]))
        if r.random() < 0.5:
            els.insert(ncav, corrector())
        lat = at.Lattice(els, energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(lat)
        ords = lambda n: [k for k, e in enumerate(lat) if e.FamName == n]
        bpms, cavs = ords("BPM"), ords("RF")
        sc.register_bpms(np.array(bpms))
        sc.register_cavities(np.array(cavs))
        par = "TimeLag" if phase else "Frequency"
        # cavities start at different values
        for c in cavs[1:]:
            if r.random() < 0.4:
                sc.set_cavity_setpoints(np.array([c]), r.choice([2 * f0, f0 / 2, f0 + 1024.0]), "Frequency", "abs")
            if r.random() < 0.4:
                sc.RING[c].FrequencyOffset, sc.RING[c].TimeLagOffset = 512.0, 0.25
                sc.update_cavities(np.array([c]))
        for c in cavs:
            if r.random() < 0.6:
                sc.set_cavity_setpoints(np.array([c]), r.choice([0.125, -0.0625, 1.0]), "TimeLag", "abs")
        use = sorted(r.sample(cavs, r.randint(1, ncav)))
        if phase and ncav > 1 and r.random() < 0.6:     # a main cavity of another frequency, the requested ones at f0
            use = sorted(r.sample(cavs[1:], r.randint(1, ncav - 1)))
            sc.set_cavity_setpoints(np.array(cavs[:1]), r.choice([2 * f0, f0 / 2]), "Frequency", "abs")
            sc.set_cavity_setpoints(np.array(use[:1]), f0, "Frequency", "abs")
        lam = 299792458.0 / sc.RING[use[0]].FrequencySetPoint
        if not phase:
            lam = 0.5
        elif abs(lam * 2 ** 20 - round(lam * 2 ** 20)) > 1e-6:
            sc.set_cavity_setpoints(np.array(use[:1]), f0, "Frequency", "abs")
            lam = 0.5
        T, S, n = r.randint(3, 6), r.choice([1, 1, 2]), r.choice([6, 7, 9, 15, 15])
        sc.INJ.nTurns, sc.INJ.nShots, sc.INJ.nParticles, sc.INJ.trackMode = T, S, 1, "TBT"
        sc.INJ.beamLostAt = 1.0
        U = 2 ** 20 if phase else 64
        frange = r.choice([(-1e3, 1e3), (-1e3, 1e3), (-512.0, 2048.0), (-4096.0, 1024.0), (64.0, 1024.0)])
        lo, hi = (-lam / 2, lam / 2) if phase else frange
        kind = r.choice(["clear"] * 4 + ["vague", "lossy", "lossy", "few", "bad", "bad"] + ["nozero"] * phase)
        bad = ""
        start = {c: (getattr(sc.RING[c], par), getattr(sc.RING[c], par + "SetPoint")) for c in cavs}
        amp = r.choice([1, 2, 4]) * 2.0 ** -15
        usebpm = sorted(r.sample(bpms, r.randint(1, nb)))
        if kind == "vague":
            if len(bpms) < 2:
                return
            usebpm = bpms
            amp *= 2.0 ** -16
            for j, b in enumerate(bpms):
                sc.RING[b].Offset[0] = (-1) ** j * 1e-3
        sgn = r.choice([1, -1])
        if phase:
            t0 = r.choice([k for k in range(-16, 16)]) / 32 * lam
            c = {"nozero": r.choice([2.0, -2.0, 1.5])}.get(kind, r.choice([0.5, -0.5]))
            root = t0 - np.arcsin(c) / (2 * np.pi) * lam if abs(c) < 1 else 0.0
            fun = lambda v: amp * (np.sin(2 * np.pi * (v - t0) / lam) + c)
        else:
            t0 = r.choice([64, -64, 256, 768, -1536, 96, 0, 2048]) * 1.0
            root = t0
            slope = sgn * amp / 1024
            fun = lambda v: slope * (v - t0)

        lossy = {}
        if kind == "lossy":
            share = r.choice([0.2, 0.5, 0.8])
            lossy = {k: r.randint(0, T) for k in range(n) if r.random() < share}
        if kind == "few":
            keep = r.sample(range(n), 5 if phase else r.choice([2, 2, 3]))
            lossy = {k: r.randint(0, 2) for k in range(n) if k not in keep}
        turns = [T] * n

        for k, m in lossy.items():
            turns[k] = m

        def val():
            return [getattr(sc.RING[c], par) - start[c][0] for c in use] + [getattr(sc.RING[c], par + "SetPoint") - start[c][1] for c in use]

        def mask(k, d):
            if k in use:
                d.pop(par), d.pop(par + "SetPoint")
            return d
        self.count = 0

        def post(Z):
            k = min(self.count // S, n - 1)
            self.count += 1
            out = np.zeros((6, 1))
            v = val()
            out[1] = fun(v[0])
            m = turns[k]
            if m < T:       # lost in turn m + 1, ahead of the BPMs or, at most, behind some
                if m == 0:
                    out[2] = 2 * WALL
                    out[2] = 1.5
                else:
                    out[3] = WALL / (m - 0.5)
            self.steps.append(dict(op="rinj", v=q(v, U), turns=m, **self.same()))
            return out
        self.mask = mask
        kw = {}
        if kind == "bad":
            bad = r.choice(["turns", "turns", "mode", "steps", "cavity", "off", "PORB"])
            if bad == "turns":
                sc.INJ.nTurns = 2
            elif bad == "mode":
                sc.INJ.trackMode = "ORB"
                sc.INJ.nTurns = 3
            elif bad == "PORB":
                sc.INJ.trackMode = "PORB"
            elif bad == "steps":
                kw["n_steps"] = r.choice([5, 3])
            elif bad == "off":
                off = r.choice(use)
                sc.RING[off].PassMethod = "IdentityPass"
        if bad != "steps" and (n != 15 or r.random() < 0.5):
            kw["n_steps"] = n
        elif bad != "steps":
            n = 15
        if not phase and (frange != (-1e3, 1e3) or r.random() < 0.5):
            kw["f_range"] = frange
        ca = np.array(use + ([bpms[0]] if bad == "cavity" else []))
        if bad == "cavity" and r.random() < 0.5:
            ca = ca[::-1]
        if bad == "cavity" or use != cavs or r.random() < 0.5:
            kw["cav_ords"] = ca
        if usebpm != bpms or r.random() < 0.5:
            kw["bpm_ords"] = np.array(usebpm)
        sc.INJ.postFun = post
        self.o0 = self.digest()
        self.steps.append(dict(op="rstart", lo=int(round(lo * U)), hi=int(round(hi * U)), n=n, S=S, kind=kind, bad=bad, root=int(round(root * U)), mod=int(round(lam * U)) if phase else 0,
                               tol=int(lam * U / 2000) if phase else 4, min=6 if phase else 3))
        st = dict(op="rend", exc="")
        try:
            (rf.correct_rf_phase if phase else rf.correct_rf_frequency)(sc, **kw)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
            import traceback
            st["tb"] = traceback.format_exc()[-300:]
        st["v"] = q(val(), U)
        st.update(self.same())
        self.steps.append(st)


class Static(Base):
    """the distance of the injected from the closed orbit in the longitudinal plane"""
    def run(self):
        import model_driver
        r = self.r
        rec = model_driver.Rec(r.randrange(10 ** 6), "orb")
        rec.orbit()
        sc, cavs = rec.sc, rec.cav
        self.sc, self.mask = sc, lambda k, d: d
        lam0 = 299792458.0 / sc.RING[cavs[0]].Frequency
        for _ in range(4):
            sc.set_cavity_setpoints(np.array(cavs), r.choice([0, 1, -3, 5]) / 16 * lam0, "TimeLag", "abs")
            sc.INJ.Z0[5] = r.randint(-24, 24) / 16 * lam0 + r.choice([0, 0.01])
            sc.INJ.Z0[4] = r.choice([0, 1, -3, 8]) * 2.0 ** -12
            orbit = at.find_orbit6(at.Lattice([e.deepcopy() for e in sc.RING], energy=1e9, periodicity=1))[0]
            if np.any(np.isnan(orbit)):
                continue
            use = np.array(r.choice([cavs, cavs[:1], cavs[1:], cavs[::-1]]))
            lam = 299792458.0 / sc.RING[use[0]].Frequency
            st = dict(op="static", exc="", z=q(orbit[5] - sc.INJ.Z0[5], 2 ** 12)[0], lam=q(lam, 2 ** 12)[0], e=q(sc.INJ.Z0[4] - orbit[4], 2 ** 26)[0], ret=[])
            self.o0 = self.digest()
            try:
                a, b = rf.phase_and_energy_error(sc, use)
                st["ret"] = [q(a, 16)[0], q(b, 2 ** 26)[0]]
            except Exception as ex:  # noqa
                st["exc"] = type(ex).__name__
            st.update(self.same())
            self.steps.append(st)


KINDS = dict(tune=Tune, rf=Rf, static=Static)


def one(job):
    seed, kind = job
    rec = KINDS[kind](seed)
    rec.run()
    return dict(kind=kind, steps=rec.steps)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--kinds", default="tune")
    a = ap.parse_args()
    kinds = a.kinds.split(",")
    jobs = [(a.seed * 7919 + k, kinds[k % len(kinds)]) for k in range(a.n)]
    with ProcessPoolExecutor(8) as pool:
        res = list(pool.map(one, jobs, chunksize=1))
    json.dump(dict(traces=[x for x in res if x["steps"]]), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
