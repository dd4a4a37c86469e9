"""Injects, reads BPMs, counts turns on toy rings with losses (for spec/BeamTrace.tla)."""
import argparse
import json
import os
import random
import sys
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

from pySC.core.beam import all_elements_reading, beam_transmission, bpm_reading, generate_bunches  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
import warnings  # noqa: E402
warnings.filterwarnings("ignore")
U, UZ = 2 ** 20, 2 ** 26
NAN, BAD = 1777777777, 1666666666
G = 2 ** -14
ROLLS = [dict(c=1, s=0, den=1), dict(c=1, s=0, den=1), dict(c=0, s=1, den=1), dict(c=-1, s=0, den=1), dict(c=3, s=4, den=5), dict(c=4, s=-3, den=5), dict(c=12, s=5, den=13)]


def q(v, u=U):
    return [NAN if np.isnan(x) else BAD if abs(x * u) > 9e8 else int(round(float(x) * u)) for x in np.ravel(v)]


class Rec:
    def __init__(self, seed, kind):
        r = self.r = random.Random(seed)
        np.random.seed(seed % 2 ** 32)
        self.seed, self.kind, self.steps = seed, kind, []
        dict(orb=self.orbit_ring, noise=self.noise_ring).get(kind, self.toy_ring)()
        n = len(self.lat)
        self.sc = SimulatedCommissioning(self.lat)
        bpms = [k for k, e in enumerate(self.lat) if isinstance(e, at.Monitor)]
        if r.random() < 0.3:
            bpms = sorted(r.sample(bpms, max(1, len(bpms) - 1)))
        self.sc.register_bpms(np.array(bpms))
        self.sc.register_magnets(np.array([k for k in range(n) if hasattr(self.lat[k], "PolynomB")]))
        self.bpms = bpms
        self.e = {b: dict(c=1, s=0, den=1, off=[0, 0], cal=[0, 0]) for b in bpms}
        self.noise, self.noiseco, self.su = {b: [0, 0] for b in bpms}, {b: [0, 0] for b in bpms}, {b: 0 for b in bpms}
        self.queue, self.ins, self.outs = [], [], []
        self.sc.INJ.postFun = self.post

    # ------------------------------------------------------------------ rings
    def toy_ring(self):
        r = self.r
        els, desc = [], []
        none = dict(L=0, k=[0, 0], g=[0, 0], ap=[])
        ap = lambda: [r.choice([-1, -2, -3]) * 64 * 64 - 32 * 64 - 777, r.choice([1, 2, 3]) * 64 * 64 + 32 * 64 + 777,
                      r.choice([-1, -2, -3]) * 64 * 64 - 32 * 64 - 777, r.choice([1, 2, 3]) * 64 * 64 + 32 * 64 + 777]
        for _ in range(r.randint(6, 10)):
            c = r.random()
            if c < 0.35:
                L = r.choice([4, 8, 8, 16])
                el, d = at.Drift("D", L / 8), dict(none, ty="drift", L=L)
                if r.random() < 0.3:
                    d["ap"] = ap()
                    el.RApertures = np.array(d["ap"]) / U
            elif c < 0.55:
                k, g = [r.choice([0, 1, -1, 3]) * 256 for _ in range(2)], [r.choice([0, 16, -16, 32]), r.choice([0, 0, 16])]
                el = at.ThinMultipole("T", [k[1] / U, g[1] / 64], [k[0] / U, g[0] / 64])
                d = dict(none, ty="thin", k=k, g=g)
            elif c < 0.75 :
                a = ap()
                el, d = at.Aperture("A", np.array(a) / U), dict(none, ty="ap", ap=a)
            else:
                el, d = at.Monitor("BPM"), dict(none, ty="mark")
            els.append(el)
            desc.append(d)
        k = r.randint(0, len(els))
        els[k:k] = [at.Monitor("BPM"), at.Drift("D", 1.0), at.Monitor("BPM")]
        desc[k:k] = [dict(none, ty="mark"), dict(none, ty="drift", L=8), dict(none, ty="mark")]
        self.lat, self.desc = at.Lattice(els, energy=1e9, periodicity=1), desc

    def noise_ring(self):
        none = dict(L=0, k=[0, 0], g=[0, 0], ap=[])
        a = [-2 ** 15, 2 ** 15, -2 ** 15, 2 ** 15]
        els = [at.Drift("D", 1.0), at.Aperture("A", np.array(a) / U), at.Monitor("BPM"), at.Drift("D", 1.0), at.Monitor("BPM"), at.Monitor("BPM")]
        self.desc = [dict(none, ty="drift", L=8), dict(none, ty="ap", ap=a), dict(none, ty="mark"), dict(none, ty="drift", L=8), dict(none, ty="mark"), dict(none, ty="mark")]
        self.lat = at.Lattice(els, energy=1e9, periodicity=1)

    def orbit_ring(self):
        r = self.r
        els = [at.RFCavity("RF", 0.0, 1e5, 0.0, 1, 1e9)]
        for k in range(6):
            els += [at.Quadrupole("QF", 0.25, 1.2), at.Drift("D", 0.5), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5)]
            if r.random() < 0.8:
                els += [at.Monitor("BPM")]
            els += [at.Quadrupole("QD", 0.25, -1.0), at.ThinMultipole("T", [0.0, 0.0], [0.0, 0.0]), at.Drift("D", 0.5), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5)]
        els += [at.Monitor("BPM")]
        self.lat = at.Lattice(els, energy=1e9, periodicity=1)
        self.lat[0].Frequency = 299792458.0 / sum(e.Length for e in els) * 4
        self.lat[0].HarmNumber = 4
        for e in self.lat:
            if e.FamName == "T":
                e.PolynomB = np.array([r.choice([0, 1, -1, 2]) * 1e-4, 0.0])
                e.PolynomA = np.array([r.choice([0, 1, -1, 2]) * 1e-4, 0.0])
        self.lat.enable_6d()
        self.desc = []

    # ------------------------------------------------------------------ injection
    def particles(self, n):
        r = self.r
        if r.random() < 0.2:
            p = [r.randint(-64, 64) * 2, r.randint(-64, 64) * 2, r.randint(-64, 64) * 2, r.randint(-64, 64) * 2]
            return [p] * n
        return [[r.randint(-96, 96) * 2, r.randint(-64, 64) * 2, r.randint(-96, 96) * 2, r.randint(-64, 64) * 2] for _ in range(n)]

    def post(self, Z):
        self.ins.append(np.array(Z))
        n = np.shape(Z)[1]
        if self.queue is None:
            out = Z + 0.25
        else:
            p = self.queue.pop(0) if self.queue else self.particles(n)
            out = np.zeros((6, n))
            for j in range(n):
                out[:4, j] = np.array(p[j % len(p)]) * G
        self.outs.append(np.array(out))
        return out

    # ------------------------------------------------------------------ steps
    def set_errors(self, noisy, sums):
        r, sc = self.r, self.sc
        for b in self.bpms:
            rl = r.choice(ROLLS)
            ang = np.arctan2(rl["s"], rl["c"])
            part = r.choice([0.0, 0.0, 0.125, 1.0, -2.0])
            sc.RING[b].Roll, sc.RING[b].SupportRoll = ang - part, part
            off = [r.choice([0, 1, -3, 8]) * 64 * 16 for _ in range(2)]
            sup = [r.choice([0, 2, -5]) * 64 * 16 for _ in range(2)]
            sc.RING[b].Offset, sc.RING[b].SupportOffset = np.array(off) / U, np.array(sup) / U
            cal = [r.choice([0, 4, -8, 16]) for _ in range(2)]
            sc.RING[b].CalError = np.array(cal) / 64
            self.e[b] = dict(c=rl["c"], s=rl["s"], den=rl["den"], off=[off[0] + sup[0], off[1] + sup[1]], cal=cal)
            n = lambda: r.choice([0, 256, 1024]) if noisy else 0
            self.noise[b], self.noiseco[b] = [n(), n()], [n(), n()]
            sc.RING[b].Noise, sc.RING[b].NoiseCO = np.array(self.noise[b]) / U, np.array(self.noiseco[b]) / U
            self.su[b] = r.choice([0, 4, 8]) if sums else 0
            sc.RING[b].SumError = self.su[b] / 128

    def read(self):
        r, sc = self.r, self.sc
        half = self.kind == "noise"
        inj = sc.INJ
        orb = self.kind == "orb"
        inj.trackMode = "ORB" if orb else r.choice(["TBT", "TBT", "PORB"])
        if not orb:
            inj.nTurns, inj.nParticles = r.choice([1, 2, 3]), r.choice([1, 2, 4, 8])
        inj.nShots = r.choice([1, 1, 2, 3])
        lost = r.choice([16, 16, 12, 8, 8, 4, 2, 14])
        inj.beamLostAt = lost / 16
        noisy, sums = r.random() < 0.4, r.random() < 0.15
        if half:        # one bunch, one turn, half of it lost: noise only
            inj.trackMode, inj.nTurns, inj.nParticles, inj.nShots, lost, noisy, sums = "TBT", 1, 4, 1, 16, True, False
            inj.beamLostAt = 1.0
        self.set_errors(noisy, sums)
        req = None
        use = list(self.bpms)
        if r.random() < 0.5 and not half:
            use = r.sample(self.bpms, r.randint(1, len(self.bpms)))
            other = [k for k in range(len(self.lat)) if k not in self.bpms]
            req = use + (r.sample(other, min(2, len(other))) if r.random() < 0.3 else [])
            r.shuffle(req)
            req = np.array(req) if r.random() < 0.7 else req
        use = sorted(use)
        shots = [self.particles(inj.nParticles) for _ in range(inj.nShots)]
        if half:
            shots = [[[32, 4, 16, -8], [1500, 0, 0, 0], [32, 4, 16, -8], [-1500, 0, 0, 0]]]
        self.queue, self.ins, self.outs = [list(s) for s in shots], [], []
        errors = r.random() < 0.3 and not sums
        co = self.noiseco if orb else self.noise
        st = dict(op="read", exc="", mode=inj.trackMode, T=inj.nTurns, P=inj.nParticles, S=inj.nShots, lost=lost, x=[], y=[], sx=[], sy=[], err=[], noisy=noisy, half=half,
                  bpm=[dict(ord=b + 1, e=self.e[b], noise2=[2 * v for v in co[b]], su=self.su[b]) for b in use],
                  z=[[[int(c * 64) for c in p] for p in s] for s in shots], orb=[], calls=0, req=[] if req is None else [int(x) for x in req])
        if orb:
            o = at.find_orbit6(self.sc.RING.deepcopy(), refpts=np.array(use))[1]
            if not np.all(np.isfinite(o)):
                return
            st["orb"] = [q(v) for v in o[:, [0, 2]]]
        try:
            a = (sc,) if req is None else (sc, req)
            if errors:
                res = bpm_reading(*a, calculate_errors=True)
            else:
                res = bpm_reading(*a) if r.random() < 0.5 else bpm_reading(sc, bpm_ords=req)
            st["x"], st["y"] = q(res[0][0]), q(res[0][1])
            st["sx"], st["sy"] = q(res[1][0]), q(res[1][1])
            if len(res) > 2:
                st["err"] = [q(res[2][0]), q(res[2][1])]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["calls"] = len(self.ins)
        self.steps.append(st)

    def indep(self):
        """the same straight beam seen twice: every reading has its own noise (in 1e-8 of the noise level)"""
        r, sc, inj = self.r, self.sc, self.sc.INJ
        inj.trackMode, inj.nTurns, inj.nParticles, inj.nShots, inj.beamLostAt = "TBT", r.choice([1, 2, 3]), r.choice([1, 2]), r.choice([1, 1, 2]), 1.0
        x, y = [r.choice([0, 8, -24]) for _ in range(2)]
        lev = {b: [r.choice([256, 1024, 4096]) / U for _ in range(2)] for b in self.bpms}
        for b in self.bpms:
            e = sc.RING[b]
            e.Roll = e.SupportRoll = e.SumError = 0.0
            e.Offset, e.SupportOffset, e.CalError, e.Noise, e.NoiseCO = np.zeros(2), np.zeros(2), np.zeros(2), np.array(lev[b]), np.zeros(2)
        use = self.bpms if r.random() < 0.5 else sorted(r.sample(self.bpms, r.randint(1, len(self.bpms))))
        st = dict(op="indep", exc="", u=[], err=[])
        try:
            for _ in range(2):
                self.queue = [[[x, 0, y, 0]]] * inj.nShots
                res = bpm_reading(sc, np.array(use), calculate_errors=True)
                for d in (0, 1):
                    for c, v in enumerate(res[0][d]):
                        st["u"].append(int(round((v - (x, y)[d] * G) / lev[use[c % len(use)]][d] * 1e8)) if np.isfinite(v) and abs(v) < 0.05 else 0)
                    if inj.nShots > 1:
                        st["err"] += [int(round(v / lev[use[c % len(use)]][d] * 1e8)) if np.isfinite(v) and v < 0.05 else 0 for c, v in enumerate(res[2][d])]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        self.steps.append(st)

    def bad(self):
        other = [k for k in range(len(self.lat)) if k not in self.bpms]
        st = dict(op="bad", exc="")
        try:
            bpm_reading(self.sc, np.array(self.r.sample(other, 1)))
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        self.steps.append(st)

    def allel(self):
        r, inj = self.r, self.sc.INJ
        inj.trackMode = "TBT"
        inj.nTurns, inj.nParticles, inj.nShots = r.choice([1, 2]), r.choice([1, 2, 3]), r.choice([1, 2])
        inj.beamLostAt = 1.0
        self.set_errors(False, False)
        shots = [self.particles(inj.nParticles) for _ in range(inj.nShots)]
        self.queue = [list(s) for s in shots]
        st = dict(op="allel", exc="", T=inj.nTurns, P=inj.nParticles, S=inj.nShots, z=[[[int(c * 64) for c in p] for p in s] for s in shots], pos=[], lost=16,
                  bpm=[dict(ord=b + 1, e=self.e[b]) for b in self.bpms], x=[], y=[])
        try:
            o, p = all_elements_reading(self.sc)
            st["x"], st["y"] = q(o[0]), q(o[1])
            st["pos"] = [[[[q(p[:, j, k, t, s]) for j in range(p.shape[1])] for k in range(p.shape[2])] for t in range(p.shape[3])] for s in range(p.shape[4])]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        self.steps.append(st)

    def trans(self):
        r, inj = self.r, self.sc.INJ
        inj.trackMode = r.choice(["TBT", "PORB"])
        inj.nTurns, inj.nParticles, inj.nShots = r.choice([1, 2, 3]), r.choice([1, 2, 4, 8]), r.choice([1, 2])
        lost = r.choice([16, 12, 8, 8, 4, 2, 14])
        inj.beamLostAt = lost / 16
        kw = {}
        if r.random() < 0.5:
            kw["nTurns"] = r.choice([1, 2, 4])
        if r.random() < 0.5:
            kw["nParticles"] = r.choice([1, 2, 4, 8])
        T, P = kw.get("nTurns", inj.nTurns), kw.get("nParticles", inj.nParticles)
        z = self.particles(P)
        self.queue, self.ins = [list(z)], []
        st = dict(op="trans", exc="", T=T, P=P, lost=lost, z=[[[int(c * 64) for c in p] for p in z]], turns=-1, frac=[], calls=0)
        try:
            m, f = beam_transmission(self.sc, **kw)
            st["turns"], st["frac"] = int(m), q(f)
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["calls"] = len(self.ins)
        self.steps.append(st)

    def gen(self):
        r, inj = self.r, self.sc.INJ
        z0 = [r.choice([0, 1, -3, 7]) / 128 for _ in range(6)]
        what = r.choice(["jit", "jit", "size", "size", "both", "none"])
        jit = [r.choice([0, 1, 2]) / 1024 for _ in range(6)] if what in ("jit", "both") else [0.0] * 6
        ax, M = [], np.zeros((6, 6))
        for p in range(3):
            rl = r.choice([dict(c=1, s=0, den=1), dict(c=3, s=4, den=5), dict(c=4, s=-3, den=5)])
            s1, s2 = ([r.choice([0, 1, 4]) / 2048, r.choice([0, 1, 4]) / 2048] if what in ("size", "both") else [0.0, 0.0])
            if p == 2:
                rl = dict(c=1, s=0, den=1)
            if s1 == s2:
                rl = dict(c=1, s=0, den=1)
            c, s = rl["c"] / rl["den"], rl["s"] / rl["den"]
            R = np.array([[c, -s], [s, c]])
            M[2 * p:2 * p + 2, 2 * p:2 * p + 2] = R @ np.diag([s1 ** 2, s2 ** 2]) @ R.T
            # eigenvalues of a singular matrix may come out as tiny negative numbers: keep both axes above zero then
            if rl["s"] and min(s1, s2) == 0:
                s1, s2 = max(s1, 1 / 4096), max(s2, 1 / 4096)
                M[2 * p:2 * p + 2, 2 * p:2 * p + 2] = R @ np.diag([s1 ** 2, s2 ** 2]) @ R.T
            ax.append(dict(rl, s1=int(s1 * UZ), s2=int(s2 * UZ)))
        inj.Z0, inj.randomInjectionZ, inj.beamSize = np.array(z0), np.array(jit), M
        inj.trackMode = "TBT"
        inj.nParticles = r.choice([1, 2, 5, 8])
        kw = {"nParticles": r.choice([1, 3, 6])} if r.random() < 0.4 else {}
        P = kw.get("nParticles", inj.nParticles)
        self.queue, self.ins, self.outs = None, [], []
        st = dict(op="gen", exc="", P=P, z0=q(z0, UZ), jit2=[int(2 * v * UZ) for v in jit], ax=ax, ndist=0, calls=0, same=False, **{"in": []})
        try:
            Z = generate_bunches(self.sc, **kw)
            st["in"] = [q(self.ins[0][:, j], UZ) for j in range(self.ins[0].shape[1])]
            st["ndist"] = len({self.ins[0][:, j].tobytes() for j in range(self.ins[0].shape[1])})
            st["same"] = bool(np.array_equal(Z, self.outs[0]))
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["calls"] = len(self.ins)
        self.queue = []
        self.steps.append(st)

    def mode(self):
        inj = self.sc.INJ
        g = lambda: dict(mode=inj.trackMode, T=int(inj.nTurns), P=int(inj.nParticles), S=int(inj.nShots), lost=int(inj.beamLostAt * 16))
        inj.nTurns, inj.nParticles = self.r.choice([1, 2, 5]), self.r.choice([1, 3])
        st = dict(op="mode", exc="", want=self.r.choice(["TBT", "PORB", "ORB", "ORB", "orb", "XYZ"]), before=g())
        try:
            inj.trackMode = st["want"]
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
        st["after"] = g()
        self.steps.append(st)


def one(job):
    seed, kind, n = job
    rec = Rec(seed, kind)
    for _ in range(n):
        c = rec.r.random()
        if kind == "gen":
            rec.gen() if c < 0.85 else rec.mode()
        elif kind == "noise" and c < 0.25:
            rec.indep()
        elif kind in ("orb", "noise"):
            rec.read()
        else:
            rec.read() if c < 0.62 else rec.trans() if c < 0.85 else rec.allel() if c < 0.92 else rec.mode() if c < 0.97 else rec.bad()
    return dict(seed=seed, kind=kind, ring=rec.desc, steps=rec.steps)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--kinds", default="toy")
    a = ap.parse_args()
    kinds = a.kinds.split(",")
    jobs = []
    for k in range(a.n):
        kind = kinds[k % len(kinds)]
        jobs.append((a.seed * 7919 + k, kind, dict(toy=12, orb=4, gen=100, noise=36)[kind]))
    with ProcessPoolExecutor(8) as pool:
        res = list(pool.map(one, jobs, chunksize=1))
    json.dump(dict(traces=res), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
