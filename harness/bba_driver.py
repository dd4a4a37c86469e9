"""Runs beam-based alignment on toy lines of drifts and thin magnets (for spec/BbaTrace.tla)."""
import argparse
import json
import os
import random
import sys
import warnings
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

from project import Near, canon, state  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402
from pySC.correction import bba  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
NAN, BAD = 1777777777, 1666666666
U = 2.0 ** -20      # positions
UF = 2.0 ** -24     # results
US = 2.0 ** -20     # strengths


def q(v, u):
    return [NAN if np.isnan(x) else BAD if abs(x / u) > 9e8 else int(round(float(x) / u)) for x in np.ravel(v)]


def qr(v):      # results and errors: beyond 10^6 counts as 10^6
    return [NAN if np.isnan(x) else int(round(min(max(float(x) / UF, -10 ** 6), 10 ** 6))) for x in np.ravel(v)]


def mag(kind, nom):
    m = at.ThinMultipole("M", np.zeros(3), np.zeros(3))
    m.Length = 0.0
    if kind == "quad":
        m.PolynomB[1] = nom
    elif kind == "skew":
        m.PolynomA[1] = nom
    else:
        m.PolynomB[2] = nom
    m.MaxOrder = 2
    return m


class Base:
    def __init__(self, seed):
        self.r = random.Random(seed)
        np.random.seed(seed % 2 ** 32)
        self.steps = []

    def digest(self):
        sc, out = self.sc, {}
        parts = []
        for k, el in enumerate(sc.RING):
            d = state(el)
            parts.append(type(el).__name__ + canon(self.mask(k, d)))
        out["ring"] = Near("|".join(parts))
        out["inj"] = Near({a: v for a, v in vars(sc.INJ).items() if a not in ("postFun", "Z0", "nTurns")})
        out["ideal"] = Near("".join(canon(state(el)) for el in sc.IDEALRING))
        out["ORD"], out["SIG"] = Near(dict(sc.ORD)), Near(dict(sc.SIG))
        return out

    def same(self):
        o = self.digest()
        bad = [k for k in o if o[k] != self.o0[k]]
        return dict(oth=not bad, what=",".join(bad))

    def offsets(self, bpms):
        return [q(self.sc.RING[b].Offset, UF) for b in bpms]


class Tbt(Base):
    def run(self):
        r = self.r
        N = r.choice([1, 2, 3, 3, 4, 5])
        kind = r.choice(["quad", "quad", "skew", "sext"])
        method = r.choice(["abs", "add", "rel"])
        els, spos, s = [], [], 0

        def put(el):
            els.append(el)
            spos.append(s)

        def drift(n):
            nonlocal s
            put(at.Drift("D", n / 8))
            s += n
        loss = r.choice(["no", "no", "no", "start", "dark"])
        if loss != "no":
            put(at.Aperture("AP", [-1e-9, 1e-9, -1e-9, 1e-9] if loss == "dark" else [-2.0 ** -11, 2.0 ** -11, -2.0 ** -11, 2.0 ** -11]))
        up = []
        if r.random() < 0.4:    # a hardly visible phase quadrupole ahead of everything: larger or smaller excursions
            put(at.Quadrupole("QP", 0.125, r.choice([1, -1]) * 2.0 ** -20))
            s += 1
        nom = r.choice([0.125, -0.25, 0.0625]) if method == "rel" else r.choice([0.0, 2.0 ** -10])
        big = 32 if kind == "sext" else 1
        for k in range(N):
            drift(r.randint(1, 8))
            up.append(r.random() < 0.6)
            pair = [at.Monitor("BPM"), mag(kind, nom * big)]
            for j, e in enumerate(pair if up[-1] else pair[::-1]):
                if j:
                    drift(r.choice([0, 1, 2, 4]))
                put(e)
        drift(r.randint(1, 4))
        nq = r.choice([0, 0, 1, 2])
        for k in range(nq):
            put(at.Quadrupole("QP", 0.125, r.choice([0.25, -0.25])))
            s += 1
        if r.random() < 0.4:
            c = at.Corrector("C", 0.0, [0.0, 0.0])
            c.PolynomA, c.PolynomB, c.MaxOrder = np.zeros(2), np.zeros(2), 1
            put(c)
        drift(2)
        lat = at.Lattice(els, energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(lat)
        ords = lambda n: [k for k, e in enumerate(lat) if e.FamName == n]
        B, M, Q, C = ords("BPM"), ords("M"), ords("QP"), ords("C")
        sc.register_bpms(np.array(B))
        sc.register_magnets(np.array(M), MagnetOffset=np.zeros(3))
        if Q:
            sc.register_magnets(np.array(Q))
            for k in Q:
                sc.set_magnet_setpoints(k, r.choice([0.875, 1.0, 1.25]), False, 1, "rel")
        if C:
            sc.register_magnets(np.array(C), HCM=np.ones(1), VCM=np.ones(1))
            sc.set_cm_setpoints(C[0], r.choice([0, 3, -2]) * 2.0 ** -26, False, "abs")
        skew, order = kind == "skew", 2 if kind == "sext" else 1
        for m in M:         # a hardly visible initial strength, not the nominal one
            sc.set_magnet_setpoints(m, r.choice([0, 1, -2, 3]) * US, skew, order, "abs")
        for e in M:
            sc.RING[e].MagnetOffset = np.array([r.randint(-600, 600) * U, r.randint(-600, 600) * U, 0])
            if r.random() < 0.5:
                sc.RING[e].SupportOffset = np.array([r.randint(-300, 300) * U, r.randint(-300, 300) * U, 0])
            if r.random() < 0.3:
                if skew:
                    sc.RING[e].CalErrorA = np.array([0, 0.0625, 0])
                else:
                    sc.RING[e].CalErrorB = np.array([0, 0.0625, -0.125])
        sc.update_magnets()
        for e in M:
            for name, sg in (("T1", -1), ("T2", 1)):
                t = np.zeros(6)
                t[[0, 2]] = sg * (sc.RING[e].MagnetOffset + sc.RING[e].SupportOffset)[:2]
                setattr(sc.RING[e], name, t)
        for b in B:
            sc.RING[b].Offset = np.array([r.randint(-900, 900), r.randint(-900, 900)]) * U
            if r.random() < 0.5:
                sc.RING[b].SupportOffset = np.array([r.randint(-300, 300) * U, r.randint(-300, 300) * U])
        z = [r.randint(-300, 300), 8 * r.randint(-8, 8), r.randint(-300, 300), 8 * r.randint(-8, 8)]
        if loss == "start":
            z = [x // 4 for x in z[:1]] + [8 * (z[1] // 16)] + [z[2] // 4] + [8 * (z[3] // 16)]
        sc.INJ.Z0 = np.array([x * U for x in z] + [0, 0])
        sc.INJ.nParticles, sc.INJ.nShots, sc.INJ.nTurns, sc.INJ.trackMode = 1, r.choice([1, 1, 2]), 2, "TBT"
        planes = 1 if kind == "sext" or r.random() < 0.3 else 2
        pick = sorted(r.sample(range(N), r.randint(1, N)))
        if r.random() < 0.3:
            r.shuffle(pick)
        bo = np.tile(np.array(B)[pick], (planes, 1))
        mo = np.tile(np.array(M)[pick], (planes, 1))
        if planes == 2 and r.random() < 0.4:        # other BPMs in the other plane
            p2 = r.sample(range(N), len(pick))
            bo[1], mo[1] = np.array(B)[p2], np.array(M)[p2]
        a = [r.choice([1, 2, 3]), r.choice([0, 1, 2])]
        if r.random() < 0.3:
            a[0] *= -1
        if any(abs(8 * a[0] + spos[k] * a[1]) < 6 for k in B + M):
            a[0] = abs(a[0])
        st = {"abs": [-0.125, 0.125], "add": [-0.125, 0.125], "rel": [-0.5, 0.5]}[method]
        if kind != "sext":
            st = r.choice([st, st, [st[0], 0.0, st[1]], [st[0] / 2, st[1]], [st[1], st[0]]])
        st = np.array(st) * (big if method != "rel" else 1)
        kw = dict(setpoint_method=method, magnet_order=order, fit_order=2 if kind == "sext" else 1, magnet_strengths=st,
                  max_injection_pos_angle=np.array([a[0] * 2.0 ** -12, a[1] * 2.0 ** -12]))
        if skew:
            kw["skewness"] = True
        if Q:
            kw["q_ord_phase"], kw["q_ord_setpoints"] = np.array(Q), np.array(r.choice([[1.0], [1.0, 0.75], [0.5, 1.0, 1.5]]))
        if r.random() < 0.4:
            kw["n_steps"] = r.choice([4, 5, 8])
        if (kind == "skew" or nom == 0) and r.random() < 0.3:
            kw["dipole_compensation"] = False
        bad = ""
        if r.random() < 0.2:
            bad = r.choice(["mode", "turns", "turns", "shape", "fit", "PORB"])
            if bad == "mode":
                sc.INJ.trackMode = "ORB"
                sc.INJ.nTurns = 2
            elif bad == "PORB":
                sc.INJ.trackMode = "PORB"
                sc.INJ.nTurns = 2
            elif bad == "turns":
                sc.INJ.nTurns = r.choice([1, 3])
            elif bad == "shape":
                mo = np.vstack((mo, mo)) if r.random() < 0.5 else np.hstack((mo, mo[:, :1]))
            else:
                kw["fit_order"] = 3
        par = "SetPointA" if skew else "SetPointB"

        def mask(k, d):
            if k in M:
                for x in ("SetPointB", "PolynomB") if not skew else ("SetPointA", "PolynomA"):
                    v = np.array(d[x])
                    v[order] = 0
                    d[x] = v
                d.pop("MaxOrder", None)
            elif k in Q:
                for x in ("SetPointB", "PolynomB"):
                    v = np.array(d[x])
                    v[1] = 0
                    d[x] = v
                d.pop("MaxOrder", None)
            elif k in B:
                d.pop("Offset")
            return d

        def state():
            return dict(mag=[q(getattr(sc.RING[m], par)[order], US)[0] for m in M], qp=[q(sc.RING[k].SetPointB[1], US / 64)[0] for k in Q],
                        z=q(sc.INJ.Z0[:4], U), z5=q(sc.INJ.Z0[4:], U), turns=int(sc.INJ.nTurns), off=self.offsets(B))
        self.mask = mask
        self.o0 = self.digest()

        def post(Z):
            self.steps.append(dict(op="binj", **state(), **self.same()))
            return Z
        idx = lambda o, x: [[int(x.index(v)) + 1 for v in row] for row in o]
        sup = lambda k: q(getattr(sc.RING[k], "SupportOffset", np.zeros(3))[:2], U)
        self.steps.append(dict(op="bstart", bad=bad, loss=loss, mk=kind, sym=bool(method != "add" and abs(sum(st)) < 1e-9), up=up, sb=[spos[b] for b in B], sm=[spos[m] for m in M], bo=idx(bo, B), mo=idx(mo, M) if bad != "shape" else [],
                               a=a, bsup=[sup(b) for b in B], mc=[[x + y for x, y in zip(q(sc.RING[m].MagnetOffset[:2], U), sup(m))] for m in M], **state()))
        z0 = sc.INJ.Z0.copy()
        sc.INJ.postFun = post
        end = dict(op="bend", exc="", ret=[], err=[])
        try:
            _, off, err = bba.trajectory_bba(sc, bo.copy(), mo.copy(), **kw)
            end["ret"], end["err"] = [qr(x) for x in off], [[-1 if y == NAN else y for y in qr(x)] for x in err]
        except Exception as ex:  # noqa
            end["exc"] = type(ex).__name__
            import traceback
            end["tb"] = traceback.format_exc()[-300:]
        end.update(state())
        end["exact"] = bool(np.all(z0 == sc.INJ.Z0))
        end.update(self.same())
        self.steps.append(end)


class Fake(Base):
    """apply_bpm_offsets, is_bba_errored, fake_bba"""
    def run(self):
        r = self.r
        N = r.randint(1, 5)
        els = []
        for k in range(N):
            els += [at.Drift("D", 0.5), at.Monitor("BPM"), mag("quad", 0.25)]
        lat = at.Lattice(els + [at.Drift("D", 0.5)], energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(lat)
        ords = lambda n: [k for k, e in enumerate(lat) if e.FamName == n]
        B, M = ords("BPM"), ords("M")
        sc.register_bpms(np.array(B))
        sc.register_magnets(np.array(M))
        exact = r.random() < 0.3
        for b, m in zip(B, M):
            sc.RING[m].MagnetOffset = np.array([r.randint(-600, 600) * U, r.randint(-600, 600) * U, 0])
            sc.RING[m].SupportOffset = np.array([r.randint(-300, 300) * U, r.randint(-300, 300) * U, 0])
            sc.RING[b].SupportOffset = np.array([r.randint(-300, 300) * U, r.randint(-300, 300) * U])
            true = (sc.RING[m].MagnetOffset + sc.RING[m].SupportOffset)[:2] - sc.RING[b].SupportOffset
            w = r.choice([3, 30, 300])
            sc.RING[b].Offset = true + (0 if exact else np.array([r.randint(-w, w), r.randint(-w, w)]) * U)
        planes = r.choice([1, 2, 2])
        pick = [sorted(r.sample(range(N), k)) for k in [r.randint(1, N)] * planes]
        if planes == 2 and r.random() < 0.5:
            pick[1] = pick[0]
        bo, mo = np.array([np.array(B)[p] for p in pick]), np.array([np.array(M)[p] for p in pick])

        def mask(k, d):
            if k in B:
                d.pop("Offset")
            return d
        self.mask = mask
        self.o0 = self.digest()
        for _ in range(r.randint(1, 3)):
            self.o0.update({k: v for k, v in self.digest().items()})
            st = dict(op=r.choice(["apply", "fake"]), bo=[[B.index(x) + 1 for x in row] for row in bo], off0=self.offsets(B), exc="")
            if st["op"] == "apply":
                lim = 2 ** 20
                u = 1.5e-3 / lim
                o, e = np.zeros(bo.shape), np.zeros(bo.shape)
                io, ie = [], []
                for i in range(planes):
                    io.append([]), ie.append([])
                    for j in range(bo.shape[1]):
                        v = r.choice([NAN, lim, -lim, lim + 1, -lim - 1, lim - 1, 5 * 2 ** r.randint(2, 16), r.randint(-lim, lim), r.randint(-2 * lim, 2 * lim)])
                        w = r.choice([0, 2 ** r.randint(0, 18), abs(v) * 2 // 5 + r.choice([-1, 1, 0]), r.randint(0, 2 ** 18)]) if v != NAN else r.choice([0, 5])
                        if v % 5 == 0 and v > 0 and (v // 5) & (v // 5 - 1) == 0 and r.random() < 0.5:
                            w = v // 5 * 2      # exactly 2.5 sigma, also in floating point
                        elif 5 * w == 2 * abs(v):
                            w += 1
                        w = min(max(w, 0), 2 ** 20)
                        io[-1].append(v), ie[-1].append(w)
                        o[i, j], e[i, j] = (np.nan if v == NAN else v * u), w * u
                st["o"], st["e"] = io, ie
                try:
                    st["flag"] = [[bool(x) for x in row] for row in bba.is_bba_errored(o.copy(), e.copy())]
                    bba.apply_bpm_offsets(sc, bo.copy(), o, e)
                except Exception as ex:  # noqa
                    st["exc"], st["flag"] = type(ex).__name__, []
                st["off"] = self.offsets(B)
            else:
                kw = {}
                st["errors"], st["given"] = [], []
                if r.random() < 0.8:
                    p = r.choice([0, 0.3, 0.5, 1])
                    e = np.array([[r.random() < p for _ in row] for row in bo])
                    kw["errors"] = e if r.random() < 0.7 else e.astype(int)
                    st["errors"] = [[bool(x) for x in row] for row in e]
                if r.random() < (0.5 if kw else 0.8):
                    st["given"] = [r.choice([0, 0, 10, 100, 200]) for _ in range(planes)]
                    kw["fake_offset"] = np.array(st["given"]) * U
                st["rel"] = [q((sc.RING[m].MagnetOffset + sc.RING[m].SupportOffset)[:2] - sc.RING[b].SupportOffset, U) for b, m in zip(B, M)]
                try:
                    bba.fake_bba(sc, bo.copy(), mo.copy(), **kw)
                except Exception as ex:  # noqa
                    st["exc"] = type(ex).__name__
                st["off"] = self.offsets(B)
            st.update(self.same())
            self.steps.append(st)
            for b in B:     # back on the grid
                sc.RING[b].Offset = np.round(np.nan_to_num(sc.RING[b].Offset) / U) * U


KINDS = dict(tbt=Tbt, fake=Fake)


def one(job):
    seed, kind = job
    rec = KINDS[kind](seed)
    rec.run()
    return dict(kind=kind, steps=rec.steps)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--kinds", default="tbt")
    a = ap.parse_args()
    kinds = a.kinds.split(",")
    jobs = [(a.seed * 7919 + k, kinds[k % len(kinds)]) for k in range(a.n)]
    with ProcessPoolExecutor(8) as pool:
        res = list(pool.map(one, jobs, chunksize=1))
    json.dump(dict(traces=[x for x in res if x["steps"]]), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
