"""Runs the trajectory and orbit corrections on toy lines and rings, observed at every injection (for spec/SteerTrace.tla)."""
import argparse
import copy
import json
import os
import random
import sys
import warnings
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

from project import Near, canon, state  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402
from pySC.correction import orbit_trajectory as ot  # noqa: E402
from pySC.lattice_properties.response_model import SCgetModelDispersion, SCgetModelRM  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
UR, UK, UF, UP = 2 ** 26, 2 ** 30, 2 ** 10, 2 ** 12
NAN, BAD = 1777777777, 1666666666
WALL = 0.01


def q(v, u):
    return [NAN if np.isnan(x) else BAD if abs(x * u) > 9e8 else int(round(float(x) * u)) for x in np.ravel(v)]


class Rec:
    def __init__(self, seed, alg, plan=None):
        self.r = r = random.Random(seed)
        self.plan = plan
        np.random.seed(seed % 2 ** 32)
        self.alg, self.steps = alg, []
        self.T = 2 if alg in ("stitch", "balance") else r.choice([1, 1, 1, 2]) if alg == "first" else r.choice([1, 1, 2])
        self.nseg = r.choice([2, 3, 4]) if alg != "first" else r.choice([2, 3, 5])
        if plan:
            self.T, self.nseg = plan["T"], plan["nb"]
        self.line()
        self.choose()

    # -------------------------------------------------------------- machine
    def line(self):
        r = self.r
        els, self.cms, self.spos_bpm, s = [], [], [], 0.0
        rf = at.RFCavity("RF", 0.0, 0.0, 5e8, 1, 1e9)
        rf.PassMethod = "IdentityPass" if r.random() < 0.0 else "DriftPass"
        rf.PassMethod = "RFCavityPass"
        els.append(rf)
        for k in range(self.nseg):
            for _ in range(r.choice([1, 1, 2])):
                if r.random() < 0.6:
                    c = at.Corrector("C", 0.0, [0.0, 0.0])
                    c.PolynomA, c.PolynomB = np.zeros(2), np.zeros(2)
                    c.MaxOrder = 1
                else:
                    c = at.Quadrupole("C", 0.25, 0.0)
                    c.PassMethod = "StrMPoleSymplectic4Pass"
                s += c.Length
                self.cms.append((len(els), c, s - c.Length / 2))
                els += [c, at.Drift("D", 0.5)]
                s += 0.5
            els.append(at.Aperture("AP", [-WALL, WALL, -WALL, WALL]))
            els.append(at.Monitor("BPM"))
            self.spos_bpm.append(s)
            if r.random() < 0.5:
                els.append(at.Drift("D", 0.5))
                s += 0.5
        if r.random() < 0.4:
            c = at.Corrector("C", 0.0, [0.0, 0.0])
            c.PolynomA, c.PolynomB = np.zeros(2), np.zeros(2)
            c.MaxOrder = 1
            self.cms.append((len(els), c, s))
            els += [c, at.Drift("D", 0.5)]
            s += 0.5
        self.C = s
        self.lat = at.Lattice(els, energy=1e9, periodicity=1)
        sc = self.sc = SimulatedCommissioning(self.lat)
        self.bpms = [k for k, e in enumerate(self.lat) if isinstance(e, at.Monitor)]
        sc.register_bpms(np.array(self.bpms))
        sc.register_cavities(np.array([0]))
        for o, _, _ in self.cms:
            lim = lambda: r.choice([0.05, 2.0 ** -11, 2.0 ** -9])
            kw = {}
            c = r.random()
            kw["HCM"], kw["VCM"] = lim(), lim()
            sc.register_magnets(np.array([o]), **kw)
        for b in self.bpms:
            sc.RING[b].Offset = np.array([r.choice([0, 0, 1, -2]) * 2.0 ** -13 for _ in range(2)])
        sc.INJ.nParticles, sc.INJ.nShots, sc.INJ.nTurns, sc.INJ.trackMode = 1, 1, self.T, "TBT"
        sc.INJ.beamLostAt = 1.0

    def choose(self):
        r, sc = self.r, self.sc
        allc = [o for o, _, _ in self.cms]
        self.givecm = r.random() < 0.5
        if self.givecm:
            pick = lambda: sorted(r.sample(allc, r.randint(1, len(allc))))
            self.cmh, self.cmv = pick(), pick()
        else:
            self.cmh, self.cmv = [int(x) for x in sc.ORD.CM[0]], [int(x) for x in sc.ORD.CM[1]]
        self.givebpm = r.random() < 0.4 and len(self.bpms) > 1 and not self.plan
        self.bord = sorted(r.sample(self.bpms, r.randint(max(1, len(self.bpms) - 1), len(self.bpms)))) if self.givebpm else list(self.bpms)
        for pl, ords in ((False, self.cmh), (True, self.cmv)):
            if r.random() < 0.4:
                sc.set_cm_setpoints(np.array(ords), np.array([r.choice([0, 1, -1]) * 2.0 ** -13 for _ in ords]), skewness=pl)

    # ---------------------------------------------------------- observation
    def setpoints(self):
        sc = self.sc
        out = []
        for pl, ords in ((0, self.cmh), (1, self.cmv)):
            for o in ords:
                el = sc.RING[o]
                v = (el.SetPointB if pl == 0 else el.SetPointA)[0]
                if el.PassMethod != "CorrectorPass":
                    v = v * (-1) ** (pl + 1) * el.Length
                out.append(v)
        res = q(out, UK)
        if self.rf:
            res += q([sc.RING[0].FrequencySetPoint - self.f0], UF)
        return res

    def others(self):
        sc, parts = self.sc, []
        for k, el in enumerate(sc.RING):
            d = state(el)
            for pl, ords in ((0, self.cmh), (1, self.cmv)):
                if k in ords:
                    for f in ("SetPoint", "Polynom"):
                        d[f + "BA"[pl]] = np.delete(np.asarray(d[f + "BA"[pl]]), 0)
                    if "KickAngle" in d:
                        d["KickAngle"] = np.array([0 if j == pl else x for j, x in enumerate(d["KickAngle"])])
            if self.rf and el.FamName == "RF":
                d.pop("Frequency"), d.pop("FrequencySetPoint")
            parts.append(type(el).__name__ + canon(d))
        inj = {a: v for a, v in vars(sc.INJ).items() if a != "postFun"}
        ide = "".join(canon(state(el)) for el in sc.IDEALRING)
        return dict(ring=Near("|".join(parts)), inj=Near(inj), ideal=Near(ide), ORD=Near(dict(sc.ORD)))

    def same(self):
        o = self.others()
        bad = [k for k in o if o[k] != self.o0[k]]
        return dict(oth=not bad, what=",".join(bad))

    def reading(self, Z):
        ring = [copy.deepcopy(e) for e in self.sc.RING]
        out = at.Lattice(ring, energy=1e9, periodicity=1).track(np.asfortranarray(Z.copy()), nturns=self.T, refpts=np.array(self.bord), use_mp=False)[0]
        x = np.array([[out[d, 0, k, t] - self.sc.RING[b].Offset[d // 2] for t in range(self.T) for k, b in enumerate(self.bord)] for d in (0, 2)])
        x[:, np.isnan(x[0]) | np.isnan(x[1])] = np.nan
        return x

    def post(self, Z):
        k = self.ninj
        self.ninj += 1
        Z = np.zeros_like(np.asarray(Z, dtype=float))
        Z[:4, 0] = self.script[min(k, len(self.script) - 1)]
        if self.steps and len(self.steps) > 1500:
            raise MemoryError("too many injections")
        x = self.reading(Z)
        ok = ~np.isnan(x[0])
        rms = [float(np.sqrt(np.mean(x[p, ok] ** 2))) if ok.any() else 0.0 for p in (0, 1)]
        self.steps.append(dict(op="inj", rd=[q(x[0], UR), q(x[1], UR)], reach=int(ok.sum()), rms=q(rms, UR), sp=self.setpoints(), **self.same()))
        return Z

    # -------------------------------------------------------------- scripts
    def aim(self, reach, small=0.0, barely=0.0):
        """an injected beam reaching `reach` of the chosen BPMs"""
        s = [self.spos_bpm[self.bpms.index(b)] + t * self.C for t in range(self.T) for b in self.bord]
        if reach >= len(s):
            return [small, 0.0, -small, 0.0]
        if barely:
            return [small, 0.0, 0.0, (WALL + barely) / s[reach]]
        if reach == 0:
            return [small, 0.0, 0.0, 2 * WALL / s[0]]
        return [small, 0.0, 0.0, 2 * WALL / (s[reach - 1] + s[reach])]

    def make_script(self):
        r, full = self.r, self.T * len(self.bord)
        u = 2.0 ** -12
        self.stuck = False
        if self.plan:       # a behaviour of the specification
            out = []
            for reach, big in self.plan["seen"]:
                a = self.aim(reach)
                out.append([a[0], a[1], a[2] + 8 * u * big, a[3]])
            return out
        if self.alg in ("first", "stitch") and r.random() < 0.25 and full > 1:
            self.stuck = True
            lo = 1 if self.alg == "first" else len(self.bord)
            a = [self.aim(r.randint(lo, full - 1), r.choice([0, 1]) * u, r.choice([1e-4, 3e-4, 5e-4]))]
            return a * 20 + [self.aim(0)] * 40 + a if r.random() < 0.2 else a
        if self.alg in ("first", "stitch"):
            out = []
            first = full
            if self.alg == "stitch":
                first = r.choice([len(self.bord) + r.randint(0, len(self.bord)), full, full, len(self.bord) - 1])
            else:
                first = r.choice([full, full, full - 1, max(1, full - 2), 1, 0])
            out.append(self.aim(first, r.choice([0, 1, -3]) * u))
            while len(out) < 60:
                m = r.choice([full, full, full, full - 1, full - 1, max(1, full // 2), r.randint(0, full)]) if r.random() < 0.95 else 0
                a = self.aim(max(m, 0 if r.random() < 0.1 else 1), r.choice([0, 1, -3]) * u)
                out += [a] * r.choice([1, 3, 4, 4, 5, 6, 18, 25])
            return out
        base = [r.choice([0, 2, -5]) * u, 0.0, r.choice([0, 1, 3]) * u, 0.0]
        style = r.choice(["const", "const", "alt", "out", "late", "lost", "ramp", "slow"])
        self.style = style
        n, k = 40, r.randint(1, 8)
        big = [base[0] + r.choice([0, 8]) * u, 0.0, base[2] + 8 * u, 0.0]
        if style == "const":
            return [base]
        if style == "alt":
            return [base if j % 2 else big for j in range(n)]
        if style == "out":
            return [big if j == k else base for j in range(n)]
        if style == "late":
            return [(big if j % 2 else base) if j < k else base for j in range(n)]
        if style == "lost":
            return [self.aim(r.randint(0, full - 1)) if j == k else base for j in range(n)]
        if style == "slow":
            return [[base[0] + (j // 3) * 4 * u, 0, base[2], 0] for j in range(n)]
        return [[base[0], 0, base[2] + j * 2 * u, 0] for j in range(n)]

    # ------------------------------------------------------------------ run
    def run(self):
        r, sc = self.r, self.sc
        full, nh, nv = self.T * len(self.bord), len(self.cmh), len(self.cmv)
        self.rf = self.alg == "correct" and r.random() < 0.3
        phys = self.alg == "correct" and self.T == 1 and r.random() < 0.45 and not self.plan
        self.f0 = sc.RING[0].FrequencySetPoint
        ncol = nh + nv + self.rf
        nbp = min(self.plan["nbp"], len(self.bord)) if self.plan else r.randint(1, len(self.bord))
        self.script, self.ninj = self.make_script(), 0
        stuck = getattr(self, "stuck", False)
        # --- response matrix with a known pseudo-inverse
        R, P, kw = np.zeros((2 * full, ncol)), [], {}
        quiet = self.alg in ("balance", "correct") and r.random() < 0.6
        if phys:
            self.rf = False
            ncol = nh + nv
            R = np.zeros((2 * full, ncol))
            pos = {o: s for o, _, s in self.cms}
            for j, (o, p) in enumerate([(o, 0) for o in self.cmh] + [(o, 1) for o in self.cmv]):
                for k, b in enumerate(self.bord):
                    R[p * full + k, j] = max(0.0, self.spos_bpm[self.bpms.index(b)] - pos[o]) if b > o else 0.0
            # correctors without effect and linearly dependent ones make the matrix singular: remove these modes
            sv = np.linalg.svd(R, compute_uv=False)
            zero = int(np.sum(sv < 1e-9 * sv[0])) if sv[0] > 0 else len(sv)
            if zero or r.random() < 0.2:
                kw["num_removed"] = zero
        elif not quiet:
            c0 = r.choice([8.0, 16.0, 64.0, 64.0]) if self.alg in ("balance", "correct", "stitch") else r.choice([8.0, 16.0, 256.0, 1024.0])
            if stuck or self.plan:
                c0 = 1024.0
            alpha = r.choice([0, 0, c0, c0])
            damp = r.choice([1, 1, 0.5])
            rows = r.sample(range(2 * full), min(2 * full, ncol))
            cols = r.sample(range(ncol), len(rows))
            for row, col in zip(rows, cols):
                sg = r.choice([1, 1, -1])
                R[row, col] = sg * c0
                f = sg * damp * c0 / (c0 ** 2 + alpha ** 2)
                P.append([col + 1, row + 1, int(round(f * UP))])
            if alpha:
                kw["alpha"] = alpha
            if damp != 1:
                kw["damping"] = damp
        ref = np.zeros(2 * full)
        if r.random() < 0.5:
            ref = np.array([r.choice([0, 1, -1, 3]) * 2.0 ** -13 for _ in range(2 * full)])
        maxsteps = dict(first=r.choice([4, 5, 7, 12, 30, 100]), stitch=r.choice([4, 5, 8, 30]), balance=r.choice([3, 4, 5, 6, 10]),
                        correct=r.choice([1, 2, 3, 4, 5, 8, 12, 30]))[self.alg]
        if stuck:
            maxsteps = r.choice([19, 22, 26, 30])
        if self.plan:
            maxsteps = self.plan["maxsteps"]
        args = dict(maxsteps=maxsteps, **kw)
        eps, target = 1e-4, 0.0
        if self.alg in ("balance", "correct"):
            eps = args["eps"] = r.choice([1e-4, 1e-4, 2e-3, 1e-5]) if not self.plan else 1e-4
        if self.alg == "correct":
            target = args["target"] = r.choice([0, 0, 1e-3, 1.0]) if not self.plan else 0
            if self.rf:
                args["scaleDisp"] = 2.0 ** 20
        if self.alg == "stitch":
            args["n_bpms"] = nbp
        usual = dict(maxsteps=dict(first=100, stitch=30, balance=10, correct=30)[self.alg], eps=1e-4, n_bpms=4, target=0)
        for a, v in usual.items():
            if a in args and args[a] == v and r.random() < 0.7:
                args.pop(a)
        if np.any(ref) or r.random() < 0.3:
            args["reference"] = ref.copy().reshape(-1, 1) if self.alg == "first" and r.random() < 0.5 else ref.copy()
        if self.givecm:
            args["cm_ords"] = [np.array(self.cmh), np.array(self.cmv)]
        if self.givebpm:
            args["bpm_ords"] = np.array(self.bord)
        refuse = ""
        if r.random() < 0.12 and not self.plan:
            refuse, c = "pre", r.random()
            if c < 0.4 and self.alg in ("stitch", "balance"):
                sc.INJ.nTurns = r.choice([1, 3])
                R = np.zeros((2 * sc.INJ.nTurns * len(self.bord), ncol))
                args.pop("reference", None)
            elif c < 0.6:
                R = np.vstack((R, np.zeros((1, ncol))))
            elif c < 0.8:
                R = np.hstack((R, np.zeros((2 * full, 1))))
            else:
                args["reference"] = np.zeros(2 * full + 2)
        lim = lambda p, o: int(round(sc.RING[o].CMlimit[p] * UK))
        if phys:
            self.script = self.script[:1]
        self.o0 = self.others()
        cfg = dict(alg=self.alg, T=self.T, nb=len(self.bord), bord=self.bord, cmh=self.cmh, cmv=self.cmv, stuck=stuck, limh=[lim(0, o) for o in self.cmh],
                   limv=[lim(1, o) for o in self.cmv], P=P, ref=q(ref, UR), maxsteps=maxsteps, eps=int(eps * UR), target=min(int(target * UR), 10 ** 9), nbp=nbp,
                   rf=bool(self.rf), phys=phys, R8=[[int(round(x * 8)) for x in row] for row in R] if phys else [], start=self.setpoints(), refuse=refuse, style=getattr(self, "style", ""))
        sc.INJ.postFun = self.post
        fun = dict(first=ot.first_turn, stitch=ot.stitch, balance=ot.balance, correct=ot.correct)[self.alg]
        exc = ""
        Rc, ac = R.copy(), {k: np.copy(v) for k, v in args.items() if isinstance(v, np.ndarray)}
        try:
            res = fun(sc, R, **args)
            if res is not sc and res is not None:
                self.sc = res
        except Exception as ex:  # noqa
            exc = type(ex).__name__
        st = dict(op="end", exc=exc, sp=self.setpoints(), **self.same())
        if not np.array_equal(R, Rc) or any(not np.array_equal(v, args[k]) for k, v in ac.items()):
            st["oth"], st["what"] = False, st["what"] + ",arguments"
        self.steps.append(st)
        return dict(c=cfg, steps=self.steps)


def orbit_ring(r):
    els = [at.RFCavity("RF", 0.0, 1e6, 0.0, 4, 1e9)]
    two = r.random() < 0.4
    for k in range(6):
        els += [at.Quadrupole("QF", 0.25, 1.2), at.Drift("D", 0.5), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.25)]
        c = at.Corrector("C", 0.0, [0.0, 0.0])
        c.PolynomA, c.PolynomB, c.MaxOrder = np.zeros(2), np.zeros(2), 1
        els += [c, at.Drift("D", 0.25), at.Monitor("BPM"), at.Quadrupole("QD", 0.25, -1.0), at.Drift("D", 0.5), at.Bend("B", 1.0, 2 * np.pi / 12, 0.0), at.Drift("D", 0.5)]
        if r.random() < 0.3:
            els.append(at.Monitor("BPM"))
        if two and k == 2:
            els.append(at.RFCavity("RF", 0.0, 0.5e6, 0.0, 4, 1e9))
    lat = at.Lattice(els, energy=1e9, periodicity=1)
    for e in lat:
        if e.FamName == "RF":
            e.Frequency = 299792458.0 / sum(e.Length for e in els) * 4
    lat.enable_6d()
    return lat


def orb(seed):
    r = random.Random(seed)
    np.random.seed(seed % 2 ** 32)
    lat = orbit_ring(r)
    rec = Rec.__new__(Rec)
    rec.sc = sc = SimulatedCommissioning(lat)
    bpms = [k for k, e in enumerate(lat) if isinstance(e, at.Monitor)]
    cms = [k for k, e in enumerate(lat) if e.FamName in ("C", "QF", "QD")]
    sc.register_bpms(np.array(bpms))
    cavs = np.array([k for k, e in enumerate(lat) if e.FamName == "RF"])
    sc.register_cavities(cavs)
    sc.register_magnets(np.array(cms), HCM=1.0, VCM=1.0)
    sc.INJ.trackMode = "ORB"
    rec.rf = r.random() < 0.5
    pick = lambda: sorted(r.sample(cms, r.randint(2, min(6, len(cms)))))
    rec.cmh, rec.cmv = pick(), pick()
    rec.bord = sorted(r.sample(bpms, r.randint(3, len(bpms))))
    for o in bpms:
        sc.RING[o].Offset = np.array([r.choice([0, 1, -1]) * 2.0 ** -14 for _ in range(2)])
    for k, e in enumerate(sc.RING):     # distort the orbit with small dipole errors
        if e.FamName in ("C",):
            sc.set_cm_setpoints(k, r.choice([0, 1, -1]) * 2.0 ** -16, skewness=r.random() < 0.5)
    if rec.rf:
        sc.set_cavity_setpoints(cavs, r.choice([0, 200.0, -300.0]), "Frequency", "add")
    M = SCgetModelRM(sc, np.array(rec.bord), [np.array(rec.cmh), np.array(rec.cmv)], trackMode="ORB", useIdealRing=True)
    scale = 1e8
    args = {}
    if rec.rf:
        eta = SCgetModelDispersion(sc, np.array(rec.bord), sc.ORD.RF, trackMode="ORB", Z0=np.zeros(6), nTurns=1, rfStep=1e2, useIdealRing=True)
        M = np.column_stack((M, scale * eta))
        args["scaleDisp"] = scale
    ref = np.array([r.choice([0, 1, -1]) * 2.0 ** -14 for _ in range(2 * len(rec.bord))])

    def read():
        o = at.find_orbit6(sc.RING.deepcopy(), refpts=np.array(rec.bord))[1]
        return np.concatenate([o[:, d] - np.array([sc.RING[b].Offset[d // 2] for b in rec.bord]) for d in (0, 2)])

    sv = np.linalg.svd(M, compute_uv=False)
    nrem = int(np.sum(sv < 3e-2 * sv[0]))
    U = np.linalg.svd(M, full_matrices=False)[0][:, :len(sv) - nrem]
    proj = lambda v: q(U.T @ (v - ref), UR)
    p0 = proj(read())
    rec.o0 = rec.others()
    freq = lambda: [sc.RING[c].FrequencySetPoint for c in cavs]
    f0 = freq()
    exc = ""
    try:
        ot.correct(sc, M, reference=ref, cm_ords=[np.array(rec.cmh), np.array(rec.cmv)], bpm_ords=np.array(rec.bord), maxsteps=6, eps=1e-3, num_removed=nrem, **args)
    except Exception as ex:  # noqa
        exc = type(ex).__name__
    p1 = proj(read())
    st = dict(op="orb", exc=exc, proj0=p0, proj1=p1, big=max(abs(x) for x in p0), rf=bool(rec.rf), moved=[int(round((b - a) * 1024)) for a, b in zip(f0, freq())], **rec.same())
    return dict(c=dict(alg="orb", rf=bool(rec.rf)), steps=[st])


def one(job):
    seed, alg, plan = job
    if alg == "orb":
        return orb(seed)
    return Rec(seed, alg, plan).run()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--kinds", default="first")
    ap.add_argument("--plans", default="")
    a = ap.parse_args()
    kinds = a.kinds.split(",")
    jobs = [(a.seed * 7919 + k, kinds[k % len(kinds)], None) for k in range(a.n)]
    if a.plans:
        with open(a.plans) as fh:
            jobs = [(a.seed * 7919 + k, p["alg"], p) for k, p in enumerate(json.load(fh))]
    with ProcessPoolExecutor(8) as pool:
        res = list(pool.map(one, jobs, chunksize=1))
    json.dump(dict(traces=res), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
