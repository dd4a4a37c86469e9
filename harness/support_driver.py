"""Moves elements with sections, plinths and girders (for spec/SupportTrace.tla)."""
import argparse
import json
import multiprocessing
import os
import random
import sys

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
U = 2 ** 20
KINDS = ("Section", "Plinth", "Girder")


def q(v):
    return [int(round(float(x) * U)) if np.isfinite(x) and abs(x) < 500 else 999999999 for x in np.ravel(v)]


class Rec:
    def __init__(self, seed):
        r = self.r = random.Random(seed)
        np.random.seed(seed % 2 ** 32)
        els = []
        for k in range(r.randint(7, 13)):
            L = r.choice([0.125, 0.25, 0.5, 0.5, 1.0])
            c = r.random()
            els.append(at.Drift("D", L) if c < 0.3 else at.Quadrupole("Q", L, 1.0) if c < 0.55 else at.Monitor("BPM") if c < 0.8
                       else at.Marker("GM") if c < 0.9 else at.Bend("B", L, 1 / 16, 0.0))
        els += [at.Quadrupole("Q", 0.5, 1.0), at.Monitor("BPM"), at.Drift("D", 0.25)]
        self.sc = SimulatedCommissioning(at.Lattice(els, energy=1e9, periodicity=1))
        self.mag = [k for k, e in enumerate(els) if isinstance(e, (at.Quadrupole, at.Bend))]
        self.bpm = [k for k, e in enumerate(els) if isinstance(e, at.Monitor)]
        self.n, self.steps, self.str = len(els), [], []
        if r.random() < 0.8:
            self.mag = sorted(r.sample(self.mag, r.randint(1, len(self.mag))))
        self.sc.register_magnets(np.array(self.mag))
        self.sc.register_bpms(np.array(self.bpm))
        for kind in KINDS:
            self.layout(kind)

    def pos(self):
        s = np.cumsum([0.0] + [float(e.Length) for e in self.sc.RING])
        return [int(round(x * 8)) for x in s[:-1]], int(round(s[-1] * 8))

    def layout(self, kind):
        """disjoint structures of one kind, possibly one across the injection point"""
        r = self.r
        if r.random() < 0.25:
            return
        p, C = self.pos()
        m = r.choice([1, 1, 2, 3])
        cut = sorted(r.sample(range(self.n), min(2 * m, self.n // 2 * 2)))
        if r.random() < 0.5:
            cut = cut[1:] + cut[:1]
        pairs = [(cut[2 * k], cut[2 * k + 1]) for k in range(len(cut) // 2)]
        pairs = [(a, b) for a, b in pairs if p[a] != p[b]]
        if not pairs:
            return
        if r.random() < 0.5:
            r.shuffle(pairs)
        kw = {} if r.random() < 0.3 else dict(Offset=np.ones(3) * 1e-4, Roll=np.array([1e-4, 0, 0]))
        self.sc.register_supports(np.array(pairs).T, kind, **kw)
        self.str += [(kind, a, b) for a, b in pairs]

    def shake(self):
        r = self.r
        if r.random() < 0.2 and any(self.sc.SIG.Support):
            self.sc.apply_errors(r.choice([1, 2]))
            return
        v = lambda: r.choice([0, 1, -1, 2, 3, -5, 8]) / 64
        for kind, a, b in self.str:
            if r.random() < 0.7:
                setattr(self.sc.RING[a], kind + "Offset", np.array([v(), v(), v()]))
            if r.random() < 0.7:
                setattr(self.sc.RING[b], kind + "Offset", np.array([v(), v(), v()]))
            if r.random() < 0.6:
                setattr(self.sc.RING[a], kind + "Roll", np.array([v(), 0.0, 0.0]))
        if r.random() < 0.4:
            for k in self.mag:
                self.sc.RING[k].MagnetOffset = np.array([v(), v(), v()]) / 64

    def base(self, op):
        p, C = self.pos()
        g = lambda k, f: q(getattr(self.sc.RING[k], f))
        return dict(op=op, exc="", pos=p, C=C, str=[dict(kind=kind, a=a + 1, b=b + 1, o0=g(a, kind + "Offset"), o1=g(b, kind + "Offset"),
                                                        roll=g(a, kind + "Roll")[0]) for kind, a, b in self.str])

    def observe(self, st):
        g = lambda k: dict(k=k + 1, off=q(self.sc.RING[k].SupportOffset), roll=q(self.sc.RING[k].SupportRoll))
        st["mag"], st["bpm"] = [g(k) for k in self.mag], [g(k) for k in self.bpm]
        self.steps.append(st)

    def run(self, n):
        r = self.r
        st = self.base("init")
        self.observe(dict(st, mags=True, bpms=True, str=[]))
        for _ in range(n):
            self.shake()
            st = self.base("upd")
            m, b = r.choice([(True, True), (True, True), (True, False), (False, True)])
            if r.random() < 0.2:        # errors drawn by apply_errors come with an update
                m = b = True
            if r.random() < 0.15 and any(self.sc.SIG.Support):
                m = b = True
                try:
                    self.sc.apply_errors()
                    st = self.base("upd")
                except Exception as ex:  # noqa
                    st["exc"] = type(ex).__name__
            else:
                if not (m and b):       # the rest keeps what it has: establish it first
                    self.sc.update_supports()
                    self.observe(dict(st, mags=True, bpms=True))
                    self.shake_only()
                    st = self.base("upd")
                try:
                    self.sc.update_supports(offset_bpms=b, offset_magnets=m)
                except Exception as ex:  # noqa
                    st["exc"] = type(ex).__name__
            self.observe(dict(st, mags=m, bpms=b))
            p, C = self.pos()
            ks = [k for k in range(self.n) if p.count(p[k]) == 1]
            if r.random() < 0.5 and ks:
                ks = sorted(r.sample(ks, r.randint(1, len(ks))))
                st = self.base("at")
                try:
                    off, roll = self.sc.support_offset_and_roll(np.array([p[k] / 8 for k in ks]))
                    st["at"] = [dict(k=k + 1, off=q(off[:, j]), roll=q(roll[:, j])) for j, k in enumerate(ks)]
                except Exception as ex:  # noqa
                    st.update(exc=type(ex).__name__, at=[])
                self.steps.append(st)

    def shake_only(self):
        v = lambda: self.r.choice([1, -1, 2, 3]) / 64
        for kind, a, b in self.str:
            self.sc.RING[a].__setattr__(kind + "Offset", np.array([v(), v(), v()]))


def one(job):
    rec = Rec(job[0])
    rec.run(job[1])
    return dict(seed=job[0], steps=rec.steps)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--steps", type=int, default=6)
    a = ap.parse_args()
    with multiprocessing.Pool(8) as pool:
        res = pool.map(one, [(a.seed * 7919 + k, a.steps) for k in range(a.n)], chunksize=1)
    json.dump(dict(traces=res), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
