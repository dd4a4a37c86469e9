"""Misaligns elements and tracks particles through them (for spec/AlignTrace.tla)."""
import argparse
import json
import multiprocessing
import os
import random
import sys

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

import project as pj  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
TH = float(np.arcsin(0.6))


def fix(v):
    return [int(round(float(x) * 1e9)) if np.isfinite(x) and abs(x) < 1.9 else 1999999999 for x in np.ravel(v)]


def element(r):
    c = r.choice(["quad", "free", "sext", "mult", "bend", "thin"])
    L = r.choice([0.25, 0.5, 1.0])
    geo = dict(c=1, s=0, den=1, rx=0, rz=int(L * 1000))
    if c == "quad":
        el = at.Quadrupole("Q", L, r.choice([-1.5, 2.0]))
    elif c == "free":
        el = at.Quadrupole("F", L, 0.0)
    elif c == "sext":
        el = at.Sextupole("S", L, r.choice([-40.0, 60.0]))
    elif c == "mult":
        el = at.Multipole("M", L, [0.0, 0.7, 5.0], [0.0, -0.5, 9.0])
    elif c == "thin":
        L, el = 0.0, at.ThinMultipole("T", [0.0, 0.3, 4.0], [0.0, 0.6, -3.0])
        geo = dict(c=1, s=0, den=1, rx=0, rz=0)
    else:
        sg = r.choice([1, -1])
        el = at.Bend("B", TH, sg * TH, r.choice([0.0, 0.5]))
        geo, L = dict(c=4, s=3 * sg, den=5, rx=-200 * sg, rz=600), TH
    return c, el, geo, L


def track(el, z):
    x = np.zeros((6, 1), order="F")
    x[:4, 0] = z
    el = el.deepcopy()
    out = np.squeeze(at.lattice_pass(at.Lattice([el], energy=1e9, periodicity=1), x, 1, refpts=[1])) if hasattr(at, "lattice_pass") else None
    return out


class Rec:
    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.kind, el, self.geo, self.L = element(r)
        ref = el.deepcopy()
        def part(k):
            c = el.deepcopy()
            c.FamName = "K"
            if k and self.L:
                c.Length = self.L * k
                if self.kind == "bend":
                    c.BendingAngle = el.BendingAngle * k
            return c
        lat = at.Lattice([at.Drift("D", 1.0), at.Marker("G"), el, part(0.5), at.Drift("D", 0.25), at.Marker("G"), part(0.75), el.deepcopy(), at.Drift("D", 1.0), part(0)],
                         energy=1e9, periodicity=1)
        self.sc = SimulatedCommissioning(lat)
        self.ref = ref
        self.split_magnet = r.random() < 0.4 and self.kind not in ("thin",)
        if self.split_magnet:       # two masters with one child each, or one with two
            mas = r.choice([{7: [6], 2: [3]}, {2: [9], 7: [3]}, {2: [3, 6]}, {2: [9, 3]}])
            self.mas = mas
            ords = r.sample(sorted(mas), len(mas))
            self.sc.register_magnets(np.array(ords), MasterOf=np.array([mas[o] for o in ords]).T)
        else:
            self.sc.register_magnets(np.array([2, 7]))
        self.sc.register_supports(np.array([[1], [5]]), "Girder")
        self.steps, self.last = [], None

    def draw(self):
        r = self.r
        d = [r.choice([0, 0, 100, -200, 350, -500]) for _ in range(3)]
        w, big = [0, 0, 0], dict(c=1, s=0, den=1)
        if r.random() < 0.5 and self.kind != "bend":
            big = r.choice([dict(c=0, s=1, den=1), dict(c=0, s=-1, den=1), dict(c=-1, s=0, den=1), dict(c=3, s=4, den=5), dict(c=4, s=-3, den=5)])
        elif r.random() < 0.7:
            w = [r.choice([0, 0, 10, -20, 30]) for _ in range(3)]
        return d, w, big

    def put(self, d, w, big):
        """realise the same total in a random way: girder displacement and roll, plus the magnet's own part"""
        r, sc = self.r, self.sc
        az = np.arctan2(big["s"] / big["den"], big["c"] / big["den"]) + w[2] * 1e-6
        so = np.array([r.choice([0.0, 50.0, -125.0, 400.0]) for _ in range(3)]) * 1e-6
        sr = r.choice([0.0, 0.0, 0.25 * az, az, 1e-3])
        if r.random() < 0.4:
            so, sr = so * 0, 0.0
        sc.RING[1].GirderOffset, sc.RING[5].GirderOffset = so.copy(), so.copy()
        sc.RING[1].GirderRoll = np.array([sr, 0.0, 0.0])
        sc.RING[2].MagnetOffset = np.array(d) * 1e-6 - so
        sc.RING[2].MagnetRoll = np.array([az - sr, w[0] * 1e-6, w[1] * 1e-6])
        if hasattr(sc.RING[7], "MagnetOffset"):
            sc.RING[7].MagnetOffset = np.array([r.choice([0.0, 1e-4, -3e-4]) for _ in range(3)])
            sc.RING[7].MagnetRoll = np.array([r.choice([0.0, 1e-3]), 0.0, r.choice([0.0, 2e-5])])
        return f"girder {so.tolist()} {sr}"

    def trans(self, el):
        out = []
        for k, ref in (("T1", np.zeros(6)), ("T2", np.zeros(6)), ("R1", np.eye(6)), ("R2", np.eye(6))):
            out += [int(round(x * 1e8)) for x in np.ravel(getattr(el, k, ref))]
        return out

    def enter(self, z, d, w, big):
        """same as Enter of Align.tla, in floating point (Align.tla checks it)"""
        dx, dy, dz = np.array(d) * 1e-6
        ax, ay, az = np.array(w) * 1e-6
        if big["c"] != big["den"]:
            ax = ay = az = 0.0
        x, px, y, py = z
        v = np.array([x - dx + dz * px + az * (y - dy), px - ay + az * py, y - dy + dz * py - az * (x - dx), py + ax - az * px])
        if big["c"] != big["den"]:
            c, s = big["c"] / big["den"], big["s"] / big["den"]
            v = np.array([c * v[0] + s * v[2], c * v[1] + s * v[3], c * v[2] - s * v[0], c * v[3] - s * v[1]])
        return v

    def others(self):
        """everything but the transformations of all elements that are not aligned themselves"""
        return [pj.canon({k: v for k, v in vars(self.sc.RING[j]).items() if k not in ("T1", "T2", "R1", "R2", "Energy")}) for j in (0, 1, 3, 4, 5, 6, 8, 9)]

    def step(self, d, w, big):
        sc = self.sc
        split = self.put(d, w, big)
        st = dict(exc="", el=self.kind, m=dict(d=d, w=w, big=big, g=self.geo), parts=[], split=split, len=int(self.L * 1000),
                  free=self.kind == "free", ident=True, again=True, child=True, tr="")
        self.steps.append(st)
        others = self.others()
        try:
            sc.update_supports()
            tr = self.trans(sc.RING[2])
            for _ in range(self.r.randint(1, 2)):
                sc.update_supports()
        except Exception as ex:  # noqa
            st["exc"] = type(ex).__name__
            return
        st["again"] = max(abs(a - b) for a, b in zip(tr, self.trans(sc.RING[2]))) <= 1
        tr = self.trans(sc.RING[2])
        # totals agree up to rounding of sums: transformations within 2e-8 get the name of the first one
        key = (tuple(d), tuple(w), tuple(big.values()))
        self.names = getattr(self, "names", {})
        name = [n for k, n, v in self.names.get(key, []) if max(abs(a - b) for a, b in zip(v, tr)) <= 2]
        if not name:
            self.names.setdefault(key, []).append((key, f"T{len(self.steps)}", tr))
            name = [f"T{len(self.steps)}"]
        st["tr"] = name[0]
        eye = [0] * 12 + [10 ** 8 if a == b else 0 for a in range(6) for b in range(6)] * 2
        st["ident"] = max(abs(a - b) for a, b in zip(tr, eye)) <= 1
        if self.split_magnet:
            st["child"] = all(self.trans(sc.RING[c]) == self.trans(sc.RING[k]) for k, v in self.mas.items() for c in v) and others == self.others()
        for _ in range(3):
            z = np.array([self.r.randint(-1000, 1000) for _ in range(4)]) * 1e-6
            zin = self.enter(z, d, w, big)
            o0, o = track(self.ref, zin), track(sc.RING[2], z)
            fl = track(at.Drift("D", self.L), z)
            st["parts"].append(dict(z=fix(z), out0=fix(o0[:4]), out=fix(o[:4]), dct=fix(o[5] - fl[5])[0], ok=bool(np.all(np.isfinite(o))), **{"in": fix(zin)}))

    def run(self, n):
        pool = []
        self.step([0, 0, 0], [0, 0, 0], dict(c=1, s=0, den=1))
        for _ in range(n):
            if pool and self.r.random() < 0.45:
                m = self.r.choice(pool)
            elif self.r.random() < 0.15:
                m = ([0, 0, 0], [0, 0, 0], dict(c=1, s=0, den=1))
            else:
                m = self.draw()
                pool.append(m)
            self.step(*m)


def one(job):
    rec = Rec(job[0])
    rec.run(job[1])
    return dict(seed=job[0], steps=rec.steps)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=60)
    ap.add_argument("--steps", type=int, default=8)
    a = ap.parse_args()
    with multiprocessing.Pool(8) as pool:
        res = pool.map(one, [(a.seed * 7919 + k, a.steps) for k in range(a.n)], chunksize=1)
    json.dump(dict(traces=res), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
