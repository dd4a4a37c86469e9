"""Registers uncertainties and applies errors, repeatedly, on real machines (for spec/ErrorsTrace.tla)."""
import argparse
import json
import multiprocessing
import os
import random
import sys

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import at  # noqa: E402
import numpy as np  # noqa: E402

import project as pj  # noqa: E402
from core_driver import toy_lattice  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
U24, U20 = 2 ** 24, 2 ** 20
RF = [p + e for p in ("Voltage", "Frequency", "TimeLag") for e in ("Offset", "CalError")]
ATTR = dict(BendingAngle="BendingAngleError")


def rdig(el):
    """Digest of an element, numbers rounded to 1e-9, T/R of missing and neutral alignment identified."""
    d = dict(pj.elem_vars(el))
    for k, ref in (("T1", np.zeros(6)), ("T2", np.zeros(6)), ("R1", np.eye(6)), ("R2", np.eye(6))):
        d.setdefault(k, ref)
    out = []
    for k in sorted(d):
        if k in pj.AT_OWN:
            continue
        v = d[k]
        try:
            a = np.asarray(v, dtype=float)
            out.append(k + str([int(round(x * 1e9)) if np.isfinite(x) else str(x) for x in a.ravel()]))
        except (TypeError, ValueError):
            out.append(k + pj.canon(v))
    return pj.digest("|".join(out))


class Rec:
    def __init__(self, seed, variant):
        self.r = random.Random(seed)
        np.random.seed(seed % 2 ** 32)
        self.lat = toy_lattice(variant)
        self.sc = SimulatedCommissioning(self.lat)
        self.L0 = float(sum(e.Length for e in self.lat))
        self.keys = {}          # key -> (kind, ord, field, comp)
        self.pairs = []
        self.sig, self.steps, self.ids = {}, [], {}
        n = lambda cls: [i for i, e in enumerate(self.lat) if isinstance(e, cls)]
        self.rf, self.bpm = n(at.RFCavity), n(at.Monitor)
        self.bend = [i for i, e in enumerate(self.lat) if e.FamName == 'B']
        self.mag = [i for i in n(at.Quadrupole) if i not in n(at.Bend)] + self.bend + n(at.Sextupole) + n(at.Corrector)
        for kind, ords, fields in (("BPM", self.bpm, dict(Noise=2, NoiseCO=2, Offset=2, CalError=2, Roll=0, SumError=0)),
                                   ("RF", self.rf, {f: 0 for f in RF}),
                                   ("Magnet", self.mag, dict(CalErrorA=-1, CalErrorB=-1, MagnetOffset=3, MagnetRoll=3, BendingAngle=0))):
            for o in ords:
                for f, m in fields.items():
                    if f == "BendingAngle" and o not in self.bend:
                        continue
                    m = len(self.lat[o].PolynomB) if m == -1 else m
                    for c in range(max(1, m)):
                        self.keys[f"{kind}:{o}:{f}:{c}"] = (kind, o, f, c)
        for c in range(6):
            self.keys[f"INJ:0:Z0:{c}"] = ("INJ", 0, "Z0", c)
        self.init = self.vals()

    def raw(self):
        out = {}
        for k, (kind, o, f, c) in self.keys.items():
            if kind == "INJ":
                out[k] = float(self.sc.INJ.Z0[c] - self.sc.INJ.Z0ideal[c])
            else:
                v = np.ravel(getattr(self.sc.RING[o], ATTR.get(f, f), 0.0))
                out[k] = float(v[c]) if c < len(v) else 0.0
        return out

    def vals(self):
        return {k: self.num(v) for k, v in self.raw().items()}

    @staticmethod
    def num(v, u=U24):
        return int(round(v * u)) if np.isfinite(v) and abs(v * u) < 9e8 else 999999999

    def zid(self, v, s):
        return self.ids.setdefault(round(v / s, 12), len(self.ids) + 1)

    def sups(self):
        s = np.cumsum([0.0] + [float(e.Length) for e in self.sc.RING])
        out = []
        for kind, a, b in self.pairs:
            ra, rb = self.sc.RING[a], self.sc.RING[b]
            L = (s[b] - s[a]) % s[-1]
            v = lambda e, f: [self.num(x, U20) for x in getattr(e, kind + f)]
            out.append(dict(kind=kind, a=a, b=b, L=int(round(L * 64)), o0=v(ra, "Offset"), o1=v(rb, "Offset"), r=v(ra, "Roll")))
        return out

    def step(self, op, fn, **f):
        exc = ""
        try:
            fn()
        except Exception as ex:  # noqa
            exc = type(ex).__name__
        st = dict(op=op, exc=exc, vals=self.vals(), sup=self.sups(), sig={}, z={}, **f)
        self.steps.append(st)
        return st

    def digest(self):
        return [rdig(e) for e in self.sc.RING]

    # ------------------------------------------------------------------ uncertainties
    def draw_sigmas(self, kind, o):
        """random uncertainties of one element: field -> (value array or scalar, own cutoff or None)"""
        fields = {}
        for k, (kk, oo, f, c) in self.keys.items():
            if (kk, oo) == (kind, o):
                fields.setdefault(f, []).append(c)
        out = {}
        for f, comps in fields.items():
            if self.r.random() < 0.45:
                continue
            if kind in ("RF",) or f in ("Roll", "SumError", "BendingAngle"):
                v = self.r.choice([0.0, 0.125, 0.25, 0.5])
            else:
                v = np.array([self.r.choice([0.0, 0.125, 0.25, 0.5]) for _ in comps])
            out[f] = (v, self.r.choice([None, None, 0.5, 1.5, 3.0]) if "Noise" not in f else None)
        return out

    def register(self, kind, ords):
        sg = self.draw_sigmas(kind, ords[0])
        kw = {f: (v if c is None else [v, c]) for f, (v, c) in sg.items()}
        sig = {}
        for o in ords:
            for f, (v, c) in sg.items():
                for j, x in enumerate(np.ravel(v)):
                    sig[f"{kind}:{o}:{f}:{j}"] = dict(s=int(x * U24), c=-1 if c is None else int(c * 16))
        self.sig.update(sig)
        fn = dict(BPM=self.sc.register_bpms, RF=self.sc.register_cavities, Magnet=self.sc.register_magnets)[kind]
        if kind == "Magnet" and self.r.random() < 0.5:
            kw.update(HCM=np.inf, VCM=np.inf)
        if kind == "Magnet" and ords == self.bend and self.r.random() < 0.6:
            kw.update(CF=1, MasterOf=np.array([[self.bend[0] + 1]]))
        self.step("reg", lambda: fn(np.array(ords), **kw), els=[f"{kind}:{o}" for o in ords])["sig"] = sig

    def register_all(self):
        todo = []
        for kind, pool in (("BPM", self.bpm), ("RF", self.rf)):
            for o in pool:
                todo.append((kind, [o]))
        if self.r.random() < 0.85:
            for o in self.mag:
                todo.append(("Magnet", [o]))
        self.r.shuffle(todo)
        # some elements of the same make are registered together
        like = lambda kind, o: (kind, o in self.bend, len(self.lat[o].PolynomB) if kind == "Magnet" else 0)
        while len(todo) > 1 and self.r.random() < 0.6:
            kind, ords = todo.pop()
            for k2, o2 in todo:
                if like(k2, o2[0]) == like(kind, ords[0]) and o2 != ords and kind == k2:
                    todo.remove((k2, o2))
                    ords = ords + o2
                    break
            todo.insert(0, (kind, ords))
        for kind, ords in todo[:self.r.randint(min(4, len(todo)), len(todo))]:
            self.register(kind, ords)
            if len(ords) > 1 and self.r.random() < 0.5:
                self.register(kind, self.r.sample(ords, 1))
        if self.r.random() < 0.75:
            free = [i for i in range(len(self.lat))]
            self.r.shuffle(free)
            free = free[:8]
            for kind in ("Girder", "Plinth", "Section"):
                if len(free) < 2 or (kind != "Girder" and self.r.random() < 0.5):
                    continue
                a, b = free.pop(), free.pop()
                s = np.cumsum([0.0] + [float(e.Length) for e in self.lat])
                if s[a] == s[b]:
                    continue
                two = self.r.random() < 0.5
                row = lambda: [self.r.choice([0.0, 0.125, 0.25]) for _ in range(3)]
                off = np.array([row(), row()]) if two else np.array(row())
                roll = np.array([self.r.choice([0.0, 0.125]), 0.0 if two else self.r.choice([0.0, 0.125]), 0.0 if two else self.r.choice([0.0, 0.125])])
                kw, sig = {}, {}
                cut = self.r.choice([None, None, 1.0])
                if self.r.random() < 0.85:
                    kw["Offset"] = off if cut is None else [off, cut]
                    for j in range(3):
                        sig[f"SUP:{kind}:{a}:Offset:{j}"] = dict(s=int((off[0] if two else off)[j] * U24), c=-1 if cut is None else 16)
                        if two:
                            sig[f"SUP:{kind}:{b}:Offset:{j}"] = dict(s=int(off[1][j] * U24), c=-1 if cut is None else 16)
                if self.r.random() < 0.7 or not kw:
                    kw["Roll"] = roll
                    for j in range(3):
                        sig[f"SUP:{kind}:{a}:Roll:{j}"] = dict(s=int(roll[j] * U24), c=-1)
                self.pairs.append((kind, a, b))
                self.sig.update(sig)
                self.step("reg", lambda: self.sc.register_supports(np.array([[a], [b]]), kind, **kw), els=[])["sig"] = sig
        if self.r.random() < 0.7:
            v = np.array([self.r.choice([0.0, 0.125, 0.25]) for _ in range(6)])
            rj = np.array([self.r.choice([0.0, 0.125, 0.25]) for _ in range(6)])
            ideal = np.array([self.r.choice([0.0, 0.5, -0.25]) for _ in range(6)])

            def setinj():
                self.sc.SIG.staticInjectionZ, self.sc.SIG.randomInjectionZ = v, rj
                self.sc.INJ.Z0ideal = ideal
                self.sc.INJ.Z0 = ideal.copy()
            sig = {f"INJ:0:Z0:{c}": dict(s=int(v[c] * U24), c=-1) for c in range(6)}
            self.sig.update(sig)
            self.step("sig", setinj)["sig"] = sig
        else:
            sig = {f"INJ:0:Z0:{c}": dict(s=0, c=-1) for c in range(6)}
            self.sig.update(sig)
            self.step("sig", lambda: None)["sig"] = sig

    def apply(self, nsig, circ):
        self.sc.SIG.Circumference = circ
        st = self.step("apply", (lambda: self.sc.apply_errors()) if nsig == 2 and self.r.random() < 0.5 else (lambda: self.sc.apply_errors(nsig)),
                       call=int(nsig * 16))
        raw = self.raw()
        z = {}
        for k, sg in self.sig.items():
            if sg["s"] and k in raw and "Noise" not in k:
                z[k] = self.zid(raw[k], sg["s"] / U24)
        for kind, a, b in self.pairs:
            o0, o1, r = (np.array(getattr(self.sc.RING[a], kind + "Offset")), np.array(getattr(self.sc.RING[b], kind + "Offset")),
                         np.array(getattr(self.sc.RING[a], kind + "Roll")))
            two = f"SUP:{kind}:{b}:Offset:0" in self.sig
            for j in range(3):
                for key, v in ((f"SUP:{kind}:{a}:Offset:{j}", o0[j] if two else (o0[j] + o1[j]) / 2), (f"SUP:{kind}:{b}:Offset:{j}", o1[j]),
                               (f"SUP:{kind}:{a}:Roll:{j}", r[j])):
                    if self.sig.get(key, dict(s=0))["s"]:
                        z[key] = self.zid(v, self.sig[key]["s"] / U24)
        L = float(sum(e.Length for e in self.sc.RING))
        if circ:
            z["CIRC"] = self.zid(L / self.L0 - 1, circ)
        st["z"] = z
        st["circ"] = self.num(L / self.L0 - 1)
        st["circsig"] = int(circ * U24)
        sig = self.sc.SIG.randomInjectionZ.copy()
        ok = np.array_equal(self.sc.INJ.randomInjectionZ, sig)
        self.sc.INJ.randomInjectionZ[0] += 1.0        # what is set for the injection must not reach the uncertainties
        ok = ok and np.array_equal(self.sc.SIG.randomInjectionZ, sig)
        self.sc.INJ.randomInjectionZ[0] -= 1.0
        st["rinj"] = bool(ok)

    def settle(self):
        d0 = self.digest()

        def call():
            self.sc.update_supports()
            self.sc.update_magnets()
            self.sc.update_cavities()
        st = self.step("settle", call)
        d1 = self.digest()
        st["same"] = d0 == d1 and st["exc"] == ""
        st["what"] = f"elements {[k for k in range(len(d0)) if d0[k] != d1[k]]} {st['exc']}"

    def zero_sigmas(self):
        z = lambda v: [v[0] * 0.0, v[1]] if isinstance(v, list) else v * 0.0
        keep = {}
        for kind in ("BPM", "RF", "Magnet", "Support"):
            for o in self.sc.SIG[kind]:
                for f in list(self.sc.SIG[kind][o]):
                    keep[kind, o, f] = self.sc.SIG[kind][o][f]
                    self.sc.SIG[kind][o][f] = z(self.sc.SIG[kind][o][f])
        keep["inj"] = self.sc.SIG.staticInjectionZ
        self.sc.SIG.staticInjectionZ = np.zeros(6)
        keep["rinj"] = self.sc.SIG.randomInjectionZ
        self.sc.SIG.randomInjectionZ = np.zeros(6)
        return keep

    def restore_sigmas(self, keep):
        for key, v in keep.items():
            if key == "inj":
                self.sc.SIG.staticInjectionZ = v
            elif key == "rinj":
                self.sc.SIG.randomInjectionZ = v
            else:
                self.sc.SIG[key[0]][key[1]][key[2]] = v

    def sigstep(self, fn, zero, saved=None):
        out = {}

        def call():
            out["keep"] = fn()
        st = self.step("sig", call)
        sig = {k: dict(s=0, c=v["c"]) for k, v in self.sig.items()} if zero else saved
        self.sig = dict(sig)
        st["sig"] = sig
        return out["keep"]

    def mult(self):
        reg = [int(o) for o in self.sc.ORD.Magnet]
        if not reg:
            return
        ords = self.r.sample(reg, self.r.randint(1, min(3, len(reg))))
        if self.r.random() < 0.4:
            ords = reg[:1]
        rows = self.r.randint(1, 4)
        tab = np.array([[self.r.choice([0.0, 0.25, 0.5]), self.r.choice([0.0, 0.125, 0.5])] for _ in range(rows)])
        get = lambda o, f: np.ravel(getattr(self.sc.RING[o], f, np.zeros(0)))
        pad = lambda v: np.r_[v, np.zeros(8)][:8]
        b = {(o, f): pad(get(o, f)) for o in ords for f in ("PolynomAOffset", "PolynomBOffset")}
        st = self.step("mult", lambda: self.sc.set_random_multipole_errors(np.array(ords), tab))
        d = []
        for o in ords:
            for j, f in enumerate(("PolynomBOffset", "PolynomAOffset")):
                diff = pad(get(o, f)) - b[o, f]
                for k in range(8):
                    s = tab[k, j] if k < rows else 0.0
                    d.append(dict(ord=o, c=f"{f}[{k}]", v=self.num(diff[k]), s=int(s * U24), z=self.zid(diff[k], s) if s else 0))
        st["d"] = d


def one(job):
    seed, variant, n, mode = job
    r = Rec(seed, variant)
    r.register_all()
    rr = r.r
    if mode == "zero":
        saved = dict(r.sig)
        keep = r.sigstep(r.zero_sigmas, True)
        f0 = [pj.nums(np.r_[np.ravel(getattr(e, "PolynomA", [])), np.ravel(getattr(e, "PolynomB", []))], 2 ** 20) for e in r.sc.RING]
        r.apply(2, 0.0)
        f1 = [pj.nums(np.r_[np.ravel(getattr(e, "PolynomA", [])), np.ravel(getattr(e, "PolynomB", []))], 2 ** 20) for e in r.sc.RING]
        r.step("zero", lambda: None, same=f0 == f1, what="fields differ from the registered ones")
        ref = r.digest()
        for k in range(3):
            r.sigstep(lambda: r.restore_sigmas(keep), False, saved)
            for _ in range(rr.randint(1, 3)):
                r.apply(rr.choice([0.5, 1, 2, 3]), rr.choice([0.0, 0.0, 1 / 64]))
            r.settle()
            r.sigstep(r.zero_sigmas, True)
            r.apply(2, 0.0)
            d = r.digest()
            r.step("zero", lambda: None, same=d == ref, what=f"elements {[j for j in range(len(d)) if d[j] != ref[j]]}")
    else:
        for k in range(n):
            r.apply(rr.choice([0.5, 0.5, 1, 2, 2, 3]), rr.choice([0.0, 0.0, 1 / 64, 1 / 32]))
            if rr.random() < 0.6:
                r.settle()
            for _ in range(rr.choice([0, 0, 1, 3])):
                r.mult()
            if rr.random() < 0.2 and len(r.sc.ORD.Magnet):
                kind = rr.choice(["BPM", "RF", "Magnet"])
                pool = [o for o in dict(BPM=r.bpm, RF=r.rf, Magnet=r.mag)[kind]]
                r.register(kind, [rr.choice(pool)])
    return dict(init=r.init, steps=r.steps, seed=seed, mode=mode), {k: v for k, v in r.keys.items()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=8)
    ap.add_argument("--steps", type=int, default=6)
    a = ap.parse_args()
    jobs = [(a.seed * 7919 + k, k % 2, a.steps, "zero" if k % 3 == 2 else "rep") for k in range(a.n)]
    with multiprocessing.Pool(8) as pool:
        res = pool.map(one, jobs, chunksize=1)
    keys = {}
    for _, k in res:
        keys.update(k)
    json.dump(dict(traces=[t for t, _ in res], fields={k: v[2] for k, v in keys.items()}, kinds={k: v[0] for k, v in keys.items()},
                   elems={k: f"{v[0]}:{v[1]}" for k, v in keys.items()}), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
