"""Projection of real pySC objects onto the abstract state of spec/Core.tla."""
import copy
import hashlib
import re

import numpy as np

ONE = 4096
UNK, INF, NAN, BADV = 1999999999, 1888888888, 1777777777, 1666666666
SUP = ("Section", "Plinth", "Girder")
AT_OWN = {"Energy"}     # set by AT itself when it tracks


def num(v, one=ONE):
    v = float(v)
    if np.isnan(v):
        return NAN
    if np.isinf(v):
        return INF if v > 0 else -INF
    s = v * one
    if abs(s) > 9e8:
        return BADV
    r = int(round(s))
    return r if abs(s - r) <= 1e-6 else BADV


def nums(v, one=ONE):
    return [num(x, one) for x in np.ravel(np.asarray(v, dtype=float))]


def canon(v):
    """Canonical text of an arbitrary attribute value."""
    if isinstance(v, np.ndarray):
        return "a" + str(v.shape) + ("i" if v.dtype.kind in "iu" else v.dtype.kind) + repr([canon(x) for x in v.ravel().tolist()])
    if isinstance(v, (bool, np.bool_)):
        return "b" + str(bool(v))
    if isinstance(v, (int, np.integer)):
        return "i" + str(int(v))
    if isinstance(v, (float, np.floating)):
        return "f" + (float(v) + 0.0).hex()
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{canon(v[k])}" for k in sorted(v, key=repr)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if v is None or isinstance(v, str):
        return repr(v)
    return f"<{type(v).__name__}>"


def digest(v):
    return hashlib.sha1((v if isinstance(v, str) else canon(v)).encode()).hexdigest()[:16]


def state(el):
    """The attributes of an element that only change when something is done to it: AT's own ones and the order up to which
    the fields are used, which the first update of a registered magnet brings up to date, are left out."""
    return {a: copy.deepcopy(v) for a, v in elem_vars(el).items() if a not in AT_OWN and not (a == "MaxOrder" and hasattr(el, "SetPointB"))}


class Near:
    """Canonical text of a value, equal to another one when both agree up to the rounding of sums (a value that was changed
    and changed back, not one that was set back)."""
    NUM = re.compile(r"f(-?0x[0-9a-f.]+p[+-]\d+|-?inf|nan)")

    def __init__(self, v):
        text = v if isinstance(v, str) else canon(v)
        self.values = [float.fromhex(x) for x in self.NUM.findall(text)]
        self.form = self.NUM.sub("f", text)

    def __eq__(self, other):
        return self.form == other.form and all(
            a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b)) + 1e-14
            for a, b in zip(self.values, other.values))


def ncanon(v):
    """Canonical text that does not distinguish number types or containers."""
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{ncanon(v[k])}" for k in sorted(v, key=repr)) + "}"
    if isinstance(v, (np.ndarray, list, tuple)):
        try:
            a = np.asarray(v, dtype=float)
            return "n" + str(a.shape) + ",".join((x + 0.0).hex() for x in a.ravel().tolist())
        except (TypeError, ValueError):
            return "[" + ",".join(ncanon(x) for x in v) + "]"
    if isinstance(v, (bool, int, float, np.number, np.bool_)):
        return (float(v) + 0.0).hex()
    return canon(v)


def elem_vars(el):
    d = dict(vars(el))
    for k in ("PolynomA", "PolynomB", "KickAngle", "MaxOrder", "BendingAngle", "Length", "PassMethod", "FamName"):
        if k not in d and hasattr(el, k):
            d[k] = getattr(el, k)
    return d


def lattice_digest(ring):
    return digest("|".join(type(el).__name__ + canon({k: v for k, v in elem_vars(el).items() if k not in AT_OWN}) for el in ring)
                  + canon({k: v for k, v in vars(ring).items() if isinstance(v, (int, float, str))}))


KNOWN = {"PassMethod", "Length", "BendingAngle", "PolynomA", "PolynomB", "MaxOrder", "KickAngle",
         "NomPolynomA", "NomPolynomB", "SetPointA", "SetPointB", "CalErrorA", "CalErrorB", "PolynomAOffset", "PolynomBOffset",
         "SysPolAFromA", "SysPolAFromB", "SysPolBFromA", "SysPolBFromB", "BendingAngleError", "CombinedFunction",
         "CMlimit", "SkewQuadLimit", "MasterOf", "MagnetOffset", "MagnetRoll", "SupportOffset", "SupportRoll", "T1", "T2",
         "R1", "R2", "Noise", "NoiseCO", "Offset", "Roll", "CalError", "SumError"} \
    | {f"{t}{f}" for t in SUP for f in ("Offset", "Roll")} \
    | {f"{p}{s}" for p in ("Voltage", "Frequency", "TimeLag") for s in ("", "SetPoint", "Offset", "CalError")}


def proj_element(el):
    d = elem_vars(el)
    g = d.get
    isbpm = "SumError" in d
    ismag = "NomPolynomB" in d
    isrf = "FrequencySetPoint" in d
    e = dict(cls=type(el).__name__, pm=str(g("PassMethod")), L=num(g("Length", 0.0)), ang=num(g("BendingAngle", 0.0)),
             hang="BendingAngle" in d, hrf="Frequency" in d,
             PA=nums(g("PolynomA", [])), PB=nums(g("PolynomB", [])), MO=int(g("MaxOrder", -1)), KA=nums(g("KickAngle", [])),
             NA=nums(g("NomPolynomA", [])), NB=nums(g("NomPolynomB", [])), SA=nums(g("SetPointA", [])), SB=nums(g("SetPointB", [])),
             CA=nums(g("CalErrorA", [])), CB=nums(g("CalErrorB", [])),
             hoff="PolynomBOffset" in d or "PolynomAOffset" in d, OA=nums(g("PolynomAOffset", [])), OB=nums(g("PolynomBOffset", [])),
             bae=num(g("BendingAngleError", 0.0)), hbae="BendingAngleError" in d, cf=bool(g("CombinedFunction", False)),
             lim=nums(g("CMlimit", [])), skl=nums([d["SkewQuadLimit"]]) if "SkewQuadLimit" in d else [],
             kids=[int(x) for x in np.ravel(g("MasterOf", []))], ismag=ismag, isbpm=isbpm, isrf=isrf,
             mo=nums(g("MagnetOffset", [])), mr=nums(g("MagnetRoll", [])),
             so=nums(g("SupportOffset", [])) if not isbpm else [], sr=nums(g("SupportRoll", [])) if not isbpm else [],
             t1=nums(g("T1", [])), t2=nums(g("T2", [])), rr=digest([g("R1"), g("R2")]))
    e["sys"] = [dict(t=t, s=s, n=int(n), c=nums(d[f"SysPol{t}From{s}"][n]))
                for t in "AB" for s in "AB" if f"SysPol{t}From{s}" in d for n in sorted(d[f"SysPol{t}From{s}"])]
    if isbpm:
        e["bpm"] = dict(noise=nums(g("Noise")), noiseco=nums(g("NoiseCO")), off=nums(g("Offset")), supoff=nums(g("SupportOffset")),
                        roll=num(g("Roll")), suproll=num(g("SupportRoll")), cal=nums(g("CalError")), sum=num(g("SumError")))
    else:
        e["bpm"] = dict(noise=[], noiseco=[], off=[], supoff=[], roll=0, suproll=0, cal=[], sum=0)
    e["rf"] = {k: dict(v=num(g(p, 0.0)), sp=num(g(p + "SetPoint", 0.0)), off=num(g(p + "Offset", 0.0)), cal=num(g(p + "CalError", 0.0)))
               for k, p in (("V", "Voltage"), ("F", "Frequency"), ("P", "TimeLag"))}
    e["sup"] = {t: dict(has=f"{t}Offset" in d, off=nums(g(f"{t}Offset", [])), roll=nums(g(f"{t}Roll", []))) for t in SUP}
    e["rest"] = digest({k: v for k, v in d.items() if k not in KNOWN and k not in AT_OWN})
    e["raw"] = digest(ncanon({k: v for k, v in d.items() if k != "PassMethod" and k not in AT_OWN}))
    return e


def proj_sig(sig):
    out = []
    for kind in ("BPM", "RF", "Magnet", "Support"):
        for o in sig[kind].keys():
            for f, v in sig[kind][o].items():
                out.append([kind, int(o), f, canon(v)])
    return sorted(out, key=repr)


def proj_inj(inj):
    d = dict(vars(inj))
    pf = d.pop("postFun", None)
    return digest(canon(d) + str(getattr(pf, "__name__", pf)))


def coupled(*parts):
    """Settings that change when another one is changed in place."""
    named = [(f"{type(p).__name__}.{k}", v) for p in parts for k, v in (p if isinstance(p, dict) else vars(p)).items() if isinstance(v, (np.ndarray, dict))]
    out = []
    for n, v in named:
        before = [canon(w) for _, w in named]
        if isinstance(v, dict):
            v["__probe"] = 1
        else:
            v += 1
        out += [f"{n}-{m}" for (m, w), b in zip(named, before) if m != n and canon(w) != b]
        if isinstance(v, dict):
            del v["__probe"]
        else:
            v -= 1
    return out


def proj_fresh(sc):
    """What a new machine assumes when nothing was said."""
    i, g = sc.INJ, sc.SIG
    probe = np.arange(12.0).reshape(6, 2)
    return dict(Z0=nums(i.Z0), Z0ideal=nums(i.Z0ideal), size=nums(i.beamSize), shape=[int(x) for x in np.shape(i.beamSize)], jitter=nums(i.randomInjectionZ),
                n=[int(i.nParticles), int(i.nTurns), int(i.nShots)], lost=num(i.beamLostAt), mode=str(i.trackMode), post=bool(np.array_equal(i.postFun(probe), probe)),
                sigjitter=nums(g.randomInjectionZ), sigstatic=nums(g.staticInjectionZ), circ=num(g.Circumference), plot=bool(sc.plot), coupled=coupled(i, g, sc.ORD), ring=lattice_digest(sc.RING))


def proj_top(sc, user):
    ints = lambda a: [int(x) for x in np.ravel(a)]
    pairs = lambda a: [[int(x), int(y)] for x, y in np.asarray(a).T]
    o = sc.ORD
    other = {k: v for k, v in vars(sc).items() if k not in ("RING", "IDEALRING", "INJ", "SIG", "ORD")}
    osig = {k: v for k, v in sc.SIG.items() if k not in ("BPM", "RF", "Magnet", "Support")}
    sigkeys = {k: sorted(map(str, sc.SIG[k].keys())) for k in ("BPM", "RF", "Magnet", "Support")}
    return dict(BPM=ints(o.BPM), RF=ints(o.RF), Mag=ints(o.Magnet), Skew=ints(o.SkewQuad), HCM=ints(o.HCM), VCM=ints(o.VCM),
                Girder=pairs(o.Girder), Plinth=pairs(o.Plinth), Section=pairs(o.Section), sig=proj_sig(sc.SIG),
                inj=proj_inj(sc.INJ), user=lattice_digest(user), ideal=lattice_digest(sc.IDEALRING),
                shp=[str(np.shape(sc.INJ.beamSize)), str(np.shape(sc.SIG.randomInjectionZ)), str(np.shape(sc.SIG.staticInjectionZ))],
                other=digest(canon(other) + canon(osig) + canon({k: v for k, v in vars(sc.RING).items() if isinstance(v, (int, float, str))})
                             + str(len(sc.RING))))


def proj_machine(sc, user):
    m = proj_top(sc, user)
    m["el"] = [proj_element(el) for el in sc.RING]
    return m


def delta(old, new):
    els = [[k, e] for k, (e0, e) in enumerate(zip(old["el"], new["el"])) if e0 != e]
    top = {k: v for k, v in new.items() if k != "el"}
    return dict(els=els, top=[] if all(old[k] == v for k, v in top.items()) else [top])
