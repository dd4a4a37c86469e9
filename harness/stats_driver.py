"""Runs the weighted and circular statistics on tables of integers (for spec/StatsTrace.tla)."""
import argparse
import copy
import json
import os
import random
import sys
import warnings

sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))
import numpy as np  # noqa: E402

from pySC.utils import stats  # noqa: E402

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
NAN, BAD = 1777777777, 1666666666


def out(v, unit):
    res = []
    for x in np.ravel(np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)):
        res.append(NAN if np.isnan(x) else BAD if abs(x * unit) > 1.5e9 else int(round(float(x) * unit)))
    return res


def table(r, wide):
    rows = r.choice([1, 1, 2, 3])
    cols = r.randint(1, 6 if rows == 1 else 4)
    top = 40 if wide else 12
    n = rows * cols
    st = dict(d=[[r.randint(-top, top) for _ in range(cols)] for _ in range(rows)], k=[[r.choice([0, 1, 2]) for _ in range(cols)] for _ in range(rows)],
              miss=[[False] * cols for _ in range(rows)], weighted=r.random() < 0.6, axis=2 if rows == 1 else r.choice([0, 1, 2]), exc="", ret=[], circ=False)
    if n > 6 and st["axis"] == 2:
        st["axis"] = r.choice([0, 1])
    if st["weighted"] and r.random() < 0.15:
        st["k"][r.randrange(rows)][r.randrange(cols)] = -1
    return st, rows, cols


def call(r, st, rows, cols, f, data, errors, post, **kw):
    flat = rows == 1 and r.random() < 0.7
    if flat:
        data, errors = data[0], errors[0]
    if flat:
        axis = r.choice([None, 0, -1])
    else:
        axis = {0: r.choice([0, -2]), 1: r.choice([1, -1]), 2: r.choice([None, (0, 1)])}[st["axis"]]
    if st["weighted"]:
        kw["errors"] = errors
    if axis is not None or r.random() < 0.5:
        kw["axis"] = axis
    data0, kw0 = data.copy(), copy.deepcopy(kw)
    try:
        st["ret"] = post(f(data, **kw))
    except Exception as ex:  # noqa
        st["exc"] = type(ex).__name__
    st["oth"] = bool(np.array_equal(data, data0, equal_nan=True) and ("errors" not in kw or np.array_equal(kw["errors"], kw0["errors"], equal_nan=True)))
    return st


def angles(r, f, P):
    """on a circle of length P, or on one of 2 pi radians"""
    if r.random() < 0.6:
        return lambda data, **kw: f(data, period=P, **kw)
    rad = 2 * np.pi / P

    def inner(data, errors=None, **kw):
        x = data * rad
        if errors is not None:
            kw["errors"] = errors * rad
        if r.random() < 0.2:
            kw["period"] = 2 * np.pi
        return f(x, **kw) / rad
    return inner


def arrays(r, st, shift=None):
    d, k, miss = np.array(st["d"], dtype=float), np.array(st["k"]), np.array(st["miss"])
    e = 0.5 ** np.maximum(k, 0)
    e[k < 0] = r.choice([0.0, np.nan])
    if shift is not None:
        d = d + shift
    d[miss] = np.nan
    if miss.any() and r.random() < 0.5:                                   # nobody looks at the error of a missing value
        e[miss] = r.choice([np.nan, 0.0, 64.0])
    return d, e


def lose(r, st, rows, cols, keep_one):
    for a in range(rows):
        for b in range(cols):
            st["miss"][a][b] = r.random() < 0.3
    if keep_one:
        for a in range(rows):
            st["miss"][a][a % cols] = False
        for b in range(cols):
            st["miss"][b % rows][b] = False
    if not any(not x for m in st["miss"] for x in m):
        st["miss"][0][0] = False


def step(r):
    op = r.choice(["mean", "mean", "rms", "err", "err", "tfac", "ess", "mirror", "mirror", "tight", "tight", "bound"])
    st, rows, cols = table(r, op in ("mean", "rms"))
    st.update(op=op)
    if op in ("mean", "rms"):
        miss = r.random() < 0.5
        if miss:
            lose(r, st, rows, cols, r.random() < 0.7)
        name = {"mean": "weighted_nanmean" if miss else "weighted_mean", "rms": "weighted_nanrms" if miss else "weighted_rms"}[op]
        if op == "rms" and not miss and not st["weighted"] and r.random() < 0.7:
            name = "rms"
        st["f"] = name
        d, e = arrays(r, st)
        return call(r, st, rows, cols, getattr(stats, name), d, e, lambda v: out(v if op == "mean" else np.ma.asarray(v) ** 2, 4096))
    if op == "err":
        st["f"] = "weighted_error"
        d, e = arrays(r, st)
        return call(r, st, rows, cols, stats.weighted_error, d, e, lambda v: out(np.ma.asarray(v) ** 2, 256), t_value_corr=False)
    if op == "tfac":
        st["weighted"] = False
        for a in range(rows):                                             # no group with all values equal
            for b in range(cols):
                st["d"][a][b] = 5 * a + 3 * b + a * b
        circ = r.random() < 0.5
        name = r.choice(["circular_error", "circular_nanerror"]) if circ else "weighted_error"
        lone = rows * cols == 1 or (st["axis"] == 1 and cols == 1) or (st["axis"] == 0 and rows == 1)
        if lone:
            return None
        st["f"], f = name, getattr(stats, name)
        if circ:
            f = angles(r, f, 2 ** 15)
        if name == "circular_nanerror" and (rows > 2 or rows == 1) and cols > 2:
            if r.random() < 0.7:        # two values remain in every row and column
                st["miss"][r.randrange(rows)][r.randrange(cols)] = True
        d, e = arrays(r, st)

        def both(data, **kw):
            return f(data, **({} if r.random() < 0.5 else dict(t_value_corr=True)), **kw) / f(data, t_value_corr=False, **kw)
        return call(r, st, rows, cols, both, d, e, lambda v: out(v, 4096))
    if op == "ess":
        st["f"] = "effective_sample_size"
        d, e = arrays(r, st)
        if (np.array(st["k"]) < 0).any():
            st["weighted"] = False
        w = r.random() < 0.5

        def ess(data, errors=None, **kw):
            return stats.effective_sample_size(data, stats.weights_from_errors(errors) if w or errors is None else 1 / errors ** 2, **kw)
        return call(r, st, rows, cols, ess, d, e, lambda v: out(v, 4096))
    if op == "mirror":
        st["P"] = r.choice([24, 60, 90, 360])
        st["c"] = r.randint(-2 * st["P"], 2 * st["P"])
        vals = []
        for _ in range(r.randint(1, 3)):
            a, k, m = r.randint(0, st["P"] // 4 - 1), r.choice([0, 1, 2]), r.random() < 0.2
            vals += [(st["c"] - a, k, m), (st["c"] + a, k, m)]
        if all(v[2] for v in vals) or r.random() < 0.5:
            vals.append((st["c"], r.choice([0, 1, 2]), False))
        r.shuffle(vals)
        rows, cols, st["axis"] = 1, len(vals), 2
        miss = any(v[2] for v in vals)
        st["d"], st["k"], st["miss"] = [[v[0] for v in vals]], [[v[1] for v in vals]], [[v[2] for v in vals]]
        st["f"] = "circular_nanmean" if miss or r.random() < 0.3 else "circular_mean"
        d, e = arrays(r, st, st["P"] * np.array([[r.randint(-2, 2) for _ in vals]]))
        return call(r, st, rows, cols, angles(r, getattr(stats, st["f"]), st["P"]), d, e, lambda v: out(v, 4096))
    if op == "tight":                                                     # values close together on a large circle: as on a line
        P = 2 ** 15
        st["circ"], mean = True, r.random() < 0.4
        miss = r.random() < 0.5
        if miss:
            lose(r, st, rows, cols, True)
        st["op"], st["f"] = ("mean", "circular_" + ("nan" if miss else "") + "mean") if mean else ("err", "circular_" + ("nan" if miss else "") + "error")
        d, e = arrays(r, st, P * np.array([[r.randint(-2, 2) for _ in range(cols)] for _ in range(rows)]))
        kw = {} if mean else dict(t_value_corr=False)
        return call(r, st, rows, cols, angles(r, getattr(stats, st["f"]), P), d, e, (lambda v: out(v, 4096)) if mean else (lambda v: out(np.ma.asarray(v) ** 2, 256)), **kw)
    st["P"] = r.choice([24, 60, 90, 360])
    st["f"] = "circular_error"
    st["d"] = [[r.randint(-st["P"], st["P"]) for _ in range(cols)] for _ in range(rows)]
    d, e = arrays(r, st)
    return call(r, st, rows, cols, angles(r, stats.circular_error, st["P"]), d, e, lambda v: out(v, 4096), **({} if r.random() < 0.5 else dict(t_value_corr=False)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=40)
    a = ap.parse_args()
    traces = []
    for k in range(a.n):
        r = random.Random(a.seed * 7919 + k)
        steps = [s for s in (step(r) for _ in range(8)) if s]
        traces.append(dict(steps=steps))
    json.dump(dict(traces=traces), open(a.out, "w"), separators=(",", ":"))


if __name__ == "__main__":
    main()
