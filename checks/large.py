"""The same properties at sizes that small generated cases do not reach.

Cases are a size, a seed and options; the data is made from the seed in the
check, mostly as a (large) case of the check for small problems.  Used by run.py,
which adds EXTRA[id] to the sub-checks of a property.
"""
import math
import random

import mlpaper.boot_util as bu
import mlpaper.classification as cl
import mlpaper.data_splitter as ds
import mlpaper.perf_curves as pc  # noqa: F401
import mlpaper.util as util
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import classif, curves, fmt, misc, regr, split, stats
from harness.core import Sub, expect
from harness.gen import as_arr, confidence, expect_all_near, expect_near, rng_state, seeds

sizes = st.one_of(st.integers(257, 1100), st.integers(1100, 3000), st.sampled_from([256, 257, 500, 512, 1000, 1001, 1024, 1025, 2000, 2048, 4096, 5000]))
more = st.one_of(sizes, sizes, st.sampled_from([6000, 10001, 12000, 20000]))


def case_of(**kw):
    """Strategy of a dict with a size and a seed."""
    d = {"n": sizes, "seed": seeds}
    d.update(kw)
    return lambda: st.fixed_dictionaries(d)


def rs(case):
    return np.random.RandomState(case["seed"])


def py_names(k, seed, pre="m"):
    v = ["%s%d" % (pre, i) for i in range(k)]
    random.Random(seed).shuffle(v)
    return v


# ---------------------------------------------------------------- classification, regression


def class_big(case):
    k = max(1, min(case["k"], 40000 // case["n"]))
    return {"big": {"n": case["n"], "k": k, "seed": case["seed"], "scale": case["scale"]}, "ydtype": "int64"}


def large_losses(case):
    return classif.check_losses(class_big(case))


def many_labels(case):
    return classif.check_losses({"big": {"n": case["n"], "k": case["k"], "seed": case["seed"], "scale": case["scale"]}, "ydtype": "int64"})


def large_hard(case):
    c = class_big(case)
    k = c["big"]["k"]
    r = rs(case)
    c["mat"] = None if case["act"] is None else r.randint(-5, 6, size=(k, case["act"])).tolist()
    c["as_float"] = bool(case["seed"] % 2)
    return classif.check_hard(c)


def large_class_table(case):
    n, k = case["n"], case["k"]
    m = py_names(case["m"], case["seed"])
    r = rs(case)
    return classif.check_table(
        {
            "methods": m,
            "k": k,
            "y": r.randint(0, k, size=n).tolist(),
            "rows": [(3.0 * r.randn(n, k)).tolist() for _ in m],
            "metrics": ["NLL"] if case["n"] * case["m"] > 20000 else sorted(classif.METRIC_FS),
            "index": "rev" if case["seed"] % 2 else "gap",
            "shift": r.choice([0.0, -3.0, 100.0, 2.5], size=n).tolist(),
            "mode": ["plain", "kw", "assume"][case["seed"] % 3],
        }
    )


def large_class_pred(case):
    n, k, m = case["n"], case["k"], case["m"]
    meth = py_names(m, case["seed"])
    r = rs(case)
    n_test = n if case["seed"] % 2 else 1 + n // 50
    return classif.check_pred(
        {
            "methods": meth,
            "k": k,
            "modes": r.choice(["log", "proba", "raises"], size=m).tolist(),
            "rows": [(4.0 * r.randn(n_test, k)).tolist() for _ in meth],
            "y": r.randint(0, k, size=n).tolist(),
            "bool_y": False,
            "n_test": n_test,
            "d": 2,
            "seed": case["seed"],
            "floor": [None, -5.0, -1.0][case["seed"] % 3],
            "extra_dim": False,
            "nan": None,
            "verbose": False,
            "fail": ["fit", "ValueError"],
        }
    )


def large_class_noise(case):
    r = rs(case)
    k = case["k"]
    return classif.check_noise({"k": k, "y": np.minimum(k - 1, r.randint(0, k + 3, size=case["n"])).tolist(), "bool_y": False, "pc": [0.0, 1.0, 0.5][case["seed"] % 3], "n_test": 3, "floor": None})


def large_regr_losses(case):
    r = rs(case)
    n = case["n"]
    mu = r.randn(n) * 10.0
    return regr.check_losses({"y": (mu + r.randn(n)).tolist(), "mu": mu.tolist(), "std": np.exp(2.0 * r.randn(n)).tolist(), "copy": 3, "rep": 1, "int_y": bool(case["seed"] % 2)}) + ["large"]


def large_regr_table(case):
    r = rs(case)
    n = case["n"]
    meth = py_names(case["m"], case["seed"])
    return regr.check_table(
        {
            "methods": meth,
            "y": r.randn(n).tolist(),
            "mu": [r.randn(n).tolist() for _ in meth],
            "std": [np.exp(r.randn(n)).tolist() for _ in meth],
            "metrics": ["MAE", "MSE", "NLL"],
            "order": ["std", "mu"] if case["seed"] % 2 else ["mu", "std"],
            "index": "rev" if case["seed"] % 2 else "gap",
            "bad": ["std0", "stdneg", "nanmu", "infmu", "nanstd", "infstd", "ynan", "ylen"][case["seed"] % 8],
            "bad_m": case["seed"] % case["m"],
            "bad_i": case["seed"] % n,
        }
    )


def large_regr_pred(case):
    r = rs(case)
    n = case["n"]
    meth = py_names(case["m"], case["seed"])
    n_test = n if case["seed"] % 2 else 1 + n // 50
    return regr.check_pred(
        {
            "methods": meth,
            "has_std": [bool(v) for v in r.randint(0, 2, size=case["m"])],
            "mu": [r.randn(n_test).tolist() for _ in meth],
            "std": [np.exp(r.randn(n_test)).tolist() for _ in meth],
            "y": r.randn(n).tolist(),
            "d": 2,
            "seed": case["seed"],
            "floor": [None, 0.5, 2.0][case["seed"] % 3],
            "nan": None,
            "verbose": False,
            "fail": "fit",
            "exc": "ValueError",
            "mu_dtype": "float64",
        }
    )


def large_regr_noise(case):
    r = rs(case)
    return regr.check_noise({"y": (r.randn(case["n"]) * r.choice([1.0, 100.0]) + r.choice([0.0, 50.0])).tolist(), "rep": 1, "n_test": 4, "floor": None, "int_y": False})


# ---------------------------------------------------------------- error bars and tests


def vec_of(case):
    return {"n": case["n"], "seed": case["seed"], "kind": case["kind"]}


kinds = st.sampled_from(["normal", "dyadic", "skew", "binary", "const0"])


def large_t(case):
    return stats.check_t({"x": vec_of(case), "conf": case["conf"], "conf2": 0.5, "shift": 0.25, "scale": 3.0, "as_list": False, "const": False, "pow": 0})


def large_bern(case):
    return stats.check_bern({"x": vec_of(case), "lo_gap": case["gap"], "hi_gap": case["gap"] / 2.0, "conf": case["conf"], "conf2": 0.5, "const": False, "zero_mean": False, "pow": 0})


def large_weights(case):
    lab = stats.check_weights({"n": case["n"], "b": case["b"], "eps": [0, 1e-10][case["seed"] % 2], "seed": case["seed"]})
    n, b = case["n"], case["b"]
    cnt = np.round(as_arr(bu.boot_weights(n, b), (b, n), "weights").astype(float))
    # Counts of different points are those of a multinomial: pairs have covariance -1/n
    Z = cnt - 1.0
    for lag in (1, 2, n // 2, n - 1):
        v = float(np.sum(Z * np.roll(Z, lag, axis=1)))
        want, sd = -float(b), math.sqrt(2.0 * n * b) * 1.5
        expect(abs(v - want) < 9.0 * sd, "counts of points %d apart are dependent: %r, expected %r +- %r", lag, v, want, sd)
    for lag in (1, 2, b // 2, b - 1):
        if lag < 1 or lag >= b:
            continue
        v = float(np.sum(Z[lag:] * Z[:-lag]))
        sd = math.sqrt((b - lag) * float(n))
        expect(abs(v) < 9.0 * sd + 60.0, "replications %d apart are dependent: %r on a scale of %r", lag, v, sd)
    # Variance of counts: chi square per replication has mean n - 1 and variance 2 (n - 1)
    q = np.sum(Z * Z, axis=1)
    expect(abs(float(np.mean(q)) - (n - 1.0)) < 9.0 * math.sqrt(2.0 * (n - 1) / b), "spread of the counts is %r instead of %r", float(np.mean(q)), n - 1)
    return lab + ["large"]


def large_boot_stream(case):
    return stats.check_boot_stream({"x": vec_of(case), "conf": case["conf"], "n_boot": case["b"], "seed": case["seed"], "pow": 0})


def clt_boot(case):
    """With many points the bootstrap is close to the normal interval."""
    import mlpaper.mlpaper as bt

    x = rs(case).randn(case["n"]) + case["mu"] / math.sqrt(case["n"])
    conf = case["conf"]
    z = float(stats.stdtrit(1e8, 0.5 + 0.5 * conf))
    se = float(np.std(x)) / math.sqrt(len(x))
    EB = float(bt.boot_EB(x, confidence=conf))
    # Quantile of 1000 replications: density at the quantile gives its spread
    dens = math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)
    t = 8.0 * math.sqrt(0.5 * (1 - conf) * (0.5 + 0.5 * conf) / 1000.0) / dens + 0.1
    expect(se * max(0.0, z - t) <= EB <= se * (z + t), "bootstrap error bar %r, normal approximation %r +- %r", EB, se * z, se * t)
    p = float(bt.boot_test(x))
    pn = 2.0 * float(stats.stdtr(1e8, -abs(float(np.mean(x))) / se))
    expect(abs(p - pn) < 16.0 * math.sqrt(0.25 / 1000.0) * math.sqrt(4.0 * max(pn, 0.02) * 0.5) + 0.05, "bootstrap p-value %r, normal approximation %r", p, pn)
    return ["normal"]


def large_coherent(case):
    return stats.check_coherent({"x": vec_of(case), "conf": case["conf"], "gap": 1.0, "seed": case["seed"], "shift": case["shift"], "pow": 0})


def large_mean(case):
    return stats.check_mean(
        {
            "x": vec_of(case),
            "lo_gap": case["gap"],
            "hi_gap": case["gap"],
            "conf": case["conf"],
            "method": case["method"],
            "min_EB": None,
            "seed": case["seed"],
            "const": False,
            "val": 0.1,
            "pow": 0,
            "default": False,
        }
    )


def large_summary(case):
    r = rs(case)
    n, m = case["n"], case["m"]
    # Small differences, or ones that even Bernstein's test can tell
    sd, sh = (1.0, 0.1) if case["seed"] % 2 else (0.1, 0.7)
    tbl = [[(sd * r.randn(n) + sh * j).tolist() for j in range(m)] for _ in range(case["k"])]
    meth = py_names(m, case["seed"])
    return stats.check_summary(
        {
            "methods": meth,
            "metrics": py_names(case["k"], case["seed"], "loss"),
            "tbl": tbl,
            "inf_at": None,
            "ref": meth[case["seed"] % m],
            "pairwise": [None, True, False][case["seed"] % 3],
            "conf": case["conf"],
            "method_EB": [None, "t", "bernstein"][(case["seed"] // 3) % 3],
            "limits": [[1.0, 2.0] if case["seed"] % 2 else [0.0, 0.0]] * case["k"],
            "order": ["product", "method_major", "reversed"][(case["seed"] // 9) % 3],
            "index": "range",
            "pow": [0] * case["k"],
        }
    )


def large_perc(case):
    return stats.check_perc(dict(case, inf=False, close=0.0, pow=0))


# ---------------------------------------------------------------- curves


def curve_data(case):
    r = rs(case)
    n = case["n"]
    y = r.rand(n) < case["prev"]
    y[0], y[1] = True, False
    s = r.randn(n) + y if not case["levels"] else r.randint(0, case["levels"], size=n) / 8.0
    W = np.ones((1, n)) if not case["rows"] else r.randint(1, 5, size=(case["rows"], n)).astype(float)
    return y, s, (None if not case["rows"] else W), W


def fast_counts(y, s, W):
    """Weight of negatives and positives at or above each threshold, by bisection."""
    thr = np.array([np.inf] + sorted(set(s.tolist()), reverse=True))
    out = []
    for sel in (~y, y):
        o = np.argsort(s[sel], kind="stable")
        v = s[sel][o]
        rows = []
        for w in W:
            tail = np.concatenate((np.cumsum(w[sel][o][::-1])[::-1], [0.0]))  # Integers: exact
            rows.append(tail[np.searchsorted(v, thr, side="left")])
        out.append(np.array(rows))
    return out[0], out[1], thr


def large_curves(case):
    y, s, w, W = curve_data(case)
    fp, tp, thr = fast_counts(y, s, W)
    arg = () if w is None else (w,)
    for name, f in curves.CURVES.items():
        x, v, t = curves.unpack(f(y, s, *arg), len(W), len(thr), name)
        expect(np.array_equal(t, thr), "%s thresholds", name)
        for r in range(len(W)):
            xr, yr = curves.ref_curve(name, fp[r], tp[r])
            expect(np.all(curves.close(x[r], xr, 1e-11)), "%s row %d: x differs from counting", name, r)
            expect(np.all(curves.close(v[r], yr, 1e-9)), "%s row %d: y differs from counting", name, r)
    return ["weighted" if case["rows"] else "unweighted", "ties" if case["levels"] else "distinct"]


def large_areas(case):
    y, s, w, W = curve_data(case)
    fp, tp, _ = fast_counts(y, s, W)
    for r in range(len(W)):
        # Pairs of a negative and a positive, by how often the positive is higher
        o = np.argsort(s[~y], kind="stable")
        v, cum = s[~y][o], np.concatenate(([0.0], np.cumsum(W[r][~y][o])))
        below, upto = cum[np.searchsorted(v, s[y], side="left")], cum[np.searchsorted(v, s[y], side="right")]
        auc = math.fsum(W[r][y] * (below + upto) / 2.0) / (float(np.sum(W[r][y])) * float(np.sum(W[r][~y])))
        got = curves.curve_area("roc", y, s, w)[r]
        expect_near(got, auc, "area under ROC, row %d" % r, atol=1e-9)
        for name in ("pr", "prg"):
            xr, yr = curves.ref_curve(name, fp[r], tp[r])
            d = np.diff(xr)
            want = -np.inf if np.any((d > 0) & np.isneginf(yr[:-1])) else math.fsum(a * b for a, b in zip(d.tolist(), yr[:-1].tolist()) if a > 0)
            expect_near(curves.curve_area(name, y, s, w)[r], want, "area under %s, row %d" % (name, r), rtol=1e-8, atol=1e-8)
    return ["weighted" if case["rows"] else "unweighted"]


def large_step(case):
    r = rs(case)
    m = case["n"]
    xp = r.permutation(4 * m)[:m] / 8.0
    return curves.check_step({"xp": xp.tolist(), "yp": r.randn(m).tolist(), "grid": [[float(v) / 16.0, 0] for v in r.randint(0, 8 * m, size=60)] + [["xp", int(v)] for v in r.randint(0, m, size=20)], "ival": 0.5, "flag": ["none", "sorted", "sorted_skip"][case["seed"] % 3], "intx": False})


def large_interp(case):
    r = rs(case)
    m = case["n"]
    rows = []
    for _ in range(2):
        x = np.sort(r.randint(0, 2 * m, size=m) / 8.0)
        x[0], x[-1] = 0.0, m / 4.0
        rows.append([np.sort(x).tolist(), r.randn(m).tolist()])
    c = {
        "rows": rows,
        "kind": ["linear", "previous"][case["seed"] % 2],
        "ninf": None,
        "grid": [[float(v), 0] for v in r.rand(30)] + [["xp", int(v)] for v in r.randint(0, 2 * m, size=20)],
        "one_d": False,
        "kw": True,
        "pows": [0, 0],
    }
    return curves.check_interp(c) + curves.check_areas(c)


def large_boot_curve(case):
    r = rs(case)
    n = case["n"]
    y = (r.rand(n) < 0.4).astype(int)
    y[0], y[1] = 1, 0
    s = (np.round(8 * (r.randn(n) + y)) if case["ties"] else r.randn(n) + y).astype(float)
    return curves.check_boot_curve(
        {
            "y": y.tolist(),
            "ydt": ["bool", "int64"][case["seed"] % 2],
            "s": s.tolist(),
            "col0": 0.0,
            "curve": case["curve"],
            "default_curve": True,
            "ref_kind": case["ref_kind"],
            "ref": (r.randn(n) + 0.8 * y).tolist() if case["ref_kind"] == "array" else 0.75,
            "grid": [0.0, 0.3, 0.7, 1.0] if case["seed"] % 3 else None,
            "n_boot": case["b"],
            "pairwise": bool(case["seed"] % 2),
            "conf": case["conf"],
            "seed": case["seed"],
        }
    )


# ---------------------------------------------------------------- printed tables


def float_cells(r, m, k):
    EB = 10.0 ** r.uniform(-4, 2, size=(m, k))
    mu = EB * r.randn(m, k) * 10.0 ** r.uniform(-1, 2, size=(m, k))
    return [[[float(a), float(b), float(c)] for a, b, c in zip(x, y, z)] for x, y, z in zip(mu, EB, r.rand(m, k))]


def wide_decimalize(case):
    c = {"methods": py_names(case["m"], case["seed"]), "metrics": py_names(case["k"], case["seed"], "loss"), "cells": float_cells(rs(case), case["m"], case["k"]), "perm": list(range(3 * case["k"]))}
    c.update(err_digits=None, pval_digits=None, default_digits=None, EB_limit={})
    return fmt.check_decimalize(c)


def wide_print(case):
    r = rs(case)
    k = case["k"]
    mets = py_names(k, case["seed"], "loss")
    c = {"methods": py_names(case["m"], case["seed"]), "metrics": mets, "cells": float_cells(r, case["m"], k), "perm": r.permutation(3 * k).tolist()}
    c.update(
        units={m: "s" for m in mets[::2]},
        mod=[1, 3][case["seed"] % 2],
        kmax={mets[0]: 1},
        kmin={},
        EB_limit={mets[-1]: -1},
        nf=None,
        tex=bool((case["seed"] // 2) % 2),
        prefix=bool((case["seed"] // 4) % 2),
    )
    return fmt.check_just(c)


# ---------------------------------------------------------------- splits


def col_of(r, n, kind):
    if kind == "unique":
        return {"kind": "int", "v": r.permutation(3 * n)[:n].tolist()}
    if kind == "dyadic":
        return {"kind": "dyadic", "v": (r.randint(-n, n, size=n) / 8.0).tolist()}
    if kind == "groups":
        return {"kind": "int", "v": r.randint(0, max(2, n // 5), size=n).tolist()}
    if kind == "str":
        return {"kind": "str", "v": ["g%d" % v for v in r.randint(0, n, size=n)]}
    return {"kind": "float", "v": (100.0 * r.randn(n)).tolist()}


def large_split(case):
    r = rs(case)
    n = case["n"]
    types = list(case["types"])
    cols = {c: col_of(r, n, k) for c, k in zip("abt", r.choice(["unique", "dyadic", "groups", "float"], size=3))}
    return split.check_split(
        {
            "n": n,
            "cols": cols,
            "index": r.permutation(n).tolist(),
            "splits": [[k, t, float(f)] for k, t, f in zip("abt", types, r.choice([0.8, 0.5, 0.25, 0.33, 0.9], size=3))],
            "default": not types,
            "assume": bool(case["seed"] % 2),
            "seed": case["seed"],
            "intcol": False,
        }
    )


def large_random(case):
    r = rs(case)
    n = case["n"]
    c = {"col": col_of(r, n, case["kind"]), "frac": case["frac"], "seed": case["seed"], "index": r.permutation(n).tolist(), "uniq": False}
    lab = split.check_random(c)
    # It is random also for this many: no position is preferred, neighbours are not tied together
    np.random.seed(case["seed"])
    frac, B = case["frac"], 12
    S = pd.Series(r.permutation(n))
    k = None
    M = []
    for _ in range(B):
        how = case["how"]
        if how == "series":
            m = ds.random_split_series(S, frac).values
        elif how == "unique":
            m = ds.random_split_series(S, frac, assume_unique=True).values
        elif how == "mask":
            m = ds.rand_mask(n, frac)
        elif how == "subset":
            m = np.zeros(n, dtype=bool)
            m[ds.rand_subset(np.arange(n), frac)] = True
        else:
            m = np.zeros(n, dtype=bool)
            m[ds.split_df(pd.DataFrame({"x": np.arange(n)}), {ds.INDEX: ("random", frac)})[0]["x"].values] = True
        m = np.asarray(m, dtype=bool)
        expect(m.shape == (n,) and int(np.sum(m)) in split.n_train_options(frac, n), "%d of %d with fraction %r", int(np.sum(m)), n, frac)
        M.append(m)
    M = np.array(M, dtype=float)
    k = np.sum(M, axis=1)
    p = k / n
    v = p * (1 - p)
    for what, w in (("first half", np.arange(n) < n // 2), ("even positions", np.arange(n) % 2 == 0), ("middle third", (np.arange(n) >= n // 3) & (np.arange(n) < 2 * n // 3)), ("values in the upper half", S.values >= n / 2.0)):
        c_ = M[:, w].sum(axis=1) - p * np.sum(w)
        sd = np.sqrt(v * np.sum(w) * (1.0 - np.sum(w) / float(n)) * n / (n - 1.0))
        expect(np.all(np.abs(c_) < 8.0 * sd + 3.0), "%s: %s more than expected, standard deviation %s", what, c_, sd)
    for lag in (1, 2, n // 2):
        q = np.sum((M - p[:, None]) * (np.roll(M, lag, axis=1) - p[:, None]), axis=1)
        expect(np.all(np.abs(q) < 8.0 * 1.5 * np.sqrt(n) * v + 6.0), "rows %d apart are drawn together: %s", lag, q)
    G = (M - p[:, None]).dot((M - p[:, None]).T)
    np.fill_diagonal(G, 0.0)
    expect(np.max(np.abs(G)) < 8.0 * 1.5 * math.sqrt(n) * float(np.max(v)) + 6.0, "successive splits are alike")
    return lab + ["large"]


def large_ordered(case):
    r = rs(case)
    n = case["n"]
    return split.check_ordered({"col": col_of(r, n, case["kind"]), "frac": case["frac"], "frac2": case["frac2"], "index": r.permutation(n).tolist(), "perm": case["seed"], "sort": bool(case["seed"] % 2), "uniq": False})


def large_linear(case):
    r = rs(case)
    n = case["n"]
    return split.check_linear(
        {"col": col_of(r, n, "float" if case["kind"] == "str" else case["kind"]), "frac": case["frac"], "frac2": case["frac2"], "index": r.permutation(n).tolist(), "perm": case["seed"], "sort": bool(case["seed"] % 2), "uniq": False, "at": None}
    )


def large_lag(case):
    r = rs(case)
    n = case["n"]
    cols = ["x%d" % i for i in range(case["m"])]
    return split.check_lag(
        {
            "cols": cols,
            "data": [col_of(r, n, k) for k in r.choice(["unique", "float", "str"], size=len(cols))],
            "n_lags": case["lags"],
            "stride": case["stride"],
            "features": None if case["seed"] % 2 else cols[: 1 + len(cols) // 2],
            "ftype": "list",
            "index": r.permutation(n).tolist(),
            "multi": False,
            "name": None,
            "many": False,
        }
    )


# ---------------------------------------------------------------- utilities


def large_onehot(case):
    r = rs(case)
    n, k = case["n"], case["k"]
    y = r.randint(0, k, size=n)
    H = util.one_hot(y, k)
    expect(isinstance(H, np.ndarray) and H.dtype == bool and H.shape == (n, k), "one hot encoding has dtype %s shape %s", H.dtype, H.shape)
    expect(np.array_equal(H, y[:, None] == np.arange(k)[None]), "one hot encoding of %d labels", n)
    k2 = 300 + case["seed"] % 4000
    y2 = r.randint(0, k2, size=20)
    expect(np.array_equal(util.one_hot(y2, k2), y2[:, None] == np.arange(k2)[None]), "one hot encoding with %d labels", k2)
    raw = 20.0 * r.randn(n, k)
    L = as_arr(util.normalize(raw), (n, k), "normalized")
    expect_all_near(L[:: max(1, n // 50)], classif.lognorm(raw[:: max(1, n // 50)].tolist()), "normalized", rtol=1e-10, atol=1e-10)
    expect_all_near(np.sum(np.exp(L), axis=1), np.ones(n), "total probability", rtol=1e-9)
    expect(np.max(np.abs((L - raw) - (L - raw)[:, :1])) < 1e-9, "normalization is not one shift per row")
    x = r.randint(-n, n, size=n) / 4.0
    misc.check_mono({"x": x.tolist(), "y": r.randint(-5, 6, size=n).tolist(), "yp": bool(case["seed"] % 2)})
    s0 = rng_state()
    z = as_arr(util.epsilon_noise(x), (n,), "noise")
    expect(rng_state() != s0 and len(set(z.tolist())) == n, "ties remain among %d points", n)
    expect(np.max(np.abs(z - x)) <= 0.125 + 1e-9, "noise of %r", float(np.max(np.abs(z - x))))
    expect(abs(float(np.mean(z > x)) - 0.5) < 8.0 * 0.5 / math.sqrt(n), "noise is lopsided")
    return ["large"]


few = st.integers(1, 4)
smalls = st.integers(2, 5)
frs = st.sampled_from([0.8, 0.5, 0.25, 0.1, 0.33, 0.9, 0.999])
colkinds = st.sampled_from(["unique", "dyadic", "groups", "float", "str"])
halfsize = st.integers(150, 900)

CL = case_of(k=st.integers(1, 12), scale=st.sampled_from([0.5, 3.0, 30.0]))

EXTRA = {
    "C01": [
        Sub("large", CL, large_losses, 40, rule="257 to 5000 points against scalar definitions"),
        Sub("many_labels", lambda: st.fixed_dictionaries({"n": st.integers(1, 4), "k": st.one_of(st.integers(30, 300), st.sampled_from([127, 128, 129, 255, 256, 257, 1000])), "seed": seeds, "scale": st.sampled_from([0.0, 0.5, 3.0, 30.0])}), many_labels, 80, rule="30 to 1000 labels against scalar definitions"),
    ],
    "C02": [Sub("large", case_of(k=st.integers(2, 6), scale=st.sampled_from([0.5, 3.0]), act=st.sampled_from([None, None, 2, 4])), large_hard, 32, rule="257 to 5000 points")],
    "C04": [Sub("large", case_of(n=st.one_of(halfsize, sizes), k=smalls, m=few), large_class_table, 24, rule="tables of 150 to 5000 points")],
    "C05": [
        Sub("large", case_of(), large_regr_losses, 40, rule="257 to 5000 points against scalar definitions"),
        Sub("large_table", case_of(m=few), large_regr_table, 24, rule="tables of 257 to 5000 points"),
    ],
    "C06": [
        Sub("large", case_of(k=smalls, m=few), large_class_pred, 24, rule="up to 5000 train or test points"),
        Sub("large_frequencies", case_of(k=smalls), large_class_noise, 40, rule="class frequencies of up to 5000 points"),
    ],
    "C07": [
        Sub("large", case_of(m=few), large_regr_pred, 24, rule="up to 5000 train or test points"),
        Sub("large_baseline", case_of(), large_regr_noise, 40, rule="baseline on up to 5000 points"),
    ],
    "C10": [Sub("large", case_of(kind=kinds, conf=confidence), large_t, 40, rule="257 to 5000 points")],
    "C11": [Sub("large", case_of(kind=kinds, conf=confidence, gap=st.sampled_from([0.0, 1.0, 10.0])), large_bern, 40, rule="257 to 5000 points")],
    "C12": [
        Sub("large_weights", case_of(b=st.sampled_from([1, 5, 200, 400, 1000, 2000])), large_weights, 40, rule="resamples of up to 5000 points: counts, variances, neighbours (8 sigma)"),
        Sub("large_samples", case_of(kind=kinds, conf=confidence, b=st.sampled_from([1, 50, 1000, 2500])), large_boot_stream, 40, rule="up to 5000 points, recomputed from the same resamples"),
        Sub("many_resamples", case_of(n=st.integers(2, 30), kind=kinds, conf=confidence, b=st.sampled_from([5000, 10000, 15001, 20000])), large_boot_stream, 40, rule="up to 20000 resamples, recomputed from the same ones"),
        Sub("normal_limit", case_of(n=st.integers(400, 5000), conf=st.sampled_from([0.5, 0.8, 0.9, 0.95]), mu=st.sampled_from([0.0, 1.0, -2.0, 10.0])), clt_boot, 40, rule="close to the normal interval and test for 400 to 5000 normal points"),
    ],
    "C13": [Sub("large", case_of(kind=kinds, conf=confidence, shift=st.sampled_from([0.0, 0.0, 0.05, -0.03])), large_coherent, 40, rule="257 to 5000 points")],
    "C14": [Sub("large", case_of(kind=kinds, conf=confidence, gap=st.sampled_from([0.0, 1.0]), method=st.sampled_from(["t", "bernstein", "boot"])), large_mean, 40, rule="summaries of 257 to 5000 points")],
    "C15": [
        Sub("large", case_of(m=st.integers(2, 4), k=st.integers(1, 2), conf=confidence), large_summary, 24, rule="257 to 5000 points"),
        Sub("many_methods", case_of(n=st.integers(2, 9), m=st.integers(5, 30), k=st.integers(1, 8), conf=confidence), large_summary, 24, rule="up to 30 methods and 8 metrics"),
    ],
    "C16": [
        Sub(
            "large",
            lambda: st.fixed_dictionaries(
                {"n": st.one_of(st.integers(1000, 6000), st.sampled_from([10000, 10001, 20000])), "shape": st.sampled_from([[], [], [3]]), "seed": seeds, "levels": st.sampled_from([2, 50, 0, 0]), "conf": confidence, "orig": st.sampled_from([0.0, 0.5]), "ref": st.sampled_from([0.0, 0.25, "paired"])}
            ),
            large_perc,
            80,
            rule="1000 to 20000 replications",
        )
    ],
    "C17": [Sub("large", case_of(n=more, prev=st.sampled_from([0.02, 0.5, 0.9]), levels=st.sampled_from([0, 0, 2, 10, 300]), rows=st.sampled_from([0, 0, 2])), large_curves, 64, rule="curves of 257 to 20000 points against counting by bisection")],
    "C18": [Sub("large", case_of(n=more, prev=st.sampled_from([0.02, 0.5, 0.9]), levels=st.sampled_from([0, 0, 2, 10, 300]), rows=st.sampled_from([0, 0, 2])), large_areas, 64, rule="areas of 257 to 20000 points against pair counting by bisection")],
    "C19": [
        Sub("large_steps", case_of(), large_step, 32, rule="step functions with 257 to 5000 steps"),
        Sub("large_curves", case_of(n=st.one_of(st.integers(50, 900), sizes)), large_interp, 32, rule="curves of 50 to 5000 points"),
    ],
    "C20": [
        Sub(
            "large",
            case_of(n=st.integers(60, 500), b=st.sampled_from([1, 20, 60, 200]), curve=st.sampled_from(["roc", "pr", "prg"]), ref_kind=st.sampled_from(["scalar", "array"]), conf=confidence, ties=st.booleans()),
            large_boot_curve,
            40,
            rule="60 to 500 points and up to 200 resamples",
        )
    ],
    "C21": [Sub("wide", case_of(m=st.integers(4, 40), k=st.integers(3, 12)), wide_decimalize, 16, rule="up to 40 methods and 12 metrics"), Sub("many_metrics", case_of(m=st.integers(1, 4), k=st.integers(13, 60)), wide_decimalize, 12, rule="13 to 60 metrics")],
    "C25": [Sub("wide", case_of(m=st.integers(4, 40), k=st.integers(3, 12)), wide_print, 16, rule="up to 40 methods and 12 metrics"), Sub("many_metrics", case_of(m=st.integers(1, 4), k=st.integers(13, 60)), wide_print, 12, rule="13 to 60 metrics")],
    "C26": [Sub("large", case_of(types=st.lists(st.sampled_from(["random", "ordered", "linear"]), max_size=3)), large_split, 40, rule="frames of 257 to 5000 rows")],
    "C27": [Sub("large", case_of(kind=colkinds, frac=frs, how=st.sampled_from(["series", "unique", "mask", "subset", "df"])), large_random, 48, rule="257 to 5000 rows: groups and counts; no position preferred, neighbours and successive splits unrelated (8 sigma)")],
    "C28": [
        Sub("large_ordered", case_of(kind=colkinds, frac=frs, frac2=frs), large_ordered, 40, rule="257 to 5000 rows"),
        Sub("large_linear", case_of(kind=colkinds, frac=frs, frac2=frs), large_linear, 40, rule="257 to 5000 rows"),
    ],
    "C29": [Sub("large", case_of(m=st.integers(1, 4), lags=st.sampled_from([2, 5, 13]), stride=st.sampled_from([None, 2, 50])), large_lag, 24, rule="257 to 5000 rows")],
    "C31": [Sub("large", case_of(k=st.integers(1, 30)), large_onehot, 32, rule="257 to 5000 points, up to 30 labels")],
}
