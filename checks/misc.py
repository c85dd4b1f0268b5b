"""C30 to C32: purity and reproducibility, numeric utilities, decimal utilities."""
import decimal
import math
import os
import pickle
import random
import warnings
from decimal import Decimal
from fractions import Fraction

import mlpaper.boot_util as bu
import mlpaper.classification as cl
import mlpaper.data_splitter as ds
import mlpaper.mlpaper as mlp
import mlpaper.perf_curves as pc
import mlpaper.regression as rg
import mlpaper.sciprint as sp
import mlpaper.util as ut
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.stats import _count_band
from harness.core import Prop, Sub, Violation, expect
from harness.gen import INF, NAN, expect_all_near, expect_raises, floats, lognorm, near, prob_rows, rng_state, seeds

# ============================================================================ C30
# Purity, and independence of the history of calls.
#
# The worker process never calls the package itself: each history, and each single
# call, runs in a process forked from it.  So a single call really is the first one.


def canon(x):
    """Comparable, picklable description of a result or argument."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("arr", x.shape, [canon(v) for v in x.ravel().tolist()])
        return ("arr", str(x.dtype), x.shape, np.ascontiguousarray(np.where(x != x, np.nan, x) if x.dtype.kind == "f" else x).tobytes())
    if isinstance(x, pd.DataFrame):
        return ("df", canon(x.columns), canon(x.index), [canon(x.iloc[:, i].values) for i in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return ("series", canon(x.index), canon(x.values))
    if isinstance(x, pd.Index):
        return ("index", [repr(v) for v in x], [repr(v) for v in x.names])
    if isinstance(x, dict):
        return ("dict", [(canon(k), canon(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(v) for v in x])
    if isinstance(x, np.generic):
        return canon(np.asarray(x))
    if isinstance(x, (bool, int, float, str, type(None), Decimal)):
        return (type(x).__name__, repr(x))
    if callable(x):
        return ("callable", getattr(x, "__name__", "?"))
    return ("obj", type(x).__name__, canon(sorted(vars(x).items())))


def alike(a, b):
    """Same results, up to round-off (order of summation can depend on the layout in memory)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple) and len(a) == 4 and a[0] == "arr" and isinstance(b, tuple) and a[:3] == b[:3] and a[1].startswith("float"):
        u, v = (np.frombuffer(w[3], dtype=w[1]) for w in (a, b))
        with np.errstate(all="ignore"):
            return bool(np.all((u == v) | ((u != u) & (v != v)) | (np.abs(u - v) <= 1e-10 * np.maximum(1e-3, np.maximum(np.abs(u), np.abs(v))))))
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "float" and b[0] == "float":
        u, v = float(a[1]), float(b[1])
        return near(u, v, 1e-10, 1e-13)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(alike(u, v) for u, v in zip(a, b))
    return a == b


def scribble(x):
    """Overwrite a result, as a user is free to do."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fib":
            x[...] = 7
    elif isinstance(x, pd.DataFrame):
        try:
            for i in range(x.shape[1]):
                if x.dtypes.iloc[i].kind == "f":
                    x.iloc[:, i] = 7.0
        except Exception:
            pass
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        del x[:]
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


class StubC(object):
    def __init__(self, p):
        self.p = p

    def fit(self, X, y):
        self.m = float(np.mean(y)) + self.p

    def predict_proba(self, X):
        z = 1.0 / (1.0 + np.exp(-self.p * np.asarray(X)[:, 0] - self.m))
        return np.stack((1.0 - z, z), axis=1)


class StubR(object):
    def __init__(self, p):
        self.p = p

    def fit(self, X, y):
        self.m = float(np.mean(y))

    def predict(self, X, return_std=False):
        mu = self.m + self.p * np.asarray(X)[:, 0]
        return (mu, np.abs(mu) + 0.5) if return_std else mu


def _pred_tbl(r, n, methods=("foo", "bar"), k=2):
    t = np.concatenate([lognorm(r.randn(n, k)) for _ in methods], axis=1)
    return pd.DataFrame(t, columns=pd.MultiIndex.from_product([methods, range(k)], names=["method", "label"]))


def tiled(v, n):
    return np.resize(np.array(v), n)


def _perf_tbl(r, n, k):
    k = min(k, 20)
    cols = pd.MultiIndex.from_product([(["NLL", "Brier", "AUC"] + ["m%d" % i for i in range(k)])[:k], ["mean", "error", "p"]], names=["metric", "stat"])
    v = np.abs(r.randn(n, 3 * k)) * 10.0 ** r.randint(-3, 3) + 1e-3
    v[:, 2::3] = r.rand(n, k)
    return pd.DataFrame(v, index=pd.Index(["m%d" % i for i in range(n)], name="method"), columns=cols)


def _loss_tbl(r, n, metrics=("loss", "NLL"), methods=("foo", "bar")):
    return pd.DataFrame(r.rand(n, len(metrics) * len(methods)), columns=pd.MultiIndex.from_product([metrics, methods], names=["metric", "method"]))


# name -> (is random, function of (data RandomState, size 0..2, variant 0..2) giving (f, args, kwargs))
# Sizes and variants (the options) vary independently: same data with other options, other data of the same size.
def _ops():
    O = {}

    def op(name, rnd=False):
        def deco(f):
            O[name] = (rnd, f)
            return f

        return deco

    CONF = [0.95, 0.8, 0.5]

    @op("log_loss")
    def _(r, z, v):
        return cl.log_loss, (r.randint(0, 2, 3 + z), lognorm(r.randn(3 + z, 2))), {}

    @op("brier_loss")
    def _(r, z, v):
        return cl.brier_loss, (r.randint(0, 3, 3 + z), lognorm(r.randn(3 + z, 3))), [{}, {"rescale": False}, {"rescale": True}][v]

    @op("spherical_loss")
    def _(r, z, v):
        return cl.spherical_loss, (r.randint(0, 3, 3 + z), lognorm(r.randn(3 + z, 3))), [{}, {"rescale": False}, {"rescale": True}][v]

    @op("hard_loss")
    def _(r, z, v):
        return cl.hard_loss, (r.randint(0, 2 + z, 4), lognorm(r.randn(4, 2 + z))), {"loss_mat": r.rand(2 + z, 2 + v)} if v else {}

    @op("hard_loss_decision")
    def _(r, z, v):
        return cl.hard_loss_decision, (lognorm(r.randn(4, 2 + z)), r.rand(2 + z, 2 + v)), {}

    @op("class_loss_table")
    def _(r, z, v):
        m = [{"NLL": cl.log_loss, "Brier": cl.brier_loss}, {"NLL": cl.log_loss}, {"NLL": cl.brier_loss, "zero_one": cl.hard_loss}][v]
        return cl.loss_table, (_pred_tbl(r, 3 + z), r.randint(0, 2, 3 + z), m), {"assume_normalized": v == 1}

    @op("summary_table", True)
    def _(r, z, v):
        y = tiled([0, 1, 1, 0, 1, 1, 0], 5 + z)
        kw = dict(n_boot=20, method_EB=["t", "bernstein", "boot"][v], pairwise_CI=v == 1)
        kw["limits"] = {"zero_one": (0.0, 1.0)}
        if v:
            kw["x_grid"] = np.linspace(0, 1, 4 + v)
        return cl.summary_table, (_pred_tbl(r, 5 + z), y, {"zero_one": cl.hard_loss}, {"AUC": pc.roc_curve, "AP": pc.recall_precision_curve}, ["foo", "bar"][v % 2]), kw

    @op("class_benchmark", True)
    def _(r, z, v):
        X, Xt = r.randn(5, 2), r.randn(4 + z, 2)
        y, yt = np.array([0, 1, 1, 0, 1]), tiled([1, 0, 0, 1, 1, 0], 4 + z)
        m = {"a": StubC(1.0 + v), "b": StubC(-0.5), "iid": cl.JustNoise(2)}
        return cl.just_benchmark, (X, y, Xt, yt, 2, m, {"zero_one": cl.hard_loss}, [{"AUC": pc.roc_curve}, {"AP": pc.recall_precision_curve}, {"AUC": pc.prg_curve}][v], "iid"), {"min_pred_log_prob": -3.0 - v}

    @op("class_predictions")
    def _(r, z, v):
        X, y = r.randn(5, 2), np.array([0, 1, 1, 0, 1])
        m = {"a": StubC(1.0 + v), "iid": cl.JustNoise(2)}
        return cl.get_pred_log_prob, (X, y, r.randn(3 + z, 2), 2, m), {"min_log_prob": -2.0} if v else {}

    @op("square_loss")
    def _(r, z, v):
        return rg.square_loss, (r.randn(3 + z), r.randn(3 + z), r.rand(3 + z) + 0.1), {}

    @op("abs_loss")
    def _(r, z, v):
        return rg.abs_loss, (r.randn(3 + z), r.randn(3 + z), r.rand(3 + z) + 0.1), {}

    @op("gauss_log_loss")
    def _(r, z, v):
        return rg.log_loss, (r.randn(3 + z), r.randn(3 + z), r.rand(3 + z) + 0.1), {}

    @op("regr_loss_table")
    def _(r, z, v):
        t = np.abs(r.randn(3 + z, 4)) + 0.1
        t = pd.DataFrame(t, columns=pd.MultiIndex.from_product([["foo", "bar"], ["mu", "std"]], names=["method", "moment"]))
        return rg.loss_table, (t, r.randn(3 + z), [dict(rg.STD_REGR_LOSS), {"MSE": rg.square_loss}, {"MSE": rg.abs_loss}][v]), {}

    @op("regr_predictions")
    def _(r, z, v):
        m = {"a": StubR(1.0 + v), "iid": rg.JustNoise()}
        return rg.get_gauss_pred, (r.randn(4, 2), r.randn(4), r.randn(3 + z, 2), m), [{}, {"min_std": 0.2}, {"min_std": 1.0}][v]

    @op("regr_benchmark", True)
    def _(r, z, v):
        m = {"a": StubR(1.0), "b": StubR(2.0), "iid": rg.JustNoise()}
        kw = {"min_std": 0.2 + v, "method_EB": ["t", "boot", "t"][v], "limits": {"MSE": (0.0, 1e6)}, "pairwise_CI": v == 2}
        return rg.just_benchmark, (r.randn(4, 2), r.randn(4), r.randn(5 + z, 2), r.randn(5 + z), m, dict(rg.STD_REGR_LOSS), ["iid", "a", "b"][v]), kw

    @op("loss_summary_t")
    def _(r, z, v):
        kw = [{}, {"limits": {"loss": (0.0, 1.0)}, "pairwise_CI": True}, {"limits": {"loss": (0.0, 2.0), "NLL": (-1.0, 1.5)}, "method_EB": "bernstein", "confidence": 0.8}][v]
        return mlp.loss_summary_table, (_loss_tbl(r, 4 + z), ["foo", "bar", "foo"][v]), kw

    @op("loss_summary_boot", True)
    def _(r, z, v):
        return mlp.loss_summary_table, (_loss_tbl(r, 4 + z), ["bar", "foo", "bar"][v]), {"method_EB": "boot", "pairwise_CI": v == 2}

    @op("t_EB")
    def _(r, z, v):
        return mlp.t_EB, (r.rand(4 + z),), {"confidence": CONF[v]}

    @op("t_test")
    def _(r, z, v):
        return mlp.t_test, (r.rand(4 + z) - 0.5 * v,), {}

    @op("bernstein_EB")
    def _(r, z, v):
        return mlp.bernstein_EB, (r.rand(4 + z), [0.0, -1.0, 0.0][v], [1.0, 1.0, 2.0][v]), {"confidence": CONF[v]}

    @op("bernstein_test")
    def _(r, z, v):
        return mlp.bernstein_test, (r.rand(40 + z), [0.0, -1.0, 0.0][v], [1.0, 1.0, 2.0][v]), {}

    @op("mean_and_EB")
    def _(r, z, v):
        return mlp.get_mean_and_EB, (r.rand(4 + z),), dict(confidence=CONF[v], lower=0.0, upper=1.0 + v, min_EB=0.1 * v, method=["t", "bernstein", "t"][v])

    @op("mean_EB_test")
    def _(r, z, v):
        return mlp.get_mean_EB_test, (r.rand(4 + z),), dict(confidence=CONF[v], lower=0.0, upper=1.0 + v, method=["t", "bernstein"][v % 2])

    @op("mean_EB_test_boot", True)
    def _(r, z, v):
        return mlp.get_mean_EB_test, (r.randn(4 + z),), {"method": "boot", "confidence": CONF[v]}

    @op("boot_EB", True)
    def _(r, z, v):
        return mlp.boot_EB, (r.randn(4 + z),), {"n_boot": [30, 31, 30][v], "confidence": CONF[v]}

    @op("boot_test", True)
    def _(r, z, v):
        return mlp.boot_test, (r.randn(4 + z) + 0.4,), {"n_boot": 30 + v}

    @op("clip_EB")
    def _(r, z, v):
        return mlp.clip_EB, (float(r.rand()), float(r.rand())), {"lower": 0.0 - z, "upper": 1.0 + z, "min_EB": 0.1 * v}

    @op("boot_weights", True)
    def _(r, z, v):
        return bu.boot_weights, (3 + z, 4 + v), {"epsilon": 1e-6} if v == 2 else {}

    @op("percentile")
    def _(r, z, v):
        return bu.percentile, (r.randn(20, 2 + z),), {"confidence": CONF[v]}

    @op("significance")
    def _(r, z, v):
        return bu.significance, (r.randn(20 + z) + 0.5, [0.0, 0.5, 1.0][v]), {}

    @op("basic")
    def _(r, z, v):
        return bu.basic, (r.randn(20, 2 + z), r.randn(2 + z)), {"confidence": CONF[v]}

    @op("error_bar")
    def _(r, z, v):
        return bu.error_bar, (r.randn(20 + z), float(r.randn())), {"confidence": CONF[v]}

    for nm, f in (("roc", pc.roc_curve), ("rp", pc.recall_precision_curve), ("prg", pc.prg_curve)):

        def curve_op(r, z, v, f=f):
            y = tiled([True, False, True, False, True, False, False], 5 + z)
            s = np.round(r.randn(5 + z), 1)
            return f, (y, s), {"sample_weight": r.randint(0, 3, size=(1 + v, 5 + z)) + 0.5} if v else {}

        O[nm] = (False, curve_op)

    @op("curve_boot", True)
    def _(r, z, v):
        y = tiled([0, 1, 1, 0, 1, 0, 0], 5 + z)
        lp = lognorm(r.randn(5 + z, 2))
        ref = lognorm(r.randn(5 + z, 2)) if v else 0.5
        return cl.curve_boot, (y, lp, ref), {"n_boot": 15, "curve_f": [pc.roc_curve, pc.recall_precision_curve, pc.prg_curve][v], "x_grid": np.linspace(0, 1, 4) if v == 2 else None, "confidence": CONF[v]}

    @op("curve_summary_table", True)
    def _(r, z, v):
        y = tiled([0, 1, 1, 0, 1, 0, 0], 5 + z)
        c = [{"AUC": pc.roc_curve}, {"AP": pc.recall_precision_curve}, {"AUC": pc.prg_curve}][v]
        return cl.curve_summary_table, (_pred_tbl(r, 5 + z), y, c, ["foo", "bar", "foo"][v]), {"n_boot": 15, "confidence": CONF[v]}

    @op("decimalize")
    def _(r, z, v):
        return sp.decimalize, (_perf_tbl(r, 2, 1 + z),), [{"EB_limit": {}}, {"EB_limit": {"NLL": -1}, "err_digits": 1}, {"err_digits": 3, "pval_digits": 2, "default_digits": 7}][v]

    @op("format_text")
    def _(r, z, v):
        kw = [{"shift_mod": 1, "EB_limit": {}, "unit_dict": {}, "crap_limit_max": {}, "crap_limit_min": {}, "non_finite_fmt": {}}, {"shift_mod": 3, "unit_dict": {"NLL": "nats"}, "crap_limit_max": {"Brier": 0}}, {"shift_mod": 1, "EB_limit": {"NLL": -1}, "non_finite_fmt": {"nan": "N/A"}, "use_prefix": False}][v]
        return sp.just_format_it, (_perf_tbl(r, 2, 1 + z),), kw

    @op("headers")
    def _(r, z, v):
        return sp.adjust_headers, ([("NLL", "estimate"), ("NLL", "p")], {"NLL": int(r.randint(-6, 7))}, {"NLL": "nats"} if v else {}), {"use_prefix": v == 1, "use_tex": bool(z % 2)}

    @op("find_shift")
    def _(r, z, v):
        e = int(r.randint(-8, 3))
        return sp.find_shift, ([Decimal((0, (1, 2, int(d)), e)) for d in r.randint(0, 9, 2 + z)], [Decimal((0, (2,), e))] * (2 + z)), {"shift_mod": 1 + v}

    @op("create_decimal")
    def _(r, z, v):
        return sp.create_decimal, (float(r.randn()), 1 + 2 * z), {"rounding": [decimal.ROUND_UP, decimal.ROUND_HALF_UP, decimal.ROUND_DOWN][v]}

    @op("print_estimate")
    def _(r, z, v):
        return sp.print_estimate, (Decimal((0, (1, 2, int(r.randint(9))), -2)), Decimal((0, (2,), -2))), [{"shift": z}, {"shift": z, "min_clip": Decimal(5)}, {"shift": z, "max_clip": Decimal(1)}][v]

    @op("print_pval")
    def _(r, z, v):
        return sp.print_pval, (Decimal((0, (1, 2, int(r.randint(9))), -3 - z)),), {}

    @op("split_df", True)
    def _(r, z, v):
        df = pd.DataFrame({"a": r.randint(0, 4, 6 + z), "b": r.randn(6 + z)})
        kw = [{}, {"splits": {"a": ("random", 0.5), "b": ("ordered", 0.5)}}, {"splits": {None: ("linear", 0.7)}}][v]
        return ds.split_df, (df,), kw

    @op("random_split", True)
    def _(r, z, v):
        return ds.random_split_series, (pd.Series(r.randint(0, 4, 6 + z)), [0.5, 0.25, 0.8][v]), {}

    @op("ordered_split")
    def _(r, z, v):
        return ds.ordered_split_series, (pd.Series(r.randint(0, 4, 6 + z)), [0.5, 0.25, 0.8][v]), {}

    @op("linear_split")
    def _(r, z, v):
        return ds.linear_split_series, (pd.Series(r.randint(0, 9, 6 + z)), [0.5, 0.25, 0.8][v]), {}

    @op("lag_df")
    def _(r, z, v):
        return ds.build_lag_df, (pd.DataFrame(r.randn(5 + z, 2), columns=["a", "b"]), 2), [{}, {"features": ["a"], "stride": 2}, {"features": ["b"]}][v]

    @op("rand_mask", True)
    def _(r, z, v):
        return ds.rand_mask, (5 + z, [0.5, 0.25, 0.8][v]), {}

    @op("rand_subset", True)
    def _(r, z, v):
        return ds.rand_subset, (r.randint(0, 50, 5 + z), [0.5, 0.25, 0.8][v]), {}

    @op("epsilon_noise", True)
    def _(r, z, v):
        return ut.epsilon_noise, (np.round(r.randn(4 + z), v),), {}

    @op("normalize")
    def _(r, z, v):
        return ut.normalize, (r.randn(3 + v, 2 + z),), {}

    @op("one_hot")
    def _(r, z, v):
        return ut.one_hot, (r.randint(0, 2, 3 + z), 2 + v), {}

    @op("interp1d")
    def _(r, z, v):
        x = np.sort(np.concatenate((r.rand(2, 3 + z), [[0.0, 1.0]] * 2), axis=1), axis=1)
        return ut.interp1d, (np.linspace(0, 1, 4), x, r.rand(2, 5 + z)), {"kind": ["linear", "previous", "nearest"][v]}

    @op("area")
    def _(r, z, v):
        x = np.sort(r.rand(2, 4 + z), axis=1)
        return ut.area, (x, r.rand(2, 4 + z)), {"kind": ["linear", "previous", "linear"][v]}

    @op("step_func")
    def _(r, z, v):
        return ut.eval_step_func, (r.rand(4) * 6 + 1.0, r.permutation(5 + z).astype(float), r.rand(5 + z)), {"ival": [None, 0.0, 3.0][v]}

    @op("cummax_strict")
    def _(r, z, v):
        return ut.cummax_strict, (np.round(r.rand(5 + z), 1),), {}

    @op("unique_take_last")
    def _(r, z, v):
        return ut.unique_take_last, (np.sort(np.round(r.rand(5 + z), 1)), r.rand(5 + z)), {}

    # Failing calls have to leave things as they were too
    @op("bad_confidence")
    def _(r, z, v):
        return mlp.get_mean_EB_test, (r.randn(4),), {"confidence": [1.5, -0.5, 2.0][v]}

    @op("bad_labels")
    def _(r, z, v):
        return cl.loss_table, (_pred_tbl(r, 3), np.array([0, 1, 2 + v]), {"NLL": cl.log_loss}), {}

    @op("bad_table")
    def _(r, z, v):
        t = _perf_tbl(r, 2, 1)
        t.index.name = None
        return sp.just_format_it, (t,), {}

    @op("bad_limits")
    def _(r, z, v):
        return mlp.clip_EB, (float(r.rand()), 0.1), {"lower": 2.0, "upper": 3.0}

    @op("bad_split")
    def _(r, z, v):
        return ds.split_df, (pd.DataFrame({"a": r.randn(3)}), {"a": ("random", 1.5)}), {}

    return O


OPS = _ops()
KEYS = sorted(OPS)


PD_OPTS = [
    k
    for k in (
        "display.%s" % v
        for v in "max_rows min_rows max_columns width precision float_format max_colwidth expand_frame_repr show_dimensions colheader_justify multi_sparse chop_threshold large_repr".split()
    )
] + ["mode.chained_assignment"]


def globals_state():
    ctx = decimal.getcontext()
    return (
        canon(np.geterr()),
        canon(np.get_printoptions()) if hasattr(np, "get_printoptions") else None,
        (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, sorted(str(k) for k, v in ctx.traps.items() if v)),
        [(f[0], str(f[1]), str(f[2]), str(f[3]), f[4]) for f in warnings.filters],
        [(k, repr(pd.get_option(k))) for k in PD_OPTS],
        os.getcwd(),
        sorted(os.environ.items()),
    )


def overwrite(old, new):
    """The new value, in the old object if that can be."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype and old.flags.writeable:
        old[...] = new
        return old
    if isinstance(old, pd.DataFrame) and isinstance(new, pd.DataFrame) and old.shape == new.shape and canon((old.columns, old.index)) == canon((new.columns, new.index)) and list(old.dtypes) == list(new.dtypes):
        for i in range(old.shape[1]):
            old.isetitem(i, new.iloc[:, i].values.copy())
        return old
    if isinstance(old, pd.Series) and isinstance(new, pd.Series) and old.shape == new.shape and canon(old.index) == canon(new.index) and old.dtype == new.dtype:
        old.iloc[:] = new.values
        return old
    if type(old) is type(new) and isinstance(old, dict):
        res = {k: overwrite(old[k], v) if k in old else v for k, v in new.items()}
        old.clear()
        old.update(res)
        return old
    if type(old) is type(new) and isinstance(old, list):
        old[:] = new
        return old
    return new


def run_op(o, scrib, past=None):
    """(result, problems)"""
    rnd, make = OPS[o["op"]]
    f, args, kw = make(np.random.RandomState(o["data"]), o["size"], o["opt"])
    if o.get("mix"):
        # Other data in one of the arguments only
        _, args2, kw2 = make(np.random.RandomState(o["data2"]), o["size"], o["opt"])
        which = [*range(len(args)), *sorted(kw)][(o["mix"] - 1) % (len(args) + len(kw))]
        args = tuple(args2[i] if i == which else a for i, a in enumerate(args))
        kw = {k: kw2[k] if k == which else a for k, a in kw.items()}
    if past is not None:
        if o["reuse"] and o["op"] in past:
            a1, kw1 = past[o["op"]]
            args = tuple(overwrite(u, w) for u, w in zip(a1, args)) if len(a1) == len(args) else args
            kw = {k: overwrite(kw1[k], w) if k in kw1 else w for k, w in kw.items()}
        past[o["op"]] = (args, kw)
    a0 = canon((list(args), sorted(kw.items())))
    fitted = o["op"] in ("class_benchmark", "regr_benchmark", "class_predictions", "regr_predictions")  # Estimators do get fit
    np.random.seed(o["seed"])
    np.seterr(**o.get("err", {}))
    s0, p0, g0 = rng_state(), random.getstate(), globals_state()
    problems = []
    try:
        res = f(*args, **kw)
        out = ("ok", canon(res))
    except Exception as exc:
        res = None
        out = ("raised", type(exc).__name__)
    if globals_state() != g0:
        problems.append("changes global settings")
    if random.getstate() != p0:
        problems.append("draws from the random module")
    if not rnd and rng_state() != s0:
        problems.append("draws random numbers")
    if not fitted and canon((list(args), sorted(kw.items()))) != a0:
        problems.append("modifies its arguments")
    end = rng_state()
    if scrib:
        scribble(res)
    return out, problems, end


def in_child(f):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            try:
                data = pickle.dumps(("ok", f()))
            except BaseException as exc:  # noqa: B902
                data = pickle.dumps(("err", "%s: %s" % (type(exc).__name__, exc)))
            with os.fdopen(wr, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    expect(data, "process died")
    kind, val = pickle.loads(data)
    expect(kind == "ok", "%s", val)
    return val


@st.composite
def history_case(draw, sizes=(0, 1, 2)):
    names = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4))
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        if ops and draw(st.integers(0, 2)):
            # An earlier call, but for some of its arguments
            o = dict(draw(st.sampled_from(ops)))
            for k in draw(st.lists(st.sampled_from(["size", "opt", "opt", "data", "seed", "reuse", "mix", "mix"]), min_size=0, max_size=2)):
                o[k] = draw(st.integers(0, {"data": 9, "mix": 5}.get(k, 2)) if k != "size" else st.sampled_from(sizes))
        else:
            o = {"op": draw(st.sampled_from(names)), "size": draw(st.sampled_from(sizes)), "opt": draw(st.integers(0, 2)), "data": draw(st.integers(0, 9)), "seed": draw(st.integers(0, 2)), "reuse": draw(st.integers(0, 1)), "mix": 0, "data2": draw(st.integers(10, 12))}
        o["err"] = {k: draw(st.sampled_from(["warn", "ignore"])) for k in ("divide", "over", "under", "invalid")}
        ops.append(o)
    return {"ops": ops, "scribble": draw(st.booleans()), "py": draw(seeds)}


@st.composite
def reuse_case(draw):
    """The same call again with one argument overwritten in place, and back."""
    o = {"op": draw(st.sampled_from(KEYS)), "size": draw(st.sampled_from([0, 1, 2, 0, 1, 2, 60])), "opt": draw(st.integers(0, 2)), "data": draw(st.integers(0, 99)), "seed": draw(st.integers(0, 2)), "reuse": 1, "mix": 0, "data2": draw(st.integers(100, 199)), "err": {}}
    ops = [o]
    for _ in range(draw(st.integers(1, 3))):
        ops.append(dict(o, mix=draw(st.integers(0, 5)), data2=draw(st.integers(100, 199)), reuse=draw(st.sampled_from([1, 1, 0]))))
    return {"ops": ops, "scribble": draw(st.booleans()), "py": draw(seeds)}


@st.composite
def options_case(draw):
    """One function, all of its options in some order, on data of one size."""
    o = {"op": draw(st.sampled_from(KEYS)), "size": draw(st.sampled_from([2, 45, 45, 300])), "data": draw(st.integers(0, 9)), "seed": draw(st.integers(0, 2)), "reuse": 0, "mix": 0, "data2": 10, "err": {}}
    fixed = draw(st.booleans())
    return {"ops": [dict(o, opt=v, data=o["data"] if fixed else draw(st.integers(0, 9))) for v in draw(st.permutations([0, 1, 2]))], "scribble": draw(st.booleans()), "py": draw(seeds)}


def check_history(case):
    ops = case["ops"]

    def hist():
        random.seed(case["py"])
        past = {}
        return [run_op(o, case["scribble"], past) for o in ops]

    lab = set()
    seq = in_child(hist)
    for i, o in enumerate(ops):

        def alone(o=o):
            random.seed(case["py"] + 1)
            return run_op(o, False)

        one = in_child(alone)
        for _, problems, _ in (seq[i], one):
            expect(not problems, "call %d (%s) %s", i, o["op"], " and ".join(problems))
        expect(alike(seq[i][0], one[0]), "%s as call %d after %s gives another result than on its own (same data, same seed)", o["op"], i, [p["op"] for p in ops[:i]])
        expect(seq[i][2] == one[2], "%s as call %d after %s uses random numbers differently than on its own", o["op"], i, [p["op"] for p in ops[:i]])
        lab.add(("random" if OPS[o["op"]][0] else "deterministic") if one[0][0] == "ok" else "failing call")
    if any(a["op"] == b["op"] for i, a in enumerate(ops) for b in ops[:i]):
        lab.add("same function again")
    if any(o["reuse"] and any(q["op"] == o["op"] for q in ops[:i]) for i, o in enumerate(ops)):
        lab.add("argument objects reused")
    if any(all(a[k] == b[k] for k in ("op", "size", "data")) and a["opt"] != b["opt"] for i, a in enumerate(ops) for b in ops[:i]):
        lab.add("other options on the same data")
    if any(all(a[k] == b[k] for k in ("op", "size", "data", "opt")) and a["mix"] != b["mix"] for i, a in enumerate(ops) for b in ops[:i]):
        lab.add("one argument changed")
    if case["scribble"]:
        lab.add("results overwritten")
    return sorted(lab)


# Random operations on enough data that equal results from different seeds do not happen by chance
def _big(name):
    def big(r, n, v):
        y = np.arange(n) % 2
        if name == "boot_weights":
            return bu.boot_weights, (n, 5), {}
        if name == "boot_EB":
            return mlp.boot_EB, (r.randn(n),), {"n_boot": 30}
        if name == "mean_and_EB":
            return mlp.get_mean_and_EB, (r.randn(n),), {"method": "boot"}
        if name == "mean_EB_test":
            return mlp.get_mean_EB_test, (r.randn(n),), {"method": "boot"}
        if name == "loss_summary":
            return mlp.loss_summary_table, (_loss_tbl(r, n), "foo"), {"method_EB": "boot", "pairwise_CI": v == 1}
        if name == "curve_boot":
            ref = lognorm(r.randn(n, 2)) if v else 0.5
            return cl.curve_boot, (y, lognorm(r.randn(n, 2)), ref), {"n_boot": 20, "curve_f": [pc.roc_curve, pc.recall_precision_curve, pc.prg_curve][v]}
        if name == "curve_table":
            return cl.curve_summary_table, (_pred_tbl(r, n), y, {"AUC": pc.roc_curve}, "foo"), {"n_boot": 20}
        if name == "summary_table":
            return cl.summary_table, (_pred_tbl(r, n), y, {"NLL": cl.log_loss}, {"AUC": pc.roc_curve}, "foo"), {"n_boot": 20}
        if name == "split_df":
            return ds.split_df, (pd.DataFrame({"a": r.randn(n)}),), {}
        if name == "random_split":
            return ds.random_split_series, (pd.Series(r.randn(n)), 0.5), {}
        if name == "rand_mask":
            return ds.rand_mask, (n, 0.5), {}
        if name == "rand_subset":
            return ds.rand_subset, (np.arange(n), 0.5), {}
        return ut.epsilon_noise, (np.round(r.randn(n), 1),), {}

    return big


BIG = ["boot_weights", "boot_EB", "mean_and_EB", "mean_EB_test", "loss_summary", "curve_boot", "curve_table", "summary_table", "split_df", "random_split", "rand_mask", "rand_subset", "epsilon_noise"]


@st.composite
def seeding_case(draw):
    return {
        "op": draw(st.sampled_from(BIG)),
        "n": draw(st.integers(30, 50)),
        "opt": draw(st.integers(0, 2)),
        "data": draw(seeds),
        "seeds": draw(st.lists(seeds, min_size=4, max_size=4, unique=True)),
    }


def check_seeding(case):
    """The random state is used, and never set."""

    def go():
        res = []
        for s in case["seeds"]:
            f, args, kw = _big(case["op"])(np.random.RandomState(case["data"]), case["n"], case["opt"])
            np.random.seed(s)
            out = canon(f(*args, **kw))
            res.append((out, rng_state(), np.random.rand()))
            np.random.seed(s)
            again = canon(f(*args, **kw))
            expect(alike(again, out), "%s twice with the same seed gives different results", case["op"])
        return res

    res = in_child(go)
    expect(any(not alike(r[0], res[0][0]) for r in res), "%s gives the same result for all of the seeds %s", case["op"], case["seeds"])
    for i, r in enumerate(res):
        for q in res[:i]:
            expect(r[1] != q[1] and r[2] != q[2], "%s leaves the same random state behind for different seeds", case["op"])
    return [case["op"]]


C30 = Prop(
    "C30",
    [
        Sub("seeding", lambda: seeding_case(), check_seeding, 96, rule="random operations give other results and leave other random states for other seeds, the same for the same seed"),
        Sub("arguments_overwritten", lambda: reuse_case(), check_history, 800, rule="the same function again, with one argument changed in place by the user between calls, equals the call in a fresh process"),
        Sub("other_options", lambda: options_case(), check_history, 800, rule="one function with all its options in turn on data of one size (up to 300 points), as below"),
        Sub("large_data", lambda: history_case((45, 46, 150, 300)), check_history, 240, rule="histories of calls on 45 to 300 points, as below"),
        Sub(
            "histories",
            lambda: history_case(),
            check_history,
            640,
            rule="each call of a history of 2-7 calls (of 64 public functions, some of them failing; with the same data and other options, or one argument changed; results overwritten and argument objects reused by the user) equals the same call made first in a fresh process; arguments, global settings and (if deterministic) random state unchanged",
        )
    ],
    "Generated histories of calls with data and seeds. Non-trivial: every history, by kind of call.",
    ["Estimator objects passed to a benchmark are fit, so they may change"],
)

# ============================================================================ C31
# Numeric utilities


@st.composite
def onehot_case(draw):
    k = draw(st.integers(1, 6))
    return {
        "k": k,
        "y": draw(st.lists(st.integers(0, k - 1), max_size=8)),
        "dtype": draw(st.sampled_from(["int64", "int32", "int8"])),
        "rows": draw(prob_rows(draw(st.integers(1, 5)), k)),
        "shift": draw(st.lists(st.integers(-6400, 6400).map(lambda v: v / 16.0), min_size=5, max_size=5)),
    }


def check_onehot(case):
    k = case["k"]
    y = np.array(case["y"], dtype=case["dtype"])
    y0 = y.copy()
    H = ut.one_hot(y, k)
    expect(isinstance(H, np.ndarray) and H.dtype == bool and H.shape == (len(y), k), "one hot encoding has dtype %s shape %s", H.dtype, H.shape)
    expect(H.tolist() == [[j == v for j in range(k)] for v in case["y"]], "one hot encoding of %s is %s", case["y"], H.tolist())
    expect(np.array_equal(y, y0), "modified")
    expect_raises(lambda: ut.one_hot(np.append(y, k).astype(y.dtype), k), "label %d of %d" % (k, k))
    expect_raises(lambda: ut.one_hot(np.append(y, -1).astype(y.dtype), k), "label -1")
    expect_raises(lambda: ut.one_hot(np.array([True, False]), k), "bool labels")
    expect_raises(lambda: ut.one_hot(np.zeros(1), k), "float labels")
    expect_raises(lambda: ut.one_hot(np.zeros((0,), dtype=int), 0), "no labels")
    # normalize
    raw = np.array(case["rows"], dtype=float)
    raw0 = raw.copy()
    L = ut.normalize(raw)
    expect(np.array_equal(raw, raw0), "modified")
    want = lognorm(case["rows"])
    expect_all_near(L, want, "normalized", rtol=1e-11, atol=1e-11)
    for i in range(len(raw)):
        expect(abs(math.fsum(math.exp(v) for v in L[i]) - 1.0) < 1e-9, "row %d sums to %r", i, math.fsum(math.exp(v) for v in L[i]))
        expect(np.all(L[i] <= 1e-12), "log probability above 0: %s", L[i])
        expect(np.array_equal(np.isneginf(L[i]), np.isneginf(raw[i])), "zero probabilities of row %d changed", i)
    expect_all_near(ut.normalize(L), want, "normalized twice", rtol=1e-9, atol=1e-9)
    sh = np.array(case["shift"][: len(raw)])[:, None]
    expect_all_near(ut.normalize(raw + sh), want, "normalized after scaling", rtol=1e-9, atol=1e-9)
    expect_all_near(ut.normalize(raw[:, ::-1]), want[:, ::-1], "labels reversed", rtol=1e-9, atol=1e-9)
    for i in range(len(raw)):
        expect_all_near(ut.normalize(raw[i : i + 1]), want[i : i + 1], "row on its own", rtol=1e-11, atol=1e-11)
    return ["labels"] if k > 1 and len(y) else (["one label"] if k == 1 else ["no points"])


@st.composite
def noise_case(draw):
    n = draw(st.integers(1, 8))
    el = draw(st.sampled_from([st.integers(-3, 3).map(float), st.integers(-64, 64).map(lambda v: v / 16.0), floats(-1e6, 1e6), st.integers(-3, 3).map(lambda v: v * 1e-3), st.integers(-3, 3).map(lambda v: 1e6 * v)]))
    return {
        "x": draw(st.lists(el, min_size=n, max_size=n)),
        "max": draw(st.sampled_from([None, None, 1.0, 1e-3, 10.0])),
        "def": draw(st.sampled_from([None, 1e-10, 0.5, 1e-3, 1e-14])),
        "pow": draw(st.sampled_from([0, 0, 0, -20, -45, -150, -600, 40])),
        "seed": draw(seeds),
    }


def check_noise(case):
    case = dict(case, x=[v * 2.0 ** case.get("pow", 0) for v in case["x"]])
    x = np.array(case["x"], dtype=float)
    x0 = x.copy()
    kw = {}
    if case["max"] is not None:
        kw["max_epsilon"] = case["max"]
    if case["def"] is not None:
        kw["default_epsilon"] = case["def"]
    mx, df = case["max"] or 1.0, case["def"] or 1e-10
    u = sorted(set(case["x"]))
    gap = df if len(u) <= 1 else min(b - a for a, b in zip(u, u[1:]))
    delta = min(gap, mx)
    scale = max(abs(v) for v in u)
    np.random.seed(case["seed"])
    z = ut.epsilon_noise(x, **kw)
    expect(np.array_equal(x, x0), "modified")
    expect(isinstance(z, np.ndarray) and z.shape == x.shape and z.dtype == float, "shape")
    tol = 4e-16 * (scale + delta)
    expect(np.all(np.abs(z - x) <= delta / 2 + tol), "noise of %r, allowed %r", float(np.max(np.abs(z - x))), delta / 2)
    for i in range(len(x)):
        for j in range(i):
            if x[i] < x[j] - 4 * tol:
                expect(z[i] <= z[j] + 4 * tol, "order is changed: %r, %r became %r, %r", x[i], x[j], z[i], z[j])
    lab = []
    if delta > 1e6 * max(tol, 1e-300):
        expect(len(set(z.tolist())) == len(z), "ties remain in %s", z.tolist())
        lab.append("unique")
        # Ties are broken both ways, and noise is not always small
        B = 120
        Z = np.array([ut.epsilon_noise(np.array([x[0], x[0]] + u), **kw) for _ in range(B)])
        up = int(np.sum(Z[:, 0] < Z[:, 1]))
        lo, hi = _count_band(0.5, B)
        expect(lo <= up <= hi, "tie is broken the same way %d of %d times", up, B)
        for j in range(2):
            up = int(np.sum(Z[:, j] > x[0]))
            expect(lo <= up <= hi, "noise is positive %d of %d times", up, B)
            big = int(np.sum(np.abs(Z[:, j] - x[0]) > delta / 4))
            expect(lo <= big <= hi, "noise is above half its maximum %d of %d times", big, B)
    np.random.seed(case["seed"])
    expect(np.array_equal(ut.epsilon_noise(x, **kw), z), "not reproducible")
    expect_raises(lambda: ut.epsilon_noise(np.array([0.0, INF]), **kw), "infinite value")
    return lab or ["round off"]


@st.composite
def mono_case(draw):
    n = draw(st.integers(0, 9))
    el = draw(st.sampled_from([st.integers(-3, 3).map(float), floats(-1e3, 1e3), st.sampled_from([0.0, 5e-324, 1e-300, 1.0, 1.0000000000000002, -1e-300, 1e300, -0.0])]))
    return {"x": draw(st.lists(el, min_size=n, max_size=n)), "y": draw(st.lists(st.integers(-5, 5), min_size=n, max_size=n)), "yp": draw(st.booleans())}


def check_mono(case):
    x = np.array(case["x"], dtype=float)
    n = len(x)
    lab = []
    for copy in (None, True, False):
        a = x.copy()
        r = ut.cummax_strict(a) if copy is None else ut.cummax_strict(a, copy=copy)
        want = []
        for v in case["x"]:
            want.append(v if not want else max(v, math.nextafter(want[-1], INF)) if hasattr(math, "nextafter") else max(v, float(np.nextafter(want[-1], INF))))
        expect(isinstance(r, np.ndarray) and r.tolist() == want, "strictly increasing version of %s is %s", case["x"], r.tolist())
        if copy is False:
            expect(a.tolist() == want, "not in place")
        else:
            expect(np.array_equal(a, x), "modified in spite of copy")
    if n > 1:
        lab.append("cummax")
    # Last of each run of equal points
    xs = np.sort(x)
    yp = np.array(case["y"], dtype=float) if case["yp"] else None
    res = ut.unique_take_last(xs, yp) if case["yp"] else ut.unique_take_last(xs)
    d = {}
    for i, v in enumerate(xs.tolist()):
        d[v] = i
    keep = sorted(d.values())
    expect(len(res) == 2 and [float(v) for v in res[0]] == [xs[i] for i in keep], "unique points of %s: %s", xs.tolist(), res[0])
    if case["yp"]:
        expect([float(v) for v in res[1]] == [case["y"][i] for i in keep], "values at unique points of %s: %s", xs.tolist(), res[1])
    else:
        expect(res[1] is None, "values from nowhere")
    if len(keep) < n:
        lab.append("duplicates")
    if n:
        expect_raises(lambda: ut.unique_take_last(np.append(xs, NAN), None), "NaN point")
        expect_raises(lambda: ut.unique_take_last(xs, np.zeros(n + 1)), "more values than points")
    if n and sorted(case["x"]) != case["x"]:
        expect_raises(lambda: ut.unique_take_last(x), "unsorted points")
    return lab


@st.composite
def clipchk_case(draw):
    lo = draw(st.one_of(st.just(-INF), floats(-10, 10)))
    hi = draw(st.one_of(st.just(INF), floats(0, 10).map(lambda d: (0.0 if lo == -INF else lo) + d)))
    return {"lo": lo, "hi": hi, "a": draw(st.lists(st.tuples(st.sampled_from(["in", "in", "lo", "hi", "lo-", "hi+"]), st.floats(0, 1)), min_size=1, max_size=5)), "out": draw(st.sampled_from([None, None, "lo", "hi"])), "scalar": draw(st.booleans())}


def check_clipchk(case):
    lo, hi = case["lo"], case["hi"]
    fl, fh = max(lo, -20.0), min(hi, 20.0)
    a, want = [], []
    for k, u in case["a"]:
        v = {"in": fl + u * (fh - fl), "lo": fl, "hi": fh, "lo-": fl - 1e-9 * abs(fl), "hi+": fh + 1e-9 * abs(fh)}[k]
        a.append(v)
        want.append(min(hi, max(lo, v)))
    x = np.array(a)
    if case["scalar"]:
        x, want = x[0], want[0]
    got = ut.clip_chk(x, lo, hi)
    expect(np.array_equal(np.asarray(got), np.asarray(want)), "%s clipped to (%r, %r) is %s", a, lo, hi, got)
    if case["out"] == "lo" and lo > -INF:
        expect_raises(lambda: ut.clip_chk(np.append(x, lo - 1e-3 * (1 + abs(lo))), lo, hi), "value clearly below")
    if case["out"] == "hi" and hi < INF:
        expect_raises(lambda: ut.clip_chk(np.append(x, hi + 1e-3 * (1 + abs(hi))), lo, hi), "value clearly above")
    return ["round off"] if any(k in ("lo-", "hi+") for k, _ in case["a"]) else ["inside"]


C31 = Prop(
    "C31",
    [
        Sub("encode_and_normalize", lambda: onehot_case(), check_onehot, 1600, rule="one hot encoding entry by entry; normalization against scalar log-sum-exp, scaling, label order; invalid labels refused"),
        Sub("tie_breaking_noise", lambda: noise_case(), check_noise, 960, rule="noise is bounded, keeps the order, breaks ties at random"),
        Sub("clipping", lambda: clipchk_case(), check_clipchk, 1200, rule="round off beyond limits is clipped, anything larger is refused"),
        Sub("monotone", lambda: mono_case(), check_mono, 1600, rule="minimal strictly increasing version; last of duplicated points"),
    ],
    "Generated labels, log weights (zeros, huge), vectors with ties and adjacent floats. Non-trivial: by label.",
    ["Order and uniqueness after adding noise hold up to the rounding of one addition"],
)

# ============================================================================ C32
# Decimal utilities

_ROUND = {
    "ROUND_HALF_UP": lambda f: math.floor(f + Fraction(1, 2)),
    "ROUND_UP": lambda f: math.ceil(f),
    "ROUND_DOWN": lambda f: math.floor(f),
    "ROUND_HALF_EVEN": lambda f: round(f),
    "ROUND_HALF_DOWN": lambda f: math.ceil(f - Fraction(1, 2)),
    # These two depend on the sign
    "ROUND_CEILING": None,
    "ROUND_FLOOR": None,
}


@st.composite
def decu_case(draw):
    x = draw(
        st.one_of(
            st.floats(allow_nan=False, allow_infinity=False, allow_subnormal=False, min_value=-1e15, max_value=1e15),
            st.tuples(st.integers(-9999, 9999), st.integers(-9, 6)).map(lambda t: float("%de%d" % t)),
            st.integers(-4096, 4096).map(lambda k: k / 64.0),
            st.sampled_from([0.0, -0.0, 9.5, 99.5, 0.995, 0.5, 1e-5, 1e22, 0.1, 2.5e-8]),
        )
    )
    if draw(st.integers(0, 3)) == 0:  # As close to a tie as floats can be
        x = float(np.nextafter(x, draw(st.sampled_from([-INF, INF]))))
    if draw(st.integers(0, 7)) == 0:
        x *= 10.0 ** draw(st.sampled_from([-280, -100, -40, 40, 100, 280]))
    digs = draw(st.lists(st.integers(0, 9), min_size=1, max_size=8) if draw(st.integers(0, 7)) else st.lists(st.integers(0, 9), min_size=25, max_size=70))
    return {
        "x": x,
        "digits": draw(st.one_of(st.integers(1, 12), st.integers(1, 40))),
        "rounding": draw(st.sampled_from([None] + sorted(_ROUND))),
        "sign": draw(st.integers(0, 1)),
        "digs": digs,
        "expo": draw(st.one_of(st.integers(-12, 12), st.integers(-12, 12), st.integers(-1100, 400))),
        "mod": draw(st.integers(1, 9)),
        "bigmod": draw(st.integers(1, 10 ** 20)),
        "int": draw(st.one_of(st.integers(-200, 200), st.integers(-(10 ** 30), 10 ** 30))),
        "s": draw(st.text(alphabet="0123456789.,()-<> ", max_size=10)),
        "npint": draw(st.booleans()),
    }


def check_decu(case):
    x, nd, rd = case["x"], case["digits"], case["rounding"]
    kw = {} if rd is None else {"rounding": rd}
    y = sp.create_decimal(x, nd, **kw)
    expect(isinstance(y, Decimal), "not a decimal: %r", y)
    f = Fraction(x)
    if f == 0:
        expect(y == 0, "0 became %s", y)
    else:
        a = abs(f)
        e = len(str(a.numerator)) - len(str(a.denominator)) - 1
        while Fraction(10) ** (e + 1) <= a:
            e += 1
        while Fraction(10) ** e > a:
            e -= 1
        q = Fraction(10) ** (e - nd + 1)
        rule = {("ROUND_CEILING", True): "ROUND_UP", ("ROUND_CEILING", False): "ROUND_DOWN", ("ROUND_FLOOR", True): "ROUND_DOWN", ("ROUND_FLOOR", False): "ROUND_UP"}.get((rd, f > 0), rd)
        want = _ROUND[rule or "ROUND_HALF_UP"](a / q) * q
        want = want if f > 0 else -want
        expect(Fraction(y) == want, "%r to %d digits (%s) became %s", x, nd, rd, y)
        if (a / q).denominator != 1:  # not exact, so all digits are shown
            expect(len(y.as_tuple().digits) == nd, "%r to %d digits became %s", x, nd, y)
        expect(len(y.as_tuple().digits) <= nd, "%r to %d digits became %s", x, nd, y)
    expect(sp.create_decimal(INF, nd, **kw) == Decimal("Infinity") and sp.create_decimal(-INF, nd, **kw) == Decimal("-Infinity"), "infinity")
    expect(sp.create_decimal(float("nan"), nd, **kw).is_nan(), "NaN")
    # Build, and take apart
    sign, digs, ex = case["sign"], case["digs"], case["expo"]
    val = Fraction(int("".join(map(str, digs)))) * Fraction(10) ** ex * (-1 if sign else 1)
    d = sp.decimal_from_tuple(np.bool_(sign), np.array(digs), np.int64(ex)) if case["npint"] else sp.decimal_from_tuple(bool(sign), digs, ex)
    expect(Fraction(d) == val and d.as_tuple().exponent == ex and d.is_signed() == bool(sign), "sign %s digits %s exponent %s became %s", sign, digs, ex, d)
    t = sp.as_tuple_chk(d)
    expect(sp.decimal_from_tuple(t.sign, t.digits, t.exponent).compare_total(d) == 0, "round trip of %s", d)
    one = sp.decimal_1ek(ex, signed=bool(sign))
    expect(Fraction(one) == Fraction(10) ** ex * (-1 if sign else 1), "10^%d is %s", ex, one)
    expect(Fraction(sp.decimal_1ek(ex)) == Fraction(10) ** ex, "10^%d", ex)
    expect(sp.decimal_1ek("F") == Decimal("Infinity") and sp.decimal_1ek("F", signed=True) == Decimal("-Infinity"), "infinite power")
    expect(Fraction(sp.decimal_eps(d)) == Fraction(10) ** ex, "spacing of %s is %s", d, sp.decimal_eps(d))
    expect(bool(sp.decimal_to_dot(d)) == (ex <= 0), "%s defined to the dot: %s", d, sp.decimal_to_dot(d))
    ds_ = sp.digit_str(d)
    expect(ds_ == str(int("".join(map(str, digs)))), "digits of %s: %r", d, ds_)
    for txt in ("NaN", "sNaN", "-NaN", "Infinity", "-Infinity"):
        t = Decimal(txt).as_tuple()
        expect(str(sp.decimal_from_tuple(t.sign, t.digits, t.exponent)) == txt, "round trip of %s", txt)
    for bad in ("NaN", "Infinity", "-Infinity"):
        expect(not sp.decimal_to_dot(Decimal(bad)), "%s defined to the dot", bad)
        expect_raises(lambda: sp.as_tuple_chk(Decimal(bad)), bad, ValueError)
        expect_raises(lambda: sp.digit_str(Decimal(bad)), bad, ValueError)
        expect(not sp.decimal_all_finite([d, Decimal(bad)]), "%s is taken as finite", bad)
    expect(sp.decimal_all_finite([d, one]) and sp.decimal_all_finite([]), "finite decimals are taken as not")
    # Integers
    k, m = case["int"], case["mod"]
    for b in (m, case.get("bigmod", 7)):
        lo, hi = sp.floor_mod(k, b), sp.ceil_mod(k, b)
        expect(lo % b == 0 and lo <= k < lo + b, "floor of %d to %d is %d", k, b, lo)
        expect(hi % b == 0 and hi - b < k <= hi, "ceiling of %d to %d is %d", k, b, hi)
    expect(sp.str_print_len(case["s"]) == sum(1 for c in case["s"] if c not in ".,"), "width of %r is %r", case["s"], sp.str_print_len(case["s"]))
    for dl in ("(-", " ", ". ", "", "1", "\\^]"):
        expect(ut.remove_chars(case["s"] + " ^", dl) == "".join(c for c in case["s"] + " ^" if c not in dl), "%r removed from %r", dl, case["s"] + " ^")
    expect(sp.all_same([]) and sp.all_same([k] * m) and not sp.all_same([k] * m + [k + 1]) and not sp.all_same([k + 1] + [k] * m), "all same")
    return ["round" if f != 0 else "zero", "to dot" if ex <= 0 else "not to dot"]


C32 = Prop(
    "C32",
    [Sub("decimals", lambda: decu_case(), check_decu, 2400, rule="rounding to significant digits in rational arithmetic for all rounding modes but one; build and take apart; multiples; widths")],
    "Generated floats (ties, powers of ten, signed zeros), digit tuples and integers. Non-trivial: every case, by label.",
)

PROPS = [C30, C31, C32]
