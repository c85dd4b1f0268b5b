"""C05, C07: regression losses, loss tables and predictions."""
import contextlib
import io
import math

import mlpaper.regression as rg
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness.core import Prop, Sub, expect
from harness.gen import INF, NAN, XKINDS, as_arr, dyadic, expect_all_near, expect_near, expect_raises, features, floats, make_index, names, num, same_data, seeds, with_unused

LOG2PI = math.log(2.0 * math.pi)


def ref_nll(y, mu, std):
    z = (y - mu) / std
    return 0.5 * LOG2PI + math.log(std) + 0.5 * (z * z)


REFS = {
    "NLL": (rg.log_loss, ref_nll),
    "MSE": (rg.square_loss, lambda y, mu, std: (y - mu) * (y - mu)),
    "MAE": (rg.abs_loss, lambda y, mu, std: abs(y - mu)),
}

# Far from one, squares may underflow or overflow
extreme = st.sampled_from([0.0, 1e-70, -3e-60, 1e-50, 1e-30, 2e-12, 1e30, -1e50, 1e70])
extreme_std = st.sampled_from([1e-70, 2.5e-60, 1e-50, 1e-30, 1.0, 1e30, 1e50, 1e70])
vals = st.one_of(dyadic, floats(-1e4, 1e4), st.sampled_from([0.0, 1e-8, 1e6, -1e6]))
stds = st.one_of(st.integers(1, 64).map(lambda v: v / 16.0), st.floats(1e-6, 1e4, allow_nan=False), st.sampled_from([1e-8, 1.0, 1e6]))


@st.composite
def loss_case(draw):
    n = draw(st.integers(1, 7))
    return {
        "y": draw(st.lists(vals, min_size=n, max_size=n)),
        "mu": draw(st.lists(vals, min_size=n, max_size=n)),
        "std": draw(st.lists(stds, min_size=n, max_size=n)),
        "copy": draw(st.integers(0, n)),  # This many exact hits
        "rep": draw(st.sampled_from([1, 1, 1, 40])),
        "int_y": draw(st.integers(0, 5)) == 0,
        "dtypes": draw(st.one_of(st.none(), st.none(), st.just(["float32", "float64"]), st.tuples(st.sampled_from(INTS), st.sampled_from(INTS + ["float64"])).map(list))),
    }


INTS = ["uint8", "int8", "uint16", "int32", "uint64", "bool"]


def to_int(x, dt):
    if dt == "float64":
        return x
    if dt == "float32":
        return np.asarray(x).astype(dt)
    if dt == "bool":
        return x > 0
    return np.round(np.clip(x, 0 if dt[0] == "u" else -127, 127)).astype(dt)


@st.composite
def extreme_case(draw):
    n = draw(st.integers(1, 4))
    return {
        "y": draw(st.lists(extreme, min_size=n, max_size=n)),
        "mu": draw(st.lists(extreme, min_size=n, max_size=n)),
        "std": draw(st.lists(extreme_std, min_size=n, max_size=n)),
        "copy": draw(st.integers(0, n)),
        "rep": 1,
        "int_y": False,
    }


def _arrays(case):
    mu, std = np.array(case["mu"] * case["rep"]), np.array(case["std"] * case["rep"])
    y = np.array(case["y"] * case["rep"])
    y[: case["copy"]] = mu[: case["copy"]]
    if case.get("dtypes"):
        ydt, mdt = case["dtypes"]
        y, mu = to_int(y, ydt), to_int(mu, mdt)
    elif case["int_y"]:
        y = np.round(np.clip(y, -1e6, 1e6)).astype(int)
    return y, mu, std


def check_losses(case):
    y, mu, std = _arrays(case)
    y0, mu0, std0 = y.copy(), mu.copy(), std.copy()
    for name, (f, ref) in REFS.items():
        want = np.array([ref(float(a), float(b), float(c)) for a, b, c in zip(y, mu, std)])
        got = f(y, mu, std)
        tol = 0.0 if name != "NLL" else 1e-12 * (1.0 + np.max(np.abs(np.log(std))))
        expect_all_near(got, want, name, rtol=1e-10, atol=tol)
        one = as_arr(f(y[-1:], mu[-1:], std[-1:]), (1,), name)
        expect_near(one[0], want[-1], "%s of a single point" % name, rtol=1e-10, atol=tol)
    sq, ab = as_arr(rg.square_loss(y, mu, std), y.shape, "MSE"), as_arr(rg.abs_loss(y, mu, std), y.shape, "MAE")
    expect(np.all(sq >= 0) and np.all(ab >= 0), "negative error")
    expect(np.array_equal(y, y0) and np.array_equal(mu, mu0) and np.array_equal(std, std0), "a loss modified its input")
    lab = []
    if np.any(y != mu):
        lab.append("errors")
    if case["rep"] > 1:
        lab.append("large")
    if np.any(std != 1.0):
        lab.append("std!=1")
    return lab


@st.composite
def table_case(draw):
    meth = draw(names(1, 4, ints=True))
    n = draw(st.integers(1, 5))
    return {
        "methods": meth,
        "y": draw(st.lists(vals, min_size=n, max_size=n)),
        "mu": [draw(st.lists(vals, min_size=n, max_size=n)) for _ in meth],
        "std": [draw(st.lists(stds, min_size=n, max_size=n)) for _ in meth],
        "metrics": draw(st.lists(st.sampled_from(sorted(REFS)), min_size=1, max_size=3, unique=True)),
        "order": draw(st.sampled_from([["mu", "std"], ["std", "mu"], ["std", "extra", "mu"]])),
        "index": draw(st.sampled_from(["range", "str", "rev", "gap", "dup", "float"])),
        "unused": draw(st.booleans()),
        "dtypes": draw(st.one_of(st.none(), st.none(), st.just(["float32", "float64"]), st.tuples(st.sampled_from(INTS), st.sampled_from(INTS)).map(list))),
        "odd": draw(st.lists(st.sampled_from([NAN, INF, -INF, -2.5, 0.0, 1e300, 7.0]), min_size=1, max_size=3)),
        "bad": draw(st.sampled_from(["std0", "stdneg", "nanmu", "infmu", "nanstd", "infstd", "ynan", "ylen"])),
        "bad_m": draw(st.integers(0, len(meth) - 1)),
        "bad_i": draw(st.integers(0, n - 1)),
    }


def check_table(case):
    meth, n = case["methods"], len(case["y"])
    y = np.array(case["y"])
    dts = case.get("dtypes")
    if dts:
        y = to_int(y, dts[0])
        case = dict(case, y=y.astype(float).tolist(), mu=[to_int(np.array(v), dts[1]).astype(float).tolist() for v in case["mu"]])
    index = make_index(case["index"], n)
    cols = pd.MultiIndex.from_product([meth, case["order"]], names=["method", "moment"])
    tbl = pd.DataFrame(index=index, columns=cols, dtype=float)
    for a, mu, std in zip(meth, case["mu"], case["std"]):
        for m in case["order"]:
            tbl[(a, m)] = {"mu": mu, "std": std, "extra": [7.0] * n}[m]
    if dts:
        tbl = tbl.astype({(a, "mu"): dts[1] for a in meth})
    mets = {m: REFS[m][0] for m in case["metrics"]}
    mets["own"] = lambda y_, mu_, std_: y_.astype(float) + 2 * mu_.astype(float) + 3 * std_
    odd = np.resize(case.get("odd") or [1.0], n)
    mets["odd"] = lambda y_, mu_, std_: odd.copy()
    if case.get("unused"):
        tbl = with_unused(tbl, ["aaa", "removed"], ["mu", "aa"])
    tbl0 = tbl.copy()
    res = rg.loss_table(tbl, y, mets)
    expect(tbl.equals(tbl0), "loss_table modified the prediction table")
    expect(list(res.index) == index, "index %s", list(res.index))
    want_cols = set((m, a) for m in mets for a in meth)
    expect(len(res.columns) == len(want_cols) and set(res.columns) == want_cols, "columns %s", list(res.columns))
    expect(list(res.columns.names) == ["metric", "method"], "column names %s", res.columns.names)
    for a, mu, std in zip(meth, case["mu"], case["std"]):
        for m in case["metrics"]:
            want = [REFS[m][1](p, q, r) for p, q, r in zip(case["y"], mu, std)]
            expect_all_near(res[(m, a)].values, want, "%s of %s" % (m, a), rtol=1e-10, atol=1e-12)
        want = [p + 2 * q + 3 * r for p, q, r in zip(case["y"], mu, std)]
        expect_all_near(res[("own", a)].values, want, "own metric of %s" % a)
        expect_all_near(res[("odd", a)].values, odd, "own metric of %s (values passed on as they are)" % a)
    # Predictions that would let a method cheat
    a, ii = meth[case["bad_m"]], case["bad_i"]
    bad = case["bad"]
    y, tbl = y.astype(float), tbl.astype(float)
    if bad == "ylen":
        y = np.append(y, 0.0)
    elif bad == "ynan":
        y[ii] = NAN
    else:
        col = "mu" if bad.endswith("mu") else "std"
        v = {"std0": 0.0, "stdneg": -1.0, "nanmu": NAN, "infmu": INF, "nanstd": NAN, "infstd": INF}[bad]
        tbl.loc[index[ii], (a, col)] = v
    for m in case["metrics"]:
        expect_raises(lambda: rg.loss_table(tbl, y, {m: REFS[m][0]}), "%s with %s" % (m, bad))
    return [bad] + (["many methods"] if len(meth) > 1 else [])


C05 = Prop(
    "C05",
    [
        Sub("losses_match_definitions", lambda: loss_case(), check_losses, 4000, rule="square, absolute and Gaussian log loss against scalar definitions"),
        Sub("extreme_values", lambda: extreme_case(), check_losses, 600, rule="the same for errors and standard deviations far from one (1e-70 to 1e70)"),
        Sub("table_values", lambda: table_case(), check_table, 700, rule="cells of the loss table, moment order, odd indices; invalid predictions and targets rejected"),
    ],
    "Generated targets, means and standard deviations (ties, exact hits, 1e-8 to 1e6); tables of 1 to 4 methods with moments in any order. Non-trivial: some error is not zero; every table case is.",
    ["Agreement to rtol 1e-10"],
)

# ============================================================================ C07


class _EstStd(object):
    def __init__(self, mu, std, log):
        self.mu, self.std, self.log = mu, std, log

    def fit(self, X, y):
        self.log.append(("fit", np.array(X), np.array(y)))
        return [None, self, ["history"]][len(self.mu) % 3]  # Nothing is known of what fit returns

    def predict(self, X, return_std=False):
        self.log.append(("predict", np.array(X)))
        return (self.mu.copy(), self.std.copy()) if return_std else self.mu.copy()


class _EstNoStd(_EstStd):
    def predict(self, X):
        self.log.append(("predict", np.array(X)))
        return self.mu.copy()


class _EstFails(_EstStd):
    """Raises an error in fit or (with and without std) in predict."""

    def __init__(self, n, where, exc):
        self.n, self.where, self.exc = n, where, exc

    def fit(self, X, y):
        if self.where == "fit":
            raise self.exc("cannot fit")

    def predict(self, X, return_std=False):
        if self.where == "predict":
            raise self.exc("cannot predict")
        if self.where == "predict with std" and return_std:
            raise self.exc("cannot predict std")
        return (np.zeros(self.n), np.ones(self.n)) if return_std else np.zeros(self.n)


@st.composite
def pred_case(draw):
    meth = draw(names(1, 3, ints=True))
    n_test = draw(st.integers(1, 5))
    return {
        "methods": meth,
        "has_std": [draw(st.booleans()) for _ in meth],
        "mu": [draw(st.lists(vals, min_size=n_test, max_size=n_test)) for _ in meth],
        "std": [draw(st.lists(st.one_of(stds, st.just(0.0), st.just(-2.0)), min_size=n_test, max_size=n_test)) for _ in meth],
        "y": draw(st.lists(vals, min_size=1, max_size=6)),
        "d": draw(st.integers(1, 3)),
        "seed": draw(seeds),
        "xkind": draw(st.sampled_from(XKINDS)),
        "floor": draw(st.sampled_from([None, 0.0, 1e-3, 0.5, 2.0, 100.0])),
        "nan": [draw(st.integers(0, 2)), draw(st.integers(0, n_test - 1)), draw(st.sampled_from(["mu", "std"]))] if draw(st.integers(0, 4)) == 0 else None,
        "verbose": draw(st.booleans()),
        "fail": draw(st.sampled_from(["fit", "predict", "predict with std"])),
        "exc": draw(st.sampled_from(["ValueError", "RuntimeError", "MemoryError", "AttributeError", "ZeroDivisionError"])),
        "mu_dtype": draw(st.sampled_from(["float64", "float64", "int64", "float32"])),
    }


def check_pred(case):
    meth = case["methods"]
    r = np.random.RandomState(case["seed"])
    y = np.array(case["y"])
    n_test = len(case["mu"][0])
    X, Xt = (features(r, (m, case["d"]), case.get("xkind", "float")) for m in (len(y), n_test))
    if case["nan"]:
        i, j, w = case["nan"]
        case = dict(case, **{w: [[NAN if (i % len(meth), j) == (u, v) else x for v, x in enumerate(L)] for u, L in enumerate(case[w])]})
    mdt = case["mu_dtype"]
    if mdt != "float64" and not case["nan"]:
        # E.g., an estimator that predicts whole numbers
        case = dict(case, mu=[np.array(v).astype(mdt).astype(float).tolist() for v in case["mu"]])
    else:
        mdt = "float64"
    logs = [[] for _ in meth]
    ests = {}
    for a, h, mu, std, lg in zip(meth, case["has_std"], case["mu"], case["std"], logs):
        ests[a] = (_EstStd if h else _EstNoStd)(np.array(mu).astype(mdt), np.array(std), lg)
    X0, y0, Xt0 = X.copy(), y.copy(), Xt.copy()
    kw = {} if case["floor"] is None else {"min_std": case["floor"]}
    if case["verbose"]:
        kw["verbose"] = True
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        tbl = rg.get_gauss_pred(X, y, Xt, ests, **kw)
    if case["verbose"]:
        expect(all(str(a) in said.getvalue() for a in meth), "verbose output %r does not name all of %s", said.getvalue(), meth)
    else:
        expect(said.getvalue() == "", "output %r although not verbose", said.getvalue())
    expect(tbl.columns.names[0] == "method", "names of columns %s", list(tbl.columns.names))
    expect(same_data(X, X0) and same_data(y, y0) and same_data(Xt, Xt0), "data modified")
    expect(list(tbl.index) == list(range(n_test)), "index %s", list(tbl.index))
    expect(len(tbl.columns) == 2 * len(meth) and set(tbl.columns) == set((a, m) for a in meth for m in ("mu", "std")), "columns %s", list(tbl.columns))
    fl = 0.0 if case["floor"] is None else case["floor"]
    lab = []
    for a, h, mu, std, lg in zip(meth, case["has_std"], case["mu"], case["std"], logs):
        expect([e[0] for e in lg] == ["fit", "predict"], "estimator %s was driven as %s", a, [e[0] for e in lg])
        expect(same_data(lg[0][1], X0) and same_data(lg[0][2], y0), "estimator %s was fit to other data", a)
        expect(same_data(lg[1][1], Xt0), "estimator %s predicted other data", a)
        s = [NAN if math.isnan(v) else max(fl, v) for v in (std if h else [1.0] * n_test)]
        expect_all_near(tbl[(a, "mu")].values, mu, "mean of %s" % a, rtol=1e-12, atol=0.0)
        expect_all_near(tbl[(a, "std")].values, s, "std of %s" % a, rtol=1e-12, atol=0.0)
        if h and min(std) < fl:
            lab.append("floored")
        lab.append("std" if h else "no std")
    # What cannot be a regression problem is refused
    est = _EstNoStd(np.zeros(n_test), None, [])
    for what, f in (
        ("a target too many", lambda: rg.get_gauss_pred(X, np.append(y, 0.0), Xt, {"a": est})),
        ("a column of targets", lambda: rg.get_gauss_pred(X, y[:, None], Xt, {"a": est})),
        ("another number of features", lambda: rg.get_gauss_pred(X, y, np.concatenate((Xt, Xt), axis=1), {"a": est})),
        ("features of another type", lambda: rg.get_gauss_pred(X, y, np.zeros(Xt.shape, dtype=float if X.dtype.kind == "i" else int), {"a": est})),
        ("no test points", lambda: rg.get_gauss_pred(X, y, Xt[:0], {"a": _EstNoStd(np.zeros(0), None, [])})),
        ("a negative minimum", lambda: rg.get_gauss_pred(X, y, Xt, {"a": est}, min_std=-0.5)),
        ("one standard deviation for all points", lambda: rg.get_gauss_pred(X, y, Xt, {"a": _EstStd(np.zeros(n_test), np.array(1.0), [])})),
        ("a column of means", lambda: rg.get_gauss_pred(X, y, Xt, {"a": _EstNoStd(np.zeros((n_test, 1)), None, [])})),
        ("predictions for other points", lambda: rg.get_gauss_pred(X, y, Xt, {"a": _EstNoStd(np.zeros(n_test + 1), None, [])})),
    ):
        expect_raises(f, "predictions with %s" % what)
    exc = {e.__name__: e for e in (ValueError, RuntimeError, MemoryError, AttributeError, ZeroDivisionError)}[case["exc"]]
    expect_raises(lambda: rg.get_gauss_pred(X, y, Xt, {"a": est, "b": _EstFails(n_test, case["fail"], exc)}), "an estimator with a %s in %s" % (case["exc"], case["fail"]))
    if case["fail"] != "predict with std":
        # May be mistaken for a missing option
        expect_raises(lambda: rg.get_gauss_pred(X, y, Xt, {"a": est, "b": _EstFails(n_test, case["fail"], TypeError)}), "an estimator with a TypeError in %s" % case["fail"])
    if len(meth) > 1:
        lab.append("many methods")
    return sorted(set(lab))


@st.composite
def noise_case(draw):
    return {
        "y": draw(st.lists(vals, min_size=2, max_size=12)),
        "rep": draw(st.sampled_from([1, 1, 20])),
        "n_test": draw(st.integers(1, 5)),
        "floor": draw(st.sampled_from([None, 0.25, 10.0])),
        "int_y": draw(st.booleans()),
    }


def check_noise(case):
    from sklearn.dummy import DummyRegressor

    y = np.array(case["y"] * case["rep"])
    if case["int_y"]:
        y = np.round(y).astype(int)
    n, nt = len(y), case["n_test"]
    X, Xt = np.zeros((n, 1)), np.zeros((nt, 1))
    yf = [float(v) for v in y]
    m = math.fsum(yf) / n
    s = math.sqrt(math.fsum((v - m) ** 2 for v in yf) / n)
    big = max(abs(v) for v in yf)
    est = rg.JustNoise()
    est.fit(X, y)
    mu, std = est.predict(Xt, return_std=True)
    expect_all_near(mu, [m] * nt, "baseline mean", atol=1e-9 * (1 + big))
    expect_all_near(std, [s] * nt, "baseline std", atol=1e-8 * (1 + big))
    kw = {} if case["floor"] is None else {"min_std": case["floor"]}
    fl = case["floor"] or 0.0
    tbl = rg.get_gauss_pred(X, y, Xt, {"iid": rg.JustNoise(), "dummy": DummyRegressor(strategy="mean")}, **kw)
    expect_all_near(tbl[("iid", "mu")].values, [m] * nt, "baseline mean in table", atol=1e-9 * (1 + big))
    expect_all_near(tbl[("iid", "std")].values, [max(fl, s)] * nt, "baseline std in table", atol=1e-8 * (1 + big))
    expect_all_near(tbl[("dummy", "mu")].values, [m] * nt, "dummy mean", atol=1e-9 * (1 + big))
    expect_all_near(tbl[("dummy", "std")].values, [max(fl, 0.0)] * nt, "std of dummy (sklearn reports 0)")
    expect_raises(lambda: rg.JustNoise().fit(X[:1], y[:1]), "standard deviation of one target")
    # Refitting forgets the past
    est.fit(X[:2], y[:2])
    mu, std = est.predict(Xt)
    m2 = (yf[0] + yf[1]) / 2.0
    expect_all_near(mu, [m2] * nt, "baseline mean after second fit", atol=1e-9 * (1 + big))
    expect_all_near(std, [abs(yf[0] - yf[1]) / 2.0] * nt, "baseline std after second fit", atol=1e-8 * (1 + big))
    return ["spread"] if s > 0 else []


C07 = Prop(
    "C07",
    [
        Sub("predictions", lambda: pred_case(), check_pred, 800, rule="stub estimators with and without std: table holds mean and floored std of each method; fit once on train data only"),
        Sub("baseline", lambda: noise_case(), check_noise, 800, rule="baseline regressor predicts mean and (population) std of training targets"),
    ],
    "Generated targets, estimator kinds and floors. Non-trivial: all prediction cases; baseline cases with spread in the targets.",
)

PROPS = [C05, C07]
