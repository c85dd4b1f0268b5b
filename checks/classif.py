"""C01 to C04, C06: classification losses, loss tables and predictions."""
import contextlib
import io
import math

import mlpaper.classification as cl
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from mlpaper.util import normalize  # noqa: F401

from harness.core import Prop, Sub, expect
from harness.gen import (
    INF,
    NAN,
    XKINDS,
    as_arr,
    class_problem,
    dyadic,
    expand_class,
    expect_all_near,
    expect_near,
    expect_raises,
    features,
    floats,
    lognorm,
    make_index,
    names,
    num,
    prob_rows,
    ref_brier,
    ref_log_loss,
    ref_losses,
    ref_sphere,
    seeds,
    with_unused,
    same_data,
)

# ============================================================================ C01


LOSSES = {
    "log": (lambda y, lp: cl.log_loss(y, lp), ref_log_loss),
    "brier": (lambda y, lp: cl.brier_loss(y, lp), ref_brier),
    "brier_raw": (lambda y, lp: cl.brier_loss(y, lp, rescale=False), lambda y, lp: ref_brier(y, lp, False)),
    "brier_rs": (lambda y, lp: cl.brier_loss(y, lp, rescale=True), ref_brier),
    "sphere": (lambda y, lp: cl.spherical_loss(y, lp), ref_sphere),
    "sphere_raw": (lambda y, lp: cl.spherical_loss(y, lp, rescale=False), lambda y, lp: ref_sphere(y, lp, False)),
    "sphere_rs": (lambda y, lp: cl.spherical_loss(y, lp, rescale=True), ref_sphere),
}


def _labels_class(y, lp):
    lab = []
    if lp.shape[1] > 1:
        lab.append("n_labels>1")
    if lp.shape[1] == 1 and len(y) > 1:
        lab.append("n_labels=1")
    if np.any(np.isneginf(lp)):
        lab.append("zero-prob")
    if len(y) > 10:
        lab.append("large")
    if y.dtype.kind == "b":
        lab.append("bool")
    return lab


def reject_labels(y, lp, fs):
    """Labels that do not fit the predictions are refused."""
    n, k = lp.shape
    yi = y.astype(int)
    for what, bad in (
        ("label %d of %d" % (k, k), np.where(np.arange(n) == n - 1, k, yi)),
        ("label -1", np.where(np.arange(n) == 0, -1, yi)),
        ("labels of type float", yi.astype(float)),
        ("a label too many", np.append(yi, 0)),
        ("a label missing", yi[1:]),
        ("a column of labels", yi[:, None]),
    ):
        for f in fs:
            expect_raises(lambda: f(bad, lp), what)


def check_losses(case):
    y, raw = expand_class(case)
    lp = lognorm(raw.tolist())
    y0, lp0 = y.copy(), lp.copy()
    for name, (f, ref) in LOSSES.items():
        want = ref_losses(ref, y, lp)
        got = expect_all_near(f(y, lp), want, "%s loss" % name, rtol=1e-10, atol=1e-13)
        # Each data point is scored on its own
        for ii in list(range(len(y)))[:3]:
            one = as_arr(f(y[ii : ii + 1], lp[ii : ii + 1, :]), (1,), name)
            expect_near(one[0], want[ii], "%s loss of single row" % name, rtol=1e-10, atol=1e-13)
    got = as_arr(cl.log_loss(y, lp), y.shape, "log loss")
    expect(np.all(got >= -1e-12), "negative log loss")
    expect(np.array_equal(y, y0) and np.array_equal(lp, lp0), "a loss modified its input")
    reject_labels(y, lp, [f for f, _ in LOSSES.values()])
    return _labels_class(y, lp)


@st.composite
def scale_case(draw):
    k = draw(st.integers(2, 40))
    return {"k": k, "y": draw(st.integers(0, k - 1)), "other": draw(st.integers(0, k - 1))}


def check_scale(case):
    """Perfect is 0, uniform is 1, and certain and wrong is the worst value."""
    k, yy, oth = case["k"], case["y"], case["other"]
    y = np.array([yy, yy, yy])
    lp = np.full((3, k), -INF)
    lp[0, yy] = 0.0
    lp[1, :] = -math.log(k)
    lp[2, oth] = 0.0
    for name, f in (("brier", cl.brier_loss), ("sphere", cl.spherical_loss)):
        v = as_arr(f(y, lp), (3,), name)
        expect_near(v[0], 0.0, "%s of a perfect prediction" % name, atol=1e-13)
        expect_near(v[1], 1.0, "%s of a uniform prediction" % name, rtol=1e-8)
        if oth != yy:
            expect(v[2] > 1.0, "%s: a certain and wrong prediction is better than uniform", name)
    v = as_arr(cl.log_loss(y, lp), (3,), "log loss")
    expect_near(v[0], 0.0, "log loss of a perfect prediction", atol=1e-12)
    expect_near(v[1], math.log(k), "log loss of uniform")
    expect((v[2] == INF) == (oth != yy), "log loss of wrong certain prediction")
    v = as_arr(cl.hard_loss(y, lp), (3,), "zero one loss")
    expect(v[0] == 0.0 and v[2] == (0.0 if oth == yy else 1.0), "zero one loss of certain predictions")
    expect(v[1] in (0.0, 1.0), "zero one loss outside {0, 1}")
    return ["k>=3"] if k >= 3 else ["k=2"]


C01 = Prop(
    "C01",
    [
        Sub("losses_match_definitions", lambda: class_problem(), check_losses, 2400, rule="log, Brier, spherical loss of generated predictive distributions against scalar definitions"),
        Sub("rescaling", lambda: scale_case(), check_scale, 400, rule="perfect = 0, uniform = 1, certain and wrong is worse, for any number of labels"),
    ],
    "Generated labels (int dtypes and bool) and normalized predictive distributions (integer weights with zeros, uniform, perfect, extreme logits; 10% up to 300 points and 30 labels). Non-trivial: more than one label, or several points, or a zero probability.",
    ["Predictive distributions are normalized, as documented", "Agreement to rtol 1e-10, atol 1e-13"],
)

# ============================================================================ C02


@st.composite
def hard_case(draw):
    c = draw(class_problem(max_k=5))
    k = c["big"]["k"] if "big" in c else c["k"]
    kind = draw(st.sampled_from(["none", "int", "float", "square", "neg"]))
    if kind == "none":
        c["mat"] = None
    else:
        n_act = k if kind == "square" else draw(st.integers(1, 6))
        el = {"int": st.integers(0, 5), "square": st.integers(0, 9), "neg": st.integers(-5, 5), "float": floats(-10, 10)}[kind]
        c["mat"] = draw(st.lists(st.lists(el, min_size=n_act, max_size=n_act), min_size=k, max_size=k))
    c["as_float"] = draw(st.booleans())
    if "rows" in c and k > 1 and draw(st.integers(0, 4)) == 0:
        # Actions that almost tie
        base = draw(st.lists(st.sampled_from([0.0, 0.0, -1.0]), min_size=k, max_size=k))
        gap = draw(st.sampled_from([1e-4, 1e-6, 3e-8, 1e-8]))
        c["rows"] = [[b + gap * draw(st.integers(-1, 1)) for b in base] for _ in c["y"]]
        if draw(st.booleans()):
            c["mat"] = None
    if c["mat"] is not None:
        kind = draw(st.sampled_from(["plain", "plain", "tiny", "huge", "rare"]))
        if kind in ("tiny", "huge"):
            sc = draw(st.sampled_from([1e-4, 1e-9, 1e-13, 1e-40, 1e-200] if kind == "tiny" else [1e5, 1e9, 1e15, 1e100]))
            c["mat"] = [[float(v) * sc for v in row] for row in c["mat"]]
        elif kind == "rare" and "rows" in c and k > 1:
            # Unlikely labels with consequences to match
            ex = [draw(st.sampled_from([0, 0, -5, -12, -25, -37])) for _ in range(k)]
            c["mat"] = [[float(v) * math.exp(-e) for v in row] for row, e in zip(c["mat"], ex)]
            c["rows"] = [[float(e) + draw(st.sampled_from([0.0, 0.25, -0.5, 1.0])) for e in ex] for _ in c["y"]]
    return c


def check_hard(case):
    y, raw = expand_class(case)
    lp = lognorm(raw.tolist())
    n, k = lp.shape
    mat = None
    if case["mat"] is not None:
        mat = np.array(case["mat"])
        if case["as_float"]:
            mat = mat.astype(float)
    L = (1.0 - np.eye(k)) if mat is None else mat.astype(float)
    loss = as_arr(cl.hard_loss(y, lp) if mat is None else cl.hard_loss(y, lp, mat), (n,), "hard loss")
    if mat is None:
        loss_b = as_arr(cl.hard_loss(y, lp, loss_mat=None), (n,), "hard loss")
        expect(np.array_equal(loss, loss_b), "default loss matrix differs from None")
    act = as_arr(cl.hard_loss_decision(lp, L if mat is None else mat), (n,), "actions", kinds="iu")
    expect(np.all((0 <= act) & (act < L.shape[1])), "action out of range")
    lab = _labels_class(y, lp)
    n_act = L.shape[1]
    for ii in range(n):
        p = [math.exp(v) for v in lp[ii]]
        E = [math.fsum(p[j] * L[j, a] for j in range(k)) for a in range(n_act)]
        best = min(E)
        # Round-off of these sums
        size = [math.fsum(p[j] * abs(L[j, a]) for j in range(k)) for a in range(n_act)]
        tol = 1e-12 * (size[E.index(best)] + np.array(size))
        expect(E[act[ii]] <= best + tol[act[ii]], "action %d has expected loss %r, action %d has %r", act[ii], E[act[ii]], E.index(best), best)
        ok = [L[int(y[ii]), a] for a in range(n_act) if E[a] <= best + tol[a]]
        expect(any(loss[ii] == v for v in ok), "loss %r is not the loss of an optimal action %r", loss[ii], ok)
        if len(ok) < n_act:
            lab.append("decision")
    want = L[y.astype(int), act]
    expect(np.array_equal(loss, want), "hard loss is not the loss of the decision that was made")
    reject_labels(y, lp, [lambda yy, ll: cl.hard_loss(yy, ll, mat)])
    expect_raises(lambda: cl.hard_loss(y, lp, np.vstack((L, L[:1]))), "loss matrix with too many labels")
    expect_raises(lambda: cl.hard_loss(y, lp, L[:, 0]), "loss matrix with one dimension")
    expect_raises(lambda: cl.hard_loss(y, lp, L[:, :0]), "loss matrix without actions")
    if k > 1:
        expect_raises(lambda: cl.hard_loss(y, lp, L[1:]), "loss matrix with too few labels")
    if mat is not None and n_act != k:
        lab.append("non-square")
    return sorted(set(lab) & {"decision", "non-square", "large", "bool"})


C02 = Prop(
    "C02",
    [Sub("bayes_decision", lambda: hard_case(), check_hard, 2400, rule="action minimizes expected loss; scored with the true label's row of the matrix")],
    "Generated predictive distributions and loss matrices (default, int, float, negative, square and not, tiny and huge losses, huge losses for unlikely labels). Ties: any optimal action is accepted. Non-trivial: at least one action is worse than optimal, or the matrix is not square.",
    ["Finite loss matrices", "Actions whose expected loss is within 1e-12 (of the size of its terms) of the minimum count as optimal"],
)

# ============================================================================ C03


@st.composite
def proper_case(draw):
    k = draw(st.integers(2, 6))
    q = draw(st.lists(st.integers(0, 12), min_size=k, max_size=k))
    p = draw(st.lists(st.integers(0, 12), min_size=k, max_size=k))
    if sum(q) == 0:
        q[0] = 1
    if sum(p) == 0:
        p[-1] = 1
    return {"q": q, "p": p}


def check_proper(case):
    q, p = case["q"], case["p"]
    k = len(q)
    lw = lognorm([[math.log(v) if v else -INF for v in w] for w in (q, p)])
    qn = [v / float(sum(q)) for v in q]
    y = np.arange(k)
    tv = sum(abs(a / float(sum(q)) - b / float(sum(p))) for a, b in zip(q, p))
    for name, f, strict in (
        ("log loss", cl.log_loss, True),
        ("Brier loss", cl.brier_loss, True),
        ("raw Brier loss", lambda a, b: cl.brier_loss(a, b, rescale=False), True),
        ("spherical loss", cl.spherical_loss, True),
        ("raw spherical loss", lambda a, b: cl.spherical_loss(a, b, rescale=False), True),
        ("zero one loss", cl.hard_loss, False),
    ):
        Eq, Ep = [], []
        lq = as_arr(f(y, np.repeat(lw[:1], k, axis=0)), (k,), name)
        lp = as_arr(f(y, np.repeat(lw[1:], k, axis=0)), (k,), name)
        for j in range(k):
            if q[j] > 0:
                Eq.append(qn[j] * lq[j])
                Ep.append(qn[j] * lp[j])
        Eq, Ep = math.fsum(Eq), math.fsum(Ep)
        expect(Eq <= Ep + 1e-9, "%s: predicting %s scores %r, the true distribution %r", name, p, Ep, Eq)
        if strict and tv > 1e-9:
            expect(Eq < Ep, "%s does not tell %s from the true distribution %s", name, p, q)
    return ["p!=q"] if tv > 1e-9 else []


@st.composite
def proper_regr_case(draw):
    n = draw(st.integers(2, 8))
    y = draw(st.lists(dyadic, min_size=n, max_size=n))
    return {"y": y, "mu": draw(dyadic), "std": draw(st.integers(1, 80)) / 16.0, "near": draw(st.booleans()), "pow": draw(st.sampled_from([0, 0, -10, -30, 20]))}


def check_proper_regr(case):
    import mlpaper.regression as rg

    c = 2.0 ** case["pow"]
    y = np.array(case["y"]) * c
    n = len(y)
    m = math.fsum(y) / n
    s = math.sqrt(math.fsum((v - m) ** 2 for v in y) / n)
    med = float(np.median(y))
    a_, b_ = case["mu"] * c, case["std"] * c
    if case["near"] and s > 1e-3 * c:  # The competitor is close to the best, but for one of mean and spread
        a_, b_ = (m, s * (1.0 + 0.01 * case["std"])) if case["mu"] > 0 else (m + 0.01 * s * case["mu"], s)
    mu, std = np.full(n, a_), np.full(n, b_)
    one = np.ones(n)

    def avg(f, a, b):
        return math.fsum(as_arr(f(y, a, b), (n,), "loss")) / n

    tol = 1e-9 * (max(abs(y)) ** 2 + a_ ** 2)
    tol1 = 1e-9 * (max(abs(y)) + abs(a_))
    expect(avg(rg.square_loss, m * one, one) <= avg(rg.square_loss, mu, std) + tol, "mean does not minimize square loss")
    expect(avg(rg.abs_loss, med * one, one) <= avg(rg.abs_loss, mu, std) + tol1, "median does not minimize absolute loss")
    if s > 1e-3 * c:
        tol2 = 1e-9 * (1.0 + (max(abs(y)) + abs(a_)) ** 2 / min(s, b_) ** 2)
        expect(avg(rg.log_loss, m * one, s * one) <= avg(rg.log_loss, mu, std) + tol2, "mean and std do not minimize Gaussian log loss")
        # And they are the only best ones
        gap = math.log(b_ / s) + (s * s + (m - a_) ** 2) / (2.0 * b_ * b_) - 0.5
        if gap > 1e-6 + 10 * tol2:
            expect(avg(rg.log_loss, mu, std) > avg(rg.log_loss, m * one, s * one), "Gaussian log loss does not tell (%r, %r) from the fit", a_, b_)
        return ["spread"]
    return []


C03 = Prop(
    "C03",
    [
        Sub("propriety", lambda: proper_case(), check_proper, 2000, rule="expected score of truth q <= that of p for all standard classification losses, strictly for the strictly proper ones"),
        Sub("propriety_regression", lambda: proper_regr_case(), check_proper_regr, 1200, rule="mean/median/Gaussian fit minimize the average square/absolute/log loss on generated targets"),
    ],
    "Pairs of generated distributions (integer weights with zeros) on 2 to 6 labels, expectation summed exactly over labels; generated regression targets against an arbitrary competing prediction. Non-trivial: the two distributions differ (targets have spread).",
)

# ============================================================================ C04

METRIC_FS = {
    "NLL": (cl.log_loss, ref_log_loss),
    "Brier": (cl.brier_loss, ref_brier),
    "sphere": (cl.spherical_loss, ref_sphere),
    "zero_one": (cl.hard_loss, None),
}


@st.composite
def table_case(draw, reject=False):
    meth = draw(names(1, 4, ints=True))
    k = draw(st.integers(2 if reject else 1, 5))
    n = draw(st.integers(1, 6))
    c = {
        "methods": meth,
        "k": k,
        "y": draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n)),
        "rows": [draw(prob_rows(n, k)) for _ in meth],
        "metrics": draw(st.lists(st.sampled_from(sorted(METRIC_FS)), min_size=1, max_size=4, unique=True)),
        "index": draw(st.sampled_from(["range", "str", "rev", "gap", "dup", "float"])),
        "shift": draw(st.lists(st.sampled_from([0.0, -3.0, 100.0, 2.5, 1e-3, 1e-5, -1e-6, 1e-7, 3e-9, -2000.0, 1e5]), min_size=n, max_size=n)),
        "base": draw(st.sampled_from(["raw", "raw", "normalized"])),
        "mode": draw(st.sampled_from(["plain", "kw", "assume"])),
        "unused": draw(st.booleans()),
        "odd": draw(st.lists(st.sampled_from([NAN, INF, -INF, -2.5, 0.0, 1e300, 7.0]), min_size=1, max_size=3)),
    }
    if reject:
        c["bad"] = draw(st.sampled_from(["nan", "order", "y_high", "y_neg", "y_len", "y_float", "missing"]))
        c["bad_m"] = draw(st.integers(0, len(meth) - 1))
        c["bad_i"] = draw(st.integers(0, n - 1))
        c["bad_j"] = draw(st.integers(0, k - 1))
    return c


def pred_frame(meth, raws, k, index):
    cols = pd.MultiIndex.from_product([meth, range(k)], names=["method", "label"])
    return pd.DataFrame(np.concatenate([np.asarray(r, dtype=float) for r in raws], axis=1), index=index, columns=cols, dtype=float)


def check_table(case):
    meth, k, y = case["methods"], case["k"], np.array(case["y"])
    n = len(y)
    index = make_index(case["index"], n)
    raws = [np.array(r, dtype=float).reshape(n, k) for r in case["rows"]]
    norm = [lognorm(r.tolist()) for r in raws]
    assume = case["mode"] == "assume"
    if assume or case.get("base") == "normalized":
        raws = norm
    tbl = pred_frame(meth, raws, k, index)
    if case.get("unused"):
        tbl = with_unused(tbl, ["aaa", "removed"], [0, k])
    tbl0 = tbl.copy()
    seen = []

    def spy(y_, lp_):
        seen.append(np.array(lp_, dtype=float))
        return np.exp(lp_[:, 0]) + 10.0 * y_

    mets = {m: METRIC_FS[m][0] for m in case["metrics"]}
    mets["spy metric"] = spy
    odd = np.resize(case.get("odd") or [1.0], n)
    mets["odd metric"] = lambda y_, lp_: odd.copy()
    if assume:
        res = cl.loss_table(tbl, y, mets, assume_normalized=True)
    elif case["mode"] == "kw":
        res = cl.loss_table(tbl, y, mets, assume_normalized=False)
    else:
        res = cl.loss_table(tbl, y, mets)
    expect(tbl.equals(tbl0), "loss_table modified the prediction table")
    expect(list(res.index) == index, "index of loss table %s, of predictions %s", list(res.index), index)
    want_cols = set((m, a) for m in mets for a in meth)
    expect(len(res.columns) == len(want_cols) and set(res.columns) == want_cols, "columns %s", list(res.columns))
    expect(list(res.columns.names) == ["metric", "method"], "column names %s", res.columns.names)
    for a, lp in zip(meth, norm):
        for m in case["metrics"]:
            col = as_arr(res[(m, a)].values, (n,), "column")
            if m == "zero_one":
                expect(set(col.tolist()) <= {0.0, 1.0}, "zero one loss outside {0, 1}")
                for ii in range(n):
                    mx = max(lp[ii])
                    tie = [j for j in range(k) if lp[ii][j] >= mx - 1e-9]
                    if y[ii] not in tie:
                        expect(col[ii] == 1.0, "zero one loss of a wrong prediction is %r", col[ii])
                    elif len(tie) == 1:
                        expect(col[ii] == 0.0, "zero one loss of a right prediction is %r", col[ii])
            else:
                expect_all_near(col, ref_losses(METRIC_FS[m][1], y, lp), "%s of %s" % (m, a), rtol=1e-10, atol=1e-12)
        expect_all_near(res[("spy metric", a)].values, np.exp(lp[:, 0]) + 10.0 * y, "custom metric of %s" % a, atol=1e-12)
        expect_all_near(res[("odd metric", a)].values, odd, "custom metric of %s (values passed on as they are)" % a)
    for arr in seen:
        expect_all_near(np.sum(np.exp(arr), axis=1), np.ones(n), "a metric was given unnormalized predictions", rtol=1e-8)
    lab = []
    if not assume:
        sh = np.array(case["shift"])[:, None]
        tbl2 = pred_frame(meth, [r + sh for r in raws], k, index)
        res2 = cl.loss_table(tbl2, y, {m: METRIC_FS[m][0] for m in case["metrics"] if m != "zero_one"} or {"NLL": cl.log_loss})
        for m, a in res2.columns:
            ref = METRIC_FS[m][1]
            tol = 1e-12 * (1.0 + np.max(np.abs(sh)))
            expect_all_near(res2[(m, a)].values, ref_losses(ref, y, norm[meth.index(a)]), "%s of rescaled %s" % (m, a), rtol=1e-10, atol=tol)
        if np.any(sh != 0) and k > 1:
            lab.append("shifted")
        lab.append("unnormalized")
    else:
        lab.append("assume_normalized")
    if len(meth) > 1:
        lab.append("many methods")
    if meth != sorted(meth):
        lab.append("unsorted")
    return lab


def check_table_reject(case):
    meth, k, y = case["methods"], case["k"], np.array(case["y"])
    n = len(y)
    index = make_index(case["index"], n)
    raws = [np.array(r, dtype=float).reshape(n, k) for r in case["rows"]]
    mets = {m: METRIC_FS[m][0] for m in case["metrics"]}
    bad, bm, bi, bj = case["bad"], case["bad_m"], case["bad_i"], case["bad_j"]
    tbl = pred_frame(meth, raws, k, index)
    cl.loss_table(tbl, y, mets)  # Fine before it is spoiled
    if bad == "nan":
        tbl.iloc[bi, bm * k + bj] = NAN
    elif bad == "order":
        cols = list(tbl.columns)
        c1, c2 = bm * k, bm * k + max(1, bj)
        cols[c1], cols[c2] = cols[c2], cols[c1]
        tbl = tbl[pd.MultiIndex.from_tuples(cols, names=["method", "label"])]
    elif bad == "missing":
        if len(meth) < 2 or k < 2:
            return []
        tbl = tbl[[c for j, c in enumerate(tbl.columns) if j != bm * k + bj]]
    elif bad == "y_high":
        y = y.copy()
        y[bi] = k
    elif bad == "y_neg":
        y = y.copy()
        y[bi] = -1
    elif bad == "y_len":
        y = np.append(y, 0)
    else:
        y = y.astype(float)
    expect_raises(lambda: cl.loss_table(tbl, y, mets), "loss table with %s" % bad)
    expect_raises(lambda: cl.loss_table(tbl, y, mets, assume_normalized=True), "loss table (assume_normalized) with %s" % bad)
    return [bad]


C04 = Prop(
    "C04",
    [
        Sub("table_values", lambda: table_case(), check_table, 560, rule="each cell equals the reference loss of the normalized prediction of that method; index, columns, custom metrics"),
        Sub("rejects_cheating", lambda: table_case(reject=True), check_table_reject, 480, rule="NaN, mixed up label columns, out of range, float or misaligned labels are rejected"),
    ],
    "Generated tables of several methods (unsorted names, odd indices) with unnormalized log weights; every cell compared to own normalization and scalar losses; per-row rescaling must not matter. Non-trivial: unnormalized input, or several methods; every rejection case is non-trivial.",
)

# ============================================================================ C06


class _Est(object):
    """Stand-in estimator that records what it is given."""

    def __init__(self, mode, raw, log):
        self.mode, self.raw, self.log = mode, raw, log

    def fit(self, X, y):
        self.log.append(("fit", np.array(X), np.array(y)))
        return [None, self, ["history"]][len(self.raw) % 3]  # Nothing is known of what fit returns

    def predict_proba(self, X):
        self.log.append(("predict", np.array(X)))
        return np.exp(self.raw)


class _EstLog(_Est):
    def predict_log_proba(self, X):
        if self.mode == "raises":
            raise NotImplementedError("no log proba")
        self.log.append(("predict", np.array(X)))
        return self.raw.copy()


class _EstConst(object):
    """Always predicts the same row, it does not depend on the test set size."""

    def __init__(self, row):
        self.row = np.array(row)

    def fit(self, X, y):
        pass

    def predict_log_proba(self, X):
        return np.repeat(self.row[None, :], len(X), axis=0)


class _EstFails(object):
    """Raises an error in fit or in all kinds of prediction."""

    def __init__(self, n, k, where, exc):
        self.n, self.k, self.where, self.exc = n, k, where, exc

    def fit(self, X, y):
        if self.where == "fit":
            raise self.exc("cannot fit")

    def predict_log_proba(self, X):
        if self.where == "predict":
            raise self.exc("cannot predict")
        return np.zeros((self.n, self.k))

    def predict_proba(self, X):
        return np.exp(self.predict_log_proba(X))


@st.composite
def pred_case(draw):
    meth = draw(names(1, 3, ints=True))
    k = draw(st.integers(1, 4))
    n_train, n_test, d = draw(st.integers(1, 6)), draw(st.integers(1, 5)), draw(st.integers(1, 3))
    bool_y = draw(st.booleans())
    return {
        "methods": meth,
        "k": k,
        "modes": [draw(st.sampled_from(["log", "proba", "raises"])) for _ in meth],
        "rows": [draw(prob_rows(n_test, k)) for _ in meth],
        "y": draw(st.lists(st.integers(0, min(1, k - 1) if bool_y else k - 1), min_size=n_train, max_size=n_train)),
        "bool_y": bool_y,
        "n_test": n_test,
        "d": d,
        "seed": draw(seeds),
        "floor": draw(st.one_of(st.none(), st.sampled_from([-0.01, -1.0, -5.0, -1e-9, -40.0, -1000.0]), floats(-50, -0.001))),
        "extra_dim": draw(st.integers(0, 4)) == 0,
        "xkind": draw(st.sampled_from(XKINDS)),
        "nan": [draw(st.integers(0, 2)), draw(st.integers(0, n_test - 1)), draw(st.integers(0, k - 1))] if draw(st.integers(0, 4)) == 0 else None,
        "verbose": draw(st.booleans()),
        "fail": [draw(st.sampled_from(["fit", "predict"])), draw(st.sampled_from(["ValueError", "RuntimeError", "AttributeError", "NotImplementedError", "TypeError"]))],
    }


def floor_norm(raw, floor):
    """Own oracle: floor the log probabilities then normalize."""
    return lognorm(np.maximum(-INF if floor is None else floor, raw).tolist())


def _pred_data(case):
    r = np.random.RandomState(case["seed"])
    y = np.array(case["y"], dtype=bool if case["bool_y"] else int)
    shp = (case["d"],) + ((2,) if case["extra_dim"] else ())
    kind = case.get("xkind", "float")
    return features(r, (len(y),) + shp, kind), y, features(r, (case["n_test"],) + shp, kind)


def check_pred(case):
    meth, k, n_test = case["methods"], case["k"], case["n_test"]
    Xtr, ytr, Xte = _pred_data(case)
    raws = []
    for mode, rows in zip(case["modes"], case["rows"]):
        raw = np.array(rows, dtype=float).reshape(n_test, k)
        if mode != "log":  # has to survive exp(), but need not be normalized
            raw = np.clip(raw, -600, 600)
            raw[np.array(rows, dtype=float).reshape(n_test, k) == -INF] = -INF
        raws.append(raw)
    lost = {}
    if case["nan"]:
        i, j, l = case["nan"]
        raws[i % len(meth)][j, l] = NAN
        lost = {i % len(meth): j}
    logs = [[] for _ in meth]
    ests = {}
    for a, mode, raw, lg in zip(meth, case["modes"], raws, logs):
        ests[a] = (_Est if mode == "proba" else _EstLog)(mode, raw, lg)
    X0, y0, X1 = Xtr.copy(), ytr.copy(), Xte.copy()
    kw = {}
    if case["floor"] is not None:
        kw["min_log_prob"] = case["floor"]
    if case["verbose"]:
        kw["verbose"] = True
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        tbl = cl.get_pred_log_prob(Xtr, ytr, Xte, k, ests, **kw)
    if case["verbose"]:
        expect(all(str(a) in said.getvalue() for a in meth), "verbose output %r does not name all of %s", said.getvalue(), meth)
    else:
        expect(said.getvalue() == "", "output %r although not verbose", said.getvalue())
    expect(list(tbl.columns.names) == ["method", "label"], "names of columns %s", list(tbl.columns.names))
    expect(same_data(Xtr, X0) and same_data(ytr, y0) and same_data(Xte, X1), "data modified")
    expect(list(tbl.index) == list(range(n_test)), "index %s", list(tbl.index))
    expect(len(tbl.columns) == len(meth) * k and set(tbl.columns) == set((a, j) for a in meth for j in range(k)), "columns %s", list(tbl.columns))
    lab = []
    for i, (a, raw, lg) in enumerate(zip(meth, raws, logs)):
        ops = [e[0] for e in lg]
        expect(ops == ["fit", "predict"], "estimator %s was driven as %s", a, ops)
        expect(same_data(lg[0][1], X0) and same_data(lg[0][2], y0), "estimator %s was fit to other data", a)
        expect(same_data(lg[1][1], X1), "estimator %s predicted other data", a)
        got = tbl[a]
        expect(list(got.columns) == list(range(k)), "label columns of %s are %s", a, list(got.columns))
        keep = np.ones(n_test, dtype=bool)
        if i in lost:
            # Not a prediction, and the user has to find out
            keep[lost[i]] = False
            expect(np.any(np.isnan(got.values[lost[i]])), "NaN predicted by %s has become %s", a, got.values[lost[i]])
            lab.append("NaN")
        want = floor_norm(raw[keep], case["floor"]) if np.any(keep) else np.zeros((0, k))
        expect_all_near(got.values[keep], want, "prediction of %s" % a, rtol=1e-8, atol=1e-9)
        expect_all_near(np.sum(np.exp(got.values[keep]), axis=1), np.ones(int(np.sum(keep))), "total probability of %s" % a, rtol=1e-8)
        if case["floor"] is not None and np.any(raw < case["floor"]):
            lab.append("floored")
    # What cannot be a classification problem is refused before anything is fit
    row = _EstConst([0.0] * k)
    yi = ytr.astype(int)
    for what, f in (
        ("a label too many", lambda: cl.get_pred_log_prob(Xtr, np.append(ytr, ytr[:1]), Xte, k, {"a": row})),
        ("label %d of %d" % (k, k), lambda: cl.get_pred_log_prob(Xtr, np.append(yi[1:], k), Xte, k, {"a": row})),
        ("label -1", lambda: cl.get_pred_log_prob(Xtr, np.append(yi[1:], -1), Xte, k, {"a": row})),
        ("labels of type float", lambda: cl.get_pred_log_prob(Xtr, yi.astype(float), Xte, k, {"a": row})),
        ("another number of features", lambda: cl.get_pred_log_prob(Xtr, ytr, np.concatenate((Xte, Xte), axis=1), k, {"a": row})),
        ("features of another type", lambda: cl.get_pred_log_prob(Xtr, ytr, np.zeros(Xte.shape, dtype=float if Xtr.dtype.kind == "i" else int), k, {"a": row})),
        ("no test points", lambda: cl.get_pred_log_prob(Xtr, ytr, Xte[:0], k, {"a": row})),
        ("probability floor of 1", lambda: cl.get_pred_log_prob(Xtr, ytr, Xte, k, {"a": row}, min_log_prob=0.0)),
        ("probability floor above 1", lambda: cl.get_pred_log_prob(Xtr, ytr, Xte, k, {"a": row}, min_log_prob=0.5)),
        ("a prediction for another number of labels", lambda: cl.get_pred_log_prob(Xtr, ytr, Xte, k + 1, {"a": row})),
    ):
        expect_raises(f, "predictions with %s" % what)
    exc = {e.__name__: e for e in (ValueError, RuntimeError, AttributeError, NotImplementedError, TypeError)}[case["fail"][1]]
    expect_raises(lambda: cl.get_pred_log_prob(Xtr, ytr, Xte, k, {"a": row, "b": _EstFails(n_test, k, case["fail"][0], exc)}), "an estimator with a %s in %s" % tuple(case["fail"][::-1]))
    if len(meth) > 1:
        lab.append("many methods")
    lab += sorted(set(case["modes"])) if k > 1 else []
    return lab


@st.composite
def noise_case(draw):
    k = draw(st.integers(1, 5))
    bool_y = draw(st.booleans())
    n = draw(st.one_of(st.integers(1, 8), st.integers(30, 200)))
    return {
        "k": k,
        "y": draw(st.lists(st.integers(0, min(1, k - 1) if bool_y else k - 1), min_size=n, max_size=n)),
        "bool_y": bool_y,
        "pc": draw(st.sampled_from([0.0, 0.0, 1.0, 0.5, 3])),
        "n_test": draw(st.integers(1, 5)),
        "floor": draw(st.sampled_from([None, None, -2.0])),
    }


def check_noise(case):
    from sklearn.dummy import DummyClassifier

    k, pc = case["k"], case["pc"]
    y = np.array(case["y"], dtype=bool if case["bool_y"] else int)
    X, Xt = np.zeros((len(y), 1)), np.zeros((case["n_test"], 1))
    cnt = [case["y"].count(j) for j in range(k)]
    want = [math.log((c + pc) / (len(y) + k * float(pc))) if c + pc > 0 else -INF for c in cnt]
    est = cl.JustNoise(k, pc)
    est.fit(X, y)
    got = est.predict_log_proba(Xt)
    expect_all_near(got, [want] * case["n_test"], "class frequency prediction")
    kw = {} if case["floor"] is None else {"min_log_prob": case["floor"]}
    meths = {"iid": cl.JustNoise(n_labels=k, pseudo_count=pc)}
    full = all(c > 0 for c in cnt)
    if full and not case["bool_y"]:
        meths["dummy"] = DummyClassifier(strategy="prior")
    tbl = cl.get_pred_log_prob(X, y, Xt, k, meths, **kw)
    expect_all_near(tbl["iid"].values, floor_norm(np.array([want] * case["n_test"]), case["floor"]), "table of class frequencies")
    if "dummy" in meths and pc == 0:
        expect_all_near(tbl["iid"].values, tbl["dummy"].values, "JustNoise against DummyClassifier")
    if k == 2:
        two = cl.JustNoise()
        two.fit(X, y)
        cnt2 = [math.log(c / float(len(y))) if c else -INF for c in cnt]
        expect_all_near(two.predict_log_proba(Xt), [cnt2] * case["n_test"], "class frequency prediction with default options")
        two = cl.JustNoise(pseudo_count=pc)
        two.fit(X, y)
        expect_all_near(two.predict_log_proba(Xt), [want] * case["n_test"], "class frequency prediction of two labels")
    # Refitting forgets the past
    est.fit(X[:1], y[:1])
    got = est.predict_log_proba(Xt)
    want1 = [math.log((c + pc) / (1 + k * float(pc))) if c + pc > 0 else -INF for c in [1 if int(y[0]) == j else 0 for j in range(k)]]
    expect_all_near(got, [want1] * case["n_test"], "class frequency prediction after a second fit")
    lab = []
    if k > 1:
        lab.append("k>1")
    if not full:
        lab.append("unseen label")
    if case["bool_y"]:
        lab.append("bool")
    return lab


C06 = Prop(
    "C06",
    [
        Sub("predictions", lambda: pred_case(), check_pred, 800, rule="stub estimators (log proba, proba only, log proba failing): table holds floored and normalized prediction of each method on the test points; fit once, on train data only"),
        Sub("class_frequencies", lambda: noise_case(), check_noise, 800, rule="baseline classifier equals (pseudo-counted) class frequencies and sklearn's prior dummy"),
    ],
    "Generated data sets, estimator kinds, label types and floors. Non-trivial: more than one label, several methods, or a prediction that is floored.",
    ["Each predicted row gives some label positive probability"],
)

PROPS = [C01, C02, C03, C04, C06]
