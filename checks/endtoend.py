"""C33: from estimators and data to the printed report, against independent arithmetic."""
import math
import re

import mlpaper.classification as cl
import mlpaper.regression as rg
import mlpaper.sciprint as sp
import numpy as np
from hypothesis import strategies as st
from mlpaper.mlpaper import loss_summary_table

from checks.classif import floor_norm
from checks.curves import ref_auc, ref_step_area
from checks.fmt import Latex, header, last_digit, parse_cell, pow10, split_latex, split_text
from checks.regr import ref_nll
from checks.stats import moments, ref_t_EB, ref_t_test
from harness.core import Prop, Sub, expect
from harness.gen import INF, expect_near, lognorm, near, ref_brier, ref_log_loss, ref_sphere, seeds

POOL = ["foo", "bar", "GP", "knn", "Iid", "a", "zeta", "method_1", "10", "2"]


class Lin(object):
    """Linear logits, the intercept is learned (sum of labels)."""

    def __init__(self, W, log):
        self.W, self.log = np.array(W, dtype=float), log

    def fit(self, X, y):
        self.b = float(np.mean(np.asarray(y, dtype=float))) * np.arange(self.W.shape[1])

    def raw(self, X):
        r = np.dot(X, self.W) + self.b
        m = np.max(r, axis=1, keepdims=True)
        return r - m - np.log(np.sum(np.exp(r - m), axis=1, keepdims=True))

    def predict_proba(self, X):
        return np.exp(self.raw(X))

    def predict_log_proba(self, X):
        if not self.log:
            raise NotImplementedError()
        return self.raw(X)


class LinReg(object):
    def __init__(self, w, s):
        self.w, self.s = np.array(w, dtype=float), s

    def fit(self, X, y):
        self.m = float(np.sum(y)) / len(y)

    def predict(self, X, return_std=False):
        mu = np.dot(X, self.w) + self.m
        if not return_std:
            return mu
        if self.s is None:
            raise TypeError("no std")
        return mu, self.s * (1.0 + np.abs(X[:, 0]))


@st.composite
def report_opts(draw):
    return {
        "mod": draw(st.sampled_from([1, 3, 3, None])),
        "tex": draw(st.booleans()),
        "prefix": draw(st.booleans()),
        "unit": draw(st.sampled_from([None, "s", "nats"])),
        "pairwise": draw(st.sampled_from([None, False, True])),
    }


@st.composite
def cls_case(draw, curves):
    meth = draw(st.lists(st.sampled_from(POOL), min_size=2, max_size=4, unique=True))
    k = 2 if curves else draw(st.integers(2, 4))
    c = draw(report_opts())
    el = st.integers(-3, 3)
    c.update(
        methods=meth,
        W=[draw(st.lists(st.lists(el, min_size=k, max_size=k), min_size=2, max_size=2)) for _ in meth],
        log=[draw(st.booleans()) for _ in meth],
        noise=draw(st.booleans()),
        k=k,
        n=draw(st.integers(3, 30 if curves else 80)),
        seed=draw(seeds),
        ref=draw(st.integers(0, 3)),
        floor=draw(st.sampled_from([None, -2.0])),
        bool_y=draw(st.booleans()) if k == 2 else False,
        scale=draw(st.sampled_from([0.5, 1.0, 3.0])),
        curves=draw(st.lists(st.sampled_from(["AUC", "AP", "AUPRG"]), min_size=1, max_size=3, unique=True)) if curves else [],
    )
    return c


def kwargs(case):
    return {} if case["pairwise"] is None else {"pairwise_CI": case["pairwise"]}


def expected(L, methods, metrics, ref, pairwise):
    """{(method, metric): (mean, error, p)} from losses by point, in plain arithmetic."""
    out = {}
    for m in methods:
        for t in metrics:
            x, xr = L[m, t], L[ref, t]
            mu = math.fsum(x) / len(x) if np.all(np.isfinite(x)) else INF
            with np.errstate(invalid="ignore"):
                d = np.array([a - b for a, b in zip(x, xr)])
            if m == ref:
                out[m, t] = (mu, math.nan if pairwise else ref_t_EB(x, 0.95), math.nan, True)
            else:
                out[m, t] = (mu, ref_t_EB(d if pairwise else x, 0.95), ref_t_test(d), ok_test(d, x, xr, t == "zero_one"))
    return out


def ok_test(d, x, xr, exact):
    """If the p-value is not decided by round off."""
    if np.any(np.isnan(d)):
        return False
    if not np.all(np.isfinite(d)) or len(d) < 2 or (exact and not np.any(d)):
        return True
    _, ss = moments(d)
    return math.sqrt(ss / len(d)) > 1e-6 * (1e-3 + float(np.max(np.abs(x))) + float(np.max(np.abs(xr))))


def check_table(tbl, want, what):
    for (m, t), (mu, EB, p, ok) in want.items():
        g = [float(tbl.loc[m, (t, s)]) for s in ("mean", "error", "p")]
        expect_near(g[0], mu, "%s: mean %s of %s" % (what, t, m), rtol=1e-7, atol=1e-8)
        expect_near(g[1], EB, "%s: error bar %s of %s" % (what, t, m), rtol=1e-6, atol=1e-8 * (1.0 + (abs(mu) if math.isfinite(mu) else 0.0)))
        if ok:
            expect_near(g[2], p, "%s: p-value %s of %s" % (what, t, m), rtol=1e-5, atol=1e-7)


def read_report(out, methods, metrics, case):
    """{(method, metric): (text, shift, p-value text)}"""
    n_met = len(metrics)
    tex, prefix, unit = case["tex"], case["prefix"], case["unit"]
    mets = sorted(metrics)
    if tex:
        head, body = split_latex(out, len(methods), 2 * n_met, n_met)
        body = [[(c, 0) for c in row] for row in body]
        flat = [h for h in head[1:]]
    else:
        head, body = split_text(out, len(methods), 2 * n_met)
        flat = head.split()
    shifts, pos = {}, 0
    for m in mets:
        found = []
        for k in range(-40, 41):
            h = header(m, "estimate", k, unit, prefix, tex)
            hp = header(m, "p", k, unit, prefix, tex)
            want = [h, hp] if tex else h.split() + hp.split()
            if flat[pos : pos + len(want)] == want:
                found.append((k, len(want)))
        expect(len(found) == 1, "header %r: no (unique) scale of %s", head, m)
        shifts[m] = found[0][0]
        pos += found[0][1]
    expect(pos == len(flat), "header %r: more than the metrics", head)
    expect(sorted(r[0][0] for r in body) == sorted(methods), "rows are %s", [r[0][0] for r in body])
    res = {}
    for i, m in enumerate(mets):
        if not tex:
            expect(len(set(r[1 + 2 * i][1] + last_digit(r[1 + 2 * i][0]) for r in body)) == 1, "decimal points of %s do not line up", m)
        for r in body:
            res[r[0][0], m] = (r[1 + 2 * i][0], shifts[m], r[2 + 2 * i][0])
    return res


def check_cell(cell, mu, EB, p, what, slack=1e-7):
    """What is printed is consistent with the numbers, to all the digits printed."""
    txt, k, ptxt = cell
    lab = []
    if not math.isfinite(mu):
        expect(txt == {INF: "inf", -INF: "-inf"}.get(mu, "nan"), "%s: %r shown as %r", what, mu, txt)
    else:
        v, places, e = parse_cell(txt)
        q = float(pow10(-places - k))
        v = float(v / pow10(k))
        expect(abs(v - mu) <= 0.5 * q + slack * (1.0 + abs(mu)), "%s is %r, printed as %r (scale 1e%d)", what, mu, txt, k)
        if EB is not None and math.isfinite(EB):
            expect(e is not None, "%s: error bar %r not printed in %r", what, EB, txt)
            s = slack * (1.0 + abs(EB))
            expect(EB - s <= e * q <= EB + s + max(q, 0.1000001 * EB), "%s: error bar %r printed as %r (scale 1e%d)", what, EB, txt, k)
            if EB > 1e-5:
                lab.append("error bar")
        elif EB is not None:
            expect(e is None, "%s: error bar %r printed as %r", what, EB, txt)
            # Then five digits are printed
            expect(q <= 1e-4 * abs(mu) * 1.001 + 1e-12 or mu == 0.0 or v == mu or abs(mu) < 1e-7, "%s: only %r printed of %r", what, txt, mu)
    if p is not None:
        if math.isnan(p):
            expect(ptxt == "nan", "%s: p-value %r printed as %r", what, p, ptxt)
        elif ptxt.startswith("<"):
            expect(ptxt == "<0.0001" and p <= 1e-4 + 1e-7, "%s: p-value %r printed as %r", what, p, ptxt)
        else:
            expect(re.match(r"^[01]\.[0-9]{4}$", ptxt) is not None, "%s: p-value printed as %r", what, ptxt)
            expect(p - 1e-7 <= float(ptxt) <= p + 1e-4 + 1e-7, "%s: p-value %r printed as %r", what, p, ptxt)
            lab.append("p-value")
    return lab


def print_it(tbl, methods, metrics, case, want):
    kw = {"shift_mod": case["mod"], "use_tex": case["tex"], "use_prefix": case["prefix"]}
    if case["unit"]:
        kw["unit_dict"] = {m: case["unit"] for m in metrics}
    t0 = tbl.copy()
    with Latex():
        try:
            out = sp.just_format_it(tbl, **kw)
        except ValueError:
            # Without a scale, errors of ten or more cannot be printed
            big = [v for v in tbl.values.ravel() if math.isfinite(v) and v >= 9.0]
            expect(case["mod"] is None and big, "no report")
            return None, ["impossible"]
    expect(t0.equals(tbl), "table modified")
    cells = read_report(out, methods, metrics, case)
    lab = set()
    for (m, t), (mu, EB, p, ok) in want.items():
        lab.update(check_cell(cells[m, t], mu, EB, p if ok else None, "%s of %s" % (t, m)))
    return cells, sorted(lab)


def _setup(case):
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    Xtr = np.round(r.randn(12, 2), 2)
    Xte = np.round(r.randn(n, 2) * case.get("scale", 1.0), 2)
    return r, n, Xtr, Xte


def cls_losses(case, preds, yte):
    L = {}
    for m, lp in preds.items():
        rows = [[float(v) for v in row] for row in lp]
        L[m, "NLL"] = np.array([ref_log_loss(int(y), r) for y, r in zip(yte, rows)])
        L[m, "Brier"] = np.array([ref_brier(int(y), r) for y, r in zip(yte, rows)])
        L[m, "sphere"] = np.array([ref_sphere(int(y), r) for y, r in zip(yte, rows)])
        L[m, "zero_one"] = np.array([0.0 if int(y) == int(np.argmax(r)) else 1.0 for y, r in zip(yte, rows)])
    return L


def ambiguous(preds):
    """The most likely label is a tie up to round off."""
    for lp in preds.values():
        s = np.sort(lp, axis=1)
        if np.any(s[:, -1] - s[:, -2] < 1e-9):
            return True
    return False


def make_cls(case):
    r, n, Xtr, Xte = _setup(case)
    k = case["k"]
    ytr, yte = np.arange(12) % k, r.randint(0, k, size=n)
    if case["curves"]:
        yte[0], yte[1] = 0, 1
    meths, raws = {}, {}
    for i, (m, W) in enumerate(zip(case["methods"], case["W"])):
        if i == 0 and case["noise"]:
            meths[m] = cl.JustNoise(k)
            cnt = np.array([float(np.sum(ytr == j)) for j in range(k)])
            raws[m] = np.repeat([np.log(cnt / 12.0)], n, axis=0)
        else:
            meths[m] = Lin(W, case["log"][i])
            raws[m] = lognorm((np.dot(Xte, np.array(W, dtype=float)) + float(np.mean(ytr)) * np.arange(k)).tolist())
    preds = {m: floor_norm(v, case["floor"]) for m, v in raws.items()}
    if case["bool_y"]:
        ytr, yte = ytr.astype(bool), yte.astype(bool)
    return Xtr, ytr, Xte, yte, meths, preds


def check_cls(case):
    Xtr, ytr, Xte, yte, meths, preds = make_cls(case)
    ref = case["methods"][case["ref"] % len(case["methods"])]
    if case["pairwise"]:
        case = dict(case, curves=[c for c in case["curves"] if c != "AUPRG"] or (["AUC"] if case["curves"] else []))
    losses = ["NLL", "Brier", "sphere", "zero_one"]
    expect(set(cl.STD_CLASS_LOSS) == set(losses) and set(cl.STD_BINARY_CURVES) == set(["AUC", "AP", "AUPRG"]), "standard metrics")
    L = cls_losses(case, preds, yte)
    want = expected(L, case["methods"], losses, ref, bool(case["pairwise"]))
    if ambiguous(preds):
        want = {k_: v for k_, v in want.items() if k_[1] != "zero_one"}
    kw = kwargs(case)
    if case["curves"]:
        fl = {} if case["floor"] is None else {"min_pred_log_prob": case["floor"]}
        curves = {c: cl.STD_BINARY_CURVES[c] for c in case["curves"]}
        full, dump = cl.just_benchmark(Xtr, ytr, Xte, yte, case["k"], meths, cl.STD_CLASS_LOSS, curves, ref, **dict(fl, **kw))
        cols = losses + case["curves"]
    else:
        fl = {} if case["floor"] is None else {"min_log_prob": case["floor"]}

        def run(Xt, yt, order):
            T = cl.get_pred_log_prob(Xtr, ytr, Xt, case["k"], {m: meths[m] for m in order}, **fl)
            return loss_summary_table(cl.loss_table(T, yt, cl.STD_CLASS_LOSS), ref, **kw)

        full = run(Xte, yte, case["methods"])
        cols = losses
    expect(set(full.index) == set(case["methods"]) and len(full) == len(case["methods"]), "rows %s", list(full.index))
    expect(set(full.columns) == set((c, s) for c in cols for s in ("mean", "error", "p")), "columns %s", list(full.columns))
    check_table(full, want, "summary")
    lab = []
    if case["curves"]:
        nms = {"AUC": "roc", "AP": "pr", "AUPRG": "prg"}
        yb = yte.astype(bool)
        one = np.ones(len(yb))
        for c in case["curves"]:
            for m in case["methods"]:
                s = preds[m][:, 1]
                if np.any(np.diff(np.sort(s)) < 1e-9) and not (case["noise"] and m == case["methods"][0]):
                    continue  # Ties are decided by round off (other than constant predictions)
                a = ref_auc(yb, s, one) if c == "AUC" else ref_step_area(nms[c], yb, s, one)
                EB = float(full.loc[m, (c, "error")])
                p = float(full.loc[m, (c, "p")])
                expect(near(float(full.loc[m, (c, "mean")]), a, 1e-7, 1e-8), "%s of %s is %r, expected %r", c, m, full.loc[m, (c, "mean")], a)
                expect((m == ref) == math.isnan(p), "%s of %s: p-value %r", c, m, p)
                if not math.isnan(p):
                    expect(0.0 <= p <= 1.0 and near(p * 500.0, round(p * 500.0), 0.0, 1e-6), "%s of %s: p-value %r", c, m, p)
                want[m, c] = (a, EB if math.isfinite(a) and not math.isnan(EB) else None, p, True)
    else:
        # The order of the test points and of the methods is irrelevant, and so are other methods
        perm = np.random.RandomState(case["seed"] + 1).permutation(case["n"])
        alt = run(Xte[perm], yte[perm], case["methods"][::-1])
        check_table(alt, want, "summary of permuted data")
        two = [ref] + [m for m in case["methods"] if m != ref][:1]
        check_table(run(Xte, yte, two), {k_: v for k_, v in want.items() if k_[0] in two}, "summary of two methods")
        lab.append("metamorphic")
    _, more = print_it(full, case["methods"], cols, case, want)
    return lab + more


@st.composite
def reg_case(draw):
    meth = draw(st.lists(st.sampled_from(POOL), min_size=2, max_size=4, unique=True))
    c = draw(report_opts())
    c.update(
        methods=meth,
        W=[draw(st.lists(st.integers(-3, 3), min_size=2, max_size=2)) for _ in meth],
        s=[draw(st.sampled_from([None, 0.1, 0.5, 2.0])) for _ in meth],
        noise=draw(st.booleans()),
        n=draw(st.integers(2, 80)),
        seed=draw(seeds),
        ref=draw(st.integers(0, 3)),
        floor=draw(st.sampled_from([None, 0.75])),
        scale=draw(st.sampled_from([1.0, 0.01, 100.0])),
    )
    return c


def check_reg(case):
    r, n, Xtr, Xte = _setup(dict(case, scale=1.0))
    sc = case["scale"]
    ytr, yte = np.round(r.randn(12), 2) * sc, np.round(r.randn(n), 2) * sc
    ref = case["methods"][case["ref"] % len(case["methods"])]
    mets = ["NLL", "MSE", "MAE"]
    expect(set(rg.STD_REGR_LOSS) == set(mets), "standard metrics")
    fl = case["floor"] or 0.0
    my = math.fsum(ytr) / 12.0
    sy = math.sqrt(math.fsum((v - my) ** 2 for v in ytr) / 12.0)
    meths, L = {}, {}
    for i, (m, w, s) in enumerate(zip(case["methods"], case["W"], case["s"])):
        if i == 0 and case["noise"]:
            meths[m] = rg.JustNoise()
            mu, std = np.full(n, my), np.full(n, sy)
        else:
            meths[m] = LinReg(w, s)
            mu = np.dot(Xte, np.array(w, dtype=float)) + my
            std = np.ones(n) if s is None else s * (1.0 + np.abs(Xte[:, 0]))
        std = np.maximum(std, fl)
        L[m, "NLL"] = np.array([ref_nll(float(a), float(b), float(c)) for a, b, c in zip(yte, mu, std)])
        L[m, "MSE"] = np.array([(float(a) - float(b)) ** 2 for a, b in zip(yte, mu)])
        L[m, "MAE"] = np.array([abs(float(a) - float(b)) for a, b in zip(yte, mu)])
    want = expected(L, case["methods"], mets, ref, bool(case["pairwise"]))
    kw = kwargs(case)
    if case["floor"] is not None:
        kw["min_std"] = case["floor"]

    def run(Xt, yt, order):
        return rg.just_benchmark(Xtr, ytr, Xt, yt, {m: meths[m] for m in order}, rg.STD_REGR_LOSS, ref, **kw)

    full = run(Xte, yte, case["methods"])
    expect(set(full.index) == set(case["methods"]) and len(full) == len(case["methods"]), "rows %s", list(full.index))
    expect(set(full.columns) == set((c, s) for c in mets for s in ("mean", "error", "p")), "columns %s", list(full.columns))
    check_table(full, want, "summary")
    perm = np.random.RandomState(case["seed"] + 1).permutation(n)
    check_table(run(Xte[perm], yte[perm], case["methods"][::-1]), want, "summary of permuted data")
    two = [ref] + [m for m in case["methods"] if m != ref][:1]
    check_table(run(Xte, yte, two), {k_: v for k_, v in want.items() if k_[0] in two}, "summary of two methods")
    _, lab = print_it(full, case["methods"], mets, case, want)
    return ["metamorphic"] + lab


C33 = Prop(
    "C33",
    [
        Sub("regression_report", lambda: reg_case(), check_reg, 320, rule="data and estimators to printed report: every printed number against plain arithmetic; permuted points and methods, fewer methods"),
        Sub("multiclass_report", lambda: cls_case(False), check_cls, 320, rule="the same for classification with 2 to 4 labels and the four standard losses"),
        Sub("binary_report", lambda: cls_case(True), check_cls, 64, rule="the one-call benchmark with the standard losses and curves"),
    ],
    "Generated data sets of 2-80 test points, 2-4 methods (linear models, some without log probability or without standard deviation, and the noise baselines), paired or not, floors, text or LaTeX with scales and units. Oracle: scalar losses, t distribution, counting areas, and reading the report back. Non-trivial: an error bar or p-value was printed, or metamorphic relations compared.",
    ["Area under PRG can be -inf, it is not compared in pairs", "Curve error bars are compared with the summary table (they are random); their distribution is the subject of C20", "Errors and p-values of differences that are constant up to round off are not compared"],
)

PROPS = [C33]
