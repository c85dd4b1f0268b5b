"""C08, C09: checkpointed histories, and the one-call pipelines."""
import math
import os
import shutil
import tempfile

import mlpaper.classification as cl
import mlpaper.perf_curves as pc
import mlpaper.regression as rg
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from mlpaper.mlpaper import loss_summary_table

from checks.classif import floor_norm
from checks.curves import has_ninf
from checks.regr import REFS as REG_REFS
from harness.core import Prop, Sub, Violation, expect
from harness.gen import (
    INF,
    confidence,
    expect_all_near,
    expect_near,
    expect_raises,
    floats,
    lognorm,
    make_index,
    names,
    near,
    num,
    ref_brier,
    ref_log_loss,
    ref_losses,
    ref_sphere,
    rng_state,
    seeds,
)

# ============================================================================ C08

_LOG_PATH = [None]
_FAULT = [None]  # (param, where, how)


class Crash(Exception):
    pass


def _trace(what):
    fd = os.open(_LOG_PATH[0], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    os.write(fd, (what + "\n").encode())
    os.close(fd)


def _maybe_fault(param, where):
    f = _FAULT[0]
    if f is not None and f[0] == param and f[1] == where:
        if f[2] == "exit":
            os._exit(77)
        raise Crash("injected fault")


class CkClassifier(object):
    """Prediction is a fixed function of the parameter and all the data."""

    def __init__(self, param, n_labels, logp):
        self.param, self.n_labels, self.logp = param, n_labels, logp

    def fit(self, X, y):
        _maybe_fault(self.param, "fit")
        self.fitted_ = (np.array(X, dtype=float), np.array(y, dtype=float))
        _trace("cls %d" % self.param)

    def raw(self, X):
        return cls_raw(self.param, self.n_labels, self.fitted_[0], self.fitted_[1], X)

    def predict_proba(self, X):
        _maybe_fault(self.param, "predict")
        return np.exp(self.raw(X))

    def predict_log_proba(self, X):
        _maybe_fault(self.param, "predict")
        if not self.logp:
            raise NotImplementedError()
        return self.raw(X)


class CkRegressor(object):
    def __init__(self, param, n_labels, logp):
        self.param, self.has_std = param, logp

    def fit(self, X, y):
        _maybe_fault(self.param, "fit")
        self.fitted_ = (np.array(X, dtype=float), np.array(y, dtype=float))
        _trace("reg %d" % self.param)

    def predict(self, X, **kw):
        _maybe_fault(self.param, "predict")
        if kw and not self.has_std:
            raise TypeError("unexpected keyword")
        mu, std = reg_raw(self.param, self.fitted_[0], self.fitted_[1], X)
        return (mu, std) if kw.get("return_std") else mu


def cls_raw(param, k, X, y, Xt):
    base = np.sin(param + np.sum(X) + np.dot(y, np.arange(1.0, len(y) + 1)))
    return np.stack([np.cos(base + (j + 1) * np.sum(np.asarray(Xt, dtype=float), axis=1)) * 3.0 - 0.1 * j for j in range(k)], axis=1)


def reg_raw(param, X, y, Xt):
    base = param + np.sum(X) + np.dot(y, np.arange(1.0, len(y) + 1))
    mu = base + np.sum(np.asarray(Xt, dtype=float), axis=1)
    return mu, np.abs(np.sin(mu)) + 0.01


def _data(task, variant):
    """Data sets that differ from each other in a single place."""
    r = np.random.RandomState(5)
    X, Xt = np.round(r.randn(4, 2), 3), np.round(r.randn(3, 2), 3)
    y = np.array([0, 1, 2, 1]) if task == "cls" else np.array([0.5, -1.0, 2.0, 0.25])
    if variant == 1:
        y[2] = y[1]
    elif variant == 2:
        Xt[1, 1] += 1.0
    elif variant == 3:
        X[0, 0] -= 0.5
    elif variant == 4:
        X, y = X[::-1].copy(), y[::-1].copy()
    elif variant == 5:
        Xt = Xt[:2].copy()
    elif variant == 6 and task == "cls":
        y = y.astype(bool)
    elif variant == 7:
        X, y = X[:2].copy(), y[:2].copy()
    elif variant == 8:
        X, y, Xt = X[:1].copy(), y[:1].copy(), Xt[:1].copy()
    return X, y, Xt


@st.composite
def ck_case(draw):
    n_ops = draw(st.integers(2, 5))
    tasks = draw(st.sampled_from([["cls"], ["reg"], ["cls", "reg"]]))
    ops = []
    base = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7, 8]))
    for _ in range(n_ops):
        params = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True))
        fault = None
        if draw(st.integers(0, 2)) > 0:
            fault = [draw(st.sampled_from(params)), draw(st.sampled_from(["fit", "predict"])), draw(st.sampled_from(["raise", "exit"]))]
        ops.append(
            {
                "task": draw(st.sampled_from(tasks)),
                "params": params,
                "data": draw(st.sampled_from([base] * 6 + [0, 0, 1, 2, 3, 4, 5, 6, 7, 8])),
                "floor": draw(st.sampled_from([0, 0, 1, 2])),
                "dir": draw(st.sampled_from([0, 0, 0, 1, None])),
                "fault": fault,
                "logp": draw(st.integers(0, 3)) > 0,
            }
        )
    return {"ops": ops, "k": draw(st.integers(3, 4))}


def _run_op(op, k, ckdir):
    X, y, Xt = _data(op["task"], op["data"])
    kw = {}
    if ckdir is not None:
        kw["checkpointdir"] = ckdir
    if op["task"] == "cls":
        meths = {"m%d" % p: CkClassifier(p, k, op["logp"]) for p in op["params"]}
        if op["floor"]:
            kw["min_log_prob"] = [None, -1.5, -3.0][op["floor"]]
        return cl.get_pred_log_prob(X, y, Xt, k, meths, **kw)
    meths = {"m%d" % p: CkRegressor(p, k, op["logp"]) for p in op["params"]}
    if op["floor"]:
        kw["min_std"] = [None, 0.3, 0.8][op["floor"]]
    return rg.get_gauss_pred(X, y, Xt, meths, **kw)


def _check_result(op, k, tbl, what):
    X, y, Xt = _data(op["task"], op["data"])
    for p in op["params"]:
        a = "m%d" % p
        if op["task"] == "cls":
            raw = cls_raw(p, k, np.array(X, dtype=float), np.array(y, dtype=float), Xt)
            want = floor_norm(raw, [None, -1.5, -3.0][op["floor"]])
            expect_all_near(tbl[a].values, want, "%s: prediction of %s" % (what, a), rtol=1e-8, atol=1e-9)
        else:
            mu, std = reg_raw(p, X, y, Xt)
            if not op["logp"]:
                std = np.ones(len(Xt))
            std = np.maximum([0.0, 0.3, 0.8][op["floor"]], std)
            expect_all_near(tbl[(a, "mu")].values, mu, "%s: mean of %s" % (what, a))
            expect_all_near(tbl[(a, "std")].values, std, "%s: std of %s" % (what, a))
    expect(len(tbl) == len(Xt), "%s: %d rows", what, len(tbl))


def _read_log():
    if not os.path.exists(_LOG_PATH[0]):
        return []
    with open(_LOG_PATH[0]) as fh:
        L = fh.read().split("\n")[:-1]
    os.remove(_LOG_PATH[0])
    return L


def check_checkpoint(case):
    top = tempfile.mkdtemp(prefix="mlp_ck_")
    lab = set()
    try:
        _LOG_PATH[0] = os.path.join(top, "trace.log")
        done = set()  # What was completed, per directory
        for ii, op in enumerate(case["ops"]):
            what = "run %d" % ii
            ckdir = None if op["dir"] is None else os.path.join(top, "ck%d" % op["dir"])
            # The model
            fits, crashed = [], False
            new = []
            for p in op["params"]:
                data = 0 if op["task"] == "reg" and op["data"] == 6 else op["data"]  # the same data
                key = (op["dir"], op["task"], p, data, op["logp"], case["k"] if op["task"] == "cls" else 0)
                if op["dir"] is not None and key in done:
                    lab.add("resumed")
                    continue
                if op["fault"] is not None and op["fault"][0] == p:
                    crashed = True
                    if op["fault"][1] == "predict":
                        fits.append("%s %d" % (op["task"], p))
                    break
                fits.append("%s %d" % (op["task"], p))
                new.append(key)
            _FAULT[0] = tuple(op["fault"]) if op["fault"] else None
            tbl = None
            try:
                if crashed and op["fault"][2] == "exit":
                    lab.add("process died")
                    pid = os.fork()
                    if pid == 0:
                        code = 1
                        try:
                            _run_op(op, case["k"], ckdir)
                            code = 2
                        finally:
                            os._exit(code)
                    _, status = os.waitpid(pid, 0)
                    expect(os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77, "%s: process that should die in fit/predict ended with %r", what, status)
                else:
                    try:
                        tbl = _run_op(op, case["k"], ckdir)
                    except Crash:
                        expect(crashed, "%s: unexpected fit/predict of a completed method", what)
                        lab.add("exception")
                    else:
                        expect(not crashed, "%s: estimator failure was swallowed", what)
            finally:
                _FAULT[0] = None
            log = _read_log()
            if crashed:
                expect(log == fits, "%s (fault %s): fitted %s, expected %s", what, op["fault"], log, fits)
            else:
                expect(log == fits, "%s: fitted %s, expected %s", what, log, fits)
                _check_result(op, case["k"], tbl, what)
            if op["dir"] is not None:
                done.update(new)
    finally:
        _LOG_PATH[0] = None
        shutil.rmtree(top, ignore_errors=True)
    return sorted(lab)


@st.composite
def resume_case(draw):
    n = draw(st.integers(2, 4))
    return {
        "task": draw(st.sampled_from(["cls", "reg"])),
        "params": draw(st.permutations([1, 2, 3, 4]))[:n],
        "crash": draw(st.integers(0, n - 1)),
        "at": draw(st.sampled_from(["fit", "predict"])),
        "how": draw(st.sampled_from(["raise", "exit"])),
        "then": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])),
        "floor2": draw(st.integers(0, 2)),
        "logp": draw(st.booleans()),
        "k": 3,
    }


def check_resume(case):
    """Crash at a method, resume, then change one thing."""
    base = {"task": case["task"], "params": case["params"], "data": 0, "floor": 0, "dir": 0, "fault": None, "logp": case["logp"]}
    ops = [
        dict(base, fault=[case["params"][case["crash"]], case["at"], case["how"]]),
        dict(base),
        dict(base, floor=case["floor2"]),
        dict(base, data=case["then"]),
        dict(base, params=case["params"][::-1]),
    ]
    return check_checkpoint({"ops": ops, "k": case["k"]})


C08 = Prop(
    "C08",
    [
        Sub("histories", lambda: ck_case(), check_checkpoint, 480, rule="random histories of runs over two checkpoint directories, changing data (one entry), estimators, floors; faults in fit/predict by exception or process death"),
        Sub("crash_and_resume", lambda: resume_case(), check_resume, 320, rule="every crash point of a benchmark, resume, then one change"),
    ],
    "A history of prediction runs with injected faults is compared with a model: which estimators are fit in each run (completed ones are not refit in the same directory) and the values of the table (as if there was no checkpoint). Non-trivial: a run was interrupted or a completed result was reused.",
    ["Death of the process is simulated by os._exit inside fit/predict in a forked child; a torn write inside joblib itself is not injected"],
)

# ============================================================================ C09


class FixedCls(object):
    def __init__(self, W):
        self.W = np.array(W, dtype=float)

    def fit(self, X, y):
        pass

    def predict_log_proba(self, X):
        return np.dot(X, self.W)


class FixedReg(object):
    def __init__(self, w, s):
        self.w, self.s = np.array(w, dtype=float), s

    def fit(self, X, y):
        self.m = float(np.mean(y))

    def predict(self, X, return_std=False):
        mu = np.dot(X, self.w) + self.m
        return (mu, np.full(len(mu), self.s)) if return_std else mu


CURVES = {"AUC": pc.roc_curve, "AP": pc.recall_precision_curve, "AUPRG": pc.prg_curve}
CLS_LOSS = {
    "NLL": (cl.log_loss, ref_log_loss, (-1e-6, INF)),
    "Brier": (cl.brier_loss, ref_brier, (-1e-6, 4.5)),
    "sphere": (cl.spherical_loss, ref_sphere, (-1e-6, 4.0)),
    "zero_one": (cl.hard_loss, None, (0.0, 1.0)),
}


@st.composite
def bench_case(draw, curves, small=True):
    meth = draw(names(2, 3, ints=True))
    k = 2 if curves else draw(st.integers(2, 4))
    n = draw(st.integers(4, 12)) if curves else draw(st.integers(2, 25))
    return {
        "methods": meth,
        "W": [draw(st.lists(st.lists(st.integers(-3, 3), min_size=k, max_size=k), min_size=2, max_size=2)) for _ in meth],
        "k": k,
        "n": n,
        "seed": draw(seeds),
        "ref": draw(st.sampled_from(meth)),
        "losses": draw(st.lists(st.sampled_from(sorted(CLS_LOSS)), min_size=1, max_size=3, unique=True)),
        "curves": draw(st.lists(st.sampled_from(["AUC", "AP", "AUPRG"]), min_size=1, max_size=3, unique=True)) if curves else [],
        "rename": draw(st.one_of(st.just({}), st.dictionaries(st.sampled_from(sorted(CLS_LOSS) + sorted(CURVES)), st.sampled_from(["my %s", "a_%s", "Z%s"]), min_size=2, max_size=6))),
        "limit_for": draw(st.one_of(st.just([]), st.lists(st.sampled_from(sorted(CLS_LOSS)), max_size=2))),
        "floor": draw(st.sampled_from([None, -0.5, -3.0])),
        "pairwise": draw(st.sampled_from([None, True, False])),
        "method_EB": draw(st.sampled_from([None, "t", "bernstein", "bernstein", "boot"])),
        "limits": draw(st.sampled_from([True, True, False])),
        "bool_y": draw(st.booleans()) if k == 2 else False,
        "n_boot": draw(st.sampled_from([20, 20, 50, 50, 101, 101, 1201])),
        "n_grid": draw(st.sampled_from([None, 3, 7])),
        "confidence": draw(confidence),
        "index": draw(st.sampled_from(["range", "str", "rev", "gap", "dup", "float"])),
    }


def called(case, m):
    """Users may name metrics as they like."""
    return case.get("rename", {}).get(m, "%s").replace("%s", m)


def is_random(c, curves, method_EB):
    """If this column of the table is made from random resamples."""
    return c[1] != "mean" and (c[0] in curves or method_EB == "boot")


def same_tables(a, options, what, curves, method_EB, n_boot):
    """Compare table to the possible ones [(table, if the same random stream)].

    Entries that are not random must match.  Random ones must match (one of) the
    tables made from the same stream, otherwise they just have to be of the kind
    that n_boot replications can give.
    """
    b = options[0][0]
    expect(set(a.index) == set(b.index) and len(a) == len(b), "%s: rows %s", what, list(a.index))
    expect(set(a.columns) == set(b.columns) and len(a.columns) == len(b.columns), "%s: columns %s, expected %s", what, list(a.columns), list(b.columns))
    rnd = [(r, c) for r in b.index for c in b.columns if is_random(c, curves, method_EB)]
    for r in b.index:
        for c in b.columns:
            u, v = num(a.loc[r, c], what), num(b.loc[r, c], what)
            if (r, c) not in rnd:
                expect(near(u, v, 1e-9, 1e-12), "%s: %s of %s is %r, by hand %r", what, c, r, u, v)
                continue
            expect(math.isnan(u) == math.isnan(v), "%s: %s of %s is %r, by hand %r", what, c, r, u, v)
            if c[1] == "p" and not math.isnan(u):
                k = u * (n_boot if c[0] in curves else 1000)  # The default for the mean of a loss
                expect(0 <= u <= 1 and (u == 1.0 or near(k, 2 * round(k / 2), 1e-9, 1e-9)), "%s: %s of %s is %r, impossible with %d replications", what, c, r, u, n_boot)
    cand = [t for t, same in options if same]
    diff = [[(r, c) for r, c in rnd if not near(a.loc[r, c], t.loc[r, c], 1e-9, 1e-12)] for t in cand]
    if cand:
        r, c = min(diff, key=len)[0] if min(diff, key=len) else (None, None)
        expect(r is None, "%s: %s of %s is %r, by hand (same random stream) %r", what, c, r, None if r is None else float(a.loc[r, c]), [float(t.loc[r, c]) for t in cand] if r is not None else None)
    return len(cand) > 0


def _bench_data(case):
    r = np.random.RandomState(case["seed"])
    n, k = case["n"], case["k"]
    Xtr, Xte = r.randint(-2, 3, size=(max(4, k), 2)).astype(float), r.randint(-2, 3, size=(n, 2)) + np.round(r.randn(n, 2) * 0.2, 2)
    ytr, yte = np.arange(max(4, k)) % k, r.randint(0, k, size=n)
    if case["curves"]:
        yte[0], yte[1] = 0, 1
    if case["bool_y"]:
        ytr, yte = ytr.astype(bool), yte.astype(bool)
    meths = {a: FixedCls(W) for a, W in zip(case["methods"], case["W"])}
    limits = {called(case, m): CLS_LOSS[m][2] for m in case["losses"]} if case["limits"] else None
    if limits is not None and case["method_EB"] == "bernstein":
        limits.pop(called(case, "NLL"), None)
    if limits is not None and case.get("limit_for"):
        limits = {v: w for v, w in limits.items() if v in [called(case, m) for m in case["limit_for"]]}
    kw = {}
    if case["pairwise"] is not None:
        kw["pairwise_CI"] = case["pairwise"]
    if case["method_EB"] is not None:
        kw["method_EB"] = case["method_EB"]
    if limits is not None:
        kw["limits"] = limits
    return Xtr, ytr, Xte, yte, meths, kw


def _by_hand_means(case, tbl, full, yte):
    for a in case["methods"]:
        lp = tbl[a].values
        for m in case["losses"]:
            ref = CLS_LOSS[m][1]
            if ref is not None:
                want = float(np.mean(ref_losses(ref, yte, lognorm(lp.tolist()))))
                expect_near(full.loc[a, (called(case, m), "mean")], want, "mean %s of %s" % (m, a), rtol=1e-8, atol=1e-9)
    for a in case["methods"]:
        for c in case["curves"]:
            if c == "AUC":
                lp = tbl[a].values[:, 1]
                pos, neg = lp[yte.astype(bool)], lp[~yte.astype(bool)]
                want = np.mean([[1.0 if p > q else 0.5 if p == q else 0.0 for q in neg] for p in pos])
                expect_near(full.loc[a, (called(case, c), "mean")], want, "AUC of %s" % a, rtol=1e-8)


def no_undefined(case, tbl, y, kw):
    """Options without paired error bars where the difference of infinite areas (PRG) is not defined."""
    if "AUPRG" in case["curves"] and any(has_ninf("prg", y.astype(bool), tbl[a].values[:, 1]) for a in case["methods"]):
        case["pairwise"] = None
        return {k: v for k, v in kw.items() if k != "pairwise_CI"}
    return kw


def check_summary(case):
    Xtr, ytr, Xte, yte, meths, kw = _bench_data(case)
    fl = -INF if case["floor"] is None else case["floor"]
    tbl = cl.get_pred_log_prob(Xtr, ytr, Xte, case["k"], meths, min_log_prob=fl)
    for a, W in zip(case["methods"], case["W"]):
        expect_all_near(tbl[a].values, floor_norm(np.dot(Xte, np.array(W, dtype=float)), case["floor"]), "prediction of %s" % a, rtol=1e-8, atol=1e-9)
    kw = no_undefined(case, tbl, yte, kw)
    tbl.index = make_index(case["index"], case["n"])
    losses = {called(case, m): CLS_LOSS[m][0] for m in case["losses"]}
    curves = {called(case, c): CURVES[c] for c in case["curves"]}
    sd = case["seed"] % 100000
    lt_kw = dict(kw)
    ckw = {k_: v for k_, v in kw.items() if k_ == "pairwise_CI"}
    extra = {"n_boot": case["n_boot"], "confidence": case["confidence"]}
    if case["n_grid"] is not None:
        extra["x_grid"] = np.linspace(0.0, 1.0, case["n_grid"])
    # The stages, in either order
    ways = []
    for first in ("curves", "losses"):
        np.random.seed(sd)
        if first == "curves":
            ct, cd = cl.curve_summary_table(tbl, yte, curves, case["ref"], **dict(ckw, **extra))
        ls = loss_summary_table(cl.loss_table(tbl, yte, losses), case["ref"], confidence=case["confidence"], **lt_kw)
        if first == "losses":
            ct, cd = cl.curve_summary_table(tbl, yte, curves, case["ref"], **dict(ckw, **extra))
        ways.append((pd.concat((ls, ct), axis=1), cd, rng_state()))
        if case["method_EB"] != "boot":
            break
    np.random.seed(sd)
    full, dump = cl.summary_table(tbl, yte, losses, curves, case["ref"], **dict(lt_kw, **extra))
    end = rng_state()
    exact = same_tables(full, [(w[0], w[2] == end) for w in ways], "summary table", curves, case["method_EB"], case["n_boot"])
    expect(set(dump) == set((a, c) for a in case["methods"] for c in curves), "curves of %s", sorted(dump))
    for key in dump:
        d = dump[key]
        expect(list(d.columns) == ["xgrid", "ygrid", "LB", "UB"], "columns of curve %s", list(d.columns))
        for c in ["xgrid", "ygrid"]:
            expect_all_near(d[c].values, ways[0][1][key][c].values, "curve %s %s" % (key, c))
        if exact:
            ok = [all(near(u, v) for c in ("LB", "UB") for u, v in zip(d[c].values, w[1][key][c].values)) for w in ways if w[2] == end]
            expect(any(ok), "envelope of %s differs", key)
        n_grid = case["n_grid"] or 100
        expect_all_near(d["xgrid"].values, np.linspace(0, 1, n_grid), "grid")
    _by_hand_means(case, tbl, full, yte)
    lab = ["exact stream" if exact else "other stream"]
    for o in ("pairwise", "method_EB"):
        if case[o] not in (None, False, "t"):
            lab.append("%s=%s" % (o, case[o]))
    if case.get("rename"):
        lab.append("own names")
    return lab


def check_bench_loss(case):
    """Options of the one-call function reach every stage (losses compared; curves by mean)."""
    Xtr, ytr, Xte, yte, meths, kw = _bench_data(case)
    losses = {called(case, m): CLS_LOSS[m][0] for m in case["losses"]}
    curves = {called(case, c): CURVES[c] for c in case["curves"]}
    fl = {} if case["floor"] is None else {"min_pred_log_prob": case["floor"]}
    fl2 = {} if case["floor"] is None else {"min_log_prob": case["floor"]}
    sd = case["seed"] % 100000
    kw = no_undefined(case, cl.get_pred_log_prob(Xtr, ytr, Xte, case["k"], meths, **fl2), yte, kw)
    np.random.seed(sd)
    full, dump = cl.just_benchmark(Xtr, ytr, Xte, yte, case["k"], meths, losses, curves, case["ref"], **dict(fl, **kw))
    s1 = rng_state()
    tbl = cl.get_pred_log_prob(Xtr, ytr, Xte, case["k"], meths, **fl2)
    np.random.seed(sd)
    want, wdump = cl.summary_table(tbl, yte, losses, curves, case["ref"], **kw)
    exact = s1 == rng_state()
    same_tables(full, [(want, exact)], "benchmark", curves, case["method_EB"], 1000)
    expect(set(dump) == set(wdump), "curves of %s", sorted(dump))
    for key in dump:
        for c in ["xgrid", "ygrid"] + (["LB", "UB"] if exact else []):
            expect_all_near(dump[key][c].values, wdump[key][c].values, "curve %s %s" % (key, c))
    _by_hand_means(case, tbl, full, yte)
    lab = ["exact stream" if exact else "other stream"]
    for o in ("pairwise", "method_EB", "floor"):
        if case[o] not in (None, False, "t"):
            lab.append("%s=%s" % (o, case[o]))
    return lab


@st.composite
def reg_bench_case(draw):
    meth = draw(names(2, 3, ints=True))
    return {
        "methods": meth,
        "w": [draw(st.lists(st.integers(-3, 3), min_size=2, max_size=2)) for _ in meth],
        "s": [draw(st.sampled_from([0.5, 1.0, 2.0, 0.01])) for _ in meth],
        "n": draw(st.integers(2, 30)),
        "seed": draw(seeds),
        "ref": draw(st.sampled_from(meth)),
        "losses": draw(st.lists(st.sampled_from(sorted(REG_REFS)), min_size=1, max_size=3, unique=True)),
        "floor": draw(st.sampled_from([None, 0.75, 5.0])),
        "pairwise": draw(st.sampled_from([None, True, False])),
        "method_EB": draw(st.sampled_from([None, "t", "bernstein", "boot"])),
        "limits": draw(st.sampled_from([True, True, False])),
        "rename": draw(st.one_of(st.just({}), st.dictionaries(st.sampled_from(sorted(REG_REFS)), st.sampled_from(["my %s", "a_%s", "Z%s"]), max_size=3))),
        "top": draw(st.sampled_from([1e9, 1e3, 400.0])),
    }


def check_reg_bench(case):
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    Xtr, Xte = r.randn(5, 2), r.randn(n, 2)
    ytr, yte = np.round(r.randn(5), 2), np.round(r.randn(n), 2)
    meths = {a: FixedReg(w, s) for a, w, s in zip(case["methods"], case["w"], case["s"])}
    losses = {called(case, m): REG_REFS[m][0] for m in case["losses"]}
    kw = {}
    if case["pairwise"] is not None:
        kw["pairwise_CI"] = case["pairwise"]
    if case["method_EB"] is not None:
        kw["method_EB"] = case["method_EB"]
    if case["limits"]:
        kw["limits"] = {called(case, m): (0.0, case.get("top", 1e9)) for m in case["losses"] if m != "NLL"}
    fl = {} if case["floor"] is None else {"min_std": case["floor"]}
    sd = case["seed"] % 100000
    np.random.seed(sd)
    full = rg.just_benchmark(Xtr, ytr, Xte, yte, meths, losses, case["ref"], **dict(fl, **kw))
    s1 = rng_state()
    np.random.seed(sd)
    tbl = rg.get_gauss_pred(Xtr, ytr, Xte, meths, **fl)
    want = loss_summary_table(rg.loss_table(tbl, yte, losses), case["ref"], **kw)
    exact = s1 == rng_state()
    same_tables(full, [(want, exact)], "benchmark", (), case["method_EB"], 1000)
    for a, w, s in zip(case["methods"], case["w"], case["s"]):
        mu = np.dot(Xte, np.array(w, dtype=float)) + np.mean(ytr)
        std = max(s, case["floor"] or 0.0)
        for m in case["losses"]:
            v = math.fsum(REG_REFS[m][1](float(p), float(q), std) for p, q in zip(yte, mu)) / n
            expect_near(full.loc[a, (called(case, m), "mean")], v, "mean %s of %s" % (m, a), rtol=1e-8, atol=1e-9)
    lab = ["exact stream" if exact else "other stream"]
    for o in ("pairwise", "method_EB", "floor"):
        if case[o] not in (None, False, "t"):
            lab.append("%s=%s" % (o, case[o]))
    return lab


C09 = Prop(
    "C09",
    [
        Sub("summary_is_its_stages", lambda: bench_case(True), check_summary, 240, rule="summary table = curve summary + loss summary of the same predictions with the same options"),
        Sub("classification_benchmark", lambda: bench_case(True), check_bench_loss, 320, rule="one-call benchmark = predictions + summary with the same options"),
        Sub("regression_benchmark", lambda: reg_bench_case(), check_reg_bench, 480, rule="one-call regression benchmark = predictions + losses + summary with the same options"),
    ],
    "Generated data, fixed linear estimators, random subsets of losses/curves and options (floor, pairwise, error bar method, limits, grid, replications, confidence). Compared cell by cell with the stages called by hand, and means with scalar references. Non-trivial: all (several methods, real losses).",
    ["Random error bars are compared exactly only when both ways consumed the same random stream"],
)

PROPS = [C08, C09]
