"""C17 to C20: performance curves, their areas, interpolation, and their bootstrap."""
import math
from fractions import Fraction

import mlpaper.boot_util as bu
import mlpaper.classification as btc
import mlpaper.perf_curves as pc
import mlpaper.util as util
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness.core import Prop, Sub, expect
from harness.gen import INF, NAN, as_arr, confidence, dyadic, expect_all_near, expect_near, expect_raises, floats, make_index, names, near, num, rng_state, seeds, small_int, with_unused

CURVES = {"roc": pc.roc_curve, "pr": pc.recall_precision_curve, "prg": pc.prg_curve}
KIND = {"roc": "linear", "pr": "previous", "prg": "previous"}

# ---------------------------------------------------------------- generators


@st.composite
def scores(draw, n):
    kind = draw(st.sampled_from(["ties", "ties", "dyadic", "float", "close", "huge", "int", "f32", "zeros"]))
    if kind in ("ties", "int"):
        v = draw(st.lists(st.integers(-2, 2), min_size=n, max_size=n))
        return {"kind": kind, "v": [float(x) for x in v]}
    if kind == "dyadic":
        el = dyadic
    elif kind == "float":
        el = floats(-1e3, 1e3)
    elif kind == "close":  # Neighbouring floats are not ties
        base = draw(st.sampled_from([1.0, -3.0, 1e-300, 1e10, -0.1]))
        up = float(np.nextafter(base, INF))
        el = st.sampled_from([base, up, float(np.nextafter(up, INF))])
    elif kind == "huge":
        el = st.sampled_from([-1.7e308, -1e300, 0.0, 5e-324, -5e-324, 1e-310, 1e300, 1.7e308])
    elif kind == "zeros":
        el = st.sampled_from([0.0, -0.0, 1.0])
    else:
        el = floats(-100, 100).map(lambda v: float(np.float32(v)))
    return {"kind": kind, "v": draw(st.lists(el, min_size=n, max_size=n))}


def expand_scores(s):
    a = np.array(s["v"], dtype=float)
    if s["kind"] == "int":
        return a.astype(int)
    if s["kind"] == "f32":
        return a.astype(np.float32)
    return a


@st.composite
def labels_bin(draw, n):
    kind = draw(st.sampled_from(["mix", "mix", "mix", "mix", "mix", "mix", "pos", "neg"]))
    if kind == "pos":
        return [1] * n
    if kind == "neg":
        return [0] * n
    y = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    if n > 1 and len(set(y)) == 1:
        y[draw(st.integers(0, n - 1))] ^= 1
    return y


@st.composite
def weights(draw, n, max_rows=3):
    kind = draw(st.sampled_from(["none", "int", "dyadic", "float"]))
    if kind == "none":
        return None
    b = draw(st.integers(1, max_rows))
    if kind == "int":
        el = draw(st.sampled_from([st.integers(1, 5), st.integers(1, 120)])).map(float)
    elif kind == "dyadic":
        el = st.integers(1, 200).map(lambda k: k / 32.0)
    else:
        el = st.one_of(st.floats(0.01, 1e3), st.sampled_from([0.1, 0.7, 1.0 / 3.0]))
    out = {"kind": kind, "w": draw(st.lists(st.lists(el, min_size=n, max_size=n), min_size=b, max_size=b))}
    if kind == "int":
        out["dtype"] = draw(st.sampled_from(["float64", "int64"]))
    return out


@st.composite
def curve_case(draw, max_n=8):
    if draw(st.integers(0, 11)) == 0:
        n = draw(st.one_of(st.integers(10, 60), st.integers(10, 60), st.integers(130, 400)))
        r = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        lev = draw(st.sampled_from([3, 10, 1000]))
        y = (r.rand(n) < draw(st.sampled_from([0.1, 0.5, 0.9]))).astype(int)
        return {
            "y": y.tolist(),
            "s": {"kind": "dyadic", "v": (r.randint(0, lev, size=n) / 8.0).tolist()},
            "w": draw(st.sampled_from([None, {"kind": "int", "w": r.randint(1, 5, size=(2, n)).astype(float).tolist()}])),
            "perm": draw(seeds),
        }
    n = draw(st.integers(1, max_n))
    return {"y": draw(labels_bin(n)), "s": draw(scores(n)), "w": draw(weights(n)), "perm": draw(seeds), "pow": draw(st.sampled_from([3, 3, -7, -60, -150, 60, 150]))}


# ---------------------------------------------------------------- reference


def counts(y, s, W):
    """False and true positive weight for each threshold (brute force)."""
    thr = [INF] + sorted(set(float(v) for v in s), reverse=True)
    fp = [[math.fsum(w[i] for i in range(len(y)) if not y[i] and float(s[i]) >= t) for t in thr] for w in W]
    tp = [[math.fsum(w[i] for i in range(len(y)) if y[i] and float(s[i]) >= t) for t in thr] for w in W]
    return np.array(fp), np.array(tp), np.array(thr)


def ref_curve(name, fp, tp):
    """(x, y) of one row with both classes present."""
    P, N = tp[-1], fp[-1]
    if name == "roc":
        return fp / N, tp / P
    if name == "pr":
        prec = np.array([0.0] + [t / (t + f) for f, t in zip(fp[1:], tp[1:])])
        prec[0] = prec[1]
        return tp / P, prec
    rg = np.array([0.0 if t == 0 else max(0.0, 1.0 - P * (P - t) / (N * t)) for t in tp])
    pg = np.array([0.0] + [-INF if t == 0 else 1.0 - P * f / (N * t) for f, t in zip(fp[1:], tp[1:])])
    pg[0] = pg[1]
    return rg, pg


def unpack(res, n_rows, n_thr, name):
    expect(isinstance(res, tuple) and len(res) == 2 and len(res[0]) == 3, "%s: unexpected return value", name)
    (x, y, kind), thr = res
    x = as_arr(x, (n_rows, n_thr), "%s x" % name).astype(float)
    y = as_arr(y, (n_rows, n_thr), "%s y" % name).astype(float)
    expect(kind == KIND[name], "%s interpolation kind %r", name, kind)
    return x, y, as_arr(thr, (n_thr,), "%s thresholds" % name).astype(float)


def tol(name, fp, tp, exact, n):
    """Round off allowance on y (weights that are not dyadic get cancellation)."""
    if exact:
        return np.full(len(fp), 1e-12)
    e = 1e-15 * n * (fp[-1] + tp[-1])
    P, N = tp[-1], fp[-1]
    if name == "roc":
        return np.full(len(fp), 1e-12 + 4 * e / N + 4 * e / P)
    if name == "pr":
        return 1e-12 + 8 * e / np.maximum(fp + tp, 1e-300)
    with np.errstate(all="ignore"):
        t = np.where(tp > 0, P * (fp + e) / (N * tp) * (1e-12 + 4 * e / N) + 4 * P * e / (N * tp), 0.0) + 1e-12
    return t


def close(a, b, t):
    with np.errstate(all="ignore"):
        return (a == b) | (np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= t + 1e-12 * np.abs(b)))


def check_curves(case):
    yb = np.array(case["y"], dtype=bool)
    s = expand_scores(case["s"])
    n = len(yb)
    w = None if case["w"] is None else np.array(case["w"]["w"], dtype=float).astype(case["w"].get("dtype", "float64"))
    W = np.ones((1, n)) if w is None else w.astype(float)
    exact = w is None or case["w"]["kind"] != "float"
    fp, tp, thr = counts(yb, s, W)
    P, N = int(np.sum(yb)), int(np.sum(~yb))
    perm = np.random.RandomState(case["perm"]).permutation(n)
    rank = {v: i for i, v in enumerate(sorted(set(float(v) for v in s)))}
    mono = np.array([rank[float(v)] ** 3 - 5.0 for v in s])
    y0, s0, w0 = yb.copy(), s.copy(), None if w is None else w.copy()
    lab = set()
    for name, f in CURVES.items():
        arg = () if w is None else (w,)
        x, y, t = unpack(f(yb, s, *arg), len(W), len(thr), name)
        expect(np.array_equal(t, thr), "%s thresholds are %s and not %s", name, t, thr)
        expect(np.array_equal(yb, y0) and np.array_equal(s, s0) and (w is None or np.array_equal(w, w0)), "%s modified its input", name)
        expect(np.all(x[:, 0] == 0.0) or (name == "prg" and N == n), "%s does not start at 0", name)
        expect(np.all(np.abs(x[:, -1] - 1.0) <= 1e-9), "%s does not end at 1", name)
        expect(np.all(np.diff(x, axis=1) >= 0.0), "%s: x goes back", name)
        for r in range(len(W)):
            if P and N:
                xr, yr = ref_curve(name, fp[r], tp[r])
                d = tol(name, fp[r], tp[r], exact, n)
                okx = close(x[r], xr, d if name == "prg" else np.max(d))
                oky = close(y[r], yr, np.maximum(d, d[1]))
                expect(np.all(okx), "%s row %d: x %s, counting gives %s", name, r, x[r], xr)
                expect(np.all(oky), "%s row %d: y %s, counting gives %s", name, r, y[r], yr)
                lab.add("both classes")
            else:
                if name == "roc":
                    expect(np.all(np.abs(x[r] - y[r]) < 1e-9), "%s: one class, but not on the diagonal", name)
                    tot = (fp + tp)[r]
                    expect(np.all(np.abs(x[r] - tot / tot[-1]) < 1e-9), "%s: one class, wrong rates %s", name, x[r])
                elif name == "pr":
                    expect(np.all(np.abs(y[r] - (1.0 if P else 0.0)) < 1e-8), "one class, precision %s", y[r])
                else:
                    expect(np.all(np.abs(y[r]) < 1e-5), "one class, precision gain %s", y[r])
                lab.add("one class")
        # Metamorphic relations
        def same(res, what, rows=slice(None), t2=None):
            x2, y2, t3 = unpack(res, len(x[rows]), len(thr), name)
            if P and N:
                for r, (a, b, c, e) in enumerate(zip(x2, x[rows], y2, y[rows])):
                    rr = range(len(W))[rows][r]
                    d = 2 * tol(name, fp[rr], tp[rr], exact, n)
                    expect(np.all(close(a, b, np.max(d) if name != "prg" else d)) and np.all(close(c, e, np.maximum(d, d[1]))), "%s changes when %s", name, what)
            if t2 is None:
                expect(np.array_equal(t3, thr), "%s thresholds change when %s", name, what)

        same(f(yb[perm], s[perm], *[a[:, perm] for a in arg]), "data is reordered")
        same(f(yb, mono, *arg), "scores are transformed monotonically", t2=True)
        if w is None:
            same(f(yb, s, np.ones((1, n))), "unit weights are given")
        else:
            same(f(yb, s, 2.0 ** case.get("pow", 3) * w), "all weights are scaled")
            k = len(w) - 1
            same(f(yb, s, w[k : k + 1]), "other weight rows are dropped", slice(k, k + 1))
            if case["w"]["kind"] == "int":
                rep = w[k].astype(int)
                same(f(np.repeat(yb, rep), np.repeat(s, rep)), "points are replicated instead of weighted", slice(k, k + 1))
                lab.add("replication")
        if len(thr) < n + 1:
            lab.add("ties")
        # What cannot be ranked or counted is refused
        bad = [(yb.astype(int), s) + arg, (yb[:-1], s) + arg, (yb[:0], s[:0]), (yb, s, np.ones((1, n + 1))), (yb, s, np.ones(n))]
        for v in (NAN, INF, -INF):
            t = s.astype(float)
            t[perm[0]] = v
            bad.append((yb, t) + arg)
        for v in (NAN, INF, 0.0, -1.0):
            t = W.copy()
            t[-1, perm[0]] = v
            bad.append((yb, s, t))
        for k, b in enumerate(bad):
            expect_raises(lambda: f(*b), "%s of invalid input (%d)" % (name, k))
    if len(thr) == 2 and "both classes" in lab and n < 3:
        return []
    return sorted(lab)


C17 = Prop(
    "C17",
    [Sub("against_counting", lambda: curve_case(), check_curves, 2400, rule="ROC, PR and PRG curves against counting at each distinct score; permutation, monotone transform, weights as replication, rows independent, weight scale")],
    "Generated labels (mixed or one class), scores (ties, adjacent floats, +-0, huge, ints, float32), weight matrices (none, integer, dyadic, floats over 5 decades). Non-trivial: more than two points or more than one threshold, with the comparison made.",
    ["Scores are finite; weights are finite and positive", "Weights that are not dyadic get a round off allowance in proportion to total weight"],
)

# ============================================================================ C18


def ref_auc(y, s, w):
    num_, P, N = Fraction(0), Fraction(0), Fraction(0)
    for i in range(len(y)):
        wi = Fraction(float(w[i]))
        if y[i]:
            P += wi
        else:
            N += wi
        if not y[i]:
            continue
        for j in range(len(y)):
            if not y[j]:
                a, b = float(s[i]), float(s[j])
                num_ += wi * Fraction(float(w[j])) * (Fraction(1) if a > b else Fraction(1, 2) if a == b else Fraction(0))
    return float(num_ / (P * N))


def ref_step_area(name, y, s, w):
    """Area under the step function, in rational arithmetic."""
    fr = [Fraction(float(v)) for v in w]
    P = sum(v for v, l in zip(fr, y) if l)
    N = sum(v for v, l in zip(fr, y) if not l)
    xs, ys = [Fraction(0)], [None]
    for t in sorted(set(float(v) for v in s), reverse=True):
        tp = sum((v for v, l, sc in zip(fr, y, s) if l and float(sc) >= t), Fraction(0))
        fp = sum((v for v, l, sc in zip(fr, y, s) if not l and float(sc) >= t), Fraction(0))
        if name == "pr":
            xs.append(tp / P)
            ys.append(tp / (tp + fp))
        else:
            xs.append(Fraction(0) if tp == 0 else max(Fraction(0), 1 - P * (P - tp) / (N * tp)))
            ys.append(None if tp == 0 else 1 - P * fp / (N * tp))
    ys[0] = ys[1]
    tot = Fraction(0)
    for i in range(len(xs) - 1):
        d = xs[i + 1] - xs[i]
        if d == 0:
            continue
        if ys[i] is None:
            return -INF
        tot += d * ys[i]
    return float(tot)


def curve_area(name, y, s, w=None):
    arg = () if w is None else (w,)
    return as_arr(util.area(*CURVES[name](y, s, *arg)[0]), (1 if w is None else len(w),), "%s area" % name).astype(float)


def check_area(case):
    yb = np.array(case["y"], dtype=bool)
    s = expand_scores(case["s"])
    n = len(yb)
    w = None if case["w"] is None else np.array(case["w"]["w"], dtype=float).astype(case["w"].get("dtype", "float64"))
    W = np.ones((1, n)) if w is None else w.astype(float)
    both = bool(np.any(yb) and not np.all(yb))
    A = {name: curve_area(name, yb, s, w) for name in CURVES}
    lab = []
    if not both:
        expect(np.all(np.abs(A["roc"] - 0.5) < 1e-9), "one class: area under ROC %s", A["roc"])
        expect(np.all(np.abs(A["pr"] - (1.0 if yb[0] else 0.0)) < 1e-8), "one class: average precision %s", A["pr"])
        expect(np.all(np.abs(A["prg"]) < 1e-5), "one class: area under PRG %s", A["prg"])
        return ["one class"]
    ratio = max(float(np.max(W)) / float(np.min(W)), 1.0)
    t = 1e-9 if w is None or case["w"]["kind"] != "float" else 1e-13 * n * ratio ** 2 + 1e-9
    for r in range(len(W)):
        expect_near(A["roc"][r], ref_auc(yb, s, W[r]), "area under ROC, row %d" % r, atol=t)
        expect_near(A["pr"][r], ref_step_area("pr", yb, s, W[r]), "average precision, row %d" % r, atol=t)
        expect_near(A["prg"][r], ref_step_area("prg", yb, s, W[r]), "area under PRG, row %d" % r, atol=t)
        expect(0.0 <= A["roc"][r] <= 1.0 + 1e-12 and 0.0 <= A["pr"][r] <= 1.0 + 1e-12 and A["prg"][r] <= 1.0 + 1e-9, "area outside of its range")
    flip = curve_area("roc", ~yb, s, w)
    expect(np.all(np.abs(flip + A["roc"] - 1.0) <= t), "swapped labels: areas %s and %s", flip, A["roc"])
    neg = curve_area("roc", ~yb, -s.astype(float), w)
    expect(np.all(np.abs(neg - A["roc"]) <= t), "swapped labels and negated scores: areas %s and %s", neg, A["roc"])
    const = np.full(n, s[0])
    expect(np.all(np.abs(curve_area("roc", yb, const, w) - 0.5) <= t), "constant scores: area is not 1/2")
    prev = np.sum(W * yb, axis=1) / np.sum(W, axis=1)
    expect(np.all(np.abs(curve_area("pr", yb, const, w) - prev) <= t), "constant scores: average precision is not the prevalence")
    expect(np.all(np.abs(curve_area("prg", yb, const, w)) <= 10 * t), "constant scores: area under PRG is not 0")
    perfect = yb.astype(float)
    for name in CURVES:
        expect(np.all(np.abs(curve_area(name, yb, perfect, w) - 1.0) <= 10 * t), "perfect ranking: %s area is not 1", name)
    if A["prg"][0] == -INF:
        lab.append("PRG -inf")
    lab.append("weighted" if w is not None else "unweighted")
    if len(set(s.tolist())) < n:
        lab.append("ties")
    return lab


C18 = Prop(
    "C18",
    [Sub("areas", lambda: curve_case(), check_area, 1600, rule="area under ROC is the chance a positive outranks a negative (ties half); average precision and PRG area in rational arithmetic; symmetry, constant, perfect and one class rankings")],
    "Problems as in C17. Oracle: pair counting and rational arithmetic. Non-trivial: every case, by label.",
    ["Scores are finite; weights are finite and positive"],
)

# ============================================================================ C19


@st.composite
def close_points(draw):
    """Elements that differ by little, but do differ."""
    base = draw(st.sampled_from([0.0, 0.25, 1.0, 1.0, -3.0, 40.0]))
    step = draw(st.sampled_from([1e-3, 1e-6, 1e-8, 1e-10, 1e-12, 2.0 ** -46]))
    return st.integers(-3, 3).map(lambda k: base + k * step)


@st.composite
def step_case(draw):
    m = draw(st.integers(0, 8))
    el = draw(st.sampled_from([None, None, 0, 0, 1]))
    el = st.one_of(small_int, dyadic, floats(-100, 100)) if el is None else draw(close_points()) if el == 0 else st.one_of(small_int, draw(close_points()))
    g = draw(st.lists(st.one_of(el, st.just("xp"), st.just("next"), st.just("prev"), st.sampled_from([INF, -INF])), min_size=0, max_size=8))
    return {
        "xp": draw(st.lists(el, min_size=m, max_size=m, unique=True)),
        "yp": draw(st.lists(st.one_of(el, st.sampled_from([INF, -INF])), min_size=m, max_size=m)),
        "grid": [[v, draw(st.integers(0, 99))] for v in g],
        "ival": draw(st.one_of(st.none(), el)),
        "flag": draw(st.sampled_from(["none", "none", "sorted", "sorted_skip"])),
        "intx": draw(st.booleans()),
        "inty": draw(st.sampled_from([None, None, "value", "initial"])),
    }


def make_grid(spec, xp):
    out = []
    for v, k in spec:
        if v in ("xp", "next", "prev"):
            if len(xp) == 0:
                continue
            x = float(xp[k % len(xp)])
            out.append(x if v == "xp" else float(np.nextafter(x, INF if v == "next" else -INF)))
        else:
            out.append(v)
    return np.array(out, dtype=float)


def check_step(case):
    xp, yp = np.array(case["xp"], dtype=float), np.array(case["yp"], dtype=float)
    if case["flag"] != "none":
        o = np.argsort(xp, kind="stable")
        xp, yp = xp[o], yp[o]
    if case["intx"] and np.all(xp == np.round(xp)):
        xp = xp.astype(int)
    grid = make_grid(case["grid"], xp)
    ival = case["ival"]
    if case.get("inty") == "value":
        yp = np.round(np.where(np.isfinite(yp), yp, 3.0)).astype(int)
        ival = None if ival is None else round(ival)
    elif case.get("inty") == "initial" and ival is not None:
        ival = int(round(ival))
    if ival is None:
        if len(xp) == 0:
            ival = 2.0
        else:
            grid = grid[grid >= np.min(xp)]
    kw = {"none": {}, "sorted": {"assume_sorted": True}, "sorted_skip": {"assume_sorted": True, "skip_unique_chk": True}}[case["flag"]]
    copies = [a.copy() for a in (grid, xp, yp)]
    r = util.eval_step_func(grid, xp, yp, ival=ival, **kw) if ival is not None else util.eval_step_func(grid, xp, yp, **kw)
    got = as_arr(r, grid.shape, "step function").astype(float)
    expect(all(np.array_equal(a, b) for a, b in zip(copies, (grid, xp, yp))), "input modified")
    want = []
    for g in grid:
        below = [(float(a), float(b)) for a, b in zip(xp, yp) if float(a) <= g]
        want.append(max(below, key=lambda v: v[0])[1] if below else float(ival))
    expect_all_near(got, np.array(want).reshape(grid.shape), "step function", rtol=0.0, atol=0.0)
    lab = []
    if len(xp) and len(grid):
        lab.append("evaluated")
        if case["ival"] is None:
            bad = np.array([float(np.nextafter(np.min(xp), -INF))])
            expect_raises(lambda: util.eval_step_func(bad, xp, yp, **kw), "point before the first step, without initial value")
        elif np.any(grid < np.min(xp)):
            lab.append("before first step")
    if len(grid):
        expect_raises(lambda: util.eval_step_func(grid, xp, np.append(yp, 0.0), ival=0.0, **kw), "more values than steps")
    if len(xp) and case["flag"] != "sorted_skip":
        expect_raises(lambda: util.eval_step_func(grid, np.concatenate((xp[:1], xp)), np.concatenate((yp[:1], yp)), ival=0.0, **kw), "duplicated step")
    return lab


@st.composite
def interp_case(draw):
    rows = draw(st.integers(1, 3))
    m = draw(st.integers(2, 7))
    out = []
    for _ in range(rows):
        el = draw(st.sampled_from(["small", "dy", "float", "close", "close"]))
        strat = {"small": st.integers(0, 3).map(float), "dy": dyadic, "float": floats(-50, 50), "close": draw(close_points())}[el]
        x = sorted(draw(st.lists(strat, min_size=m, max_size=m)))
        y = draw(st.lists(st.one_of(small_int, dyadic, floats(-50, 50)), min_size=m, max_size=m))
        out.append([x, y])
    return {
        "rows": out,
        "kind": draw(st.sampled_from(["linear", "previous", "previous"])),
        "ninf": draw(st.sampled_from([None, None, 0, 1, 2])),
        "grid": [[draw(st.one_of(st.floats(0, 1), st.sampled_from(["xp", "xp", "next", "prev"]))), draw(st.integers(0, 99))] for _ in range(draw(st.integers(1, 7)))],
        "one_d": draw(st.booleans()),
        "kw": draw(st.booleans()),
        "pows": draw(st.sampled_from([[0, 0], [0, 0], [-30, 0], [20, 0], [0, -40], [0, 40], [-30, 60], [20, -60]])),
    }


def interp_setup(case):
    X = np.array([r[0] for r in case["rows"]]) * 2.0 ** case["pows"][0]
    Y = np.array([r[1] for r in case["rows"]]) * 2.0 ** case["pows"][1]
    kind = case["kind"]
    if case["ninf"] is not None and kind == "previous":
        Y[0, case["ninf"] % Y.shape[1]] = -INF
    if case["one_d"]:
        X, Y = X[:1], Y[:1]
    lo, hi = float(np.max(X[:, 0])), float(np.min(X[:, -1]))
    return X, Y, kind, lo, hi


def check_interp(case):
    X, Y, kind, lo, hi = interp_setup(case)
    if hi < lo:
        X = X - X[:, :1]  # All start at zero
        lo, hi = 0.0, float(np.min(X[:, -1]))
    grid = []
    pts = X.reshape(-1)
    for v, k in case["grid"]:
        if isinstance(v, str):
            x = float(pts[k % len(pts)])
            x = x if v == "xp" else float(np.nextafter(x, INF if v == "next" else -INF))
        else:
            x = lo + v * (hi - lo)
        grid.append(min(hi, max(lo, x)))
    grid = np.array(grid)
    if kind == "previous" and case["kw"]:
        grid = np.concatenate((grid, [hi + 1.0]))  # A step function continues
    x0, y0 = X.copy(), Y.copy()
    if case["one_d"]:
        got = as_arr(util.interp1d(grid, X[0], Y[0], kind), grid.shape, "interpolation")[None]
    elif case["kw"]:
        got = as_arr(util.interp1d(grid, X, Y, kind=kind), (len(X), len(grid)), "interpolation")
    else:
        got = as_arr(util.interp1d(grid, X, Y, kind), (len(X), len(grid)), "interpolation")
    expect(np.array_equal(X, x0) and np.array_equal(Y, y0), "input modified")
    if kind == "linear" and not case["one_d"] and case["kw"]:
        expect(np.array_equal(util.interp1d(grid, X, Y), got), "linear is not the default")
    lab = set([kind])
    sy = float(np.max(np.abs(Y[np.isfinite(Y)]), initial=0.0))
    for r in range(len(X)):
        for g, v in zip(grid, got[r]):
            v = float(v)
            at = [float(b) for a, b in zip(X[r], Y[r]) if a == g]
            if kind == "previous":
                want = [float(b) for a, b in zip(X[r], Y[r]) if a <= g][-1]
                expect(v == want, "step at %r is %r and not %r", g, v, want)
            elif at:
                expect(min(at) - 1e-9 * sy <= v <= max(at) + 1e-9 * sy, "curve at its point %r is %r and not in %r", g, v, at)
            else:
                i = int(np.sum(X[r] < g)) - 1
                a, b = X[r, i], X[r, i + 1]
                u = float((Fraction(g) - Fraction(a)) / (Fraction(b) - Fraction(a)))
                want = Y[r, i] * (1 - u) + Y[r, i + 1] * u
                expect_near(v, want, "line at %r" % g, atol=1e-9 * (abs(Y[r, i]) + abs(Y[r, i + 1])) + 1e-300)
            if len(at) > 1:
                lab.add("at a vertical part")
    for r in range(len(X)):
        if kind == "linear" and np.all(np.diff(X[r]) > 0):
            # Any other kind that scipy knows
            d = np.abs(grid[:, None] - X[r][None])
            two = np.sort(d, axis=1)[:, :2]
            clear = two[:, 1] - two[:, 0] > 1e-14 * np.max(np.abs(X[r]))
            v = as_arr(util.interp1d(grid, X[r : r + 1], Y[r : r + 1], "nearest"), (1, len(grid)), "interpolation")[0]
            expect(np.array_equal(v[clear], Y[r][np.argmin(d, axis=1)][clear]), "nearest point at %s: %s", grid, v)
            lab.add("nearest")
    # Outside of the curve there is nothing to interpolate
    bad = [lo - 1.0, float(np.nextafter(lo, -INF))] + ([hi + 1.0, float(np.nextafter(hi, INF))] if kind == "linear" else [])
    for v in bad:
        expect_raises(lambda: util.interp1d(np.concatenate((grid, [v])), X, Y, kind), "point %r outside of the curve (%r to %r)" % (v, lo, hi))
    if np.any(X[:, 0] < X[:, -1]):
        expect_raises(lambda: util.interp1d(grid, X[:, ::-1], Y, kind), "curve from right to left")
    zig = [k for k in range(1, X.shape[1] - 2) if X[0, k] < X[0, k + 1]]
    if zig:
        Q = X.copy()
        Q[0, zig[0]], Q[0, zig[0] + 1] = X[0, zig[0] + 1], X[0, zig[0]]
        expect_raises(lambda: util.interp1d(grid, Q, Y, kind), "curve that goes back")
    expect_raises(lambda: util.interp1d(grid, X, Y[:, :-1], kind), "curve with a value missing")
    return sorted(lab)


def check_areas(case):
    X, Y, kind, lo, hi = interp_setup(case)
    if case["one_d"] or kind == "linear":
        Y = np.where(np.isfinite(Y), Y, 0.0)
    x0, y0 = X.copy(), Y.copy()
    got = as_arr(util.area(X, Y, kind), (len(X),), "area").astype(float)
    expect(np.array_equal(X, x0) and np.array_equal(Y, y0), "input modified")
    for r in range(len(X)):
        tot, sc = Fraction(0), 1e-300
        for i in range(X.shape[1] - 1):
            d = Fraction(X[r, i + 1]) - Fraction(X[r, i])
            if d == 0:
                continue
            if kind == "previous":
                if Y[r, i] == -INF:
                    tot = None
                    break
                tot += d * Fraction(Y[r, i])
            else:
                tot += d * (Fraction(Y[r, i]) + Fraction(Y[r, i + 1])) / 2
            sc += float(d) * max(abs(Y[r, i]), abs(Y[r, i + 1]) if np.isfinite(Y[r, i + 1]) else 0.0)
        expect_near(got[r], -INF if tot is None else float(tot), "area of row %d" % r, rtol=0.0, atol=1e-11 * sc)
        alone = util.area(X[r : r + 1], Y[r : r + 1], kind)
        expect_near(alone[0], got[r], "area of a row alone", rtol=0.0, atol=1e-11 * sc)
    expect_raises(lambda: util.area(X, Y, "no such kind"), "unknown interpolation")
    for Q in (X, Y):
        T = Q.copy()
        T[-1, 0] = NAN
        expect_raises(lambda: util.area(T if Q is X else X, T if Q is Y else Y, kind), "NaN in a curve")
    expect_raises(lambda: util.area(X, Y[:, :-1], kind), "curve with a value missing")
    expect_raises(lambda: util.area(X[:, :1], Y[:, :1], kind), "curve of one point")
    return [kind]


C19 = Prop(
    "C19",
    [
        Sub("step_function", lambda: step_case(), check_step, 2400, rule="right continuous step function, by scanning; initial value; unsorted steps; ambiguous ones refused"),
        Sub("interpolation", lambda: interp_case(), check_interp, 2400, rule="vectorized step and linear interpolation against scanning, curves with vertical parts"),
        Sub("area", lambda: interp_case(), check_areas, 2400, rule="area of step and piecewise linear curves in rational arithmetic, row by row"),
    ],
    "Generated step functions and curves (duplicates, -inf steps, unsorted), evaluated on, next to, and away from their points. Non-trivial: a value was compared.",
    ["On the vertical part of a linear curve any value of that part is accepted"],
)

# ============================================================================ C20


@st.composite
def boot_curve_case(draw, exact=True):
    n = draw(st.integers(1, 9))
    sc = st.one_of(small_int, dyadic, floats(-20, 20))
    y = draw(labels_bin(n))
    s = draw(st.lists(sc, min_size=n, max_size=n))
    ref_kind = draw(st.sampled_from(["scalar", "array", "array", "same", "monotone"]))
    return {
        "y": y,
        "ydt": draw(st.sampled_from(["bool", "int64", "int32"])),
        "s": s,
        "col0": draw(sc),
        "curve": draw(st.sampled_from(["roc", "pr", "prg"])),
        "default_curve": draw(st.booleans()),
        "ref_kind": ref_kind,
        "ref": draw(st.lists(sc, min_size=n, max_size=n)) if ref_kind == "array" else draw(st.sampled_from([0.5, 0.0, 1.0, 0.75, 0.25])),
        "grid": draw(st.one_of(st.none(), st.lists(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0.25])), min_size=1, max_size=4).map(lambda v: v if v[0] == 0.25 else sorted(v)))),
        "n_boot": draw(st.sampled_from([1, 2, 5, 20, 41, 60])),
        "pairwise": draw(st.sampled_from([None, False, True])),
        "conf": draw(confidence),
        "seed": draw(seeds),
    }


def vcurve(name, y, s, W):
    """Reference curves for many weight rows, with the one class conventions."""
    thr = np.array([INF] + sorted(set(float(v) for v in s), reverse=True))
    M = np.asarray(s, dtype=float)[None, :] >= thr[:, None]
    tp = W.dot((M & y[None, :]).T.astype(float))
    fp = W.dot((M & ~y[None, :]).T.astype(float))
    if not np.any(y):
        tp = 1e-10 * fp
    elif np.all(y):
        fp = 1e-10 * tp
    P, N = tp[:, -1:], fp[:, -1:]
    with np.errstate(all="ignore"):
        if name == "roc":
            return fp / N, tp / P
        if name == "pr":
            yy = tp / (tp + fp)
            yy[:, 0] = yy[:, 1]
            return tp / P, yy
        yy = 1.0 - P * fp / (N * tp)
        yy[:, 0] = yy[:, 1]
        xx = np.maximum(0.0, np.where(tp > 0, 1.0 - P * (P - tp) / (N * np.where(tp > 0, tp, 1.0)), 0.0))
    return xx, yy


def varea(name, x, y):
    d = np.diff(x, axis=1)
    if name == "roc":
        return np.sum(d * 0.5 * (y[:, 1:] + y[:, :-1]), axis=1)
    with np.errstate(all="ignore"):
        return np.sum(np.where(d > 0, np.where(d > 0, y[:, :-1], 0.0) * d, 0.0), axis=1)


def ill_posed(y, W):
    """Replicates in which a class has next to no weight."""
    if not np.any(y) or np.all(y):
        return np.zeros(len(W), dtype=bool)
    return (np.max(np.where(y[None], W, 0.0), axis=1) < 0.5) | (np.max(np.where(~y[None], W, 0.0), axis=1) < 0.5)


def area_bounds(name, y, s, W):
    x, yy = vcurve(name, y, s, W)
    a = varea(name, x, yy)
    ill = ill_posed(y, W)
    if name == "prg":
        t = np.where(np.isfinite(a), 1e-3 + 1e-4 * np.abs(np.where(np.isfinite(a), a, 0.0)), 0.0)
        lo, hi = a - t, a + t
        one = not np.any(y) or np.all(y)
        if not one:
            # The first positive may have next to no weight: the gain there is round off
            sens = ill | (a < -1e3)
            lo, hi = np.where(sens, -INF, lo), np.where(sens, 1.0, hi)
        return lo, hi
    t = np.where(ill, 1e-3, 1e-7)
    return a - t, a + t


def grid_bounds(name, y, s, W, grid, d=1e-7):
    """Range of each replicate's curve near each grid point."""
    x, yy = vcurve(name, y, s, W)
    ill = ill_posed(y, W)
    LO, HI = np.empty((len(W), len(grid))), np.empty((len(W), len(grid)))
    for b in range(len(W)):
        xs, ys = x[b], yy[b]
        for k, g in enumerate(grid):
            if name == "roc":
                v = np.concatenate((np.interp([g - d, g + d], xs, ys), ys[(xs >= g - d) & (xs <= g + d)]))
                t = 1e-6
            else:
                i = max(0, int(np.searchsorted(xs, g - d, side="right")) - 1)
                j = max(0, int(np.searchsorted(xs, g + d, side="right")) - 1)
                v = ys[i : j + 1]
                t = 1e-6 if name == "pr" else 1e-3
            lo, hi = float(np.min(v)), float(np.max(v))
            if np.isfinite(lo):
                lo -= t * (1 + abs(lo))
            if np.isfinite(hi):
                hi += t * (1 + abs(hi))
            if ill[b] or (name == "prg" and lo < -1e3 and hi > -INF):
                # Everything within a replicate without a class is round off
                lo, hi = (-INF if name == "prg" else 0.0), 1.0 + 1e-6
            LO[b, k], HI[b, k] = lo, hi
    return LO, HI


def perc_ranks(conf, n):
    v = 0.5 * (1.0 - conf) * (n - 1)
    return max(0, int(math.floor(v - 1e-7))), min(n - 1, int(math.floor(v + 1e-7)))


def order_bounds(lo, hi, conf):
    """Ranges of both ends of the percentile interval."""
    n = len(lo)
    j0, j1 = perc_ranks(conf, n)
    slo, shi = np.sort(lo, axis=0), np.sort(hi, axis=0)
    return (slo[j0], shi[j1]), (slo[n - 1 - j1], shi[n - 1 - j0])


def sub_bounds(a, b):
    with np.errstate(all="ignore"):
        lo, hi = a[0] - b[1], a[1] - b[0]
    return np.where(np.isnan(lo), -INF, lo), np.where(np.isnan(hi), INF, hi)


def cell_bounds(name, y, s, ref, W, conf, pairwise):
    """((EB range), (p range), mean) given the resamples."""
    one = np.ones((1, len(y)))
    mu = float(varea(name, *vcurve(name, y, s, one))[0])
    ab = area_bounds(name, y, s, W)
    if np.ndim(ref) == 0:
        rb, rmu = (np.full(len(W), ref), np.full(len(W), ref)), ref
    else:
        rb, rmu = area_bounds(name, y, ref, W), float(varea(name, *vcurve(name, y, ref, one))[0])
    z, m = (sub_bounds(ab, rb), mu - rmu) if pairwise else (ab, mu)
    (L0, L1), (U0, U1) = order_bounds(z[0], z[1], conf)
    if np.isfinite(m):
        EB = (max(U0 - m, m - L1), max(U1 - m, m - L0))
    else:
        EB = (0.0, INF)
    n = float(len(W))
    p_lo = 2.0 * min(np.sum(ab[1] < rb[0]), np.sum(ab[0] > rb[1])) / n
    p_hi = 2.0 * min(np.sum(ab[0] <= rb[1]), np.sum(ab[1] >= rb[0])) / n
    return EB, (min(1.0, p_lo), min(1.0, p_hi)), mu


def in_band(v, band, t=1e-9):
    return band[0] - t * (1 + abs(band[0]) if np.isfinite(band[0]) else 1) <= v <= band[1] + t * (1 + abs(band[1]) if np.isfinite(band[1]) else 1)


def has_ninf(name, y, s):
    """The area can be -inf in some resample: the highest scores have no positive."""
    return name == "prg" and bool(np.any(y)) and not np.any(y[s == np.max(s)])


def own_weights(n, nb, seed):
    return np.maximum(1e-10, np.random.RandomState(seed).multinomial(n, np.ones(n) / n, size=nb).astype(float))


def check_statistically(name, y, s, ref, conf, pairwise, n_boot, EB, p, what):
    """Without the resamples used, compare to an independent bootstrap."""
    W = own_weights(len(y), 4000, 77)
    ab = area_bounds(name, y, s, W)
    one = np.ones((1, len(y)))
    mu = float(varea(name, *vcurve(name, y, s, one))[0])
    rb, rmu = ((np.full(4000, ref),) * 2, ref) if np.ndim(ref) == 0 else (area_bounds(name, y, ref, W), float(varea(name, *vcurve(name, y, ref, one))[0]))
    slack = 6.5 * (math.sqrt(0.25 / n_boot) + math.sqrt(0.25 / 4000))
    lo = 2.0 * min(np.mean(ab[1] < rb[0]), np.mean(ab[0] > rb[1]))
    hi = 2.0 * min(np.mean(ab[0] <= rb[1]), np.mean(ab[1] >= rb[0]))
    expect(lo - 2 * slack <= p <= hi + 2 * slack, "%s: p-value %r, bootstrap gives %r to %r", what, p, lo, hi)
    z, m = (sub_bounds(ab, rb), mu - rmu) if pairwise else (ab, mu)
    if not np.isfinite(m) or not np.isfinite(EB):
        return
    al = 0.5 * (1.0 - conf)
    expect(np.mean(z[0] > m + EB + 1e-6) <= al + slack and np.mean(z[1] < m - EB - 1e-6) <= al + slack, "%s: error bar %r is too small", what, EB)
    expect(np.mean(z[1] >= m + EB - 1e-6) >= al - slack or np.mean(z[0] <= m - EB + 1e-6) >= al - slack, "%s: error bar %r is too large", what, EB)


def check_boot_curve(case):
    y = np.array(case["y"])
    yb = y.astype(bool)
    s = np.array(case["s"], dtype=float)
    n, nb, conf = len(y), case["n_boot"], case["conf"]
    name = case["curve"]
    lp = np.stack((np.full(n, case["col0"]), s), axis=1)
    kind = case["ref_kind"]
    if kind == "scalar":
        ref, sref = case["ref"], case["ref"]
    else:
        sref = np.array(case["ref"], dtype=float) if kind == "array" else s if kind == "same" else 2.0 * s + 1.0
        ref = np.stack((s, sref), axis=1)
    pairwise = bool(case["pairwise"])
    if pairwise and (has_ninf(name, yb, s) or (kind != "scalar" and has_ninf(name, yb, sref))):
        pairwise, case["pairwise"] = False, False
    kw = {"n_boot": nb, "confidence": conf}
    if conf == 0.95:
        del kw["confidence"]
    if case["grid"] is not None:
        kw["x_grid"] = np.array(case["grid"])
    if case["pairwise"] is not None:
        kw["pairwise_CI"] = case["pairwise"]
    if not (name == "roc" and case["default_curve"]):
        kw["curve_f"] = CURVES[name]
    grid = np.linspace(0.0, 1.0, 100) if case["grid"] is None else np.array(case["grid"])
    ya = y.astype(case["ydt"])
    inp = [ya.copy(), lp.copy(), np.array(ref)]
    np.random.seed(case["seed"])
    W = np.asarray(bu.boot_weights(n, nb, epsilon=1e-10), dtype=float)
    end = rng_state()
    np.random.seed(case["seed"])
    summary, curve = btc.curve_boot(ya, lp, ref, **kw)
    exact = rng_state() == end
    expect(np.array_equal(ya, inp[0]) and np.array_equal(lp, inp[1]) and np.array_equal(ref, inp[2]), "input modified")
    mu, EB, p = [num(v, "summary") for v in summary]
    expect(0.0 <= p <= 1.0 and (EB >= 0.0 or not np.isfinite(mu)), "error bar %r, p-value %r", EB, p)
    one = np.ones((1, n))
    want = float(varea(name, *vcurve(name, yb, s, one))[0])
    expect_near(mu, want, "%s summary" % name, atol=1e-8)
    bad_lp = lp.copy()
    bad_lp[case["seed"] % n, 1] = NAN
    few = {"n_boot": 2, "curve_f": CURVES[name]}
    r2 = ref if kind == "scalar" else lp
    for what, f in (
        ("three labels", lambda: btc.curve_boot(ya, np.concatenate((lp, lp[:, :1]), axis=1), 0.5, **few)),
        ("a missing prediction", lambda: btc.curve_boot(ya, bad_lp, r2, **few)),
        ("a missing reference prediction", lambda: btc.curve_boot(ya, lp, bad_lp, **few)),
        ("a missing reference", lambda: btc.curve_boot(ya, lp, NAN, **few)),
        ("a reference for other points", lambda: btc.curve_boot(ya, lp, np.concatenate((lp, lp[:1])), **few)),
        ("a label too many", lambda: btc.curve_boot(np.append(ya, ya[:1]), lp, r2, **few)),
        ("label 2", lambda: btc.curve_boot(np.append(y[1:], 2), lp, r2, **few)),
        ("no resamples", lambda: btc.curve_boot(ya, lp, r2, n_boot=0, curve_f=CURVES[name])),
        ("a grid of two dimensions", lambda: btc.curve_boot(ya, lp, r2, x_grid=np.zeros((2, 2)), **few)),
        ("a grid beyond the curve", lambda: btc.curve_boot(ya, lp, r2, x_grid=np.array([0.0, 1.5]), **few)),
        ("confidence 1.5", lambda: btc.curve_boot(ya, lp, r2, confidence=1.5, **few)),
        ("confidence 0", lambda: btc.curve_boot(ya, lp, r2, confidence=0.0, **few)),
    ):
        expect_raises(f, "curve with %s" % what)
    if kind == "same" and np.isfinite(mu) or kind == "monotone" and name != "prg":
        expect(p == 1.0, "comparison to itself has p-value %r", p)
        if pairwise:
            expect(EB <= 1e-9, "paired error bar %r in comparison to itself", EB)
    # The curve
    expect(list(curve.columns) == ["xgrid", "ygrid", "LB", "UB"], "columns %s", list(curve.columns))
    expect(curve.shape == (len(grid), 4) and list(curve.index) == list(range(len(grid))), "shape of curve table")
    expect(np.array_equal(curve["xgrid"].values, grid), "grid")
    LO, HI = grid_bounds(name, yb, s, one, grid, 1e-10)
    yg, LB, UB = [curve[c].values.astype(float) for c in ("ygrid", "LB", "UB")]
    expect(np.all((LO[0] <= yg) & (yg <= HI[0])), "curve at grid %s, expected %s", yg, LO[0])
    expect(np.all(LB <= UB), "lower end above upper end")
    lab = [name]
    if exact:
        eb, pb, _ = cell_bounds(name, yb, s, sref, W, conf, pairwise)
        if np.isfinite(mu):
            expect(in_band(EB, eb), "%s error bar %r outside of %r given the resamples", name, EB, eb)
        expect(in_band(p, pb), "%s p-value %r outside of %r given the resamples", name, p, pb)
        if len(grid) > 10:
            pick = np.array([0, 7, 33, 49, 50, 66, 98, 99])
        else:
            pick = np.arange(len(grid))
        LO, HI = grid_bounds(name, yb, s, W, grid[pick])
        (L0, L1), (U0, U1) = order_bounds(LO, HI, conf)
        a, b = LB[pick], UB[pick]
        expect(np.all((L0 <= a) & (a <= L1)), "lower envelope %s not in %s .. %s", a, L0, L1)
        expect(np.all((U0 <= b) & (b <= U1)), "upper envelope %s not in %s .. %s", b, U0, U1)
        lab.append("exact")
    else:
        check_statistically(name, yb, s, sref, conf, pairwise, nb, EB, p, name)
        lab.append("statistical")
    lab.append(kind)
    return lab if n > 1 else []


@st.composite
def curve_table_case(draw):
    meth = draw(names(6, 8) if draw(st.integers(0, 9)) == 0 else names(1, 3, ints=True))
    n = draw(st.integers(1, 7))
    sc = st.one_of(small_int, dyadic)
    S = [draw(st.lists(sc, min_size=n, max_size=n)) for _ in meth]
    if len(meth) > 1 and draw(st.integers(0, 2)) == 0:
        S[1] = list(S[0])
    return {
        "methods": meth,
        "S": S,
        "y": draw(labels_bin(n)),
        "bool": draw(st.booleans()),
        "ref": draw(st.sampled_from(meth)),
        "curves": draw(st.lists(st.sampled_from(["roc", "pr", "prg"]), min_size=1, max_size=3, unique=True)),
        "suffix": draw(st.sampled_from(["", "_c", " x"])),
        "pairwise": draw(st.sampled_from([None, False, True])),
        "conf": draw(confidence),
        "n_boot": draw(st.sampled_from([5, 20, 40])),
        "grid": draw(st.sampled_from([[0.0, 0.5, 1.0], [0.25], [0.1, 0.2, 0.9], [1.0, 0.25, 0.0, 0.5, 0.25]])),
        "index": draw(st.sampled_from(["range", "str", "rev", "gap", "dup", "float"])),
        "unused": draw(st.booleans()),
        "seed": draw(seeds),
    }


def check_curve_table(case):
    meth, ref, conf, nb = case["methods"], case["ref"], case["conf"], case["n_boot"]
    y = np.array(case["y"])
    yb = y.astype(bool)
    n = len(y)
    cur = {c + case["suffix"]: c for c in case["curves"]}
    S = {m: np.array(v, dtype=float) for m, v in zip(meth, case["S"])}
    pairwise = bool(case["pairwise"])
    if pairwise and any(has_ninf(c, yb, S[m]) for c in cur.values() for m in meth):
        pairwise, case["pairwise"] = False, False
    cols = pd.MultiIndex.from_product([meth, [0, 1]], names=["method", "label"])
    tbl = pd.DataFrame(np.concatenate([np.stack((-S[m], S[m]), axis=1) for m in meth], axis=1), columns=cols, index=make_index(case["index"], n))
    if case["unused"]:
        tbl = with_unused(tbl, ["aaa", "removed"], [0, 2])
    kw = {} if case["pairwise"] is None else {"pairwise_CI": case["pairwise"]}
    if conf != 0.95:
        kw["confidence"] = conf
    K = len(meth) * len(cur)
    np.random.seed(case["seed"])
    Ws = [np.asarray(bu.boot_weights(n, nb, epsilon=1e-10), dtype=float) for _ in range(K)]
    end = rng_state()
    np.random.seed(case["seed"])
    tbl0 = tbl.copy()
    ya = yb if case["bool"] else y
    grid = np.array(case["grid"])
    res, dump = btc.curve_summary_table(tbl, ya, {k: CURVES[c] for k, c in cur.items()}, ref, x_grid=grid, n_boot=nb, **kw)
    exact = rng_state() == end
    expect(tbl.equals(tbl0), "input modified")
    expect_raises(lambda: btc.curve_summary_table(tbl, np.append(ya, ya[:1]), {k: CURVES[c] for k, c in cur.items()}, ref, n_boot=2), "a label too many")
    expect(set(res.index) == set(meth) and len(res.index) == len(meth) and res.index.name == "method", "rows %s", list(res.index))
    want_cols = set((c, s_) for c in cur for s_ in ("mean", "error", "p"))
    expect(set(res.columns) == want_cols and len(res.columns) == len(want_cols) and list(res.columns.names) == ["metric", "stat"], "columns %s", list(res.columns))
    expect(set(dump) == set((m, c) for m in meth for c in cur), "curves %s", list(dump))
    one = np.ones((1, n))
    lab = set()
    for m in meth:
        for c, name in cur.items():
            what = "%s of %s" % (c, m)
            mu, EB, p = [num(res.loc[m, (c, k)], k) for k in ("mean", "error", "p")]
            expect_near(mu, float(varea(name, *vcurve(name, yb, S[m], one))[0]), what, atol=1e-8)
            d = dump[(m, c)]
            expect(list(d.columns) == ["xgrid", "ygrid", "LB", "UB"] and np.array_equal(d["xgrid"].values, grid), "%s: curve table", what)
            LO, HI = grid_bounds(name, yb, S[m], one, grid, 1e-10)
            yg = d["ygrid"].values
            expect(np.all((LO[0] <= yg) & (yg <= HI[0])), "%s: curve at grid %s, expected %s", what, yg, LO[0])
            if m == ref:
                expect(math.isnan(p), "%s: reference has p-value %r", what, p)
                expect(math.isnan(EB) == pairwise or mu == -INF, "%s: reference has error bar %r", what, EB)
            else:
                expect(0.0 <= p <= 1.0, "%s p-value %r", what, p)
                if np.array_equal(S[m], S[ref]):
                    expect(p == 1.0, "%s: same scores as the reference but p-value %r", what, p)
                    if pairwise:
                        expect(EB <= 1e-9, "%s: same scores as the reference but error bar %r", what, EB)
                    lab.add("copy of reference")
            if not np.isfinite(mu):
                continue
            if exact:
                ok = []
                for W in Ws:
                    eb, pb, _ = cell_bounds(name, yb, S[m], S[ref], W, conf, pairwise)
                    L = grid_bounds(name, yb, S[m], W, grid)
                    (L0, L1), (U0, U1) = order_bounds(L[0], L[1], conf)
                    a, b = d["LB"].values, d["UB"].values
                    ok.append(
                        (m == ref or in_band(p, pb))
                        and (math.isnan(EB) or in_band(EB, eb))
                        and bool(np.all((L0 <= a) & (a <= L1)) and np.all((U0 <= b) & (b <= U1)))
                    )
                expect(any(ok), "%s: (%r, %r, %r) does not follow from any of the resamples", what, mu, EB, p)
                lab.add("exact")
            elif m != ref:
                check_statistically(name, yb, S[m], S[ref], conf, pairwise, nb, EB, p, what)
                lab.add("statistical")
    # What would compare the wrong things is refused
    args = ({k: CURVES[c] for k, c in cur.items()}, ref)
    few = {"n_boot": 2, "x_grid": grid}
    expect_raises(lambda: btc.curve_summary_table(tbl, np.append(ya, ya[:1]), *args, **few), "a label too many")
    expect_raises(lambda: btc.curve_summary_table(tbl, ya, args[0], "nobody", **few), "unknown reference")
    expect_raises(lambda: btc.curve_summary_table(tbl, ya, {}, ref, **few), "no curves")
    m = meth[case["seed"] % len(meth)]
    bad = tbl.copy()
    bad.loc[case["seed"] % n, (m, 1)] = NAN
    expect_raises(lambda: btc.curve_summary_table(bad, ya, *args, **few), "NaN predicted by %s" % m)
    cols = list(tbl.columns)
    i = cols.index((m, 0))
    cols[i], cols[i + 1] = cols[i + 1], cols[i]
    bad = tbl[pd.MultiIndex.from_tuples(cols, names=["method", "label"])]
    expect_raises(lambda: btc.curve_summary_table(bad, ya, *args, **few), "labels of %s in another order" % m)
    if len(meth) > 1:
        lab.add("comparison")
    return sorted(lab) if n > 1 else []


@st.composite
def default_case(draw):
    n = draw(st.integers(2, 8))
    return {"y": draw(labels_bin(n)), "s": [draw(st.lists(st.one_of(small_int, dyadic), min_size=n, max_size=n)) for _ in range(2)], "seed": draw(seeds), "curve": draw(st.sampled_from(["roc", "roc", "pr"])), "table": draw(st.booleans()), "drop": draw(st.sampled_from(["all", "x_grid", "n_boot", "pairwise_CI", "confidence"]))}


def check_defaults(case):
    """Leaving out an option is the same as giving its documented default."""
    y = np.array(case["y"])
    a, b = [np.stack((-np.array(v), np.array(v)), axis=1) for v in case["s"]]
    full = {"x_grid": np.linspace(0.0, 1.0, 100), "n_boot": 1000, "pairwise_CI": False, "confidence": 0.95}
    if case["drop"] not in ("n_boot", "all"):
        full["n_boot"] = 77
    some = {k: v for k, v in full.items() if case["drop"] not in (k, "all")}
    f = CURVES[case["curve"]]
    if case["table"]:
        tbl = pd.DataFrame(np.concatenate((a, b), axis=1), columns=pd.MultiIndex.from_product([["u", "v"], [0, 1]], names=["method", "label"]))
        go = lambda kw: btc.curve_summary_table(tbl, y, {"c": f}, "u", **kw)  # noqa: E731
    else:
        if case["curve"] == "roc" and case["drop"] == "all":
            full["curve_f"] = f
        else:
            some["curve_f"] = full["curve_f"] = f
        go = lambda kw: btc.curve_boot(y, a, b, **kw)  # noqa: E731
    out = []
    for kw in (some, full):
        np.random.seed(case["seed"])
        res = go(kw)
        out.append((res, rng_state()))
    expect(out[0][1] == out[1][1], "default %s draws other resamples than documented", case["drop"])
    (r0, d0), (r1, d1) = out[0][0], out[1][0]
    expect(np.array_equal(np.asarray(r0, dtype=float), np.asarray(r1, dtype=float), equal_nan=True), "default %s gives %s, the documented one %s", case["drop"], r0, r1)
    for k in d0 if case["table"] else [None]:
        u, v = (d0, d1) if k is None else (d0[k], d1[k])
        expect(np.array_equal(u.values, v.values, equal_nan=True), "default %s gives another curve", case["drop"])
    return [case["drop"]]


@st.composite
def custom_case(draw):
    n = draw(st.integers(2, 6))
    return {
        "n": n,
        "m": draw(st.integers(2, 5)),
        "seed": draw(seeds),
        "n_boot": draw(st.integers(1, 8)),
        "kind": draw(st.sampled_from(["linear", "previous"])),
        "bad": draw(st.sampled_from([None, None, "unsorted", "nan x", "inf x", "nan y", "inf y", "short", "1d", "shape", "starts late", "ends early"])),
        "where": draw(st.sampled_from(["all", "boot", "orig", "ref"])),
        "ref": draw(st.booleans()),
        "grid": draw(st.sampled_from([None, [0.0, 0.5, 1.0], [0.0, 1.0]])),
    }


def check_custom(case):
    """A user's own curve: it is used as given, and refused if it is not a curve."""
    r = np.random.RandomState(case["seed"])
    n, m, nb = case["n"], case["m"], case["n_boot"]
    y = (np.arange(n) % 2).astype(bool)
    s, sr = r.randn(n), r.randn(n) + 10.0
    bad = case["bad"]
    if case["where"] == "ref" and not case["ref"]:
        bad = None
    if case["where"] == "ref" and bad in ("starts late", "ends early"):
        bad = None  # Only the area is needed
    x1 = np.concatenate(([0.0], np.sort(r.rand(m - 1)), [1.0]))
    calls = []

    def curve_f(y_, s_, w=None):
        is_ref = bool(np.mean(s_) > 5.0)
        k = 1 if w is None else np.shape(w)[0]
        calls.append((is_ref, k, None if w is None else np.array(w)))
        a = (np.ones((1, n)) if w is None else np.asarray(w)).dot(s_)
        X = np.repeat([x1], k, axis=0)
        Y = np.abs(np.sin(a))[:, None] + np.arange(m + 1)[None] * 0.25
        now = {"all": True, "boot": w is not None, "orig": w is None, "ref": is_ref}[case["where"]]
        if bad is not None and now:
            if bad == "unsorted":
                X[-1] = X[-1, ::-1]
            elif bad == "nan x":
                X[-1, m // 2] = NAN
            elif bad == "inf x":
                X[-1, -1] = INF
            elif bad == "nan y":
                Y[-1, m // 2] = NAN
            elif bad == "inf y":
                Y[-1, m // 2] = INF
            elif bad == "short":
                X, Y = X[:, :1], Y[:, :1]
            elif bad == "1d":
                X, Y = X[0], Y[0]
            elif bad == "shape":
                Y = Y[:, :-1]
            elif bad == "starts late":
                X[-1, 0] = 1e-6
                X[-1] = np.sort(X[-1])
            elif bad == "ends early":
                X[-1] = np.minimum(X[-1], 1.0 - 1e-6)
        return (X, Y, case["kind"]), None

    lp = np.stack((np.zeros(n), s), axis=1)
    ref = np.stack((np.zeros(n), sr), axis=1) if case["ref"] else 0.5
    kw = {} if case["grid"] is None else {"x_grid": np.array(case["grid"])}

    def go():
        return btc.curve_boot(y, lp, ref, curve_f=curve_f, n_boot=nb, pairwise_CI=False, **kw)

    if bad is not None:
        expect_raises(go, "a curve that is malformed (%s, %s)" % (bad, case["where"]))
        return [bad]
    (mu, EB, p), curve = go()
    dx = np.diff(x1)

    def ar(Y):
        return math.fsum((Y[i] if case["kind"] == "previous" else (Y[i] + Y[i + 1]) / 2.0) * dx[i] for i in range(m))

    def yy(a):
        return abs(math.sin(a)) + np.arange(m + 1) * 0.25

    expect_near(mu, ar(yy(float(np.sum(s)))), "area of a custom curve", atol=1e-9)
    W = [w for f, k, w in calls if w is not None and not f]
    if len(W) == 1 and W[0].shape == (nb, n):
        A = [ar(yy(float(w.dot(s)))) for w in W[0]]
        R = [ar(yy(float(w.dot(sr)))) for w in W[0]] if case["ref"] else [0.5] * nb
        le, ge = sum(a <= b for a, b in zip(A, R)), sum(a >= b for a, b in zip(A, R))
        expect_near(p, min(1.0, 2.0 * min(le, ge) / nb), "p-value of a custom curve", atol=1e-9)
        for w in W[0]:
            expect(np.all(w > 0) and near(float(np.sum(w)), n, 1e-6) and np.all(np.abs(w - np.round(w)) < 1e-6), "weights %s", w)
    g = curve["xgrid"].values
    want = [yy(float(np.sum(s)))[0], yy(float(np.sum(s)))[-1]]
    expect(g[0] == 0.0 and g[-1] == 1.0, "grid %s", g)
    yg = curve["ygrid"].values
    lo = want[0] if x1[1] > 0.0 else None
    if lo is not None:
        expect_near(yg[0], lo, "custom curve at 0", atol=1e-9)
    if x1[-2] < 1.0:
        expect_near(yg[-1], want[1], "custom curve at 1", atol=1e-9)
    return ["valid"]


C20 = Prop(
    "C20",
    [
        Sub("custom_curve", lambda: custom_case(), check_custom, 400, rule="a user's own curve function is summarized as given; malformed curves (for the data, a resample or the reference only) are refused"),
        Sub("defaults", lambda: default_case(), check_defaults, 80, rule="options left out equal their documented defaults, given the same random stream"),
        Sub("one_curve", lambda: boot_curve_case(), check_boot_curve, 640, rule="summary against the reference area; error bar, p-value and envelope from the same resamples (interval arithmetic), or statistically if the random stream is used differently"),
        Sub("table", lambda: curve_table_case(), check_curve_table, 200, rule="each cell and stored curve of the table; NaN for the reference; copies of the reference have p=1"),
    ],
    "Generated problems of 1-9 points, three curves, scalar, array and identical references, grids, confidence levels, 1-60 replicates. Non-trivial: more than one point.",
    [
        "Scores are finite",
        "Paired differences of areas are defined (area under PRG may be -inf)",
        "Replicates in which a class has no weight are only bounded (round off of the 1e-10 minimum weight decides them)",
    ],
)

PROPS = [C17, C18, C19, C20]
