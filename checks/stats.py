"""C10 to C16: error bars, tests, bootstrap and loss summaries."""
import itertools
import math
from fractions import Fraction

import mlpaper.boot_util as bu
import mlpaper.mlpaper as bt
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import bdtr, chdtrc, gammainc, stdtr, stdtrit

from harness.core import Prop, Sub, expect
from harness.gen import (
    INF,
    METRICS,
    NAN,
    as_arr,
    confidence,
    data_vec,
    dyadic,
    expand,
    expect_all_near,
    expect_near,
    expect_raises,
    floats,
    make_index,
    names,
    near,
    num,
    rng_state,
    seeds,
    small_int,
    vec,
    with_unused,
)

# ---------------------------------------------------------------- references


def moments(x):
    """Mean and sum of squared deviations, correctly rounded sums."""
    n = len(x)
    m = float(sum((Fraction(float(v)) for v in x), Fraction(0)) / n)
    fm = sum((Fraction(float(v)) for v in x), Fraction(0)) / n
    ss = float(sum(((Fraction(float(v)) - fm) ** 2 for v in x), Fraction(0)))
    return m, ss


def well_posed(x, ss):
    """The spread is not just round off."""
    mx = max(abs(float(v)) for v in x)
    return ss == 0.0 or math.sqrt(ss / len(x)) > 1e-6 * mx


def ref_t_EB(x, conf):
    n = len(x)
    if n <= 1 or not np.all(np.isfinite(x)):
        return INF
    _, ss = moments(x)
    return math.sqrt(ss / (n - 1.0) / n) * float(stdtrit(n - 1, 0.5 + 0.5 * conf))


def ref_t_test(x):
    n = len(x)
    if n <= 1 or not np.all(np.isfinite(x)):
        return 1.0
    m, ss = moments(x)
    if ss == 0.0:
        return 1.0 if m == 0.0 else 0.0
    return 2.0 * float(stdtr(n - 1, -abs(m) / math.sqrt(ss / (n - 1.0) / n)))


def ref_bern_EB(x, lo, hi, conf):
    n = len(x)
    if n <= 1 or not np.all(np.isfinite(x)):
        return hi - lo
    _, ss = moments(x)
    A = math.log(3.0 / (1.0 - conf))
    return math.sqrt(ss / n) * math.sqrt(2.0 * A / n) + 3.0 * A * (hi - lo) / n


def ref_bern_test(x, lo, hi):
    n = len(x)
    r = hi - lo
    if n <= 1 or not np.all(np.isfinite(x)) or r == 0.0 or r == INF:
        return 1.0
    m, ss = moments(x)
    # Solve a q^2 + b q = |m| for q = sqrt(B)
    a, b, c = 3.0 * r / n, math.sqrt(ss / n) * math.sqrt(2.0 / n), abs(m)
    q = 2.0 * c / (b + math.sqrt(b * b + 4.0 * a * c)) if c > 0 else 0.0
    return min(1.0, 3.0 * math.exp(-q * q))


def ref_clip(mu, EB, lo, hi, min_EB):
    if math.isnan(EB):
        return NAN
    top = INF if math.isnan(mu) else max([v for v in (hi - mu, mu - lo) if not math.isnan(v)])
    return min(max(EB, min_EB), top)


_ENUM = {}


def compositions(n):
    """All bootstrap count vectors of n points, with their probability."""
    if n not in _ENUM:
        out = []
        for cuts in itertools.combinations(range(2 * n - 1), n - 1):
            prev, w = -1, []
            for c in cuts + (2 * n - 1,):
                w.append(c - prev - 1)
                prev = c
            lp = math.lgamma(n + 1) - sum(math.lgamma(v + 1) for v in w) - n * math.log(n)
            out.append((w, math.exp(lp)))
        W = np.array([o[0] for o in out], dtype=float)
        P = np.array([o[1] for o in out])
        assert abs(np.sum(P) - 1.0) < 1e-9
        _ENUM[n] = (W, P)
    return _ENUM[n]


def boot_dist(x):
    """Exact bootstrap distribution of the mean (x dyadic, few points)."""
    W, P = compositions(len(x))
    v = np.dot(W, x) / len(x)
    u, inv = np.unique(v, return_inverse=True)
    return u, np.bincount(inv, weights=P)


BAD_CONF = (0.0, 1.0, -0.05, 1.5, NAN)


def refuse_confidence(f, what):
    """f is called with the confidence."""
    for c in BAD_CONF:
        expect_raises(lambda: f(c), "%s at confidence %r" % (what, c))


def with_nan(x, k):
    x = np.array(x, dtype=float)
    x[k % len(x)] = NAN
    return x


TAIL = 1e-11


def _count_band(p, n):
    """Range of a Binomial(n, p) count, but for probability TAIL."""
    p = min(1.0, max(0.0, p))
    if p <= 1e-300:
        return 0, 0
    if p >= 1.0 - 1e-12:
        return n, n
    k = np.arange(n + 1)
    cdf = bdtr(k, n, p)
    return int(np.sum(cdf < TAIL)), int(min(n, np.sum(cdf < 1.0 - TAIL)))


def boot_bands(x, conf, n_boot):
    """Ranges of the bootstrap p-value and error bar, over the randomness."""
    u, p = boot_dist(x)
    mu = float(np.sum(np.asarray(x))) / len(x)
    cdf = np.minimum(1.0, np.cumsum(p))
    le, ge = float(np.sum(p[u <= 0])), float(np.sum(p[u >= 0]))
    a, b = _count_band(le, n_boot), _count_band(ge, n_boot)
    p_lo = min(1.0, 2.0 * min(a[0], b[0]) / n_boot)
    p_hi = min(1.0, 2.0 * min(a[1], b[1]) / n_boot)
    bands = [_count_band(c, n_boot) for c in cdf]

    def order_stat(j):  # range of (j + 1)-th smallest
        lo = [v for v, bd in zip(u, bands) if bd[1] >= j + 1]
        hi = [v for v, bd in zip(u, bands) if bd[0] >= j + 1]
        return lo[0] if lo else u[-1], hi[0] if hi else u[-1]

    al = 0.5 * (1.0 - conf) * (n_boot - 1)
    j_lo = max(0, int(math.floor(al - 1e-9)))
    j_hi = min(n_boot - 1, int(math.floor(al + 1e-9)))
    LB = order_stat(j_lo)[0], order_stat(j_hi)[1]
    UB = order_stat(n_boot - 1 - j_hi)[0], order_stat(n_boot - 1 - j_lo)[1]
    EB_lo = max(UB[0] - mu, mu - LB[1])
    EB_hi = max(UB[1] - mu, mu - LB[0])
    return (p_lo, p_hi), (EB_lo, EB_hi)


# Units are a matter of taste: data times a power of two (exact)
pows = st.sampled_from([0, 0, 0, 0, -30, -60, 30, 60])


def size_of(*xs):
    """Largest finite magnitude (to measure round off against)."""
    return max([abs(float(v)) for x in xs for v in np.ravel(x) if np.isfinite(v)] + [0.0])


def expect_in(v, band, what, slack=1e-9):
    v = num(v, what)
    expect(band[0] - slack <= v <= band[1] + slack, "%s: %r outside of the possible range %r", what, v, band)


def with_inf(draw, x):
    """Occasionally put an infinity in the data."""
    if draw(st.integers(0, 11)) == 0 and isinstance(x, list):
        x = list(x)
        x[draw(st.integers(0, len(x) - 1))] = draw(st.sampled_from([INF, -INF]))
    return x


# ============================================================================ C10


@st.composite
def t_case(draw):
    return {
        "x": with_inf(draw, draw(data_vec(1, 9))),
        "conf": draw(confidence),
        "conf2": draw(confidence),
        "shift": draw(dyadic),
        "scale": draw(st.sampled_from([1.0, 2.0, 0.5, 3.0, 1000.0, 0.001])),
        "as_list": draw(st.booleans()),
        "const": draw(st.integers(0, 14)) == 0,
        "pow": draw(pows),
    }


def check_t(case):
    x = expand(case["x"]) * 2.0 ** case["pow"]
    shift = case["shift"] * 2.0 ** case["pow"]
    if case["const"]:
        x = np.full(len(x), x[0])
    if np.any(np.isposinf(x)) and np.any(np.isneginf(x)):
        x = np.abs(x)
    conf = case["conf"]
    arg = x.tolist() if case["as_list"] else x
    EB, p = num(bt.t_EB(arg, confidence=conf), "t error bar"), num(bt.t_test(arg), "t p-value")
    expect(0.0 <= p <= 1.0, "p-value %r", p)
    expect(EB >= 0.0, "error bar %r", EB)
    if not np.all(np.isfinite(x)) or len(x) == 1:
        expect(EB == INF and p == 1.0, "no information on scale, yet error bar %r and p-value %r", EB, p)
        return ["degenerate"]
    _, ss = moments(x)
    if not well_posed(x, ss):
        return []
    mx = float(np.max(np.abs(x)))
    if ss == 0.0:
        expect(EB <= 1e-12 * mx, "error bar %r on constant data", EB)
        expect(p == 1.0 if mx == 0.0 else p < 1e-9, "p-value %r on constant data %r", p, x[0])
        return ["constant"]
    expect_near(EB, ref_t_EB(x, conf), "t error bar", rtol=1e-7, atol=0.0)
    # Round off in the statistic T changes log p by (at most) about n times its relative error
    m, _ = moments(x)
    T = abs(m) / math.sqrt(ss / len(x))
    expect_near(p, ref_t_test(x), "t p-value", rtol=1e-6 + 1e-13 * len(x) * T, atol=1e-13)
    expect_near(bt.t_EB(x), ref_t_EB(x, 0.95), "t error bar at default confidence", rtol=1e-7)
    # Metamorphic
    c2 = case["conf2"]
    EB2 = num(bt.t_EB(x, confidence=c2), "EB")
    expect((EB2 >= EB * (1 - 1e-9)) if c2 >= conf else (EB2 <= EB * (1 + 1e-9)), "error bar does not grow with confidence")
    expect_near(bt.t_EB(-x, confidence=conf), EB, "error bar of negated data", rtol=1e-9)
    expect_near(bt.t_test(-x), p, "p-value of negated data", rtol=1e-9)
    expect_near(bt.t_EB(case["scale"] * x, confidence=conf), case["scale"] * EB, "error bar of scaled data", rtol=1e-7)
    expect_near(bt.t_test(case["scale"] * x), p, "p-value of scaled data", rtol=1e-5, atol=1e-10)
    if well_posed(x + shift, ss):
        expect_near(bt.t_EB(x + shift, confidence=conf), EB, "error bar of shifted data", rtol=1e-5)
    refuse_confidence(lambda c: bt.t_EB(arg, confidence=c), "t error bar")
    expect_raises(lambda: bt.t_EB(with_nan(x, len(x) // 2)), "t error bar of data with NaN")
    expect_raises(lambda: bt.t_test(with_nan(x, len(x) // 2)), "t test of data with NaN")
    rev = x[::-1]
    expect_near(bt.t_EB(rev, confidence=conf), EB, "error bar of reversed data", rtol=1e-7)
    return ["n>2" if len(x) > 2 else "n=2"] + (["large"] if len(x) > 10 else [])


C10 = Prop(
    "C10",
    [Sub("t_reference", lambda: t_case(), check_t, 4000, rule="error bar and p-value against exact moments and the t distribution; symmetry, scale, shift, confidence")],
    "Generated samples (ties, 0/1, constant, infinite, single, up to 400 points). Oracle: sums in rational arithmetic and the t distribution from scipy.special. Non-trivial: all but samples whose spread is round off (relative 1e-6).",
    ["scipy.special.stdtr / stdtrit"],
)

# ============================================================================ C11


@st.composite
def bern_case(draw):
    x = draw(data_vec(1, 9))
    return {
        "x": x,
        "lo_gap": draw(st.sampled_from([0.0, 0.0, 0.5, 3.0, INF])),
        "hi_gap": draw(st.sampled_from([0.0, 0.0, 1.0, 10.0, INF])),
        "conf": draw(confidence),
        "conf2": draw(confidence),
        "const": draw(st.integers(0, 9)) == 0,
        "zero_mean": draw(st.integers(0, 9)) == 0,
        "pow": draw(pows),
    }


def _bern_args(case):
    x = expand(case["x"])
    if case["const"]:
        x = np.full(len(x), x[0])
    if case["zero_mean"]:
        x = np.concatenate((x, -x))
    c = 2.0 ** case["pow"]
    return x * c, c * (float(np.min(x)) - case["lo_gap"]), c * (float(np.max(x)) + case["hi_gap"])


def check_bern(case):
    x, lo, hi = _bern_args(case)
    conf = case["conf"]
    EB = num(bt.bernstein_EB(x, lo, hi, confidence=conf), "Bernstein error bar")
    p = num(bt.bernstein_test(x, lo, hi), "Bernstein p-value")
    expect(0.0 <= p <= 1.0, "p-value %r", p)
    expect(EB >= 0.0, "error bar %r", EB)
    mx = float(np.max(np.abs(x)))
    tiny = 1e-12 * size_of(x, lo, hi)
    expect_near(EB, ref_bern_EB(x, lo, hi, conf), "Bernstein error bar", rtol=1e-7, atol=tiny)
    expect_near(p, ref_bern_test(x, lo, hi), "Bernstein p-value", rtol=1e-6, atol=1e-200)
    expect_near(bt.bernstein_EB(x, lo, hi), ref_bern_EB(x, lo, hi, 0.95), "Bernstein error bar at default confidence", rtol=1e-7, atol=tiny)
    if np.isfinite(lo) and np.isfinite(hi):
        expect_near(bt.bernstein_EB(-x, -hi, -lo, confidence=conf), EB, "error bar of negated data", rtol=1e-9, atol=tiny)
        expect_near(bt.bernstein_test(-x, -hi, -lo), p, "p-value of negated data", rtol=1e-7)
        c2 = case["conf2"]
        EB2 = num(bt.bernstein_EB(x, lo, hi, confidence=c2), "EB")
        expect((EB2 >= EB * (1 - 1e-9) - tiny) if c2 >= conf else (EB2 <= EB * (1 + 1e-9) + tiny), "error bar does not grow with confidence")
        gap = 2.0 ** case["pow"]
        wide = num(bt.bernstein_EB(x, lo - gap, hi + gap, confidence=conf), "EB")
        expect(wide >= EB * (1 - 1e-9), "wider limits give a smaller error bar")
        if hi > lo:  # Without a range there is no test: p=1
            expect(num(bt.bernstein_test(x, lo - gap, hi + gap), "p") >= p - 1e-9, "wider limits give a smaller p-value")
    # Data beyond the promised limits is refused
    c = max(2.0 ** case["pow"], 1e-6 * mx)
    expect_raises(lambda: bt.bernstein_EB(x, float(np.max(x)) + c, float(np.max(x)) + 2.0 * c), "data below the lower limit")
    expect_raises(lambda: bt.bernstein_test(x, float(np.min(x)) - 2.0 * c, float(np.min(x)) - c), "data above the upper limit")
    if np.max(x) > np.min(x) + 1e-6 * mx:
        # Only some of it
        expect_raises(lambda: bt.bernstein_EB(x, lo, 0.5 * (float(np.min(x)) + float(np.max(x)))), "some data above the upper limit")
        expect_raises(lambda: bt.bernstein_test(x, 0.5 * (float(np.min(x)) + float(np.max(x))), hi), "some data below the lower limit")
    refuse_confidence(lambda c: bt.bernstein_EB(x, lo, hi, confidence=c), "Bernstein error bar")
    k = int(case["conf2"] * 100)
    expect_raises(lambda: bt.bernstein_EB(with_nan(x, k), lo, hi), "Bernstein error bar of data with NaN")
    expect_raises(lambda: bt.bernstein_test(with_nan(x, k), lo, hi), "Bernstein test of data with NaN")
    lab = []
    if len(x) > 1 and hi - lo < INF and hi > lo:
        lab.append("p<1" if p < 1.0 else "p=1")
    if len(x) <= 1:
        lab.append("single")
    if hi - lo in (0.0, INF):
        lab.append("no range" if hi == lo else "unbounded")
    return lab


@st.composite
def cover_case(draw):
    return {
        "n": draw(st.integers(2, 60)),
        "p": draw(st.one_of(st.sampled_from([0.5, 0.01, 0.99, 0.1]), st.floats(0.001, 0.999).map(lambda v: round(v, 4)))),
        "conf": draw(st.one_of(st.sampled_from([0.01, 0.05, 0.1, 0.2, 0.5, 0.95]), confidence)),
    }


def check_cover(case):
    """Coverage on 0/1 data, summed exactly over all outcomes."""
    n, p, conf = case["n"], case["p"], case["conf"]
    cover, size = [], []
    for k in range(n + 1):
        pr = math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(p) + (n - k) * math.log(1 - p))
        x = np.zeros(n)
        x[:k] = 1.0
        if abs(k / float(n) - p) <= num(bt.bernstein_EB(x, 0.0, 1.0, confidence=conf), "EB") + 1e-12:
            cover.append(pr)
        # Null that mean is p
        if num(bt.bernstein_test(x - p, -p, 1.0 - p), "p") <= 1.0 - conf - 1e-12:
            size.append(pr)
    expect(math.fsum(cover) >= conf - 1e-9, "coverage %r of a %r interval (n=%d, p=%r)", math.fsum(cover), conf, n, p)
    expect(math.fsum(size) <= 1.0 - conf + 1e-9, "size %r of a %r test", math.fsum(size), 1 - conf)
    return ["covered"]


C11 = Prop(
    "C11",
    [
        Sub("bernstein_reference", lambda: bern_case(), check_bern, 4000, rule="error bar against the bound, p-value against its inverse in closed form; symmetry, monotone in confidence and range; limits enforced"),
        Sub("exact_coverage", lambda: cover_case(), check_cover, 300, rule="coverage and test size on Bernoulli data, by summation over all outcomes"),
    ],
    "Generated bounded samples (tight, loose, infinite and zero ranges; constant, zero mean, single, up to 400 points) and Bernoulli problems. Non-trivial: every case with a finite range and more than one point, plus degenerate ones.",
)

# ============================================================================ C12


@st.composite
def weight_case(draw):
    return {"n": draw(st.one_of(st.integers(1, 6), st.integers(7, 120))), "b": draw(st.one_of(st.integers(1, 5), st.integers(200, 1500))), "eps": draw(st.sampled_from([0, 0, 0, 1e-10, 0.25])), "seed": draw(seeds)}


def _independent(hits, i, j, n, what):
    """Events of replications i and of replications j (disjoint) occur together as often as independent ones."""
    # Exact probabilities of the events, in the order of `hits`
    q = (1.0 - 1.0 / n) ** (n - 1)
    pr = [(1.0 - 1.0 / n) ** n, q, (1.0 - 1.0 / n) ** n, min(1.0, n * float(n) ** -n)]
    for a in range(len(hits)):
        for b in range(len(hits)):
            if not (0.0 < pr[a] < 1.0 and 0.0 < pr[b] < 1.0):
                continue
            u, v = hits[a][i] - pr[a], hits[b][j] - pr[b]
            sd = math.sqrt(pr[a] * (1 - pr[a]) * pr[b] * (1 - pr[b]) * len(i))
            big = max(1.0 - pr[a], pr[a]) * max(1.0 - pr[b], pr[b])
            t = abs(float(np.sum(u * v)))
            expect(t < 8.0 * sd + 25.0 * big, "%s are not independent (%r on a scale of %r)", what, t, sd)


@st.composite
def joint_case(draw):
    return {"n": draw(st.integers(2, 4)), "b": draw(st.integers(2, 6)), "seed": draw(seeds)}


def check_joint(case):
    """Replications within a call, and calls one after the other, are independent."""
    n, b, R = case["n"], case["b"], 600
    np.random.seed(case["seed"])
    cnt = np.array([np.asarray(bu.boot_weights(n, b)) for _ in range(R)], dtype=float)
    W, P = compositions(n)
    code = cnt.dot((n + 1.0) ** np.arange(n))
    ref = W.dot((n + 1.0) ** np.arange(n))
    top = np.argsort(-np.asarray(P), kind="stable")[:8]
    for i in range(b):
        for j in range(i + 1):
            for u in top:
                for v in top:
                    if i == j:  # This call and the next
                        k = int(np.sum((code[:-1:2, i] == ref[u]) & (code[1::2, i] == ref[v])))
                        lo, hi = _count_band(P[u] * P[v], len(code[:-1:2]))
                    else:
                        k = int(np.sum((code[:, i] == ref[u]) & (code[:, j] == ref[v])))
                        lo, hi = _count_band(P[u] * P[v], R)
                    expect(lo <= k <= hi, "resamples %s and %s as replications %d and %d: %d times in %d, probability %r", W[u].tolist(), W[v].tolist(), i, j, k, R, float(P[u] * P[v]))
    return ["joint"]


def check_weights(case):
    n, b, eps = case["n"], case["b"], case["eps"]
    np.random.seed(case["seed"])
    w = as_arr(bu.boot_weights(n, b, epsilon=eps) if eps else bu.boot_weights(n, b), (b, n), "bootstrap weights").astype(float)
    np.random.seed(case["seed"])
    w2 = as_arr(bu.boot_weights(n, b, epsilon=eps), (b, n), "bootstrap weights").astype(float)
    expect(np.array_equal(w, w2), "bootstrap weights depend on more than the seed")
    expect(np.all(w >= eps), "weight below the minimum")
    cnt = np.where(w == eps, 0.0, w)
    expect(np.all(cnt == np.round(cnt)), "weights that are not counts")
    expect(np.all(np.sum(cnt, axis=1) == n), "a replicate does not have %d points", n)
    lab = ["eps"] if eps else []
    if b >= 200 and n >= 2:
        # Each point is drawn Binomial(n, 1/n) times: mean 1, variance 1 - 1/n
        m = np.mean(cnt, axis=0)
        z = np.abs(m - 1.0) / math.sqrt((1.0 - 1.0 / n) / b)
        expect(np.max(z) < 7.5, "some points are drawn more often than others (z=%r)", float(np.max(z)))
        zero = float(np.mean(cnt == 0))
        p0 = (1.0 - 1.0 / n) ** n
        expect(abs(zero - p0) < 8.0 * math.sqrt(p0 * (1 - p0) / b) + 1e-12, "left out fraction %r instead of %r", zero, p0)
        if n <= 5:
            W, P = compositions(n)
            code = cnt.dot((n + 1.0) ** np.arange(n))
            ref = W.dot((n + 1.0) ** np.arange(n))
            for c, p in zip(ref, P):
                lo, hi = _count_band(p, b)
                k = int(np.sum(code == c))
                expect(lo <= k <= hi, "a resample of probability %r occurs %d times in %d", p, k, b)
        expect(len(set(map(tuple, cnt[:50].tolist()))) > 1, "replicates are copies of each other")
        if n >= 30:
            # Column sums vary as sums of independent multinomials: (sum - b)^2 / b adds to about chi2
            q = float(np.sum((np.sum(cnt, axis=0) - b) ** 2) / b)
            expect(gammainc((n - 1) / 2.0, q / 2.0) > 1e-11, "points are drawn too evenly: replications are not independent (%r on %d)", q, n - 1)
            expect(chdtrc(n - 1, q) > 1e-13 or q < 3 * (n - 1), "points are drawn too unevenly: replications are not independent (%r on %d)", q, n - 1)
            Z = cnt[:400] - 1.0
            Z = Z / np.sqrt(np.sum(Z * Z, axis=1, keepdims=True))
            for Y in (Z, Z[:, ::-1]):
                G = Z.dot(Y.T)
                if Y is Z:
                    np.fill_diagonal(G, 0.0)
                    expect(np.max(np.abs(G)) < 0.97, "replications repeat each other")
                else:
                    np.fill_diagonal(G, 0.0)
                    expect(np.max(np.abs(G)) < 0.97, "replications mirror each other")
        elif n <= 4:
            # Pairs of replications at a distance are independent
            hits = [cnt[:, 0] == 0, cnt[:, 0] == 1, cnt[:, -1] == 0, np.max(cnt, axis=1) == n]
            for lag in sorted(set([1, 2, 3, 4, 5, 10, b // 4, b // 3, (b + 1) // 2, b // 2])):
                m_ = b - lag
                i, j = np.arange(m_), np.arange(lag, b)
                _independent(hits, i, j, n, "replications %d apart" % lag)
            i = np.arange(b // 2)
            _independent(hits, i, b - 1 - i, n, "first and last replications")
        lab.append("distribution")
    return lab


@st.composite
def boot_case(draw):
    n = draw(st.integers(1, 6))
    return {
        "x": with_inf(draw, draw(st.lists(st.one_of(dyadic, small_int, st.sampled_from([0.0, 1.0])), min_size=n, max_size=n))),
        "conf": draw(confidence),
        "n_boot": draw(st.sampled_from([None, 400, 1000, 2500, 1, 3, 36])),
        "default": draw(st.booleans()),
        "pow": draw(pows),
    }


def check_boot(case):
    x = np.array(case["x"]) * 2.0 ** case["pow"]
    if np.any(np.isposinf(x)) and np.any(np.isneginf(x)):
        x = np.abs(x)
    kw = {} if case["n_boot"] is None else {"n_boot": case["n_boot"]}
    nb = case["n_boot"] or 1000
    conf = 0.95 if case["default"] else case["conf"]
    EB = num(bt.boot_EB(x, **(kw if case["default"] else dict(kw, confidence=conf))), "bootstrap error bar")
    p = num(bt.boot_test(x, **kw), "bootstrap p-value")
    expect_raises(lambda: bt.boot_EB(with_nan(x, nb), **kw), "bootstrap error bar of data with NaN")
    expect_raises(lambda: bt.boot_test(with_nan(x, nb), **kw), "bootstrap test of data with NaN")
    expect(0.0 <= p <= 1.0 and EB >= 0.0, "p-value %r, error bar %r", p, EB)
    if len(x) == 1 or not np.all(np.isfinite(x)):
        expect(EB == INF and p == 1.0, "no information, yet error bar %r and p-value %r", EB, p)
        return ["degenerate"]
    refuse_confidence(lambda c: bt.boot_EB(x, confidence=c, **kw), "bootstrap error bar")
    pb, eb = boot_bands(x, conf, nb)
    expect_in(p, pb, "bootstrap p-value")
    expect_in(EB, eb, "bootstrap error bar", 1e-9 * size_of(x))
    expect(p == 1.0 or near(0.5 * p * nb, round(0.5 * p * nb), 0.0, 1e-6), "p-value %r is not a share of %d replications", p, nb)
    if nb == 1 and np.any(x != x[0]):
        # A single resample: its mean is at times close to the mean, at times not
        u, pr = boot_dist(x)
        d = np.abs(u - float(np.sum(x)) / len(x))
        d = np.round(d / size_of(x), 9)
        mode = float(np.max(np.bincount(np.unique(d, return_inverse=True)[1], weights=pr)))
        if mode < 0.9:
            R = int(math.ceil(math.log(TAIL) / math.log(mode)))
            seen = set(round(num(bt.boot_EB(x, confidence=conf, n_boot=1), "EB") / size_of(x), 9) for _ in range(R))
            expect(len(seen) > 1, "error bar %r from a single resample is always the same", EB)
    return ["spread"] if np.any(x != x[0]) else ["constant"]


@st.composite
def boot_stream_case(draw):
    return {"x": draw(data_vec(2, 12)), "conf": draw(confidence), "n_boot": draw(st.sampled_from([1, 2, 7, 50, 200, 1000])), "seed": draw(seeds), "pow": draw(pows)}


def ref_percentile_idx(conf, n):
    """Acceptable (lower) order statistic indices: both neighbours if round off decides."""
    v = 0.5 * (1.0 - conf) * (n - 1)
    return sorted(set([max(0, int(math.floor(v - 1e-7))), min(n - 1, int(math.floor(v + 1e-7)))]))


def check_boot_stream(case):
    """Larger samples: replay the same resamples and compute by hand."""
    x, nb = expand(case["x"]) * 2.0 ** case["pow"], case["n_boot"]
    n = len(x)
    np.random.seed(case["seed"])
    W = np.asarray(bu.boot_weights(n, nb), dtype=float)
    s = rng_state()
    boot = W.dot(x) / n
    mu = math.fsum(x) / n
    mx = float(np.max(np.abs(x)))
    srt = np.sort(boot)
    np.random.seed(case["seed"])
    EB = num(bt.boot_EB(x, confidence=case["conf"], n_boot=nb), "EB")
    lab = []
    if rng_state() == s:
        ok = [max(srt[nb - 1 - j] - mu, mu - srt[j]) for j in ref_percentile_idx(case["conf"], nb)]
        expect(any(near(EB, v, 1e-8, 1e-9 * mx) for v in ok), "bootstrap error bar %r, by hand %r", EB, ok)
        lab.append("exact")
    np.random.seed(case["seed"])
    p = num(bt.boot_test(x, n_boot=nb), "p")
    if rng_state() == s:
        tie = np.sum(np.abs(boot) <= 1e-9 * mx)
        le, ge = np.sum(boot < -1e-9 * mx), np.sum(boot > 1e-9 * mx)
        lo = min(1.0, 2.0 * min(le, ge) / nb)
        hi = min(1.0, 2.0 * min(le + tie, ge + tie) / nb)
        expect(lo - 1e-9 <= p <= hi + 1e-9, "bootstrap p-value %r, by hand %r to %r", p, lo, hi)
        lab.append("exact p")
    expect(0.0 <= p <= 1.0 and EB >= 0.0, "p-value %r, error bar %r", p, EB)
    # Whichever way resamples are drawn: twice a number of them
    expect(p == 1.0 or abs(0.5 * p * nb - round(0.5 * p * nb)) < 1e-6, "bootstrap p-value %r is not twice a fraction of %d resamples", p, nb)
    return lab


C12 = Prop(
    "C12",
    [
        Sub("weights", lambda: weight_case(), check_weights, 400, rule="counts of a resample of n points; each resample as often as multinomial sampling gives it (7 sigma / 1e-11)"),
        Sub("independence", lambda: joint_case(), check_joint, 96, rule="joint frequencies of pairs of replications, within a call and in successive calls, against products of exact probabilities (1e-11)"),
        Sub("exact_enumeration", lambda: boot_case(), check_boot, 800, rule="error bar and p-value within what exact enumeration of all resamples allows (1e-11)"),
        Sub("same_resamples", lambda: boot_stream_case(), check_boot_stream, 800, rule="error bar and p-value recomputed by hand from the same resamples"),
    ],
    "Samples of up to 6 points with all resamples enumerated; larger samples with the resamples replayed; weights tested as counts and as a distribution. Non-trivial: spread, degenerate samples, non-zero minimum weight or large replication.",
    ["Statistical bounds have a false alarm probability below 1e-10 per comparison, and the draws are fixed by the seed"],
)

# ============================================================================ C13


@st.composite
def coher_case(draw):
    return {
        "x": draw(data_vec(2, 10)),
        "conf": draw(confidence),
        "gap": draw(st.sampled_from([0.0, 1.0, 5.0])),
        "seed": draw(seeds),
        "shift": draw(st.sampled_from([0.0, 0.25, -1.0, 2.0])),
        "pow": draw(pows),
    }


def check_coherent(case):
    c = 2.0 ** case["pow"]
    x = (expand(case["x"]) + case["shift"]) * c
    conf = case["conf"]
    alpha = 1.0 - conf
    mu, ss = moments(x)
    if not well_posed(x, ss) or abs(mu) <= 1e-9 * np.max(np.abs(x)) and mu != 0.0:
        return []
    lab = []
    lo, hi = float(np.min(x)) - case["gap"] * c, float(np.max(x)) + case["gap"] * c
    for name in ("t", "bernstein") if hi > lo else ("t",):
        kw = {"method": name, "lower": -INF if name == "t" else lo, "upper": INF if name == "t" else hi}
        p = num(bt.get_test(x, **kw), "p")
        if name == "t":
            EB = num(bt.t_EB(x, confidence=conf), "EB")
        else:
            EB = num(bt.bernstein_EB(x, lo, hi, confidence=conf), "EB")
        m2, _, p2 = bt.get_mean_EB_test(x, confidence=conf, **kw)
        expect_near(p2, p, "%s p-value in combined call" % name)
        if abs(p - alpha) > 1e-7 * alpha:
            if not near(EB, abs(mu), 1e-9, 1e-12 * size_of(x)):
                expect((p < alpha) == (abs(mu) > EB), "%s: mean %r +/- %r at %r, but p-value %r", name, mu, EB, conf, p)
                lab.append("%s %s" % (name, "significant" if p < alpha else "not significant"))
        # The p-value is the level at which the interval touches zero
        if 1e-8 < p < 0.999 and ss > 0:
            EBp = bt.t_EB(x, confidence=1.0 - p) if name == "t" else bt.bernstein_EB(x, lo, hi, confidence=1.0 - p)
            expect_near(EBp, abs(mu), "%s error bar at confidence 1 - p" % name, rtol=1e-5, atol=1e-9 * size_of(x))
            lab.append("inverse")
    np.random.seed(case["seed"])
    mu_b, EB_b, p_b = bt.get_mean_EB_test(x, confidence=conf, method="boot")
    expect_near(mu_b, mu, "mean", rtol=1e-8, atol=1e-9 * size_of(x))
    EB_b, p_b = num(EB_b, "EB"), num(p_b, "p")
    if abs(mu) > EB_b * (1 + 1e-9) + 1e-12 * size_of(x):
        expect(p_b <= alpha + 1e-9, "bootstrap: mean %r +/- %r at %r, but p-value %r", mu, EB_b, conf, p_b)
        lab.append("boot significant")
    return sorted(set(lab))


C13 = Prop(
    "C13",
    [Sub("interval_and_test_agree", lambda: coher_case(), check_coherent, 2000, rule="zero outside the interval iff p-value below 1 - confidence; error bar at confidence 1 - p reaches zero; bootstrap: outside implies significant")],
    "Generated samples and confidence levels for the three methods. Non-trivial: the comparison was decided away from round off.",
    ["The bootstrap error bar is symmetric and only promises one direction"],
)

# ============================================================================ C14


@st.composite
def clip_case(draw):
    fl = st.one_of(dyadic, small_int, floats(-1e5, 1e5))
    lo = draw(st.one_of(fl, st.just(-INF)))
    hi = draw(st.one_of(fl, st.just(INF)))
    if lo > hi:
        lo, hi = hi, lo
    frac = draw(st.sampled_from([0.0, 1.0, 0.5, 0.3, 0.01]))
    if np.isfinite(lo) and np.isfinite(hi):
        mu = min(hi, max(lo, lo + frac * (hi - lo)))
    elif np.isfinite(lo):
        mu = lo + draw(st.sampled_from([0.0, 1.0, 17.5, INF]))
    elif np.isfinite(hi):
        mu = hi - draw(st.sampled_from([0.0, 1.0, 17.5, INF]))
    else:
        mu = draw(st.one_of(fl, st.sampled_from([INF, -INF])))
    if draw(st.integers(0, 9)) == 0:
        mu = NAN
    return {
        "mu": mu,
        "lo": lo,
        "hi": hi,
        "EB": draw(st.one_of(st.sampled_from([0.0, INF, 1.0, NAN]), floats(0, 1e5))),
        "min_EB": draw(st.sampled_from([0.0, 0.0, 0.1, 2.0])),
        "out": draw(st.sampled_from([0.5, 3.0, 1e-7])),
    }


def check_clip(case):
    mu, lo, hi, EB0 = case["mu"], case["lo"], case["hi"], case["EB"]
    min_EB = min(case["min_EB"], 0.5 * (hi - lo))
    EB = num(bt.clip_EB(mu, EB0, lower=lo, upper=hi, min_EB=min_EB), "clipped error bar")
    want = ref_clip(mu, EB0, lo, hi, min_EB)
    expect(near(EB, want, 1e-12, 0.0), "clip of %r +/- %r to (%r, %r), minimum %r: got %r, expected %r", mu, EB0, lo, hi, min_EB, EB, want)
    if min_EB == 0.0:
        expect(near(num(bt.clip_EB(mu, EB0, lo, hi), "EB"), want, 1e-12, 0.0), "default minimum is not zero")
    for kw in ({"upper": hi}, {"lower": lo}, {}):
        want2 = ref_clip(mu, EB0, kw.get("lower", -INF), kw.get("upper", INF), 0.0)
        expect(near(num(bt.clip_EB(mu, EB0, **kw), "EB"), want2, 1e-12, 0.0), "clip of %r +/- %r with limits %r, others default", mu, EB0, kw)
    # Limits that are none
    if hi > lo:
        expect_raises(lambda: bt.clip_EB(mu, EB0, lower=hi, upper=lo), "lower limit above the upper one")
    expect_raises(lambda: bt.clip_EB(mu, EB0, lower=NAN, upper=hi), "NaN as lower limit")
    expect_raises(lambda: bt.clip_EB(mu, EB0, lower=lo, upper=NAN), "NaN as upper limit")
    expect_raises(lambda: bt.clip_EB(mu, EB0, min_EB=-case["out"]), "negative minimum error bar")
    expect_raises(lambda: bt.clip_EB(mu, EB0, min_EB=NAN), "NaN as minimum error bar")
    expect_raises(lambda: bt.clip_EB(mu, EB0, min_EB=INF), "infinite minimum error bar")
    lab = []
    if want != EB0 and not math.isnan(want):
        lab.append("clipped")
    if math.isnan(mu) or not np.isfinite(EB0):
        lab.append("non-finite")
    if np.isfinite(hi):
        expect_raises(lambda: bt.clip_EB(hi + case["out"], 1.0, lower=lo, upper=hi), "mean above the upper limit", ValueError)
        expect_raises(lambda: bt.clip_EB(float(np.nextafter(hi, INF)), 1.0, lower=lo, upper=hi), "mean just above the upper limit", ValueError)
        lab.append("upper")
    if np.isfinite(lo):
        expect_raises(lambda: bt.clip_EB(lo - case["out"], 1.0, lower=lo, upper=hi), "mean below the lower limit", ValueError)
        expect_raises(lambda: bt.clip_EB(float(np.nextafter(lo, -INF)), 1.0, lower=lo, upper=hi), "mean just below the lower limit", ValueError)
        lab.append("lower")
    if np.isfinite(hi) and np.isfinite(lo):
        expect_raises(lambda: bt.clip_EB(lo, 1.0, lower=lo, upper=hi, min_EB=0.5 * (hi - lo) + case["out"]), "minimum error bar beyond the limits", ValueError)
    return lab


@st.composite
def mean_case(draw):
    return {
        "x": draw(data_vec(1, 6)),
        "lo_gap": draw(st.sampled_from([0.0, 0.0, 0.5, 3.0, INF])),
        "hi_gap": draw(st.sampled_from([0.0, 0.0, 1.0, 10.0, INF])),
        "conf": draw(confidence),
        "method": draw(st.sampled_from(["t", "bernstein", "boot"])),
        "min_EB": draw(st.sampled_from([None, 0.0, 0.1, 1.0])),
        "seed": draw(seeds),
        "const": draw(st.integers(0, 7)) == 0,
        "val": draw(st.sampled_from([0.1, 0.7, 1.0 / 3.0])),
        "pow": draw(pows),
        "default": draw(st.booleans()),
    }


def _expect_EB(EB, raw, mu, lo, hi, min_EB, what, scale):
    want = ref_clip(mu, raw, lo, hi, min_EB)
    expect_near(EB, want, what, rtol=1e-7, atol=1e-11 * scale)


def check_mean(case):
    x = expand(case["x"])
    if case["const"]:
        x = np.full(len(x), case["val"])
    c = 2.0 ** case["pow"]
    x = x * c
    lo, hi = float(np.min(x)) - case["lo_gap"] * c, float(np.max(x)) + case["hi_gap"] * c
    conf, method = case["conf"], case["method"]
    min_EB = case["min_EB"]
    kw = {"lower": lo, "upper": hi, "method": method}
    if method == "t" and case["default"]:
        kw.pop("method")
    ckw = {"confidence": conf}
    if conf == 0.95 and case["default"]:
        ckw = {}
    if min_EB is not None:
        min_EB = min(min_EB * c, 0.5 * (hi - lo))
        kw2 = dict(kw, min_EB=min_EB, **ckw)
    else:
        min_EB, kw2 = 0.0, dict(kw, **ckw)
    x0 = x.copy()
    mu, EB = bt.get_mean_and_EB(x, **kw2)
    mu3, EB3, p3 = bt.get_mean_EB_test(x, **kw2)
    p = num(bt.get_test(x, **kw), "p")
    expect(np.array_equal(x, x0), "data modified")
    m, ss = moments(x)
    scale = size_of(x)
    mu, EB, mu3, EB3, p3 = [num(v, "summary") for v in (mu, EB, mu3, EB3, p3)]
    expect_near(mu, m, "mean", rtol=1e-9, atol=1e-11 * scale)
    expect(mu3 == mu, "mean %r, but %r with the test", mu, mu3)
    expect(lo <= mu <= hi, "mean %r outside of (%r, %r)", mu, lo, hi)
    expect(EB >= min_EB and EB3 >= min_EB, "error bar below the minimum")
    triv = max(hi - mu, mu - lo)
    expect(EB <= triv * (1 + 1e-9) and EB3 <= triv * (1 + 1e-9), "error bar %r is larger than the trivial %r", EB, triv)
    expect(0.0 <= p <= 1.0 and 0.0 <= p3 <= 1.0, "p-value")
    # Refuse data outside of the limits
    expect_raises(lambda: bt.get_mean_and_EB(x, lower=float(np.max(x)) + max(c, 1e-6 * scale), method=method), "data below the lower limit")
    expect_raises(lambda: bt.get_mean_EB_test(x, upper=float(np.min(x)) - max(c, 1e-6 * scale), method=method), "data above the upper limit")
    if np.max(x) > np.min(x) + 1e-6 * scale:
        # Also if it is only a few points
        k2 = {"method": method, "lower": lo, "upper": hi}
        for side in ("lower", "upper"):
            k3 = dict(k2, **{side: 0.5 * (float(np.min(x)) + float(np.max(x)))})
            expect_raises(lambda: bt.get_mean_and_EB(x, **k3), "some data beyond the %s limit" % side)
            expect_raises(lambda: bt.get_mean_EB_test(x, **k3), "some data beyond the %s limit" % side)
    for bad in ("", "T", "bootstrap", "a", "z", None):
        k3 = {"method": bad, "lower": lo, "upper": hi}
        expect_raises(lambda: bt.get_mean_and_EB(x, **k3), "unknown method")
        expect_raises(lambda: bt.get_mean_EB_test(x, **k3), "unknown method")
        expect_raises(lambda: bt.get_test(x, **k3), "unknown method")
    lab = [method]
    if not well_posed(x, ss):
        return []
    if method != "bernstein":
        # No limits by default
        np.random.seed(case["seed"])
        for m4, e4 in (bt.get_mean_and_EB(x, method=method, **ckw), bt.get_mean_EB_test(x, method=method, **ckw)[:2]):
            expect(near(num(m4, "mean"), mu, 1e-9, 1e-11 * scale) and num(e4, "EB") >= 0.0, "mean %r, but %r without limits", mu, m4)
            if method == "t":
                expect_near(e4, ref_t_EB(x, conf), "t error bar without limits", rtol=1e-7, atol=1e-11 * scale)
        p4 = num(bt.get_test(x, method=method), "p")
        if method == "t":
            expect(p4 == p, "p-value %r, but %r without limits", p, p4)
    if method == "t":
        raw, pw = ref_t_EB(x, conf), ref_t_test(x)
    elif method == "bernstein":
        raw, pw = ref_bern_EB(x, lo, hi, conf), ref_bern_test(x, lo, hi)
    elif len(x) > 1:
        if len(x) > 6 or not np.all(x / c * 16 == np.round(x / c * 16)):
            return lab
        pb, eb = boot_bands(x, conf, 1000)
        for e in (EB, EB3):
            expect_in(e, tuple(ref_clip(mu, v, lo, hi, min_EB) for v in eb), "bootstrap error bar", 1e-9 * scale)
        for v in (p, p3):
            expect_in(v, pb, "bootstrap p-value")
        return lab + ["enumerated"]
    else:
        raw, pw = INF, 1.0
    if ss == 0.0 and method == "t" and len(x) > 1:
        pw = p if (m != 0 and p < 1e-9) else pw
        raw = 0.0
    _expect_EB(EB, raw, mu, lo, hi, min_EB, "%s error bar" % method, scale)
    _expect_EB(EB3, raw, mu, lo, hi, min_EB, "%s error bar with test" % method, scale)
    expect_near(p, pw, "%s p-value" % method, rtol=1e-6, atol=1e-11)
    expect_near(p3, pw, "%s p-value with error bar" % method, rtol=1e-6, atol=1e-11)
    if ref_clip(mu, raw, lo, hi, min_EB) != raw:
        lab.append("clipped")
    return lab


C14 = Prop(
    "C14",
    [
        Sub("clip", lambda: clip_case(), check_clip, 4000, rule="clipped error bar against min/max of trivial bounds; inconsistent limits raise ValueError"),
        Sub("summary_of_sample", lambda: mean_case(), check_mean, 2400, rule="mean, clipped error bar, p-value of the requested method; separate and combined calls agree; mean stays in the limits"),
    ],
    "Generated means, limits (finite and not), minimum error bars, NaN; generated samples whose limits may touch the data. Non-trivial: something is clipped, limits are finite, or a sample summary was compared.",
)

# ============================================================================ C15


@st.composite
def summary_case(draw, method=None):
    meth = draw(names(1, 4, ints=True))
    mets = draw(names(1, 3, tuple(METRICS), ints=True))
    boot = method == "boot"
    n = draw(st.integers(1, 4 if boot else 8))
    el = st.one_of(dyadic, small_int, st.sampled_from([0.0, 1.0])) if boot else st.one_of(dyadic, small_int, floats(-100, 100), st.sampled_from([0.1, 0.7]))
    tbl = []
    for _ in mets:
        rows = []
        for _ in meth:
            kind = draw(st.integers(0, 5))
            if kind == 0 and rows:
                rows.append(list(rows[0]))  # Exactly like another method
            elif kind == 1:
                rows.append([draw(el)] * n)
            else:
                rows.append(draw(st.lists(el, min_size=n, max_size=n)))
        if draw(st.integers(0, 11)) == 0:
            rows = [[rows[0][0]] * n for _ in meth]  # Nothing varies at all
        tbl.append(rows)
    inf_at = None
    if not boot and draw(st.integers(0, 9)) == 0:
        inf_at = [draw(st.integers(0, len(mets) - 1)), draw(st.integers(0, len(meth) - 1)), draw(st.integers(0, n - 1))]
    return {
        "methods": meth,
        "metrics": mets,
        "tbl": tbl,
        "inf_at": inf_at,
        "ref": draw(st.sampled_from(meth)),
        "pairwise": draw(st.sampled_from([None, True, False])),
        "conf": draw(confidence),
        "method_EB": method or draw(st.sampled_from([None, "t", "bernstein"])),
        "limits": [draw(st.sampled_from([None, [0.0, 0.0], [1.0, 2.0], [0.5, INF], [INF, 0.0]])) for _ in mets],
        "order": draw(st.sampled_from(["product", "method_major", "reversed"])),
        "index": draw(st.sampled_from(["range", "str", "rev", "gap", "dup", "float"])),
        "pow": [draw(pows) for _ in mets],
        "unused": draw(st.booleans()),
        "dtype": draw(st.sampled_from([None, None, None, None, "uint8", "int8", "bool", "int64", "uint64"])),
    }


def as_dtype(v, dtype):
    """Value turned into one that dtype can hold."""
    if dtype == "bool":
        return float(v > 0.5)
    return float(min(127, max(0 if dtype[0] == "u" else -127, round(v))))


def build_loss_table(case):
    mets, meth = case["metrics"], case["methods"]
    dt = case.get("dtype") if not case["inf_at"] and case.get("bad") is None else None
    if dt:
        tbl = [[[as_dtype(v, dt) for v in row] for row in rows] for rows in case["tbl"]]
        case = dict(case, tbl=tbl, pow=[0] * len(mets))
    data = {(m, a): [v * 2.0 ** case["pow"][i] for v in case["tbl"][i][j]] for i, m in enumerate(mets) for j, a in enumerate(meth)}
    if case["inf_at"]:
        i, j, k = case["inf_at"]
        data[(mets[i], meth[j])][k] = INF
    cols = list(data)
    if case["order"] == "method_major":
        cols.sort(key=lambda c: meth.index(c[1]))
    elif case["order"] == "reversed":
        cols = cols[::-1]
    n = len(case["tbl"][0][0])
    idx = make_index(case["index"], n)
    df = pd.DataFrame({c: data[c] for c in cols}, index=idx, columns=pd.MultiIndex.from_tuples(cols, names=["metric", "method"]), dtype=float)
    if case.get("unused"):
        df = with_unused(df, ["aaa", "removed"], ["aa", "gone"])
    return (df.astype(dt) if dt else df), data


def check_summary(case):
    df, data = build_loss_table(case)
    mets, meth, ref, conf = case["metrics"], case["methods"], case["ref"], case["conf"]
    limits = {}
    for m, g, k in zip(mets, case["limits"], case["pow"]):
        if g is None:
            continue
        g = [v * 2.0 ** k for v in g]
        allv = [v for a in meth for v in data[(m, a)]]
        fin = [v for v in allv if np.isfinite(v)] or [0.0]
        limits[m] = (min(fin) - g[0], INF if INF in allv else max(fin) + g[1])
    kw = {"limits": limits} if limits else {}
    if case["pairwise"] is not None:
        kw["pairwise_CI"] = case["pairwise"]
    if case["method_EB"] is not None:
        kw["method_EB"] = case["method_EB"]
    if conf != 0.95:
        kw["confidence"] = conf
    method = case["method_EB"] or "t"
    df0 = df.copy()
    lim0 = dict(limits)
    res = bt.loss_summary_table(df, ref, **kw)
    expect(df.equals(df0) and limits == lim0, "input modified")
    expect(len(res.index) == len(meth) and set(res.index) == set(meth), "rows %s", list(res.index))
    want_cols = set((m, s) for m in mets for s in ("mean", "error", "p"))
    expect(len(res.columns) == len(want_cols) and set(res.columns) == want_cols, "columns %s", list(res.columns))
    expect(list(res.columns.names) == ["metric", "stat"] and res.index.name == "method", "names of axes")
    lab = set()
    for m in mets:
        lo, hi = limits.get(m, (-INF, INF))
        r = hi - lo
        for a in meth:
            x = np.array(data[(m, a)])
            d = x - np.array(data[(m, ref)])
            what = "%s of %s (%s)" % (m, a, method)
            mu = num(res.loc[a, (m, "mean")], "mean")
            EB, p = num(res.loc[a, (m, "error")], "error"), num(res.loc[a, (m, "p")], "p")
            xm = INF if np.any(np.isinf(x)) else moments(x)[0]
            scale = size_of(x)
            expect_near(mu, xm, "mean %s" % what, rtol=1e-9, atol=1e-11 * scale)
            if a == ref:
                expect(math.isnan(p), "reference has p-value %r", p)
                if case["pairwise"]:
                    expect(math.isnan(EB), "reference has paired error bar %r", EB)
                    continue
            z, zl, zh = (d, -r, r) if case["pairwise"] else (x, lo, hi)
            zm = float(np.mean(z))
            zs = size_of(x, data[(m, ref)])
            dm = moments(d)[1] if np.all(np.isfinite(d)) else 0.0
            zss = moments(z)[1] if np.all(np.isfinite(z)) else 0.0
            if method == "boot" and len(z) > 1:
                expect_in(EB, tuple(ref_clip(zm, v, zl, zh, 0.0) for v in boot_bands(z, conf, 1000)[1]), "error bar %s" % what, 1e-9 * zs)
                if a != ref:
                    expect_in(p, boot_bands(d, conf, 1000)[0], "p-value %s" % what)
                    lab.add("boot")
                continue
            if well_posed(z, zss) or not np.all(np.isfinite(z)):
                raw = ref_t_EB(z, conf) if method == "t" else ref_bern_EB(z, zl, zh, conf) if method == "bernstein" else INF
                want = ref_clip(zm, raw, zl, zh, 0.0)
                expect_near(EB, want, "error bar %s" % what, rtol=1e-6, atol=1e-10 * zs)
                lab.add("clipped" if want != raw else "EB")
            if a != ref and (well_posed(d, dm) or not np.all(np.isfinite(d))):
                pw = ref_t_test(d) if method == "t" else ref_bern_test(d, -r, r) if method == "bernstein" else 1.0
                if method == "t" and dm == 0.0 and len(d) > 1 and np.all(np.isfinite(d)) and d[0] != 0.0:
                    expect(p < 1e-6, "p-value %s of a constant difference is %r", what, p)
                else:
                    expect_near(p, pw, "p-value %s" % what, rtol=1e-5, atol=1e-9)
                lab.add("paired test")
    if case["inf_at"]:
        lab.add("inf")
    return sorted(lab)


@st.composite
def summary_reject_case(draw):
    c = draw(summary_case())
    c["inf_at"] = None
    c["bad"] = draw(st.sampled_from(["nan", "low", "high", "ref"]))
    c["at"] = [draw(st.integers(0, len(c["metrics"]) - 1)), draw(st.integers(0, len(c["methods"]) - 1)), draw(st.integers(0, len(c["tbl"][0][0]) - 1))]
    return c


def check_summary_reject(case):
    df, data = build_loss_table(case)
    i, j, k = case["at"]
    m, a = case["metrics"][i], case["methods"][j]
    limits, ref = {}, case["ref"]
    kw = {}
    if case["pairwise"] is not None:
        kw["pairwise_CI"] = case["pairwise"]
    bt.loss_summary_table(df, ref, **kw)
    if case["bad"] == "nan":
        df.iloc[k, list(df.columns).index((m, a))] = NAN
    elif case["bad"] == "low":
        limits = {m: (min(data[(m, a)]) + 0.5 * 2.0 ** case["pow"][i], INF)}
    elif case["bad"] == "high":
        limits = {m: (-INF, max(data[(m, a)]) - 0.5 * 2.0 ** case["pow"][i])}
    else:
        ref = "not a method"
    expect_raises(lambda: bt.loss_summary_table(df, ref, limits=limits, **kw), "loss table with %s" % case["bad"])
    return [case["bad"]]


C15 = Prop(
    "C15",
    [
        Sub("t_and_bernstein", lambda: summary_case(), check_summary, 720, rule="every cell recomputed: mean, (paired) clipped error bar, paired p-value, NaN for the reference"),
        Sub("boot", lambda: summary_case("boot"), check_summary, 320, rule="as above with bootstrap bands from exact enumeration"),
        Sub("rejects_cheating", lambda: summary_reject_case(), check_summary_reject, 320, rule="NaN losses, losses beyond the limits and unknown reference are rejected"),
    ],
    "Generated loss tables (1-4 methods, 1-3 metrics, duplicated and constant methods, infinite losses, limits touching the data, any column order). Non-trivial: an error bar or paired test was compared.",
    ["A reference method is never infinite at the same point as another method (difference undefined)"],
)

# ============================================================================ C16


@st.composite
def perc_case(draw):
    shape = draw(st.sampled_from([[], [], [2], [3, 2]]))
    n = draw(st.one_of(st.integers(1, 12), st.integers(20, 400), st.sampled_from([41, 101, 201, 1000, 1001])))
    return {
        "n": n,
        "shape": shape,
        "seed": draw(seeds),
        "levels": draw(st.sampled_from([2, 5, 50, 0])),
        "inf": draw(st.integers(0, 5)) == 0,
        "conf": draw(confidence),
        "orig": draw(dyadic),
        "ref": draw(st.one_of(dyadic, st.just("paired"))),
        "close": draw(st.sampled_from([0.0, 0.0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-5])),
        "pow": draw(pows),
    }


def _boots(case):
    r = np.random.RandomState(case["seed"])
    shp = (case["n"],) + tuple(case["shape"])
    if case["levels"]:
        b = r.randint(-case["levels"], case["levels"] + 1, size=shp) / 4.0
    else:
        b = r.randn(*shp)
    if case["inf"]:
        b.reshape(-1)[0] = -INF
    return b * 2.0 ** case["pow"], r


def check_perc(case):
    b, r = _boots(case)
    n, conf = case["n"], case["conf"]
    c = 2.0 ** case["pow"]
    case = dict(case, orig=case["orig"] * c)
    b0 = b.copy()
    LB, UB = bu.percentile(b, conf)
    LB = as_arr(LB, case["shape"], "lower end").astype(float)
    UB = as_arr(UB, case["shape"], "upper end").astype(float)
    srt = np.sort(b, axis=0)
    idx = ref_percentile_idx(conf, n)
    okL, okU = np.zeros(case["shape"], dtype=bool), np.zeros(case["shape"], dtype=bool)
    for j in idx:
        okL |= LB == srt[j]
        okU |= UB == srt[n - 1 - j]
    expect(np.all(okL) and np.all(okU), "percentile interval (%s, %s), order statistics %s of %d", LB, UB, idx, n)
    inside = np.mean((LB[None] <= b) & (b <= UB[None]), axis=0)
    expect(np.all(inside >= conf - 1e-9), "interval holds %s of the replications, confidence %r", inside, conf)
    orig = np.full(case["shape"], case["orig"]) if case["shape"] else case["orig"]
    B1, B2 = bu.basic(b, orig, conf)
    expect_all_near(B1, 2 * np.asarray(orig) - UB, "lower end of basic interval", atol=1e-9 * c)
    expect_all_near(B2, 2 * np.asarray(orig) - LB, "upper end of basic interval", atol=1e-9 * c)
    for f in (lambda **k: bu.percentile(b, **k), lambda **k: bu.basic(b, orig, **k)):
        d, e = f(), f(confidence=0.95)
        expect(np.array_equal(d[0], e[0], equal_nan=True) and np.array_equal(d[1], e[1], equal_nan=True), "default confidence is not 0.95")
    for v in (0.0, 1.0, -0.1, 1.5, 95.0, NAN):
        expect_raises(lambda: bu.percentile(b, v), "confidence %r" % v)
    expect_raises(lambda: bu.basic(b, np.zeros(tuple(case["shape"]) + (2,)), conf), "estimate of another shape")
    lab = ["n>1"] if n > 1 else []
    if not case["shape"]:
        EB = num(bu.error_bar(b, case["orig"], confidence=conf), "error bar")
        ok = [max(float(UB) - case["orig"], case["orig"] - float(LB))]
        expect(any(near(EB, v, 1e-9, 1e-12 * c) for v in ok), "error bar %r, from the interval %r", EB, ok)
        expect(EB >= 0.0, "negative error bar")
        lab.append("error bar")
        if case["ref"] == "paired":
            ref = r.randint(-4, 5, size=n) / 4.0 * c
            if case["close"]:  # Almost the replications
                ref = np.where(np.isfinite(b), b, 0.0) + r.randint(-1, 2, size=n) * case["close"] * c
        else:
            ref = case["ref"] * c
            if case["close"]:
                j = int(r.randint(n))
                ref = (float(b[j]) if np.isfinite(b[j]) else 0.0) + float(r.choice([-1.0, 1.0])) * case["close"] * c
        p = num(bu.significance(b, ref), "p-value")
        want = min(1.0, 2.0 * min(np.mean(b <= ref), np.mean(b >= ref)))
        expect_near(p, want, "p-value", rtol=1e-12)
        expect(0.0 <= p <= 1.0, "p-value %r", p)
        q = num(bu.significance(-b, -np.asarray(ref) if case["ref"] == "paired" else -ref), "p-value")
        expect_near(q, p, "p-value is not symmetric")
        if case["ref"] != "paired":
            # Same as paired with a constant, and coherent with the interval
            expect_near(bu.significance(b, np.full(n, ref)), p, "p-value with constant reference")
            if ref < float(LB) or ref > float(UB):
                expect(p <= 1.0 - conf + 1e-9, "reference %r outside of (%r, %r) but p-value %r", ref, LB, UB, p)
                lab.append("outside")
        else:
            lab.append("paired")
        bad = b.copy()
        bad[-1] = NAN
        expect_raises(lambda: bu.percentile(bad, conf), "NaN replication")
        expect_raises(lambda: bu.significance(bad, 0.0), "NaN replication")
        expect_raises(lambda: bu.error_bar(bad, case["orig"], conf), "NaN replication")
        expect_raises(lambda: bu.basic(bad, case["orig"], conf), "NaN replication")
        expect_raises(lambda: bu.significance(b, bad), "NaN reference")
        expect_raises(lambda: bu.significance(b, NAN), "NaN reference")
        expect_raises(lambda: bu.significance(b, np.zeros(n + 1)), "reference of another length")
        expect_near(num(bu.error_bar(b, case["orig"]), "EB"), num(bu.error_bar(b, case["orig"], 0.95), "EB"), "default confidence is not 0.95", atol=0.0)
    expect(np.array_equal(b, b0), "replications modified")
    lo, hi = bu.confidence_to_percentiles(conf)
    expect_near(lo, 50.0 * (1 - conf), "lower percentile")
    expect_near(hi, 50.0 * (1 + conf), "upper percentile")
    return lab


C16 = Prop(
    "C16",
    [Sub("intervals", lambda: perc_case(), check_perc, 4000, rule="percentile and basic interval, error bar, p-value against order statistics; coverage of the replications; symmetry; coherence")],
    "Generated replications (1 to 1001, with ties and -inf, arrays of several quantities), confidence levels, scalar and paired references. Non-trivial: more than one replication, or an error bar was compared.",
    ["When the rank is an integer up to round off, both neighbouring order statistics are accepted"],
)

PROPS = [C10, C11, C12, C13, C14, C15, C16]
