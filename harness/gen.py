"""Shared generators, and helpers to compare against an oracle."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness.core import Violation, expect

INF = float("inf")
NAN = float("nan")

# ---------------------------------------------------------------- comparing


def as_arr(x, shape, what, kinds="fiub"):
    """Check x is a numeric array of that shape."""
    a = np.asarray(x)
    expect(a.shape == tuple(shape), "%s: shape %s instead of %s", what, a.shape, tuple(shape))
    expect(a.dtype.kind in kinds, "%s: dtype %s", what, a.dtype)
    return a


def num(x, what="value"):
    """Check x is a scalar number and return a float."""
    expect(np.ndim(x) == 0, "%s is not a scalar: %r", what, x)
    return float(x)


def near(a, b, rtol=1e-9, atol=1e-12):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def expect_near(got, want, what, rtol=1e-9, atol=1e-12):
    g = num(got, what)
    expect(near(g, want, rtol, atol), "%s: got %r, expected %r", what, g, want)
    return g


def expect_all_near(got, want, what, rtol=1e-9, atol=1e-12):
    want = np.asarray(want, dtype=float)
    g = as_arr(got, want.shape, what).astype(float)
    ok = (g == want) | (np.isnan(g) & np.isnan(want))
    with np.errstate(all="ignore"):
        ok |= np.isfinite(g) & np.isfinite(want) & (np.abs(g - want) <= atol + rtol * np.maximum(np.abs(g), np.abs(want)))
    if not np.all(ok):
        ii = tuple(int(v[0]) for v in np.where(~ok))
        raise Violation("%s: entry %s is %r, expected %r" % (what, ii, g[ii], want[ii]))
    return g


def expect_raises(f, what, exc=Exception):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Violation("%s: raised %s instead of %s" % (what, type(e).__name__, exc))
    raise Violation("%s: accepted, returned %r" % (what, r))


def expect_same_frame(a, b, what):
    """Exactly the same values, dtypes, index and columns."""
    expect(list(a.columns) == list(b.columns), "%s: columns differ", what)
    expect(list(a.index) == list(b.index) or a.index.equals(b.index), "%s: index differs", what)
    expect(a.equals(b), "%s: values differ", what)


# ---------------------------------------------------------------- floats

dyadic = st.integers(-64, 64).map(lambda k: k / 16.0)
small_int = st.integers(-4, 4).map(float)


def floats(lo=-1e6, hi=1e6):
    """Floats without tiny values, whose squares would underflow."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(lambda v: 0.0 if abs(v) < 1e-6 and lo <= 0.0 <= hi else v)


seeds = st.integers(0, 2 ** 31 - 1)
# Confidence levels, the usual ones as well as odd ones
confidence = st.one_of(
    st.sampled_from([0.95, 0.9, 0.99, 0.5, 0.68, 0.8]),
    st.floats(0.01, 0.999, allow_nan=False).map(lambda v: float(round(v, 4))),
    st.floats(0.01, 0.9999, allow_nan=False),
    st.sampled_from([1e-6, 1e-3, 0.9999, 1.0 - 3e-6, 1.0 - 1e-7]),
)

NAMES = ["foo", "bar", "GP", "knn", "Iid", "a", "b", "zeta", "method_1", "x y", "10", "2", "p", "mean", "std", "metric", "é", "method", "-"]
ALIKE = ("foo", "Foo", "FOO", "foobar", "fo", "oo", "foo_", "1foo")
ALIKE_METRICS = ("NLL", "nll", "NLL2", "NLL_")
METRICS = ["NLL", "loss", "zero_one", "b_metric", "A", "mse", "Zed", "m 1"]


@st.composite
def names(draw, lo=1, hi=4, pool=tuple(NAMES), ints=False):
    if ints and draw(st.integers(0, 9)) == 0:
        pool = (0, 1, 2, 3, 10, -1, 7)  # Labels need not be text
    elif pool == tuple(NAMES) and draw(st.integers(0, 5)) == 0:
        pool = ALIKE
    elif pool == tuple(METRICS) and draw(st.integers(0, 5)) == 0:
        pool = ALIKE_METRICS
    return draw(st.lists(st.sampled_from(pool), min_size=lo, max_size=hi, unique=True))


# Data vectors, small and with ties, or large (made from a seed in the case)


def vec(elements, lo=1, hi=8):
    return st.lists(elements, min_size=lo, max_size=hi)


@st.composite
def big_spec(draw, lo=20, hi=400):
    return {"n": draw(st.integers(lo, hi)), "seed": draw(seeds), "kind": draw(st.sampled_from(["normal", "dyadic", "skew", "binary", "const0"]))}


def expand(spec):
    """Turn a list or a big_spec into an array of floats."""
    if isinstance(spec, list):
        return np.array(spec, dtype=float)
    r = np.random.RandomState(spec["seed"])
    n = spec["n"]
    k = spec["kind"]
    if k == "normal":
        x = r.randn(n) + r.choice([0.0, 0.3, -1.0])
    elif k == "dyadic":
        x = r.randint(-32, 33, size=n) / 8.0
    elif k == "skew":
        x = np.exp(r.randn(n)) * r.choice([1.0, -1.0])
    elif k == "binary":
        x = (r.rand(n) < r.rand()).astype(float)
    else:
        x = np.zeros(n)
        x[: max(1, n // 10)] = 1.0
    return x


def data_vec(lo=1, hi=8, big=True):
    opts = [vec(dyadic, lo, hi), vec(small_int, lo, hi), vec(floats(-1e3, 1e3), lo, hi), vec(st.sampled_from([0.0, 1.0]), lo, hi)]
    if big:
        opts.append(big_spec())
    return st.one_of(opts)


# ---------------------------------------------------------------- classification


@st.composite
def prob_rows(draw, n, k):
    """n rows of integer or log weights on k labels (JSON-able)."""
    rows = []
    for _ in range(n):
        kind = draw(st.sampled_from(["w", "w", "w", "unif", "perfect", "logit", "sharp"]))
        if kind == "w":
            w = draw(st.lists(st.integers(0, 9), min_size=k, max_size=k))
            if sum(w) == 0:
                w[draw(st.integers(0, k - 1))] = 1
            rows.append([float(math.log(v)) if v > 0 else -INF for v in w])
        elif kind == "unif":
            rows.append([0.0] * k)
        elif kind == "perfect":
            r = [-INF] * k
            r[draw(st.integers(0, k - 1))] = 0.0
            rows.append(r)
        elif kind == "logit":
            rows.append([float(v) for v in draw(st.lists(floats(-8, 8), min_size=k, max_size=k))])
        else:
            rows.append([float(v) for v in draw(st.lists(st.sampled_from([-900.0, -40.0, -1.0, 0.0, 30.0, 700.0]), min_size=k, max_size=k))])
    return rows


def lognorm(rows):
    """Own row-wise normalization of log weights (no scipy)."""
    out = []
    for r in rows:
        m = max(r)
        s = math.fsum(math.exp(v - m) for v in r)
        z = m + math.log(s)
        out.append([v - z for v in r])
    return np.array(out, dtype=float)


@st.composite
def class_problem(draw, max_n=6, max_k=5, normalized=True, big=True):
    """Labels and predictive log weights of one method."""
    if big and draw(st.integers(0, 9)) == 0:
        return {
            "big": {"n": draw(st.integers(20, 300)), "k": draw(st.integers(1, 30)), "seed": draw(seeds), "scale": draw(st.sampled_from([0.1, 1.0, 5.0, 50.0]))},
            "ydtype": draw(st.sampled_from(["int64", "int32", "int16"])),
        }
    k = draw(st.integers(1, max_k))
    n = draw(st.integers(1, max_n))
    ydt = draw(st.sampled_from(["int64", "int32", "int8", "bool"]))
    top = min(k - 1, 1) if ydt == "bool" else k - 1
    return {
        "k": k,
        "y": draw(st.lists(st.integers(0, top), min_size=n, max_size=n)),
        "rows": draw(prob_rows(n, k)),
        "ydtype": ydt,
    }


def expand_class(case):
    """(y array, raw log weights)"""
    if "big" in case:
        b = case["big"]
        r = np.random.RandomState(b["seed"])
        raw = r.randn(b["n"], b["k"]) * b["scale"]
        y = r.randint(0, b["k"], size=b["n"])
        return y.astype(case["ydtype"]), raw
    return np.array(case["y"], dtype=int).astype(case["ydtype"]), np.array(case["rows"], dtype=float).reshape(len(case["y"]), case["k"])


# Reference losses, one data point at a time


def ref_log_loss(y, lp):
    return -lp[y]


def ref_brier(y, lp, rescale=True):
    k = len(lp)
    v = math.fsum((math.exp(l) - (1.0 if j == y else 0.0)) ** 2 for j, l in enumerate(lp))
    if rescale and k > 1:
        v = v * k / (k - 1.0)
    return v


def ref_sphere(y, lp, rescale=True):
    k = len(lp)
    m = max(lp)
    nrm = math.sqrt(math.fsum(math.exp(2 * (l - m)) for l in lp))
    v = -math.exp(lp[y] - m) / nrm
    if rescale:
        v = (1.0 + v) / ((1.0 - 1.0 / math.sqrt(k)) if k > 1 else 1.0)
    return v


def ref_losses(f, y, lp):
    return np.array([f(int(yy), [float(v) for v in row]) for yy, row in zip(y, lp)])


# ---------------------------------------------------------------- random state


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def rs_same(a, b):
    return a == b


def make_index(kind, n):
    if kind == "range":
        return list(range(n))
    if kind == "str":
        return ["r%d" % ((7 * ii) % 101) for ii in range(n)]
    if kind == "rev":
        return list(range(n))[::-1]
    if kind == "dup":  # Rows need not have unique names
        return [ii // 2 for ii in range(n)]
    if kind == "float":
        return [0.5 * ii - 1.0 for ii in range(n)]
    return [5 * ii + 3 for ii in range(n)]


def with_unused(df, first, second):
    """The same table, as it is after columns were removed: pandas keeps their names as unused levels."""
    extra = [(a, b) for a in first for b in second]
    df = df.copy()
    df.columns = pd.MultiIndex.from_tuples(extra + list(df.columns), names=df.columns.names)[len(extra) :]
    return df


XKINDS = ["float", "float", "float", "nan", "inf", "int", "bool", "float32", "text", "object"]


def features(r, shape, kind):
    """Features of some type, which are none of the package's business."""
    X = r.randn(*shape)
    if kind in ("nan", "inf"):
        X[r.rand(*shape) < 0.3] = NAN if kind == "nan" else INF
    elif kind == "int":
        X = r.randint(-(2 ** 40), 2 ** 40, size=shape)
    elif kind == "bool":
        X = X > 0
    elif kind == "float32":
        X = X.astype("float32")
    elif kind in ("text", "object"):
        X = np.array(["abcdef"[int(v)] for v in r.randint(0, 6, size=shape).ravel()]).reshape(shape)
        X = X.astype(object) if kind == "object" else X
    return X


def same_data(a, b):
    """Same values, NaN in the same place."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and bool(np.all((a == b) | ((a != a) & (b != b))))
