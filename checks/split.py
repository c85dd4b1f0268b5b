"""C26 to C29: train/test splits and lagged data."""
import itertools
import math
from fractions import Fraction

import mlpaper.data_splitter as ds
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.stats import _count_band
from harness.core import Prop, Sub, expect
from harness.gen import expect_raises, rng_state, seeds

# ---------------------------------------------------------------- generators

fracs = st.one_of(
    st.sampled_from([0.0, 1.0, 0.5, 0.8, 0.2, 0.1, 0.25, 0.3, 0.6, 0.7, 0.9, 1.0 / 3.0, 2.0 / 3.0, 0.05, 0.55]),
    st.floats(0.0, 1.0),
    st.tuples(st.integers(0, 30), st.integers(1, 30)).map(lambda t: min(1.0, t[0] / float(t[1]))),
)


@st.composite
def column(draw, n, numeric=False, fine=False):
    """n values with some repeated; fine: also with differences that floats of the usual size cannot tell."""
    kind = draw(st.sampled_from(["int", "int", "dyadic", "float", "small"] + ([] if numeric else ["str", "date", "bool", "tz", "ocat", "delta"]) + (["bigint", "close"] if fine else [])))
    u = draw(st.integers(1, 6))
    out = {"kind": kind}
    if kind == "int":
        el = st.integers(-u, u)
    elif kind == "small":
        out["dtype"] = draw(st.sampled_from(["int8", "uint8", "int16", "uint16", "float32"]))
        top = {"int8": 60, "uint8": 255, "int16": 16000, "uint16": 65535, "float32": 2 ** 20}[out["dtype"]]
        bot = 0 if out["dtype"][0] == "u" else -top
        el = st.one_of(st.integers(max(bot, -u), u), st.sampled_from([bot, top, top - 1]), st.integers(bot, top))
    elif kind == "dyadic":
        el = st.integers(-8 * u, 8 * u).map(lambda k: k / 8.0)
    elif kind == "float":
        el = st.floats(-1e3, 1e3, allow_subnormal=False)
    elif kind == "str":
        el = st.sampled_from(["a", "b", "B", "cc", "", "zz"][: u + 1])
    elif kind in ("date", "tz", "delta"):
        el = st.integers(0, 3 * u)
        out["tz"] = draw(st.sampled_from(["UTC", "Europe/Berlin", "Asia/Kolkata"]))
    elif kind == "ocat":
        out["cats"] = draw(st.permutations(["a", "b", "B", "cc", "zz", "10", "9"]))[: u + 1]
        el = st.sampled_from(out["cats"])
    elif kind == "bigint":
        b = draw(st.sampled_from([2 ** 53, -(2 ** 53), 2 ** 62]))
        el = st.integers(-u, u).map(lambda k: b + k)
    elif kind == "close":
        b = draw(st.sampled_from([1.0, -1.0, 1e9, 1e-9, 0.0]))
        el = st.integers(0, u).map(lambda k: b + k * (np.spacing(b) if b else 1e-300)).map(float)
    else:
        el = st.booleans()
    out["v"] = draw(st.lists(el, min_size=n, max_size=n))
    return out


def expand_col(c):
    v, k = c["v"], c["kind"]
    if k == "date":
        return pd.to_datetime(np.array(v, dtype="int64") * 86400 * 10 ** 9).values
    if k == "tz":
        return pd.array(pd.to_datetime(np.array(v, dtype="int64") * 3600 * 10 ** 9).tz_localize("UTC").tz_convert(c["tz"]))
    if k == "delta":
        return pd.to_timedelta(np.array(v, dtype="int64") * 10 ** 9).values
    if k == "ocat":
        return pd.Categorical(v, categories=list(c["cats"]), ordered=True)
    if k == "small":
        return np.array(v).astype(c["dtype"])
    if k == "str":
        return np.array(v, dtype=object)
    return np.array(v, dtype={"int": int, "bigint": int, "bool": bool}.get(k, float))


def ranks(vals):
    """List of python objects with the same order."""
    return [int(c) for c in vals.codes] if isinstance(vals, pd.Categorical) else vals.tolist()


def n_train_options(frac, n):
    """How many of n go in train: rounded up, either way if float round off decides."""
    s = set()
    for f in (Fraction(frac), Fraction(repr(float(frac)))):
        s.add(int(math.ceil(f * n)))
    s.add(int(math.ceil(frac * n)))
    return sorted(min(n, v) for v in s)


@st.composite
def index_of(draw, n):
    kind = draw(st.sampled_from(["range", "int", "str", "dup", "float"]))
    if kind == "range":
        v = list(range(n))
    elif kind == "int":
        v = draw(st.permutations(list(range(10, 10 + n))))
    elif kind == "str":
        v = ["r%d" % i for i in draw(st.permutations(list(range(n))))]
    elif kind == "float":
        v = [i / 2.0 for i in draw(st.permutations(list(range(n))))]
    else:
        v = draw(st.lists(st.integers(0, max(1, n // 2)), min_size=n, max_size=n))
    return list(v)


# ---------------------------------------------------------------- reference


def ref_ordered(vals, frac):
    """Acceptable masks."""
    vals = ranks(vals)
    u = sorted(set(vals))
    out = []
    for k in n_train_options(frac, len(u)):
        for kk in (k,) if k > 0 else (0, 1):
            keep = set(u[:kk])
            out.append([v in keep for v in vals])
    return out


def ref_linear(vals, frac):
    """(must be train, may be train)"""
    f = [Fraction(float(v)) for v in vals]
    lo, hi = min(f), max(f)
    piv = (1 - Fraction(frac)) * lo + Fraction(frac) * hi
    exact = all(v.denominator <= 64 and abs(v) < 10 ** 6 for v in f) and Fraction(frac).denominator <= 64
    t = Fraction(0) if exact or frac in (0.0, 1.0) else Fraction(1, 10 ** 9) * (hi - lo + abs(hi) + abs(lo))
    return [v <= piv - t for v in f], [v <= piv + t for v in f]


def is_mask(got, index, what):
    expect(isinstance(got, pd.Series), "%s: not a series", what)
    expect(got.dtype == bool, "%s: dtype %s", what, got.dtype)
    expect(list(got.index) == list(index), "%s: index %s", what, list(got.index))
    return got.values.tolist()


# ============================================================================ C26


@st.composite
def split_case(draw):
    n = draw(st.integers(1, 10))
    cols = {c: draw(column(n, fine=True)) for c in draw(st.lists(st.sampled_from(["a", "b", "t", "g"]), min_size=1, max_size=3, unique=True))}
    num = [c for c in cols if cols[c]["kind"] in ("int", "dyadic", "float", "small")]
    keys = draw(st.lists(st.sampled_from(sorted(cols) + ["<index>"]), min_size=1, max_size=3, unique=True))
    index = draw(index_of(n))
    idx_num = not isinstance(index[0], str)
    dindex = draw(st.sampled_from([None, None, "naive", "US/Pacific"])) if isinstance(index[0], int) else None
    idx_num = idx_num and dindex is None
    splits = []
    for k in keys:
        types = ["random", "ordered"]
        if (k in num) or (k == "<index>" and idx_num):
            types.append("linear")
        splits.append([k, draw(st.sampled_from(types)), draw(fracs)])
    return {"n": n, "cols": cols, "index": index, "splits": splits, "default": draw(st.integers(0, 5)) == 0, "assume": draw(st.booleans()), "seed": draw(seeds), "intcol": draw(st.booleans()), "rename": draw(st.sampled_from([None, None, 0, "", "index", 1, "lag"])), "dindex": dindex, "obj": draw(st.sampled_from([None, None, "int", "float", "mixed", "none", "bool"]))}


def col_name(case, c):
    """The first column may have an odd name."""
    return case["rename"] if case.get("rename") is not None and c == list(case["cols"])[0] else c


def build_df(case):
    d = {col_name(case, c): expand_col(v) for c, v in case["cols"].items()}
    d["_id"] = np.arange(case["n"])
    index = case["index"]
    if case.get("dindex"):
        index = pd.to_datetime(np.array(index, dtype="int64") * 3600 * 10 ** 9)
        index = index if case["dindex"] == "naive" else index.tz_localize("UTC").tz_convert(case["dindex"])
    df = pd.DataFrame(d, index=index)
    if case["intcol"]:
        df[7] = np.arange(case["n"]) / 4.0  # A column whose name is not a string
    if case.get("obj"):
        v = {"int": [1, 2, 3], "float": [0.5, 2.0, 1.5], "mixed": [1, "a", 2.5], "none": [None, 1, None], "bool": [True, False, True]}[case["obj"]]
        df["_obj"] = pd.Series([v[i % 3] for i in range(case["n"])], index=df.index, dtype=object)  # Goes along as it is
    return df


def series_values(df, key):
    return df.index.values if key == "<index>" else df[key].values


def check_split(case):
    df = build_df(case)
    n = len(df)
    df0 = df.copy()
    kw = {}
    splits = [(col_name(case, k), t, f) for k, t, f in case["splits"]]
    if case["default"]:
        splits = [("<index>", "random", 0.8)]
    else:
        kw["splits"] = {(ds.INDEX if k == "<index>" else k): (t, f) for k, t, f in splits}
        if case["assume"]:
            au, asrt = [], []
            for k, _, _ in splits:
                v = ranks(series_values(df, k))
                if len(set(v)) == n:
                    au.append(ds.INDEX if k == "<index>" else k)
                if all(a <= b for a, b in zip(v, v[1:])):
                    asrt.append(ds.INDEX if k == "<index>" else k)
            kw.update(assume_unique=au, assume_sorted=asrt)
    np.random.seed(case["seed"])
    parts = ds.split_df(df, **kw)
    expect(df.equals(df0) and list(df.index) == list(df0.index), "input modified")
    expect(len(parts) == 3, "%d parts", len(parts))
    ids = []
    for name, p in zip(("train", "test", "unused"), parts):
        expect(list(p.columns) == list(df.columns) and (p.dtypes == df.dtypes).all(), "%s: columns", name)
        ii = p["_id"].tolist()
        expect(ii == sorted(ii), "%s: rows are reordered", name)
        want = df.iloc[ii]
        expect(p.equals(want) and list(p.index) == list(want.index), "%s: rows are changed", name)
        ids.append(set(ii))
    tr, te, un = ids
    expect(sum(len(p) for p in parts) == n and len(tr | te | un) == n, "rows are lost or duplicated: %s", ids)
    if len(splits) == 1:
        expect(not un, "single criterion leaves rows %s unused", un)
    lab = set(["default"] if case["default"] else [t for _, t, _ in splits])
    # Candidate train masks for each criterion
    cand = []
    for k, t, f in splits:
        vals = series_values(df, k)
        vl = ranks(vals)
        if t == "ordered":
            cand.append(ref_ordered(vals, f))
        elif t == "linear":
            lo, hi = ref_linear(vals, f)
            # Any divide that is between the two, if round off decides
            piv = [None] + sorted(set(v for v, x, y in zip(vl, lo, hi) if y and not x))
            cand.append([[bool(x or (p is not None and y and v <= p)) for v, x, y in zip(vl, lo, hi)] for p in piv])
        else:
            u = list(dict.fromkeys(vl))
            ks = n_train_options(f, len(u))
            opts = []
            if len(u) <= 8:
                for kk in ks:
                    for c in itertools.combinations(u, kk):
                        c = set(c)
                        opts.append([v in c for v in vl])
            else:
                cand.append(None)
                a = set(vl[i] for i in tr)
                b = set(vl[i] for i in te)
                expect(not a & b, "%s: same value %s in train and test", k, a & b)
                expect(len(a) <= max(ks) and len(b) <= len(u) - min(ks), "%s: %d values in train and %d in test", k, len(a), len(b))
                if len(splits) == 1:
                    expect(len(a) in ks, "%s: %d of %d values in train with fraction %r", k, len(a), len(u), f)
                continue
            cand.append(opts)
    if all(c is not None for c in cand):
        # Some choice of masks has to give exactly these parts.  Masks are only kept
        # if they do not contradict train and test, then combined.
        keep = [[m for m in c if all(m[i] for i in tr) and not any(m[i] for i in te)] for c in cand]
        for (k, t, f), kk in zip(splits, keep):
            expect(kk, "%s split of %s at %r explains neither train %s nor test %s", t, k, f, sorted(tr), sorted(te))
        ok, tried = False, 0
        for combo in itertools.product(*keep):
            tried += 1
            if all(any(m[i] for m in combo) and not all(m[i] for m in combo) for i in un):
                ok = True
                break
            if tried > 20000:
                ok = True
        expect(ok, "rows %s are unused, although all criteria agree on one of them", sorted(un))
        lab.add("explained")
    if len(splits) > 1:
        lab.add("several criteria")
    if un:
        lab.add("unused")
    return sorted(lab) if n > 1 else []


C26 = Prop(
    "C26",
    [Sub("partition", lambda: split_case(), check_split, 1600, rule="rows are partitioned in order and unchanged; some per column split explains train, test and unused exactly")],
    "Generated frames (1-10 rows, repeated values and index, several types), 1-3 split columns of any kind, the default split, truthful speed-up flags. Non-trivial: more than one row.",
    ["Linear splits are of numeric columns"],
)

# ============================================================================ C27


@st.composite
def random_case(draw):
    n = draw(st.integers(1, 14))
    return {"col": draw(column(n, fine=True)), "frac": draw(fracs), "seed": draw(seeds), "index": draw(index_of(n)), "uniq": draw(st.booleans())}


def check_random(case):
    vals = expand_col(case["col"])
    index = case["index"]
    if case["uniq"]:
        vl = ranks(vals)
        keep = [vl.index(v) for v in dict.fromkeys(vl)]
        vals, index = vals[keep], [index[i] for i in keep]
    n, frac = len(vals), case["frac"]
    S = pd.Series(vals, index=index)
    S0 = S.copy()
    np.random.seed(case["seed"])
    m = is_mask(ds.random_split_series(S, frac), index, "random split")
    st1 = rng_state()
    expect(S.equals(S0), "input modified")
    vl = ranks(vals)
    grp = {}
    for v, b in zip(vl, m):
        grp.setdefault(v, set()).add(b)
    expect(all(len(g) == 1 for g in grp.values()), "a value is both in train and test")
    k = sum(1 for g in grp.values() if True in g)
    expect(k in n_train_options(frac, len(grp)), "%d of %d values in train with fraction %r", k, len(grp), frac)
    np.random.seed(case["seed"])
    expect(is_mask(ds.random_split_series(S, frac), index, "random split") == m, "split depends on more than the seed")
    lab = ["grouped"] if len(grp) < n else []
    if len(grp) == n:
        np.random.seed(case["seed"])
        m2 = is_mask(ds.random_split_series(S, frac, assume_unique=True), index, "random split")
        expect(sum(m2) in n_train_options(frac, n), "%d of %d rows in train with fraction %r", sum(m2), n, frac)
        if rng_state() == st1:
            expect(m2 == m, "promise that values are unique changes the split")
        lab.append("unique")
    # Helpers
    np.random.seed(case["seed"])
    L = ds.rand_subset(np.arange(n) * 2, frac)
    expect(len(L) in n_train_options(frac, n), "subset of %d from %d with fraction %r", len(L), n, frac)
    expect(len(set(L.tolist())) == len(L) and set(L.tolist()) <= set(range(0, 2 * n, 2)), "not a subset: %s", L)
    mk = ds.rand_mask(n, frac)
    expect(isinstance(mk, np.ndarray) and mk.shape == (n,) and mk.dtype == bool, "mask")
    expect(int(np.sum(mk)) in n_train_options(frac, n), "mask with %d of %d with fraction %r", int(np.sum(mk)), n, frac)
    # Invalid input
    for bad in (-0.01, 1.01):
        expect_raises(lambda: ds.random_split_series(S, bad), "fraction %r" % bad)
        expect_raises(lambda: ds.rand_subset(np.arange(n), bad), "fraction %r" % bad)
    expect_raises(lambda: ds.random_split_series(pd.Series([1.0, np.nan]), frac), "NaN value")
    return lab if n > 1 else []


@st.composite
def uniform_case(draw):
    u = draw(st.integers(2, 5))
    k = draw(st.integers(1, u - 1))
    return {
        "u": u,
        "frac": draw(st.sampled_from([k / float(u), (k - 0.5) / u])),
        "k": k,
        "reps": draw(st.lists(st.integers(1, 3), min_size=u, max_size=u)),
        "how": draw(st.sampled_from(["series", "mask", "subset", "df", "unique"])),
        "str": draw(st.booleans()),
    }


def check_uniform(case):
    """Every subset of the values is as likely as any other."""
    u, frac = case["u"], case["frac"]
    vals = ["v%d" % i if case["str"] else i for i in range(u)]
    how = case["how"]
    B = 500
    seen = {}
    rows = [v for v, r in zip(vals, case["reps"]) for _ in range(r)]
    S = pd.Series(rows)
    df = pd.DataFrame({"g": rows, "x": np.arange(len(rows))})
    for _ in range(B):
        if how == "series":
            c = frozenset(S[ds.random_split_series(S, frac)])
        elif how == "df":
            c = frozenset(ds.split_df(df, {"g": ("random", frac)})[0]["g"])
        elif how == "unique":
            c = frozenset(np.array(vals, dtype=object)[ds.random_split_series(pd.Series(vals), frac, assume_unique=True).values])
        elif how == "mask":
            c = frozenset(np.array(vals, dtype=object)[ds.rand_mask(u, frac)])
        else:
            c = frozenset(ds.rand_subset(np.array(vals, dtype=object), frac))
        seen[c] = seen.get(c, 0) + 1
    for kk in set(len(c) for c in seen):
        expect(kk in n_train_options(frac, u), "%d of %d values in train with fraction %r", kk, u, frac)
    if len(set(len(c) for c in seen)) == 1:
        kk = len(next(iter(seen)))
        combs = list(itertools.combinations(vals, kk))
        lo, hi = _count_band(1.0 / len(combs), B)
        for c in combs:
            cnt = seen.get(frozenset(c), 0)
            expect(lo <= cnt <= hi, "%s chosen %d times in %d, expected %d to %d", c, cnt, B, lo, hi)
    return [how]


@st.composite
def spread_case(draw):
    n = draw(st.integers(6, 300))
    return {
        "n": n,
        "frac": draw(st.sampled_from([0.1, 0.25, 0.5, 0.8, 0.9])),
        "frac2": draw(st.sampled_from([0.25, 0.5, 0.8])),
        "seed": draw(seeds),
        "how": draw(st.sampled_from(["series", "mask", "subset", "df", "unique"])),
        "str": draw(st.booleans()),
        "copy": draw(st.booleans()),
        "promise": draw(st.booleans()),
        "three": draw(st.booleans()),
    }


def check_spread(case):
    """No value is favoured in samples of any size, and splits on several columns have nothing to do with each other."""
    n, frac = case["n"], case["frac"]
    r = np.random.RandomState(case["seed"])
    perm = r.permutation(n)
    vals = np.array(["v%d" % i for i in perm], dtype=object) if case["str"] else perm
    S = pd.Series(vals)
    how = case["how"]
    B = 150
    count = np.zeros(n)
    df = pd.DataFrame({"g": vals, "x": np.arange(n)})
    for _ in range(B):
        if how == "series":
            m = ds.random_split_series(S, frac).values
        elif how == "df":
            m = np.isin(np.arange(n), ds.split_df(df, {"g": ("random", frac)})[0]["x"].values)
        elif how == "unique":
            m = ds.random_split_series(S, frac, assume_unique=True).values
        elif how == "mask":
            m = ds.rand_mask(n, frac)
        else:
            m = S.isin(ds.rand_subset(vals, frac)).values
        m = np.asarray(m, dtype=bool)
        expect(m.shape == (n,) and int(np.sum(m)) in n_train_options(frac, n), "%d of %d values in train with fraction %r", int(np.sum(m)), n, frac)
        count += m
    bands = [_count_band(k / float(n), B) if 0 < k < n else ((0, 0) if k == 0 else (B, B)) for k in n_train_options(frac, n)]
    lo, hi = min(b[0] for b in bands), max(b[1] for b in bands)
    worst = int(np.argmax(np.abs(count - B * frac)))
    expect(np.all((lo <= count) & (count <= hi)), "value %r (row %d of %d) in train %d times in %d, expected %d to %d", vals[worst], worst, n, int(count[worst]), B, lo, hi)
    # Criteria are independent of each other
    n2 = min(n, 60)
    a = np.arange(n2)
    b = a if case["copy"] else r.permutation(n2)
    df = pd.DataFrame({"a": a, "b": b, "x": np.arange(n2)}, index=a[::-1])
    splits = {"a": ("random", frac), "b": ("random", case["frac2"])}
    if case["three"]:
        del splits["a"]
        splits[ds.INDEX] = ("random", frac)
    kw = {"assume_unique": tuple(splits)} if case["promise"] else {}
    B = 120
    tot = sum(len(ds.split_df(df, splits, **kw)[0]) for _ in range(B))
    ends = []
    for k1 in n_train_options(frac, n2):
        for k2 in n_train_options(case["frac2"], n2):
            mean = B * k1 * k2 / float(n2)
            sd = math.sqrt(B * k1 * k2 * (n2 - k1) * (n2 - k2) / float(n2 ** 2 * (n2 - 1)))
            ends += [mean - 8.0 * sd - 2.0, mean + 8.0 * sd + 2.0]
    expect(min(ends) <= tot <= max(ends), "two random criteria agree on train for %d rows in %d splits, expected %.1f to %.1f if independent", tot, B, min(ends), max(ends))
    return [how, "two criteria"]


C27 = Prop(
    "C27",
    [
        Sub("groups", lambda: random_case(), check_random, 1600, rule="equal values stay together; share of values rounded up; reproducible by seed; flags and helpers agree"),
        Sub("uniform", lambda: uniform_case(), check_uniform, 96, rule="each subset occurs as often as the others in 500 draws (1e-11 bounds)"),
        Sub("spread", lambda: spread_case(), check_spread, 64, rule="6 to 300 values: each is in train as often as it should in 150 draws (1e-11 bounds); two random criteria agree as often as independent ones (8 sigma)"),
    ],
    "Generated series (repeated values, six types), fractions including exact multiples. Non-trivial: more than one row.",
    ["If frac * n is an integer up to round off, both counts are accepted"],
)

# ============================================================================ C28


@st.composite
def ordered_case(draw):
    n = draw(st.integers(1, 16))
    return {"col": draw(column(n, fine=True)), "frac": draw(fracs), "frac2": draw(fracs), "index": draw(index_of(n)), "perm": draw(seeds), "sort": draw(st.booleans()), "uniq": draw(st.booleans())}


def _prep(case):
    vals, index = expand_col(case["col"]), case["index"]
    if case["uniq"]:
        vl = ranks(vals)
        keep = [vl.index(v) for v in dict.fromkeys(vl)]
        vals, index = vals[keep], [index[i] for i in keep]
    if case["sort"]:
        vl = ranks(vals)
        vals = vals[sorted(range(len(vl)), key=lambda i: vl[i])]
    flags = {}
    if case["sort"]:
        flags["assume_sorted"] = True
    if len(set(ranks(vals))) == len(vals):
        flags["assume_unique"] = True
    return vals, index, flags


def check_ordered(case):
    vals, index, flags = _prep(case)
    frac = case["frac"]
    S = pd.Series(vals, index=index)
    S0 = S.copy()
    s0 = rng_state()
    m = is_mask(ds.ordered_split_series(S, frac), index, "ordered split")
    expect(S.equals(S0) and rng_state() == s0, "ordered split modified data or random state")
    ok = ref_ordered(vals, frac)
    expect(m in ok, "ordered split at %r of %s gives %s", frac, vals.tolist(), m)
    for kw in [{k: True} for k in flags] + ([flags] if len(flags) == 2 else []):
        expect(is_mask(ds.ordered_split_series(S, frac, **kw), index, "ordered split") == m, "truthful %s changes the split", sorted(kw))
    perm = np.random.RandomState(case["perm"]).permutation(len(vals))
    Sp = pd.Series(vals[perm], index=[index[i] for i in perm])
    expect(is_mask(ds.ordered_split_series(Sp, frac), Sp.index, "ordered split") == [m[i] for i in perm], "ordered split depends on the order of rows")
    m2 = is_mask(ds.ordered_split_series(S, case["frac2"]), index, "ordered split")
    a, b = (m, m2) if frac <= case["frac2"] else (m2, m)
    expect(all(y for x, y in zip(a, b) if x), "a larger fraction drops rows from train")
    expect(all(is_mask(ds.ordered_split_series(S, 1.0), index, "ordered split")), "fraction 1 leaves out rows")
    tr, te = [v for v, x in zip(ranks(vals), m) if x], [v for v, x in zip(ranks(vals), m) if not x]
    expect(not tr or not te or max(tr) < min(te), "train and test overlap")
    for bad in (-0.01, 1.01):
        expect_raises(lambda: ds.ordered_split_series(S, bad), "fraction %r" % bad)
    expect_raises(lambda: ds.ordered_split_series(pd.Series([1.0, np.nan]), frac), "NaN value")
    lab = ["ties" if len(set(ranks(vals))) < len(vals) else "unique"]
    if te and tr:
        lab.append("both sides")
    return lab if len(vals) > 1 else []


@st.composite
def linear_case(draw):
    n = draw(st.integers(1, 12))
    return {
        "col": draw(column(n, numeric=True)),
        "frac": draw(st.one_of(st.integers(0, 16).map(lambda k: k / 16.0), fracs)),
        "frac2": draw(fracs),
        "index": draw(index_of(n)),
        "perm": draw(seeds),
        "sort": draw(st.booleans()),
        "uniq": draw(st.booleans()),
        "at": draw(st.one_of(st.none(), st.integers(0, 99))),
    }


def check_linear(case):
    vals, index, flags = _prep(case)
    frac = case["frac"]
    if case["at"] is not None and len(vals) > 1 and np.max(vals) > np.min(vals):
        # Make the divide fall on a data point
        v = vals[case["at"] % len(vals)]
        f = (Fraction(float(v)) - Fraction(float(np.min(vals)))) / (Fraction(float(np.max(vals))) - Fraction(float(np.min(vals))))
        if f.denominator in (1, 2, 4, 8, 16, 32, 64):
            frac = float(f)
    S = pd.Series(vals, index=index)
    S0 = S.copy()
    s0 = rng_state()
    m = is_mask(ds.linear_split_series(S, frac), index, "linear split")
    expect(S.equals(S0) and rng_state() == s0, "linear split modified data or random state")
    lo, hi = ref_linear(vals, frac)
    for i, (a, g, b) in enumerate(zip(lo, m, hi)):
        expect(a <= g <= b, "linear split at %r of %s puts %r in %s", frac, vals.tolist(), vals[i], "train" if g else "test")
    mono = sorted(zip(vals.tolist(), m))
    expect(all(x or not y for (_, x), (_, y) in zip(mono, mono[1:])), "train is not below test")
    for kw in [{k: True} for k in flags] + ([flags] if len(flags) == 2 else []):
        expect(is_mask(ds.linear_split_series(S, frac, **kw), index, "linear split") == m, "truthful %s changes the split", sorted(kw))
    perm = np.random.RandomState(case["perm"]).permutation(len(vals))
    Sp = pd.Series(vals[perm], index=[index[i] for i in perm])
    expect(is_mask(ds.linear_split_series(Sp, frac), Sp.index, "linear split") == [m[i] for i in perm], "linear split depends on the order of rows")
    m2 = is_mask(ds.linear_split_series(S, case["frac2"]), index, "linear split")
    a, b = (m, m2) if frac <= case["frac2"] else (m2, m)
    expect(all(y for x, y in zip(a, b) if x), "a larger fraction drops rows from train")
    expect(all(is_mask(ds.linear_split_series(S, 1.0), index, "linear split")), "fraction 1 leaves out rows")
    expect(is_mask(ds.linear_split_series(S, 0.0), index, "linear split") == (vals == np.min(vals)).tolist(), "fraction 0 does not keep exactly the lowest")
    for bad in (-0.01, 1.01):
        expect_raises(lambda: ds.linear_split_series(S, bad), "fraction %r" % bad)
    expect_raises(lambda: ds.linear_split_series(pd.Series([1.0, np.nan]), frac), "NaN value")
    lab = ["exact" if lo == hi else "round off"]
    if any(m) and not all(m):
        lab.append("both sides")
    return lab if len(vals) > 1 else []


C28 = Prop(
    "C28",
    [
        Sub("ordered", lambda: ordered_case(), check_ordered, 1600, rule="train is the smallest prefix of the distinct values with at least the fraction; flags, order of rows, larger fractions"),
        Sub("linear", lambda: linear_case(), check_linear, 1600, rule="train is what is at or below the interpolated point, in rational arithmetic; flags, order of rows, larger fractions"),
    ],
    "Generated series (ties, ints, dyadic, floats, strings, dates) and fractions that hit data points exactly. Non-trivial: more than one row.",
    ["At fraction 0 an ordered split may keep the lowest value or nothing", "When round off decides, both sides are accepted"],
)

# ============================================================================ C29


@st.composite
def lag_case(draw):
    n = draw(st.integers(1, 7))
    pool = draw(st.sampled_from([["a", "b", "c", "d"], ["x", 1, 2, "y"], ["z", "y", "x", "a"]]))
    cols = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True))
    multi = draw(st.integers(0, 5)) == 0
    feats = draw(st.one_of(st.none(), st.lists(st.sampled_from(cols), min_size=0, max_size=len(cols), unique=True)))
    return {
        "cols": cols,
        "data": [draw(column(n, numeric=draw(st.booleans()))) for _ in cols],
        "n_lags": draw(st.integers(1, 4)),
        "stride": draw(st.sampled_from([None, 1, 2, 3])),
        "features": None if multi else feats,
        "ftype": draw(st.sampled_from(["list", "tuple", "index"])),
        "index": draw(index_of(n)),
        "multi": multi,
        "name": draw(st.sampled_from([None, "col"])),
        "many": draw(st.integers(0, 9)) == 0,
    }


def check_lag(case):
    cols = case["cols"]
    df = pd.DataFrame({i: expand_col(c) for i, c in enumerate(case["data"])}, index=case["index"])
    if case["multi"]:
        df.columns = pd.MultiIndex.from_tuples([("top", c) for c in cols], names=["u", "v"])
    else:
        df.columns = pd.Index(cols, name=case["name"], dtype=object)
    n_lags = 12 if case["many"] else case["n_lags"]
    stride = case["stride"] or 1
    feats = case["features"]
    kw = {} if case["stride"] is None else {"stride": stride}
    if feats is not None:
        kw["features"] = {"list": list, "tuple": tuple, "index": pd.Index}[case["ftype"]](feats)
    df0 = df.copy()
    res = ds.build_lag_df(df, n_lags, **kw)
    expect(df.equals(df0) and list(df.columns) == list(df0.columns), "input modified")
    expect(list(res.index) == list(df.index), "index")
    base = list(df.columns)
    sub = base if feats is None else list(feats)
    tup = lambda c: c if isinstance(c, tuple) else (c,)  # noqa: E731
    want = [tup(c) + ("L0",) for c in base] + [tup(c) + ("L%d" % k,) for k in range(1, n_lags) for c in sub]
    expect(list(res.columns) == want, "columns %s and not %s", list(res.columns), want)
    expect(res.columns.names[-1] == "lag" and list(res.columns.names[:-1]) == list(df.columns.names), "names of columns %s", list(res.columns.names))
    n = len(df)
    for j, w in enumerate(want):
        k = int(w[-1][1:])
        src = df.iloc[:, base.index(w[:-1] if case["multi"] else w[0])].tolist()
        got = res.iloc[:, j].tolist()
        for i in range(n):
            if 0 <= i - k * stride < n:
                expect(got[i] == src[i - k * stride], "%s at row %d is %r and not %r", w, i, got[i], src[i - k * stride])
            else:
                expect(pd.isnull(got[i]), "%s at row %d is %r outside of the data", w, i, got[i])
        if k == 0:
            expect(res.dtypes.iloc[j] == df.dtypes.iloc[base.index(w[:-1] if case["multi"] else w[0])], "dtype of lag 0")
    lab = []
    if n_lags > 1:
        lab.append("lags")
        if (n_lags - 1) * stride < n:
            lab.append("overlap")
        if feats is not None and len(feats) < len(cols):
            lab.append("subset")
    return lab


C29 = Prop(
    "C29",
    [Sub("lags", lambda: lag_case(), check_lag, 960, rule="every entry is the value so many rows above, missing before the start; lag 0 first with all columns; names")],
    "Generated frames with odd column names, indices and types, lags, strides and feature subsets. Non-trivial: at least one lag.",
)

PROPS = [C26, C27, C28, C29]
