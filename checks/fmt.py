"""C21 to C25: rounding, printing, shifting and laying out results tables."""
import decimal
import math
import re
from decimal import Decimal
from fractions import Fraction

import mlpaper.sciprint as sp
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness.core import Prop, Sub, Violation, expect
from harness.gen import INF, METRICS, NAN, expect_raises, names, with_unused

# ---------------------------------------------------------------- rational reference


def pow10(k):
    return Fraction(10) ** k


def lead_exp(f):
    """e such that 10^e <= |f| < 10^(e+1)."""
    f = abs(f)
    e = len(str(f.numerator)) - len(str(f.denominator))
    while pow10(e) > f:
        e -= 1
    while pow10(e + 1) <= f:
        e += 1
    return e


def ceil_to(f, q):
    return -((-f) // q) * q


def half_up_to(f, q):
    v = ((abs(f) / q + Fraction(1, 2)) // 1) * q
    return v if f >= 0 else -v


def ceil_sig(f, d):
    return f if f == 0 else ceil_to(f, pow10(lead_exp(f) - d + 1))


def half_up_sig(f, d):
    return f if f == 0 else half_up_to(f, pow10(lead_exp(f) - d + 1))


def n_digits(x):
    return len(x.as_tuple().digits)


# ---------------------------------------------------------------- generators


@st.composite
def number(draw, lo=-8, hi=8):
    kind = draw(st.sampled_from(["dec", "dec", "dyadic", "int", "half", "nines", "zero", "float"]))
    k = draw(st.integers(lo, hi))
    if kind == "dec":
        v = draw(st.integers(-99999, 99999)) * 10.0 ** (k - 4)
    elif kind == "dyadic":
        v = draw(st.integers(-512, 512)) / 32.0
    elif kind == "int":
        v = float(draw(st.integers(-2000, 2000)))
    elif kind == "half":
        v = (draw(st.integers(-99, 99)) + 0.5) * 2.0 ** draw(st.integers(-3, 3))
    elif kind == "nines":
        v = draw(st.sampled_from([9.99, 9.996, 99.95, 0.09995, 0.999999, 9.5, 0.95, -9.95, -0.9996])) * 10.0 ** draw(st.integers(-3, 3))
    elif kind == "zero":
        v = 0.0
    else:
        v = draw(st.floats(-1e6, 1e6, allow_nan=False, allow_subnormal=False))
        v = 0.0 if abs(v) < 1e-8 else v
    if v and draw(st.integers(0, 7)) == 0:  # Right beside a tie, or a limit
        v = np.nextafter(v, draw(st.sampled_from([-INF, INF])))
    return float(v)


pvals = st.one_of(
    st.sampled_from([0.0, 1.0, NAN, 0.05, 0.0001, 0.00005, 0.5, 0.25, 0.99995, 1e-300, 1e-5, 0.00011]), st.floats(0, 1), st.integers(0, 10000).map(lambda k: k / 10000.0), st.integers(1, 9999).map(lambda k: float(np.nextafter(k / 10000.0, 1.0 if k % 2 else 0.0)))
)


@st.composite
def cell(draw, lo=-8, hi=8):
    """[mean, error, p]"""
    mu = draw(number(lo, hi))
    EB = draw(st.one_of(number(lo, hi).map(abs), st.sampled_from([0.0, INF, NAN])))
    k = draw(st.integers(0, 14))
    if k == 0:
        mu, EB = draw(st.sampled_from([INF, -INF])), draw(st.sampled_from([INF, NAN]))
    elif k == 1:
        mu, EB = NAN, NAN
    elif k in (2, 3, 4) and np.isfinite(EB) and EB > 0:
        mu = EB * draw(st.sampled_from([10.0, 2.0, 0.1, 0.01, -0.5, 100.0]))  # Typical ratios
    return [mu, EB, draw(pvals)]


@st.composite
def table(draw, max_m=4, max_k=3, lo=-8, hi=8, big=False):
    meth = draw(names(1, max_m))
    mets = draw(names(1, max_k, tuple(METRICS)))
    n_col = 3 * len(mets)
    cells = [[draw(cell(lo, hi)) for _ in mets] for _ in meth]
    if big and draw(st.integers(0, 11)) == 0:
        # Many methods: the same rows over and over
        n = draw(st.integers(len(meth), 150))
        meth = ["%s-%d" % (meth[i % len(meth)], i) for i in range(n)]
        cells = [cells[i % len(cells)] for i in range(n)]
    return {
        "methods": meth,
        "metrics": mets,
        "cells": cells,
        "perm": draw(st.permutations(list(range(n_col)))) if draw(st.booleans()) else list(range(n_col)),
        "unused": draw(st.integers(0, 3)) == 0,
    }


def build_table(case):
    cols = [(m, s) for m in case["metrics"] for s in ("mean", "error", "p")]
    data = [[v for c in row for v in c] for row in case["cells"]]
    df = pd.DataFrame(data, index=pd.Index(case["methods"], name="method"), columns=pd.MultiIndex.from_tuples(cols, names=["metric", "stat"]), dtype=float)
    df = df[[cols[i] for i in case["perm"]]]
    return with_unused(df, ["aaa", "removed"], ["mean", "error"]) if case.get("unused") else df


# ============================================================================ C21


def decoys(draw, metrics, values):
    """Options of metrics that are not in the table, with names alike those that are."""
    res = {}
    if draw(st.integers(0, 3)) == 0:
        for m in metrics:
            k = draw(st.sampled_from([m.lower(), m.upper(), m + "2", m[:-1], m + " ", m.strip("_"), "other"]))
            if k and k not in metrics:
                res[k] = draw(values)
    return res


@st.composite
def dec_case(draw):
    c = draw(table(3, 2))
    c.update(
        err_digits=draw(st.sampled_from([None, 1, 2, 3, 5])),
        pval_digits=draw(st.sampled_from([None, 1, 2, 3, 4, 6])),
        default_digits=draw(st.sampled_from([None, 1, 2, 3, 5, 8])),
        EB_limit={m: draw(st.integers(-3, 4)) for m in c["metrics"] if draw(st.booleans())},
    )
    # Error bars that are at the limit once rounded, or next to it
    for j, m in enumerate(c["metrics"]):
        if m in c["EB_limit"]:
            for row in c["cells"]:
                if np.isfinite(row[j][0]) and draw(st.integers(0, 2)) == 0:
                    row[j][1] = 10.0 ** c["EB_limit"][m] * draw(st.sampled_from([1.0, 0.999999, 1.0000001, 0.99, 1.01, 0.9]))
    # Everything about a metric may be far from one
    for j, m in enumerate(c["metrics"]):
        k = draw(st.sampled_from([0, 0, 0, 0, -15, -30, -150, 12, 30, 150]))
        if k:
            for row in c["cells"]:
                row[j][0], row[j][1] = row[j][0] * 10.0 ** k, row[j][1] * 10.0 ** k
            if m in c["EB_limit"]:
                c["EB_limit"][m] += k
    c["EB_limit"].update(decoys(draw, c["metrics"], st.sampled_from([-200, -3, 0])))
    c["bad"] = draw(st.sampled_from(["error", "p above", "p below"])) if draw(st.integers(0, 19)) == 0 else None
    return c


def check_decimalize(case):
    df = build_table(case)
    kw = {k: case[k] for k in ("err_digits", "pval_digits", "default_digits") if case[k] is not None}
    lim = case["EB_limit"]
    if lim:
        kw["EB_limit"] = dict(lim)
    if case.get("bad"):
        col = (case["metrics"][-1], "error" if case["bad"] == "error" else "p")
        df.loc[case["methods"][-1], col] = {"error": -0.5, "p above": 1.2, "p below": -0.25}[case["bad"]]
        expect_raises(lambda: sp.decimalize(df, **kw), "table with %s out of range" % case["bad"])
        return ["refused"]
    df0 = df.copy()
    res = sp.decimalize(df, **kw)
    expect(df.equals(df0) and kw.get("EB_limit", {}) == lim, "input modified")
    expect(list(res.index) == list(df.index) and res.index.name == "method", "rows %s", list(res.index))
    expect(set(res.columns) == set(df.columns) and len(res.columns) == len(df.columns), "columns %s", list(res.columns))
    expect(list(res.columns.names) == ["metric", "stat"], "names of columns")
    ed, pd_, dd = case["err_digits"] or 2, case["pval_digits"] or 4, case["default_digits"] or 5
    lab = set()
    for i, meth in enumerate(case["methods"]):
        for j, met in enumerate(case["metrics"]):
            mu, EB, p = case["cells"][i][j]
            gm, ge, gp = [res.loc[meth, (met, s)] for s in ("mean", "error", "p")]
            expect(all(isinstance(v, Decimal) for v in (gm, ge, gp)), "entries are not Decimal")
            what = "%r +/- %r" % (mu, EB)
            # Error bar
            if math.isnan(EB):
                expect(ge.is_nan(), "%s: error bar %s", what, ge)
            else:
                want = INF if EB == INF else ceil_sig(Fraction(EB), ed)
                if want != INF and met in lim and want == pow10(lim[met]):
                    lab.add("at the error bar limit")
                if want != INF and met in lim and want > pow10(lim[met]):
                    want = INF
                    lab.add("error bar limit")
                if want == INF:
                    expect(ge.is_infinite() and ge > 0, "%s: error bar %s is not inf", what, ge)
                else:
                    expect(ge.is_finite() and Fraction(ge) == want, "%s: error bar is %s and not %s", what, ge, float(want))
                    expect(n_digits(ge) <= ed, "%s: error bar %s has more than %d digits", what, ge, ed)
            # Estimate
            if not np.isfinite(mu):
                expect(gm.is_nan() if math.isnan(mu) else gm == Decimal(mu), "estimate %r became %s", mu, gm)
                lab.add("non-finite")
            elif ge.is_finite() and ge != 0:
                e = ge.as_tuple().exponent
                expect(gm.is_finite() and gm.as_tuple().exponent == e, "%s: estimate %s and error bar %s have different precision", what, gm, ge)
                want = half_up_to(Fraction(mu), pow10(e))
                expect(Fraction(gm) == want, "%s: estimate is %s, error bar %s", what, gm, ge)
                lab.add("rounded to error")
            else:
                want = half_up_sig(Fraction(mu), dd)
                expect(gm.is_finite() and Fraction(gm) == want, "%s: estimate is %s and not %r (%d digits)", what, gm, float(want), dd)
                expect(n_digits(gm) <= dd, "%s: estimate %s has more than %d digits", what, gm, dd)
                lab.add("default digits")
            # p-value
            if math.isnan(p):
                expect(gp.is_nan(), "p-value %s", gp)
            else:
                expect(Fraction(gp) == ceil_to(Fraction(p), pow10(-pd_)), "p-value %r became %s", p, gp)
                expect(gp.as_tuple().exponent == -pd_, "p-value %s does not have %d digits", gp, pd_)
    return sorted(lab)


C21 = Prop(
    "C21",
    [Sub("rounding", lambda: dec_case(), check_decimalize, 1600, rule="each entry against rational arithmetic: error bar up to so many digits, estimate half up to the same digit, p-value up; limits, defaults, any column order; negative error bars and p-values out of range refused")],
    "Generated tables of floats (halves, nines, zeros, infinities, NaN, 16 decades) with every option. Oracle: rational arithmetic on the exact float. Non-trivial: some estimate was rounded.",
    ["An infinite estimate has an infinite or NaN error bar", "Estimates are less than 1e20 error bars, beyond what Decimal's 28 digits can show"],
)

# ---------------------------------------------------------------- decimals and printing


@st.composite
def dec_pair(draw, emax=2):
    e = draw(st.integers(-7, emax))
    mu = Decimal((draw(st.integers(0, 1)), tuple(int(c) for c in str(draw(st.one_of(st.integers(0, 30), st.integers(0, 9999999))))), e))
    kind = draw(st.sampled_from(["eb", "eb", "eb", "zero", "inf", "nan"]))
    if kind == "eb":
        EB = Decimal((0, tuple(int(c) for c in str(draw(st.integers(1, 999)))), e))
    else:
        EB = {"zero": Decimal((0, (0,), draw(st.integers(-3, 1)))), "inf": Decimal("Infinity"), "nan": Decimal("NaN")}[kind]
    k = draw(st.integers(0, 12))
    if k == 1:  # An exact power of ten, as limits are
        mu = Decimal((draw(st.integers(0, 1)), (1,) + (0,) * draw(st.integers(0, 5)), e))
    if k == 0:
        mu, EB = Decimal(draw(st.sampled_from(["Infinity", "-Infinity", "NaN"]))), Decimal(draw(st.sampled_from(["Infinity", "NaN"])))
    return [str(mu), str(EB)]


def plain(v, places):
    """Fixed notation of integer v / 10^places, with thousands separators."""
    sign, v = ("-", -v) if v < 0 else ("", v)
    s = str(v).rjust(places + 1, "0")
    ip, fp = (s[:-places], s[-places:]) if places else (s, "")
    ip = re.sub(r"(?<=\d)(?=(\d{3})+$)", ",", ip)
    return sign + ip + ("." + fp if places else "")


def fmt_dec(x, shift):
    """Own fixed notation of a finite Decimal times 10^shift."""
    sign, dig, e = x.as_tuple()
    places = -(e + shift)
    v = int("".join(map(str, dig)) or "0")
    s = plain(v if places >= 0 else v * 10 ** (-places), max(0, places))
    return ("-" if sign else "") + s


def fmt_estimate(mu, EB, shift, kmin, kmax, nf, below="<%s", above=">%s"):
    """Own version of what a cell should show, None if that is impossible."""
    if not mu.is_nan():
        if kmax is not None and mu > 0 and (mu.is_infinite() or Fraction(mu) > pow10(kmax)):
            return above % fmt_dec(Decimal((0, (1,), kmax)), shift)
        if kmin is not None and mu < 0 and (mu.is_infinite() or Fraction(mu) < -pow10(kmin)):
            return below % fmt_dec(Decimal((1, (1,), kmin)), shift)
    if not mu.is_finite():
        key = "nan" if mu.is_nan() else "inf" if mu > 0 else "-inf"
        return nf.get(key, key)
    if mu.as_tuple().exponent + shift > 0:
        return None
    s = fmt_dec(mu, shift)
    if EB.is_finite():
        s += "(%s)" % "".join(map(str, EB.as_tuple().digits))
    return s


def fmt_p(p, nf, below="<%s"):
    if p.is_nan():
        return nf.get("nan", "nan")
    e = p.as_tuple().exponent
    if Fraction(p) <= pow10(e):
        return below % fmt_dec(Decimal((0, (1,), e)), 0)
    return fmt_dec(p, 0)


def clipped(mu, kmin, kmax):
    if mu.is_nan():
        return True
    f = None if mu.is_infinite() else Fraction(mu)
    if mu.is_infinite():
        return True
    return (kmax is not None and f > pow10(kmax)) or (kmin is not None and f < -pow10(kmin))


def width(s):
    return len(s) - s.count(",") - s.count(".")


def best_shifts(pairs, mod):
    """All shifts that are optimal, by brute force (lists of finite decimals)."""
    if not pairs:
        return [0]
    top = min(-m.as_tuple().exponent for m, _ in pairs)
    top -= top % mod
    big = [lead_exp(Fraction(m)) for m, _ in pairs if m != 0]
    low = -max(big) if big else None
    cand = [k for k in range(top, (top if low is None else min(low, top)) - 1, -1) if k % mod == 0]
    ok = [k for k in cand if low is not None and k >= low]
    cand = ok or [top]
    w = {k: max(width(fmt_estimate(m, e, k, None, None, {})) for m, e in pairs) for k in cand}
    b = min(w.values())
    best = [k for k in cand if w[k] == b]
    a = min(abs(k) for k in best)
    return [k for k in best if abs(k) == a]


# ============================================================================ C22

nf_dicts = st.sampled_from([None, {}, {"nan": "--"}, {"inf": r"$\infty$", "-inf": r"$-\infty$", "nan": "--"}, {"inf": "N/A"}])


@st.composite
def print_case(draw):
    return {
        "pair": draw(dec_pair()),
        "shift": draw(st.integers(-6, 8)),
        "kmax": draw(st.one_of(st.none(), st.none(), st.integers(-3, 5))),
        "kmin": draw(st.one_of(st.none(), st.none(), st.integers(-3, 5))),
        "nf": draw(nf_dicts),
        "p": [draw(st.integers(0, 10 ** 4)), draw(st.integers(1, 4))],
        "pnan": draw(st.integers(0, 7)) == 0,
        "below": draw(st.sampled_from([None, None, "under %s", "%s or less", r"$<%s$"])),
        "above": draw(st.sampled_from([None, None, "over %s", "%s or more", r"$>%s$"])),
        "pbelow": draw(st.sampled_from([None, None, "under %s", r"$<%s$"])),
        "npint": draw(st.booleans()),
    }


NUM = re.compile(r"^(-?[0-9,]+(?:\.[0-9]+)?)(?:\(([0-9]+)\))?$")


def parse_cell(s):
    """(value, number of places, integer error or None)"""
    m = NUM.match(s)
    expect(m is not None, "cannot read %r as a number", s)
    t = m.group(1).replace(",", "")
    places = len(t.split(".")[1]) if "." in t else 0
    return Fraction(t), places, None if m.group(2) is None else int(m.group(2))


def check_print(case):
    mu, EB = [Decimal(v) for v in case["pair"]]
    shift = case["shift"]
    kmin, kmax, nf = case["kmin"], case["kmax"], case["nf"]
    kw = {}
    if kmax is not None:
        kw["max_clip"] = Decimal((0, (1,), kmax))
    if kmin is not None:
        kw["min_clip"] = Decimal((1, (1,), kmin))
    if nf is not None:
        kw["non_finite_fmt"] = nf
    texts = {k: case[k] for k in ("below", "above") if case.get(k)}
    kw.update({k + "_fmt": v.replace("%s", "{0:,f}") for k, v in texts.items()})
    want = fmt_estimate(mu, EB, shift, kmin, kmax, nf or {}, **texts)
    arg = np.int64(shift) if case["npint"] else shift
    lab = []
    if want is None:
        expect_raises(lambda: sp.print_estimate(mu, EB, arg, **kw), "%s not defined to the dot after shift %d" % (mu, shift), ValueError)
        lab.append("impossible")
    else:
        got = sp.print_estimate(mu, EB, arg, **kw)
        expect(got == want, "%s +/- %s with shift %d is shown as %r and not %r", mu, EB, shift, got, want)
        if shift == 0:
            expect(sp.print_estimate(mu, EB, **kw) == got, "default shift is not zero")
        if mu.is_finite() and not clipped(mu, kmin, kmax):
            v, places, e = parse_cell(got)
            expect(v / pow10(shift) == Fraction(mu), "%r reads as %s and not %s", got, v, mu)
            expect(places == -(mu.as_tuple().exponent + shift), "%r does not show all the digits of %s", got, mu)
            if EB.is_finite() and EB != 0:
                expect(e is not None and e * pow10(-places - shift) == Fraction(EB), "%r: error bar reads as %s and not %s", got, e, EB)
            elif not EB.is_finite():
                expect(e is None, "%r shows an error bar for %s", got, EB)
            lab.append("number")
        else:
            lab.append("clipped" if mu.is_finite() else "non-finite")
    n, d = case["p"]
    p = Decimal("NaN") if case["pnan"] else Decimal(n % (10 ** d + 1)).scaleb(-d)
    kw = {} if nf is None else {"non_finite_fmt": nf}
    if case.get("pbelow"):
        kw["below_fmt"] = case["pbelow"].replace("%s", "{0:,f}")
    got = sp.print_pval(p, **kw)
    expect(got == fmt_p(p, nf or {}, case.get("pbelow") or "<%s"), "p-value %s is shown as %r", p, got)
    if got.startswith("<"):
        expect(Fraction(p) <= Fraction(got[1:]), "p-value %s is shown as %r", p, got)
        lab.append("small p")
    return lab


@st.composite
def dec_table(draw):
    meth = draw(names(1, 4))
    mets = draw(names(1, 3, tuple(METRICS)))
    pd_ = draw(st.integers(1, 5))
    emax = draw(st.sampled_from([0, 0, 2]))
    cells = [[draw(dec_pair(emax)) + [draw(st.one_of(st.integers(0, 10 ** pd_), st.none()))] for _ in mets] for _ in meth]
    if draw(st.integers(0, 23)) == 0:
        n = draw(st.integers(len(meth), 150))
        meth = ["%s-%d" % (meth[i % len(meth)], i) for i in range(n)]
        cells = [cells[i % len(cells)] for i in range(n)]
    return {
        "methods": meth,
        "metrics": mets,
        "cells": cells,
        "pd": pd_,
        "mod": draw(st.sampled_from([None, 1, 1, 2, 3, 3])),
        "pad": draw(st.sampled_from([None, True, False])),
        "kmax": {m: draw(st.integers(-3, 4)) for m in mets if draw(st.integers(0, 3)) == 0},
        "kmin": {m: draw(st.integers(-3, 4)) for m in mets if draw(st.integers(0, 3)) == 0},
        "nf": draw(nf_dicts),
        "perm": draw(st.permutations(list(range(3 * len(mets))))) if draw(st.booleans()) else None,
        "unused": draw(st.integers(0, 3)) == 0,
    }


def last_digit(s):
    for ch in ".(":
        if ch in s:
            return s.index(ch) - 1
    return len(s) - 1


def expected_cells(dec, case_mod, kmin, kmax, nf):
    """{metric: (possible shifts, {shift: [cells]} )}, None if impossible."""
    out = {}
    for m in dict.fromkeys(c[0] for c in dec.columns):
        mus, EBs = list(dec[(m, "mean")]), list(dec[(m, "error")])
        lo, hi = kmin.get(m), kmax.get(m)
        keep = [(a, b) for a, b in zip(mus, EBs) if not clipped(a, lo, hi)]
        shifts = [0] if case_mod is None else best_shifts(keep, case_mod)
        cells = {k: [fmt_estimate(a, b, k, lo, hi, nf) for a, b in zip(mus, EBs)] for k in shifts}
        out[m] = (shifts, cells)
    return out


def build_dec(case):
    cols = [(m, s) for m in case["metrics"] for s in ("mean", "error", "p")]
    data = []
    for row in case["cells"]:
        r = []
        for mu, EB, p in row:
            r += [Decimal(mu), Decimal(EB), Decimal("NaN") if p is None else Decimal(p).scaleb(-case["pd"])]
        data.append(r)
    df = pd.DataFrame(data, index=pd.Index(case["methods"], name="method"), columns=pd.MultiIndex.from_tuples(cols, names=["metric", "stat"]), dtype=object)
    if case["perm"] is not None:
        df = df[[cols[i] for i in case["perm"]]]
    return with_unused(df, ["aaa", "removed"], ["mean", "error"]) if case.get("unused") else df


def check_format_table(case):
    df = build_dec(case)
    nf = case["nf"] or {}
    kw = {}
    if case["mod"] is not None:
        kw["shift_mod"] = case["mod"]
    if case["pad"] is not None:
        kw["pad"] = case["pad"]
    if case["kmax"]:
        kw["crap_limit_max"] = case["kmax"]
    if case["kmin"]:
        kw["crap_limit_min"] = case["kmin"]
    if case["nf"] is not None:
        kw["non_finite_fmt"] = case["nf"]
    want = expected_cells(df, case["mod"], case["kmin"], case["kmax"], nf)
    if any(c is None for _, cells in want.values() for v in cells.values() for c in v):
        expect(case["mod"] is None, "harness: no shift found")
        expect_raises(lambda: sp.format_table(df, **kw), "imprecise estimates without shift", ValueError)
        return ["impossible"]
    before = [str(v) for v in df.values.ravel()]
    res, shifts = sp.format_table(df, **kw)
    expect([str(v) for v in df.values.ravel()] == before, "input modified")
    expect(list(res.index) == case["methods"] and res.index.name == "method", "rows %s", list(res.index))
    cols = set((m, s) for m in case["metrics"] for s in ("estimate", "p"))
    expect(set(res.columns) == cols and len(res.columns) == len(cols) and list(res.columns.names) == ["metric", "stat"], "columns %s", list(res.columns))
    expect(set(shifts) == set(case["metrics"]), "shifts for %s", list(shifts))
    lab = set()
    for m, (ok, cells) in want.items():
        k = int(shifts[m])
        expect(k in ok, "%s: shift %d instead of %s", m, k, ok)
        got = list(res[(m, "estimate")])
        expect(all(isinstance(s, str) for s in got), "entries are not strings")
        expect([s.rstrip(" ") for s in got] == cells[k], "%s: shows %s and not %s", m, got, cells[k])
        if case["pad"] is not False:
            expect(len(set(len(s) - last_digit(s.rstrip()) for s in got)) == 1, "%s: decimal points of %s do not align", m, got)
            expect(any(not s.endswith(" ") for s in got), "%s: useless padding %s", m, got)
        else:
            expect(all(s == s.strip() for s in got), "padded although not asked")
        ps = list(res[(m, "p")])
        wp = [fmt_p(v, nf) for v in df[(m, "p")]]
        expect(ps == wp, "%s: p-values %s and not %s", m, ps, wp)
        lab.add("shifted" if k else "not shifted")
        if any(c.startswith((">", "<")) for c in cells[k]):
            lab.add("clipped")
    return sorted(lab)


@st.composite
def pad_case(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        mu, EB = [Decimal(v) for v in draw(dec_pair(0))]
        k = draw(st.integers(0, 9))
        out.append(fmt_estimate(mu, EB, 0, None, 2 if k == 0 else None, {"inf": draw(st.sampled_from(["--", "inf", r"\infty"]))}))
    return {"L": out, "pad": draw(st.sampled_from([None, " ", "~", "0"])), "as": draw(st.sampled_from(["list", "series"]))}


def check_pad(case):
    L = case["L"]
    arg = L if case["as"] == "list" else pd.Series(L, index=["r%d" % i for i in range(len(L))])
    got = list(sp.pad_num_str(arg) if case["pad"] is None else sp.pad_num_str(arg, pad=case["pad"]))
    ch = case["pad"] or " "
    expect(len(got) == len(L), "number of strings")
    right = [len(g) - last_digit(s) for g, s in zip(got, L)]
    for g, s in zip(got, L):
        expect(g.startswith(s) and g[len(s) :] == ch * (len(g) - len(s)), "%r padded to %r", s, g)
    expect(len(set(right)) == 1, "%s do not align", got)
    expect(any(g == s for g, s in zip(got, L)), "useless padding %s", got)
    return ["padded"] if any(g != s for g, s in zip(got, L)) else []


C22 = Prop(
    "C22",
    [
        Sub("cells", lambda: print_case(), check_print, 2400, rule="shown estimate and p-value against own fixed notation; reading it back gives estimate, precision and error bar"),
        Sub("tables", lambda: dec_table(), check_format_table, 960, rule="every cell of a formatted table, with limits, non-finite text, optimal shift and alignment"),
        Sub("padding", lambda: pad_case(), check_pad, 1200, rule="padding aligns the decimal points and is minimal"),
    ],
    "Generated decimals (sign, zeros, exponents, non-finite) with shifts, clip limits and texts. Non-trivial: every case, by label.",
    ["Estimate and error bar have the same last digit, as rounding gives them"],
)

# ============================================================================ C23


@st.composite
def shift_case(draw):
    pairs = []
    kind = draw(st.sampled_from(["any", "any", "close", "smalls", "bigs"]))
    for _ in range(draw(st.integers(1, 5))):
        if kind == "any":
            mu, EB = draw(dec_pair(3))
            if not Decimal(mu).is_finite():
                mu = "0.00"
        else:
            e = draw({"close": st.integers(-4, -2), "smalls": st.integers(-14, -8), "bigs": st.integers(3, 9)}[kind])
            mu = str(Decimal((draw(st.integers(0, 1)), tuple(int(c) for c in str(draw(st.integers(0, 9999)))), e)))
            EB = str(Decimal((0, tuple(int(c) for c in str(draw(st.integers(1, 99)))), e)))
        pairs.append([mu, EB])
    times = [draw(st.sampled_from([1, 1, 1, 30, 150, 300])) for _ in pairs] if draw(st.integers(0, 11)) == 0 else [1] * len(pairs)
    return {"pairs": pairs, "times": times, "mod": draw(st.sampled_from([None, 1, 1, 2, 3, 3, 5])), "empty": draw(st.integers(0, 40)) == 0}


def check_shift(case):
    uniq = [(Decimal(a), Decimal(b)) for a, b in case["pairs"]]
    P = [] if case["empty"] else [q for q, t in zip(uniq, case.get("times", [1] * len(uniq))) for _ in range(t)]
    mod = case["mod"] or 1
    kw = {} if case["mod"] is None else {"shift_mod": mod}
    got = sp.find_shift([a for a, _ in P], [b for _, b in P], **kw)
    expect(got == int(got), "shift %r is not an integer", got)
    got = int(got)
    expect(got % mod == 0, "shift %d is not a multiple of %d", got, mod)
    if not P:
        expect(got == 0, "shift %d without any estimate", got)
        return []
    expect(all(a.as_tuple().exponent + got <= 0 for a, _ in P), "shift %d: not all estimates are defined to the dot", got)
    ok = best_shifts(uniq, mod)
    expect(got in ok, "shift %d, but %s gives the narrowest column", got, ok)
    lo, hi, small = sp.get_shift_range([a for a, _ in P], **kw)
    expect(lo <= got <= hi and lo % mod == 0 and hi % mod == 0, "shift %d outside of the range %r..%r", got, lo, hi)
    expect(all(a.as_tuple().exponent + hi <= 0 for a, _ in P) and any(a.as_tuple().exponent + hi + mod > 0 for a, _ in P), "largest shift %r", hi)
    lab = ["shift 0" if got == 0 else "shifted"]
    big = [lead_exp(Fraction(a)) for a, _ in P if a != 0]
    if not any(b + got >= 0 for b in big):
        lab.append("all small")
    if len(P) > 20:
        lab.append("many estimates")
    return lab


C23 = Prop(
    "C23",
    [Sub("optimal", lambda: shift_case(), check_shift, 3200, rule="shift against brute force over all shifts: multiple of the modulus, all digits shown, something >= 1 if possible, narrowest, then smallest")],
    "Generated lists of decimals with mixed exponents. Oracle: brute force with own printing. Non-trivial: non-empty lists.",
    ["Between k and -k of the same width either is accepted"],
)

# ============================================================================ C24

SI = {"y": -24, "z": -21, "a": -18, "f": -15, "p": -12, "n": -9, "u": -6, "m": -3, "c": -2, "d": -1, "": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21, "Y": 24}
SI_OF = {v: k for k, v in SI.items()}
UNITS = ["s", "m", "bits", "nats", "g"]


def header(metric, stat, shift, unit, use_prefix, tex):
    name = metric.replace("_", " ")
    if stat == "p":
        h = "p"
    else:
        pre = SI_OF.get(-shift)
        if pre == "u" and tex:
            pre = r"$\mu$"
        if unit is not None and use_prefix and pre is not None:
            h = "%s (%s%s)" % (name, pre, unit)
        else:
            h = name
            if shift:
                h += (r" $\times 10^{%d}$" if tex else " x 1e%d") % shift
            if unit is not None:
                h += " (%s)" % unit
    return "{%s}" % h if tex else h


@st.composite
def header_case(draw):
    mets = draw(names(1, 4, tuple(METRICS) + ("zero_one_loss", "zero one loss", "_x_", " x ", "AUC")))
    cols = [[m, s] for m in mets for s in ("estimate", "p")]
    return {
        "cols": draw(st.permutations(cols)) if draw(st.booleans()) else cols,
        "shifts": {m: draw(st.one_of(st.just(0), st.integers(-27, 27), st.sampled_from([3, -3, 6, 9, -6, 1, 2, -2, 24, -24]))) for m in mets},
        "units": {m: draw(st.sampled_from(UNITS)) for m in mets if draw(st.booleans())},
        "prefix": draw(st.sampled_from([None, True, False])),
        "tex": draw(st.sampled_from([None, True, False])),
        "npint": draw(st.booleans()),
        "as_index": draw(st.booleans()),
    }


def check_headers(case):
    cols = [tuple(c) for c in case["cols"]]
    shifts = {m: (np.int64(k) if case["npint"] else k) for m, k in case["shifts"].items()}
    kw = {}
    if case["prefix"] is not None:
        kw["use_prefix"] = case["prefix"]
    if case["tex"] is not None:
        kw["use_tex"] = case["tex"]
    arg = pd.MultiIndex.from_tuples(cols, names=["metric", "stat"]) if case["as_index"] else cols
    got = list(sp.adjust_headers(arg, shifts, dict(case["units"]), **kw))
    prefix, tex = case["prefix"] is not False, bool(case["tex"])
    want = [header(m, s, case["shifts"][m], case["units"].get(m), prefix, tex) for m, s in cols]
    expect(got == want, "headers %s and not %s", got, want)
    lab = []
    # What is shown times the multiplier in the header is the original
    for (m, s), h in zip(cols, got):
        if s == "p":
            continue
        h = h[1:-1] if tex else h
        k = 0
        mt = re.search(r"\$\\times 10\^\{(-?\d+)\}\$" if tex else r" x 1e(-?\d+)", h)
        if mt:
            k = int(mt.group(1))
            lab.append("power")
        elif case["units"].get(m) is not None:
            u = re.search(r"\(([^()]*)\)$", h).group(1)
            expect(u.endswith(case["units"][m]), "unit of %r", h)
            pre = u[: len(u) - len(case["units"][m])].replace(r"$\mu$", "u")
            expect(pre in SI, "unknown prefix in %r", h)
            k = -SI[pre]
            if pre:
                lab.append("prefix")
        expect(k == case["shifts"][m], "header %r for shift %d", h, case["shifts"][m])
    return sorted(set(lab)) or (["unit"] if case["units"] else [])


C24 = Prop(
    "C24",
    [Sub("headers", lambda: header_case(), check_headers, 2400, rule="header text against own composition; the multiplier or SI prefix in it undoes the shift")],
    "Generated headers, shifts in -27..27, units, text and TeX. Non-trivial: some header has a power, prefix or unit.",
)

# ============================================================================ C25


class Latex(object):
    """Stand-in for the LaTeX export of pandas when jinja2 is not installed."""

    def __init__(self):
        try:
            import jinja2  # noqa: F401

            self.need = False
        except ImportError:
            self.need = True

    def __enter__(self):
        if self.need:
            self.orig = pd.DataFrame.to_latex

            def to_latex(df, buf=None, escape=True, column_format=None, index_names=True, index=True, **kw):
                def esc(s):
                    return s if escape is False else re.sub(r"([_$%&{}^~#])", r"\\\1", s)

                lines = [r"\begin{tabular}{%s}" % column_format, r"\toprule"]
                lines.append(" & ".join([""] + [esc(str(c)) for c in df.columns]) + r" \\")
                lines.append(r"\midrule")
                for ix, row in zip(df.index, df.values):
                    lines.append(" & ".join([esc(str(ix))] + [esc(str(v)) for v in row]) + r" \\")
                return "\n".join(lines + [r"\bottomrule", r"\end{tabular}", ""])

            pd.DataFrame.to_latex = to_latex
        return self

    def __exit__(self, *a):
        if self.need:
            pd.DataFrame.to_latex = self.orig


@st.composite
def just_case(draw):
    c = draw(table(4, draw(st.sampled_from([3, 3, 3, 7])), -5, 4, big=True))
    c["methods"] = [m.replace(" ", "-") for m in c["methods"]]
    mets = c["metrics"]
    c.update(
        units=draw(st.one_of(st.none(), st.just({m: draw(st.sampled_from(UNITS)) for m in mets if draw(st.booleans())}))),
        mod=draw(st.sampled_from([None, 1, 3, 3])),
        kmax={m: draw(st.integers(-1, 4)) for m in mets if draw(st.integers(0, 3)) == 0},
        kmin={m: draw(st.integers(-1, 4)) for m in mets if draw(st.integers(0, 5)) == 0},
        EB_limit={m: draw(st.integers(-2, 3)) for m in mets if draw(st.integers(0, 2)) == 0},
        nf=draw(nf_dicts),
        tex=draw(st.sampled_from([None, False, True])),
        prefix=draw(st.sampled_from([None, True, False])),
    )
    if c["units"] is not None:
        c["units"].update(decoys(draw, mets, st.sampled_from(UNITS)))
    for key in ("kmax", "kmin", "EB_limit"):
        c[key].update(decoys(draw, mets, st.integers(-2, 1)))
    return c


def split_text(out, n_rows, n_cols):
    lines = out.split("\n")
    expect(len(lines) == n_rows + 1, "%d lines for %d methods", len(lines), n_rows)
    body = []
    for ln in lines[1:]:
        t = [(m.group(0), m.start()) for m in re.finditer(r"\S+", ln)]
        expect(len(t) == n_cols + 1, "row %r does not have %d entries", ln, n_cols)
        body.append(t)
    return lines[0], body


def split_latex(out, n_rows, n_cols, n_met):
    m = re.search(r"\\begin\{tabular\}\{([^}]*)\}", out)
    expect(m is not None, "no tabular")
    expect(re.sub(r"[| ]", "", m.group(1)) == "l" + "Sr" * n_met, "alignment %r", m.group(1))
    rows = [ln for ln in out.split("\n") if ln.rstrip().endswith(r"\\")]
    expect(len(rows) == n_rows + 1, "%d lines for %d methods", len(rows), n_rows)
    cells = [[c.strip() for c in re.sub(r"\\\\\s*$", "", ln).split(" & ")] for ln in rows]
    expect(all(len(c) == n_cols + 1 for c in cells), "number of entries")
    return cells[0], cells[1:]


def check_just(case):
    df = build_table(case)
    kw = {}
    for key, name in (("units", "unit_dict"), ("mod", "shift_mod"), ("nf", "non_finite_fmt"), ("tex", "use_tex"), ("prefix", "use_prefix")):
        if case[key] is not None:
            kw[name] = case[key]
    for key, name in (("kmax", "crap_limit_max"), ("kmin", "crap_limit_min"), ("EB_limit", "EB_limit")):
        if case[key]:
            kw[name] = case[key]
    nf = case["nf"] or {}
    dec = sp.decimalize(df, **({"EB_limit": case["EB_limit"]} if case["EB_limit"] else {}))
    want = expected_cells(dec, case["mod"], case["kmin"], case["kmax"], nf)
    df0 = df.copy()
    with Latex():
        if any(c is None for _, cells in want.values() for v in cells.values() for c in v):
            expect_raises(lambda: sp.just_format_it(df, **kw), "imprecise estimates without shift", ValueError)
            return ["impossible"]
        out = sp.just_format_it(df, **kw)
    expect(isinstance(out, str), "not a string")
    expect(df.equals(df0), "input modified")
    mets = sorted(case["metrics"])
    seen = list(dict.fromkeys(c[0] for c in df.columns))
    if not case.get("unused") or seen == mets:
        return verify_just(case, df, dec, want, out, mets)
    try:  # Either order of metrics will do then
        return verify_just(case, df, dec, want, out, mets)
    except Violation:
        return verify_just(case, df, dec, want, out, seen)


def verify_just(case, df, dec, want, out, mets):
    nf, units = case["nf"] or {}, case["units"] or {}
    tex, prefix = bool(case["tex"]), case["prefix"] is not False
    n_met = len(mets)
    lab = set(["tex" if tex else "text"])
    if tex:
        head, body = split_latex(out, len(df), 2 * n_met, n_met)
        body = [[(c, 0) for c in row] for row in body]
        orders = {m: (2 * i, 2 * i + 1) for i, m in enumerate(mets)}
    else:
        head, body = split_text(out, len(df), 2 * n_met)
        orders = {m: (2 * i, 2 * i + 1) for i, m in enumerate(mets)}
    expect([r[0][0] for r in body] == case["methods"], "rows are %s", [r[0][0] for r in body])
    chosen = []
    for m in mets:
        shifts, cells = want[m]
        i, j = orders[m]
        got = [r[1 + i][0] for r in body]
        hit = [k for k in shifts if cells[k] == got]
        expect(hit, "%s shows %s and not %s", m, got, [cells[k] for k in shifts])
        gp = [r[1 + j][0] for r in body]
        expect(gp == [fmt_p(v, nf) for v in dec[(m, "p")]], "p-values of %s: %s", m, gp)
        hs = [(k, header(m, "estimate", k, units.get(m), prefix, tex)) for k in hit]
        chosen.append(hs)
        if not tex:
            # Decimal points line up
            pos = set(r[1 + i][1] + last_digit(r[1 + i][0]) for r in body)
            expect(len(pos) == 1, "decimal points of %s do not line up", m)
        # Reading the table back gives the numbers put in
        for row, meth in zip(got, case["methods"]):
            mu, EB, _ = case["cells"][case["methods"].index(meth)][case["metrics"].index(m)]
            if not np.isfinite(mu) or row.startswith((">", "<")):
                continue
            v, places, e = parse_cell(row)
            k = hit[0]
            q = pow10(-places - k)
            expect(abs(v / pow10(k) - Fraction(mu)) <= q / 2, "%r shown as %r (shift %d)", mu, row, k)
            if e is not None:
                if EB > 0:
                    expect(Fraction(EB) <= e * q < Fraction(EB) * Fraction(12, 10) + q * Fraction(1, 10 ** 6), "error %r shown as %r (shift %d)", EB, row, k)
                else:
                    expect(e == 0, "error %r shown as %r", EB, row)
            lab.add("read back")
        if hit[0]:
            lab.add("shifted")
    import itertools

    ok = False
    for combo in itertools.product(*chosen):
        hd = []
        for m, (k, h) in zip(mets, combo):
            hd += [h, header(m, "p", k, None, prefix, tex)]
        if tex:
            ok |= head[1:] == hd
        else:
            ok |= head.split() == " ".join(hd).split()
    expect(ok, "header %r, expected %r", head, [c[0][1] for c in chosen])
    return sorted(lab)


C25 = Prop(
    "C25",
    [Sub("end_to_end", lambda: just_case(), check_just, 1200, rule="text and LaTeX are parsed: headers, methods, every estimate, error bar and p-value; numbers read back to within rounding; decimal points line up")],
    "Generated tables of floats with all options of the one stop formatting call. Non-trivial: every case, by label.",
    ["LaTeX layout is made by a stand-in for the pandas export when jinja2 is not installed (as here)", "Method names have no spaces, so that text can be parsed"],
)

PROPS = [C21, C22, C23, C24, C25]
