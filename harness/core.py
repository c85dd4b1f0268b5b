"""Property runner: drives executable checks with Hypothesis, in parallel.

A sub-check is a strategy that makes a plain JSON-able ``case`` and a function
``check(case)`` that exercises /repo's public API and compares it to an oracle.
The check returns a list of labels (empty list = trivial case) and raises on
any disagreement.  Whatever fails is shrunk by Hypothesis and saved as JSON, so
it can be replayed without Hypothesis (``run.py <id> --replay FILE``).
"""
import collections
import decimal
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib

CASE_TIMEOUT_S = 150  # One case normally takes milliseconds.
SHRINK_BUDGET_S = 25
N_SAMPLES = 4


class Violation(Exception):
    pass


class Hang(Exception):
    pass


def expect(cond, msg, *args):
    """Raise a violation unless cond (must be a genuine truth value)."""
    if not bool(cond):
        raise Violation(msg % args if args else msg)


class Sub(object):
    """One generated check of a property."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule="", max_shards=8):
        self.name = name
        self.strategy = strategy  # zero argument callable that builds it
        self.check = check
        self.quick = quick
        self.thorough = quick * 20 if thorough is None else thorough
        self.rule = rule
        self.max_shards = max_shards


class Prop(object):
    def __init__(self, pid, subs, rule, assumptions=()):
        self.pid = pid
        self.subs = subs
        self.rule = rule
        self.assumptions = list(assumptions)

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise KeyError(name)


def case_json(case):
    return json.dumps(case, sort_keys=True)


def _on_alarm(signum, frame):
    raise Hang("no answer within %d s" % CASE_TIMEOUT_S)


_CTX = decimal.Context(
    prec=28,
    rounding=decimal.ROUND_HALF_EVEN,
    Emin=-999999,
    Emax=999999,
    capitals=1,
    clamp=0,
    flags=[],
    traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow],
)


def run_case(check, case):
    """Run one case in a reset environment: the outcome depends on case only."""
    import numpy as np

    s = zlib.crc32(case_json(case).encode()) & 0x7FFFFFFF
    np.random.seed(s)
    random.seed(s)
    decimal.setcontext(_CTX.copy())
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            labels = check(case)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return list(labels or [])


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in tb:
        if "/repo/mlpaper/" in fr.filename:
            where = "%s:%d in %s" % (fr.filename, fr.lineno, fr.name)
    if isinstance(exc, Violation):
        return str(exc)
    return "%s: %s%s\n%s" % (
        type(exc).__name__,
        exc,
        " [raised through %s on a valid input]" % where if where else "",
        "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-4:]),
    )


def _seed_for(seed, pid, name, shard):
    h = hashlib.sha256(("%d|%s|%s|%d" % (seed, pid, name, shard)).encode()).digest()
    return int.from_bytes(h[:8], "big")


_SHARED = {}


def _run_task(task):
    """Run a shard of a sub-check, in a worker process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    sub_idx, shard, n_ex, seed, t_end = task
    prop = _SHARED["prop"]
    stop = _SHARED["stop"]
    sub = prop.subs[sub_idx]
    res = dict(
        sub=sub.name, shard=shard, evals=0, skipped=0, hashes=set(), labels=collections.Counter(), samples=[], fail=None, error=None
    )
    fails = {}  # size -> best failing
    state = {"first": None}

    def body(case):
        now = time.time()
        if state["first"] is None:
            if stop.is_set() or now > t_end:
                res["skipped"] += 1
                return
        elif now - state["first"] > SHRINK_BUDGET_S:
            return
        js = case_json(case)
        try:
            labels = run_case(sub.check, json.loads(js))
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as exc:
            if state["first"] is None:
                state["first"] = time.time()
                stop.set()
            key = len(js)
            if not fails or key <= min(fails):
                fails[key] = (json.loads(js), describe(exc))
            raise Violation(sub.name)
        if state["first"] is not None:
            return
        res["evals"] += 1
        for lab in labels:
            res["labels"][lab] += 1
        if labels:
            h = hashlib.md5(js.encode()).digest()[:8]
            if h not in res["hashes"]:
                res["hashes"].add(h)
                if len(res["samples"]) < N_SAMPLES and len(js) < 1500 and res["evals"] % 7 == 3:
                    res["samples"].append(json.loads(js))
        else:
            res["labels"]["(trivial)"] += 1

    test = given(sub.strategy())(body)
    test = settings(
        max_examples=n_ex,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )(test)
    test = hypothesis.seed(_seed_for(seed, prop.pid, sub.name, shard))(test)
    try:
        with open(os.devnull, "w") as devnull:
            out, err = sys.stdout, sys.stderr
            sys.stdout = devnull
            try:
                test()
            finally:
                sys.stdout, sys.stderr = out, err
    except BaseException as exc:  # noqa: B902
        if not fails:
            res["error"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    if fails:
        res["fail"] = fails[min(fails)]
    return res


def run_prop(prop, tier, seed, verif_dir, jobs=None):
    """Run all sub-checks of the property; returns the exit code."""
    import multiprocessing as mp

    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    budget = 420 if tier == "quick" else 5400
    ctx = mp.get_context("fork")
    _SHARED["prop"] = prop
    _SHARED["stop"] = ctx.Event()
    t_end = t0 + budget
    tasks = []
    for ii, sub in enumerate(prop.subs):
        total = sub.quick if tier == "quick" else sub.thorough
        # The number of shards is fixed, so a run does not depend on the host.
        n_shards = max(1, min(sub.max_shards, total // 10))
        for shard in range(n_shards):
            n_ex = total // n_shards + (1 if shard < total % n_shards else 0)
            tasks.append((ii, shard, n_ex, seed, t_end))
    if jobs == 1:
        results = [_run_task(t) for t in tasks]
    else:
        pool = ctx.Pool(jobs)
        try:
            asyncs = [pool.apply_async(_run_task, (t,)) for t in tasks]
            results = []
            for a in asyncs:
                # A worker that dies (out of memory) would block get() forever.
                results.append(a.get(timeout=max(60.0, t_end + 300 - time.time())))
        finally:
            pool.terminate()
            pool.join()

    by_sub = collections.OrderedDict()
    for sub in prop.subs:
        by_sub[sub.name] = dict(evaluations=0, distinct_nontrivial=0, labels=collections.Counter(), hashes=set(), samples=[], skipped=0)
    failures, errors = [], []
    for r in results:
        b = by_sub[r["sub"]]
        b["evaluations"] += r["evals"]
        b["skipped"] += r["skipped"]
        b["labels"].update(r["labels"])
        b["hashes"] |= r["hashes"]
        b["samples"] += r["samples"]
        if r["fail"]:
            failures.append((r["sub"],) + tuple(r["fail"]))
        if r["error"]:
            errors.append((r["sub"], r["error"]))

    lines = []
    samples = []
    sub_cov = {}
    for name, b in by_sub.items():
        b["distinct_nontrivial"] = len(b["hashes"])
        sub_cov[name] = dict(
            evaluations=b["evaluations"],
            distinct_nontrivial=b["distinct_nontrivial"],
            labels=dict(b["labels"].most_common()),
            what=prop.sub(name).rule,
        )
        if b["skipped"]:
            sub_cov[name]["skipped_budget_or_stop"] = b["skipped"]
        samples += [dict(sub=name, case=c) for c in b["samples"][:2]]
        lines.append("  %-28s %6d cases, %6d distinct non-trivial" % (name, b["evaluations"], b["distinct_nontrivial"]))

    known, reported = [], []
    findings = load_known(verif_dir)
    replay_dir = os.path.join(verif_dir, "replays")
    for name, case, msg in failures:
        hit = [f for f in findings if f.get("property") == prop.pid and f.get("sub") == name and f.get("case") == case]
        if hit:
            known.append(hit[0])
            continue
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, "%s-%s-%08x.json" % (prop.pid, name, zlib.crc32(case_json(case).encode())))
        with open(path, "w") as fh:
            json.dump(dict(property=prop.pid, sub=name, case=case, message=msg, tier=tier, seed=seed), fh, indent=1)
        reported.append((path, name, msg))

    ev = dict(
        property=prop.pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(b["evaluations"] for b in by_sub.values()),
            distinct_nontrivial=sum(b["distinct_nontrivial"] for b in by_sub.values()),
            rule=prop.rule,
            samples=samples,
            sub_checks=sub_cov,
        ),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(reported),
    )
    ev_dir = os.path.join(verif_dir, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    with open(os.path.join(ev_dir, prop.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    print("%s tier=%s seed=%d wall=%.1fs" % (prop.pid, tier, seed, time.time() - t0))
    print("\n".join(lines))
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.pid, f.get("what", "")))
    for path, name, msg in reported:
        print("FAILED %s: %s" % (name, msg))
        print("VIOLATION property=%s replay=%s" % (prop.pid, path))
    if reported:
        return 1
    if errors:
        for name, err in errors:
            print("HARNESS ERROR in %s:\n%s" % (name, err))
        return 2
    return 0


def load_known(verif_dir):
    path = os.path.join(verif_dir, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh).get("findings", [])


def replay(prop, path):
    with open(path) as fh:
        rec = json.load(fh)
    sub = prop.sub(rec["sub"])
    try:
        labels = run_case(sub.check, rec["case"])
    except Exception as exc:
        print("FAILED %s: %s" % (sub.name, describe(exc)))
        print("VIOLATION property=%s replay=%s" % (prop.pid, path))
        return 1
    print("replay of %s passes, labels %s" % (path, labels))
    return 0
