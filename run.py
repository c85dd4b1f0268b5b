#!/usr/bin/env python
"""run.py <property id> [--tier quick|thorough] [--replay FILE] [--sub NAME]"""
import os
import sys

sys.dont_write_bytecode = True
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def main(argv):
    import argparse
    import importlib
    import warnings

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args(argv)

    sys.path.insert(0, REPO)
    sys.path.insert(1, HERE)
    sys.path.insert(2, os.path.join(HERE, "vendor"))
    warnings.simplefilter("ignore")
    import joblib  # noqa: F401
    import pandas  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.stats  # noqa: F401

    # No byte code of /repo is ever read (or written): only its current sources.
    sys.pycache_prefix = os.path.join(HERE, "no-such-cache")
    import mlpaper
    import mlpaper.classification
    import mlpaper.data_splitter
    import mlpaper.regression
    import mlpaper.sciprint  # noqa: F401

    sys.pycache_prefix = None

    root = os.path.realpath(os.path.dirname(os.path.dirname(mlpaper.__file__)))
    if root != os.path.realpath(REPO):
        print("mlpaper imported from %s and not %s" % (root, REPO))
        return 2
    from harness import core
    from checks import REGISTRY

    pid = args.property
    mod = importlib.import_module("checks." + REGISTRY[pid])
    prop = [p for p in mod.PROPS if p.pid == pid][0]
    from checks.large import EXTRA

    prop.subs = list(prop.subs) + EXTRA.get(pid, [])
    if args.replay:
        return core.replay(prop, args.replay)
    if args.sub:
        prop.subs = [s for s in prop.subs if s.name == args.sub]
    for s in prop.subs:
        s.quick = int(s.quick * args.scale)
        s.thorough = int(s.thorough * args.scale)
    return core.run_prop(prop, args.tier, args.seed, HERE, jobs=args.jobs)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
