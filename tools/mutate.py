#!/usr/bin/env python
"""Mutation testing of the checks (by hand only; nothing registered uses it).

mutate.py list                      print all mutants
mutate.py run OUT.jsonl [--only FILE[:FUNC]] [--scale S] [--jobs N] [--sample K]

Each mutant is put in a scratch copy of /repo/mlpaper, and the checks whose
code may reach it are run on it with --jobs 1 until one reports a violation.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/mlpaper"
CHECKS = {
    "boot_util.py": "C16 C12 C20 C13 C15".split(),
    "mlpaper.py": "C14 C10 C11 C12 C13 C15 C09 C30".split(),
    "classification.py": "C01 C02 C03 C04 C06 C08 C20 C09 C30".split(),
    "regression.py": "C05 C07 C08 C03 C09 C30".split(),
    "perf_curves.py": "C17 C18 C20".split(),
    "util.py": "C31 C19 C01 C04 C14 C18 C32".split(),
    "sciprint.py": "C21 C22 C23 C24 C25 C32 C30".split(),
    "data_splitter.py": "C26 C27 C28 C29 C30".split(),
    "constants.py": "C04 C15 C20 C21 C25 C09".split(),
}
NAME_SWAP = {
    "maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max", "fmax": "fmin", "fmin": "fmax", "any": "all", "all": "any",
    "ceil": "floor", "floor": "ceil", "ROUND_UP": "ROUND_HALF_UP", "ROUND_HALF_UP": "ROUND_HALF_EVEN", "argmin": "argmax", "mean": "median",
    "isfinite": "isinf", "nansum": "sum", "true_divide": "floor_divide", "diff": "ediff1d", "zeros": "ones", "is_finite": "is_nan", "isnan": "isinf",
    "ceil_mod": "floor_mod", "floor_mod": "ceil_mod",
}
STR_SWAP = {"left": "right", "right": "left", "lower": "higher", "higher": "lower", "previous": "linear", "linear": "previous", "first": "last", "last": "first"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
CMP2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<=", ast.Eq: "<=", ast.NotEq: "<"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants_of(fname):
    src = open(os.path.join(SRC, fname)).read()
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    tree = ast.parse(src)
    out = []

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def add(n, new, kind, func, sp=None):
        a, b = sp or span(n)
        if raw[a:b].decode() != new:
            out.append(dict(file=fname, a=a, b=b, old=raw[a:b].decode(), new=new, line=n.lineno, kind=kind, func=func))

    def visit(n, func, in_assert):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = n.name if func == "" else func + "." + n.name
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    visit(d, func, False)
                for d in n.decorator_list:
                    visit(d, func, False)
            for s in body:
                visit(s, func, False)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Assert):
            add(n, "pass", "drop assert", func)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            add(n, "pass", "drop raise", func)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            for tbl in (CMP, CMP2):
                o = tbl.get(type(n.ops[0]))
                if o:
                    add(n, "(%s) %s (%s)" % (l, o, r), "cmp", func)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "binop", func)
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                add(n, "(%s)" % text(n.left), "drop right operand", func)
        if isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + j.join("(%s)" % text(v) for v in n.values) + ")", "boolop", func)
            for i in range(len(n.values)):
                k = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + k.join("(%s)" % text(v) for j2, v in enumerate(n.values) if j2 != i) + ")", "drop clause", func)
        if isinstance(n, ast.UnaryOp):
            add(n, "(%s)" % text(n.operand), "drop unary", func)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "bool", func)
            elif isinstance(v, (int, float)):
                add(n, "(%r)" % (v + 1), "const", func)
                if v:
                    add(n, "(%r)" % (v - 1), "const", func)
                if isinstance(v, float) and v:
                    add(n, "(%r)" % (v * 1.03), "const", func)
            elif v is None:
                pass
            elif isinstance(v, str) and v in STR_SWAP:
                add(n, repr(STR_SWAP[v]), "str", func)
            return
        if isinstance(n, ast.Attribute) and n.attr in NAME_SWAP:
            add(n, text(n.value) + "." + NAME_SWAP[n.attr], "name", func)
        if isinstance(n, ast.Name) and n.id in NAME_SWAP and isinstance(n.ctx, ast.Load):
            add(n, NAME_SWAP[n.id], "name", func)
        if isinstance(n, ast.Call):
            for kw in n.keywords:
                args = [text(a) for a in n.args] + ["%s%s" % (k.arg + "=" if k.arg else "**", text(k.value)) for k in n.keywords if k is not kw]
                add(n, "%s(%s)" % (text(n.func), ", ".join(args)), "drop keyword %s" % kw.arg, func)
            if len(n.args) >= 1:
                add(n, "(%s)" % text(n.args[0]), "call to arg", func)
            if len(n.args) == 2:
                add(n, "%s(%s)" % (text(n.func), ", ".join([text(n.args[1]), text(n.args[0])] + ["%s%s" % (k.arg + "=" if k.arg else "**", text(k.value)) for k in n.keywords])), "swap args", func)
                add(n, "(%s)" % text(n.args[1]), "call to arg 2", func)
        if isinstance(n, ast.IfExp):
            add(n, "(%s)" % text(n.body), "ifexp", func)
            add(n, "(%s)" % text(n.orelse), "ifexp", func)
        if isinstance(n, ast.If):
            add(n.test, "True", "if true", func)
            add(n.test, "False", "if false", func)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, "(%s)" % text(n.value) if isinstance(n.ctx, ast.Load) else text(n), "drop slice", func)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and func:
            tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(n, ast.AugAssign) or isinstance(tgt, (ast.Subscript, ast.Attribute)) or (isinstance(tgt, ast.Name) and any(isinstance(m, ast.Name) and m.id == tgt.id for m in ast.walk(n.value))):
                add(n, "pass", "drop statement", func)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop statement", func)
        if isinstance(n, ast.Continue) or isinstance(n, ast.Break):
            add(n, "pass", "drop statement", func)
        for c in ast.iter_child_nodes(n):
            visit(c, func, in_assert)

    for s in tree.body:
        visit(s, "", False)
    good, seen = [], set()
    for m in out:
        new = (raw[: m["a"]] + m["new"].encode() + raw[m["b"] :]).decode()
        if new in seen or new == src:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        m["src"] = new
        good.append(m)
    return good


def all_mutants(only):
    out = []
    for f in sorted(CHECKS):
        if only and only.split(":")[0] != f:
            continue
        for i, m in enumerate(mutants_of(f)):
            if only and ":" in only and not m["func"].startswith(only.split(":")[1]):
                continue
            m["id"] = "%s#%d" % (f, i)
            out.append(m)
    return out


PREF = {}
LOCK = threading.Lock()


def run_one(m, base, verif, scale):
    w = tempfile.mkdtemp(dir=base)
    try:
        shutil.copytree(SRC, w + "/mlpaper", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(w, "mlpaper", m["file"]), "w").write(m["src"])
        order = list(CHECKS[m["file"]])
        with LOCK:
            pref = PREF.get((m["file"], m["func"]), {})
            order.sort(key=lambda c: -pref.get(c, 0))
        env = dict(os.environ, VERIF_REPO=w, PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
        caught, why = None, ""
        t0 = time.time()
        for c in order:
            try:
                r = subprocess.run(["/opt/venv/bin/python", verif + "/run.py", c, "--jobs", "1", "--scale", str(scale)], env=env, capture_output=True, text=True, timeout=900)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = 99, "timeout"
            if rc != 0:
                caught = c
                why = "rc=%d %s" % (rc, next((ln for ln in o.split("\n") if ln.startswith("FAILED")), o[-200:])[:200])
                with LOCK:
                    d = PREF.setdefault((m["file"], m["func"]), {})
                    d[c] = d.get(c, 0) + 1
                break
        return dict({k: m[k] for k in ("id", "file", "line", "func", "kind", "old", "new")}, caught=caught, why=why, s=round(time.time() - t0, 1))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=0.25)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--sample", type=int)
    ap.add_argument("--ids")
    a = ap.parse_args(argv)
    M = all_mutants(a.only)
    if a.ids:
        keep = set(open(a.ids).read().split())
        M = [m for m in M if m["id"] in keep]
    if a.sample and a.sample < len(M):
        M = random.Random(0).sample(M, a.sample)
    if a.cmd == "list":
        for m in M:
            print("%s %s:%d %s | %r -> %r" % (m["id"], m["func"], m["line"], m["kind"], m["old"][:60], m["new"][:60]))
        print(len(M))
        return
    done = set()
    if os.path.exists(a.out):
        done = set(json.loads(l)["id"] for l in open(a.out))
    base = tempfile.mkdtemp(prefix="mut")
    verif = base + "/verif"
    shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as fh:
            for f in cf.as_completed([ex.submit(run_one, m, base, verif, a.scale) for m in M if m["id"] not in done]):
                r = f.result()
                fh.write(json.dumps(r) + "\n")
                fh.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)


main(sys.argv[1:])
