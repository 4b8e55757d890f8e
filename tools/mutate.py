#!/usr/bin/env python3
"""Systematic mutation of causalnex, judged by the checks (development tool; no check uses it).

  mutate.py FILE --checks C01,C02 [--frac 0.25] [--jobs 7] [--out OUT.jsonl] [--sample N] [--only ID]
Every mutant is one syntactic change; mutants of ebaybbn that fail the repository's tests are skipped.
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult],
       ast.FloorDiv: [ast.Mult], ast.MatMult: [], ast.Mod: []}
UNWRAP = {"sorted", "list", "set", "deepcopy", "copy", "abs", "tuple", "dict", "reversed", "float", "int", "min", "max"}


def sites(tree):
    """Yield (description, function(tree copy node at same path)) lazily as (index, kind)."""
    out = []
    for n, node in enumerate(ast.walk(tree)):
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for new in CMP.get(type(op), []):
                    out.append((n, "cmp", (k, new)))
        elif isinstance(node, ast.BinOp):
            for new in BIN.get(type(node.op), []):
                out.append((n, "bin", new))
        elif isinstance(node, ast.BoolOp):
            out.append((n, "bool", None))
            for k in range(len(node.values)):
                out.append((n, "booldrop", k))
        elif isinstance(node, ast.UnaryOp):
            out.append((n, "unary", None))
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                out.append((n, "const", not v))
            elif isinstance(v, int):
                out.append((n, "const", v + 1))
                if v:
                    out.append((n, "const", v - 1))
            elif isinstance(v, float):
                out.append((n, "const", v * 2 if v else 1.0))
                out.append((n, "const", v * 1.01))
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            out.append((n, "neg", None))
            if not isinstance(node, ast.While):
                out.append((n, "true", True))
            out.append((n, "true", False))
        elif isinstance(node, ast.comprehension):
            for k in range(len(node.ifs)):
                out.append((n, "compif", k))
        elif isinstance(node, ast.Call):
            f = node.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if name in UNWRAP and len(node.args) == 1 and not isinstance(node.args[0], ast.Starred):
                out.append((n, "unwrap", None))
            if name == "copy" and isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id == "copy"):
                out.append((n, "uncopy", None))
            if len(node.args) >= 2:
                out.append((n, "swapargs", None))
            for k in range(len(node.keywords)):
                if node.keywords[k].arg:
                    out.append((n, "dropkw", k))
        elif isinstance(node, (ast.Break, ast.Continue)):
            out.append((n, "jump", None))
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                out.append((n, "slice", "lower"))
            if node.upper is not None:
                out.append((n, "slice", "upper"))
        for field in ("body", "orelse", "finalbody"):
            b = getattr(node, field, None)
            if isinstance(b, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((n, "del", (field, k)))
                    if k + 1 < len(b) and isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)) and isinstance(
                            b[k + 1], (ast.Assign, ast.Expr, ast.AugAssign)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((n, "swap", (field, k)))
    return out


def replace(tree, old, new):
    for p in ast.walk(tree):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if x is old:
                        v[k] = new
                        return


def apply(tree, site):
    n, kind, arg = site
    t = copy.deepcopy(tree)
    node = next(x for k, x in enumerate(ast.walk(t)) if k == n)
    if kind == "cmp":
        node.ops[arg[0]] = arg[1]()
    elif kind == "bin":
        node.op = arg()
    elif kind == "bool":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "booldrop":
        del node.values[arg]
        if len(node.values) == 1:
            replace(t, node, node.values[0])
    elif kind == "unary":
        replace(t, node, node.operand)
    elif kind == "const":
        node.value = arg
    elif kind == "neg":
        node.test = ast.UnaryOp(ast.Not(), node.test)
    elif kind == "true":
        node.test = ast.Constant(arg)
    elif kind == "compif":
        del node.ifs[arg]
    elif kind == "unwrap":
        replace(t, node, node.args[0])
    elif kind == "uncopy":
        replace(t, node, node.func.value)
    elif kind == "swapargs":
        node.args[0], node.args[1] = node.args[1], node.args[0]
    elif kind == "dropkw":
        del node.keywords[arg]
    elif kind == "jump":
        replace(t, node, ast.Pass() if isinstance(node, ast.Continue) else ast.Continue())
    elif kind == "slice":
        setattr(node, arg, None)
    elif kind == "del":
        getattr(node, arg[0])[arg[1]] = ast.Pass()
    elif kind == "swap":
        b = getattr(node, arg[0])
        b[arg[1]], b[arg[1] + 1] = b[arg[1] + 1], b[arg[1]]
    ast.fix_missing_locations(t)
    return ast.unparse(t), getattr(node, "lineno", 0)


def runs_of(check, frac):
    src = open(os.path.join(ROOT, "sim/props/%s.py" % check.lower())).read()
    return max(40, int(int(re.search(r'"quick": (\d+)', src).group(1)) * frac))


def judge(job):
    mid, path, src, line, checks, frac, diff = job
    d = tempfile.mkdtemp(prefix="mu-", dir="/tmp/mu")
    try:
        shutil.copytree("/repo/causalnex", d + "/causalnex", ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, path), "w") as f:
            f.write(src)
        res = {"id": mid, "line": line, "diff": diff, "verdict": "SURVIVED", "by": None}
        if "ebaybbn" in path:
            shutil.copytree("/repo/tests/ebaybbn", d + "/tests/ebaybbn")
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov",
                                    "--confcutdir=tests/ebaybbn", "tests/ebaybbn"], cwd=d, capture_output=True, text=True, timeout=60,
                                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d, PYTHONHASHSEED="0"))
                if r.returncode:
                    res["verdict"] = "tests"
                    return res
            except subprocess.TimeoutExpired:
                res["verdict"] = "tests"
                return res
        for c in checks:
            try:
                r = subprocess.run([ROOT + "/check", c, "--no-evidence", "--workers", "1", "--no-minimise", "--runs",
                                    str(runs_of(c, frac))], capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VERIF_REPO=d))
            except subprocess.TimeoutExpired:
                res["verdict"], res["by"] = "TIMEOUT", c
                return res
            if r.returncode:
                m = [l for l in r.stdout.splitlines() if l.startswith(("found", "HARNESS", "inconcl"))]
                res["verdict"] = "caught" if r.returncode == 1 else "HARNESS"
                res["by"] = c
                res["msg"] = (m or [(r.stdout + r.stderr)[-200:]])[0][:200]
                return res
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--checks", required=True)
    ap.add_argument("--frac", type=float, default=0.25)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--out", required=True)
    ap.add_argument("--sample", type=int)
    ap.add_argument("--ids")
    a = ap.parse_args()
    os.makedirs("/tmp/mu", exist_ok=True)
    src = open(os.path.join("/repo", a.file)).read()
    tree = ast.parse(src)
    base = ast.unparse(tree).splitlines()
    jobs, seen = [], set()
    for k, s in enumerate(sites(tree)):
        try:
            new, line = apply(tree, s)
            compile(new, "x", "exec")
        except Exception:
            continue
        if new in seen or new.splitlines() == base:
            continue
        seen.add(new)
        nl = new.splitlines()
        lo = next((i for i in range(min(len(nl), len(base))) if nl[i] != base[i]), 0)
        diff = "- %s | + %s" % (base[lo].strip()[:110], nl[lo].strip()[:110])
        jobs.append((k, a.file, new, line, a.checks.split(","), a.frac, "%s@%d %s" % (s[1], line, diff)))
    if a.ids:
        want = {int(x) for x in a.ids.split(",")}
        jobs = [j for j in jobs if j[0] in want]
    if a.sample and len(jobs) > a.sample:
        jobs = random.Random(1).sample(jobs, a.sample)
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["id"] for l in open(a.out)}
    jobs = [j for j in jobs if j[0] not in done]
    print(len(jobs), "mutants", flush=True)
    with open(a.out, "a") as out, concurrent.futures.ProcessPoolExecutor(a.jobs) as ex:
        for r in ex.map(judge, jobs):
            out.write(json.dumps(r) + "\n")
            out.flush()
            if r["verdict"] not in ("caught", "tests"):
                print(json.dumps(r), flush=True)


if __name__ == "__main__":
    main()
