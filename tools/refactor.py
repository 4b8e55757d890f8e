#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo, to measure false alarms (development tool; no check uses it).

  refactor.py OUT SEED [KIND...]     writes a rewritten copy of /repo to OUT

Kinds: rename (private names), locals (local variables), temp (named results), invert (if / else), loops (comprehensions
written out), inner (bodies moved into a nested function), noop (statements without effect), hoist (arguments named first),
lines (everything two lines longer).  Default: all.
"""
import ast
import builtins
import os
import random
import shutil
import subprocess
import sys

KINDS = ["rename", "locals", "temp", "invert", "loops", "inner", "noop", "hoist"]
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
KEEP = {"_estimator_type", "_get_tags", "_more_tags", "_fields", "_asdict", "_replace", "_base", "_version"}


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def walk_own(fn):
    """Nodes of a function outside nested scopes."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FN + (ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.extend(ast.iter_child_nodes(n))


class Rewriter(ast.NodeTransformer):
    def __init__(self, rng, kinds, private):
        self.rng, self.kinds, self.private, self.n = rng, kinds, private, 0

    def fresh(self):
        self.n += 1
        return "tmp_%d" % self.n

    def on(self, kind, p=0.6):
        return kind in self.kinds and self.rng.random() < p

    # ---- private names
    def visit_Name(self, node):
        if node.id in self.private:
            node.id += "_rn"
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in self.private:
            node.attr += "_rn"
        return node

    def visit_alias(self, node):
        if node.name in self.private:
            node.name += "_rn"
        return node

    # ---- blocks
    def block(self, stmts, fn):
        out = []
        for i, s in enumerate(stmts):
            new = self.visit(s)
            for t in (new if isinstance(new, list) else [new]):
                out.extend(self.stmt(t, fn))
            if fn is not None and self.on("noop", 0.15) and not isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) and \
                    not (i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append(ast.Assign([name(self.fresh(), ast.Store())], ast.Constant(None)))
        return out

    def stmt(self, s, fn):
        if fn is None:
            return [s]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and self.on("loops") and \
                isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
            return self.loop(s.targets[0].id, s.value)
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1 and \
                self.on("loops"):
            t = self.fresh()
            return self.loop(t, s.value) + [ast.Return(name(t))]
        pre = []
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and self.on("hoist", 0.4):
            c = s.value
            if isinstance(c.func, ast.Name) and not any(isinstance(a, ast.Starred) for a in c.args) and c.func.id != "super" and \
                    all(k.arg for k in c.keywords):
                for i, a in enumerate(c.args):
                    if not isinstance(a, (ast.Constant, ast.GeneratorExp)):
                        t = self.fresh()
                        pre.append(ast.Assign([name(t, ast.Store())], a))
                        c.args[i] = name(t)
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)) and self.on("temp"):
            t = self.fresh()
            return pre + [ast.Assign([name(t, ast.Store())], s.value), ast.Return(name(t))]
        if isinstance(s, ast.If) and s.orelse and self.on("invert"):
            if not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
                return pre + [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return pre + [s]

    def loop(self, target, comp):
        g = comp.generators[0]
        ren = {n.id: self.fresh() for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        t = self.fresh()

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in ren:
                    n.id = ren[n.id]
                return n
        it = self.fresh()
        first = ast.Assign([name(it, ast.Store())], g.iter)
        for part in ([g.target] + g.ifs + ([comp.elt] if isinstance(comp, ast.ListComp) else [comp.key, comp.value])):
            R().visit(part)
        if isinstance(comp, ast.ListComp):
            init, step = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [comp.elt], []))
        else:
            init, step = ast.Dict([], []), ast.Assign([ast.Subscript(name(t), comp.key, ast.Store())], comp.value)
        body = [step]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [first, ast.Assign([name(t, ast.Store())], init), ast.For(g.target, name(it), body, []),
                ast.Assign([name(target, ast.Store())], name(t))]

    def generic_block(self, node, fn):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(node, f, None), list) and getattr(node, f) and isinstance(getattr(node, f)[0], ast.stmt):
                setattr(node, f, self.block(getattr(node, f), fn))
        for h in getattr(node, "handlers", []):
            h.body = self.block(h.body, fn)

    def compound(self, node):
        for f, v in ast.iter_fields(node):
            if f in ("body", "orelse", "finalbody", "handlers"):
                continue
            if isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
        for h in getattr(node, "handlers", []):
            if h.type is not None:
                h.type = self.visit(h.type)
        self.generic_block(node, self.fn)
        return node

    fn = None
    visit_If = visit_For = visit_While = visit_With = visit_Try = compound

    def visit_ClassDef(self, node):
        if node.name in self.private:
            node.name += "_rn"
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        old, self.fn = self.fn, None
        node.body = self.block(node.body, None)
        self.fn = old
        return node

    def visit_FunctionDef(self, node):
        if node.name in self.private:
            node.name += "_rn"
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        old, self.fn = self.fn, node
        self.locals(node)
        node.body = self.block(node.body, node)
        self.fn = old
        if old is None and self.on("inner", 0.3):
            self.inner(node)
        return node

    def locals(self, fn):
        if "locals" not in self.kinds:
            return
        own = list(walk_own(fn))
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)) or \
                any(isinstance(n, ast.Name) and n.id in ("locals", "exec", "eval", "vars") for n in ast.walk(fn)):
            return
        nested = [n for n in ast.walk(fn) if isinstance(n, FN + (ast.Lambda, ast.ClassDef)) and n is not fn]
        used = {x.id for n in nested for x in ast.walk(n) if isinstance(x, ast.Name)} | \
               {a.arg for n in nested if not isinstance(n, ast.ClassDef) for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        names = {n.id for n in own if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args - used - \
            {n.name for n in own if isinstance(n, ast.ExceptHandler) and n.name} - \
            {n.name for n in own if isinstance(n, FN + (ast.ClassDef,))} - \
            {a.asname or a.name.split(".")[0] for n in own if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in names:
                    n.id += "_v"
                return n
        for i, s in enumerate(fn.body):
            fn.body[i] = R().visit(s)

    def inner(self, fn):
        bad = (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)
        if any(isinstance(n, bad) or (isinstance(n, ast.Name) and n.id in ("super", "locals")) for n in ast.walk(fn)):
            return
        if fn.name.startswith("__") or not fn.body:
            return
        doc = []
        body = fn.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if not body:
            return
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = [x.arg for x in a.kwonlyargs]
        inner_args = ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in pos + kw +
                                   ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])],
                                   vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        t = self.fresh()
        f = ast.FunctionDef(t, inner_args, body, [], None)
        fn.body = doc + [f, ast.Return(ast.Call(name(t), [name(x.arg) for x in inner_args.args], []))]


def private_names(trees):
    names, strings, kwargs = set(), set(), set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, FN + (ast.ClassDef,)) and n.name.startswith("_") and not n.name.startswith("__"):
                names.add(n.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                    n.value.id == "self" and n.attr.startswith("_") and not n.attr.startswith("__"):
                names.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                strings.add(n.value)
            elif isinstance(n, ast.arg):
                kwargs.add(n.arg)
            elif isinstance(n, ast.keyword) and n.arg:
                kwargs.add(n.arg)
    return names - strings - kwargs - KEEP - set(dir(builtins))


def main():
    out, seed = sys.argv[1], int(sys.argv[2])
    kinds = sys.argv[3:] or KINDS
    rng = random.Random(seed)
    shutil.rmtree(out, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", out], check=True)
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(out, "causalnex")) for f in fs if f.endswith(".py"))
    trees = {f: ast.parse(open(f).read()) for f in files}
    private = private_names(trees.values()) if "rename" in kinds else set()
    for f, t in trees.items():
        r = Rewriter(rng, kinds, private)
        t.body = r.block(t.body, None)
        ast.fix_missing_locations(t)
        src = ast.unparse(t)
        compile(src, f, "exec")
        open(f, "w").write(src + "\n")
    print("rewrote %d files, %d private names" % (len(files), len(private)))


if __name__ == "__main__":
    main()
