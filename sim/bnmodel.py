"""Reference model: a discrete Bayesian network answered by exact enumeration.

Probabilities are integers over per-row totals, so answers are exact rationals.
"""
from fractions import Fraction
from itertools import product

from . import loader

NAME_POOL = ["a", "b", "c", "d", "e", "f", "ab", "bc", "A", "B", "a_b", "x1", "x10", "Z", "n0", "if_", "long_name"]
DOMAINS = [
    [False, True], [True, False], ["lo", "hi"], ["lo", "mid", "hi"], [0, 1, 2], [3, 5], ["x", "y", "z", "w"],
    [0, "s"], [("t", 1), ("t", 2)], [10, 2, 7], ["only"],
    list(range(11)), [1, "1"], [-1, -2, -3], ["True", True, "t"], ["A", "a", None],
]


class Net:
    def __init__(self, order, domains, parents, cpt):
        self.vars = list(order)          # topological order
        self.dom = domains
        self.par = parents
        self.cpt = cpt                    # var -> {parent value tuple: {value: Fraction}}
        self._joint = None

    def copy_with(self, var, dist):
        """do(var ~ dist): cut the incoming edges and replace the distribution."""
        par = dict(self.par)
        cpt = dict(self.cpt)
        par[var] = []
        cpt[var] = {(): {v: Fraction(p) for v, p in dist.items()}}
        return Net(self.vars, self.dom, par, cpt)

    def factor(self, var, assignment):
        return self.cpt[var][tuple(assignment[p] for p in self.par[var])][assignment[var]]

    def joint(self):
        """[(assignment, probability)] with positive probability, in a fixed order."""
        if self._joint is None:
            rows = [({}, Fraction(1))]
            order = topo(self.vars, self.par)
            for v in order:
                nxt = []
                for asg, p in rows:
                    dist = self.cpt[v][tuple(asg[q] for q in self.par[v])]
                    for val in self.dom[v]:
                        q = p * dist[val]
                        if q:
                            a = dict(asg)
                            a[v] = val
                            nxt.append((a, q))
                rows = nxt
            self._joint = rows
        return self._joint

    def prob(self, evidence):
        return sum((p for a, p in self.joint() if all(a[k] == v for k, v in evidence.items())), Fraction(0))

    def posterior(self, evidence):
        """{(var, value): Fraction} or None when the evidence is impossible."""
        tot = Fraction(0)
        acc = {(v, x): Fraction(0) for v in self.vars for x in self.dom[v]}
        for a, p in self.joint():
            if all(a[k] == v for k, v in evidence.items()):
                tot += p
                for v, x in a.items():
                    acc[(v, x)] += p
        if tot == 0:
            return None
        return {k: p / tot for k, p in acc.items()}

    def subset_marginal(self, names, evidence):
        """{tuple of values: P(names=values, evidence)} (unnormalised)."""
        out = {vals: Fraction(0) for vals in product(*[self.dom[n] for n in names])}
        for a, p in self.joint():
            if all(a[k] == v for k, v in evidence.items()):
                out[tuple(a[n] for n in names)] += p
        return out

    def components(self):
        adj = {v: set() for v in self.vars}
        for v in self.vars:
            for p in self.par[v]:
                adj[v].add(p)
                adj[p].add(v)
        seen, comps = set(), []
        for v in self.vars:
            if v in seen:
                continue
            stack, comp = [v], []
            seen.add(v)
            while stack:
                x = stack.pop()
                comp.append(x)
                for y in sorted(adj[x]):
                    if y not in seen:
                        seen.add(y)
                        stack.append(y)
            comps.append(comp)
        return comps

    def describe(self):
        return {"domains": {v: self.dom[v] for v in self.vars}, "parents": {v: self.par[v] for v in self.vars}}


def topo(vars_, par):
    out, done = [], set()
    todo = list(vars_)
    while todo:
        rest = []
        for v in todo:
            if all(p in done for p in par[v]):
                out.append(v)
                done.add(v)
            else:
                rest.append(v)
        if len(rest) == len(todo):
            raise ValueError("cyclic")
        todo = rest
    return out


def random_row(sim, dom, zeros=True):
    style = sim.draw(8)
    n = len(dom)
    if style == 7 and zeros:                       # deterministic row
        hit = sim.draw(n)
        w = [1 if i == hit else 0 for i in range(n)]
    elif style == 6 and zeros:                     # some impossible states
        w = [sim.draw(3) for _ in range(n)]
        if not any(w):
            w[0] = 1
    elif style == 5:                               # very unbalanced
        w = [1 + sim.draw(2) * 10 ** (1 + sim.draw(9)) for _ in range(n)]
    else:
        w = [1 + sim.draw(7) for _ in range(n)]
    tot = sum(w)
    return {v: Fraction(x, tot) for v, x in zip(dom, w)}


def gen_net(sim, lo=1, hi=6, max_parents=3, max_joint=4000, connected=None, zeros=True, domains=None, names=None,
            binary=False, singleton_domains=True):
    """A random network.  ``connected``: True/False/None (let the run decide)."""
    n = sim.between(lo, hi)
    pool = list(names or NAME_POOL)
    if loader.KEEP and len(sim.last_names) >= lo and set(sim.last_names) <= set(pool) and sim.draw(2):
        pool = list(sim.last_names)            # a second history: a namesake of the first one's network
        n = min(n, len(pool))
        if sim.draw(2):
            n = min(len(pool), hi)
    order = []
    for _ in range(n):
        order.append(pool.pop(sim.draw(len(pool))))
    sim.last_names = list(order)
    shape = sim.draw(5)       # 0 random, 1 chain, 2 star/naive-bayes, 3 polytree-collider, 4 dense
    if connected is None:
        connected = not sim.chance(1, 4)
    dom, par, cpt = {}, {}, {}
    size = 1
    for i, v in enumerate(order):
        choices = domains or DOMAINS
        if binary:
            d = [False, True]
        else:
            d = list(choices[sim.draw(len(choices))])
            if len(d) == 1 and not singleton_domains:
                d = ["lo", "hi"]
            if size * len(d) > max_joint:
                d = [False, True]
        size *= len(d)
        dom[v] = d
        if i == 0:
            par[v] = []
        else:
            prev = order[:i]
            if shape == 1:
                ps = [prev[-1]]
            elif shape == 2:
                ps = [order[0]]
            elif shape == 3:
                ps = [] if i < n - 1 else prev[-max_parents:]
            elif shape == 4:
                ps = prev[-max_parents:]
            else:
                k = sim.draw(min(max_parents, i) + 1)
                cand = sim.shuffled(prev)
                ps = cand[:k]
            if connected and not ps and shape != 3:
                ps = [prev[sim.draw(len(prev))]]
            if not connected and ps and sim.chance(1, 3):
                ps = []
            par[v] = list(ps)
    net = Net(order, dom, par, {})
    if connected:
        comps = net.components()
        while len(comps) > 1:           # join components through the last variable of each
            later = max(comps, key=lambda c: max(order.index(x) for x in c))
            v = max(later, key=order.index)
            other = next(c for c in comps if c is not later)
            cand = [x for x in other if order.index(x) < order.index(v)]
            par[v] = par[v] + [cand[0]]
            comps = net.components()
    while size > 2 * max_joint and any(len(d) > 2 for d in dom.values()):       # variables after the limit add up
        v = max(order, key=lambda v: len(dom[v]))
        size = size // len(dom[v]) * 2
        dom[v] = [False, True]
    for v in order:
        cpt[v] = {}
        for key in product(*[dom[p] for p in par[v]]):
            cpt[v][key] = random_row(sim, dom[v], zeros)
    net.cpt = cpt
    return net


def gen_evidence(sim, net, max_n=None, possible_only=False):
    """Evidence for up to max_n variables (default: 3, sometimes any number); usually possible, sometimes impossible."""
    if max_n is None:
        max_n = 3 if len(net.vars) <= 3 or sim.draw(4) < 3 else len(net.vars)
    k = sim.draw(min(max_n, len(net.vars)) + 1)
    names = sim.shuffled(net.vars)[:k]
    if k == 0:
        return {}
    if possible_only or not sim.chance(1, 8):
        rows = net.joint()
        a, _ = rows[sim.draw(len(rows))]
        ev = {n: a[n] for n in names}
    else:
        ev = {n: sim.pick(net.dom[n]) for n in names}
    if sim.chance(1, 3):
        ev = {n: equal_copy(v) for n, v in ev.items()}
    return ev


def equal_copy(v):
    """An object equal to ``v`` but, where the type allows it, not the same object."""
    if isinstance(v, str):
        return "".join(list(v))
    if isinstance(v, tuple):
        return tuple(equal_copy(x) for x in v)
    return v


def conditionals(sim, net, shuffle=True):
    """The input of build_bbn_from_conditionals, in a tape-chosen declaration order."""
    sh = sim.shuffled if shuffle else list
    conds = {}
    for v in sh(net.vars):
        rows = []
        pord = sh(net.par[v])
        per_row = shuffle and len(pord) > 1 and sim.chance(1, 3)
        for key in sh(list(net.cpt[v])):
            if per_row:
                pord = sh(pord)
            givens = dict(zip(net.par[v], key))
            dist = net.cpt[v][key]
            rows.append([[[p, givens[p]] for p in pord], {x: float(dist[x]) for x in sh(net.dom[v])}])
        conds[v] = rows
    return conds


class Factors:
    """Explicit factor functions (build_bbn input) with instrumented callbacks."""

    def __init__(self, sim, net, argspec=True, shuffle=True, hook=None, names=None):
        self.net = net
        self.hook = hook
        self.calls = 0
        self.args = {}
        self.functions = []
        order = sim.shuffled(net.vars) if shuffle else list(net.vars)
        for v in order:
            args = net.par[v] + [v]
            if shuffle:
                args = sim.shuffled(args)
            self.args[v] = args
            self.functions.append(self._make(v, args, argspec, (names or {}).get(v, "f_" + v)))

    def _make(self, v, args, argspec, fname):
        me = self

        def value(asg):
            me.calls += 1
            if me.hook is not None:
                me.hook(v, asg)
            return float(me.net.factor(v, asg))

        if argspec:
            def f(*vals):
                return value(dict(zip(args, vals)))
            f.argspec = list(args)
            f.__name__ = fname
            return f
        src = "def %s(%s):\n    return _value_({%s})\n" % (
            fname, ", ".join(args), ", ".join("%r: %s" % (x, x) for x in args))
        ns = {"_value_": value}
        exec(compile(src, "<factor>", "exec"), ns)
        return ns[fname]


def domains_arg(sim, net, shuffle=True):
    d = {}
    for v in (sim.shuffled(net.vars) if shuffle else net.vars):
        vals = list(net.dom[v])
        if vals == [True, False] or vals == [False, True]:
            if sim.draw(3) == 2:
                continue          # rely on the documented default domain
        d[v] = sim.shuffled(vals) if shuffle else vals
    return d


def close(x, y, tol=1e-9):
    x = float(x)
    return abs(x - float(y)) <= tol * max(1.0, abs(float(y)))


def judge_marginals(sim, net, evidence, result, where, tol=1e-9):
    """Compare BBN.query()'s answer with the exact posterior."""
    want = net.posterior(evidence)
    if not isinstance(result, dict) and not hasattr(result, "items"):
        sim.fail("wrong-answer", "%s: query returned %r" % (where, type(result)))
    keys = {(v, x) for v in net.vars for x in net.dom[v]}
    got = dict(result)
    if set(got) != keys:
        sim.fail("wrong-keys", "%s: evidence %r: marginals cover %r, expected %r" % (
            where, evidence, sorted(map(repr, set(got) - keys)), sorted(map(repr, keys - set(got)))))
    if want is None:
        for k, p in got.items():
            if p == p and abs(p) > 1e-12:
                sim.fail("fabricated-posterior", "%s: evidence %r has probability 0 but P%r = %r was returned" % (
                    where, evidence, k, p))
        return "impossible"
    for k in got:
        p = got[k]
        if not (isinstance(p, (int, float)) or hasattr(p, "__float__")) or not close(p, want[k], tol):
            sim.fail("wrong-posterior", "%s: evidence %r: P%r = %r, exact %r (= %s)" % (
                where, evidence, k, p, float(want[k]), want[k]))
    return "ok"
