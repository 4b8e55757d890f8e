"""C10: building and querying terminates within a bounded number of steps."""
import math

from .. import bnmodel as M
from ..core import SIMRANDOM, stepping
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, company, load_ebay

LEVEL = "exploration"
RUNS = {"quick": 220, "thorough": 5000}
WALL = {"quick": 120, "thorough": 2400}
CAP = {0: 300, 1: 35, 2: 160, 3: 160, 4: 100, 5: 100}   # largest size per shape
RULE = ("one run = one network of 1-300 variables (chain, star, tree, forest of several components, ladder of treewidth 2, "
        "many small islands), declared in an adversarial order under a random set-order policy, then queries and a draw; "
        "every call must finish within a step budget (logical clock = executed causalnex lines) that is a fixed multiple "
        "of a polynomial in the size, at Python's default recursion limit, and answers are checked against exact "
        "upward-downward inference; one run in four instead hands over factors that form no network (cycle, lost parent, two factors of one variable or of one name), which must be refused within a budget; non-trivial = 20 or more variables, several components or a refusal; distinct = distinct network")
REAL, STUB = EBAY_REAL, EBAY_STUB
ASSUMPTIONS = ["cliques stay at most 3 binary/ternary variables wide, so the budget is polynomial",
               "sizes up to 300 variables"]


def make(sim):
    shape = sim.draw(6)
    n = sim.pick([1, 2, 3, 5, 8, 12, 20, 35, 60, 100, 160, 300])
    n = min(n, CAP[shape])
    names = ["v%d" % i for i in range(n)]
    names = sim.substream().sample(names, n)
    par = {}
    comps = sim.pick([1, 1, 2, 5]) if shape != 3 else sim.pick([2, 3, 8])
    rng = sim.substream()
    for i, v in enumerate(names):
        if i < comps:
            par[v] = []
        elif shape == 0:
            par[v] = [names[i - comps]]                # parallel chains
        elif shape == 1:
            par[v] = [names[i % comps]]                # stars
        elif shape in (2, 3):
            j = rng.randrange(i % comps, i, comps) if i % comps < i else i % comps
            par[v] = [names[j]]                        # random trees
        elif shape == 4:
            ps = [names[i - 1]] if i >= 1 else []
            if i >= 2:
                ps.append(names[i - 2])
            par[v] = ps                                # ladder (treewidth 2)
        else:
            par[v] = [names[i - 1]] if i % 3 else []   # islands of 3
    return shape, names, par


def exact_forest(net, ev):
    """Upward-downward marginals for networks in which each variable has at most one parent."""
    order = M.topo(net.vars, net.par)
    child = {v: [] for v in order}
    for v in order:
        for p in net.par[v]:
            child[p].append(v)

    def ok(v, x):
        return 1.0 if v not in ev or ev[v] == x else 0.0
    lam, msg = {}, {}
    for v in reversed(order):
        lam[v] = {x: ok(v, x) * math.prod(msg[c][x] for c in child[v]) for x in net.dom[v]}
        if net.par[v]:
            p = net.par[v][0]
            m = {y: sum(float(net.cpt[v][(y,)][x]) * lam[v][x] for x in net.dom[v]) for y in net.dom[p]}
            z = max(m.values()) or 1.0
            msg[v] = {y: t / z for y, t in m.items()}
            z = max(lam[v].values()) or 1.0
            lam[v] = {x: t / z for x, t in lam[v].items()}
    post = {}
    pi = {}
    for v in order:
        if not net.par[v]:
            pi[v] = {x: float(net.cpt[v][()][x]) for x in net.dom[v]}
        else:
            p = net.par[v][0]
            up = {}
            for y in net.dom[p]:
                t = pi[p][y] * ok(p, y)
                for c in child[p]:
                    if c != v:
                        t *= msg[c][y]
                up[y] = t
            z = sum(up.values()) or 1.0
            pi[v] = {x: sum(float(net.cpt[v][(y,)][x]) * up[y] / z for y in up) for x in net.dom[v]}
        raw = {x: pi[v][x] * lam[v][x] for x in net.dom[v]}
        z = sum(raw.values())
        for x in raw:
            post[(v, x)] = raw[x] / z
    return post


def refused(sim, E):
    """Factors that form no network are refused, not looped over and not silently left out."""
    rng = sim.substream()
    n = sim.between(1, 7)
    names = rng.sample(["v%d" % i for i in range(n)], n)
    par = {v: rng.sample(names[:i], rng.randrange(0, min(i, 2) + 1)) for i, v in enumerate(names)}
    fault = sim.pick(["cycle", "missing", "missing-leaf", "twice", "name"])
    if n == 1 and fault in ("cycle", "name"):
        fault = "missing"
    args = [[v, list(par[v])] for v in names]         # one entry per factor: variable, parents
    fname = {id(a): "f_" + a[0] for a in args}
    if fault == "cycle":
        top = rng.randrange(0, n - 1)
        anc = {names[top]}
        for v in names[top + 1:]:
            if anc & set(par[v]):
                anc.add(v)
        below = sorted(anc - {names[top]})
        if not below:
            args[top + 1][1].append(names[top])
            below = [names[top + 1]]
        args[top][1].append(rng.choice(below))
    elif fault == "missing":
        args[rng.randrange(n)][1].append("lost")        # a parent that has no factor
    elif fault == "missing-leaf":
        args.append(["w", ["lost"]])
        fname[id(args[-1])] = "f_w"
    elif fault == "twice":
        v = rng.choice(names)
        args.append([v, rng.choice([[], list(par[v])])])
        fname[id(args[-1])] = "again_" + v
    else:
        a, b = rng.sample(args, 2)
        fname[id(b)] = fname[id(a)]
    rng.shuffle(args)
    sim.sched("refused", fault, [(v, ps, fname[id(a)]) for a in args for v, ps in [a]])
    sim.probe("refused-" + fault)
    sim.nontrivial = True

    def factor(a):
        def f(*vals):
            return .5
        f.argspec = rng.choice([a[1] + [a[0]], [a[0]] + a[1]])
        f.__name__ = fname[id(a)]
        return f
    got = None
    with stepping(sim, budget=200_000):
        try:
            if fault in ("cycle", "missing", "missing-leaf") and sim.draw(2):
                from itertools import product
                got = E.build_bbn_from_conditionals(
                    {v: [[[[p, x] for p, x in zip(ps, xs)], {True: .5, False: .5}]
                         for xs in product((True, False), repeat=len(ps))] for v, ps in args})
            else:
                fs = [factor(a) for a in args]
                got = E.build_bbn(fs) if sim.draw(2) else E.build_bbn(*fs)
        except Exception as e:
            sim.note("refused", type(e).__name__)
    if got is not None:
        sim.fail("no-network-accepted", "%s: factors %r were accepted as a network of %r"
                 % (fault, [(v, ps) for v, ps in args], sorted(got.vars_to_nodes)))
    sim.units["refusals"] += 1


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    if sim.draw(4) == 3:
        return refused(sim, E)
    shape, names, par = make(sim)
    n = len(names)
    rng = sim.substream()
    dom = {v: ([False, True] if rng.random() < 0.8 else ["lo", "mid", "hi"]) for v in names}
    cpt = {}
    from fractions import Fraction
    from itertools import product
    for v in names:
        cpt[v] = {}
        for key in product(*[dom[p] for p in par[v]]):
            w = [rng.randrange(1, 8) for _ in dom[v]]
            cpt[v][key] = {x: Fraction(t, sum(w)) for x, t in zip(dom[v], w)}
    net = M.Net(names, dom, par, cpt)
    ncomp = len(net.components())
    sim.sched("net", shape, n, ncomp, sorted(par.items()))
    if sim.run_index % 10 == 0:
        sim.sample = {"shape": shape, "variables": n, "components": ncomp}
    if n >= 20 or ncomp > 1:
        sim.nontrivial = True
    sim.probe("shape%d" % shape)
    if ncomp > 1:
        sim.probe("disconnected")
    if sim.draw(6) == 5:
        company(sim, E, names)
    way = sim.draw(3)
    # worst declaration order: children before parents, or random
    decl = list(reversed(names)) if sim.draw(2) else rng.sample(names, n)
    budget = 20_000 + 40 * n * n + 6000 * n       # about 10x the steps of the reference tree
    if shape == 1:
        budget += 4 * n ** 3                        # a star's hub has n neighbours
    with stepping(sim, budget=4 * budget) as s1:
        if way == 0:
            conds = {v: [[[[p, y] for p, y in zip(par[v], key)], {x: float(q) for x, q in row.items()}]
                         for key, row in cpt[v].items()] for v in decl}
            bbn = E.build_bbn_from_conditionals(conds)
        else:
            fs = []
            for v in decl:
                def f(*vals, v=v):
                    return float(cpt[v][tuple(vals[:-1])][vals[-1]])
                f.argspec = par[v] + [v]
                f.__name__ = "f_" + v
                fs.append(f)
            bbn = E.build_bbn(fs, domains=dict(dom))
    sim.units["builds"] += 1
    for q in range(1 if n > 60 else 2):
        ev = {v: dom[v][rng.randrange(len(dom[v]))] for v in rng.sample(names, min(n, sim.draw(4)))}
        sim.sched("query", len(ev))
        with stepping(sim, budget=20 * budget) as s2:
            res = bbn.query(**ev)
        sim.note("steps", s1.steps, s2.steps, "n", n, "budget", budget)
        sim.units["queries"] += 1
        keys = {(v, x) for v in names for x in dom[v]}
        sim.check(set(res) == keys, "wrong-keys", "query over %d variables returned %d entries" % (n, len(res)))
        if all(len(p) <= 1 for p in par.values()):
            want = exact_forest(net, ev)
            for k, p in want.items():
                if not abs(float(res[k]) - p) <= 1e-7:
                    sim.fail("wrong-posterior", "n=%d shape=%d: P%r = %r, exact %r" % (n, shape, k, res[k], p))
    if n <= 12:
        SIMRANDOM.seed(sim.draw(2 ** 30))
        with stepping(sim, budget=40 * budget * n):
            out = bbn.draw_samples(n=2)
        sim.check(len(out) == 2 and all(set(s) == set(names) for s in out), "incomplete-sample", repr(out)[:300])
        sim.units["draws"] += 1
