"""C18: generated structures are valid for every outcome of the random source."""
import networkx as nx
import numpy as np

from ..core import stub_gap
from . import gen as G

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of the random source (genuine and far-end outcomes) under the structure generators, with the "
        "documented structure as oracle and exact-tail frequency tests")
NOTE = "Generators are real; pandas is a stand-in; frequency tests fire only beyond a 1e-8 tail bound."
RUNS = {"quick": 8000, "thorough": 300000}
RULE = ("one run = a few generator calls with random parameters and far-end or genuine draws, or one frequency experiment; "
        "non-trivial = the structure has an edge and far-end draws happened, or a frequency was tested, or bad input was "
        "rejected; distinct = distinct (parameters, drawn structure) pairs")
REAL, STUB = G.REAL, G.STUB
ASSUMPTIONS = G.ASSUME + ["lagged weight bounds are non-negative and decay >= 1 (its documented use)"]
setup = G.setup
EPS = 1e-12


def weights(sim):
    lo = sim.pick([0.5, 0.0, 0.1, 1.0, 2.0, 0.3])
    hi = lo + sim.pick([0.0, 0.5, 2.0, 1e-3])
    return lo, hi


def in_range(w, lo, hi):
    return lo - EPS <= abs(w) <= hi + EPS


def intra_ok(sim, edges, n, kind, degree, lo, hi, where):
    """edges: [(i, j, w)] over 0..n-1"""
    g = nx.DiGraph()
    g.add_nodes_from(range(n))
    g.add_edges_from((i, j) for i, j, _ in edges)
    sim.check(nx.is_directed_acyclic_graph(g), "cyclic", "%s: cycle in %r" % (where, edges))
    for i, j, w in edges:
        sim.check(isinstance(w, (float, np.floating)) and w != 0 and in_range(w, lo, hi), "weight-out-of-range",
                  lambda: "%s: edge %r->%r has weight %r, wanted [%r, %r]" % (where, i, j, w, lo, hi))
    if lo == 0:
        return      # a weight may be drawn as exactly zero: no edge
    pairs = n * (n - 1) // 2
    if kind == "full":
        sim.check(len(edges) == pairs, "not-full", "%s: %d of %d edges" % (where, len(edges), pairs))
    elif kind == "erdos-renyi":
        if degree == 0:
            sim.check(not edges, "edges-at-degree-0", "%s: %r" % (where, edges))
        if degree >= n - 1:
            sim.check(len(edges) == pairs, "missing-edges-at-full-degree", "%s: %d of %d" % (where, len(edges), pairs))
    else:
        m = int(round(degree / 2))
        if m == 0:
            sim.check(not edges, "edges-at-degree-0", "%s: %r" % (where, edges))
        else:
            sim.check(nx.is_weakly_connected(g), "scale-free-disconnected", "%s: %r" % (where, edges))
            most = sum(min(i, m) for i in range(n))
            sim.check(n - 1 <= len(edges) <= most, "scale-free-size", "%s: %d edges, at most %d" % (where, len(edges), most))


def static(sim, M, SM, rng, where=""):
    n = sim.between(2, 8) if sim.draw(12) else 20
    kind = sim.pick(["erdos-renyi", "barabasi-albert", "full"])
    degree = sim.pick([0, 1, 2, 3, 1.5, n - 1, n + 3, 4])
    lo, hi = weights(sim)
    sign = sim.pick([(1, 1), (1, 1), (-1, -1), (1, -1), (-1, 1)])
    kw = dict(num_nodes=n, degree=degree, graph_type=kind, w_min=lo * sign[0], w_max=hi * sign[1])
    if kind == "erdos-renyi" and sim.draw(2):
        del kw["graph_type"]
    if (lo, hi) == (0.5, 0.5) and sim.draw(2):
        del kw["w_min"], kw["w_max"]
    with rng:
        g = M.generate_structure(**kw)
    where = "generate_structure(%r)" % kw
    sim.check(isinstance(g, SM.StructureModel), "wrong-type", "%s: %r" % (where, type(g)))
    sim.check(sorted(g.nodes) == list(range(n)), "wrong-nodes", lambda: "%s: nodes %r" % (where, list(g.nodes)))
    edges = [(u, v, d.get("weight")) for u, v, d in g.edges(data=True)]
    intra_ok(sim, edges, n, kind, degree, lo, hi, where)
    for u, v, d in g.edges(data=True):
        sim.check(d.get("origin") == "unknown", "wrong-origin", "%s: %r" % (where, d))
    sim.sched(sorted(kw.items()), sorted(edges))
    return len(edges)


def dynamic(sim, M, SM, rng):
    n = sim.between(2, 6)
    p = sim.between(0, 4)
    # numbers of more than one digit
    size = sim.draw(16)
    if size == 15:
        n, p = 2, sim.pick([10, 11, 12])
    elif size == 14:
        n, p = sim.pick([11, 12]), sim.between(0, 2)
    intra = sim.pick(["erdos-renyi", "barabasi-albert", "full"])
    inter = sim.pick(["erdos-renyi", "full"])
    da, de = sim.pick([0, 1, 2, 3, n + 1]), sim.pick([0, 1, 2, 1.5, n, n + 1])
    la, ha = weights(sim)
    le, he = weights(sim)
    decay = sim.pick([1.0, 1.0, 2.0, 1.1, 5])
    kw = dict(num_nodes=n, p=p, degree_intra=da, degree_inter=de, graph_type_intra=intra, graph_type_inter=inter,
              w_min_intra=la, w_max_intra=ha, w_min_inter=le, w_max_inter=he, w_decay=decay)
    G.omit(sim, kw, graph_type_intra="erdos-renyi", graph_type_inter="erdos-renyi", w_min_intra=0.5, w_max_intra=0.5,
           w_min_inter=0.5, w_max_inter=0.5, w_decay=1.0)
    where = "generate_structure_dynamic(%r)" % kw
    with rng:
        g = M.generate_structure_dynamic(**kw)
    sim.check(isinstance(g, SM.StructureModel), "wrong-type", "%s: %r" % (where, type(g)))
    want = {"%d_lag%d" % (i, k) for i in range(n) for k in range(p + 1)}
    sim.check(set(g.nodes) == want and len(g.nodes) == len(want), "wrong-nodes",
              lambda: "%s: nodes %r" % (where, list(g.nodes)))
    present, lagged = [], {}
    for u, v, d in g.edges(data=True):
        w = d.get("weight")
        (i, lu), (j, lv) = [(int(x.split("_lag")[0]), int(x.split("_lag")[1])) for x in (u, v)]
        sim.check(lv == 0, "edge-into-the-past", "%s: %r -> %r" % (where, u, v))
        if lu == 0:
            present.append((i, j, w))
            continue
        lagged[i, lu, j] = w
        f = decay ** (lu - 1)
        sim.check(isinstance(w, (float, np.floating)) and w != 0 and in_range(w, le / f, he / f), "lagged-weight-out-of-range",
                  lambda: "%s: edge %r->%r has weight %r" % (where, u, v, w))
        sim.check(d.get("origin") == "unknown", "wrong-origin", "%s: %r" % (where, d))
    intra_ok(sim, present, n, intra, da, la, ha, where)
    if le > 0:
        if inter == "full" or de >= n:
            sim.check(len(lagged) == p * n * n, "missing-lagged-edges", "%s: %d of %d" % (where, len(lagged), p * n * n))
        elif de == 0:
            sim.check(not lagged, "edges-at-degree-0", "%s: %r" % (where, lagged))
    sim.sched(sorted(kw.items()), sorted(present), sorted(lagged.items()))
    return len(present) + len(lagged)


def rejected(sim, M):
    what = sim.pick(["one node", "weights", "type", "dynamic weights", "dynamic lagged weights", "dynamic type",
                     "dynamic lagged type", "dynamic one node"])
    dyn = dict(num_nodes=3, p=1, degree_intra=1, degree_inter=1)
    calls = {
        "one node": lambda: M.generate_structure(sim.pick([1, 0]), 1),
        "weights": lambda: M.generate_structure(3, 1, w_min=2, w_max=sim.pick([1, -1])),
        "type": lambda: M.generate_structure(3, 1, sim.pick(["fulll", "", "erdos"])),
        "dynamic weights": lambda: M.generate_structure_dynamic(w_min_intra=2, w_max_intra=1, **dyn),
        "dynamic lagged weights": lambda: M.generate_structure_dynamic(w_min_inter=2, w_max_inter=1, **dyn),
        "dynamic type": lambda: M.generate_structure_dynamic(graph_type_intra="nope", **dyn),
        "dynamic lagged type": lambda: M.generate_structure_dynamic(graph_type_inter=sim.pick(["nope", "barabasi-albert"]), **dyn),
        "dynamic one node": lambda: M.generate_structure_dynamic(**dict(dyn, num_nodes=1)),
    }
    sim.fault("bad_input:" + what)
    sim.sched("bad", what)
    try:
        calls[what]()
    except ValueError as e:
        if stub_gap(e) is not None:
            raise
        return
    sim.fail("accepted-bad-input", "%s was accepted" % what)


def frequencies(sim, M):
    """Genuine randomness: densities, signs, orientation and weights have the documented distribution."""
    rng = G.Rng(sim)
    np.random.seed(sim.draw(2 ** 32))
    kind = sim.pick(["erdos-renyi", "full", "barabasi-albert", "lagged", "attachment"])
    n, K = sim.between(5, 8), 40
    lo, hi = 0.5, 2.5
    degree = sim.pick([1, 2, 3, 2.5])
    pairs = n * (n - 1) // 2
    if kind == "lagged":
        p = sim.between(1, 3)
        decay = 2.0
        with rng:
            gs = [M.generate_structure_dynamic(n, p, 0, degree, w_min_inter=lo, w_max_inter=hi, w_decay=decay)
                  for _ in range(K)]
        es = [(u, v, w) for g in gs for u, v, w in g.edges(data="weight")]
        G.frequency(sim, "lagged-density", len(es), K * p * n * n, degree / n, "lagged edges, n=%d degree=%r" % (n, degree))
        for k in range(1, p + 1):
            m = [w for u, _, w in es if u.endswith("_lag%d" % k)]
            G.frequency(sim, "lagged-density", len(m), K * n * n, degree / n, "edges of lag %d" % k)
            big = sum(abs(w) > (lo + hi) / 2 / decay ** (k - 1) for w in m)
            G.frequency(sim, "weight-distribution", big, len(m), 0.5, "weights of lag %d in the upper half" % k)
        G.frequency(sim, "sign-share", sum(w < 0 for _, _, w in es), len(es), 0.5, "negative lagged weights")
        sim.sched("frequency", kind, n, p, degree, len(es))
        return
    if kind == "attachment":
        # each new node joins one end of a uniformly chosen earlier edge end (or node): 4 nodes form a star 8 times in 15
        K = 400
        with rng:
            stars = sum(max(dict(M.generate_structure(4, 2, "barabasi-albert").degree()).values()) == 3 for _ in range(K))
        G.frequency(sim, "preferential-attachment", stars, K, 8 / 15, "stars among scale-free trees of 4 nodes")
        sim.sched("frequency", kind, stars)
        return
    with rng:
        gs = [M.generate_structure(n, degree, kind, lo, hi) for _ in range(K)]
    es = [(u, v, w) for g in gs for u, v, w in g.edges(data="weight")]
    if kind == "erdos-renyi":
        G.frequency(sim, "density", len(es), K * pairs, degree / (n - 1), "edges, n=%d degree=%r" % (n, degree))
    G.frequency(sim, "sign-share", sum(w < 0 for _, _, w in es), len(es), 0.5, "%s: negative weights" % kind)
    G.frequency(sim, "weight-distribution", sum(abs(w) > (lo + hi) / 2 for _, _, w in es), len(es), 0.5,
                "%s: weights in the upper half" % kind)
    # edges of one graph share the permutation: test one pair per graph
    i, j = sim.shuffled(range(n))[:2]
    one = [g for g in gs if g.has_edge(i, j) or g.has_edge(j, i)]
    G.frequency(sim, "orientation", sum(g.has_edge(i, j) for g in one), len(one), 0.5,
                "%s: %d -> %d among graphs joining them" % (kind, i, j))
    if kind == "erdos-renyi":
        G.frequency(sim, "density", len(one), K, degree / (n - 1), "graphs joining %d and %d" % (i, j))
    sim.sched("frequency", kind, n, degree, len(es))


def run(sim):
    M, SM = G.load()
    sim.choose_set_order()
    np.random.seed(sim.draw(2 ** 32))
    if sim.draw(8) == 7:
        frequencies(sim, M)
        sim.nontrivial = True
        sim.units["frequency experiment"] += 1
        return
    for _ in range(sim.between(1, 3)):
        rng = G.Rng(sim, sim.pick(["genuine", "extreme", "rare"]))
        c = G.quiet()
        try:
            what = sim.pick([static, static, dynamic])
            edges = what(sim, M, SM, rng)
        finally:
            c.__exit__(None, None, None)
        sim.units[what.__name__] += 1
        sim.probe("edges", edges)
        if edges and rng.policy != "genuine":
            sim.nontrivial = True
        if sim.draw(6) == 5:
            rejected(sim, M)
            sim.nontrivial = True
