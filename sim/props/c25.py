"""C25: simulated dynamic data follows the graph it is given."""
import numpy as np
from scipy import stats

from ..core import InjectedError, SimCrash, stepping, stub_gap
from . import dyn
from . import gen as G

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of the noise source under generate_dataframe_dynamic; each returned row is checked against the "
        "structural equations of the graph, using the noise values handed out")
NOTE = "Generator is real; pandas is a stand-in; frequency tests fire only beyond a 1e-8 tail bound."
RUNS = {"quick": 5000, "thorough": 150000}
RULE = ("one run = 1-3 series simulated from random dynamic graphs (up to 11 lags or 12 variables) with genuine or far-end "
        "noise, interruptions and bad input; non-trivial = the graph has a lagged and a present edge or two or more lags; "
        "distinct = distinct (graph, arguments) pairs")
REAL, STUB = G.REAL, G.STUB
ASSUMPTIONS = G.ASSUME + ["every variable is present at every lag of the graph, the present slice is acyclic"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
setup = G.setup


def make(sim, SM):
    d = sim.pick([1, 2, 3, 3, 4, 12])
    p = sim.pick([0, 1, 2, 2, 3, 4]) if d < 12 else sim.between(0, 2)
    if d <= 2 and sim.draw(6) == 5:
        p = 11
    names = {12: [str(i) for i in range(12)]}.get(d) or sim.pick([["0", "1", "2", "3"], ["b", "a", "x1", "x10"],
                                                                 ["price", "a b", "Z", "_"]])[:d]
    order = sim.shuffled(names)
    nodes = ["%s_lag%d" % (v, k) for v in names for k in range(p + 1)]
    g = SM.StructureModel()
    g.add_nodes_from(sim.shuffled(nodes))
    dens = sim.between(1, 4)
    edges = []
    for j in range(d):
        for i in range(j):
            if sim.draw(4) < dens:
                edges.append((order[i] + "_lag0", order[j] + "_lag0"))
    for k in range(1, p + 1):
        for i in names:
            for j in names:
                if sim.draw(6) < dens:
                    edges.append(("%s_lag%d" % (i, k), j + "_lag0"))
    unit = sim.draw(8) == 7
    cap = 0.9 / max(1, d)
    for u, v in sim.shuffled(edges):
        w = sim.pick([1, -1, 0.5, -0.3, 0.7]) * (cap if sim.draw(4) else 1.2)
        if unit and sim.draw(3) == 2:
            g.add_edge(u, v)        # weight 1 by convention
        else:
            g.add_edge(u, v, weight=w)
    return g, names, nodes, p, len(edges)


def one(sim, M, SM):
    g, names, nodes, p, edges = make(sim, SM)
    d = len(names)
    n = sim.pick([1, 2, 5, 12, 25]) if sim.draw(40) < 39 else 130
    kw = dict(n_samples=n, burn_in=sim.pick([0, 0, 1, 5, 20]), sem_type=sim.pick(["linear-gauss", "linear-exp", "linear-gumbel"]),
              noise_scale=sim.pick([1.0, 0.1, 3.0, 0.0]))
    drift = None
    if sim.draw(3) == 2:
        drift = np.array([sim.pick([0.0, 1.0, -2.0, 0.25]) + k / 16 for k in range(d)])
        kw["drift"] = drift
    if sim.draw(4) == 0:
        del kw["noise_scale"]
    G.omit(sim, kw, sem_type="linear-gauss", noise_scale=1.0)
    scale = kw.get("noise_scale", 1.0)
    where = "generate_dataframe_dynamic(edges=%r, %r)" % (sorted(g.edges(data="weight")), kw)
    sim.sched(where)
    rng = G.Rng(sim, sim.pick(["genuine", "genuine", "rare"]))
    rng.keep = True
    before = G.frozen_graph(g)
    keep = None if drift is None else drift.copy()

    def call():
        c = G.quiet()
        try:
            with rng:
                return M.generate_dataframe_dynamic(g, **kw)
        finally:
            c.__exit__(None, None, None)
    if sim.draw(6) == 5:
        at, exc = 1 + sim.draw(200), sim.pick(EXCS)("injected")
        try:
            with stepping(sim, inject_at=at, exc=exc) as s:
                call()
        except BaseException as e:
            if not G.caused_by(e, exc):
                raise
            sim.fault("async_exception:" + type(exc).__name__)
            sim.sched("interrupted at", s.where)
        rng.log.clear()
    with stepping(sim, budget=2_000_000):
        df = call()
    sim.check(G.frozen_graph(g) == before, "input-changed", "%s: the graph was changed" % where)
    if keep is not None:
        sim.check(np.array_equal(drift, keep), "input-changed", "%s: the drift array was changed" % where)
    drawn = np.concatenate([np.ravel(v) for k, v in rng.log]) if rng.log else None
    lag0 = [c for c in df.columns if str(c).endswith("_lag0")]
    byname = None if drift is None else dict(zip(sorted(v + "_lag0" for v in names), keep))
    if not np.isfinite(np.asarray(df.values, dtype=float)).all():
        return      # a divergent process is the caller's choice of weights
    dyn.judge(sim, g, df, n, nodes, drawn if scale else np.zeros(n * d), where, byname, kw["burn_in"], scale)
    sim.check(len(lag0) == d, "wrong-columns", "%s: %r" % (where, list(df.columns)))
    if edges and (p >= 2 or p):
        sim.nontrivial = True
    sim.probe("lags:%d" % p)
    sim.units["series"] += 1


def frequencies(sim, M, SM):
    """Genuine noise has the documented distribution."""
    g = SM.StructureModel()
    g.add_nodes_from(["a_lag0", "b_lag0", "a_lag1", "b_lag1"])
    g.add_weighted_edges_from([("a_lag1", "a_lag0", 0.5), ("a_lag0", "b_lag0", -1.0), ("b_lag1", "a_lag0", 0.2)])
    kind = sim.pick(["linear-gauss", "linear-exp", "linear-gumbel"])
    scale = sim.pick([1.0, 0.5, 2.0])
    n = 1500
    with G.Rng(sim):
        np.random.seed(sim.draw(2 ** 32))
        df = M.generate_dataframe_dynamic(g, n_samples=n, sem_type=kind, noise_scale=scale)
    where = "%s noise, scale %r" % (kind, scale)
    resid = dyn.judge(sim, g, df, n, list(g.nodes), None, where)
    dist = {"linear-gauss": stats.norm, "linear-exp": stats.expon, "linear-gumbel": stats.gumbel_r}[kind]
    for c, r in resid.items():
        for q in (0.1, 0.5, 0.9):
            G.frequency(sim, "noise-distribution", int((r <= scale * dist.ppf(q)).sum()), n, q, "%s: %r below quantile %g" % (
                where, c, q))
        k = int(((r[1:] > np.median(r)) == (r[:-1] > np.median(r))).sum())
        G.frequency(sim, "noise-not-independent", k, n - 1, 0.5, "%s: successive noise of %r" % (where, c))
    sim.sched(where)
    sim.units["frequency experiment"] += 1


def run(sim):
    M, SM = G.load()
    sim.choose_set_order()
    np.random.seed(sim.draw(2 ** 32))
    if sim.draw(24) == 23:
        frequencies(sim, M, SM)
        sim.nontrivial = True
        return
    for _ in range(sim.between(1, 3)):
        one(sim, M, SM)
    if sim.draw(8) == 7:
        g = make(sim, SM)[0]
        sim.fault("bad_input:sem_type")
        try:
            M.generate_dataframe_dynamic(g, n_samples=3, sem_type=sim.pick(["linear_exp", "", "gauss", "linear"]))
        except ValueError as e:
            if stub_gap(e) is not None:
                raise
        else:
            sim.fail("accepted-bad-input", "an unknown sem_type was accepted")
