"""C30: fitted conditionals are the (smoothed) frequencies of the data of the last fit, whatever order anything comes in."""
from .. import bnmodel as M
from .. import sched
from ..core import HarnessError, Violation, stepping
from ..stubs import minipgmpy as PG
from . import infer as I
from .c23 import Ref, compare, fit_table, Mismatch, snap
from .common import QUERY_BUDGET

LEVEL = "exploration"
TECH = ("seeded simulation of fit histories over several networks: set and dict orders, row and column orders and thread "
        "switches at executed lines are drawn; every fitted table compared with frequencies counted in rationals")
NOTE = ("pgmpy's estimators are a stand-in that counts; causalnex's state numbering, column selection, estimator arguments, "
        "labelling of the tables and predictions from them are real.")
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("one run = 1-3 networks over the same columns (other edges, other insertion orders) and 2-6 steps: states fitted on one "
        "frame and conditionals on another (rows and columns shuffled, rows repeated, extra columns, any row labels, a subset "
        "of the states, unobserved parent combinations), both at once, refits with another method, prior or sample size, or "
        "2-3 networks fitted from shared frames by threads; after each step every table and the predictions of a drawn frame "
        "are compared; non-trivial = a refit or concurrent fits; distinct = distinct history")
REAL = ["causalnex.network, causalnex.structure.structuremodel (from /repo's working tree)", "networkx"]
STUB = ["set iteration order (SimSet)", "pandas (small stand-in)", "pgmpy (stand-in, genuine counting)", "thread scheduler"]
ASSUMPTIONS = ["pandas and pgmpy are absent here: the stand-ins follow their documented behaviour for what causalnex uses",
               "a parent combination that never occurs gets a uniform conditional (pgmpy's convention)",
               "float answers are compared with exact rationals within 1e-9", "switch points are at line boundaries of "
               "causalnex code", "sampled histories: a clean batch is evidence, not proof"]
setup = I.setup


class One:
    """A network under test and what it must report."""

    def __init__(self, sim, S, N, net, par):
        self.par = par
        sm = S.StructureModel()
        if sim.draw(2):
            sm.add_nodes_from(sim.shuffled(net.vars))
        self.edges = [(p, v) for v in net.vars for p in par[v]]
        sm.add_edges_from(sim.shuffled(self.edges))
        self.nodes = sorted({n for e in self.edges for n in e})
        self.bn = N.BayesianNetwork(sm)
        self.ref = Ref()
        self.fits = 0


def run(sim):
    S, N, _ = I.load()
    import pandas as pd
    sim.choose_set_order()
    sim.kept = []
    net = I.gen(sim, 2, 4, max_joint=150)
    nets = [One(sim, S, N, net, net.par)]
    for _ in range(sim.draw(3)):
        nets.append(One(sim, S, N, net, net.par if sim.draw(2) else other_parents(sim, net)))
    sim.note("nets", [o.edges for o in nets], net.dom)
    if sim.run_index % 50 == 0:
        sim.sample = {"nets": str([o.edges for o in nets]), "states": str(net.dom)}
    for step in range(sim.between(2, 6)):
        where = "step %d" % step
        kind = sim.draw(8)
        if kind in (0, 1):
            together(sim, pd, net, nets, where)
        else:
            o = sim.pick(nets)
            job = plan(sim, pd, net, o)
            with stepping(sim, budget=QUERY_BUDGET):
                perform(sim, o, job, where)
            finish(sim, pd, net, o, job, where)
        for o in nets:                              # a fit of one network leaves the others alone
            match(sim, net, o, where)


def other_parents(sim, net):
    """Another connected acyclic choice of parents over the same columns."""
    order = sim.shuffled(net.vars)
    par = {order[0]: []}
    for i, v in enumerate(order[1:], 1):
        par[v] = sim.shuffled(order[:i])[:sim.between(1, min(i, 3))]
    return par


def rows_of(sim, net, doms, n):
    """Rows either independent or from the network (so that some parent combinations are missing)."""
    if sim.draw(2):
        joint = [a for a, p in net.joint() if p and all(a[v] in doms[v] for v in net.vars)]
        if joint:
            few = sim.shuffled(joint)[:sim.between(1, 4)] if sim.draw(2) else joint
            return [dict(sim.pick(few)) for _ in range(n)]
    return [{v: sim.pick(doms[v]) for v in net.vars} for _ in range(n)]


def frame(sim, pd, rows, cols, extra):
    n = len(rows)
    vals = {c: [M.equal_copy(r[c]) for r in rows] for c in cols}
    if extra:
        vals["zz"] = [sim.draw(3) for _ in range(n)]
    idx = [list(range(n)), list(range(5, 5 + n)), sim.shuffled(range(n)), ["r%d" % k for k in range(n)], [0] * n][sim.draw(5)]
    order = sim.shuffled(sorted(vals))
    return pd.DataFrame({c: vals[c] for c in order}, index=idx)


def plan(sim, pd, net, o, again=True):
    doms = {v: list(net.dom[v]) for v in net.vars}
    if sim.draw(3) == 2:
        v = sim.pick(net.vars)
        doms[v] = sim.shuffled(doms[v])[:sim.between(1, len(doms[v]))]
    old = None
    if again and sim.kept and sim.draw(4) == 3:        # an earlier frame, with other values in it
        old = sim.pick(sim.kept)
        if not set(o.nodes) <= set(old.columns.tolist()):
            old = None
    rows = rows_of(sim, net, doms, sim.size(1, 14) if old is None else len(old))
    if old is None and sim.draw(4) == 3:
        rows = sim.shuffled(rows * 2)
    extra = sim.draw(3) == 2
    cols = list(net.vars) if sim.draw(3) else list(o.nodes)
    job = {"method": ["MaximumLikelihoodEstimator", "BayesianEstimator", "BayesianEstimator"][sim.draw(3)], "prior": None,
           "ess": sim.pick([None, 1, 10, 3]), "how": sim.draw(4)}
    if job["method"] == "BayesianEstimator":
        job["prior"] = ["K2", "BDeu"][sim.draw(2)]
    elif sim.draw(3) == 2:
        job["prior"] = "K2"                        # ignored by maximum likelihood
    known = o.ref.states
    if job["how"] == 0 and known is not None and all(v in known and all(r[v] in known[v] for r in rows) for v in o.nodes):
        job["states"] = None                       # the states of an earlier fit stay in force
    elif job["how"] == 1:
        job["states"] = "both"
    else:
        srows = [{v: net.dom[v][i % len(net.dom[v])] for v in net.vars} for i in range(max(map(len, net.dom.values())))]
        job["states"] = frame(sim, pd, sim.shuffled(srows), cols, extra and sim.draw(2))
        job["setter"] = sim.draw(4) == 3
    if old is None:
        job["data"] = frame(sim, pd, rows, cols, extra)
        sim.kept.append(job["data"])
    else:
        for v in net.vars:
            if v in old.columns.tolist():
                old[v] = [M.equal_copy(r[v]) for r in rows]
        job["data"] = old
        sim.probe("frame_again")
    job["rows"] = {v: [r[v] for r in rows] for v in net.vars}
    job["snaps"] = [(d, snap(d)) for d in (job["data"], job["states"]) if hasattr(d, "columns")]
    job["kw"] = {}
    if job["prior"] is not None or sim.draw(2):
        job["kw"]["bayes_prior"] = job["prior"]
    if job["ess"] is not None:
        job["kw"]["equivalent_sample_size"] = job["ess"]
    if job["method"] != "MaximumLikelihoodEstimator" or sim.draw(2):
        job["kw"]["method"] = job["method"]
    return job


def perform(sim, o, job, where):
    bn = o.bn
    if isinstance(job["states"], str):
        out = bn.fit_node_states_and_cpds(job["data"], **job["kw"])
    else:
        if job["states"] is not None:
            st = job["states"]
            if job["setter"]:
                bn.node_states = {c: set(st[c].tolist()) for c in st.columns}
            else:
                sim.check(bn.fit_node_states(st) is bn, "wrong-return", "%s: fit_node_states did not return the network" % where)
        out = bn.fit_cpds(job["data"], **job["kw"])
    sim.check(out is bn, "wrong-return", "%s: a fit did not return the network" % where)


def finish(sim, pd, net, o, job, where):
    src = job["data"] if isinstance(job["states"], str) else job["states"]
    if src is not None:
        o.ref.states = {c: frozenset(src[c].tolist()) for c in src.columns}
    st = o.ref.states
    o.ref.cpds = (st, fit_table(o.nodes, o.par, st, job["rows"], job["method"], job["prior"], job["ess"]))
    for d, before in job["snaps"]:
        sim.check(snap(d) == before, "data-changed", lambda: "%s changed the caller's data: %r became %r" % (where, before, snap(d)))
    o.fits += 1
    sim.nontrivial = sim.nontrivial or o.fits > 1
    sim.sched("fit", job["method"], job["prior"], job["ess"], o.edges, len(job["data"]))
    sim.units["fits"] += 1
    match(sim, net, o, where)
    predictions(sim, pd, net, o, where)


def match(sim, net, o, where):
    if o.ref.cpds is None:
        return
    shadow = type("N", (), {"par": o.par})
    try:
        compare(o.bn, o.nodes, shadow, o.ref)
    except Mismatch as m:
        sim.fail("wrong-table", "%s: %s" % (where, m))
    sim.check(sorted(o.bn.nodes) == o.nodes and sorted(o.bn.edges) == sorted(o.edges), "structure-changed", where)
    sim.units["tables"] += len(o.nodes)


def predictions(sim, pd, net, o, where):
    st = o.ref.states
    target = sim.pick(o.nodes)
    ps = sorted(o.par[target])
    n = sim.between(1, 4)
    rows = [{v: sim.pick(sorted(st[v])) for v in o.nodes} for _ in range(n)]
    cols = sim.shuffled([v for v in o.nodes if v in ps or sim.draw(2)] or [target])
    df = pd.DataFrame({c: [r[c] for r in rows] for c in cols})
    table = o.ref.cpds[1]
    with stepping(sim, budget=QUERY_BUDGET):
        best, prob = o.bn.predict(df, target), o.bn.predict_probability(df, target)
    for i, r in enumerate(rows):
        dist = {s: table[(target, s, tuple(r[p] for p in ps))] for s in st[target]}
        got = best[target + "_prediction"].tolist()[i]
        sim.check(got in dist and float(max(dist.values()) - dist[got]) <= 1e-12, "wrong-prediction",
                  lambda: "%s: %r predicts %r, frequencies %r" % (where, r, got, dist))
        for s, p in dist.items():
            q = prob["%s_%s" % (target, s)].tolist()[i]
            sim.check(abs(float(q) - float(p)) <= 1e-9, "wrong-prediction",
                      lambda: "%s: %r P(%s=%r) = %r, frequency %r" % (where, r, target, s, q, p))


def together(sim, pd, net, nets, where):
    s = sched.Scheduler(sim, [(1, 2, 3, 5, 9), (5, 20, 60), (3, 30, 100)][sim.draw(3)])
    who = sim.shuffled(nets)[:3]
    work, shared = [], None
    for o in who:
        job = plan(sim, pd, net, o, False)
        if shared is not None and sim.draw(2) and set(o.nodes) <= set(shared["data"].columns.tolist()):
            job = dict(job, data=shared["data"], rows=shared["rows"], states="both", snaps=shared["snaps"])
        shared = job
        work.append((o, job))

    def client(o, job):
        def body():
            perform(sim, o, job, where)
        return body
    for k, (o, job) in enumerate(work):
        s.spawn("fit%d" % k, client(o, job))
    reader = sim.pick(nets)
    seen = []
    if reader not in who and reader.ref.cpds is not None:
        def read():
            seen.append(reader.bn.cpds)
        s.spawn("reader", read)
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %s: %r" % (where, c.name, c.error)) from c.error
    sim.fault("thread_switch", s.switches)
    for o, job in work:
        finish(sim, pd, net, o, job, where + " (concurrent)")
    sim.nontrivial = sim.nontrivial or len(work) > 1
