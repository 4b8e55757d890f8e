"""C19: seeded data generation is reproducible and keeps its inputs."""
import copy

import numpy as np

from ..core import InjectedError, SimCrash, stepping, stub_gap
from .. import simset
from . import gen as G

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of generator call histories (other calls, global draws, re-seeding, interruptions at any line, "
        "reloads, set reorderings) with bit-exact comparison of repeated seeded calls")
NOTE = "Generators are real; pandas and the RBF kernel are stand-ins. Unseeded calls are outside the statement."
RUNS = {"quick": 4000, "thorough": 150000}
RULE = ("one run = one seeded generator call repeated within a random history of other calls, faults and reloads; non-trivial "
        "= something between two repetitions disturbed the global random state; distinct = distinct (call, history) pairs")
REAL, STUB = G.REAL, G.STUB
ASSUMPTIONS = G.ASSUME + ["one thread: numpy's global generator cannot separate concurrent callers"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
setup = G.setup


class Call:
    """One generator call with all its arguments."""

    def __init__(self, sim, SM):
        self.sim = sim
        self.graph, self.names, self.parents, self.w = G.make_graph(sim, SM, hi=5, pool=sim.pick(G.NAMEPOOLS[:3]))
        self.schema, self.default, self.full = G.make_schema(sim, self.names)
        self.n = sim.pick([2, 5, 1, 30, 120])
        self.noise = sim.pick([1.0, 0.5, 2.0])
        self.intercept = bool(sim.draw(2))
        self.kind = sim.pick(["sem", "nonlinear", "continuous", "binary", "count", "categorical", "continuous_data", "binary_data"])
        self.kernel = self.kind == "nonlinear" or (self.kind != "sem" and sim.draw(3) == 2)
        self.seed = sim.pick([0, 1, 7, 123, 2 ** 32 - 1])
        self.cats = sim.between(2, 4)
        base = self.kind.split("_")[0]
        if base in ("continuous", "binary", "categorical", "count"):
            self.default = base if base != "categorical" else "categorical:%d" % self.cats
            self.full = {v: self.default for v in self.names}
            self.schema = None
        self.dist = {"continuous": sim.pick(["gaussian", "normal", "student-t", "exponential", "gumbel"]),
                     "binary": sim.pick(["logit", "probit", "normal"]),
                     "categorical": sim.pick(["logit", "probit", "normal", "gumbel"]),
                     "count": sim.pick([0.05, 0.0, 0.3, 0.1])}
        self.omit = sim.draw(2)
        self.more = dict(weight=sim.pick(["uniform", "normal"]), intercept=sim.pick(["uniform", "gaussian"])) \
            if self.kind == "sem" else {}
        # what the user passes: all, some or none of the entries
        self.dists = sim.pick([dict(self.dist, **self.more), dict(self.dist, **self.more),
                               {k: self.dist[k] for k in sim.subset(sorted(self.dist))}, {}, None])

    def describe(self):
        return "%s(edges=%r, schema=%r, default=%r, n=%d, noise=%r, intercept=%r, kernel=%r, seed=%r, dist=%r)" % (
            self.kind, list(self.graph.edges(data="weight")), self.schema, self.default, self.n, self.noise, self.intercept,
            self.kernel, self.seed, self.dists if self.kind in ("sem", "nonlinear") else self.dist)

    def make_kernel(self):
        from sklearn.gaussian_process.kernels import RBF
        return RBF(1.5)

    def run(self, M, seed=None, graph=None):
        """The call as the user makes it."""
        seed = self.seed if seed is None else seed
        g = self.graph if graph is None else graph
        k = self.kind
        if k == "sem":
            return M.sem_generator(g, schema=self.schema, default_type=self.default, noise_std=self.noise, n_samples=self.n,
                                   distributions=self.dists, intercept=self.intercept, seed=seed)
        if k == "nonlinear":
            return M.nonlinear_sem_generator(g, kernel=self.make_kernel(), schema=self.schema, default_type=self.default,
                                             noise_std=self.noise, n_samples=self.n, distributions=self.dists, seed=seed)
        kw = dict(n_samples=self.n, intercept=self.intercept, seed=seed)
        if self.kernel:
            kw["kernel"] = self.make_kernel()
        base = k.split("_")[0]
        if base == "count":
            kw["zero_inflation_factor"] = self.dist["count"]
        else:
            kw["distribution"] = self.dist[base]
            kw["noise_scale"] = self.noise
        if base == "categorical":
            kw["n_categories"] = self.cats
        if self.omit:                       # arguments left out have their documented default value
            for a, v in dict(intercept=False, noise_scale=1.0, zero_inflation_factor=0.1, n_categories=3,
                             distribution="gaussian" if base == "continuous" else "logit").items():
                if kw.get(a) == v:
                    del kw[a]
        f = getattr(M, "generate_" + (k if k.endswith("_data") else k + "_dataframe"))
        return f(g, **kw)

    def generic(self, M):
        """The same data from the general generator."""
        base = self.kind.split("_")[0]
        kw = dict(default_type=self.default, n_samples=self.n, distributions={base: self.dist[base]},
                  noise_std=1 if base == "count" else self.noise, seed=self.seed)
        if self.kernel:
            return M.nonlinear_sem_generator(self.graph, kernel=self.make_kernel(), **kw)
        return M.sem_generator(self.graph, intercept=self.intercept, **kw)

    def inputs(self):
        return (G.frozen_graph(self.graph), copy.deepcopy(self.schema), copy.deepcopy(self.dists))


def run(sim):
    M, SM = G.load()
    sim.choose_set_order()
    np.random.seed(sim.draw(2 ** 32))
    rng = G.Rng(sim)
    c = G.quiet()
    try:
        with rng:
            _run(sim, M, SM)
    finally:
        c.__exit__(None, None, None)


def _run(sim, M, SM):
    call = Call(sim, SM)
    where = call.describe()
    before = call.inputs()
    first = call.run(M)
    want = G.bits(first)
    sim.check(call.inputs() == before, "input-changed", lambda: "%s: the graph, schema or distributions changed" % where)
    sim.sched(where)
    others = []
    for _ in range(sim.between(1, 5)):
        op = sim.pick(["again", "global_draws", "reseed", "other_call", "other_seed", "interrupt", "reload", "set_order",
                       "rejected", "copied_graph"])
        sim.sched(op)
        sim.units[op] += 1
        if op == "global_draws":
            np.random.rand(sim.between(1, 5))
            np.random.normal()
            sim.fault("global_state_disturbed")
        elif op == "reseed":
            np.random.seed(sim.draw(2 ** 32) if sim.draw(2) else None)
            sim.fault("global_state_disturbed")
        elif op == "other_call":
            o = Call(sim, SM)
            if not o.full or not G.collides(o.full):
                o.run(M)
            sim.fault("global_state_disturbed")
        elif op == "other_seed":
            s = sim.pick([call.seed ^ 1, call.seed + 1000, call.seed ^ (1 << 16), call.seed ^ (1 << 31),
                          call.seed ^ (1 << sim.draw(32))]) % 2 ** 32
            others.append(s)
            got = G.bits(call.run(M, seed=s))
            if "continuous" in call.full.values() and call.n >= 2:
                sim.check(got != want, "seed-ignored", "%s: the same data under seed %d" % (where, s))
            sim.fault("global_state_disturbed")
        elif op == "interrupt":
            at, exc = 1 + sim.draw(150), sim.pick(EXCS)("injected")
            try:
                with stepping(sim, inject_at=at, exc=exc) as s:
                    got = call.run(M)
            except BaseException as e:
                if not G.caused_by(e, exc):
                    raise
                sim.fault("async_exception:" + type(exc).__name__)
                sim.sched("at", s.where)
            else:
                sim.check(G.bits(got) == want, "not-reproducible", "%s: differs after %s" % (where, op))
        elif op == "reload":
            M, SM = G.load()
            sim.fault("module_reloaded")
        elif op == "set_order":
            simset.POLICY.reset(sim.draw(4), sim.draw(2 ** 20))
            sim.fault("set_iteration_reordered")
        elif op == "rejected":
            try:
                M.sem_generator(call.graph, default_type="continuous", distributions={"continuous": "nope"}, seed=5)
            except ValueError as e:
                if stub_gap(e) is not None:
                    raise
            sim.fault("rejected_call")
        elif op == "copied_graph":
            sim.check(G.bits(call.run(M, graph=copy.deepcopy(call.graph))) == want, "not-reproducible",
                      "%s: a copy of the graph gives other data" % where)
        sim.nontrivial = True
        if sim.draw(3) or op == "again":
            got = G.bits(call.run(M))
            sim.check(got == want, "not-reproducible", "%s: differs after %s" % (where, op))
    # a fresh process: new modules, other hash order, other global state
    M2, _ = G.load()
    simset.POLICY.reset(sim.draw(4), sim.draw(2 ** 20))
    np.random.seed(sim.draw(2 ** 32))
    sim.check(G.bits(call.run(M2)) == want, "not-reproducible", "%s: differs in a fresh process" % where)
    if call.kind not in ("sem", "nonlinear"):
        df = call.generic(M2)
        if call.kind.endswith("_data"):
            sim.check(isinstance(first, np.ndarray) and first.shape == (call.n, len(call.names)), "wrong-shape",
                      "%s: %r" % (where, getattr(first, "shape", None)))
            cols = {v: np.asarray(df[v].values, dtype=float) for v in call.names}
            for k, v in enumerate(call.graph.nodes):
                sim.check(np.array_equal(first[:, k], cols[v]), "wrong-column-order",
                          "%s: column %d is not the data of node %r" % (where, k, v))
        else:
            sim.check(G.bits(df) == want, "wrapper-differs", "%s: differs from the general generator" % where)
    sim.check(call.inputs() == before, "input-changed", lambda: "%s: the graph, schema or distributions changed" % where)
    # returned data is the caller's own
    if isinstance(first, np.ndarray):
        first[...] = 0
        sim.check(G.bits(call.run(M2)) == want, "not-reproducible", "%s: earlier result is shared" % where)
