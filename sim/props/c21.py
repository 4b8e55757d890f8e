"""C21: stationary dynamic data generation retries within its limit, honestly."""
import warnings

import numpy as np

from ..core import InjectedError, SimCrash, stepping
from . import dyn
from . import gen as G

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of the random source deciding the fate of every attempt (stable, divergent, spiked, overflowing, "
        "empty graph first), with attempts counted at the seam and returned data checked against the returned structure")
NOTE = "Generator is real; pandas is a stand-in."
RUNS = {"quick": 1600, "thorough": 80000}
RULE = ("one run = one or two calls with a planned sequence of good and bad attempts; non-trivial = at least one attempt was bad "
        "or the call was interrupted; distinct = distinct (arguments, attempt plan) pairs")
REAL, STUB = G.REAL, G.STUB
ASSUMPTIONS = G.ASSUME + ["the requested degrees allow an edge of each kind (otherwise no acceptable graph exists)"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
setup = G.setup
STRUCTURE = {"rand", "random", "random_sample", "uniform", "permutation", "choice", "randint", "binomial"}
NOISE = {"normal", "standard_normal", "randn", "exponential", "standard_exponential", "gumbel"}


class Fates:
    """Decides each attempt's fate through the random source."""

    def __init__(self, plan, d):
        self.plan, self.d = plan, d
        self.attempt = -1
        self.phase = "noise"
        self.graphs = 0
        self.noise = []
        self.k = 0
        self.signs = None
        self.calls, self.fail_at, self.exc = 0, None, None

    def fate(self):
        return self.plan[min(self.attempt, len(self.plan) - 1)]

    def __call__(self, name, a, k, v):
        self.calls += 1
        if self.calls == self.fail_at:
            raise self.exc
        if name in STRUCTURE:
            if self.phase == "noise":
                self.attempt += 1
                self.graphs = 0
                self.noise = []
                self.k = 0
                self.phase = "structure"
            if name in ("rand", "random", "random_sample"):
                self.graphs += 1
            fate = self.fate()
            if fate == "natural":
                return v
            if name == "uniform":
                lo, hi = G._ends(name, a, k)
                out = np.array(v)
                out[...] = hi if fate in ("wild", "nan") else lo
                return out
            if name in ("rand", "random", "random_sample"):
                if fate == "empty" and self.graphs <= 4:
                    return np.full(np.shape(v), 1 - G.TINY)
                if fate == "nan":
                    # one variable overflows through two lags of opposite sign; the others do not depend on it
                    out = np.full(np.shape(v), 1 - G.TINY)
                    if out.shape[0] > self.d:
                        out[0, 0] = out[self.d, 0] = 0.0
                        self.signs = 0
                    elif self.signs is not None:
                        self.signs += 1
                        out[...] *= self.signs % 2
                    return out
                if fate in ("wild", "empty"):
                    return np.zeros(np.shape(v))
            return v
        if name in NOISE:
            self.phase = "noise"
            out = np.array(v, dtype=float).ravel()
            fate = self.fate()
            if fate.startswith("spiked"):
                # every seventh time step has a spike, in all variables or in one
                for i in range(len(out)):
                    row, col = divmod(self.k, self.d)
                    self.k += 1
                    if row % 7 == 3 and (col == 0 or fate != "spiked one"):
                        out[i] = (5000.0 + self.k) * (-1 if fate == "spiked down" else 1)
            self.noise.extend(out.tolist())
            return out.reshape(np.shape(v)) if np.ndim(v) else type(v)(out[0])
        return v


def run(sim):
    M, SM = G.load()
    sim.choose_set_order()
    np.random.seed(sim.draw(2 ** 32))
    for _ in range(sim.between(1, 2)):
        one(sim, M, SM)


def one(sim, M, SM):
    d = sim.between(2, 4)
    p = sim.pick([1, 1, 2, 3, 0])
    n = sim.pick([10, 20, 35])
    sem = sim.pick(["linear-gauss", "linear-exp", "linear-gumbel"])
    trials = sim.pick([1, 2, 3, 4])
    # numbers of more than one digit
    size = sim.draw(16)
    if size == 15:
        d, p = 2, sim.pick([10, 11])
    elif size == 14:
        d, p = sim.pick([11, 12]), sim.between(0, 1)
    degs = sim.pick([(3, 3), (1, 1), (2, 1), (0, 2), (2, 0), (0, 0)])
    graph = sim.pick([("erdos-renyi", "erdos-renyi"), ("full", "full"), ("full", "erdos-renyi"), ("barabasi-albert", "full")])
    # barabasi graphs of degree 1 have no edge; then no acceptable graph exists
    if graph[0] == "barabasi-albert" and degs[0] == 1:
        degs = (2, degs[1])
    nan = sim.draw(8) == 7
    if nan:
        degs, graph, p = (0, 1), ("erdos-renyi", "erdos-renyi"), sim.pick([2, 3])
    stop = sim.between(1, 5)       # index of the first stable attempt
    plan = [sim.pick(["wild", "natural", "spiked", "spiked one"] + ["nan"] * 3 * nan +
                     (["spiked down"] if sem != "linear-exp" else [])) for _ in range(stop - 1)] + [sim.pick(["stable", "stable", "empty"])]
    for f in plan:
        if f != "stable":
            sim.fault("attempt:" + f)
    wa, we = sim.pick([(0.02, 3.0), (0.01, 3.0)]), sim.pick([(0.02, 3.0), (0.015, 1e4), (0.015, 1e4)])
    decay = sim.pick([1.0, 1.0, 1.5])
    kw = dict(num_nodes=d, n_samples=n, p=p, degree_intra=degs[0], degree_inter=degs[1], graph_type_intra=graph[0],
              graph_type_inter=graph[1], w_min_intra=wa[0], w_max_intra=wa[1], w_min_inter=we[0], w_max_inter=we[1],
              w_decay=decay, sem_type=sem, noise_scale=sim.pick([1.0, 0.5, 1e-6]), max_data_gen_trials=trials)
    given = G.omit(sim, dict(kw), graph_type_intra="erdos-renyi", graph_type_inter="erdos-renyi", w_decay=1.0,
                   sem_type="linear-gauss", noise_scale=1.0, p=1, degree_intra=3, degree_inter=3)
    where = "gen_stationary_dyn_net_and_df(%r) with attempts %r" % (kw, plan)
    sim.sched(where)
    err = np.geterr()

    def call(fail_at=None, exc=None):
        fates = Fates(plan, d)
        fates.fail_at, fates.exc = fail_at, exc
        rng = G.Rng(sim)
        rng.hook = fates
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            with rng:
                out = M.gen_stationary_dyn_net_and_df(**given)
        return out, fates, [w for w in caught if issubclass(w.category, UserWarning) and "simulate" in str(w.message)]
    if sim.draw(5) == 4:
        # interrupted at any line, or by the random source failing
        line, at, exc = sim.draw(2), 1 + sim.draw(400), sim.pick(EXCS)("injected")
        try:
            with stepping(sim, inject_at=at if line else None, exc=exc) as s:
                call(None if line else at // 4 + 1, exc)
        except BaseException as e:
            if not G.caused_by(e, exc):
                raise
            sim.fault(("async_exception:" if line else "random_source_failed:") + type(exc).__name__)
            sim.sched("interrupted at", s.where)
        if line:
            np.seterr(**err)    # python itself does not protect the last instruction of a with block
        sim.check(np.geterr() == err, "error-state-leaked", "%s: interrupted call left numpy error handling %r" % (
            where, np.geterr()))
    with stepping(sim, budget=3_000_000):
        (g, df, intra, inter), fates, warned = call()
    sim.check(np.geterr() == err, "error-state-leaked", "%s: numpy error handling is now %r" % (where, np.geterr()))
    used = fates.attempt + 1
    nodes = ["%d_lag%d" % (i, k) for i in range(d) for k in range(p + 1)]
    sim.check(isinstance(g, SM.StructureModel) and set(g.nodes) == set(nodes), "wrong-structure",
              lambda: "%s: nodes %r" % (where, list(g.nodes)))
    sim.check(sorted(intra) == sorted(x for x in nodes if x.endswith("_lag0")) and
              sorted(inter) == sorted(x for x in nodes if not x.endswith("_lag0")), "wrong-node-lists",
              lambda: "%s: %r %r" % (where, intra, inter))
    sim.check(list(df.columns) == list(intra) + list(inter), "wrong-columns", lambda: "%s: %r" % (where, list(df.columns)))
    sim.check(used <= trials, "too-many-attempts", "%s: %d attempts" % (where, used))
    sim.check(len(warned) <= 1, "warned-twice", "%s: %d warnings" % (where, len(warned)))
    good = [k for k in range(used) if plan[min(k, len(plan) - 1)] in ("stable", "empty")]
    vals = np.asarray(df.values, dtype=float)
    if warned:
        sim.check(not good, "success-discarded", "%s: attempt %s was stationary, yet it warned of failure" % (
            where, [k + 1 for k in good]))
        sim.check(used == trials, "attempts-cut-short", "%s: gave up after %d attempts" % (where, used))
        sim.check(vals.shape == (n, len(nodes)) and (vals == 1).all(), "not-constant", lambda: "%s: failed, but returned %r" % (
            where, vals[:3].tolist()))
    else:
        sim.check(np.isfinite(vals).all() and np.abs(vals).max() < 1e3, "divergence-passed-off",
                  lambda: "%s: no warning, but the data reaches %r" % (where, float(np.abs(vals).max())))
        sim.check(not fates.fate().startswith("spiked"), "divergence-passed-off", "%s: a divergent attempt was returned" % where)
        sim.check(len(good) <= 1, "success-ignored", "%s: went on after attempt %s succeeded" % (where, good and good[0] + 1))
        resid = dyn.judge(sim, g, df, n, nodes, np.array(fates.noise), where)
        noise, scale = np.concatenate(list(resid.values())), kw["noise_scale"]
        sim.check(scale * 1e-3 < np.abs(noise).max() < 50 * scale, "wrong-noise", "%s: noise reaches %r" % (
            where, float(np.abs(noise).max())))
        if sem == "linear-exp":
            sim.check(noise.min() > -1e-9 * scale - 1e-12, "wrong-noise", "%s: exponential noise %r" % (where, float(noise.min())))
        elif len(noise) >= 60:
            sim.check(noise.min() < 0, "wrong-noise", "%s: noise is never negative" % where)
        if p and degs[0] and degs[1]:
            k0 = [(u, v) for u, v in g.edges if u in intra]
            sim.check(k0 and len(k0) < len(g.edges), "empty-structure", lambda: "%s: edges %r" % (where, list(g.edges)))
    present = lagged = 0
    for u, v, w in g.edges(data="weight"):
        k = dyn.split(u)[1]
        lo, hi = wa if k == 0 else (we[0] / decay ** (k - 1), we[1] / decay ** (k - 1))
        present, lagged = present + (k == 0), lagged + (k > 0)
        sim.check(dyn.split(v)[1] == 0 and lo * (1 - 1e-9) <= abs(w) <= hi * (1 + 1e-9), "wrong-structure",
                  "%s: edge %r" % (where, (u, v, w)))
    if graph[0] == "full":
        sim.check(present == d * (d - 1) // 2, "wrong-structure", "%s: %d present edges" % (where, present))
    elif degs[0] == 0:
        sim.check(not present, "wrong-structure", "%s: %d present edges" % (where, present))
    if graph[1] == "full":
        sim.check(lagged == p * d * d, "wrong-structure", "%s: %d lagged edges" % (where, lagged))
    elif degs[1] == 0:
        sim.check(not lagged, "wrong-structure", "%s: %d lagged edges" % (where, lagged))
    if used > 1 or plan[0] != "stable":
        sim.nontrivial = True
    sim.probe("attempts", used)
    sim.probe("warned" if warned else "succeeded")
    sim.units["call"] += 1
