"""C36: calls into the library leave the process as they found it, also when they fail or are interrupted."""
import gc
import logging
import os
import random
import signal
import sys
import threading
import warnings

import networkx as nx
import numpy as np

from .. import bnmodel as M
from .. import core, loader, stubs
from ..core import HarnessError, InjectedError, SimCrash, SimStop, Violation, stepping
from ..stubs import minigraphviz as G
from ..stubs import minipandas as MP
from ..stubs import minipgmpy as PG
from ..stubs import minitorch as T
from . import infer as I
from . import learn as L
from . import tl
from .c35 import Script
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of call histories over the whole public surface with fault injection (failing solver, estimator, factor "
        "callback, layout program, bad input, exceptions at any call); the process-wide state compared before and after each call")
NOTE = "all of causalnex is real; third-party packages that are absent are stand-ins."
RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("one run = 2-5 calls drawn from learning (NOTEARS, lasso, DYNOTEARS, PyTorch, estimators), fitting, predicting, inference, "
        "sampling, interventions, discretising, evaluating, lagging, generating and plotting, each possibly failing; non-trivial = a call "
        "failed; distinct = distinct history")
REAL = ["causalnex (from /repo's working tree)", "networkx", "numpy", "logging, warnings, random, signal, os, sys"]
STUB = ["pandas, pgmpy, scikit-learn, torch, pygraphviz, matplotlib, IPython (small stand-ins)", "scipy.optimize.minimize (scripted)",
        "set iteration order (SimSet)", "failing calls (an exception raised on entry of a chosen causalnex function)"]
ASSUMPTIONS = ["one thread (warnings.catch_warnings is not thread-safe before Python 3.14)", "seeded generators may reseed numpy's global "
               "generator, draws may advance the generator they use", "exceptions arise in calls, not "
               "between the statements of a cleanup", "sampled histories: a clean batch is evidence, not proof"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]


def setup():
    tl.setup()
    I.setup()
    stubs.install(torch=True)
    G.register(loader.STUB_MODULES)
    core.install_calls()


def process(rng):
    """Everything process-wide that the library could touch."""
    root = logging.getLogger()
    import scipy.optimize as so
    st = {
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "numpy error state": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "warning filters": list(warnings.filters),
        "warning output": id(warnings.showwarning),
        "root logger": (root.level, list(root.handlers), list(root.filters), root.disabled),
        "logging disabled": logging.root.manager.disable,
        "logger levels": sorted((k, v.level, len(v.handlers), v.propagate, v.disabled)
                                for k, v in logging.root.manager.loggerDict.items()
                                if isinstance(v, logging.Logger) and not k.startswith("asyncio")
                                and (v.level or v.handlers or not v.propagate or v.disabled)),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "import path": list(sys.path),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "exception hook": id(sys.excepthook),
        "standard output": (id(sys.stdout), id(sys.stderr)),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "threads": threading.active_count(),
        "pandas options": dict(MP.OPTIONS),
        "solver": id(so.minimize),
        "networkx graphs": (id(nx.DiGraph.add_edge), id(nx.DiGraph.add_edges_from)),
        "builtins": len(vars(__import__("builtins"))),
    }
    if "numpy" in rng:
        s = np.random.get_state()
        st["numpy random state"] = (s[0], s[1].tobytes(), s[2:])
    if "random" in rng:
        st["random state"] = (hash(core.SIMRANDOM.getstate()), hash(random.getstate()))
    return st


# ------------------------------------------------------------------ the calls
class World:
    """Objects to call, made when first asked for."""

    def __init__(self, sim):
        import pandas as pd
        self.sim, self.pd, self.made = sim, pd, {}
        (self.S, self.N, self.Inf, self.E, self.D, self.EV, self.TR, self.NT, self.DY, self.TN, self.SK, self.P, self.GEN) = loader.fresh(
            "causalnex.structure", "causalnex.network", "causalnex.inference", "causalnex.ebaybbn", "causalnex.discretiser",
            "causalnex.evaluation", "causalnex.structure.transformers", "causalnex.structure.notears",
            "causalnex.structure.dynotears", "causalnex.structure.pytorch", "causalnex.structure.pytorch.sklearn",
            "causalnex.plots", "causalnex.structure.data_generators")

    def get(self, name):
        if name not in self.made:
            self.made[name] = getattr(self, "make_" + name)()
        return self.made[name]

    def make_net(self):
        return I.gen(self.sim, 2, 4, max_joint=60)

    def make_bn(self):
        return I.build_bn(self.sim, self.S, self.N, self.get("net"), self.pd)

    def make_engine(self):
        return self.Inf.InferenceEngine(self.get("bn"))

    def make_graph(self):
        net = self.get("gnet")
        self.hook = None

        def hook(*a):
            if self.hook is not None:
                raise self.hook
        self.fs = M.Factors(self.sim, net, hook=hook)
        return self.E.build_bbn(list(self.fs.functions), domains=M.domains_arg(self.sim, net))

    def make_gnet(self):
        return M.gen_net(self.sim, 2, 5, max_joint=80)

    def make_est(self):
        est = self.SK.DAGRegressor(enforce_dag=True)
        with Script(3), np.errstate(all="ignore"):
            est.fit(self.matrix(6, 3)[:, :2], self.matrix(6, 1).ravel())
        return est

    def matrix(self, n, d):
        r = self.sim.substream()
        return np.array([[r.randrange(-8, 9) / 4.0 for _ in range(d)] for _ in range(n)])

    def frame(self, rows):
        return self.pd.DataFrame({v: [r[v] for r in rows] for v in sorted(rows[0])})

    def rows(self):
        sim, net = self.sim, self.get("net")
        return [{v: sim.pick(net.dom[v]) for v in net.vars} for _ in range(sim.between(3, 8))]


def learn(w):
    X = w.matrix(5, 3)
    k = w.sim.draw(5)
    df = w.pd.DataFrame({c: X[:, j] for j, c in enumerate("abc")})
    calls = [lambda: w.NT.from_numpy(X, max_iter=3), lambda: w.NT.from_pandas(df, max_iter=3, w_threshold=0.1),
             lambda: w.NT.from_pandas_lasso(df, 0.1, max_iter=3), lambda: w.NT.from_numpy_lasso(X, 0.1, max_iter=3),
             lambda: w.DY.from_numpy_dynamic(X, np.hstack([X, X]), max_iter=3)]
    return calls[k], ("numpy", "random")


def torch(w):
    X = w.matrix(6, 3)
    df = w.pd.DataFrame({c: X[:, j] for j, c in enumerate("abc")})
    return (lambda: w.TN.from_pandas(df, max_iter=2, hidden_layer_units=w.sim.pick([None, [2]]))), ("numpy", "random")


def estimator(w):
    X, y = w.matrix(6, 3)[:, :2], w.matrix(6, 1).ravel()
    est = w.SK.DAGRegressor(standardize=bool(w.sim.draw(2))) if w.sim.draw(2) else w.SK.DAGClassifier()
    if isinstance(est, w.SK.DAGClassifier):
        y = np.array([0, 1, 0, 1, 1, 0])
    return (lambda: est.fit(X, y).predict(X)), ("numpy", "random")


def fit(w):
    bn = w.get("bn")
    df = w.frame(w.rows())
    how = w.sim.pick([{}, {"method": "BayesianEstimator", "bayes_prior": "K2"}, {"method": "nope"}])
    w.made.pop("engine", None)
    w.made.pop("bn", None)
    return (lambda: bn.fit_node_states_and_cpds(df, **how)), ("numpy", "random")


def predict(w):
    bn, net = w.get("bn"), w.get("net")
    node = w.sim.pick(net.vars)
    joint = [a for a, p in net.joint() if p]
    df = w.frame([dict(w.sim.pick(joint)) for _ in range(3)])
    if w.sim.draw(3) == 2 and len(net.par[node]):
        df = df.drop(columns=[net.par[node][0]])
    name = w.sim.pick(["predict", "predict_probability", "roc_auc", "classification_report"])
    if name in ("predict", "predict_probability"):
        return (lambda: getattr(bn, name)(df, node)), ("numpy", "random")
    return (lambda: getattr(w.EV, name)(bn, df, node)), ("numpy", "random")


def infer(w):
    net, ie = w.get("net"), w.get("engine")
    v = w.sim.pick(net.vars)
    s = w.sim.pick(net.dom[v])
    k = w.sim.draw(4)
    calls = [lambda: ie.query(), lambda: ie.query({v: s}), lambda: ie.do_intervention(v, s), lambda: ie.reset_do(v)]
    return calls[k], ("numpy", "random")


def propagate(w):
    g, net = w.get("graph"), w.get("gnet")
    a = dict(w.sim.pick([a for a, p in net.joint() if p]))
    v = w.sim.pick(net.vars)
    k = w.sim.draw(4)
    w.hook = InjectedError("factor") if w.sim.draw(4) == 3 else None
    if k == 3:
        return (lambda: g.draw_samples({v: a[v]}, w.sim.between(1, 4))), ("numpy",)
    if k == 2:
        return (lambda: w.E.build_bbn(list(w.fs.functions), domains=M.domains_arg(w.sim, net)).query()), ("numpy", "random")
    return (lambda: g.query(**({v: a[v]} if k else {"nobody": 1} if w.sim.draw(4) == 3 else {}))), ("numpy", "random")


def chain(w):
    """A long chain of variables."""
    n = w.sim.pick([8, 21, 30, 45])
    ns = {}
    exec("def f_x0(x0):\n    return 0.5\n" + "".join(
        "def f_x%d(x%d, x%d):\n    return 0.75 if x%d == x%d else 0.25\n" % (i, i - 1, i, i - 1, i) for i in range(1, n)), ns)
    fs = [ns["f_x%d" % i] for i in range(n)]
    return (lambda: w.E.build_bbn(fs, domains={"x%d" % i: [0, 1] for i in range(n)}).query(x0=0)), ("numpy", "random")


def discretise(w):
    kw = w.sim.pick([dict(method="uniform", num_buckets=3), dict(method="quantile", num_buckets=4), dict(method="fixed"),
                     dict(method="outlier", outlier_percentile=0.1)])
    x = w.matrix(5, 1).ravel()
    if w.sim.draw(4) == 3:
        x = np.array([])
    return (lambda: w.D.Discretiser(**kw).fit(x).transform(x)), ("numpy", "random")


def lag(w):
    df = w.pd.DataFrame(w.matrix(6, 2), columns=["a", "b"], index=[0, 1, 2, 3, 5, 6])
    p = w.sim.between(1, 3)
    return (lambda: w.TR.DynamicDataTransformer(p=p).fit_transform([df], return_df=bool(p % 2))), ("numpy", "random")


def model(w):
    sm = w.S.StructureModel()
    X = w.matrix(3, 3)
    sm.add_weighted_edges_from([(i, j, float(X[i, j])) for i in range(3) for j in range(3)], origin="learned")
    k = w.sim.draw(4)
    calls = [sm.threshold_till_dag, lambda: sm.remove_edges_below_threshold(0.5), sm.get_largest_subgraph,
             lambda: sm.add_edge(0, 1, origin="nobody")]
    return calls[k], ("numpy", "random")


def generate(w):
    sim, gen = w.sim, w.GEN
    sm = w.S.StructureModel()
    sm.add_weighted_edges_from([("a", "b", 1.0), ("b", "c", -0.5)])
    seed = sim.between(0, 5)
    k = sim.draw(6)
    calls = [lambda: gen.generate_structure(4, 2.0), lambda: gen.generate_continuous_dataframe(sm, "gaussian", 5, seed=seed),
             lambda: gen.generate_binary_dataframe(sm, "logit", 5, seed=seed),
             lambda: gen.sem_generator(sm, schema={"a": "count", "b": "categorical:3"}, n_samples=5, seed=seed),
             lambda: gen.gen_stationary_dyn_net_and_df(w_max_inter=sim.pick([0.5, 9.0]), num_nodes=3, n_samples=20, degree_intra=2,
                                                       degree_inter=2, p=1, max_data_gen_trials=2),
             lambda: gen.generate_structure_dynamic(3, 2, 2.0, 2.0)]
    return calls[k], ("random",)


def plot(w):
    sim = w.sim
    if sim.draw(3) == 2:
        exc = sim.pick([OSError("Program terminated"), ValueError("not found"), InjectedError("program")])
        G.PLAN.fail = lambda stage, prog: exc
    if sim.draw(2):
        est = w.get("est")
        return (lambda: est.plot_dag(enforce_dag=True, use_mpl=bool(sim.draw(2)))), ("numpy", "random")
    sm = w.S.StructureModel([("a", "b"), ("b", "c")])
    return (lambda: w.P.plot_structure(sm, prog=sim.pick(["neato", "dot"]))), ("numpy", "random")


CALLS = [learn, learn, torch, estimator, fit, predict, infer, propagate, discretise, lag, model, generate, generate, plot]
RARE = [chain]


def run(sim):
    PG.PLAN.tables = PG.PLAN.fail = None
    G.PLAN.reset()
    MP.OPTIONS.clear()
    np.random.seed(sim.draw(1 << 16))
    tl.seams(sim)
    T.SEAM.uniform = lambda shape, lo, hi: np.full(shape, (lo + hi) / 2.0)
    sim.choose_set_order()
    root = logging.getLogger()
    saved = root.level, list(root.handlers), list(warnings.filters), np.geterr()
    limit, options = sys.getrecursionlimit(), np.get_printoptions()
    root.handlers[:] = []
    warnings.simplefilter(sim.pick(["default", "error", "always"]), UserWarning) if sim.draw(3) == 2 else None
    if sim.draw(3) == 2:                   # a process with settings of its own
        sys.setrecursionlimit(sim.pick([500, limit, 3000]))
        np.seterr(**{k: sim.pick(["ignore", "warn", "raise"]) for k in ("over", "invalid", "divide", "under")})
        np.set_printoptions(precision=sim.pick([2, 8]))
        root.setLevel(sim.pick([logging.DEBUG, logging.WARNING]))
        root.addHandler(logging.NullHandler()) if sim.draw(2) else None
    show = warnings.showwarning
    warnings.showwarning = lambda *a, **k: None
    lastResort, logging.lastResort = logging.lastResort, logging.NullHandler()
    try:
        go(sim)
    finally:
        logging.lastResort = lastResort
        warnings.showwarning = show
        warnings.filters[:] = saved[2]
        warnings._filters_mutated() if hasattr(warnings, "_filters_mutated") else None
        root.setLevel(saved[0])
        root.handlers[:] = saved[1]
        np.seterr(**saved[3])
        np.set_printoptions(**options)
        sys.setrecursionlimit(limit)
        MP.OPTIONS.clear()
        G.PLAN.reset()
        PG.PLAN.fail = None


def go(sim):
    before = process(())
    w = World(sim)
    compare(sim, before, process(()), "importing causalnex")
    for step in range(sim.between(2, 5)):
        make = sim.pick(CALLS) if sim.draw(30) else sim.pick(RARE)
        G.PLAN.reset()
        call, rng = make(w)
        where = "step %d %s" % (step, make.__name__)
        sim.note(make.__name__)
        exc = at = None
        if sim.draw(2):
            at, exc = 1 + sim.draw([4, 20, 120][sim.draw(3)]), sim.pick(EXCS)("injected")
        elif make in (fit,) and sim.draw(2):
            PG.PLAN.fail = lambda stage: InjectedError("estimator")
        solver = Script(sim.draw(1000))
        if make in (learn, torch, estimator) and sim.draw(4) == 3:
            solver.call = broken
        before = process(rng)
        err = None
        with solver:
            try:
                with stepping(sim, budget=QUERY_BUDGET):
                    core.STEP.call_at, core.STEP.call_exc, core.STEP.call_where = at, exc, None
                    call()
            except (SimStop, Violation, HarnessError):
                raise
            except BaseException as e:
                err = e
        core.STEP.call_at = None
        after = process(rng)
        w.hook = None
        PG.PLAN.fail = None
        if err is not None and core.stub_gap(err) is not None:
            raise err
        if core.STEP.call_where is not None:
            sim.fault("failing_call:" + type(exc).__name__)
            sim.sched("failing call", core.STEP.call_where)
            core.STEP.call_where = None
        elif err is not None:
            sim.fault("failure:" + type(err).__name__)
        sim.nontrivial = sim.nontrivial or err is not None
        sim.sched(make.__name__, type(err).__name__)
        sim.units[make.__name__] += 1
        compare(sim, before, after, "%s (%s)" % (where, "returned" if err is None else repr(err)[:100]))


def broken(*a):
    raise InjectedError("solver")


def compare(sim, before, after, where):
    bad = [k for k in before if before[k] != after[k]]
    sim.check(not bad, "process-changed:" + ",".join(bad[:1]), lambda: "%s: %s" % (
        where, "; ".join("%s: %.200r became %.200r" % (k, before[k], after[k]) for k in bad)))
