"""C35: copies and restored pickles answer as the original did at that moment, and live lives of their own."""
import copy
import math
import pickle
import warnings

import numpy as np

from .. import bnmodel as M
from .. import loader, sched
from ..core import HarnessError, InjectedError, SimCrash, SimStop, Violation, stepping
from ..stubs import minipgmpy as PG
from ..stubs import minitorch as T
from . import infer as I
from . import learn as L
from . import tl
from .c06 import caused_by
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of process restarts: objects are copied or pickled at drawn points of their history, the process is "
        "lost (all causalnex modules executed afresh under another set order) and only the pickles survive; every object "
        "compared with one that repeats its history from scratch")
NOTE = "all of causalnex is real; pandas, pgmpy, scikit-learn and torch are stand-ins, the solver of the estimators is scripted."
RUNS = {"quick": 2000, "thorough": 100000}
RULE = ("one run = one kind of object (BayesianNetwork, InferenceEngine, BBN, StructureModel, Discretiser, "
        "DynamicDataTransformer, DAGRegressor / DAGClassifier) and 3-8 steps on up to four of them: fits, edits, interventions, "
        "copies, restarts from pickles, copies interrupted at a chosen line, concurrent use of several; non-trivial = an object "
        "used after it or its source was copied or restored; distinct = distinct history")
REAL = ["causalnex.network, inference, ebaybbn, structure, discretiser (from /repo's working tree)", "networkx", "copy, pickle"]
STUB = ["set iteration order (SimSet)", "pandas, pgmpy, scikit-learn, torch (small stand-ins)", "scipy.optimize.minimize (scripted)",
        "process restart (causalnex modules executed afresh)", "thread scheduler",
        "asynchronous exceptions (raised at a chosen line of causalnex)"]
ASSUMPTIONS = ["the stand-ins' objects pickle as the genuine ones do", "an object that refuses to be pickled (BBN, which holds "
               "the caller's functions) is only copied", "sampled histories: a clean batch is evidence, not proof"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]


def setup():
    tl.setup()
    I.setup()
    from .. import stubs
    stubs.install(torch=True)


class Script(L.Solver):
    """A solver whose answers depend only on its seed and the bounds."""

    def __init__(self, seed):
        self.seed = seed

    def call(self, fun, x0, args, jac, bounds):
        import random
        r = random.Random(self.seed)
        lo = [-2.0 if b[0] is None else max(-2.0, b[0]) for b in bounds]
        hi = [2.0 if b[1] is None else min(2.0, b[1]) for b in bounds]
        x = np.array([a + (b - a) * r.random() if r.random() < 0.7 else min(max(0.0, a), b) for a, b in zip(lo, hi)])
        return L.Result(x=x, fun=0.0, success=True, status=0, message="scripted", nit=1, nfev=1, jac=x * 0)


# ------------------------------------------------------------------ the kinds of objects
class Kind:
    """make() -> a fresh object; op(sim) -> plain description of an operation; apply(obj, op); observe(obj) -> answers."""
    pickles = True
    threads = False
    modules = ()

    def __init__(self, sim):
        self.mods = None

    def load(self):
        m = loader.fresh(*self.modules)
        self.mods = m if isinstance(m, list) else [m]
        self.known = {}


class Structure(Kind):
    modules = ("causalnex.structure",)

    def op(self, sim):
        names = ["a", "b", "c", 1, ("t", 2)]
        k = sim.draw(6)
        u, v = sim.pick(names), sim.pick(names)
        w, o = sim.between(-8, 8) / 4.0, sim.pick(["unknown", "learned", "expert"])
        return [("add", u, v, w, o), ("add", u, v, w, o), ("weighted", [(u, v, w), (v, u, -w)], o), ("bulk", [(u, v)], o),
                ("remove", u, v), ("threshold", abs(w) / 2)][k]

    def make(self):
        return self.mods[0].StructureModel()

    def apply(self, sm, op):
        if op[0] == "add":
            sm.add_edge(op[1], op[2], weight=op[3], origin=op[4])
        elif op[0] == "weighted":
            sm.add_weighted_edges_from(op[1], origin=op[2])
        elif op[0] == "bulk":
            sm.add_edges_from(op[1], origin=op[2])
        elif op[0] == "remove" and sm.has_edge(op[1], op[2]):
            sm.remove_edge(op[1], op[2])
        elif op[0] == "threshold" and all("weight" in d for _, _, d in sm.edges(data=True)):
            sm.remove_edges_below_threshold(op[1])

    def observe(self, sm):
        return (type(sm).__name__, sorted(map(repr, sm.nodes)), sorted(repr((u, v, sorted(d.items()))) for u, v, d in sm.edges(data=True)),
                [sorted(map(repr, sm.edges_with_origin(o))) for o in ("unknown", "learned", "expert")])

    def copy(self, sim, sm):
        return sm.copy() if sim.draw(2) else copy.deepcopy(sm)


class Network(Kind):
    modules = ("causalnex.structure", "causalnex.network")
    threads = True

    def __init__(self, sim):
        super().__init__(sim)
        self.net = I.gen(sim, 2, 4, max_joint=60)
        self.edges = sim.shuffled([(p, v) for v in self.net.vars for p in self.net.par[v]])
        self.ask = [dict(a) for a, p in sim.shuffled(self.net.joint())[:3]]
        self.target = sim.pick(self.net.vars)

    def op(self, sim):
        rows = [{v: sim.pick(self.net.dom[v]) for v in self.net.vars} for _ in range(sim.between(3, 9))]
        k = sim.draw(3)
        how = sim.pick([{}, {"method": "BayesianEstimator", "bayes_prior": "K2"},
                        {"method": "BayesianEstimator", "bayes_prior": "BDeu", "equivalent_sample_size": 5}])
        return ("both" if k == 0 else "cpds", rows, how)

    def make(self):
        S, N = self.mods
        sm = S.StructureModel()
        sm.add_edges_from(self.edges)
        bn = N.BayesianNetwork(sm)
        n = max(map(len, self.net.dom.values()))
        bn.fit_node_states(self.frame([{v: self.net.dom[v][i % len(self.net.dom[v])] for v in self.net.vars} for i in range(n)]))
        return bn

    def frame(self, rows):
        import pandas as pd
        return pd.DataFrame({v: [r[v] for r in rows] for v in self.net.vars})

    def apply(self, bn, op):
        df = self.frame(op[1])
        if op[0] == "both":
            bn.fit_node_states_and_cpds(df, **op[2])
        else:
            if any(r[v] not in bn.node_states[v] for r in op[1] for v in self.net.vars):
                bn.fit_node_states(self.frame(op[1]))
            bn.fit_cpds(df, **op[2])

    def observe(self, bn):
        states = {k: sorted(map(repr, v)) for k, v in bn.node_states.items()}
        out = [sorted(bn.nodes), sorted(bn.edges), sorted(states.items())]
        cp = bn.cpds
        for v in sorted(cp):
            c = cp[v]
            names = list(c.columns.names)
            order = sorted(range(len(names)), key=lambda i: str(names[i])) if self.net.par[v] else []
            cells = {}
            for j, col in enumerate(c.columns.tolist()):
                col = col if isinstance(col, tuple) else (col,)
                for i, s in enumerate(c.index.tolist()):
                    cells[repr((s, tuple((names[k], col[k]) for k in order)))] = float(c.values[i][j])
            out.append((v, sorted(cells.items())))
        rows = [r for r in self.ask if cp and all(r[v] in bn.node_states[v] for v in r)]
        if rows:
            prob = bn.predict_probability(self.frame(rows), self.target)
            out.append(sorted((c, [float(x) for x in prob[c].tolist()]) for c in prob.columns.tolist()))
        return out

    def copy(self, sim, bn):
        return copy.deepcopy(bn)


class Engine(Network):
    modules = ("causalnex.structure", "causalnex.network", "causalnex.inference")
    pickles = None                       # may, but need not

    def __init__(self, sim):
        super().__init__(sim)
        self.obs = dict([sim.pick(sorted(a.items())) for a in self.ask[:1]])
        self.kids = [v for v in self.net.vars if any(v in self.net.par[w] for w in self.net.vars)] or list(self.net.vars)
        self.rows = [dict(a) for a, p in self.net.joint()]

    def op(self, sim):
        v = sim.pick(self.kids)
        dom = self.net.dom[v]
        k = sim.draw(4)
        if k == 0:
            return ("reset", v)
        if k == 1:
            return ("do", v, sim.pick(dom))
        ws = [sim.between(1, 5) for _ in dom]
        return ("do", v, {s: w / float(sum(ws)) for s, w in zip(dom, ws)})

    def make(self):
        S, N, Inf = self.mods
        sm = S.StructureModel()
        sm.add_edges_from(self.edges)
        bn = N.BayesianNetwork(sm)
        bn.node_states = {v: set(self.net.dom[v]) for v in self.net.vars}
        return Inf.InferenceEngine(bn.fit_cpds(self.frame(self.rows), method="BayesianEstimator", bayes_prior="K2"))

    def apply(self, ie, op):
        try:
            if op[0] == "reset":
                ie.reset_do(op[1])
            else:
                ie.do_intervention(op[1], copy.deepcopy(op[2]))
        except ValueError as e:
            if "isolate" not in str(e):
                raise

    def observe(self, ie):
        return [self.flat(ie.query()), self.flat(ie.query(dict(self.obs)))]

    def flat(self, res):
        return sorted((repr((n, s)), float(p)) for n, d in res.items() for s, p in d.items())


class Graph(Kind):
    modules = ("causalnex.ebaybbn",)
    pickles = None
    threads = True

    def __init__(self, sim):
        super().__init__(sim)
        self.net = M.gen_net(sim, 2, 5, max_joint=80)
        self.fs = M.Factors(sim, self.net)
        self.doms = M.domains_arg(sim, self.net)
        ok = [dict(a) for a, p in self.net.joint() if p]
        self.evs = [{}] + [dict(sim.shuffled(sorted(sim.pick(ok).items()))[:sim.between(1, 2)]) for _ in range(2)]

    def op(self, sim):
        return ("query", sim.pick(self.evs))

    def make(self):
        return self.mods[0].build_bbn(list(self.fs.functions), domains=self.doms)

    def apply(self, g, op):
        g.query(**op[1])

    def observe(self, g):
        return [sorted((repr(k), float(p)) for k, p in g.query(**ev).items()) for ev in self.evs]

    def copy(self, sim, g):
        return copy.deepcopy(g)


class Discrete(Kind):
    modules = ("causalnex.discretiser",)

    def __init__(self, sim):
        super().__init__(sim)
        self.kw = sim.pick([dict(method="uniform", num_buckets=3), dict(method="quantile", num_buckets=4),
                            dict(method="outlier", outlier_percentile=0.25), dict(method="fixed", numeric_split_points=[-1, 0, 2.5]),
                            dict(method="percentiles", percentile_split_points=[0.25, 0.5])])
        self.ask = np.arange(-20, 20) / 4.0

    def op(self, sim):
        return ("fit", [sim.between(-40, 40) / 8.0 for _ in range(sim.between(1, 6))])

    def make(self):
        return self.mods[0].Discretiser(**copy.deepcopy(self.kw))

    def apply(self, d, op):
        if self.kw["method"] != "fixed":
            d.fit(np.array(op[1]))

    def observe(self, d):
        try:
            return d.transform(self.ask.copy()).tolist()
        except (TypeError, ValueError, RuntimeError, AttributeError):
            return "not fitted"

    def copy(self, sim, d):
        return copy.deepcopy(d)


class Dynamic(Kind):
    modules = ("causalnex.structure.transformers",)

    def __init__(self, sim):
        super().__init__(sim)
        self.p = sim.between(1, 3)
        self.df = bool(sim.draw(2))
        self.cols = sim.shuffled(["a", "b", "c"])[:sim.between(1, 3)]

    def frame(self, n, t0=0):
        import pandas as pd
        return pd.DataFrame({c: [t0 + k * 7.0 + j for k in range(n)] for j, c in enumerate(self.cols)},
                            index=[t0 + k for k in range(n)])

    def op(self, sim):
        return ("fit", sim.between(4, 8), sim.between(0, 5))

    def make(self):
        return self.mods[0].DynamicDataTransformer(p=self.p)

    def apply(self, tr, op):
        tr.fit([self.frame(op[1], op[2])], return_df=self.df)

    def observe(self, tr):
        try:
            out = tr.transform([self.frame(7, 3)])
        except Exception as e:
            if type(e).__name__ != "NotFittedError":
                raise
            return "not fitted"
        if self.df:
            return [out.columns.tolist(), out.values.tolist()]
        return [np.asarray(a).tolist() for a in out]

    def copy(self, sim, tr):
        return copy.deepcopy(tr)


class Estimator(Kind):
    modules = ("causalnex.structure.pytorch.sklearn",)
    threads = True

    def __init__(self, sim):
        super().__init__(sim)
        self.name = sim.pick(["DAGRegressor", "DAGClassifier"])
        self.kw = sim.pick([{}, {"standardize": True}, {"hidden_layer_units": [2]}, {"fit_intercept": False, "alpha": 0.1},
                            {"dist_type_schema": {"f0": "bin", "f1": "cont", "f2": "ord"}, "threshold": 0.1},
                            {"tabu_edges": [("f0", "f1")], "tabu_parent_nodes": ["f2"]}])
        self.ask = np.array([[0, 1.5, 2], [1, -0.5, 0], [1, 0.25, 1]])

    def op(self, sim):
        k = 3 if sim.draw(2) else 2
        n = sim.between(5, 8)
        rows = [[sim.draw(2), sim.between(-8, 8) / 4.0, i % 3] for i in range(n)]
        y = [i % k for i in range(n)] if self.name == "DAGClassifier" else [sim.between(-9, 9) / 2.0 for _ in range(n)]
        rows[0][0], rows[1][0] = 0, 1
        return ("fit", rows, y, sim.draw(10 ** 6))

    def frame(self, rows):
        import pandas as pd
        return pd.DataFrame({"f%d" % j: [float(r[j]) for r in rows] for j in range(3)})

    def make(self):
        return getattr(self.mods[0], self.name)(**copy.deepcopy(self.kw))

    def apply(self, est, op):
        with warnings.catch_warnings(), np.errstate(all="ignore"), tl.Warned(), Script(op[3]):
            warnings.simplefilter("ignore")
            est.fit(self.frame(op[1]), np.array(op[2]))

    def observe(self, est):
        if not hasattr(est, "graph_"):
            return "not fitted"
        with np.errstate(all="ignore"):
            X = self.frame(self.ask.tolist())
            out = [np.asarray(est.predict(X)).tolist(), np.asarray(est.feature_importances_).tolist()]
            if self.name == "DAGClassifier":
                out.append(np.asarray(est.predict_proba(X)).tolist())
            out.append(sorted((repr(e), float(w)) for *e, w in est.graph_.edges(data="weight")))
        return out

    def copy(self, sim, est):
        return copy.deepcopy(est)


KINDS = [Structure, Network, Network, Engine, Engine, Graph, Discrete, Dynamic, Estimator]


# ------------------------------------------------------------------ one run
class Thing:
    def __init__(self, obj, hist, touched=False):
        self.obj, self.hist, self.touched = obj, hist, touched


def run(sim):
    PG.PLAN.tables = PG.PLAN.fail = None
    tl.seams(sim)
    T.SEAM.uniform = lambda shape, lo, hi: np.full(shape, (lo + hi) / 2.0)
    sim.choose_set_order()
    kind = sim.pick(KINDS)(sim)
    kind.load()
    name = type(kind).__name__
    things = [Thing(kind.make(), [])]
    sim.note(name)
    if sim.run_index % 50 == 0:
        sim.sample = {"kind": name}
    ids = 0
    for step in range(sim.between(3, 8)):
        where = "step %d, %s" % (step, name)
        t = sim.pick(things)
        k = sim.draw(10)
        sim.sched("step", name, k)
        if k < 4:
            op = kind.op(sim)
            sim.note("op", things.index(t), op)
            sim.sched(op[0], repr(op)[:60])
            with stepping(sim, budget=QUERY_BUDGET):
                kind.apply(t.obj, op)
            t.hist = t.hist + [op]
            sim.nontrivial = sim.nontrivial or t.touched
        elif k in (4, 5) and len(things) < 4:
            sim.note("copy", things.index(t))
            t.touched = True
            things.append(Thing(duplicate(sim, kind, t.obj, where), t.hist, True))
            sim.units["copies"] += 1
        elif k in (6, 7):
            things = restart(sim, kind, things, where)
        elif k == 8 and len(things) > 1 and kind.threads:
            together(sim, kind, things, where)
        elif k == 9 and sim.draw(2):
            fresh = Thing(kind.make(), [])
            if len(things) < 4:
                things.append(fresh)
        for t in things:
            judge(sim, kind, t, where)


def judge(sim, kind, t, where):
    with stepping(sim, budget=QUERY_BUDGET):
        want = reference(kind, t.hist)
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            got = kind.observe(t.obj)
    except (SimStop, Violation):
        raise
    except Exception as e:
        if t.touched:
            raise Violation("copy-broken:%s" % type(e).__name__, "%s: after %r: %r" % (where, t.hist, e)) from e
        raise
    sim.check(same(got, want), "wrong-copy" if t.touched else "wrong-answer", lambda: "%s: an object with the history %r answers %r, "
              "one made from scratch %r" % (where, t.hist, got, want))
    sim.units["answers"] += 1


def reference(kind, hist):
    key = repr(hist)
    if key not in kind.known:
        obj = kind.make()
        for op in hist:
            kind.apply(obj, op)
        kind.known[key] = kind.observe(obj)
    return kind.known[key]


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9) or (a != a and b != b)
    return a == b


def duplicate(sim, kind, obj, where):
    """Copy; sometimes the first attempt is interrupted."""
    if sim.draw(3) == 2:
        at, exc = 1 + sim.draw(80), sim.pick(EXCS)("injected")
        attempt(sim, lambda: kind.copy(sim, obj), at, exc, where)
    with stepping(sim, budget=QUERY_BUDGET):
        return kind.copy(sim, obj)


def attempt(sim, call, at, exc, where):
    err = None
    try:
        with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc) as st:
            call()
    except (SimStop, Violation):
        raise
    except BaseException as e:
        err = e
    if st.injected:
        sim.sched("interrupted at", st.where)
        sim.fault("async_exception:" + type(exc).__name__)
        sim.check(err is not None, "failure-swallowed", "%s: %r at %s vanished" % (where, exc, st.where))
        if err is not exc and not caused_by(err, exc):
            raise err
    elif err is not None:
        raise err


def restart(sim, kind, things, where):
    """The process dies; what was pickled is restored in another one, with another set order."""
    saved = []
    for t in things:
        try:
            saved.append((pickle.dumps(t.obj), t.hist))
        except (pickle.PicklingError, AttributeError, TypeError) as e:
            sim.check(kind.pickles is None, "not-picklable", "%s: %r" % (where, e))
            sim.probe("refuses_pickling")
    sim.fault("process_restart")
    sim.choose_set_order()
    kind.load()
    out = []
    for data, hist in saved:
        if sim.draw(4) == 3:
            attempt(sim, lambda: pickle.loads(data), 1 + sim.draw(80), sim.pick(EXCS)("injected"), where)
        with stepping(sim, budget=QUERY_BUDGET):
            out.append(Thing(pickle.loads(data), hist, True))
        sim.units["restored"] += 1
    return out or [Thing(kind.make(), [])]


def together(sim, kind, things, where):
    s = sched.Scheduler(sim, [(1, 2, 3, 5, 9), (5, 20, 60), (3, 30, 100)][sim.draw(3)])
    got = []
    wants = [reference(kind, t.hist) for t in things]

    def client(t, want):
        def body():
            got.append((t, want, kind.observe(t.obj)))
        return body
    for i, (t, want) in enumerate(list(zip(things, wants))[:3]):
        s.spawn("c%d" % i, client(t, want))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %s: %r" % (where, c.name, c.error)) from c.error
    sim.check(len(got) == min(3, len(things)), "lost-operation", "%s: a client did not return" % where)
    for t, want, answer in got:
        sim.check(same(answer, want), "wrong-copy", lambda: "%s: used together with its copies, an object with the history %r answers "
                  "%r, alone %r" % (where, t.hist, answer, want))
    sim.fault("thread_switch", s.switches)
