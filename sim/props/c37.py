"""C37: from data to answers, the workflow ends at the same place through failures, retries, restarts and company."""
import pickle
import warnings
from fractions import Fraction

import numpy as np

from .. import bnmodel as M
from .. import core, loader, sched, stubs
from ..core import HarnessError, InjectedError, SimCrash, SimStop, Violation, stepping
from ..stubs import minigraphviz as G
from ..stubs import minipgmpy as PG
from ..stubs import minitorch as T
from . import c33
from . import infer as I
from . import tl
from .c06 import caused_by
from .c11 import isolates_other
from .c14 import Ref
from .c23 import fit_table
from .c26 import completions
from .c35 import Script, same
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of whole workflows (learn, amend, threshold, discretise, fit, predict, evaluate, infer, intervene, plot) "
        "whose steps fail, are interrupted and repeated, with process restarts from pickled artefacts, or beside other workflows "
        "switched at executed lines; structure and buckets compared with an undisturbed run, answers with exact enumeration "
        "over counted frequencies")
NOTE = "all of causalnex is real; pandas, pgmpy, scikit-learn, torch and pygraphviz are stand-ins, the solver is scripted."
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("one run = one workflow of 15-30 steps under faults (an exception at a chosen line or call of causalnex, a failing solver, "
        "estimator or layout program, a restart in which only pickles survive), or 2-3 workflows interleaved; non-trivial = a step "
        "was disturbed; distinct = distinct history of steps, faults and switches")
REAL = ["causalnex.{structure, discretiser, network, evaluation, inference, ebaybbn, plots} (from /repo's working tree)", "networkx",
        "numpy", "pickle"]
STUB = ["set iteration order (SimSet)", "pandas, pgmpy (genuine counting), scikit-learn, torch, pygraphviz (small stand-ins)",
        "scipy.optimize.minimize (scripted)", "process restart (causalnex modules executed afresh)", "thread scheduler",
        "exceptions (raised at a chosen line or call of causalnex)"]
ASSUMPTIONS = ["a step that failed is repeated with the same arguments", "interruptions inside networkx's own code are not injected",
               "a parent combination that never occurs gets a uniform conditional (pgmpy's convention)",
               "sampled histories: a clean batch is evidence, not proof"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
MODULES = ["causalnex.structure", "causalnex.structure.notears", "causalnex.structure.pytorch", "causalnex.discretiser",
           "causalnex.network", "causalnex.evaluation", "causalnex.inference", "causalnex.plots"]


def setup():
    tl.setup()
    I.setup()
    stubs.install(torch=True)
    G.register(loader.STUB_MODULES)
    core.install_calls()


class Modules:
    def __init__(self):
        self.S, self.NT, self.TN, self.D, self.N, self.EV, self.INF, self.P = loader.fresh(*MODULES)


class Broken(Script):
    def __init__(self):
        pass

    def call(self, *a):
        raise InjectedError("solver")


# ------------------------------------------------------------------ what a workflow is
def draw_spec(sim, torch=True):
    names = sim.shuffled(I.NAMES)[:sim.between(2, 4)]
    k, n = len(names), sim.between(6, 14)
    sp = {"names": names, "X": [[sim.between(-8, 8) / 4.0 for _ in range(k)] for _ in range(n)], "seed": sim.draw(10 ** 6),
          "learner": sim.pick(["plain", "lasso", "torch" if torch else "plain", "hand"]), "tabu": [], "keep": sim.pick([0.0, 0.5, 1.0])}
    for _ in range(sim.draw(3)):
        a, b = sim.shuffled(range(k))[:2]
        sp["tabu"].append((names[a], names[b]))
    sp["amend"] = []
    for _ in range(sim.draw(4)):
        a, b = sim.shuffled(range(k))[:2]
        sp["amend"].append(sim.pick([("add", names[a], names[b], sim.between(-12, 12) / 4.0), ("remove", names[a], names[b]),
                                     ("below", sim.pick([0.25, 0.5, 1.0]))]))
    sp["amend"].insert(sim.draw(len(sp["amend"]) + 1), ("premature",))
    sp["amend"] += [("add", names[i], names[i + 1], 50.0 + i) for i in range(max(1, k - 2))]
    sp["amend"] += [("dag",), ("premature",), ("largest",)]
    sp["disc"] = {c: sim.pick([dict(method="uniform", num_buckets=2), dict(method="quantile", num_buckets=3),
                               dict(method="fixed", numeric_split_points=[-0.5, 0.75]), dict(method="outlier", outlier_percentile=0.25),
                               dict(method="uniform", num_buckets=3)]) for c in names}
    sp["labels"] = {c: sim.pick([None, ["lo", "mid", "hi"], ["z", "y", "x"], [False, True, 2], [10, 9, 1]]) for c in names}
    sp["train"] = sim.shuffled(range(n))[:sim.between(2, n)]
    sp["how"] = draw_how(sim)
    sp["asks"] = [draw_ask(sim, n) for _ in range(sim.between(4, 10))]
    return sp


def draw_how(sim):
    return sim.pick([("MaximumLikelihoodEstimator", None, None), ("BayesianEstimator", "K2", None), ("BayesianEstimator", "BDeu", 5),
                     ("BayesianEstimator", "BDeu", 2)])


def draw_ask(sim, n):
    k = sim.draw(10)
    if k < 3:
        return ("predict", sim.pick(["predict", "predict_probability"]), sim.draw(12), sim.draw(3) == 2,
                [sim.draw(n) for _ in range(sim.between(1, 3))])
    if k == 3:
        return ("eval", sim.pick(["roc_auc", "classification_report"]), sim.draw(12), [sim.draw(n) for _ in range(sim.between(2, 5))])
    if k < 6:
        return ("query", sim.draw(n), [sim.draw(12) for _ in range(sim.draw(3))])
    if k < 8:
        return ("do", sim.draw(12), sim.pick([None, sim.draw(3)]), [sim.between(1, 4) for _ in range(3)])
    return [("reset", sim.draw(12)), ("refit", sim.shuffled(range(n))[:sim.between(2, n)], draw_how(sim)), ("plot",), ("engine",)][sim.draw(4)]


class Flow:
    """One workflow: its modules, the artefacts a user keeps, and what was answered."""

    def __init__(self, sim, spec, mods, name="w"):
        import pandas as pd
        self.sim, self.sp, self.m, self.pd, self.name = sim, spec, mods, pd, name
        self.art = {"disc": {}, "cols": {}}
        self.ie = self.enet = self.net = None
        self.force = {}                    # interventions in force
        self.answers = []

    # -- stages whose outcome is compared with an undisturbed run
    def build(self):
        yield "learn", self.learn
        for op in self.sp["amend"]:
            yield "amend", lambda op=op: self.amend(op)
        for c in sorted(self.art["sm"].nodes):
            yield "discretiser", lambda c=c: self.fit_disc(c)
            yield "transform", lambda c=c: self.transform(c)

    def learn(self):
        sp, X = self.sp, np.array(self.sp["X"])
        df = self.pd.DataFrame({c: X[:, j] for j, c in enumerate(sp["names"])})
        kw = dict(max_iter=2, w_threshold=sp["keep"], tabu_edges=[tuple(e) for e in sp["tabu"]] or None)
        with self.solver(), np.errstate(all="ignore"):
            if sp["learner"] == "plain":
                sm = self.m.NT.from_pandas(df, **kw)
            elif sp["learner"] == "lasso":
                sm = self.m.NT.from_pandas_lasso(df, 0.1, **kw)
            elif sp["learner"] == "torch":
                sm = self.m.TN.from_pandas(df, **kw)
            else:
                sm = self.m.S.StructureModel()
                sm.add_nodes_from(sp["names"])
                sm.add_weighted_edges_from([(a, b, 0.25) for a, b in sp["tabu"]], origin="learned")
        self.art["sm"] = sm

    def solver(self):
        broken, self.broken = getattr(self, "broken", False), False
        return Broken() if broken else Script(self.sp["seed"])

    def amend(self, op):
        sm = self.art["sm"]
        if op[0] == "add":
            sm.add_edge(op[1], op[2], origin="expert", weight=op[3])
        elif op[0] == "remove":
            if sm.has_edge(op[1], op[2]):
                sm.remove_edge(op[1], op[2])
        elif op[0] == "below":
            sm.remove_edges_below_threshold(op[1])
        elif op[0] == "premature":
            self.premature(sm)
        elif op[0] == "dag":
            sm.threshold_till_dag()
        else:
            self.art["sm"] = sm.get_largest_subgraph()

    def premature(self, sm):
        """A network can be made of one connected DAG only."""
        ref = Ref()
        ref.nodes = {v: {} for v in sm.nodes}
        ref.edges = {e: {} for e in sm.edges}
        why = "several components" if len(ref.components()) > 1 else "a cycle" if ref.cyclic() else None
        try:
            self.m.N.BayesianNetwork(sm)
        except ValueError as e:
            self.sim.check(why is not None, "usable-structure-refused", lambda: "%s: %r: %s" % (self.name, sorted(sm.edges), e))
            return
        self.sim.check(why is None, "unusable-structure-accepted",
                       lambda: "%s: a network of nodes %r and edges %r, which has %s" % (self.name, sorted(sm.nodes), sorted(sm.edges), why))

    def column(self, c):
        return np.array([r[self.sp["names"].index(c)] for r in self.sp["X"]])

    def fit_disc(self, c):
        kw = self.sp["disc"][c]
        d = self.m.D.Discretiser(**{k: list(v) if isinstance(v, list) else v for k, v in kw.items()})
        if kw["method"] != "fixed":
            d.fit(self.column(c))
        self.art["disc"][c] = d

    def transform(self, c):
        lab = self.sp["labels"][c]
        out = [int(x) for x in self.art["disc"][c].transform(self.column(c)).tolist()]
        self.art["cols"][c] = out if lab is None else [lab[x] for x in out]

    def built(self):
        sm = self.art["sm"]
        return [type(sm).__name__, sorted(sm.nodes), [[u, v, d["origin"], float(d["weight"])] for u, v, d in sorted(
            sm.edges(data=True), key=lambda e: e[:2])], sorted(map(repr, self.art["cols"].items()))]

    # -- the network and its answers
    def frame(self, idx, cols=None):
        cols = sorted(self.art["cols"]) if cols is None else cols
        return self.pd.DataFrame({c: [M.equal_copy(self.art["cols"][c][i]) for i in idx] for c in cols})

    def row(self, i):
        return {c: v[i] for c, v in self.art["cols"].items()}

    def answer(self):
        n = len(self.sp["X"])
        yield "network", self.network
        yield "states", lambda: self.art["bn"].fit_node_states(self.frame(range(n)))
        yield "fit", lambda: self.fit(self.sp["train"], self.sp["how"])
        yield "engine", self.engine
        for a in self.sp["asks"] + [("predict", "predict_probability", 0, False, [0]), ("query", 0, [])]:
            yield a[0], lambda a=a: getattr(self, "do_" + a[0])(*a[1:])

    def network(self):
        self.art["bn"] = self.m.N.BayesianNetwork(self.art["sm"])

    def fit(self, idx, how):
        method, prior, ess = how
        kw = {k: v for k, v in (("bayes_prior", prior), ("equivalent_sample_size", ess)) if v is not None}
        self.art["bn"].fit_cpds(self.frame(idx), method=method, **kw)
        self.net = self.expected(idx, how)

    def expected(self, idx, how):
        sm = self.art["sm"]
        nodes = sorted(sm.nodes)
        par = {v: sorted(sm.predecessors(v)) for v in nodes}
        try:
            dom = {v: sorted(set(self.art["cols"][v])) for v in nodes}
        except TypeError:
            raise HarnessError("states that cannot be sorted")
        t = fit_table(nodes, par, dom, {v: [self.art["cols"][v][i] for i in idx] for v in nodes}, *how)
        cpt = {v: {key: {s: Fraction(t[(v, s, key)]) for s in dom[v]} for key in M.product(*[dom[p] for p in par[v]])} for v in nodes}
        return M.Net(nodes, dom, par, cpt)

    def engine(self):
        ie = self.m.INF.InferenceEngine(self.art["bn"])
        self.ie, self.enet, self.force = ie, self.net, {}

    do_engine = engine

    def do_refit(self, idx, how):
        self.fit(idx, how)

    def node(self, k, only=None):
        return [v for v in self.net.vars if only is None or only(v)][k % len([v for v in self.net.vars if only is None or only(v)])]

    def do_predict(self, name, k, partial, idx):
        v = self.node(k)
        cols = [c for c in self.net.vars if c != v]
        if partial and self.net.par[v]:
            cols = [c for c in cols if c != self.net.par[v][0]] or [v]
        rows = [self.row(i) for i in idx]
        given = [{c: r[c] for c in cols if c != v} for r in rows]
        if partial and self.net.par[v] and any(self.net.prob(g) == 0 for g in given):
            return
        if any(self.net.par[v][j] not in cols for j in range(len(self.net.par[v]))) and not [c for c in cols if c != v]:
            return                         # nothing known at all: pgmpy's business
        out = getattr(self.art["bn"], name)(self.frame(idx, cols or [v]), v)
        self.answers.append(("predict", name, v, cols, given, self.net, out))

    def do_eval(self, name, k, idx):
        v = self.node(k)
        if len(self.net.dom[v]) < 2:
            return
        df = self.frame(idx)
        out = getattr(self.m.EV, name)(self.art["bn"], df, v)
        rows = [self.row(i) for i in idx]
        c33.judge(self.sim, self.art["bn"], self.net, v, name, df, rows, out, self.name)

    def do_query(self, i, ks):
        r = self.row(i)
        obs = {v: M.equal_copy(r[v]) for v in {self.enet.vars[k % len(self.enet.vars)] for k in ks} if v not in self.force}
        eff = I.effective(self.enet, self.force)
        try:
            res = self.ie.query(dict(obs)) if obs else self.ie.query()
        except Exception as e:
            if eff.posterior(obs) is None and isinstance(e, (ZeroDivisionError, ValueError, KeyError)):
                return
            raise
        self.answers.append(("query", eff, obs, I.flat(res)))

    def do_do(self, k, state, ws):
        cur = I.effective(self.enet, self.force)
        inner = [v for v in cur.vars if I.children(cur, v) and not isolates_other(cur, v)]
        if not inner:
            return
        v = inner[k % len(inner)]
        dom = self.enet.dom[v]
        if state is not None:
            s = dom[state % len(dom)]
            exact, arg = {x: Fraction(int(x == s)) for x in dom}, M.equal_copy(s)
        else:
            tot = sum(ws[:len(dom)])
            exact = {x: Fraction(w, tot) for x, w in zip(dom, ws)}
            arg = {x: float(p) for x, p in exact.items()}
        self.ie.do_intervention(v, arg)
        self.force = dict(self.force, **{v: exact})

    def do_reset(self, k):
        v = self.enet.vars[k % len(self.enet.vars)]
        self.ie.reset_do(v)
        self.force = {x: d for x, d in self.force.items() if x != v}

    def do_plot(self):
        viz = self.m.P.plot_structure(self.art["sm"])
        got = sorted((str(u), str(v)) for u, v in viz.edges())
        want = sorted((str(u), str(v)) for u, v in self.art["sm"].edges)
        self.sim.check(got == want, "wrong-drawing", lambda: "%s: drawn %r, edges %r" % (self.name, got, want))

    # -- judging
    def judge(self, where):
        for a in self.answers:
            if a[0] == "query":
                I.M.judge_marginals(self.sim, a[1], a[2], a[3], "%s: interventions %r" % (where, self.force))
            else:
                self.judge_prediction(a, where)
        self.sim.units["answers"] += len(self.answers)
        self.answers = []

    def judge_prediction(self, a, where):
        sim, (_, name, v, cols, given, net, out) = self.sim, a
        full = all(p in cols for p in net.par[v])
        for i, g in enumerate(given):
            if full:
                dist, maps = net.cpt[v][tuple(g[p] for p in net.par[v])], None
            else:
                dist, maps = completions(net, v, g)
            text = "%s: %s(%r) given %r" % (where, name, v, g)
            if name == "predict":
                got = out[v + "_prediction"].tolist()[i]
                if full:
                    sim.check(got in dist and float(max(dist.values()) - dist[got]) <= 1e-9, "wrong-prediction",
                              lambda: "%s is %r, probabilities %r" % (text, got, dist))
                elif len(maps) == 1:
                    sim.check(repr(got) in maps, "wrong-prediction", lambda: "%s is %r, most probable %r" % (text, got, maps))
            else:
                for s, p in dist.items():
                    got = float(out["%s_%s" % (v, s)].tolist()[i])
                    sim.check(abs(got - float(p)) <= 1e-9, "wrong-prediction", lambda: "%s: P(%r) = %r, exact %r" % (text, s, got, float(p)))


# ------------------------------------------------------------------ runs
def run(sim):
    PG.PLAN.tables = PG.PLAN.fail = None
    G.PLAN.reset()
    tl.seams(sim)
    T.SEAM.uniform = lambda shape, lo, hi: np.full(shape, (lo + hi) / 2.0)
    sim.choose_set_order()
    company = sim.draw(4) == 3
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if company:
                together(sim)
            else:
                alone(sim)
        finally:
            G.PLAN.reset()
            PG.PLAN.fail = None


def undisturbed(sim, sp):
    f = Flow(sim, sp, Modules())
    with stepping(sim, budget=QUERY_BUDGET):
        for _, call in f.build():
            call()
    return f.built()


def alone(sim):
    sp = draw_spec(sim)
    want = undisturbed(sim, sp)
    f = Flow(sim, sp, Modules())
    sim.note(sp)
    if sim.run_index % 50 == 0:
        sim.sample = {"names": str(sp["names"]), "learner": sp["learner"], "edges": str(want[2])}
    k = 0
    for stage in (f.build(), f.answer()):
        for name, call in stage:
            k += 1
            where = "step %d (%s)" % (k, name)
            disturbed(sim, f, name, call, where)
            f.judge(where)
            if sim.draw(8) == 7:
                restart(sim, f, where)
        sim.check(same(f.built(), want), "wrong-structure", lambda: "after the last step of a stage: %r, undisturbed %r" % (f.built(), want))


def disturbed(sim, f, name, call, where):
    """Take one step; if it fails, take it again."""
    sim.sched(name)
    for attempt in range(3):
        kind = 0 if attempt == 2 else sim.draw(5)
        exc = at = None
        line = None
        if kind == 1:
            line = 1 + sim.draw([6, 40, 300, 2500][sim.draw(4)])
        elif kind == 2:
            at = 1 + sim.draw([3, 20, 120][sim.draw(3)])
        elif kind == 3:
            if name in ("fit", "refit"):
                n = [sim.draw(3)]
                PG.PLAN.fail = lambda stage: stage_fail(n)
            elif name == "learn":
                f.broken = True
            elif name == "plot":
                G.PLAN.fail = lambda stage, prog: InjectedError("layout")
        if kind in (1, 2):
            exc = sim.pick(EXCS)("injected")
        err = None
        core.STEP.call_where = None
        try:
            with stepping(sim, budget=QUERY_BUDGET, inject_at=line, exc=exc if line else None) as st:
                if at:
                    core.STEP.call_at, core.STEP.call_exc = at, exc
                call()
        except (SimStop, Violation, HarnessError):
            raise
        except BaseException as e:
            err = e
        finally:
            core.STEP.call_at = None
            f.broken = False
            PG.PLAN.fail = None
            G.PLAN.fail = None
        hit = st.where if line and st.injected else core.STEP.call_where
        if hit is not None and kind in (1, 2):
            sim.fault("%s:%s" % ("exception_at_line" if line else "failing_call", type(exc).__name__))
            sim.sched("disturbed at", hit)
            sim.check(err is not None, "failure-swallowed", "%s: %r at %s vanished" % (where, exc, hit))
        if err is None:
            return
        if exc is None and kind == 3 and isinstance(err, InjectedError):
            sim.fault("failing:" + name)
        elif hit is None or not (err is exc or caused_by(err, exc)):
            raise err
        sim.nontrivial = True
        sim.units["repeated"] += 1


def stage_fail(n):
    n[0] -= 1
    return InjectedError("estimator") if n[0] < 0 else None


def restart(sim, f, where):
    """The process dies; the pickled artefacts are taken up in another one, the engine is set up again."""
    with stepping(sim, budget=QUERY_BUDGET):
        data = pickle.dumps(f.art)
    sim.fault("process_restart")
    sim.sched("restart")
    sim.nontrivial = True
    sim.choose_set_order()
    f.m = Modules()
    with stepping(sim, budget=QUERY_BUDGET):
        f.art = pickle.loads(data)
        if f.ie is not None:
            force = f.force
            f.engine()
            for v, d in force.items():
                f.ie.do_intervention(v, {s: float(p) for s, p in d.items()})
            f.force = force


def together(sim):
    n = sim.between(2, 3)
    specs = [draw_spec(sim, torch=False)]
    while len(specs) < n:
        if sim.draw(2):
            specs.append(draw_spec(sim, torch=False))
        else:                              # the same data, other questions
            o = draw_spec(sim, torch=False)
            specs.append(dict(specs[0], asks=o["asks"], how=o["how"]))
            m = len(specs[-1]["X"])
            specs[-1]["asks"] = [clip(a, m) for a in specs[-1]["asks"]]
    wants = [undisturbed(sim, sp) for sp in specs]
    mods = Modules()
    flows = [Flow(sim, sp, mods, "w%d" % i) for i, sp in enumerate(specs)]
    sim.note("together", specs)
    s = sched.Scheduler(sim, [(1, 2, 3, 5, 9), (5, 20, 60), (3, 30, 100, 400), (50, 200, 1000)][sim.draw(4)])

    def client(f):
        def body():
            for stage in (f.build(), f.answer()):
                for _, call in stage:
                    call()
        return body
    for f in flows:
        s.spawn(f.name, client(f))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %r" % (c.name, c.error)) from c.error
    for f, want in zip(flows, wants):
        sim.check(same(f.built(), want), "wrong-structure", lambda: "%s beside others: %r, alone %r" % (f.name, f.built(), want))
        f.judge(f.name + " beside others")
    sim.fault("thread_switch", s.switches)
    sim.nontrivial = True


def clip(a, m):
    """The same question about rows that exist."""
    if a[0] in ("predict", "eval"):
        return a[:-1] + ([i % m for i in a[-1]],)
    if a[0] == "query":
        return ("query", a[1] % m, a[2])
    if a[0] == "refit":
        return ("refit", [i % m for i in a[1]], a[2])
    return a
