"""C29: DAGRegressor / DAGClassifier answer from their last completed fit, row by row, whatever happened before."""
import warnings

import networkx as nx
import numpy as np

from .. import sched
from ..core import HarnessError, InjectedError, SimCrash, SimStop, Violation, stepping
from . import c28
from . import learn as L
from . import tl
from .c17 import chained

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of estimator histories (fits, refits on other data, failed and interrupted fits, concurrent "
        "predictions) under a simulated solver; predictions, coefficients and structure compared with an independent float64 "
        "reading of the last fit's data and final point")
NOTE = "causalnex.structure.pytorch is real, over stand-ins for torch, scikit-learn and pandas; the solver is simulated."
RUNS = {"quick": 5000, "thorough": 150000}
RULE = ("one run = one DAGRegressor or DAGClassifier with drawn options and a history of 1-4 fits (some failing: invalid data, a "
        "solver failure, an exception at a chosen line) on data frames or arrays with all kinds of row indexes, each completed "
        "fit followed by predictions on new rows (one batch, row by row, or from several threads), coefficients and intercepts; "
        "non-trivial = the target has a parent; distinct = distinct sequence of solver answers and thread switches")
REAL, STUB, ASSUMPTIONS = tl.REAL, tl.STUB + ["thread scheduler", "asynchronous exceptions"], tl.ASSUME
setup = tl.setup
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]


DEFAULTS = {"alpha": 0.0, "beta": 0.0, "fit_intercept": True, "threshold": 0.0, "dependent_target": True,
            "enforce_dag": False, "standardize": False, "target_dist_type": None, "hidden_layer_units": None}


class Est(tl.Case):
    """The options of one estimator; bind() adds the data of one fit."""

    def __init__(self, sim, pd):
        self.sim, self.pd = sim, pd
        self.entry = "DAGClassifier" if sim.draw(2) else "DAGRegressor"
        self.classifier = self.entry == "DAGClassifier"
        self.pandas = True
        self.nf = sim.between(1, 3)
        mixed = sim.draw(3)
        self.ftypes = [sim.pick(tl.TYPES) if mixed else "cont" for _ in range(self.nf)]
        self.frame = sim.draw(2) == 1 or False
        self.fnames = sim.pick([["f%d" % k for k in range(self.nf)], ["b", "a", "z"][:self.nf], [4, 2, 9][:self.nf]]) \
            if self.frame else list(range(self.nf))
        self.schema = mixed != 0 or sim.draw(2) == 1
        self.forder = sim.shuffled(range(self.nf)) if self.schema else list(range(self.nf))
        self.yname = sim.pick([None, "y", "target", 7])
        self.target = sim.pick([None, None, "poiss", "cont"]) if not self.classifier else sim.pick([None, None, "ord", "cat"])
        self.hidden = sim.pick([None, None, None, [2], [3], [2, 2], [0]])
        self.use_bias = bool(sim.draw(2))
        self.lasso = sim.pick([0.0, 0.1, 0])
        self.ridge = sim.pick([0.0, 0.1, 1])
        self.clamp = None
        self.thr = sim.pick([0.0, 0.0, 0.3, 0.05])
        self.max_iter = sim.pick([1, 2, 1])
        self.dependent = bool(sim.draw(4) != 3)
        self.enforce = sim.draw(4) == 3
        self.standardize = sim.draw(3) == 2
        self.ftabu = {}
        if sim.draw(3) == 2:
            self.ftabu["tabu_edges"] = [(i, j) for i in range(self.nf) for j in range(self.nf + 1) if sim.chance(1, 3)]
        if sim.draw(4) == 3:
            self.ftabu["tabu_parent_nodes"] = [i for i in range(self.nf) if sim.chance(1, 3)]
        if sim.draw(4) == 3:
            self.ftabu["tabu_child_nodes"] = [i for i in range(self.nf) if sim.chance(1, 3)]

    def build(self, mod):
        nm = self.fnames + [self.yname or "__target"]
        kw = {}
        if self.schema:
            kw["dist_type_schema"] = {nm[c]: self.ftypes[c] for c in self.forder}
        for k, v in self.ftabu.items():
            kw[k] = [(nm[a[0]], nm[a[1]]) for a in v] if k == "tabu_edges" else [nm[a] for a in v]
        kw.update(alpha=self.lasso, beta=self.ridge, fit_intercept=self.use_bias, threshold=self.thr,
                  dependent_target=self.dependent, enforce_dag=self.enforce, standardize=self.standardize, max_iter=self.max_iter)
        if self.hidden is not None:
            kw["hidden_layer_units"] = self.hidden
        if self.target is not None or self.sim.draw(2):
            kw["target_dist_type"] = self.target
        if self.sim.draw(2):                # arguments left out have their default value
            kw = {k: v for k, v in kw.items() if k not in DEFAULTS or v is not DEFAULTS[k] and v != DEFAULTS[k]}
        self.kw = kw
        self.kw_before = L.snap(kw)
        return getattr(mod, self.entry)(**kw)

    def data(self):
        """Fresh data of one fit."""
        sim = self.sim
        r = sim.substream()
        n = self.n = sim.size(4, 9, (60, 130))
        self.F = np.array([tl.column(r, t, n) for t in self.ftypes], dtype=float).T.reshape(n, self.nf)
        if sim.draw(4) == 3:            # whole numbers only
            self.F = np.round(self.F * 3) if "cont" in self.ftypes else self.F
        self.int_X = sim.draw(2) and bool(np.all(self.F == np.round(self.F)))
        t = self.target
        if self.classifier:
            labels = sim.pick([[0, 1], [0, 1, 2], [3, 7], [5, 1, 9], [-1, 1], [1.0, 0.0], [2.0, 1.0, 0.0], ["no", "yes"],
                               ["a", "c", "b"]])
            k = len(labels)
            codes = [r.randrange(k) for _ in range(n)]
            at = r.sample(range(n), k)
            for i, a in enumerate(at):
                codes[a] = i
            y = [labels[c] for c in codes]
            self.classes = sorted(labels)
            self.y = np.array([self.classes.index(v) for v in y], dtype=float)
            self.ytype = t or ("cat" if k > 2 else "bin")
            self.y_given = np.array(y, dtype=object) if isinstance(y[0], str) else np.array(y)
        else:
            self.ytype = t or "cont"
            v = tl.column(r, self.ytype, n)
            self.y = np.array(v)
            self.y_given = self.y.copy()
            if self.ytype == "poiss" or sim.draw(3) == 2:
                self.y = np.round(self.y * 2)
                self.y_given = self.y.astype(int) if sim.draw(2) else self.y.copy()
        self.bind()

    def scaled(self, F):
        """Features as the learner sees them."""
        if not self.standardize:
            return F
        F = F.copy()
        for c in range(self.nf):
            if self.ftypes[c] == "cont":
                F[:, c] = (F[:, c] - self.mean[c]) / self.std[c]
        return F

    def bind(self):
        self.mean = self.F.mean(axis=0)
        s = self.F.std(axis=0)
        self.std = np.where(s == 0, 1.0, s)
        y = self.y
        self.ymean, self.ystd = 0.0, 1.0
        if self.standardize and self.ytype == "cont":
            self.ymean, self.ystd = float(y.mean()), float(y.std()) or 1.0
            y = (y - self.ymean) / self.ystd
        self.A = np.concatenate([self.scaled(self.F), y[:, None]], axis=1)
        self.types = self.ftypes + [self.ytype]
        self.d = self.nf + 1
        self.order = self.forder + [self.nf]
        self.names = self.fnames + [self.yname or "__target"]
        self.tabu = {k: list(v) for k, v in self.ftabu.items()}
        if self.dependent:
            self.tabu["tabu_parent_nodes"] = self.tabu.get("tabu_parent_nodes", []) + [self.nf]
        self.model = tl.Model(self.A, self.types, self.order, self.hidden, self.use_bias, self.lasso, self.ridge)

    def args(self, F, n, fit=True):
        """(X, y) as handed over."""
        sim, pd = self.sim, self.pd
        F = F.astype(int) if self.int_X and np.all(F == np.round(F)) else F.copy()
        idx = [list(range(n)), sim.shuffled(range(n)), list(range(10, 10 + n)), ["r%d" % k for k in range(n)]][sim.draw(4)]
        X = F
        if self.frame:
            X = pd.DataFrame({self.fnames[c]: F[:, c].copy() for c in range(self.nf)}, index=idx)
        if not fit:
            return X
        y = self.y_given.copy()
        if self.yname is not None or self.y_given.dtype == object or sim.draw(2):
            yidx = idx if self.frame and sim.draw(2) else [list(range(n)), sim.shuffled(range(n))][sim.draw(2)]
            y = pd.Series(list(y), index=yidx, name=self.yname)
        return X, y

    def describe(self):
        return "%s features=%s names=%s order=%s target=%s frame=%s hidden=%s bias=%s thr=%g dependent=%s dag=%s std=%s tabu=%s" % (
            self.entry, self.ftypes, self.fnames, self.forder, self.target, self.frame, self.hidden, self.use_bias, self.thr,
            self.dependent, self.enforce, self.standardize, self.ftabu)


def run(sim):
    import pandas as pd
    *mods, SK = tl.load("causalnex.structure.pytorch.sklearn")
    sim.choose_set_order()
    tl.seams(sim)
    case = Est(sim, pd)
    sim.note(case.describe())
    if sim.run_index % 50 == 0:
        sim.sample = {"case": case.describe()}
    est = case.build(SK)
    if sim.draw(6) == 5:
        before_fit(sim, case, est, SK)
    for step in range(sim.between(1, 4)):
        case.data()
        fault = sim.draw(6)
        where = "%s fit %d (n=%d, classes=%s, %s target)" % (case.describe(), step, case.n,
                                                             case.classes if case.classifier else None, case.ytype)
        if fault == 5:
            failing(sim, case, est, where)
            if sim.draw(2):
                case.data()
            where += " after a failed fit"
        done = fit(sim, case, est, where)
        if done is None:
            return
        sv, p = done
        sim.units["fits"] += 1
        check_model(sim, mods, case, est, sv, p, where)
        for _ in range(sim.between(1, 3)):
            ask(sim, case, est, p, where)
        if sim.draw(4) == 3:
            together(sim, case, est, p, where)
    sim.check(L.snap(case.kw) == case.kw_before, "input-changed", "%s: constructor arguments changed" % case.describe())


def new_solver(sim, case, plan, where):
    seen = {}

    def probe(sv, fun, jac, x0, lo, hi):
        tl.check_box(sim, case, lo, hi, where)
        if sv.calls == 1:
            c28.points(sim, case, sv, fun, jac, x0, lo, hi, {"prev": None})
    sv = tl.Solver(sim, case.model.shape(), case.thr, plan, tl.max_calls(case.max_iter), probe=probe)
    sv.max_iter = case.max_iter
    return sv


def attempt(case, est, sv, X, y):
    with warnings.catch_warnings(), np.errstate(all="ignore"), tl.Warned(), sv:
        warnings.simplefilter("ignore")
        est_back = est.fit(X, y)
    return est_back


def fit(sim, case, est, where):
    plan = L.gen_plan(sim, case.max_iter)
    if sim.draw(2):
        plan = [sim.pick(["dense", "acyclic", "bounds", "sparse"])] + plan
    sv = new_solver(sim, case, plan, where)
    X, y = case.args(case.F, case.n)
    before = L.snap([X, np.asarray(y)]), getattr(y, "name", None), list(getattr(y, "index", []))
    sim.note("fit", plan, case.n, case.ytype)
    try:
        back = attempt(case, est, sv, X, y)
    except SimStop:
        if sim.inconclusive is not None:
            return None
        raise
    after = L.snap([X, np.asarray(y)]), getattr(y, "name", None), list(getattr(y, "index", []))
    sim.check(after == before, "input-changed", lambda: "%s: the training data was changed by fit" % where)
    sim.check(back is est, "wrong-return", "%s: fit returned %r" % (where, back))
    p = case.model.decode(tl.f32(sv.history[-1])) if sv.history else None
    if p is None:
        sim.inconclusive = "the solver vector has an unknown layout"
        return None
    return sv, p


def failing(sim, case, est, where):
    """A fit that fails: the caller sees the failure; what the estimator answers until its next fit is not judged."""
    kind = sim.draw(5)
    X, y = case.args(case.F, case.n)
    sv = new_solver(sim, case, ["dense"], where)
    exc = None
    try:
        if kind == 0:
            sv.plan = ["raise"]
            sim.fault("solver_failure")
            attempt(case, est, sv, X, y)
        elif kind in (1, 2):
            exc = sim.pick(EXCS)("injected")
            at = 1 + sim.draw(sim.pick([40, 400, 4000]))
            with stepping(sim, inject_at=at, exc=exc) as st:
                try:
                    attempt(case, est, sv, X, y)
                finally:
                    done = STEP_WAS(st)
            if not done:
                return
        else:
            sim.fault("bad_input")
            if kind == 3:
                X = np.array(case.F)
                X[sim.draw(case.n), sim.draw(case.nf)] = np.nan
                y = case.y_given.copy()
            else:
                y = case.y_given[:-1].copy()
            attempt(case, est, sv, X, y)
    except (SimStop, Violation, HarnessError):
        if sim.inconclusive is not None:
            return
        raise
    except BaseException as e:
        if kind in (1, 2) and exc is not None:
            sim.check(chained(e, exc), "swallowed-failure", lambda: "%s: %r ended as %r" % (where, exc, e))
            sim.fault("async_exception:" + type(exc).__name__)
        elif kind == 0:
            sim.check(chained(e, sv.raised), "swallowed-failure", lambda: "%s: %r ended as %r" % (where, sv.raised, e))
        else:
            sim.check(isinstance(e, ValueError), "unexpected-exception:%s" % type(e).__name__, "%s: %r" % (where, e))
        sim.sched("failed fit", kind)
        return
    if kind in (1, 2):
        sim.fail("swallowed-failure", "%s: the injected %r vanished" % (where, exc))
    sim.fail("bad-input-accepted" if kind > 2 else "swallowed-failure", "%s: fit succeeded" % where)


def STEP_WAS(st):
    from ..core import STEP
    return STEP.injected > 0


def before_fit(sim, case, est, SK):
    """Nothing can be asked of an estimator that was never fitted."""
    case.data()
    X = case.args(case.F, case.n, fit=False)
    try:
        out = est.predict(X)
    except (ValueError, AttributeError):
        sim.probe("not_fitted")
        return
    sim.fail("answer-without-fit", "%s: predict before fit returned %r" % (case.describe(), out))


def check_model(sim, mods, case, est, sv, p, where):
    m = case.model
    o = tl.Outcome()
    o.graph, o.unchanged = est.graph_, True
    if not case.enforce:
        thr, case.thr = case.thr, case.thr
        tl.judge_structure(sim, mods, case, sv, o, p)
        case.thr = thr
    else:
        sim.check(nx.is_directed_acyclic_graph(est.graph_), "not-acyclic", "%s: enforce_dag left a cycle" % where)
    if case.classifier:
        sim.check([c for c in est.classes_.tolist()] == case.classes, "wrong-classes",
                  lambda: "%s: classes_ are %r" % (where, est.classes_))
    # coefficients: the graph's edges into the target, one per feature
    g = est.graph_
    tgt = m.groups[case.nf]
    tnodes = [case.node(i) for i in tgt] if len(case.classes if case.classifier else []) != 2 else [case.node(tgt[0])]
    if "cat" in case.ftypes:
        rows = None
    else:
        rows = {a: np.array([[g.edges[f, t][a] if g.has_edge(f, t) else 0.0 for f in case.fnames] for t in tnodes])
                for a in ("weight", "mean_effect")}
    if rows is not None:
        for attr, name in (("weight", "feature_importances_"), ("mean_effect", "coef_")):
            want = rows[attr] if case.classifier else rows[attr][0]
            got = np.asarray(getattr(est, name), dtype=float)
            sim.check(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=1e-9), "wrong-coefficients",
                      lambda: "%s: %s is %r, the graph says %r" % (where, name, got.tolist(), want.tolist()))
    elif not case.classifier:
        for attr, name in (("weight", "feature_importances_"), ("mean_effect", "coef_")):
            got = np.asarray(getattr(est, name), dtype=float)
            want = [g.edges[f, tnodes[0]][attr] if g.has_edge(f, tnodes[0]) else 0.0 for f in case.fnames]
            sim.check(np.allclose(got[:case.nf], want, rtol=0, atol=1e-9), "wrong-coefficients",
                      lambda: "%s: %s is %r, the graph says %r" % (where, name, got.tolist(), want))
    if m.linear:
        want = [0.0 if p.b is None else p.b[i, 0] for i in (tgt if len(tnodes) > 1 else tgt[:1])]
        got = np.atleast_1d(np.asarray(est.intercept_, dtype=float))
        sim.check(got.shape == (len(want),) and np.allclose(got, want, rtol=0, atol=1e-9), "wrong-intercept",
                  lambda: "%s: intercept_ is %r, the solution says %r" % (where, got.tolist(), want))
    if any(g.in_degree(t) for t in tnodes):
        sim.nontrivial = True


def new_rows(sim, case):
    r = sim.substream()
    k = sim.between(1, 5)
    rows = []
    for _ in range(k):
        base = case.F[r.randrange(case.n)].copy()
        for c in range(case.nf):
            if r.random() < 0.5:
                if case.ftypes[c] == "cont":
                    base[c] = round(r.gauss(0, 1), 2) if not case.int_X else r.randrange(-3, 4)
                elif case.ftypes[c] in ("bin", "poiss"):
                    base[c] = float(r.randrange(2))
                else:
                    base[c] = case.F[r.randrange(case.n), c]
        rows.append(base)
    return np.array(rows)


def expected(case, p, F):
    m = case.model
    A = np.concatenate([case.scaled(F), np.zeros((len(F), 1))], axis=1)
    X = m.forward(p, m.expand(A))
    v = m.link(case.nf, X)
    if case.ytype == "cont":
        v = v * case.ystd + case.ymean
    return v, float(np.abs(X).max())


def judge(sim, case, p, F, out, kind, where):
    want, size = expected(case, p, F)
    if size > 25:
        sim.probe("saturated_not_judged")
        return
    tol = 1e-3 * (1 + np.abs(want)) * (1 + (0.05 * size if case.ytype == "poiss" else 0)) + 3e-6 * size * case.ystd * (
        1 + np.abs(want))
    out = np.asarray(out)
    if kind == "proba":
        if want.ndim == 1:
            want = np.stack([1 - want, want], axis=1)
            tol = np.stack([tol, tol], axis=1)
        sim.check(out.shape == want.shape and np.all(np.abs(out - want) <= tol), "wrong-probabilities",
                  lambda: "%s: predict_proba gave %r, the last fit says %r" % (where, out.tolist(), want.tolist()))
    elif case.classifier:
        probs = np.stack([1 - want, want], axis=1) if want.ndim == 1 else want
        sim.check(out.shape == (len(F),), "wrong-prediction", "%s: predictions of shape %r" % (where, out.shape))
        for k, row in enumerate(probs):
            v = out[k]
            sim.check(v in case.classes, "wrong-prediction", lambda: "%s: predicted %r" % (where, v))
            gap = row.max() - row[case.classes.index(v)]
            sim.check(gap <= 4e-3, "wrong-prediction", lambda: "%s: predicted %r although the probabilities of %r are %r" % (
                where, v, case.classes, row.tolist()))
    else:
        sim.check(out.shape == want.shape and np.all(np.abs(out - want) <= tol), "wrong-prediction",
                  lambda: "%s: predicted %r, the last fit says %r for %r" % (where, out.tolist(), want.tolist(), F.tolist()))
    sim.probe("predictions", len(F))


def query(sim, case, est, F):
    kind = "proba" if case.classifier and sim.draw(2) else "predict"
    X = case.args(F, len(F), fit=False)
    return kind, X, L.snap(X)


def call(est, kind, X):
    with np.errstate(all="ignore"):
        return est.predict_proba(X) if kind == "proba" else est.predict(X)


def ask(sim, case, est, p, where):
    F = new_rows(sim, case)
    kind, X, before = query(sim, case, est, F)
    out = call(est, kind, X)
    sim.check(L.snap(X) == before, "input-changed", "%s: %s changed its input" % (where, kind))
    judge(sim, case, p, F, out, kind, where)
    sim.units["predict"] += 1


def together(sim, case, est, p, where):
    """Predictions from several threads."""
    s = sched.Scheduler(sim, sim.pick([(1, 2, 3, 5, 9), (5, 20, 60), (3, 30, 100)]))
    results = []

    def client(jobs):
        def body():
            for F, kind, X in jobs:
                results.append((F, kind, call(est, kind, X)))
        return body
    n = 0
    for k in range(sim.between(2, 3)):
        jobs = []
        for _ in range(sim.between(1, 2)):
            F = new_rows(sim, case)
            kind, X, _ = query(sim, case, est, F)
            jobs.append((F, kind, X))
            n += 1
        s.spawn("c%d" % k, client(jobs))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %s: %r" % (where, c.name, c.error)) from c.error
    sim.check(len(results) == n, "lost-operation", "%s: a prediction did not return" % where)
    for F, kind, out in results:
        judge(sim, case, p, F, out, kind, where + " (concurrent)")
    sim.fault("thread_switch", s.switches)
    sim.units["concurrent_predict"] += n
