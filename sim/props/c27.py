"""C27: the PyTorch learner obeys its constraints and reports the solver's final point, whatever the solver does."""
import numpy as np

from ..core import InjectedError, SimCrash, SimStop, stepping
from . import learn as L
from . import tl
from .c17 import chained

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of the numerical solver, of random initial weights and of uninitialised memory behind the PyTorch "
        "NOTEARS learner; every learned structure compared with an independent float64 reading of the solver's final point")
NOTE = "causalnex.structure.pytorch is real, over stand-ins for torch, scikit-learn and pandas; the solver is simulated."
RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("one run = one from_numpy / from_pandas call with generated mixed-type data, schema, hidden layers, constraints and "
        "options under a drawn sequence of solver behaviours (or failures, or an interruption followed by a clean call), or "
        "one bad input; non-trivial = the final point has a non-zero graph weight; distinct = distinct sequence of answers")
REAL, STUB, ASSUMPTIONS = tl.REAL, tl.STUB, tl.ASSUME
setup = tl.setup
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]


def run(sim):
    import pandas as pd
    mods = tl.load()
    sim.choose_set_order()
    tl.seams(sim)
    if sim.draw(10) == 9:
        return bad_input(sim, mods, pd)
    tl.earlier(sim, mods, pd)
    case = tl.Case(sim, pd)
    plan = L.gen_plan(sim, min(case.max_iter, 6), allow_raise=True)
    seed = sim.draw(2 ** 20)
    sim.note(case.describe(), "plan", plan)
    if sim.run_index % 50 == 0:
        sim.sample = {"case": case.describe()[:500], "plan": plan}
    where = case.describe()
    clean = [a for a in plan if a != "raise"] or ["dense"]

    def solver(plan):
        s = tl.Solver(sim, case.model.shape(), case.thr or 0.0, plan, tl.max_calls(case.max_iter),
                      probe=lambda sv, fun, jac, x0, lo, hi: tl.check_box(sim, case, lo, hi, where))
        s.rng.seed(seed)
        return s
    if sim.draw(8) == 7:
        with stepping(sim) as st:
            tl.perform(sim, mods, case, solver(clean))
        at, exc = 1 + sim.draw(max(1, st.steps)), sim.pick(EXCS)("injected")
        with stepping(sim, inject_at=at, exc=exc) as st:
            o = tl.perform(sim, mods, case, solver(clean))
        if st.injected:
            sim.fault("async_exception:" + type(exc).__name__)
            sim.sched("interrupted at", st.where)
            sim.check(chained(o.error, exc), "swallowed-failure",
                      lambda: "%s: %r at %s ended as %r" % (where, exc, st.where, o.error or o.graph))
            sim.check(o.unchanged, "input-changed", "%s: arguments changed by an interrupted call" % where)
        plan = clean
    sv = solver(plan)
    try:
        o = tl.perform(sim, mods, case, sv)
        if sv.raised is not None:
            sim.fault("solver_failure")
            sim.check(chained(o.error, sv.raised), "swallowed-failure",
                      lambda: "%s: solver failure %r ended as %r" % (where, sv.raised, o.error or list(o.graph.edges)))
            sim.check(o.unchanged, "input-changed", "%s: arguments changed by a failed call" % where)
            sv = solver(clean)
            o = tl.perform(sim, mods, case, sv)
    except SimStop:
        if sim.inconclusive is not None:
            return
        raise
    if tl.clash(sim, case, o, sv):
        return
    if o.error is not None:
        raise o.error
    p = tl.final_params(case, sv)
    if sv.history and p is None:
        sim.inconclusive = "the solver vector has an unknown layout"
        return
    sim.check(sv.calls > 0 or case.max_iter == 0, "not-solved", "%s: the solver was never called" % where)
    tl.judge_structure(sim, mods, case, sv, o, p)


def bad_input(sim, mods, pd):
    case = tl.Case(sim, pd, maxd=3)
    X, kw = case.call_args()
    kind = sim.draw(6)
    A = case.A.copy()
    nm = case.names
    if kind == 0:
        A[sim.draw(case.n), sim.draw(case.d)] = sim.pick([np.nan, np.inf, -np.inf])
        label = "missing or infinite value"
    elif kind == 1:
        A = A[:0]
        label = "no rows"
    elif kind == 2:
        kw["dist_type_schema"] = {nm[c]: "cont" for c in range(case.d - 1)} if not case.pandas or case.d > 1 else None
        label = "schema misses a column"
        if kw["dist_type_schema"] is None:
            return
    elif kind == 3:
        c = sim.draw(case.d)
        kw["dist_type_schema"] = {nm[k]: "poiss" if k == c else "cont" for k in range(case.d)}
        A[sim.draw(case.n), c] = -1.0
        label = "negative count"
    elif kind == 4 and not case.pandas:
        kw["dist_type_schema"] = dict({k: "cont" for k in range(case.d)}, **{})
        kw["dist_type_schema"][case.d + 2] = "cont"
        label = "schema names an unknown column"
    else:
        if not case.pandas:
            return
        cols = {nm[c]: A[:, c] for c in range(case.d)}
        cols[nm[sim.draw(case.d)]] = ["s%d" % k for k in range(case.n)]
        label = "text column"
    X = A
    if case.pandas:
        X = pd.DataFrame(cols if label == "text column" else {nm[c]: A[:, c] for c in range(case.d)})
    solver = tl.Solver(sim, case.model.shape(), 0.0, ["dense"], 50)
    solver.max_iter = case.max_iter
    before = L.snap([X, kw])
    sim.note("bad input:", label, case.describe())
    sim.fault("bad_input")
    try:
        with solver, np.errstate(all="ignore"):
            g = getattr(mods[1], case.entry)(X, **kw)
    except ValueError:
        sim.probe("rejected")
        sim.check(L.snap([X, kw]) == before, "input-changed", "%s: arguments changed by a refused call (%s)" % (case.describe(), label))
        sim.check(solver.calls == 0, "late-refusal", "%s: %s refused only after the solver ran" % (case.describe(), label))
        return
    sim.fail("bad-input-accepted", "%s: %s accepted: %r" % (case.describe(), label, list(g.edges)))
