"""C17: structure learning terminates and is honest about convergence."""
import numpy as np

from ..core import InjectedError, SimCrash, SimStop, stepping
from . import c16
from . import learn as L

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of the numerical solver (stalls, partial progress, failures) and of interruptions at any executed "
        "line; bounded solver calls, and acyclicity recomputed independently on the solver's final point")
NOTE = "notears, dynotears and StructureModel are real; the solver is simulated; pandas is a stand-in."
RUNS = {"quick": 12000, "thorough": 400000}
RULE = ("one run = one learning call under a drawn sequence of solver behaviours, possibly with a solver failure or an "
        "interruption followed by a clean retry, or with warnings turned into errors; non-trivial = the solver returned a "
        "cyclic point or failed; distinct = distinct sequence of solver answers")
REAL, STUB, ASSUMPTIONS = L.REAL, L.STUB, L.ASSUME + ["acyclicity within a band of 0.1 % + 1e-12 around h_tol is not judged"]
setup = L.setup
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]


def run(sim):
    import pandas as pd
    mods = L.load()
    sim.choose_set_order()
    case = L.Case(sim, pd)
    if case.max_iter == 0 and sim.draw(4):
        case.max_iter = sim.between(1, 12)
    L.earlier(sim, mods, case)
    plan = L.gen_plan(sim, case.max_iter, allow_raise=True)
    seed = sim.draw(2 ** 20)
    strict = sim.draw(8) == 7
    sim.note(case.describe(), "plan", plan)
    if sim.run_index % 50 == 0:
        sim.sample = {"case": case.describe()[:500], "plan": plan}

    def solver(plan):
        s = L.Solver(sim, case.shape, case.thr, plan, L.budget(case))
        s.rng.seed(seed)
        return s
    where = case.describe()
    sv = solver(plan)
    inject = sim.draw(6) == 5
    if inject:
        with stepping(sim) as st:
            L.perform(sim, mods, case, solver([a for a in plan if a != "raise"]))
        at, exc = 1 + sim.draw(max(1, st.steps)), sim.pick(EXCS)("injected")
        with stepping(sim, inject_at=at, exc=exc) as st:
            o = L.perform(sim, mods, case, solver([a for a in plan if a != "raise"]))
        if st.injected:
            sim.fault("async_exception:" + type(exc).__name__)
            sim.sched("interrupted at", st.where)
            sim.check(chained(o.error, exc), "swallowed-failure",
                      lambda: "%s: %r at %s ended as %r" % (where, exc, st.where, o.error or o.graph))
            sim.check(o.unchanged, "input-changed", "%s: arguments changed by an interrupted call" % where)
            sim.nontrivial = True
        plan = [a for a in plan if a != "raise"]
        sv = solver(plan)
    o = L.perform(sim, mods, case, sv, strict_warn=strict)
    sim.probe("solver_calls", sv.calls)
    if sv.raised is not None:
        sim.nontrivial = True
        sim.fault("solver_failure")
        sim.check(chained(o.error, sv.raised), "swallowed-failure",
                  lambda: "%s: solver failure %r ended as %r" % (where, sv.raised, o.error or list(o.graph.edges)))
        sim.check(o.unchanged, "input-changed", "%s: arguments changed by a failed call" % where)
        plan = [a for a in plan if a != "raise"]
        sv = solver(plan)
        o = L.perform(sim, mods, case, sv)
        strict = False
    final = sv.history[-1] if sv.history else np.zeros(case.shape.size)
    dec = case.shape.decode(final)
    if dec is None:
        sim.inconclusive = "the solver vector has an unknown layout"
        return
    h = L.hval(dec[0])
    bad = h > case.h_tol * 1.001 + 1e-12
    good = h < case.h_tol * 0.999 - 1e-12
    if h > 1e-9:
        sim.nontrivial = True
    if case.max_iter == 0:
        bad = False
    warned = o.warned
    if strict and isinstance(o.error, UserWarning) and "converge" in str(o.error):
        warned, o.error = 1, None
    elif strict and bad:
        sim.check(o.error is not None, "silent-failure", "%s: warnings are errors, h=%g, yet a result was returned" % (where, h))
    if o.error is not None:
        raise o.error
    if bad:
        sim.check(warned, "silent-failure", "%s: final h=%g exceeds h_tol=%g without a warning (%d solver calls)" % (
            where, h, case.h_tol, sv.calls))
        sim.probe("warned")
    elif good:
        sim.check(not warned, "false-warning", "%s: final h=%g is within h_tol=%g but a warning was given" % (
            where, h, case.h_tol))
        sim.probe("converged")
    sim.check(warned <= 1, "repeated-warning", "%s: %d convergence warnings" % (where, warned))
    if case.max_iter and not sv.calls:
        sim.fail("not-solved", "%s: the solver was never called" % where)
    # stopping early is only allowed once the tolerance is met; the solver is not asked again after that
    for k, x in enumerate(sv.history[:-1]):
        if L.hval(case.W(x)) < case.h_tol * 0.999 - 1e-12 and accepted(case, sv.history, k):
            sim.fail("kept-going", "%s: solver called again after an acceptable point (call %d of %d)" % (where, k + 1, sv.calls))
    if o.graph is not None:
        c16.judge(sim, mods, case, sv, o)


def accepted(case, hist, k):
    """Point k met the progress rule whatever came before: its h is at most a quarter of every earlier one."""
    h = L.hval(case.W(hist[k]))
    return all(h <= 0.2499 * L.hval(case.W(x)) for x in hist[:k])


def chained(e, exc):
    seen = set()
    while e is not None and id(e) not in seen:
        if e is exc:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False
