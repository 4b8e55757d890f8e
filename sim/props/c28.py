"""C28: the PyTorch learner hands the solver the documented objective and gradient, and is honest about convergence."""
import numpy as np

from ..core import SimStop, stepping
from . import learn as L
from . import tl

LEVEL = "exploration"
TECH = ("seeded simulation of the numerical solver: at every solver call of every simulated history the objective and gradient "
        "callbacks are probed at arbitrary points and compared with an independent float64 model of the documented objective")
NOTE = "causalnex.structure.pytorch is real, over stand-ins for torch, scikit-learn and pandas; the solver is simulated."
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("one run = one learning call with generated mixed-type data, hidden layers and regularisation under a drawn sequence of "
        "solver behaviours; at each (sampled) solver call about 6 points are evaluated; non-trivial = two or more solver calls; "
        "distinct = distinct sequence of solver answers")
REAL, STUB = tl.REAL, tl.STUB
ASSUMPTIONS = tl.ASSUME + ["points where a class probability falls below 1e-3 or a penalty drowns the loss in float32 rounding "
                           "are not judged"]
setup = tl.setup


def run(sim):
    import pandas as pd
    mods = tl.load()
    sim.choose_set_order()
    tl.seams(sim)
    tl.earlier(sim, mods, pd)
    case = tl.Case(sim, pd, maxd=3, mind=2 if sim.draw(8) else 1, free=True)
    case.max_iter = max(1, case.max_iter)
    case.max_iter = max(case.max_iter, sim.pick([1, 3, 4]))
    plan = L.gen_plan(sim, min(case.max_iter, 4))
    if sim.draw(4):
        # cyclic answers first: the histories in which the multipliers grow
        plan = [sim.pick(["dense", "bounds", "nearly_acyclic"]) for _ in range(sim.between(1, 3))] + plan
    state = {"prev": None}
    where = case.describe()

    def probe(sv, fun, jac, x0, lo, hi):
        tl.check_box(sim, case, lo, hi, where)
        start(sim, case, sv, x0, "%s solver call %d" % (where, sv.calls))
        if sv.calls > 5 and sv.rng.random() < 0.7:
            state["prev"] = None
            return
        points(sim, case, sv, fun, jac, x0, lo, hi, state)
    sv = tl.Solver(sim, case.model.shape(), case.thr or 0.0, plan, tl.max_calls(case.max_iter), probe=probe)
    sim.note(where, "plan", plan)
    if sim.run_index % 50 == 0:
        sim.sample = {"case": where[:500], "plan": plan}
    try:
        with stepping(sim):
            o = tl.perform(sim, mods, case, sv)
    except SimStop:
        if sim.inconclusive is not None:
            return
        raise
    if tl.clash(sim, case, o, sv):
        return
    if o.error is not None:
        raise o.error
    if sv.calls > 1:
        sim.nontrivial = True
    p = tl.final_params(case, sv)
    h = case.model.h(p)
    sim.check(o.warned <= 1, "repeated-warning", "%s: %d convergence warnings" % (where, o.warned))
    if h > 1e-4 + case.model.hnoise(p) and len(sv.history) <= 12:
        sim.check(o.warned, "silent-failure", "%s: final h=%g after %d solver calls, without a warning" % (where, h, sv.calls))
        sim.probe("warned")
    if h <= 0 and len(sv.history) == 1:
        sim.probe("converged")
    # stopping early is only allowed once the tolerance is met; the solver is not asked again after that
    for k, x in enumerate(sv.history[:-1]):
        if not np.any(tl.f32(x)[:case.model.n_dag]):
            sim.fail("kept-going", "%s: solver called again after it returned an edgeless (hence acyclic) point" % where)
    # the search for a larger penalty is given up at a fixed limit: documented nowhere, and silent
    if h > 1e-2 and len(sv.history) > 12 and not o.warned:
        sim.fail("silent-penalty-limit" if len(sv.history) >= 17 else "silent-failure",
                 "final graph far from acyclic after %d solver calls, penalty weight at its limit, without a warning: %s, h=%g" % (
                     len(sv.history), where, h))


def start(sim, case, sv, x0, where):
    m = case.model
    if not sv.history:
        p = m.decode(x0)
        sim.check(not np.any(p.W) and (p.b is None or not np.any(p.b)), "bad-start",
                  "%s: the first starting point already has graph weights or biases" % where)
        for k, (w, b) in enumerate(p.layers):
            lim = 1.0 / np.sqrt(m.dims[1 + k]) * (1 + 1e-6)
            for v in (w,) if b is None else (w, b):
                sim.check(np.all(np.isfinite(v)) and np.all(np.abs(v) <= lim), "bad-start",
                          lambda: "%s: initial hidden weights %r outside +-%g" % (where, v.ravel().tolist()[:6], lim))
        sv.first = x0.copy()
        return
    sim.check(np.array_equal(x0, sv.first) or any(np.array_equal(tl.f32(x0), tl.f32(x)) for x in sv.history), "bad-start",
              "%s: starts from a point that is neither the initial one nor one the solver returned" % where)


def evaluate(sim, fun, jac, x, where):
    with np.errstate(all="ignore"):
        if jac is True:
            f, g = fun(x.copy())
        else:
            f, g = fun(x.copy()), jac(x.copy())
    g = np.asarray(g, dtype=float).ravel()
    sim.check(np.ndim(f) == 0 and g.shape == x.shape, "wrong-gradient", "%s: gradient of shape %r" % (where, g.shape))
    return float(f), g


def points(sim, case, sv, fun, jac, x0, lo, hi, state):
    m = case.model
    where = "%s solver call %d" % (case.describe(), sv.calls)
    r = sv.rng
    # float32-exact points
    flat, cyc = [], []
    base = np.clip(sv.do_acyclic(None, x0, None, lo, hi, None), -1.5, 1.5)
    flat.append(tl.f32(base))
    z = np.zeros(m.size)
    z[m.n_dag:] = [r.uniform(-1, 1) for _ in range(m.size - m.n_dag)]
    flat.append(tl.f32(z))
    for s in (0.7, 1.4, 2.2):
        x = np.array([r.choice([-1, 1]) * s * (0.6 + 0.4 * r.random()) if r.random() < 0.8 else 0.0 for _ in range(m.size)])
        x[m.n_dag:] = np.clip(x[m.n_dag:], -1.5, 1.5)
        x = tl.f32(np.clip(x, lo, hi))
        if m.h(m.decode(x)) > 1e-2:
            cyc.append(x)
    seen = []
    for x in cyc:
        p = m.decode(x)
        s, h = m.primal(p), m.h(p)
        if s is None or not np.isfinite(s):
            continue
        f, g = evaluate(sim, fun, jac, x, where)
        seen.append((h, f - s, 1e-4 * (1 + abs(s)) + 3e-6 * abs(f) + 0 * h, x, f, g, m.hnoise(p)))
    mult = None
    if len(seen) >= 2:
        seen.sort(key=lambda t: t[0])
        (h1, p1, e1), (h3, p3, e3) = seen[0][:3], seen[-1][:3]
        sim.check(p3 > -e3, "not-penalised", "%s: a cyclic point (h=%g) carries the penalty %r" % (where, h3, p3))
        if h3 > 2 * h1:
            c = np.linalg.solve(np.array([[0.5 * h1 * h1, h1], [0.5 * h3 * h3, h3]]), [p1, p3])
            n1 = (c[0] * h1 + c[1]) * seen[0][6]
            n3 = (c[0] * h3 + c[1]) * seen[-1][6]
            err = abs(e1) + abs(n1), abs(e3) + abs(n3)
            # error of the solution of the 2x2 system
            inv = np.abs(np.linalg.inv(np.array([[0.5 * h1 * h1, h1], [0.5 * h3 * h3, h3]])))
            erho, ealpha = inv.dot(err)
            mult = (c[0], c[1], erho, ealpha)
            sim.check(c[0] >= -erho and c[1] >= -ealpha, "wrong-penalty", lambda: "%s: negative multipliers %r (h %g, %g: "
                      "penalties %g, %g)" % (where, c.tolist(), h1, h3, p1, p3))
            if len(seen) == 3:
                h2, p2, e2 = seen[1][:3]
                want = 0.5 * c[0] * h2 * h2 + c[1] * h2
                tol = e2 + 0.5 * erho * h2 * h2 + ealpha * h2 + abs((c[0] * h2 + c[1]) * seen[1][6])
                sim.check(abs(p2 - want) <= 3 * tol, "wrong-penalty",
                          lambda: "%s: penalties %r at h=%r are not rho/2 h^2 + alpha h" % (where, (p1, p2, p3), (h1, h2, h3)))
                sim.probe("penalty_fits")
            progress(sim, case, sv, mult, state, where)
    if mult is None:
        state["prev"] = None
    rho, alpha = (max(mult[0], 0.0), max(mult[1], 0.0)) if mult else (0.0, 0.0)
    big = rho if mult else 10.0 ** min(sv.calls, 16)
    for x in flat:
        p = m.decode(x)
        s, h = m.primal(p), m.h(p)
        nz = m.hnoise(p)
        if s is None or h > 1e-9:
            continue
        f, g = evaluate(sim, fun, jac, x, where)
        noise = 0.5 * big * nz * nz + (alpha if mult else big) * nz
        if noise > 0.05 * (1 + abs(s)):
            continue
        sim.check(abs(f - s) <= 2e-4 * (1 + abs(s)) + noise, "wrong-objective",
                  lambda: "%s: objective %r at an acyclic point, expected %r" % (where, f, s))
        sim.probe("acyclic_values")
        if (big * nz + alpha) * 1.0 < 1e-2:
            slope(sim, case, sv, x, g, 0.0, 0.0, where)
    if mult and mult[2] < 0.05 * (abs(mult[0]) + 1e-3) and mult[3] < 0.05 * (abs(mult[1]) + 1):
        for h, pen, e, x, f, g, nz in seen[:2]:
            slope(sim, case, sv, x, g, rho, alpha, where)


def slope(sim, case, sv, x, g, rho, alpha, where):
    """Directional derivatives of the reference objective against the gradient handed over."""
    m = case.model
    r = sv.rng
    sim.check(np.all(np.isfinite(g)), "wrong-gradient", "%s: gradient %r" % (where, g.tolist()[:8]))

    def F(y):
        p = m.decode(y)
        s = m.primal(p)
        if s is None:
            return None
        h = m.h(p)
        return s + 0.5 * rho * h * h + alpha * h
    dirs = []
    free = np.flatnonzero(np.abs(x) > 1e-3) if m.lasso else np.arange(m.size)      # |w| has no slope at 0
    hid = np.arange(m.n_dag, m.size)
    for pool in (free, free, hid):
        if len(pool):
            v = np.zeros(m.size)
            v[pool[r.randrange(len(pool))]] = 1.0
            dirs.append(v)
    if len(free):
        v = np.zeros(m.size)
        v[free] = [r.choice([-1.0, 0.0, 1.0]) for _ in free]
        dirs.append(v)
    e = 1e-4
    scale = float(np.abs(g).max())
    for v in dirs:
        a, b = F(x + e * v), F(x - e * v)
        if a is None or b is None:
            continue
        fd, have = (a - b) / (2 * e), float(g.dot(v))
        tol = 3e-3 * (1 + scale) + 1e-4 * float(np.abs(g).sum()) + 0.06 * abs(fd) * (rho > 0)
        sim.check(abs(fd - have) <= tol, "wrong-gradient", lambda: "%s: slope %r along %r at %r, the gradient says %r" % (
            where, fd, v.tolist(), x.tolist(), have))
        sim.probe("slopes")


def progress(sim, case, sv, mult, state, where):
    """Either the penalty weight rises and the multiplier stays, or the multiplier rises by the weight times the violation."""
    prev, state["prev"] = state["prev"], (sv.calls, mult)
    if prev is None or prev[0] != sv.calls - 1 or mult[0] > 1e6:
        return
    rho, alpha, er, ea = mult
    rho0, alpha0, er0, ea0 = prev[1]
    m = case.model
    p = m.decode(tl.f32(sv.history[-1]))
    h, nz = m.h(p), m.hnoise(p)
    tr, ta = 2 * (er + er0) + 1e-3 * rho, 2 * (ea + ea0) + 1e-3 * (1 + abs(alpha))
    raised = rho > 1.5 * rho0 - tr and abs(alpha - alpha0) <= ta
    if raised and rho <= rho0 + tr:
        raised = False
    # one solve may both raise the weight (inner loop) and then be accepted (multiplier step): weight first
    stepped = any(abs(rho - r) <= tr and abs(alpha - alpha0 - r * h) <= ta + r * nz + er0 * h for r in (rho0, rho))
    if tr > 0.3 * rho or ta > 0.3 * (abs(alpha) + rho * (abs(h) + 0.1)):
        sim.probe("multipliers_too_noisy")
        return
    sim.check(raised or stepped, "wrong-multipliers", lambda: "%s: (penalty weight, multiplier) went from (%g, %g) to (%g, %g) "
              "after a solve that left h=%g" % (where, rho0, alpha0, rho, alpha, h))
    sim.probe("multiplier_steps")
