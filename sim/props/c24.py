"""C24: the solver is always driven by the documented objective and its exact gradient."""
import numpy as np

from . import c16
from . import learn as L

LEVEL = "exploration"
TECH = ("seeded simulation of the numerical solver: at every solver call of every simulated history the objective and "
        "gradient callbacks are probed at arbitrary points and compared with the documented objective; with one order "
        "allowed, the genuine L-BFGS-B must reach the regularised least-squares optimum")
NOTE = "notears, dynotears, transformers are real; the solver is simulated or the genuine scipy one; pandas is a stand-in."
RUNS = {"quick": 8000, "thorough": 100000}
RULE = ("one run = one learning call under a drawn sequence of solver behaviours; at each solver call ~6 probe points (acyclic, "
        "cyclic, the starting point) are evaluated; or one call whose constraints leave a single variable order, solved by the "
        "genuine solver; non-trivial = two or more solver calls or a regression with a non-zero weight; distinct = distinct "
        "sequence of solver answers")
REAL, STUB = L.REAL + ["scipy L-BFGS-B (in the single-order runs)"], L.STUB
ASSUMPTIONS = L.ASSUME + ["objective values compared to 1e-7 relative, gradients to 1e-4 by central differences"]
setup = L.setup


def score(case, x):
    """0.5/n |X - XW - sum_k L_k A_k|^2 + l1, from the papers, on the decoded matrices."""
    W, As = case.shape.decode(x)
    R = case.X - case.X.dot(W)
    d = case.d
    for k, A in enumerate(As):
        R = R - case.L[:, k * d:(k + 1) * d].dot(A)
    s = 0.5 / len(case.X) * float((R * R).sum())
    q = d * d
    if case.lasso:
        s += case.reg[0] * float(np.sum(x))
    if case.dynamic:
        s += case.reg[0] * float(np.sum(x[:2 * q])) + case.reg[1] * float(np.sum(x[2 * q:]))
    return s


def run(sim):
    import pandas as pd
    mods = L.load()
    sim.choose_set_order()
    if sim.draw(3) == 2:
        return regression(sim, mods, pd)
    case = L.Case(sim, pd, maxd=3)
    case.max_iter = max(1, min(case.max_iter, 4))
    L.earlier(sim, mods, case)
    plan = L.gen_plan(sim, case.max_iter)
    state = {"last": None}

    def probe(sv, fun, jac, x0, lo, hi):
        if sv.calls > 8 and sv.rng.random() < 0.7:
            return
        if x0.size != case.shape.size:
            return
        check_point(sim, case, sv, fun, jac, x0, lo, hi, state)
    solver = L.Solver(sim, case.shape, case.thr, plan, L.budget(case), probe=probe)
    sim.note(case.describe(), "plan", plan)
    if sim.run_index % 50 == 0:
        sim.sample = {"case": case.describe()[:500], "plan": plan}
    o = L.perform(sim, mods, case, solver)
    if o.error is not None:
        raise o.error
    c16.judge(sim, mods, case, solver, o)
    if solver.calls > 1:
        sim.nontrivial = True


def value_and_grad(fun, jac, x):
    if jac is True:
        f, g = fun(x)
    else:
        f, g = fun(x), (jac(x) if callable(jac) else None)
    return float(f), None if g is None else np.asarray(g, dtype=float).ravel()


def check_point(sim, case, sv, fun, jac, x0, lo, hi, state):
    where = "%s solver call %d" % (case.describe(), sv.calls)
    sim.check(np.all(np.isfinite(x0)) and np.all(x0 >= lo) and np.all(x0 <= hi), "bad-start",
              "%s: starting point outside the bounds" % where)
    sim.check(not np.any(x0) or any(np.array_equal(x0, x) for x in sv.history), "bad-start",
              "%s: starts from a point the solver never returned" % where)
    pts = [sv.do_acyclic(None, x0, None, lo, hi, None), x0.copy()]
    cyc = []
    for _ in range(6):
        x = np.zeros(x0.size)
        for k in range(x.size):
            if sv.rng.random() < 0.8:
                x[k] = (sv.rng.random() * 0.9 + 0.1) * (sv.rng.choice([-1, 1]) if case.shape.kind == "plain" else 1)
        x = np.clip(x, lo, hi)
        if L.hval(case.W(x)) > 1e-2:
            cyc.append(x)
    keep = []
    for x in pts:
        h = L.hval(case.W(x))
        f, g = value_and_grad(fun, jac, x.copy())
        s = score(case, x)
        if h < 1e-12:
            sim.check(abs(f - s) <= 1e-7 * (1 + abs(s)), "wrong-objective",
                      "%s: objective %r at an acyclic point, expected %r" % (where, f, s))
            sim.probe("acyclic_values")
    for x in cyc[:3]:
        h = L.hval(case.W(x))
        f, g = value_and_grad(fun, jac, x.copy())
        keep.append((h, f - score(case, x), abs(f)))
        gradient(sim, case, sv, fun, jac, x, f, g, where)
    if cyc:
        # a fixed cyclic point is penalised at least as much as in every earlier call
        z = state.setdefault("z", cyc[0])
        fz, _ = value_and_grad(fun, jac, z.copy())
        pen = fz - score(case, z)
        hz = L.hval(case.W(z))
        if state["last"] is not None:
            sim.check(pen >= state["last"] * (1 - 1e-6), "penalty-decreased",
                      "%s: penalty of a cyclic point fell from %r to %r" % (where, state["last"], pen))
            if pen > state["last"]:
                sim.probe("penalty_raised")
        else:
            sim.check(pen > 0, "not-penalised", "%s: a cyclic point (h=%g) carries the penalty %r" % (where, hz, pen))
        state["last"] = pen
    if len(keep) == 3:
        (h1, p1, a1), (h2, p2, a2), (h3, p3, a3) = sorted(keep)
        # penalty = rho/2 h^2 + alpha h for one (rho, alpha)
        if h3 > 1.2 * h2 and h2 > 1.2 * h1:
            M = np.array([[h1 * h1, h1], [h3 * h3, h3]])
            c = np.linalg.solve(M, [p1, p3])
            want = c[0] * h2 * h2 + c[1] * h2
            tol = 1e-6 * (abs(c[0]) * h3 * h3 + abs(c[1]) * h3 + a1 + a2 + a3)
            sim.check(abs(p2 - want) <= tol * 10, "wrong-penalty",
                      "%s: penalties %r at h=%r are not rho/2 h^2 + alpha h" % (where, (p1, p2, p3), (h1, h2, h3)))
            sim.check(c[0] >= -tol and c[1] >= -tol * 10, "wrong-penalty", "%s: negative multipliers %r" % (where, c))
            sim.probe("penalty_fits")
            multipliers(sim, sv, c[0] * 2, c[1], state, where)


def multipliers(sim, sv, rho, alpha, state, where):
    """Augmented Lagrangian: after each solve either the penalty weight rises and the multiplier stays, or the multiplier
    rises by the penalty weight times the violation that was left."""
    prev = state.get("mult")
    state["mult"] = (sv.calls, rho, alpha)
    if prev is None or prev[0] != sv.calls - 1 or rho > 1e7:
        return
    h = L.hval(sv.shape.decode(sv.history[-1])[0])
    tol = 1e-4 * (rho + alpha) + 1e-5
    raised = rho > prev[1] * 1.5 and abs(alpha - prev[2]) <= tol
    stepped = abs(rho - prev[1]) <= tol and abs(alpha - prev[2] - rho * h) <= tol
    sim.check(raised or stepped, "wrong-multipliers", lambda: "%s: (penalty weight, multiplier) went from (%g, %g) to (%g, %g) "
              "after a solve that left h=%g" % (where, prev[1], prev[2], rho, alpha, h))
    sim.probe("multiplier_steps")


def gradient(sim, case, sv, fun, jac, x, f, g, where):
    if g is None:
        return
    sim.check(g.shape == x.shape and np.all(np.isfinite(g)), "wrong-gradient", "%s: gradient shape %r" % (where, g.shape))
    dirs = [np.eye(x.size)[sv.rng.randrange(x.size)] for _ in range(2)]
    dirs.append(np.array([sv.rng.choice([-1.0, 0.0, 1.0]) for _ in x]))
    e = 1e-5
    for v in dirs:
        a, _ = value_and_grad(fun, jac, x + e * v)
        b, _ = value_and_grad(fun, jac, x - e * v)
        fd = (a - b) / (2 * e)
        want = float(g.dot(v))
        tol = 2e-4 * (1 + float(np.abs(g).sum())) + 1e-9 * abs(f) / e * 1e-1
        sim.check(abs(fd - want) <= tol, "wrong-gradient",
                  lambda: "%s: slope %r along %r, gradient says %r" % (where, fd, v.tolist(), want))
    sim.probe("gradients", len(dirs))


# ------------------------------------------------------------------ single order
def regression(sim, mods, pd):
    """Constraints that leave one variable order make the problem convex: the result must be its optimum."""
    case = L.Case(sim, pd, maxd=4)
    d, p = case.d, case.p
    case.max_iter = max(1, case.max_iter)
    case.thr = 0.0
    order = sim.shuffled(range(d))
    pos = {v: k for k, v in enumerate(order)}
    extra = sim.draw(2)
    case.tabu = {"tabu_edges": [(k, i, j) for k in range(p + 1) for i in range(d) for j in range(d)
                                if (k == 0 and pos[i] >= pos[j]) or (extra and sim.chance(1, 4))]}
    case.n = sim.between(8, 20)
    r = sim.substream()
    A = np.zeros((case.n + p, d))
    coef = np.array([[r.choice([0.0, 0.8, -1.5]) for _ in range(d)] for _ in range(d)])
    for t in range(len(A)):
        for v in order:
            A[t, v] = r.gauss(0, 1) + sum(coef[u, v] * A[t, u] for u in order[:pos[v]])
            if p and t:
                A[t, v] += 0.3 * A[t - 1, r.randrange(d)]
    case.A = A
    case.as_int = False
    solver = L.Solver(sim, case.shape, 0.0, ["converge"], L.budget(case))
    sim.note("regression", case.describe())
    o = L.perform(sim, mods, case, solver)
    if o.error is not None:
        raise o.error
    x, (lo, hi) = solver.history[-1], solver.bounds
    _, pg = value_and_grad(solver.fun, solver.jac, x.copy())
    if pg is not None:
        pg = np.where((x <= lo) & (pg > 0) | (x >= hi) & (pg < 0), 0.0, pg)
        if float(np.abs(pg).max()) > 1e-4:
            sim.probe("genuine_solver_stopped_early")
            return
    g = o.graph
    where = "single order %r: %s" % (order, case.describe())
    dup = {}
    for k in range(p + 1):
        for i in range(d):
            for j in range(d):
                u, v = case.node(k, i), case.node(0, j)
                dup[(k, i, j)] = float(g.edges[u, v]["weight"]) if g.has_edge(u, v) else 0.0
    # column by column: optimality conditions of least squares + l1
    Z = np.concatenate([case.X] + ([case.L] if p else []), axis=1)
    n = len(case.X)
    scale = float(np.abs(Z.T.dot(Z)).max()) / n + 1
    for j in range(d):
        w = np.array([dup[(k, i, j)] for k in range(p + 1) for i in range(d)])
        grad = -Z.T.dot(case.X[:, j] - Z.dot(w)) / n
        for q, (k, i) in enumerate((k, i) for k in range(p + 1) for i in range(d)):
            if not case.allowed(k, i, j):
                sim.check(w[q] == 0, "forbidden-edge", "%s: %r" % (where, (k, i, j)))
                continue
            lam = (case.reg[0] if k == 0 else case.reg[1]) if (case.dynamic or case.lasso) else 0.0
            tol = 2e-3 * scale
            if w[q] > 1e-9:
                bad = abs(grad[q] + lam)
            elif w[q] < -1e-9:
                bad = abs(grad[q] - lam)
            else:
                bad = max(0.0, abs(grad[q]) - lam)
            sim.check(bad <= tol, "not-optimal", "%s: weight %r of %r is not the (regularised) least-squares one: "
                                                 "residual slope %g" % (where, w[q], (k, i, j), bad))
    if any(dup.values()):
        sim.nontrivial = True
    sim.probe("single_order_optimum")
    sim.check(not o.warned, "false-warning", "%s: warned" % where)
