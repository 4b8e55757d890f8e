"""C16: structure learning obeys its constraints whatever the solver returns."""
import numpy as np

from .. import sched
from ..core import HarnessError, SimStop, Violation
from . import learn as L

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of the numerical solver behind scipy.optimize.minimize (any in-bounds point, stalls, partial "
        "progress, failures) with every learned structure compared with a reference reading of the solver's final point")
NOTE = "notears, dynotears, transformers and StructureModel are real; the solver is simulated; pandas is a stand-in."
RUNS = {"quick": 20000, "thorough": 600000}
RULE = ("one run = one learning call (or 2-3 interleaved ones) through one of the six public entry points with generated data, "
        "constraints and options, under a drawn sequence of solver behaviours; or one bad input; non-trivial = at least one "
        "edge survived or was thresholded away; distinct = distinct sequence of solver answers")
REAL, STUB, ASSUMPTIONS = L.REAL, L.STUB, L.ASSUME
setup = L.setup


def run(sim):
    import pandas as pd
    mods = L.load()
    sim.choose_set_order()
    if sim.draw(8) == 7:
        return bad_input(sim, mods, pd)
    if sim.draw(10) == 9:
        return together(sim, mods, pd)
    case = L.Case(sim, pd)
    before = L.earlier(sim, mods, case)
    if before:
        judge(sim, mods, *before)
    plan = L.gen_plan(sim, case.max_iter)
    solver = L.Solver(sim, case.shape, case.thr, plan, L.budget(case))
    sim.note(case.describe(), "plan", plan)
    if sim.run_index % 50 == 0:
        sim.sample = {"case": case.describe()[:500], "plan": plan}
    o = L.perform(sim, mods, case, solver)
    if o.error is not None:
        raise o.error
    judge(sim, mods, case, solver, o)


def judge(sim, mods, case, solver, o):
    where = "%s (solver: %d calls)" % (case.describe(), solver.calls)
    g = o.graph
    sim.check(type(g) is mods[0].StructureModel, "wrong-structure", "%s: returned %r" % (where, type(g)))
    sim.check(o.unchanged, "input-changed", "%s: the caller's arguments were changed" % where)
    nodes = case.nodes()
    sim.check(set(g.nodes) == set(nodes) and len(g.nodes) == len(nodes), "wrong-nodes",
              lambda: "%s: nodes %r" % (where, list(g.nodes)))
    cell = {(case.node(k, i), case.node(0, j)): (k, i, j)
            for k in range(case.p + 1) for i in range(case.d) for j in range(case.d)}
    got = {}
    for u, v, a in g.edges(data=True):
        c = cell.get((u, v))
        sim.check(c is not None, "edge-against-time", "%s: edge %r -> %r" % (where, u, v))
        sim.check(case.allowed(*c), "forbidden-edge", "%s: edge %r -> %r is excluded" % (where, u, v))
        w = a.get("weight")
        sim.check(w is not None and np.isfinite(w) and w != 0, "bad-weight", "%s: edge %r -> %r has weight %r" % (where, u, v, w))
        sim.check(abs(w) >= case.thr, "below-threshold", "%s: edge %r -> %r has weight %r" % (where, u, v, w))
        want = "learned" if case.pandas else "unknown"
        sim.check(a.get("origin") == want, "wrong-origin", "%s: edge %r -> %r has origin %r" % (where, u, v, a.get("origin")))
        got[(u, v)] = float(w)
    final = solver.history[-1] if solver.history else np.zeros(case.shape.size)
    exp = case.expected(final)
    if exp is None:
        sim.inconclusive = "the solver vector has an unknown layout"
        return
    if solver.calls:
        unrestricted(sim, case, solver, where)
    if got != exp:
        sim.fail("wrong-edges", "%s: got %r, expected %r" % (where, diff(got, exp), diff(exp, got)))
    if np.any(final):
        sim.nontrivial = True
        sim.probe("edges", len(got))
        if len(got) < np.count_nonzero(final):
            sim.probe("thresholded_or_cancelled_entries")
    if any(solver.shape.kind != "plain" and final[k] and final[k + case.d ** 2]
           for k, c in enumerate(case.shape.cells()) if c[3] > 0):
        sim.probe("both_signs_of_one_weight")
    sim.probe("final_cyclic" if L.hval(case.W(final)) > 1e-6 else "final_acyclic")
    for k in case.tabu:
        sim.probe(k)


def unrestricted(sim, case, solver, where):
    """Every edge the constraints allow can take any weight: the solver's box leaves it free in both directions."""
    lo, hi = solver.bounds
    up, down = {}, {}
    for k, (lag, i, j, s) in enumerate(case.shape.cells()):
        a, b = (lo[k], hi[k]) if s > 0 else (-hi[k], -lo[k])
        down[(lag, i, j)] = down.get((lag, i, j), 0.0) + a
        up[(lag, i, j)] = up.get((lag, i, j), 0.0) + b
    for c in up:
        if case.allowed(*c):
            sim.check(up[c] == np.inf and down[c] == -np.inf, "edge-restricted",
                      lambda: "%s: allowed edge %r is confined to [%g, %g]" % (where, c, down[c], up[c]))


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k) != v}


def together(sim, mods, pd):
    """Several learning calls in different threads, switched at executed lines and inside the solver."""
    cases = [L.Case(sim, pd, maxd=3) for _ in range(sim.between(2, 3))]
    s = sched.Scheduler(sim, sim.pick([(1, 2, 3, 5, 9), (5, 20, 60), (3, 30, 100, 400)]))
    results = []

    def client(case, solver):
        def body():
            with solver:
                results.append((case, solver, simple(mods, case)))
        return body
    for k, case in enumerate(cases):
        case.max_iter = min(case.max_iter, 3)
        solver = L.Solver(sim, case.shape, case.thr, L.gen_plan(sim, case.max_iter), L.budget(case))
        solver.sched = s
        solver.max_iter = case.max_iter
        sim.note("client", k, case.describe())
        s.spawn("c%d" % k, client(case, solver))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError, SimStop)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %r" % (c.name, c.error)) from c.error
    sim.fault("thread_switch", s.switches)
    for case, solver, o in results:
        judge(sim, mods, case, solver, o)
    sim.probe("concurrent_calls", len(cases))


def simple(mods, case):
    fn = getattr(mods[2] if case.dynamic else mods[1], case.entry)
    data, args, kw = case.call_args()
    before = L.snap([args, kw])
    o = L.Outcome()
    o.error = None
    o.graph = fn(*args, **kw)
    o.unchanged = L.snap([args, kw]) == before
    return o


def bad_input(sim, mods, pd):
    case = L.Case(sim, pd)
    solver = L.Solver(sim, case.shape, case.thr, ["acyclic"], L.budget(case))
    solver.max_iter = case.max_iter
    fn = getattr(mods[2] if case.dynamic else mods[1], case.entry)
    data, args, kw = case.call_args()
    if case.entry in ("from_numpy", "from_numpy_lasso"):
        kind = sim.pick(["nan", "inf", "-inf", "empty"])
        X = np.array(args[0], dtype=float)
        if kind == "empty":
            X = np.zeros((0, case.d))
        else:
            X[sim.draw(X.shape[0]), sim.draw(X.shape[1])] = float(kind)
        args[0] = X
        exc = (ValueError,)
    elif case.entry in ("from_pandas", "from_pandas_lasso"):
        kind = sim.pick(["nan", "inf", "empty", "text", "unknown_name"])
        df, exc = args[0], (ValueError,)
        if kind == "text":
            df[sim.pick(list(df.columns))] = ["x%d" % i for i in range(len(df))]
        elif kind == "empty":
            df = df.iloc[0:0]
        elif kind == "unknown_name":
            for k in L_TABU:
                kw.pop(k, None)
            where = sim.pick(L_TABU)
            kw[where] = [("nope", case.names[0])] if where == "tabu_edges" else ["nope"]
            exc = (Exception,)
        else:
            A = np.array(df.values, dtype=float)
            A[sim.draw(A.shape[0]), sim.draw(A.shape[1])] = float(kind)
            df = pd.DataFrame(A, columns=list(df.columns))
        args[0] = df
    elif case.entry == "from_numpy_dynamic":
        kind = sim.pick(["empty", "empty_lags", "rows", "columns"])
        X, Lg = np.array(args[0]), np.array(args[1])
        if kind == "empty":
            X = X[:0]
        elif kind == "empty_lags":
            Lg = Lg[:0] if sim.draw(2) else Lg[:, :0]
        elif kind == "rows":
            Lg = np.concatenate([Lg, Lg])[:len(Lg) + 1]
        else:
            if case.d == 1:
                return
            Lg = Lg[:, :-1]
        args[0], args[1] = X, Lg
        exc = (ValueError,)
    else:
        kind = sim.pick(["text", "no_frames", "not_a_frame", "too_short", "unknown_name"])
        exc = (ValueError, TypeError)
        frames = args[0] if isinstance(args[0], list) else [args[0]]
        if kind == "text":
            frames[0][sim.pick(list(frames[0].columns))] = ["x%d" % i for i in range(len(frames[0]))]
        elif kind == "no_frames":
            frames = []
        elif kind == "not_a_frame":
            frames = frames + [np.array(frames[0].values)]
        elif kind == "too_short":
            frames = [frames[0].iloc[0:case.p]]
        else:
            for k in L_TABU:
                kw.pop(k, None)
            where = sim.pick(L_TABU)
            kw[where] = [(1, "nope", case.names[0])] if where == "tabu_edges" else ["nope"]
            exc = (Exception,)
        args[0] = frames
    sim.sched("bad", case.entry, kind)
    sim.probe("bad:" + kind)
    sim.nontrivial = True
    sim.fault("bad_input")
    before = L.snap([args, kw])
    try:
        with solver:
            g = fn(*args, **kw)
    except exc as e:
        if L_stub(e):
            raise
        sim.check(solver.calls == 0, "solved-bad-input", "%s with %s: solver called before the rejection" % (case.entry, kind))
        sim.check(L.snap([args, kw]) == before, "input-changed", "%s with %s: arguments changed" % (case.entry, kind))
        return
    sim.fail("accepted-bad-input", "%s with %s returned %r" % (case.entry, kind, list(g.edges)))


L_TABU = ["tabu_edges", "tabu_parent_nodes", "tabu_child_nodes"]


def L_stub(e):
    from ..core import stub_gap
    return stub_gap(e) is not None or isinstance(e, (NameError, AttributeError))
