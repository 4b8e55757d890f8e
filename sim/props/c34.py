"""C34: plots draw exactly the structure they are given, styled in the documented order, whatever fails or runs around them."""
import copy
import sys
from fractions import Fraction

from .. import loader, sched, stubs
from ..core import HarnessError, InjectedError, SimCrash, SimStop, Violation, stepping
from ..stubs import minigraphviz as G
from .c06 import caused_by
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of plotting histories with fault injection: the layout program fails, packages are absent, calls are "
        "interrupted at chosen lines or run in threads over one model; every drawn graph compared with an independent reading")
NOTE = ("causalnex.plots, DAGBase.plot_dag and networkx's conversion are real; pygraphviz (with its external programs), "
        "matplotlib and IPython are stand-ins.")
RUNS = {"quick": 8000, "thorough": 250000}
RULE = ("one run = one model (isolated nodes, cycles, node and edge data, string, number and tuple names) and 2-6 steps: "
        "plot_structure with drawn attribute dictionaries, plot_dag of an estimator, displays, colour gradients, with a failing "
        "layout or drawing program, a missing package, an exception at a chosen line, or 2-3 threads sharing model and "
        "dictionaries; non-trivial = a fault or overlapping plots; distinct = distinct history")
REAL = ["causalnex.plots, causalnex.structure.structuremodel, causalnex.structure.pytorch.sklearn (plot_dag) "
        "(from /repo's working tree)", "networkx"]
STUB = ["pygraphviz and the Graphviz programs", "matplotlib", "IPython.display", "torch, pandas, sklearn (small stand-ins)",
        "set iteration order (SimSet)", "thread scheduler", "asynchronous exceptions (raised at a chosen line of causalnex)"]
ASSUMPTIONS = ["pygraphviz keeps node names and attributes as strings, as documented",
               "switch points and asynchronous exceptions are at line boundaries of causalnex code",
               "sampled histories and faults: a clean batch is evidence, not proof"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
NAMES = [["a", "b", "c", "d", "e"], ["x1", "x10", "x 2", "", "é"], [1, 2, 30, 4, 5], ["p_lag0", "p_lag1", "q_lag0", "q_lag1", "r"],
         [("a", 0), ("a", 1), ("b", 0), ("c",), "z"], ["%s", "%d%%", "a\n", "{}", "\\N"]]
KEYS = ["color", "shape", "width", "label", "fontsize", "foo", "penwidth", "style", "arrowsize", "weight", "origin"]
VALUES = ["black", "#FF0000", 1, 2.5, "", "box", True, "10"]
GKEYS = ["scale", "bgcolor", "dpi", "label", "splines", "rankdir"]


def setup():
    stubs.install(torch=True)
    G.register(loader.STUB_MODULES)


def load(sim, absent):
    for p in G.PACKAGES:
        sys.modules.pop(p, None)
    for p in absent:
        sys.modules[p] = None
    try:
        return loader.fresh("causalnex.structure.structuremodel", "causalnex.plots.plots", "causalnex.plots.display",
                            "causalnex.plots", anew=True)
    finally:
        pass


def run(sim):
    G.PLAN.reset()
    del G.FIGURES[:]
    sim.choose_set_order()
    absent = []
    if sim.draw(6) == 5:
        absent = sim.pick([["pygraphviz", "pygraphviz.agraph"], ["pygraphviz.agraph"], ["IPython.display"],
                           ["matplotlib.pyplot"], ["matplotlib", "matplotlib.pyplot", "matplotlib.axes", "matplotlib.figure"]])
    try:
        go(sim, absent)
    finally:
        for p in G.PACKAGES:
            sys.modules.pop(p, None)
        G.PLAN.reset()


def go(sim, absent):
    S, P, D, top = load(sim, absent)
    for p in absent:
        sim.fault("package_absent:" + p)
        sim.nontrivial = True
    style = copy.deepcopy((tuple(P.NODE_STYLE), tuple(P.EDGE_STYLE), P.GRAPH_STYLE))
    sm = model(sim, S)
    est = None
    ctx = dict(P=P, D=D, top=top, S=S, absent=set(absent))
    args = [arguments(sim, sm, P) for _ in range(2)]
    sim.note("model", see(sm), "absent", absent)
    if sim.run_index % 50 == 0:
        sim.sample = {"model": str(see(sm))}
    for step in range(sim.between(2, 6)):
        where = "step %d" % step
        kind = sim.draw(10)
        sim.sched("step", kind)
        if kind == 0:
            gradient(sim, top, where)
        elif kind in (1, 2):
            if est is None:
                est = estimator(sim, S)
            plot_dag(sim, ctx, est, where)
        elif kind == 3:
            display(sim, ctx, sm, where)
        elif kind in (4, 5):
            together(sim, ctx, sm, args, where)
        else:
            kw = args[sim.draw(2)] if sim.draw(2) else arguments(sim, sm, P)
            plot(sim, ctx, sm, kw, where)
        if sim.draw(4) == 3:
            change(sim, sm)
            args = [arguments(sim, sm, P) for _ in range(2)]
        now = (tuple(P.NODE_STYLE), tuple(P.EDGE_STYLE), P.GRAPH_STYLE)
        sim.check(now == style, "styles-changed", lambda: "%s: the default styles became %r" % (where, now))


def change(sim, sm):
    nodes = list(sm.nodes)
    k = sim.draw(3)
    if k == 0 and sm.edges:
        sm.remove_edge(*sim.pick(sorted(sm.edges, key=repr)))
    elif k == 1 and len(nodes) > 1:
        sm.remove_node(sim.pick(nodes))
    else:
        free = [n for n in NAMES[0] + NAMES[2] if str(n) not in {str(x) for x in nodes}]
        sm.add_edge(sim.pick(nodes), sim.pick(free)) if free else None


def model(sim, S):
    names = sim.shuffled(sim.pick(NAMES))[:sim.between(1, 5)]
    sm = S.StructureModel()
    for n in names:
        if sim.draw(2):
            sm.add_node(n, **({sim.pick(KEYS): sim.pick(VALUES)} if sim.draw(3) == 2 else {}))
    pairs = [(u, v) for u in names for v in names if u != v]
    for u, v in sim.shuffled(pairs)[:sim.draw(7)]:
        data = {"weight": sim.between(-20, 20) / 4.0, "origin": sim.pick(["learned", "expert", "unknown"])}
        if sim.draw(4) == 3:
            data["origin"] = "learned"
            sm.add_edge(u, v, **data)
            sm.edges[u, v][sim.pick(["color", "foo", "penwidth"])] = sim.pick(VALUES)
        else:
            sm.add_edge(u, v, **data)
    if not len(sm):
        sm.add_node(names[0])
    return sm


def see(sm):
    return (sorted(((repr(n), sorted(map(repr, d.items()))) for n, d in sm.nodes(data=True))),
            sorted((repr((u, v)), sorted(map(repr, d.items()))) for u, v, d in sm.edges(data=True)), repr(sorted(sm.graph.items())))


def style_dict(sim, P=None, node=True):
    if P is not None and sim.draw(4) == 3:
        return sim.pick(list(P.NODE_STYLE if node else P.EDGE_STYLE))
    return {sim.pick(KEYS): sim.pick(VALUES) for _ in range(sim.draw(4))}


def arguments(sim, sm, P):
    kw = {}
    nodes, edges = sorted(sm.nodes, key=repr), sorted(sm.edges, key=repr)
    if sim.draw(2):
        kw["all_node_attributes"] = style_dict(sim, P, True)
    if sim.draw(2):
        kw["all_edge_attributes"] = style_dict(sim, P, False)
    if sim.draw(2):
        kw["node_attributes"] = {n: style_dict(sim) for n in nodes if sim.draw(2)}
        if sim.draw(4) == 3:
            kw["node_attributes"]["ghost"] = {"color": "black"}
    if sim.draw(2):
        kw["edge_attributes"] = {e: style_dict(sim) for e in edges if sim.draw(2)}
        if sim.draw(4) == 3:
            kw["edge_attributes"][("ghost", nodes[0])] = {"color": "black"}
    if sim.draw(2):
        kw["graph_attributes"] = {sim.pick(GKEYS): sim.pick(VALUES) for _ in range(sim.draw(4))}
    if sim.draw(2):
        kw["prog"] = sim.pick(["neato", "dot", "circo", "fdp"])
    if sim.draw(6) == 5:
        kw[sim.pick(["node_attributes", "all_node_attributes", "edge_attributes", "graph_attributes"])] = None
    return kw


def expected(sm, P, kw):
    """(graph attributes, {node: attributes}, {edge: attributes}) as strings, by the documented order."""
    get = lambda k: kw.get(k) or {}  # noqa: E731
    nodes, edges = {}, {}
    for n, d in sm.nodes(data=True):
        a = dict(d)
        a["label"] = str(n) + "\n\n "
        for more in (P.NODE_STYLE.NORMAL, get("all_node_attributes"), get("node_attributes").get(n, {})):
            a.update(more)
        nodes[str(n)] = {k: str(v) for k, v in a.items()}
    for u, v, d in sm.edges(data=True):
        a = dict(d)
        for more in (P.EDGE_STYLE.NORMAL, get("all_edge_attributes"), get("edge_attributes").get((u, v), {})):
            a.update(more)
        edges[(str(u), str(v))] = {k: str(w) for k, w in a.items()}
    g = {k: str(v) for k, v in dict(sm.graph, **dict(P.GRAPH_STYLE, **get("graph_attributes"))).items()}
    return g, nodes, edges


def judge(sim, sm_want, graph, prog, where):
    g, nodes, edges = sm_want
    got_n = sorted(map(str, graph.nodes()))
    sim.check(got_n == sorted(nodes), "wrong-nodes", lambda: "%s: drew nodes %r, the model has %r" % (where, got_n, sorted(nodes)))
    got_e = sorted(tuple(e) for e in graph.edges())
    sim.check(got_e == sorted(edges), "wrong-edges", lambda: "%s: drew edges %r, the model has %r" % (where, got_e, sorted(edges)))
    sim.check(graph.is_directed(), "wrong-edges", "%s: the drawing is undirected" % where)
    for what, want, thing in ([("node %r" % n, nodes[n], graph.get_node(n)) for n in nodes]
                              + [("edge %r" % (e,), edges[e], graph.get_edge(*e)) for e in edges]):
        got = {k: v for k, v in thing.attr.items() if k != "pos"}
        sim.check(got == want, "wrong-attributes", lambda: "%s: %s has %r, by the documented order %r" % (
            where, what, diff(got, want), diff(want, got)))
    got = dict(graph.graph_attr.items())
    sim.check(got == g, "wrong-attributes", lambda: "%s: the graph has %r, by the documented order %r" % (
        where, diff(got, g), diff(g, got)))
    sim.check(graph.has_layout, "not-laid-out", "%s: no layout" % where)
    for n in graph.nodes():
        sim.check(n.attr["pos"].endswith(",%d" % len(prog)), "wrong-program", "%s: laid out by another program than %s" % (where, prog))
    sim.units["plots"] += 1


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k, None) != v}


def faults(sim):
    """Arrange for an external program to fail; returns the exception or None."""
    if sim.draw(5) != 4:
        return None
    exc = sim.pick([OSError("Program terminated with status: 1"), ValueError("Program neato not found in path."),
                    MemoryError("injected"), InjectedError("injected"), FileNotFoundError("neato")])
    stage = sim.pick(["layout", "draw"])
    left = [sim.draw(2)]
    only = sim.draw(2)                              # a passing failure, or a failure of one program only
    fired = sim.fired = []

    def fail(s, prog):
        if s == stage:
            if left[0] == 0 and not (fired and (only or fired[0] != prog)):
                fired.append(prog)
                return exc
            left[0] = max(0, left[0] - 1)
        return None
    G.PLAN.fail = fail
    return exc


def guarded(sim, ctx, call, unchanged, where, interrupt=True):
    """Run one call with possible faults.  (result, failed by an injected or absent thing)."""
    before = [f() for f in unchanged]
    sim.fired = []
    exc = faults(sim)
    n_calls = len(G.PLAN.calls)
    at = None
    if exc is None and interrupt and sim.draw(6) == 5:
        at, exc = 1 + sim.draw(90), sim.pick(EXCS)("injected")
    out = err = None
    try:
        with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc if at else None) as st:
            out = call()
    except (SimStop, Violation):
        raise
    except BaseException as e:
        err = e
    G.PLAN.fail = None
    after = [f() for f in unchanged]
    sim.check(before == after, "input-changed", lambda: "%s: %r became %r" % (where, before, after))
    if at is not None and st.injected:
        sim.sched("interrupted at", st.where)
        sim.fault("async_exception:" + type(exc).__name__)
        sim.check(err is not None, "failure-swallowed", "%s: %r at %s vanished" % (where, exc, st.where))
        if err is not exc and not caused_by(err, exc):
            raise err
        sim.nontrivial = True
        return None, True
    if err is None:
        sim.check(not sim.fired, "failure-swallowed", lambda: "%s: %r of %s vanished" % (where, exc, sim.fired))
        return out, False
    if at is None and exc is not None and (err is exc or caused_by(err, exc)):
        sim.fault("program_failed:" + type(exc).__name__)
        sim.check(len(G.PLAN.calls) > n_calls, "wrong-error", "%s: %r" % (where, err))
        sim.nontrivial = True
        return None, True
    if "pygraphviz" in ctx["absent"] and isinstance(err, Warning):
        sim.check(isinstance(err.__cause__, ImportError), "wrong-error", "%s: %r without its cause" % (where, err))
        sim.probe("warned_absent")
        return None, True
    raise err


def frozen(kw):
    return lambda: repr(kw)


def plot(sim, ctx, sm, kw, where):
    P = ctx["P"]
    want = expected(sm, P, kw)
    where = "%s plot_structure(%r) of %r" % (where, kw, sorted(map(str, sm.edges)))
    out, failed = guarded(sim, ctx, lambda: ctx["top"].plot_structure(sm, **kw), [lambda: see(sm), frozen(kw)], where)
    sim.sched("plot", sorted(kw), len(sm), failed)
    if failed:
        return None
    sim.check("pygraphviz" not in ctx["absent"], "plot-without-package", where)
    judge(sim, want, out, kw.get("prog", "neato"), where)
    if sim.draw(3) == 2:                         # a drawing belongs to its caller
        for thing in list(out.nodes()) + list(out.edges()):
            thing.attr["color"] = "stained"
        out.graph_attr["bgcolor"] = "stained"
        sim.check(expected(sm, P, kw) == want, "shared-attributes", where + ": changing the drawing changed the model or the styles")
    return out


def display(sim, ctx, sm, where):
    out = plot(sim, ctx, sm, {}, where)
    if out is None:
        return
    use_mpl = sim.draw(2)
    prog = sim.pick(["neato", "dot", "circo"])
    ax = G.Axes() if sim.draw(2) else None
    px = sim.pick([0.01, 0.5, 1])
    kw = {}
    if prog != "neato" or sim.draw(2):
        kw["prog"] = prog
    if use_mpl:
        if ax is not None:
            kw["ax"] = ax
        if px != 0.01 or sim.draw(2):
            kw["pixel_size_in"] = px
    graph = out.to_string()
    name = "display_plot_mpl" if use_mpl else "display_plot_ipython"
    missing = ("matplotlib" in "".join(ctx["absent"])) if use_mpl else "IPython.display" in ctx["absent"]
    del G.FIGURES[:]
    try:
        res, failed = guarded(sim, ctx, lambda: getattr(ctx["top"], name)(out, **kw), [out.to_string], where + " " + name)
    except ImportError:
        sim.check(missing, "wrong-error", "%s: %s raises ImportError" % (where, name))
        return
    sim.check(out.to_string() == graph, "input-changed", "%s: %s changed the drawing" % (where, name))
    if failed:
        return
    sim.check(not missing, "display-without-package", "%s: %s returned %r" % (where, name, res))
    shown(sim, res, use_mpl, ax, px, prog, len(sm), len(sm.edges), where)


def shown(sim, res, use_mpl, ax, px, prog, n, m, where):
    if not use_mpl:
        sim.check(isinstance(res, G.Image) and res.data == ("png %s %d %d" % (prog, n, m)).encode(), "wrong-display",
                  lambda: "%s: displayed %r" % (where, getattr(res, "data", res)))
        return
    fig, got = res
    if ax is not None:
        sim.check(fig is None and got is ax and not G.FIGURES, "wrong-display", "%s: not drawn on the given axes" % where)
    else:
        y, x = 3 + n, 5 + m
        sim.check(len(G.FIGURES) == 1 and fig is G.FIGURES[0]
                  and all(abs(a - b * px) < 1e-9 for a, b in zip(fig.figsize, (x, y))), "wrong-display",
                  lambda: "%s: figure of %r for %r pixels of %r" % (where, fig and fig.figsize, (x, y), px))
    a = got.shown[-1] if got.shown else None
    sim.check(len(got.shown) == 1 and a.shape[:2] == (3 + n, 5 + m) and a[0, 0, 0] == G.PROGS.index(prog) and got.off,
              "wrong-display", "%s: not this drawing, once, without axes" % where)


def estimator(sim, S):
    est = __import__("causalnex.structure.pytorch", fromlist=["DAGRegressor"]).DAGRegressor()
    est.graph_ = model(sim, S)
    for u, v, d in est.graph_.edges(data=True):
        d["weight"] = sim.between(1, 40) * (1 if sim.draw(2) else -1) / 8.0
    est.features_, est.target_ = tuple(est.graph_.nodes)[:-1], list(est.graph_.nodes)[-1]
    return est


def acyclic(sm):
    seen, left = set(), set(sm.nodes)
    while left:
        free = [n for n in left if not any(p in left for p in sm.predecessors(n))]
        if not free:
            return False
        left -= set(free)
    return True


def plot_dag(sim, ctx, est, where):
    P, sm = ctx["P"], est.graph_
    enforce = bool(sim.draw(2))
    use_mpl = bool(sim.draw(2))
    ax = G.Axes() if sim.draw(2) else None
    kw = sim.pick([None, {}, arguments(sim, sm, P)])
    call = {"enforce_dag": enforce, "use_mpl": use_mpl}
    if kw is not None:
        call["plot_structure_kwargs"] = kw
    if ax is not None:
        call["ax"] = ax
    left = sm.copy()
    if enforce:
        while not acyclic(left):
            u, v, _ = min(left.edges(data="weight"), key=lambda t: abs(t[2]))
            left.remove_edge(u, v)
        ws = sorted(abs(w) for _, _, w in sm.edges(data="weight"))
        if len(set(ws)) < len(ws) and not acyclic(sm):
            return                                      # which of equal edges goes is not documented
    eff = kw if kw else {"graph_attributes": {"scale": "0.5"}, "all_node_attributes": P.NODE_STYLE.WEAK,
                         "all_edge_attributes": P.EDGE_STYLE.WEAK}
    prog = eff.get("prog", "neato")
    missing = ("matplotlib" in "".join(ctx["absent"])) if use_mpl else "IPython.display" in ctx["absent"]
    where = "%s plot_dag(%r)" % (where, call)
    del G.FIGURES[:]
    seen = []
    base = sys.modules[type(est).plot_dag.__module__]
    inner = getattr(base, "plot_structure", None)
    if inner is not None:
        def spy(*a, **k):
            seen.append(inner(*a, **k))
            return seen[-1]
        base.plot_structure = spy
    try:
        res, failed = guarded(sim, ctx, lambda: est.plot_dag(**call), [lambda: see(est.graph_), frozen(kw)], where)
    except ImportError:
        sim.check(missing, "wrong-error", "%s raises ImportError" % where)
        return
    finally:
        if inner is not None:
            base.plot_structure = inner
    sim.check(est.graph_ is sm, "estimator-changed", where)
    if failed:
        return
    sim.check(not missing and "pygraphviz" not in ctx["absent"], "display-without-package", where)
    shown(sim, res, use_mpl, ax, 0.01, prog, len(left), len(left.edges), where)
    if len(seen) == 1:
        judge(sim, expected(left, P, eff), seen[0], prog, where)
    sim.sched("plot_dag", enforce, use_mpl, kw is None, len(left.edges))


def gradient(sim, top, where):
    def colour():
        c = [sim.draw(256) for _ in range(3 + sim.draw(2))]
        s = "#" + "".join("%02x" % v for v in c)
        return s.upper() if sim.draw(2) else s, c + [255] * (4 - len(c))
    (a, f), (b, t) = colour(), colour()
    steps = sim.between(1, 12) if sim.draw(2) else sim.between(13, 60)
    out = top.color_gradient_string(a, b, steps)
    parts = out.split(":")
    where = "%s: gradient(%s, %s, %d) = %s" % (where, a, b, steps, out)
    sim.check(len(parts) == steps + 1, "wrong-gradient", where)
    for i, p in enumerate(parts):
        c, w = p.split(";")
        sim.check(w == "%.2f" % (1.0 / (steps + 1)), "wrong-gradient", where)
        got = [int(c[1 + 2 * k:3 + 2 * k], 16) for k in range(4)]
        sim.check(c[0] == "#" and len(c) == 9, "wrong-gradient", where)
        for g, x, y in zip(got, f, t):
            exact = x + Fraction((y - x) * i, steps)
            near = abs(g - exact)
            sim.check(near < 1 and (near == 0 or exact.denominator != 1), "wrong-gradient",
                      lambda: "%s: colour %d is %s, expected %s" % (where, i, c, [float(x + Fraction((y - x) * i, steps)) for x, y in zip(f, t)]))


def together(sim, ctx, sm, args, where):
    P, top = ctx["P"], ctx["top"]
    if "pygraphviz" in ctx["absent"]:
        return
    s = sched.Scheduler(sim, [(1, 2, 3, 5, 9), (4, 9, 25), (3, 30, 100)][sim.draw(3)])
    history, before = [], see(sm)

    def client(jobs):
        def body():
            for kw in jobs:
                history.append((kw, top.plot_structure(sm, **kw)))
        return body
    snaps, total = [], 0
    for k in range(sim.between(2, 3)):
        jobs = [args[sim.draw(2)] if sim.draw(2) else arguments(sim, sm, P) for _ in range(sim.between(1, 2))]
        snaps += [(kw, repr(kw)) for kw in jobs]
        total += len(jobs)
        s.spawn("c%d" % k, client(jobs))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %s: %r" % (where, c.name, c.error)) from c.error
    sim.check(len(history) == total, "lost-operation", "%s: a plot did not return" % where)
    sim.check(see(sm) == before, "input-changed", lambda: "%s: concurrent plots changed the model: %r became %r" % (where, before, see(sm)))
    for kw, r in snaps:
        sim.check(repr(kw) == r, "input-changed", lambda: "%s: %s became %r" % (where, r, kw))
    for kw, out in history:
        judge(sim, expected(sm, P, kw), out, kw.get("prog", "neato"), "%s concurrent plot_structure(%r)" % (where, kw))
    sim.fault("thread_switch", s.switches)
    sim.nontrivial = True
