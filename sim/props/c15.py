"""C15: thresholding removes exactly the weakest edges and can be resumed after an interruption."""
import numpy as np

from .. import loader, stubs
from ..core import InjectedError, SimCrash, SimStop, Violation, stepping
from .c14 import ORIGINS, Ref, mismatch

LEVEL = "fault_enumeration"
TECH = ("seeded simulation with asynchronous exceptions at any executed line of the thresholding calls, judged against the "
        "definition on the original edge set")
NOTE = "networkx is real; torch estimators imported by the package are absent stand-ins."
RUNS = {"quick": 12000, "thorough": 500000}
RULE = ("one run = one weighted graph (ties, negative, zero, integer and numpy weights, self-loops, several cycles) and 1-4 "
        "thresholding calls, each possibly interrupted 1-3 times at a chosen line and then repeated, with edges added in "
        "between; every intermediate state must be a weakest-first prefix and every completed call exact; non-trivial = "
        "an interruption after at least one removal or a call that removed edges; distinct = distinct history")
REAL = ["causalnex.structure.structuremodel (from /repo's working tree)", "networkx"]
STUB = ["set iteration order (SimSet)", "asynchronous exceptions (raised at a chosen line of causalnex)",
        "torch/sklearn (absent)"]
ASSUMPTIONS = ["all edges carry a finite weight (as the docstrings require)",
               "sampled histories and faults: a clean batch is evidence, not proof"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]


def setup():
    stubs.install()


def weight(sim, style):
    if style == 0:
        return sim.pick([1, 2, 3, -1, -2, 0])
    if style == 1:
        return sim.pick([0.5, -0.5, 0.25, 0.75, -0.25, 1.5, 0.0, -0.0, 1e-9])
    if style == 2:
        return np.float64((sim.draw(2001) - 1000) / 500.0)
    return (1 + sim.draw(50)) * (-1) ** sim.draw(2) / 7.0


def run(sim):
    S = loader.fresh("causalnex.structure")
    sim.choose_set_order()
    n = sim.size(1, 7, (12, 16))
    names = ["n%d" % i for i in range(n)] if sim.draw(2) else list(range(n))
    style = sim.draw(4)
    sm, ref = S.StructureModel(), Ref()
    for x in names:
        sm.add_node(x)
        ref.nodes[x] = {}
    dense = sim.pick([(1, 4), (1, 2), (3, 4)])
    grow(sim, sm, ref, names, style, dense)
    if sim.run_index % 50 == 0:
        sim.sample = {"edges": repr({e: a["weight"] for e, a in ref.edges.items()})[:600]}
    for step in range(sim.between(1, 4)):
        where = "step %d" % step
        orig = ref.clone()
        if sim.draw(3) == 0:
            ws = sorted({abs(float(a["weight"])) for a in ref.edges.values()}) or [0.0]
            w = sim.pick(ws)
            t = sim.pick([w, w * (1 + 1e-12), w * (1 - 1e-12), 0, -1.0, max(ws) * 2, np.float64(w), float("inf"), 1])
            want = {e for e, a in ref.edges.items() if abs(a["weight"]) < t}
            name = "remove_edges_below_threshold(%r)" % (t,)

            def call():
                sm.remove_edges_below_threshold(t)

            def final(removed):
                return None if removed == want else "removed %r, expected %r" % (fmt(orig, removed), fmt(orig, want))

            def partial(removed):
                return None if removed <= want else "removed %r" % fmt(orig, removed - want)
        else:
            name = "threshold_till_dag()"

            def call():
                sm.threshold_till_dag()

            def final(removed):
                return judge_dag(orig, removed)

            def partial(removed):
                return judge_prefix(orig, removed)
        sim.sched(name, sorted((repr(e), repr(a["weight"])) for e, a in ref.edges.items()))
        tries = sim.draw(4)
        for i in range(tries):
            at = 1 + sim.draw(3 + 3 * len(orig.edges))
            exc = sim.pick(EXCS)("injected")
            done = False
            try:
                with stepping(sim, budget=1_000_000, inject_at=at, exc=exc) as s:
                    call()
                done = True
            except BaseException as e:
                if e is not exc:
                    raise
                sim.fault("async_exception:" + type(exc).__name__)
                sim.sched("interrupted at", s.where)
            removed = changed(sim, sm, orig, "%s: %s interrupted" % (where, name))
            bad = partial(removed)
            if bad:
                sim.fail("wrong-edges-removed", "%s: %s interrupted at line %d: %s" % (where, name, at, bad))
            if not done and removed:
                sim.nontrivial = True
                sim.probe("interrupted_after_a_removal")
            if done:
                break
        with stepping(sim, budget=1_000_000):
            call()
        removed = changed(sim, sm, orig, "%s: %s" % (where, name))
        bad = final(removed)
        if bad:
            sim.fail("wrong-edges-removed", "%s: %s on %r: %s" % (where, name, fmt(orig, orig.edges), bad))
        if removed:
            sim.nontrivial = True
        before = snapshot(sm)
        with stepping(sim, budget=1_000_000):
            call()                              # a second call changes nothing
        sim.check(snapshot(sm) == before, "not-idempotent", "%s: repeating %s changed the graph" % (where, name))
        for e in removed:
            del ref.edges[e]
        sim.units["thresholding_calls"] += 1
        if sim.draw(2):
            grow(sim, sm, ref, names, style, (1, 6))


def grow(sim, sm, ref, names, style, p):
    for u in sim.shuffled(names):
        for v in sim.shuffled(names):
            if (u != v or sim.draw(10) == 9) and sim.chance(*p):
                a = {"weight": weight(sim, style), "origin": sim.pick(ORIGINS)}
                if sim.draw(5) == 4:
                    a["label"] = "x"
                sm.add_edge(u, v, **a)
                ref.add(u, v, a)


def snapshot(sm):
    return {e: dict(sm.edges[e]) for e in sm.edges}, set(sm.nodes)


def changed(sim, sm, orig, where):
    """Edges removed so far; everything else must be untouched."""
    removed = {e for e in orig.edges if e not in sm.edges}
    r = orig.clone()
    for e in removed:
        del r.edges[e]
    m = mismatch(sm, r)
    if m:
        sim.fail("wrong-structure", "%s: %s" % (where, m))
    return removed


def fmt(orig, edges):
    return sorted("%s->%s:%r" % (u, v, orig.edges[(u, v)]["weight"]) for u, v in edges)


def w(orig, e):
    return abs(orig.edges[e]["weight"])


def judge_prefix(orig, removed):
    if not removed:
        return None
    r = orig.clone()
    for e in removed:
        del r.edges[e]
    strongest = max(w(orig, e) for e in removed)
    if any(w(orig, e) < strongest for e in r.edges):
        return "removed %r although %r is weaker" % (
            fmt(orig, removed), fmt(orig, [e for e in r.edges if w(orig, e) < strongest]))
    # the last removal happened while the graph was still cyclic
    for e in removed:
        if w(orig, e) == strongest:
            r.edges[e] = orig.edges[e]
            c = r.cyclic()
            del r.edges[e]
            if c:
                return None
    return "removed %r although the graph was already acyclic" % fmt(orig, removed)


def judge_dag(orig, removed):
    r = orig.clone()
    for e in removed:
        del r.edges[e]
    if r.cyclic():
        return "removed %r and the graph is still cyclic" % fmt(orig, removed)
    return judge_prefix(orig, removed)
