"""C14: after any history every edge of a StructureModel has the origin it was last given."""
import copy
import pickle

import networkx as nx

from .. import loader, stubs
from ..core import InjectedError, SimCrash, SimStop, Violation, stepping

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of graph histories with failing and re-entrant edge streams, rejected calls and asynchronous "
        "exceptions, judged after each call against a dictionary model")
NOTE = "networkx is real; torch estimators imported by the package are absent stand-ins."
RUNS = {"quick": 16000, "thorough": 600000}
RULE = ("one run = 1-4 StructureModels under a history of 5-20 operations (construct from every supported input, add singly / "
        "in bulk / weighted with per-edge data, remove, threshold, copy, deepcopy, pickle, reverse, relabel, subgraph), with "
        "edge streams that raise or are malformed part-way, streams that read the graph while it is being extended, "
        "rejected origins and asynchronous exceptions; after every operation all models are compared with the reference; "
        "non-trivial = a fault fired inside an operation on a non-empty graph; distinct = distinct history")
REAL = ["causalnex.structure.structuremodel (from /repo's working tree)", "networkx"]
STUB = ["set iteration order (SimSet)", "edge streams (generated)", "asynchronous exceptions", "torch/sklearn (absent)"]
ASSUMPTIONS = ["interruptions inside networkx's own edge insertion are not injected (its code is not under test)",
               "sampled histories and faults: a clean batch is evidence, not proof"]
ORIGINS = ["unknown", "learned", "expert"]
NODES = ["a", "b", "c", "d", "e", 0, 1, ("t", 1), "f"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, ValueError]


def setup():
    stubs.install()


class Ref:
    def __init__(self):
        self.nodes = {}
        self.edges = {}

    def clone(self):
        r = Ref()
        r.nodes = {n: dict(a) for n, a in self.nodes.items()}
        r.edges = {e: dict(a) for e, a in self.edges.items()}
        return r

    def add(self, u, v, attrs):
        self.nodes.setdefault(u, {})
        self.nodes.setdefault(v, {})
        self.edges.setdefault((u, v), {}).update(attrs)

    def remove_node(self, n):
        del self.nodes[n]
        self.edges = {e: a for e, a in self.edges.items() if n not in e}

    def components(self):
        adj = {n: set() for n in self.nodes}
        for u, v in self.edges:
            adj[u].add(v)
            adj[v].add(u)
        seen, out = [], []
        for n in self.nodes:
            if any(n in c for c in out):
                continue
            comp, todo = set(), [n]
            while todo:
                x = todo.pop()
                if x not in comp:
                    comp.add(x)
                    todo += adj[x]
            out.append(comp)
        return out

    def sub(self, nodes):
        r = Ref()
        r.nodes = {n: dict(a) for n, a in self.nodes.items() if n in nodes}
        r.edges = {e: dict(a) for e, a in self.edges.items() if e[0] in nodes and e[1] in nodes}
        return r

    def cyclic(self):
        left = dict(self.edges)
        nodes = set(self.nodes)
        while True:
            tops = {n for n in nodes if not any(v == n and u in nodes for u, v in left)}
            if not tops:
                return bool(nodes)
            nodes -= tops


def mismatch(sm, ref):
    if set(sm.nodes) != set(ref.nodes):
        return "nodes %r, expected %r" % (sorted(map(repr, sm.nodes)), sorted(map(repr, ref.nodes)))
    if set(sm.edges) != set(ref.edges):
        return "edges %r, expected %r" % (sorted(map(repr, sm.edges)), sorted(map(repr, ref.edges)))
    for (u, v), a in ref.edges.items():
        got = dict(sm.edges[u, v])
        if got != a:
            return "edge %r->%r carries %r, expected %r" % (u, v, got, a)
        if sm[u][v] is not sm.pred[v][u] and dict(sm.pred[v][u]) != a:
            return "predecessor view of %r->%r differs" % (u, v)
    for n, a in ref.nodes.items():
        if dict(sm.nodes[n]) != a:
            return "node %r carries %r, expected %r" % (n, dict(sm.nodes[n]), a)
    parts = []
    for o in ORIGINS:
        got = list(sm.edges_with_origin(o))
        want = [e for e, a in ref.edges.items() if a["origin"] == o]
        if sorted(map(repr, got)) != sorted(map(repr, want)):
            return "edges_with_origin(%r) = %r, expected %r" % (o, got, want)
        parts += got
    if len(parts) != len(ref.edges):
        return "edges_with_origin does not partition the edges"
    return None


def compare(sim, sm, ref, where):
    m = mismatch(sm, ref)
    if m:
        sim.fail("wrong-structure", "%s: %s" % (where, m))


class Stream:
    """Edges given one at a time; may raise part-way or read the graph in between."""

    def __init__(self, sim, items, fail_at, exc, peek):
        self.sim, self.items, self.fail_at, self.exc, self.peek = sim, items, fail_at, exc, peek
        self.given = 0

    def __iter__(self):
        for i, e in enumerate(self.items):
            if self.fail_at is not None and i == self.fail_at:
                raise self.exc
            if self.peek is not None:
                self.peek(i)
            self.given = i + 1
            yield e


def attrs(sim, weighted=False):
    a = {}
    if weighted or sim.draw(3) == 0:
        a["weight"] = sim.pick([0.5, -1.5, 0.0, 2, 0.25, -0.125, 1e-9, 3.0])
    if sim.draw(4) == 0:
        a["label"] = sim.pick(["x", "y", None])
    return a


def run(sim):
    S = loader.fresh("causalnex.structure")
    SM = S.StructureModel
    if sim.run_index == 0:
        invalid_in_data(SM)
    sim.choose_set_order()
    names = sim.shuffled(NODES)[:sim.between(2, 7)]
    fleet = []
    all_weighted = sim.chance(1, 2)
    if sim.run_index % 50 == 0:
        sim.sample = {"nodes": repr(names), "all_weighted": bool(all_weighted)}
    fleet.append(construct(sim, SM, names, all_weighted))
    for step in range(sim.between(5, 20)):
        k = sim.draw(len(fleet))
        sm, ref = fleet[k]
        where = "step %d model %d" % (step, k)
        op = sim.draw(16)
        if op <= 2:
            add_one(sim, sm, ref, names, all_weighted, where)
        elif op <= 6:
            ref = fleet[k][1] = add_many(sim, sm, ref, names, all_weighted, where, op == 6 or op == 5)
        elif op == 7:
            rejected(sim, SM, sm, ref, names, where)
        elif op == 8 and ref.edges:
            es = sim.subset(sorted(ref.edges, key=repr), 1, 3)
            sim.sched("remove", k, es)
            if len(es) == 1 and sim.draw(2):
                sm.remove_edge(*es[0])
            else:
                sm.remove_edges_from(es)
            for e in es:
                del ref.edges[e]
        elif op == 9 and len(ref.nodes) > 2:
            n = sim.pick(sorted(ref.nodes, key=repr))
            sim.sched("remove_node", k, n)
            sm.remove_node(n)
            ref.remove_node(n)
        elif op == 10 and ref.edges and all("weight" in a for a in ref.edges.values()):
            t = sim.pick([0, 0.25, 0.5, 1.5, 1e-9, 2, 10, -1])
            if sim.draw(3):
                sim.sched("below", k, t)
                with stepping(sim):
                    sm.remove_edges_below_threshold(t)
                ref.edges = {e: a for e, a in ref.edges.items() if not abs(a["weight"]) < t}
            else:
                sim.sched("till_dag", k)
                with stepping(sim, budget=100000):
                    sm.threshold_till_dag()
                gone = [e for e in ref.edges if e not in sm.edges]
                for e in gone:
                    del ref.edges[e]
                sim.check(not ref.cyclic(), "still-cyclic", where)
        elif op == 11:
            n = sim.pick(sorted(ref.nodes, key=repr)) if ref.nodes else None
            if n is not None:
                sm.nodes[n]["k"] = step
                ref.nodes[n]["k"] = step
        elif op <= 14 and len(fleet) < 4:
            fleet.append(derive(sim, SM, sm, ref, where))
        elif op == 15 and ref.nodes:
            inplace_relabel(sim, sm, ref, where)
        for j, (m, r) in enumerate(fleet):
            compare(sim, m, r, "%s, then model %d" % (where, j))
        sim.units["operations"] += 1


def construct(sim, SM, names, weighted):
    kind = sim.draw(6)
    origin = sim.pick(ORIGINS + [None])
    ref = Ref()
    pairs = sim.subset([(u, v) for u in names for v in names if u != v or sim.draw(8) == 7], 1, 3)
    given = {e: attrs(sim, weighted) for e in pairs}
    for e in given:
        if sim.draw(3) == 0:
            given[e]["origin"] = sim.pick(ORIGINS)      # what an input graph says is overridden
    if kind == 0:
        src, given = None, {}
    elif kind == 1:
        src = [(u, v, dict(a)) for (u, v), a in given.items()]
        if not src:
            src = None
    elif kind == 2:
        src = nx.DiGraph()
        src.add_nodes_from(names)
        src.add_edges_from((u, v, a) for (u, v), a in given.items())
        ref.nodes = {n: {} for n in names}
    elif kind == 3:
        src = {u: {v: dict(a) for (x, v), a in given.items() if x == u} for u in names}
        ref.nodes = {n: {} for n in names}
    elif kind == 4:
        src = {u: [v for (x, v) in given if x == u] for u in names}
        given = {e: {} for e in given}
        ref.nodes = {n: {} for n in names}
        if weighted:
            src, given = None, {}
            ref.nodes = {}
    else:
        first = SM([(u, v, dict(a)) for (u, v), a in given.items()] or None, origin=sim.pick(ORIGINS))
        src = first
        ref.nodes = {n: {} for n in first.nodes}
    sim.sched("construct", kind, origin, sorted(map(repr, given)))
    sm = SM(src) if origin is None else SM(src, origin=origin)
    for (u, v), a in given.items():
        ref.add(u, v, a)
        ref.edges[(u, v)]["origin"] = origin or "unknown"
    compare(sim, sm, ref, "constructed from input kind %d" % kind)
    return [sm, ref]


def add_one(sim, sm, ref, names, weighted, where):
    u, v = sim.pick(names), sim.pick(names)
    a = attrs(sim, weighted)
    origin = sim.pick(ORIGINS + [None])
    sim.sched("add", u, v, a, origin)
    if origin is None:
        sm.add_edge(u, v, **a)
    else:
        sm.add_edge(u, v, origin=origin, **a) if sim.draw(2) else sm.add_edge(u, v, origin, **a)
    ref.add(u, v, dict(a, origin=origin or "unknown"))


def add_many(sim, sm, ref, names, weighted, where, weighted_api):
    n = sim.size(0, 7, (20, 40), 30)
    origin = sim.pick(ORIGINS + [None])
    extra = {} if weighted_api else attrs(sim, weighted and not weighted_api)
    if sim.draw(3) == 0:
        extra["tag"] = sim.draw(3)
    attr_name = "weight" if weighted or sim.draw(4) else "strength"
    items, effects = [], []
    for _ in range(n):
        u, v = sim.pick(names), sim.pick(names)
        if weighted_api:
            w = sim.pick([0.5, -1.5, 0.0, 2, 0.25, -0.125, 3.0])
            items.append((u, v, w))
            effects.append((u, v, dict(extra, **{"origin": origin or "unknown", attr_name: w})))
        else:
            d = attrs(sim) if sim.draw(2) else None
            if d is not None and sim.draw(3) == 0:
                d["origin"] = sim.pick(ORIGINS)
            items.append((u, v) if d is None else (u, v, d))
            e = dict(extra, origin=origin or "unknown")
            e.update(d or {})
            effects.append((u, v, e))
    fault = sim.draw(6)          # 0-1 none, 2 stream raises, 3 malformed edge, 4 async, 5 stream reads the graph
    fail_at, exc, peek, bad = None, None, None, None
    if fault == 2 and n:
        fail_at, exc = sim.draw(n + 1), sim.pick(EXCS)("stream failed")
        if fail_at == n:
            items.append(None)
    elif fault == 3 and n:
        bad = sim.draw(n)
        items[bad] = sim.pick([(1,), (1, 2, 3, 4), 7, (None, "a")] if not weighted_api else [(1,), (1, 2), (1, 2, 3, 4)])
    elif fault == 5:
        def peek(i):
            m = [(u, v, d.get("origin")) for u, v, d in sm.edges(data=True) if d.get("origin") not in ORIGINS]
            if m:
                sim.fail("edge-without-origin", "%s: while edge %d is being added: %r" % (where, i, m))
            total = sum(len(sm.edges_with_origin(o)) for o in ORIGINS)
            sim.check(total == len(sm.edges), "not-partitioned", where)
    as_list = fail_at is None and peek is None and sim.draw(3) == 0
    stream = Stream(sim, items, fail_at, exc, peek)
    src = list(items) if as_list else (stream if sim.draw(2) else iter(stream))
    kw = dict(extra)
    if origin is not None:
        kw["origin"] = origin
    at = None
    if fault == 4:
        at, exc = 1 + sim.draw(8), sim.pick(EXCS)("injected")
    sim.sched("bulk", weighted_api, items, kw, "fault", fault, fail_at, bad, at)
    before = [tuple(copy.copy(x) if isinstance(x, dict) else x for x in i) if isinstance(i, tuple) else i for i in items]
    err = None
    try:
        with stepping(sim, inject_at=at, exc=exc if at else None) as s:
            if weighted_api:
                if attr_name != "weight":
                    kw["weight"] = attr_name
                sm.add_weighted_edges_from(src, **kw)
            else:
                sm.add_edges_from(src, **kw)
    except (SimStop, Violation):
        raise
    except BaseException as e:
        err = e
    fired = fail_at is not None or bad is not None or (at is not None and s.injected)
    if not fired:
        if err is not None:
            raise err
        for u, v, e in effects:
            ref.add(u, v, e)
    else:
        sim.fault({2: "edge_stream_raised", 3: "malformed_edge", 4: "async_exception"}[fault])
        if ref.edges:
            sim.nontrivial = True
        if fault != 3 and err is not exc:
            if err is None:
                sim.fail("failure-swallowed", "%s: %r vanished" % (where, exc))
            raise err
        if fault == 3:
            if err is None:
                sim.fail("malformed-edge-accepted", "%s: %r" % (where, items[bad]))
            if not isinstance(err, Exception):
                raise err
        # the graph holds some prefix of the edges given so far (everything, when nothing is streamed)
        limit = {2: fail_at, 3: bad, 4: len(effects)}[fault]
        cand = ref.clone()
        okay = []
        errors = []
        for i in range(0, limit + 1):
            if i:
                u, v, e = effects[i - 1]
                cand.add(u, v, e)
            m = mismatch(sm, cand)
            if m is None:
                okay.append(cand.clone())
            else:
                errors.append(m)
            if fault == 3 and i == limit:            # networkx may already have created a node of the malformed edge
                t = cand.clone()
                if isinstance(items[bad], tuple):
                    for x in items[bad][:2]:
                        if x is not None:
                            t.nodes.setdefault(x, {})
                            if mismatch(sm, t) is None:
                                okay.append(t.clone())
        if not okay:
            sim.fail("wrong-structure", "%s: after a bulk addition cut short by %r: %s" % (where, err, errors[-1]))
        ref = okay[-1]
    after = [tuple(copy.copy(x) if isinstance(x, dict) else x for x in i) if isinstance(i, tuple) else i for i in items]
    sim.check(before == after, "input-mutated", lambda: "%s: %r became %r" % (where, before, after))
    sim.units["bulk_edges"] += len(effects)
    return ref


def rejected(sim, SM, sm, ref, names, where):
    bad = sim.pick(["nope", "Learned", "", None, 1, "experts", "unknow"])
    kind = sim.draw(4)
    u, v = sim.pick(names), sim.pick(names)
    sim.sched("rejected", kind, bad)
    sim.fault("invalid_origin")
    consumed = []

    def stream():
        consumed.append(1)
        yield (u, v) if kind == 1 else (u, v, 1.0)
    try:
        if kind == 0:
            sm.add_edge(u, v, origin=bad)
        elif kind == 1:
            sm.add_edges_from(stream(), origin=bad)
        elif kind == 2:
            sm.add_weighted_edges_from(stream(), origin=bad)
        else:
            SM([(u, v)], origin=bad)
    except ValueError:
        if ref.edges:
            sim.nontrivial = True
        return
    sim.fail("invalid-origin-accepted", "%s: origin %r accepted (kind %d)" % (where, bad, kind))


def derive(sim, SM, sm, ref, where):
    kind = sim.draw(12)
    r = ref.clone()
    nodes = sorted(ref.nodes, key=repr)
    if kind == 0:
        out = sm.copy()
    elif kind == 1:
        out = copy.deepcopy(sm)
    elif kind == 2:
        out = copy.copy(sm).copy()
    elif kind == 3:
        out = pickle.loads(pickle.dumps(sm))
    elif kind == 4:
        out = sm.reverse()
        r.edges = {(v, u): a for (u, v), a in r.edges.items()}
    elif kind == 5:
        keep = sim.subset(nodes, 2, 3)
        out = sm.subgraph(keep).copy()
        r = r.sub(keep)
    elif kind == 6:
        keep = sim.subset(sorted(ref.edges, key=repr), 2, 3)
        out = sm.edge_subgraph(keep).copy()
        ends = {x for e in keep for x in e}
        r = r.sub(ends)
        r.edges = {e: a for e, a in r.edges.items() if e in keep}
    elif kind == 7:
        out = sm.to_directed()
    elif kind == 8:
        m = {n: (n, "new") for n in sim.subset(nodes)}
        out = nx.relabel_nodes(sm, m, copy=True)
        r = relabelled(r, m)
    elif kind == 9:
        out = sm.get_largest_subgraph()
        comps = ref.components()
        best = max([len(ref.sub(c).edges) for c in comps], default=0)
        sim.sched("largest", best)
        if best == 0:
            sim.check(out is None, "wrong-subgraph", "%s: largest subgraph of an edgeless model is %r" % (where, out))
            out = sm.copy()
        else:
            fits = [ref.sub(c) for c in comps if len(ref.sub(c).edges) == best]
            errs = [mismatch(out, f) for f in fits] if out is not None else ["None"]
            if all(errs):
                sim.fail("wrong-subgraph", "%s: largest subgraph: %s" % (where, errs[0]))
            r = fits[errs.index(None)]
    elif kind == 10 and nodes:
        n = sim.pick(nodes)
        if sim.draw(4) == 3:
            try:
                sm.get_target_subgraph("absent")
            except nx.NodeNotFound:
                pass
            else:
                sim.fail("wrong-subgraph", "%s: target subgraph of an absent node" % where)
        out = sm.get_target_subgraph(n)
        r = ref.sub(next(c for c in ref.components() if n in c))
    elif kind == 11:
        und = sm.to_undirected()
        sim.check(type(und) is nx.Graph or not isinstance(und, nx.DiGraph), "wrong-class", "%s: to_undirected gave %r" % (
            where, type(und)))
        out = SM(sm, origin="expert")
        for a in r.edges.values():
            a["origin"] = "expert"
        for a in r.nodes.values():
            pass
        r.nodes = {n: dict(out.nodes[n]) if n in out.nodes else {} for n in r.nodes}
    else:
        out = sm.copy()
    sim.sched("derive", kind)
    sim.check(isinstance(out, SM), "wrong-class", lambda: "%s: derived copy (kind %d) is a %r" % (where, kind, type(out)))
    compare(sim, out, r, "%s: derived copy (kind %d)" % (where, kind))
    sim.units["copies"] += 1
    return [out, r]


def relabelled(ref, m):
    r = Ref()
    r.nodes = {m.get(n, n): a for n, a in ref.nodes.items()}
    r.edges = {(m.get(u, u), m.get(v, v)): a for (u, v), a in ref.edges.items()}
    return r


def inplace_relabel(sim, sm, ref, where):
    n = sim.pick(sorted(ref.nodes, key=repr))
    new = ("re", sim.draw(1000))
    if new in ref.nodes:
        return
    sim.sched("relabel", n, new)
    nx.relabel_nodes(sm, {n: new}, copy=False)
    r = relabelled(ref, {n: new})
    ref.nodes, ref.edges = r.nodes, r.edges


def invalid_in_data(SM):
    """The one input the known finding is about, checked once per batch."""
    sm = SM()
    try:
        sm.add_edges_from([("a", "b", {"origin": "nope"})])
    except ValueError:
        return
    raise Violation("invalid-origin-in-edge-data", "add_edges_from([('a', 'b', {'origin': 'nope'})]) was accepted and the "
                    "edge now carries %r" % (sm["a"]["b"],))
