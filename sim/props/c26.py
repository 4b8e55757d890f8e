"""C26: BayesianNetwork predictions answer row by row from the last fit, whatever happened before or happens around them."""
from .. import bnmodel as M
from .. import sched
from ..core import HarnessError, InjectedError, SimCrash, SimStop, Violation, stepping
from ..stubs import minipgmpy as PG
from . import infer as I
from .c06 import caused_by
from .c23 import snap
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of prediction histories: refits, refused and interrupted calls and concurrent readers switched at "
        "executed lines; every row of every answer compared with the exact conditional or posterior of the last fit")
NOTE = "causalnex.network is real; pandas and pgmpy are stand-ins (pgmpy's own inference is an exact enumeration)."
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("one run = one fitted network and 2-6 steps: predict / predict_probability on a drawn frame (row labels, column order, "
        "extra and missing columns, parents present or missing), the same from 2-3 threads, a refit with other conditionals, "
        "a call that is refused (unknown node, unseen state, nothing fitted) or interrupted at a chosen line; non-trivial = "
        "the node asked has a parent; distinct = distinct history")
REAL = ["causalnex.network, causalnex.structure.structuremodel (from /repo's working tree)", "networkx"]
STUB = ["set iteration order (SimSet)", "pandas (small stand-in)", "pgmpy (stand-in: hands out the generated tables, infers by "
        "enumeration)", "thread scheduler", "asynchronous exceptions (raised at a chosen line of causalnex)"]
ASSUMPTIONS = I.ASSUME + ["switch points and asynchronous exceptions are at line boundaries of causalnex code"]
setup = I.setup
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
NAMES = ["a", "b", "c", "A", "ab", "a_b", "a_hi", "a_0", "b_True", "b_x", "c_2", "x1", "1", "_p", "a b", "c.d"]


def run(sim):
    S, N, _ = I.load()
    import pandas as pd
    sim.choose_set_order()
    net = M.gen_net(sim, 2, 4, max_joint=100, connected=True, domains=I.DOMAINS, names=NAMES)
    sim.kept = []
    if sim.draw(8) == 7:
        unfitted(sim, S, N, net, pd)
    bn = I.build_bn(sim, S, N, net, pd)
    sim.note("net", net.describe())
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    state = report(bn)
    for step in range(sim.between(2, 6)):
        kind = sim.draw(10)
        where = "step %d" % step
        if kind == 0:
            net, state = refit(sim, bn, net, pd)
        elif kind == 1:
            refused(sim, bn, net, pd, where)
        elif kind == 2:
            interrupted(sim, bn, net, pd, where)
        elif kind in (3, 4):
            together(sim, bn, net, pd, where)
        else:
            ask(sim, bn, net, pd, where)
        sim.check(report(bn) == state, "network-changed", "%s: the network's report changed" % where)
        sim.sched("step", kind)


def report(bn):
    return (sorted(bn.nodes), sorted(bn.edges), sorted((k, sorted(map(repr, v))) for k, v in bn.node_states.items()),
            sorted((k, snap(v)) for k, v in bn.cpds.items()))


def unfitted(sim, S, N, net, pd):
    sm = S.StructureModel()
    sm.add_edges_from([(p, v) for v in net.vars for p in net.par[v]])
    bn = N.BayesianNetwork(sm)
    node, name, df, _ = question(sim, net, pd)
    if sim.draw(2):
        bn.fit_node_states(pd.DataFrame({v: list(net.dom[v]) + [net.dom[v][0]] * (12 - len(net.dom[v])) for v in net.vars}))
    try:
        out = getattr(bn, name)(df, node)
    except Exception:
        sim.probe("not_fitted")
        return
    sim.fail("answer-without-fit", "%s before fit_cpds returned %r" % (name, out))


def refit(sim, bn, net, pd):
    """Other conditionals on the same structure and states."""
    cpt = {v: {key: M.random_row(sim, net.dom[v], True) for key in net.cpt[v]} for v in net.vars}
    net = M.Net(list(net.vars), net.dom, net.par, cpt)
    PG.PLAN.tables = I.tables(net, sim.substream())
    n = max(len(d) for d in net.dom.values())
    bn.fit_cpds(pd.DataFrame({v: [net.dom[v][i % len(net.dom[v])] for i in range(n)] for v in sim.shuffled(net.vars)}))
    PG.PLAN.tables = None
    sim.probe("refits")
    sim.note("refit", net.describe())
    return net, report(bn)


def question(sim, net, pd, change=True):
    """(node, method, frame, rows): a new question, or an earlier frame again, possibly with other values in it."""
    if sim.kept and sim.draw(3) == 2:
        node, name, df, rows = sim.pick(sim.kept)
        known = [v for v in df.columns.tolist() if v in net.dom and v != node]
        complete = all(p in known for p in net.par[node])
        if complete or all(any(p and all(a[v] == r[v] for v in known) for a, p in net.joint()) for r in rows):
            if change and complete and known and sim.draw(2) == 0:
                v = sim.pick(known)
                for r in rows:
                    r[v] = sim.pick(net.dom[v])
                df[v] = [M.equal_copy(r[v]) for r in rows]
            sim.probe("frame_again")
            return node, name, df, rows
    sim.kept.append(invent(sim, net, pd))
    return sim.kept[-1]


def invent(sim, net, pd):
    node = sim.pick(net.vars)
    with_parents = [v for v in net.vars if net.par[v]]
    if not net.par[node] and with_parents and sim.draw(3):
        node = sim.pick(with_parents)
    name = ["predict", "predict_probability"][sim.draw(2)]
    pars = net.par[node]
    others = [v for v in net.vars if v != node and v not in pars]
    cols = [v for v in others if sim.draw(2)]
    incomplete = bool(pars) and sim.draw(4) == 3
    if incomplete:
        gone = sim.pick(pars)
        cols += [p for p in pars if p != gone and sim.draw(3)]
    else:
        cols += list(pars)
    if sim.draw(2):
        cols.append(node)
    joint = net.joint()
    n = sim.between(1, 6) if incomplete else sim.size(1, 6, (60, 130, 600))
    rows = [dict(sim.pick(joint)[0]) for _ in range(n)]
    if not incomplete:
        for r in rows:                       # the parents' combination may be impossible, its conditional is still defined
            if sim.draw(4) == 3:
                p = sim.pick(net.vars)
                r[p] = sim.pick(net.dom[p])
    if sim.draw(3) == 2:
        rows.append(dict(rows[0]))
        n += 1
    if not incomplete and (not cols or sim.draw(4) == 3):
        cols.append("zz")
        for r in rows:
            r["zz"] = sim.draw(5)
        if sim.draw(2) and (node + "_prediction") not in net.vars:
            cols.append(node + "_prediction")
            for r in rows:
                r[node + "_prediction"] = "old"
    if not cols:
        cols.append(sim.pick([v for v in net.vars if v not in pars] or [node]))
    cols = sim.shuffled(cols)
    idx = [list(range(n)), list(range(7, 7 + n)), sim.shuffled(range(n)), ["r%d" % k for k in range(n)], [3] * n][sim.draw(5)]
    vals = {c: [M.equal_copy(r[c]) for r in rows] for c in cols}
    return node, name, pd.DataFrame(vals, index=idx), [{c: r[c] for c in cols} for r in rows]


def completions(net, node, given):
    """(posterior of node, its values in a most probable completion) when a parent is missing."""
    ev = {k: v for k, v in given.items() if k in net.vars and k != node}
    post = net.posterior(ev)
    fits = [(a, p) for a, p in net.joint() if all(a[k] == v for k, v in ev.items())]
    best = max(float(p) for _, p in fits) * (1 - 1e-9)
    return {s: post[(node, s)] for s in net.dom[node]}, {repr(a[node]) for a, p in fits if float(p) >= best}


def judge(sim, net, node, name, rows, idx, out, where):
    pars = net.par[node]
    complete = all(p in rows[0] for p in pars)
    dom = net.dom[node]
    where = "%s %s(%r) of %r" % (where, name, node, rows)
    want_cols = [node + "_prediction"] if name == "predict" else ["%s_%s" % (node, s) for s in dom]
    sim.check(sorted(out.columns.tolist()) == sorted(want_cols), "wrong-columns",
              lambda: "%s: columns %r, expected %r" % (where, out.columns.tolist(), want_cols))
    sim.check(out.index.tolist() == idx, "wrong-rows", lambda: "%s: rows %r, asked %r" % (where, out.index.tolist(), idx))
    vals = {c: out[c].tolist() for c in want_cols}
    for i, row in enumerate(rows):
        if complete:
            dist = net.cpt[node][tuple(row[p] for p in pars)]
        else:
            dist, maps = completions(net, node, row)
        if name == "predict":
            got = vals[want_cols[0]][i]
            sim.check(got in dom and type(got) in {type(s) for s in dom}, "wrong-prediction",
                      lambda: "%s: row %d predicts %r, not a state" % (where, i, got))
            if complete:
                gap = max(float(dist[s]) for s in dom) - float(dist[got])
                sim.check(gap <= 1e-12, "wrong-prediction",
                          lambda: "%s: row %d predicts %r, probabilities %r" % (where, i, got, dist))
            elif len(maps) == 1:
                sim.check(repr(got) in maps, "wrong-prediction",
                          lambda: "%s: row %d predicts %r, the most probable completion has %r" % (where, i, got, maps))
        else:
            for s in dom:
                got = vals["%s_%s" % (node, s)][i]
                sim.check(abs(float(got) - float(dist[s])) <= 1e-9, "wrong-prediction",
                          lambda: "%s: row %d P(%r) = %r, expected %r" % (where, i, s, got, float(dist[s])))
    sim.probe("complete_rows" if complete else "incomplete_rows", len(rows))
    sim.units[name] += 1
    if pars:
        sim.nontrivial = True


def ask(sim, bn, net, pd, where):
    node, name, df, rows = question(sim, net, pd)
    before = snap(df)
    sim.note(name, node, rows)
    with stepping(sim, budget=QUERY_BUDGET):
        out = getattr(bn, name)(df, node)
    sim.check(snap(df) == before, "data-changed", lambda: "%s: %r became %r" % (where, before, snap(df)))
    sim.sched(name, node, len(rows), sorted(rows[0]))
    judge(sim, net, node, name, rows, df.index.tolist(), out, where)


def refused(sim, bn, net, pd, where):
    node, name, df, rows = question(sim, net, pd)
    before = snap(df)
    kind = sim.draw(2)
    if kind == 0 or not (net.par[node] and all(p in rows[0] for p in net.par[node])):
        node, label = "no-such-node", "unknown node"
    else:
        p = sim.pick(net.par[node])
        col = list(df[p].tolist())
        col[sim.draw(len(col))] = "never-seen" if not isinstance(col[0], bool) else 17
        df = df.copy()
        df[p] = col
        before = snap(df)
        label = "unseen state"
    sim.fault("invalid_input")
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            out = getattr(bn, name)(df, node)
    except (SimStop, Violation):
        raise
    except Exception as e:
        sim.check(not isinstance(e, (RecursionError, AttributeError, NameError)), "unexpected-exception:%s" % type(e).__name__,
                  "%s: %r" % (where, e))
        sim.check(snap(df) == before, "data-changed", "%s: a refused %s changed its data" % (where, name))
        return
    sim.fail("invalid-input-accepted", "%s: %s with an %s returned %r" % (where, name, label, out))


def interrupted(sim, bn, net, pd, where):
    node, name, df, rows = question(sim, net, pd)
    before = snap(df)
    with stepping(sim, budget=QUERY_BUDGET) as st:
        getattr(bn, name)(df, node)
    at, exc = 1 + sim.draw(max(1, st.steps)), sim.pick(EXCS)("injected")
    err = None
    try:
        with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc) as st:
            getattr(bn, name)(df, node)
    except (SimStop, Violation):
        raise
    except BaseException as e:
        err = e
    if st.injected:
        sim.sched("interrupted at", st.where)
        sim.fault("async_exception:" + type(exc).__name__)
        sim.check(err is not None, "failure-swallowed", "%s: %r at %s vanished" % (where, exc, st.where))
        if err is not exc and not caused_by(err, exc):
            raise err
    elif err is not None:
        raise err
    sim.check(snap(df) == before, "data-changed", "%s: an interrupted %s changed its data" % (where, name))


def together(sim, bn, net, pd, where):
    s = sched.Scheduler(sim, [(1, 2, 3, 5, 9), (5, 20, 60), (3, 30, 100)][sim.draw(3)])
    history = []

    def client(jobs):
        def body():
            for node, name, df, rows in jobs:
                history.append((node, name, df, rows, getattr(bn, name)(df, node)))
        return body
    shared = question(sim, net, pd, False)
    snaps = []
    for k in range(sim.between(2, 3)):
        jobs = [shared if sim.draw(3) == 2 else question(sim, net, pd, False) for _ in range(sim.between(1, 2))]
        snaps += [(j[2], snap(j[2])) for j in jobs]
        s.spawn("c%d" % k, client(jobs))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %s: %r" % (where, c.name, c.error)) from c.error
    sim.check(len(history) == len(snaps), "lost-operation", "%s: a prediction did not return" % where)
    for df, before in snaps:
        sim.check(snap(df) == before, "data-changed", "%s: data changed by concurrent predictions" % where)
    for node, name, df, rows, out in history:
        judge(sim, net, node, name, rows, df.index.tolist(), out, where + " (concurrent)")
    sim.fault("thread_switch", s.switches)
