"""C33: evaluation metrics follow their definitions on the network's own predictions, state by state."""
from fractions import Fraction

from .. import bnmodel as M
from .. import loader, sched
from ..core import HarnessError, InjectedError, SimCrash, SimStop, Violation, stepping
from . import infer as I
from .c06 import caused_by
from .c23 import snap
from .c26 import refit, report
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of evaluation histories (refits, refused and interrupted calls, concurrent evaluations switched at "
        "executed lines, drawn set orders); scores recomputed in rationals from the predicted probability of each labelled state")
NOTE = ("causalnex.evaluation and causalnex.network are real; scikit-learn's metrics, pandas and pgmpy are stand-ins that "
        "follow their documentation.")
RUNS = {"quick": 5000, "thorough": 150000}
RULE = ("one run = one fitted network (numeric, two-digit, boolean and string states) and 2-6 steps: roc_auc or "
        "classification_report of a drawn frame (any row labels and column order, states missing from the test rows, parents "
        "missing), the same from 2-3 threads, a refit, a refused or an interrupted call; non-trivial = a refit, a fault or "
        "overlapping evaluations; distinct = distinct history")
REAL = ["causalnex.evaluation, causalnex.network (from /repo's working tree)", "networkx"]
STUB = ["set iteration order (SimSet)", "pandas, pgmpy and sklearn.metrics (small stand-ins)", "thread scheduler",
        "asynchronous exceptions (raised at a chosen line of causalnex)"]
ASSUMPTIONS = ["roc_curve, auc and classification_report themselves are scikit-learn's (stand-in, 0.22 semantics)",
               "the node's own predictions are judged by C26; here they are taken by label from predict and "
               "predict_probability", "sampled histories and faults: a clean batch is evidence, not proof"]
setup = I.setup
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
DOMAINS = [[False, True], ["lo", "hi"], ["hi", "lo", "mid"], [0, 1, 2], [3, 5], ["x", "y", "z", "w"], [10, 2, 7], [1, 0],
           ["a", "b_a", "ab"], list(range(11)), ["apple", "banana", "cherry"], [-1, 1, 0], ["1", "10", "2"]]
NAMES = ["a", "b", "c", "A", "ab", "a_b", "x", "1", "_p", "a b", "h", "lo", "_"]


def run(sim):
    S, N, EV = loader.fresh("causalnex.structure", "causalnex.network", "causalnex.evaluation")
    import pandas as pd
    sim.choose_set_order()
    net = M.gen_net(sim, 2, 4, max_joint=120, connected=True, domains=DOMAINS, names=NAMES)
    bn = I.build_bn(sim, S, N, net, pd)
    sim.note("net", net.describe())
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    state = report(bn)
    sim.kept = []
    for step in range(sim.between(2, 6)):
        where = "step %d" % step
        kind = sim.draw(9)
        sim.sched("step", kind)
        if kind == 0:
            net, state = refit(sim, bn, net, pd)
            sim.nontrivial = True
        elif kind == 1:
            refused(sim, EV, bn, net, pd, where)
        elif kind == 2:
            interrupted(sim, EV, bn, net, pd, where)
        elif kind in (3, 4):
            together(sim, EV, bn, net, pd, where)
        else:
            node, name, df, rows = question(sim, net, pd)
            before = snap(df)
            sim.note(name, node, rows)
            with stepping(sim, budget=QUERY_BUDGET):
                out = getattr(EV, name)(bn, df, node)
            sim.check(snap(df) == before, "data-changed", lambda: "%s: %r became %r" % (where, before, snap(df)))
            judge(sim, bn, net, node, name, df, rows, out, where)
        sim.check(report(bn) == state, "network-changed", "%s: the network's report changed" % where)


def question(sim, net, pd, change=True):
    """(node, metric, frame, rows): a new question, or the frame of an earlier one, possibly of another network."""
    if sim.kept and sim.draw(3) == 2:
        node, name, df, rows = sim.pick(sim.kept)
        known = [v for v in df.columns.tolist() if v != node]
        if not set(net.par[node]) <= set(known) and not all(
                any(p and all(a[v] == r[v] for v in known) for a, p in net.joint()) for r in rows):
            return ask(sim, net, pd)                    # the network as refitted excludes this evidence
        if all(r[v] in net.dom[v] for r in rows for v in r) and (name != "roc_auc" or len(net.dom[node]) > 1):
            if change and sim.draw(2) == 0 and set(net.par[node]) <= set(df.columns):
                for r in rows:                          # the same frame, with other labels
                    r[node] = sim.pick(net.dom[node])
                df[node] = [M.equal_copy(r[node]) for r in rows]
            sim.probe("frame_again")
            return node, name, df, rows
    sim.kept.append(ask(sim, net, pd))
    return sim.kept[-1]


def ask(sim, net, pd):
    """(node, metric, frame, rows): test rows that the network can explain."""
    node = sim.pick(net.vars)
    name = ["roc_auc", "classification_report"][sim.draw(2)]
    if name == "roc_auc" and len(net.dom[node]) < 2:
        name = "classification_report"
    pars = net.par[node]
    others = [v for v in net.vars if v != node and v not in pars]
    cols = [node] + [v for v in others if sim.draw(2)]
    if pars and sim.draw(5) == 4:
        gone = sim.pick(pars)
        cols += [p for p in pars if p != gone]
        if len(cols) == 1 and others:
            cols.append(others[0])
    else:
        cols += list(pars)
    joint = net.joint()
    n = sim.size(1, 9, (60, 130)) if all(p in cols for p in pars) else sim.between(1, 9)
    few = sim.shuffled(joint)[:sim.between(1, 3)] if sim.draw(3) == 2 else joint
    rows = [dict(sim.pick(few)[0]) for _ in range(n)]
    if all(p in cols for p in pars) and sim.draw(2):
        for r in rows:                              # labels need not agree with the network
            r[node] = sim.pick(net.dom[node])
    elif not all(p in cols for p in pars):
        for r in rows:
            r[node] = sim.pick(net.dom[node])
    idx = [list(range(n)), list(range(7, 7 + n)), sim.shuffled(range(n)), ["r%d" % k for k in range(n)], [3] * n][sim.draw(5)]
    order = sim.shuffled(cols)
    df = pd.DataFrame({c: [M.equal_copy(r[c]) for r in rows] for c in order}, index=idx)
    return node, name, df, rows


def judge(sim, bn, net, node, name, df, rows, out, where):
    dom = sorted(net.dom[node])
    truth = [r[node] for r in rows]
    where = "%s %s(%r) of %r" % (where, name, node, rows)
    sim.sched(name, node, len(rows), sorted(df.columns.tolist()))
    sim.units[name] += 1
    if name == "roc_auc":
        prob = bn.predict_probability(df, node)
        scores = [(Fraction(float(prob["%s_%s" % (node, s)].tolist()[i])), t == s) for i, t in enumerate(truth) for s in dom]
        judge_roc(sim, scores, out, where)
        return
    pred = bn.predict(df, node)[node + "_prediction"].tolist()
    sim.check(isinstance(out, dict), "wrong-report", lambda: "%s returned %r" % (where, out))
    names = ["%s_%s" % (node, s) for s in dom]
    extra = set(out) - set(names) - {"accuracy", "micro avg", "macro avg", "weighted avg"}
    sim.check(not extra and set(names) <= set(out), "wrong-report",
              lambda: "%s: entries %r, expected one per state %r" % (where, sorted(out), names))
    rows_ = []
    for s, label in zip(dom, names):
        hit = sum(t == s and p == s for t, p in zip(truth, pred))
        np_, nt = sum(p == s for p in pred), sum(t == s for t in truth)
        pr, rc = Fraction(hit, np_) if np_ else Fraction(0), Fraction(hit, nt) if nt else Fraction(0)
        f1 = 2 * pr * rc / (pr + rc) if pr + rc else Fraction(0)
        want = {"precision": pr, "recall": rc, "f1-score": f1, "support": nt}
        rows_.append(want)
        same(sim, out[label], want, "%s: %s" % (where, label))
    n = len(truth)
    for avg, ws in (("macro avg", [1] * len(dom)), ("weighted avg", [r["support"] for r in rows_])):
        tot = sum(ws)
        want = {k: sum(r[k] * w for r, w in zip(rows_, ws)) / Fraction(tot) for k in ("precision", "recall", "f1-score")}
        same(sim, out[avg], dict(want, support=n), "%s: %s" % (where, avg))


def same(sim, got, want, where):
    for k, w in want.items():
        sim.check(k in got and abs(float(got[k]) - float(w)) <= 1e-9, "wrong-report",
                  lambda: "%s: %s is %r, by definition %r" % (where, k, got.get(k), float(w)))


def judge_roc(sim, scores, out, where):
    pos = [s for s, y in scores if y]
    neg = [s for s, y in scores if not y]
    points = {(0.0, 0.0)}
    for t in {s for s, _ in scores}:
        points.add((sum(s >= t for s in neg) / float(len(neg)), sum(s >= t for s in pos) / float(len(pos))))
    area = sum(Fraction(1) if p > q else Fraction(1, 2) if p == q else Fraction(0) for p in pos for q in neg) / (len(pos) * len(neg))
    roc, auc = out
    roc = [(float(a), float(b)) for a, b in roc]
    sim.check(abs(float(auc) - float(area)) <= 1e-9, "wrong-auc",
              lambda: "%s: area %r, by definition %r" % (where, auc, float(area)))
    for f, t in roc:
        sim.check(any(abs(f - a) <= 1e-9 and abs(t - b) <= 1e-9 for a, b in points), "wrong-curve",
                  lambda: "%s: point %r is not on the curve %r" % (where, (f, t), sorted(points)))
    sim.check(roc == sorted(roc) and roc[0] == (0.0, 0.0) and roc[-1] == (1.0, 1.0), "wrong-curve",
              lambda: "%s: curve %r" % (where, roc))
    under = sum((b[0] - a[0]) * (a[1] + b[1]) / 2 for a, b in zip(roc, roc[1:]))
    sim.check(abs(under - float(area)) <= 1e-9, "wrong-curve", lambda: "%s: area under %r is %r, expected %r" % (
        where, roc, under, float(area)))


def refused(sim, EV, bn, net, pd, where):
    node, name, df, rows = question(sim, net, pd)
    kind = sim.draw(2)
    if kind == 0:
        df, node = df[[c for c in df.columns if c != node]], node
        if not len(df.columns):
            return
    else:
        node = "no-such-node"
    before = snap(df)
    sim.fault("invalid_input")
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            out = getattr(EV, name)(bn, df, node)
    except (SimStop, Violation):
        raise
    except Exception as e:
        sim.check(not isinstance(e, (RecursionError, AttributeError, NameError)), "unexpected-exception:%s" % type(e).__name__,
                  "%s: %r" % (where, e))
        sim.check(snap(df) == before, "data-changed", "%s: a refused %s changed its data" % (where, name))
        sim.nontrivial = True
        return
    sim.fail("invalid-input-accepted", "%s: %s without labels returned %r" % (where, name, out))


def interrupted(sim, EV, bn, net, pd, where):
    node, name, df, rows = question(sim, net, pd)
    before = snap(df)
    with stepping(sim, budget=QUERY_BUDGET) as st:
        out = getattr(EV, name)(bn, df, node)
    judge(sim, bn, net, node, name, df, rows, out, where)
    at, exc = 1 + sim.draw(max(1, st.steps)), sim.pick(EXCS)("injected")
    err = None
    try:
        with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc) as st:
            getattr(EV, name)(bn, df, node)
    except (SimStop, Violation):
        raise
    except BaseException as e:
        err = e
    if st.injected:
        sim.sched("interrupted at", st.where)
        sim.fault("async_exception:" + type(exc).__name__)
        sim.nontrivial = True
        sim.check(err is not None, "failure-swallowed", "%s: %r at %s vanished" % (where, exc, st.where))
        if err is not exc and not caused_by(err, exc):
            raise err
    elif err is not None:
        raise err
    sim.check(snap(df) == before, "data-changed", "%s: an interrupted %s changed its data" % (where, name))


def together(sim, EV, bn, net, pd, where):
    s = sched.Scheduler(sim, [(1, 2, 3, 5, 9), (5, 20, 60), (3, 30, 100)][sim.draw(3)])
    history = []

    def client(jobs):
        def body():
            for node, name, df, rows in jobs:
                history.append((node, name, df, rows, getattr(EV, name)(bn, df, node)))
        return body
    shared = question(sim, net, pd, False)
    snaps = []
    for k in range(sim.between(2, 3)):
        jobs = [shared if sim.draw(3) == 2 else question(sim, net, pd, False) for _ in range(sim.between(1, 2))]
        snaps += [(j[2], snap(j[2])) for j in jobs]
        s.spawn("c%d" % k, client(jobs))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %s: %r" % (where, c.name, c.error)) from c.error
    sim.check(len(history) == len(snaps), "lost-operation", "%s: an evaluation did not return" % where)
    for df, before in snaps:
        sim.check(snap(df) == before, "data-changed", "%s: data changed by concurrent evaluations" % where)
    for node, name, df, rows, out in history:
        judge(sim, bn, net, node, name, df, rows, out, where + " (concurrent)")
    sim.fault("thread_switch", s.switches)
    sim.nontrivial = True
