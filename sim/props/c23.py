"""C23: failed or interrupted fits and predictions leave a BayesianNetwork as it was."""
from fractions import Fraction
from itertools import product

from ..core import InjectedError, SimCrash, SimStop, Violation, stepping
from ..stubs import minipandas as MP
from ..stubs import minipgmpy as PG
from . import infer as I
from .c06 import caused_by
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation with fault injection: fit/predict histories with invalid data, a failing estimator and "
        "asynchronous exceptions at any executed line; the network's report judged against a reference after each call")
NOTE = "pandas and pgmpy are stand-ins (the pgmpy one counts for real and installs its tables in one step)."
RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("one run = one structure and 3-8 calls of fit_node_states, fit_cpds (maximum likelihood, K2, BDeu), both at once, "
        "the node_states setter, predict and predict_probability; about half fail: missing columns, missing values, states "
        "outside the fitted ones, unknown method or prior, an estimator that raises, or an asynchronous exception at a "
        "line chosen uniformly; after every call the reported states, conditionals, nodes, edges and the caller's frames "
        "are compared with the reference; non-trivial = a fault after a completed fit; distinct = distinct history")
REAL = ["causalnex.network, causalnex.structure.structuremodel (from /repo's working tree)", "networkx"]
STUB = ["set iteration order (SimSet)", "pandas (small stand-in)", "pgmpy (stand-in, genuine counting)",
        "estimator failures", "asynchronous exceptions (raised at a chosen line of causalnex)"]
ASSUMPTIONS = ["pandas and pgmpy are absent here: the stand-ins follow their documented behaviour for what causalnex uses",
               "pgmpy installs fitted tables in one step", "asynchronous exceptions arrive at line boundaries of causalnex "
               "code", "sampled histories and faults: a clean batch is evidence, not proof"]
setup = I.setup
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]


class Ref:
    """What the network must report."""

    def __init__(self):
        self.states = None          # node -> frozenset, or None before any fit
        self.cpds = None            # (states at fit, {node: {(state, parent states): Fraction}})

    def clone(self):
        r = Ref()
        r.states, r.cpds = self.states, self.cpds
        return r


def frame(sim, pd, cols, doms, n):
    rows = {c: [sim.pick(doms[c]) for _ in range(n)] for c in cols}
    return pd.DataFrame({c: rows[c] for c in sim.shuffled(cols)}), rows


def snap(df):
    return (list(df.columns), df.index.tolist(), [list(map(repr, df[c].tolist())) for c in df.columns],
            [str(df[c].dtype) for c in df.columns])


def fit_table(net_nodes, parents, states, rows, method, prior, ess):
    """Reference counting; None when the data holds a state that was not fitted."""
    out = {}
    n = len(next(iter(rows.values())))
    for v in net_nodes:
        ps = sorted(parents[v])
        dom = sorted(states[v])
        axes = [sorted(states[p]) for p in ps]
        size = len(dom)
        for a in axes:
            size *= len(a)
        pseudo = Fraction(0)
        if method == "BayesianEstimator":
            pseudo = Fraction(1) if prior == "K2" else Fraction(ess or 5) / size
        for key in product(*axes):
            cnt = {s: pseudo for s in dom}
            for i in range(n):
                if all(rows[p][i] == k for p, k in zip(ps, key)):
                    cnt[rows[v][i]] += 1
            tot = sum(cnt.values())
            for s in dom:
                out[(v, s, key)] = cnt[s] / tot if tot else Fraction(1, len(dom))
    return out


def run(sim):
    S, N, _ = I.load()
    import pandas as pd
    sim.choose_set_order()
    net = I.gen(sim, 2, 4, max_joint=120)
    sm = S.StructureModel()
    edges = sim.shuffled([(p, v) for v in net.vars for p in net.par[v]])
    sm.add_edges_from(edges)
    bn = N.BayesianNetwork(sm)
    sim.note("net", net.describe())
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    ref = Ref()
    nodes = list(net.vars)
    for step in range(sim.between(3, 8)):
        op = sim.draw(6) if ref.states is not None else sim.draw(4)
        fault = sim.draw(6)
        # 0-2 none, 3 async, 4 bad input, 5 failing estimator
        method = ["MaximumLikelihoodEstimator", "BayesianEstimator", "BayesianEstimator"][sim.draw(3)]
        prior = ["K2", "BDeu"][sim.draw(2)] if method == "BayesianEstimator" else None
        ess = sim.pick([None, 1, 10])
        doms = {v: list(net.dom[v]) for v in nodes}
        if sim.chance(1, 3):                    # this data set does not contain every state
            v = sim.pick(nodes)
            doms[v] = doms[v][:max(1, len(doms[v]) - 1)]
        if ref.states is not None and op == 1:
            doms = {v: sorted(ref.states[v]) for v in nodes}
        cols = list(nodes)
        extra = sim.chance(1, 4)
        if extra:
            cols.append("zz")
            doms["zz"] = [0, 1]
        df, rows = frame(sim, pd, cols, doms, sim.between(2, 9))
        bad = None
        if fault == 4:
            bad = sim.draw(4)
            v = sim.pick(nodes)
            if bad == 0 and op <= 2:
                df = df.drop(columns=[v])
            elif bad == 1 and op in (0, 2):
                vals = list(rows[v])
                vals[sim.draw(len(vals))] = None
                df[v] = vals
            elif bad == 2 and op in (1, 2):
                method, prior = sim.pick([("nope", None), ("nope", "K2"), ("maximumlikelihoodestimator", "BDeu"),
                                          ("BayesianEstimator", "nope"), ("BayesianEstimator", None)])
            elif bad == 3 and op == 1 and ref.states is not None:
                vals = list(rows[v])
                vals[sim.draw(len(vals))] = "never-seen"
                df[v] = vals
            else:
                bad = None
        target = sim.pick(nodes)
        incomplete = op >= 4 and sim.chance(1, 3)
        new_states = {c: frozenset(rows[c]) for c in cols}
        if op == 3:
            arg = {c: set(net.dom[c]) for c in sim.shuffled(nodes)}
            new_states = {c: frozenset(s) for c, s in arg.items()}
            if fault == 4:
                bad = sim.draw(2)
                v = sim.pick(nodes)
                if bad == 0:
                    del arg[v]
                else:
                    arg[v] = {None}
        if op >= 4:
            df = df[[c for c in df.columns if c in nodes]]
            if incomplete and net.par[target]:
                df = df.drop(columns=[net.par[target][0]])
            else:
                incomplete = False
        before = snap(df)

        def call(op=op, df=df, method=method, prior=prior, ess=ess, target=target):
            if op == 0:
                return bn.fit_node_states(df)
            if op == 1:
                return bn.fit_cpds(df, method=method, bayes_prior=prior, equivalent_sample_size=ess)
            if op == 2:
                return bn.fit_node_states_and_cpds(df, method=method, bayes_prior=prior, equivalent_sample_size=ess)
            if op == 3:
                bn.node_states = arg
                return None
            return bn.predict(df, target) if op == 4 else bn.predict_probability(df, target)
        name = ["fit_node_states", "fit_cpds", "fit_node_states_and_cpds", "node_states=", "predict",
                "predict_probability"][op]
        where = "step %d %s" % (step, name)
        known = ref.states is not None
        must_fail = (bad is not None) or (op == 1 and not known)
        if op == 1 and known and not must_fail:
            must_fail = any(set(map(repr, rows[v])) - set(map(repr, ref.states[v])) for v in nodes)
        if op >= 4 and (ref.cpds is None or ref.cpds[0] != ref.states):
            continue
        if op >= 4:
            ok_states = all(set(rows[c]) <= ref.states[c] for c in df.columns)
            if not ok_states:
                continue
        # the candidate outcomes
        after = ref.clone()
        if op in (0, 2, 3):
            after.states = new_states
        mid = after.clone()                     # fit_node_states done, fit_cpds not
        if op in (1, 2) and not must_fail:
            st = after.states
            after.cpds = (st, fit_table(nodes, {v: net.par[v] for v in nodes}, st, rows, method, prior, ess))
        PG.PLAN.fail = None
        failing = fault == 5 and op in (1, 2) and not must_fail
        exc = None
        if failing:
            exc = sim.pick([InjectedError, ValueError, MemoryError, KeyError])("estimator failed")
            stage, left = sim.pick(["start", "estimate", "end"]), [sim.draw(len(nodes))]

            def fail(s, exc=exc, stage=stage, left=left):
                if s == stage:
                    if s != "estimate" or left[0] == 0:
                        return exc
                    left[0] -= 1
                return None
            PG.PLAN.fail = fail
        at = None
        if fault == 3:
            # measured as a fraction of a typical call: short calls are hit anywhere, long ones early or late
            at = 1 + sim.draw(60)
            exc = sim.pick(EXCS)("injected")
        sim.sched(name, "fault", fault, bad)
        out, err = None, None
        try:
            with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc if at else None) as s:
                out = call()
        except (SimStop, Violation):
            raise
        except BaseException as e:
            err = e
        PG.PLAN.fail = None
        fired = (at is not None and s.injected) or failing
        if fired:
            sim.sched("at", s.where)
            sim.fault("estimator_failed" if failing else "async_exception:" + type(exc).__name__)
            if err is None:
                sim.fail("failure-swallowed", "%s: %r at %s vanished" % (where, exc, s.where))
            if err is not exc and not caused_by(err, exc):
                raise err
            sim.nontrivial = sim.nontrivial or ref.cpds is not None
        elif must_fail:
            sim.fault("invalid_input")
            if err is None:
                sim.fail("invalid-input-accepted", "%s: bad input %r was accepted" % (where, bad))
            if not isinstance(err, Exception):
                raise err
            documented = {(0, 0): KeyError, (0, 1): ValueError, (2, 0): KeyError, (2, 1): ValueError, (1, 2): ValueError,
                          (2, 2): ValueError, (3, 0): KeyError, (3, 1): ValueError}.get((op, bad))
            if documented is not None and (known or op != 1) and not isinstance(err, documented):
                sim.fail("wrong-error", "%s: %r instead of %s" % (where, err, documented.__name__))
            sim.nontrivial = sim.nontrivial or ref.cpds is not None
        elif err is not None:
            raise err
        if op != 3 and snap(df) != before:
            sim.fail("data-changed", "%s changed the caller's data: %r became %r" % (where, before, snap(df)))
        if err is None:
            cands = [after]
        elif op == 2:
            cands = [after, ref, mid] if fired and not failing else ([ref] if bad in (0, 1) else [mid])
        elif fired and not failing:
            cands = [after, ref]
        else:
            cands = [ref]
        ref = settle(sim, bn, nodes, net, cands, where)
        if op >= 4 and err is None:
            judge_prediction(sim, ref, net, df, rows, target, out, op, incomplete, where)
        if err is None and op < 3:
            sim.check(out is bn, "wrong-return", "%s did not return the network" % where)
        sim.check(sorted(bn.nodes) == sorted(nodes) and sorted(bn.edges) == sorted(edges), "structure-changed", where)
        sim.units[name] += 1
        if sim.draw(4) == 3:
            scribble(sim, bn, sm, arg if op == 3 else None, ref)


def scribble(sim, bn, sm, arg, ref):
    """The caller edits what it was handed, and what it handed over: none of it is the network's any more."""
    k = sim.draw(5)
    sim.fault("caller_edits:" + ["tables", "states", "lists", "structure", "argument"][k])
    if k == 0 and ref.cpds is not None and ref.cpds[0] == ref.states:
        for df in bn.cpds.values():
            MP.write_in_place(df, 0.123)
            df["scribble"] = 1
    elif k == 1:
        for states in bn.node_states.values() if ref.states is not None else ():
            states.clear()
    elif k == 2:
        bn.nodes.append("scribble")
        del bn.edges[:]
    elif k == 3 and sm.edges:
        sm.remove_edge(*sim.pick(sorted(sm.edges)))
        sm.add_edge("scribble", "scribble")
    elif k == 4 and arg:
        for states in arg.values():
            states.clear()
        arg.clear()


def settle(sim, bn, nodes, net, cands, where):
    errors = []
    for c in cands:
        try:
            compare(bn, nodes, net, c)
            return c
        except Mismatch as m:
            errors.append(str(m))
    sim.fail("wrong-report", "%s: the network matches none of %d possible outcomes: %s" % (where, len(cands), errors[0]))


class Mismatch(Exception):
    pass


def compare(bn, nodes, net, ref):
    if ref.states is None:
        try:
            got = bn.node_states
        except Exception:
            got = None
        if got:
            raise Mismatch("node states %r reported before any fit" % (got,))
        return
    try:
        got = bn.node_states
    except (AttributeError, TypeError) as e:
        raise Mismatch("reporting the states fails: %r" % (e,))
    if {k: frozenset(v) for k, v in got.items()} != ref.states:
        raise Mismatch("node states %r, expected %r" % (got, ref.states))
    if ref.cpds is None:
        if bn.cpds:
            raise Mismatch("conditionals reported before any fit")
        return
    if ref.cpds[0] != ref.states:
        return                              # states refitted since: conditionals are due a refit
    want = ref.cpds[1]
    try:
        cp = bn.cpds
    except (ValueError, KeyError, IndexError) as e:
        raise Mismatch("reporting the conditionals fails: %r" % (e,))
    if set(cp) != set(nodes):
        raise Mismatch("conditionals of %r" % (sorted(cp),))
    for v in nodes:
        c = cp[v]
        cols, idx, vals = c.columns.tolist(), c.index.tolist(), c.values
        order = [list(c.columns.names).index(p) for p in sorted(net.par[v])] if net.par[v] else []
        seen = set()
        for j, col in enumerate(cols):
            col = () if not net.par[v] else (col if isinstance(col, tuple) else (col,))
            key = tuple(col[i] for i in order)
            for i, s in enumerate(idx):
                seen.add((v, s, key))
                w = want.get((v, s, key))
                if w is None or not abs(float(vals[i][j]) - float(w)) <= 1e-9:
                    raise Mismatch("P(%s=%r | %r) = %r, expected %r" % (v, s, key, vals[i][j], w and float(w)))
        if seen != {k for k in want if k[0] == v}:
            raise Mismatch("conditionals of %r cover %d of %d cells" % (v, len(seen), sum(k[0] == v for k in want)))


def judge_prediction(sim, ref, net, df, rows, target, out, op, incomplete, where):
    n = len(df.index.tolist())
    sim.check(len(out) == n, "wrong-prediction", lambda: "%s: %d rows for %d" % (where, len(out), n))
    if incomplete:
        return
    want = ref.cpds[1]
    ps = sorted(net.par[target])
    for i in range(n):
        key = tuple(rows[p][i] for p in ps)
        dist = {s: want[(target, s, key)] for s in ref.states[target]}
        if op == 4:
            got = out[target + "_prediction"].tolist()[i]
            best = max(dist.values())
            if got not in dist or float(best - dist[got]) > 1e-12:
                sim.fail("wrong-prediction", "%s: row %d predicts %r, probabilities %r" % (where, i, got, dist))
        else:
            for s, p in dist.items():
                got = out["%s_%s" % (target, s)].tolist()[i]
                if not abs(float(got) - float(p)) <= 1e-9:
                    sim.fail("wrong-prediction", "%s: row %d P(%r) = %r, expected %r" % (where, i, s, got, float(p)))
