"""C11: any history of interventions, resets and queries answers as do-calculus prescribes."""
from .. import bnmodel as M
from ..core import SimStop, Violation, stepping
from . import infer as I
from .common import QUERY_BUDGET

LEVEL = "exploration"
TECH = "seeded simulation of intervention/reset/query histories with rejected calls, against an exact do-calculus model"
NOTE = "pandas and pgmpy are stand-ins; inference, network and belief propagation are the real code."
RUNS = {"quick": 2400, "thorough": 120000}
RULE = ("one run = one network, 1-2 engines built from it and a history of 3-10 operations (intervene with a state or a "
        "distribution, reset, query with observations, rejected calls of every documented kind, mutation of passed "
        "dictionaries afterwards); each engine must answer as the exact mutilated network; non-trivial = a query "
        "judged while an intervention is active; distinct = distinct history")
REAL, STUB, ASSUMPTIONS = I.REAL, I.STUB, I.ASSUME
setup = I.setup


def run(sim):
    S, N, INF = I.load()
    import pandas as pd
    if sim.run_index == 0:
        named_self(sim, S, N, INF, pd)
    sim.choose_set_order()
    net = I.gen(sim)
    bn = I.build_bn(sim, S, N, net, pd)
    cpds_before = {v: (c.columns.tolist(), c.index.tolist(), c.values.copy()) for v, c in bn.cpds.items()}
    engines = []
    for _ in range(sim.between(1, 2)):
        with stepping(sim, budget=QUERY_BUDGET):
            engines.append([INF.InferenceEngine(bn), {}])
    sim.note("net", net.describe())
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    if sim.draw(6) == 5:
        refused(sim, S, N, INF, net, bn, pd)
    for step in range(sim.between(3, 10)):
        k = sim.draw(len(engines))
        ie, interv = engines[k]
        cur = I.effective(net, interv)
        op = sim.draw(8)
        v = sim.pick(net.vars)
        where = "step %d engine %d (interventions %r)" % (step, k, {a: {s: float(p) for s, p in d.items()}
                                                                    for a, d in interv.items()})
        if op <= 2:
            intervene(sim, ie, interv, net, cur, v, where)
        elif op == 3:
            if interv and sim.draw(3):
                v = sim.pick(interv)
            sim.sched("reset", k, v)
            with stepping(sim, budget=QUERY_BUDGET):
                ie.reset_do(v)
            interv.pop(v, None)
            sim.units["resets"] += 1
        elif op == 4:
            rejected(sim, ie, net, cur, v, where)
        else:
            obs = M.gen_evidence(sim, cur)
            sim.sched("query", k, obs)
            I.ask(sim, cur, ie, obs, where)
            if interv:
                sim.nontrivial = True
    for k, (ie, interv) in enumerate(engines):
        I.ask(sim, I.effective(net, interv), ie, {}, "at the end, engine %d" % k)
    if sim.chance(1, 2):                       # resetting everything restores the original network
        ie, interv = sim.pick(engines)
        for v in sim.shuffled(interv):
            ie.reset_do(v)
        I.ask(sim, net, ie, M.gen_evidence(sim, net), "after resetting every intervention")
    for v, c in bn.cpds.items():
        cols, idx, vals = cpds_before[v]
        sim.check(c.columns.tolist() == cols and c.index.tolist() == idx and (c.values == vals).all(),
                  "network-changed", lambda: "the BayesianNetwork's conditionals of %r changed" % v)
    if sim.chance(1, 4):
        with stepping(sim, budget=QUERY_BUDGET):
            ie = INF.InferenceEngine(bn)
        I.ask(sim, net, ie, {}, "a new engine from the same network")


def intervene(sim, ie, interv, net, cur, v, where):
    if sim.draw(2):
        exact, given = I.gen_dist(sim, net.dom[v])
        arg = given
        keep = dict(given)
    else:
        s = sim.pick(net.dom[v])
        exact = {x: int(x == s) for x in net.dom[v]}
        arg, keep = M.equal_copy(s), None
    sim.sched("do", v, arg)
    childless = not I.children(cur, v)
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            ie.do_intervention(v, arg)
    except ValueError as e:
        if not childless and not isolates_other(cur, v):
            sim.fail("valid-intervention-rejected", "%s: do(%s=%r): %s" % (where, v, arg, e))
        sim.probe("isolating_intervention_rejected")
        I.ask(sim, cur, ie, {}, where + " after the rejected do(%s=%r)" % (v, arg))
        return
    if childless:
        sim.fail("isolating-intervention-accepted", "%s: do(%s=%r) isolates %s" % (where, v, arg, v))
    interv.pop(v, None)
    interv[v] = exact
    if keep is not None:
        sim.check(arg == keep, "argument-mutated", lambda: "%s: %r became %r" % (where, keep, arg))
        if sim.draw(2):                        # the caller reuses its dictionary
            for s in list(arg):
                arg[s] = 1.0 / 7
            sim.fault("caller_dict_mutated_later")
    sim.units["interventions"] += 1
    if sim.draw(2):
        I.ask(sim, I.effective(net, interv), ie, {}, where + " then do(%s)" % v)


def isolates_other(cur, v):
    return any(not cur.par[p] and I.children(cur, p) == [v] for p in cur.par[v])


def rejected(sim, ie, net, cur, v, where):
    kind = sim.draw(4)
    sim.fault("rejected_call")
    if kind <= 1:
        label, arg = I.bad_state(sim, net, v)
        sim.sched("bad-do", v, label, arg)
        try:
            with stepping(sim, budget=QUERY_BUDGET):
                ie.do_intervention(v, arg)
        except ValueError:
            pass
        else:
            sim.fail("invalid-intervention-accepted", "%s: do(%s=%r) (%s) was accepted" % (where, v, arg, label))
    elif kind == 2:
        sim.sched("bad-do", "unknown node")
        for call in ([lambda: ie.do_intervention("nope", True)] if sim.draw(2) else [lambda: ie.reset_do("nope")]):
            try:
                call()
            except (ValueError, KeyError):
                pass
            else:
                sim.fail("unknown-node-accepted", where)
    else:
        bad = {v: "not-a-state"} if sim.draw(2) else {"nope": True}
        sim.sched("bad-query", bad)
        try:
            with stepping(sim, budget=QUERY_BUDGET):
                out = ie.query(dict(bad))
        except (SimStop, Violation):
            raise
        except Exception:
            pass
        else:
            sim.fail("invalid-observation-accepted", "%s: query(%r) = %.200r" % (where, bad, out))
    I.ask(sim, cur, ie, {}, where + " after a rejected call")


def refused(sim, S, N, INF, net, bn, pd):
    """Networks that are documented as unusable are refused."""
    kind = sim.draw(2)
    sim.fault("unusable_network")
    if kind:                                   # states known, conditionals not
        sm = S.StructureModel()
        sm.add_edges_from([(p, v) for v in net.vars for p in net.par[v]])
        bad = N.BayesianNetwork(sm)
        if sim.draw(2):
            bad.fit_node_states(pd.DataFrame({v: [net.dom[v][0]] for v in net.vars}))
        label = "no conditionals"
    else:
        v = sim.pick(net.vars)
        name = sim.pick(["a b", "x-1", "", "\u00e9", "a.b", "a\tb", "b?"])
        ren = {x: name if x == v else x for x in net.vars}
        bad_net = M.Net([ren[x] for x in net.vars], {ren[x]: d for x, d in net.dom.items()},
                        {ren[x]: [ren[p] for p in ps] for x, ps in net.par.items()}, {ren[x]: t for x, t in net.cpt.items()})
        bad = I.build_bn(sim, S, N, bad_net, pd)
        label = "variable named %r" % name
    sim.sched("refused", label)
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            INF.InferenceEngine(bad)
    except ValueError:
        return
    sim.fail("unusable-network-accepted", "InferenceEngine accepted a network with " + label)


def named_self(sim, S, N, INF, pd):
    """The one permitted name the known finding is about, checked once per batch."""
    net = M.Net(["self", "b"], {"self": [0, 1], "b": [0, 1]}, {"self": [], "b": ["self"]}, {
        "self": {(): {0: M.Fraction(1, 4), 1: M.Fraction(3, 4)}},
        "b": {(0,): {0: M.Fraction(1, 2), 1: M.Fraction(1, 2)}, (1,): {0: M.Fraction(1, 4), 1: M.Fraction(3, 4)}}})
    bn = I.build_bn(sim, S, N, net, pd, shuffle=False)
    try:
        ie = INF.InferenceEngine(bn)
        I.judge(sim, net, {}, ie.query(), "variable named 'self'")
        I.judge(sim, net, {"self": 1}, ie.query({"self": 1}), "variable named 'self'")
    except Exception as e:
        raise Violation("node-named-self", "a network with a variable named 'self': %s: %s" % (type(e).__name__, e))
