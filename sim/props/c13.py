"""C13: concurrent queries of one engine, and separate engines of one network, are isolated."""
from .. import bnmodel as M
from .. import sched
from ..core import HarnessError, Violation
from . import infer as I
from .c11 import isolates_other

LEVEL = "exploration"
TECH = "seeded thread scheduling at every executed line; each answer compared with the exact do-calculus model"
NOTE = "pandas and pgmpy are stand-ins; inference, network and belief propagation are the real code."
RUNS = {"quick": 700, "thorough": 30000}
RULE = ("one run = one network and 2-4 client threads, each querying a shared engine or building, intervening on, "
        "resetting and querying its own engine of the same network; threads are switched at executed lines of causalnex; "
        "every answer is compared with the exact one; non-trivial = switches inside operations; distinct = distinct "
        "sequence of (thread, function, position) switches")
REAL, STUB = I.REAL + ["Python threads (parked and released one at a time)"], I.STUB + ["thread scheduler"]
ASSUMPTIONS = I.ASSUME + ["switch points are line boundaries of causalnex code"]
setup = I.setup


def run(sim):
    S, N, INF = I.load()
    import pandas as pd
    sim.choose_set_order()
    net = I.gen(sim, 2, 4, max_joint=60)
    bn = I.build_bn(sim, S, N, net, pd)
    shared = INF.InferenceEngine(bn)
    shared_interv = {}
    ok = [v for v in net.vars if I.children(net, v) and not isolates_other(net, v)]
    if ok and sim.draw(2):
        v = sim.pick(ok)
        exact, given = I.gen_dist(sim, net.dom[v])
        shared.do_intervention(v, given)
        shared_interv = {v: exact}
    shared_net = I.effective(net, shared_interv)
    sim.note("net", net.describe(), "shared interventions", shared_interv)
    plans = []
    for c in range(sim.between(2, 4)):
        own = sim.draw(2)
        ops = []
        if own:
            # either this thread builds its engine, or it was built before the threads started
            ops.append(("engine", None if sim.draw(2) else INF.InferenceEngine(bn)))
            cur, interv = net, {}
            for _ in range(sim.between(1, 4)):
                kind = sim.draw(3)
                v = sim.pick(net.vars)
                if kind == 0 and I.children(cur, v) and not isolates_other(cur, v):
                    exact, given = I.gen_dist(sim, net.dom[v])
                    interv = dict([(k, d) for k, d in interv.items() if k != v] + [(v, exact)])
                    ops.append(("do", v, given))
                elif kind == 1:
                    interv = {k: d for k, d in interv.items() if k != v}
                    ops.append(("reset", v))
                cur = I.effective(net, interv)
                ops.append(("query", M.gen_evidence(sim, cur, possible_only=True), cur))
        else:
            ops.append(("engine", shared))
            for _ in range(sim.between(1, 3)):
                ops.append(("query", M.gen_evidence(sim, shared_net, possible_only=True), shared_net))
        plans.append(ops)
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe()), "clients": str([[o[:2] for o in p] for p in plans])[:600]}
    style = sim.draw(3)
    slices = [(1, 2, 3, 5, 9), (5, 20, 60, 150), (3, 30, 100, 400)][style]
    s = sched.Scheduler(sim, slices)
    history = []

    def client(name, ops):
        def body():
            ie = None
            for i, op in enumerate(ops):
                sim.note("invoke", name, i, op[:2] if op[0] != "engine" else "engine")
                if op[0] == "engine":
                    ie = op[1] if op[1] is not None else INF.InferenceEngine(bn)
                elif op[0] == "do":
                    ie.do_intervention(op[1], dict(op[2]))
                elif op[0] == "reset":
                    ie.reset_do(op[1])
                else:
                    history.append((name, i, op, ie.query(dict(op[1]))))
                sim.units[op[0]] += 1
                sim.note("return", name, i)
        return body
    for c, ops in enumerate(plans):
        s.spawn("c%d" % c, client("c%d" % c, ops))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %r" % (c.name, c.error)) from c.error
    for name, i, op, out in history:
        I.judge(sim, op[2], op[1], out, "%s op %d query(%r) (concurrent)" % (name, i, op[1]))
    sim.check(len(history) == sum(o[0] == "query" for p in plans for o in p), "lost-operation", "a query did not return")
    I.ask(sim, shared_net, shared, {}, "the shared engine afterwards")
    sim.fault("thread_switch", s.switches)
    if s.switches > len(plans) + 1:
        sim.nontrivial = True
