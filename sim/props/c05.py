"""C05: concurrent queries and draws on one shared network do not disturb each other."""
from .. import bnmodel as M
from .. import sched
from ..core import SIMRANDOM, HarnessError, Violation
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, build, load_ebay

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("one run = one shared network and 2-4 client threads each issuing 1-3 operations (query with its own evidence, "
        "draw_samples, join tree + marginals, graphviz export); the scheduler switches threads at executed lines of "
        "causalnex and at factor callbacks, slice lengths 1-400 lines; every answer is compared with the exact one; "
        "non-trivial = at least two switches inside operations; distinct = distinct sequence of (thread, function, "
        "position) switches")
REAL = EBAY_REAL + ["Python threads (parked and released one at a time)"]
STUB = EBAY_STUB + ["thread scheduler", "threading.Lock/RLock as seen by causalnex"]
ASSUMPTIONS = EBAY_ASSUME + ["switch points are line boundaries of causalnex code and factor callbacks, not bytecodes"]


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    net = M.gen_net(sim, 2, 5, max_joint=200)
    holder = {}

    def hook(v, asg):
        s = holder.get("sched")
        if s is not None and holder["yield_in_factor"]:
            s.yield_now("factor:" + v)
    way_hook = hook if sim.chance(1, 3) else None
    bbn, how = build(sim, E, net, hook=way_hook)
    holder["yield_in_factor"] = False
    SIMRANDOM.seed(sim.draw(2 ** 30))
    with_gv = bbn.get_graphviz_source()
    sim.note("net", net.describe(), how)
    style = sim.draw(3)
    slices = [(1, 2, 3, 5, 9), (5, 20, 60, 150), (3, 30, 100, 400)][style]
    s = sched.Scheduler(sim, slices)
    holder["sched"] = s
    holder["yield_in_factor"] = way_hook is not None and sim.chance(1, 2)
    history = []
    plans = []
    for c in range(sim.between(2, 4)):
        ops = []
        for _ in range(sim.between(1, 3)):
            kind = sim.draw(6)
            ev = M.gen_evidence(sim, net, possible_only=True)
            if kind <= 2:
                ops.append(("query", ev))
            elif kind == 3:
                ops.append(("draw", ev, sim.between(1, 3)))
            elif kind == 4:
                ops.append(("tree", ev))
            else:
                ops.append(("graphviz",))
        plans.append(ops)
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe()), "clients": str(plans)}

    def client(name, ops):
        def body():
            for i, op in enumerate(ops):
                sim.note("invoke", name, i, op)
                if op[0] == "query":
                    given = dict(op[1])
                    out = bbn.query(**given)
                elif op[0] == "draw":
                    given = dict(op[1])
                    out = bbn.draw_samples(given, op[2])
                    if given != op[1]:
                        raise Violation("evidence-mutated", "%r became %r" % (op[1], given))
                elif op[0] == "tree":
                    jt = bbn.build_join_tree()
                    asg = jt.assign_clusters(bbn)
                    jt.initialize_potentials(asg, bbn, dict(op[1]))
                    jt.propagate()
                    out = {}
                    for n in bbn.nodes:
                        for k, p in jt.marginal(n).items():
                            out[k[0]] = p
                else:
                    out = bbn.get_graphviz_source()
                sim.note("return", name, i)
                history.append((name, i, op, out))
        return body
    for c, ops in enumerate(plans):
        s.spawn("c%d" % c, client("c%d" % c, ops))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %r" % (c.name, c.error))
    sim.check(len(history) == sum(map(len, plans)), "lost-operation", "an operation did not return")
    for name, i, op, out in history:
        where = "%s op %d %r (concurrent)" % (name, i, op)
        if op[0] == "query":
            M.judge_marginals(sim, net, op[1], out, where)
        elif op[0] == "draw":
            sim.check(len(out) == op[2], "wrong-sample-count", where)
            for smp in out:
                judge_sample(sim, net, op[1], smp, where)
        elif op[0] == "tree":
            want = {}
            for v in net.vars:
                for (x,), p in net.subset_marginal([v], op[1]).items():
                    want[(v, x)] = p
            for k, p in want.items():
                if not abs(float(out.get(k, 0)) - float(p)) <= 1e-9:
                    sim.fail("wrong-marginal", "%s: P%r = %r exact %r" % (where, k, out.get(k), float(p)))
        else:
            sim.check(out == with_gv, "wrong-graphviz", where)
        sim.units[op[0]] += 1
    holder["yield_in_factor"] = False
    M.judge_marginals(sim, net, {}, bbn.query(), "afterwards")
    sim.fault("thread_switch", s.switches)
    if s.switches > len(plans) + 1:
        sim.nontrivial = True


def judge_sample(sim, net, ev, smp, where):
    sim.check(isinstance(smp, dict) and set(smp) == set(net.vars), "incomplete-sample",
              lambda: "%s: sample %r" % (where, smp))
    for k, v in ev.items():
        sim.check(smp[k] == v, "evidence-ignored", lambda: "%s: sample %r" % (where, smp))
    sim.check(net.prob(smp) > 0, "impossible-sample", lambda: "%s: sample %r has probability 0" % (where, smp))
