"""C04: a reused join tree / network has no memory of earlier (even interrupted) rounds."""
from .. import bnmodel as M
from ..core import InjectedError, SimCrash, stepping
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, QUERY_BUDGET, ask, build, load_ebay

LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 100000}
RULE = ("one run = one network with 1-2 join trees reused over a history of 3-9 operations: re-initialise with evidence, "
        "full propagation, propagation interrupted at a random executed line, stray messages, direct queries, marginal "
        "reads; every read after a completed re-initialise+propagate is compared with the exact joint; non-trivial = a "
        "round completed after an earlier round with other evidence or an interruption; distinct = distinct history")
REAL, STUB = EBAY_REAL, EBAY_STUB + ["asynchronous exceptions (raised at a chosen line of causalnex)"]
ASSUMPTIONS = EBAY_ASSUME


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    net = M.gen_net(sim, 2, 6)
    bbn, how = build(sim, E, net)
    sim.note("net", net.describe(), how)
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    trees = []
    for _ in range(sim.between(1, 2)):
        with stepping(sim, budget=QUERY_BUDGET):
            jt = bbn.build_join_tree()
            trees.append([jt, jt.assign_clusters(bbn), None])
    prev = False
    for step in range(sim.between(3, 9)):
        if sim.chance(1, 4):
            sim.choose_set_order()
        t = trees[sim.draw(len(trees))]
        k = trees.index(t)
        op = sim.draw(6)
        if op <= 2:                            # a full round: init, propagate, read
            ev = M.gen_evidence(sim, net)
            given = dict(ev)
            sim.sched("round", k, ev)
            with stepping(sim, budget=QUERY_BUDGET):
                if not ev and sim.draw(2):
                    t[0].initialize_potentials(t[1], bbn)
                else:
                    t[0].initialize_potentials(t[1], bbn, given)
                t[0].propagate()
            sim.check(given == ev, "evidence-mutated", "caller's evidence changed from %r to %r" % (ev, given))
            t[2] = ev
            sim.units["rounds"] += 1
            if prev:
                sim.nontrivial = True
            prev = True
            read(sim, net, bbn, t, "round %d" % step)
        elif op == 3:                          # interrupted round
            ev = M.gen_evidence(sim, net)
            sim.sched("interrupted", k, ev)
            at = 1 + sim.draw(60) ** 2
            exc = sim.pick([SimCrash, InjectedError, KeyboardInterrupt, MemoryError])
            try:
                with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc) as s:
                    t[0].initialize_potentials(t[1], bbn, dict(ev))
                    t[0].propagate(sim.pick(list(t[0].clique_nodes)))
            except exc:
                pass
            if s.injected:
                sim.fault("interrupted_at_line")
                sim.sched("at", s.where)
                t[2] = None
            else:
                t[2] = ev
            prev = True
        elif op == 4:                          # direct query through the same network
            ev = M.gen_evidence(sim, net)
            sim.sched("query", ev)
            res = ask(sim, net, bbn, dict(ev))
            if res is not None:
                M.judge_marginals(sim, net, ev, res, "step %d" % step)
                res.clear()                    # the answer belongs to the caller
            sim.units["queries"] += 1
        else:                                  # reread everything that is calibrated
            for u in trees:
                if u[2] is not None:
                    sim.sched("reread", trees.index(u))
                    read(sim, net, bbn, u, "reread at step %d" % step)


def read(sim, net, bbn, t, where):
    ev = t[2]
    for node in (sim.shuffled(bbn.nodes)):
        v = node.variable_name
        with stepping(sim, budget=QUERY_BUDGET):
            tt = t[0].marginal(node)
        want = net.subset_marginal([v], ev)
        sim.check(set(tt) <= {((v, x[0]),) for x in want}, "wrong-keys", lambda: "%s: %r" % (where, dict(tt)))
        for (x,), p in want.items():
            got = tt.get(((v, x),), 0)
            if abs(float(got) - float(p)) > 1e-9:
                sim.fail("stale-or-wrong-marginal", "%s: P(%s=%r, evidence %r) = %r, exact %r" % (
                    where, v, x, ev, got, float(p)))
    sim.units["marginals"] += len(net.vars)
