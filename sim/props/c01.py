"""C01: query answers equal the exact posterior under every schedule of the message passing."""
from .. import bnmodel as M
from ..core import stepping
from .common import EBAY_REAL, EBAY_STUB, EBAY_ASSUME, build, load_ebay, ask

LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 150000}
RULE = ("one run = one random network (1-7 variables, domains 1-4, chains/stars/colliders/dense, one or more connected "
        "components, zero and extreme probabilities) built through a random public constructor and declaration order, "
        "then 1-5 queries with random evidence under one set-order policy per query; non-trivial = at least one query with "
        "evidence on a network with an edge; distinct = distinct schedule digest (set-order policy and seed per query, "
        "network, evidence)")
REAL, STUB, ASSUMPTIONS = EBAY_REAL, EBAY_STUB, EBAY_ASSUME


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    if sim.draw(16) == 15:                      # wide: many parents, large cliques
        net = M.gen_net(sim, 7, 12, max_parents=sim.between(2, 6), binary=True, names=M.NAME_POOL)
        sim.probe("wide")
    else:
        net = M.gen_net(sim, 1, 7)
    bbn, how = build(sim, E, net)
    sim.note("net", net.describe(), how)
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe()), "built": how}
    ev = {}
    for q in range(sim.between(1, 5)):
        if sim.chance(1, 2):
            sim.choose_set_order()
        if not q or sim.draw(4) != 3:          # sometimes the same question again
            ev = M.gen_evidence(sim, net)
        asked = {k: ev[k] for k in sim.shuffled(ev)}
        sim.sched("query", net.describe(), asked)
        res = ask(sim, net, bbn, asked)
        verdict = "raised" if res is None else M.judge_marginals(sim, net, ev, res, "query %d" % q)
        if res is not None and sim.draw(2):    # the answer belongs to the caller
            res.clear()
        sim.units["queries"] += 1
        sim.probe("evidence:" + verdict)
        if len(net.components()) > 1:
            sim.probe("disconnected")
        if ev and any(net.par.values()):
            sim.nontrivial = True
