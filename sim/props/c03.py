"""C03: propagation calibrates from any root, in any message order, after any earlier messages."""
from .. import bnmodel as M
from ..core import stepping
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, QUERY_BUDGET, build, load_ebay

LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 120000}
RULE = ("one run = one network, one join tree, random evidence, then a random prefix of whole messages between adjacent "
        "cliques (a partial earlier round, with duplicates), a full propagation from a random root, duplicated or extra "
        "messages, possibly a second propagation from another root; after each full propagation every clique and sepset "
        "must hold the exact joint of its variables with the evidence; non-trivial = at least two cliques; distinct = "
        "distinct message schedule")
REAL, STUB, ASSUMPTIONS = EBAY_REAL, EBAY_STUB, EBAY_ASSUME


def tt_matches(sim, net, ev, node, what):
    names = sorted(node.variable_names)
    want = net.subset_marginal(names, ev)
    tt = node.potential_tt
    keys = {tuple(zip(names, vals)) for vals in want}
    sim.check(set(tt) <= keys, "wrong-keys", lambda: "%s: table over %r has foreign rows" % (what, names))
    for vals, p in want.items():
        got = tt.get(tuple(zip(names, vals)), 0)
        if abs(float(got) - float(p)) > 1e-9:
            sim.fail("not-calibrated", "%s: %s %r: table says %r for %r, exact joint with evidence %r is %r" % (
                what, type(node).__name__, names, got, vals, ev, float(p)))


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    net = M.gen_net(sim, 2, 7)
    bbn, how = build(sim, E, net)
    ev = M.gen_evidence(sim, net)
    sim.note("net", net.describe(), how, ev)
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe()), "evidence": str(ev)}
    sim.choose_set_order()
    with stepping(sim, budget=QUERY_BUDGET):
        jt = bbn.build_join_tree()
        asg = jt.assign_clusters(bbn)
        jt.initialize_potentials(asg, bbn, dict(ev))
    cliques = list(jt.clique_nodes)
    links = []
    for s in jt.sepset_nodes:
        x, y = s.neighbours
        links += [(x, y), (y, x)]
    label = {id(c): "-".join(sorted(c.variable_names)) for c in cliques}

    def messages(limit, kind):
        n = sim.draw(limit + 1) if links else 0
        for _ in range(n):
            x, y = sim.pick(links)
            sim.sched("msg", label[id(x)], label[id(y)])
            with stepping(sim, budget=QUERY_BUDGET):
                x.pass_message(y)
            sim.fault(kind)

    if sim.chance(2, 3):
        messages(2 * len(links), "partial_or_duplicate_round")
    rounds = sim.between(1, 3)
    for r in range(rounds):
        if sim.chance(1, 2):
            sim.choose_set_order()
        root = None if sim.draw(3) == 0 else sim.pick(cliques)
        sim.sched("propagate", label[id(root)] if root is not None else "default")
        with stepping(sim, budget=QUERY_BUDGET):
            if root is None:
                jt.propagate()
            else:
                jt.propagate(starting_clique=root)
        if root is not None and root is not cliques[0]:
            sim.fault("root_moved")
        for node in list(jt.clique_nodes) + list(jt.sepset_nodes):
            tt_matches(sim, net, ev, node, "after propagation %d" % r)
        sim.units["propagations"] += 1
        if sim.chance(1, 2) and links:
            messages(4, "duplicate_message")
            for node in list(jt.clique_nodes) + list(jt.sepset_nodes):
                tt_matches(sim, net, ev, node, "after duplicated messages")
    if len(cliques) > 1:
        sim.nontrivial = True
    if len(cliques) > 3:
        sim.probe("many_cliques")
    if net.prob(ev) == 0:
        sim.probe("impossible_evidence")
