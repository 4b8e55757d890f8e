"""C02: the join tree is valid whatever the tie-breaking."""
from .. import bnmodel as M
from ..core import stepping
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, QUERY_BUDGET, build, load_ebay

LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 200000}
RULE = ("one run = one random network (1-14 variables, any number of components), 1-4 join trees each under its own "
        "set-order policy and elimination tie-breaking (default, reversed, random or constant priorities drawn per "
        "node); non-trivial = at least two cliques; distinct = distinct schedule digest (network, policy, priorities)")
REAL, STUB = EBAY_REAL, EBAY_STUB + ["elimination priority function (generated, through its public parameter)"]
ASSUMPTIONS = EBAY_ASSUME
BIG = M.NAME_POOL + ["v%d" % i for i in range(20)]


def validate(sim, net, bbn, jt):
    cliques, seps = list(jt.clique_nodes), list(jt.sepset_nodes)
    sim.check(len(cliques) >= 1, "no-clique", "join tree without cliques")
    ids = [id(n) for n in jt.nodes]
    sim.check(len(ids) == len(set(ids)), "duplicate-node", "a node occurs twice in the join tree")
    sim.check(len(ids) == len(cliques) + len(seps), "foreign-node", "nodes that are neither clique nor sepset")
    cset = {id(c): frozenset(c.variable_names) for c in cliques}
    for c in cliques:
        sim.check(len(cset[id(c)]) == len(list(c.variable_names)), "repeated-variable", "clique %r" % c.variable_names)
        sim.check(cset[id(c)] <= set(net.vars) and cset[id(c)], "foreign-variable", "clique %r" % c.variable_names)
    sim.check(set().union(*cset.values()) == set(net.vars), "variable-missing",
              lambda: "cliques cover %r of %r" % (sorted(set().union(*cset.values())), sorted(net.vars)))
    sim.check(len(seps) == len(cliques) - 1, "not-a-tree", "%d cliques, %d sepsets" % (len(cliques), len(seps)))
    adj = {id(c): [] for c in cliques}
    for s in seps:
        nb = list(s.neighbours)
        sim.check(len(nb) == 2 and nb[0] is not nb[1] and all(id(x) in cset for x in nb), "bad-sepset",
                  "sepset %r has neighbours %r" % (s.variable_names, nb))
        x, y = nb
        want = cset[id(x)] & cset[id(y)]
        sim.check(frozenset(s.variable_names) == want, "bad-sepset",
                  lambda: "sepset %r between %r and %r" % (s.variable_names, sorted(cset[id(x)]), sorted(cset[id(y)])))
        sim.check(any(n is s for n in x.neighbours) and any(n is s for n in y.neighbours), "one-way-link",
                  "sepset %r not linked back" % (s.variable_names,))
        adj[id(x)].append((id(y), want))
        adj[id(y)].append((id(x), want))
    for c in cliques:
        sim.check(all(any(n is s for s in seps) for n in c.neighbours), "foreign-neighbour",
                  "clique %r has a neighbour outside the tree" % c.variable_names)
        sim.check(len(list(c.neighbours)) == len(adj[id(c)]), "one-way-link", "clique %r" % c.variable_names)
        got = sorted(id(x) for x in c.neighbouring_cliques)
        sim.check(got == sorted(y for y, _ in adj[id(c)]), "bad-neighbours", "clique %r" % c.variable_names)

    def reach(start, ok_edge):
        seen, stack = {start}, [start]
        while stack:
            for y, sep in adj[stack.pop()]:
                if y not in seen and ok_edge(y, sep):
                    seen.add(y)
                    stack.append(y)
        return seen
    sim.check(len(reach(id(cliques[0]), lambda y, s: True)) == len(cliques), "not-connected", "join tree is a forest")
    for v in net.vars:
        holders = [k for k in cset if v in cset[k]]
        got = reach(holders[0], lambda y, s: v in s)
        sim.check(got == set(holders), "running-intersection",
                  lambda: "variable %r occurs in %d cliques, %d reachable" % (v, len(holders), len(got)))
    for v in net.vars:
        fam = set(net.par[v]) | {v}
        sim.check(any(fam <= c for c in cset.values()), "family-not-covered",
                  lambda: "family %r of %r fits in no clique" % (sorted(fam), v))
    with stepping(sim, budget=QUERY_BUDGET):
        asg = jt.assign_clusters(bbn)
    count = {}
    for clique, nodes in asg.items():
        sim.check(id(clique) in cset, "assigned-outside", "factor assigned to a clique of another tree")
        for n in nodes:
            count[id(n)] = count.get(id(n), 0) + 1
            v = n.variable_name
            sim.check(set(net.par[v]) | {v} <= cset[id(clique)], "assigned-to-wrong-clique",
                      lambda: "factor of %r assigned to %r" % (v, sorted(cset[id(clique)])))
    for n in bbn.nodes:
        sim.check(count.get(id(n), 0) == 1, "factor-count",
                  "factor of %r assigned %d times" % (n.variable_name, count.get(id(n), 0)))
    return len(cliques)


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    net = M.gen_net(sim, 1, 14, max_parents=sim.between(1, 4), binary=True, names=BIG)
    bbn, how = build(sim, E, net)
    sim.note("net", net.describe(), how)
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe()), "built": how}
    for t in range(sim.between(1, 4)):
        sim.choose_set_order()
        style = sim.draw(4)
        sub = sim.substream()
        seen = {}

        def prio(node, style=style, sub=sub, seen=seen):
            if style == 1:
                base = E.priority_func(node)
                return [-base[0], base[1]]
            if style == 2:
                return [sub.randrange(4), sub.randrange(3)]
            return [0, 2]
        sim.sched("join-tree", net.describe(), style)
        with stepping(sim, budget=QUERY_BUDGET):
            jt = bbn.build_join_tree() if style == 0 else E.build_join_tree(bbn, prio)
        if style:
            sim.fault("adversarial_tie_breaking")
        n = validate(sim, net, bbn, jt)
        sim.units["join_trees"] += 1
        if n > 1:
            sim.nontrivial = True
        if len(net.components()) > 1:
            sim.probe("disconnected")
        if n > 4:
            sim.probe("many_cliques")
