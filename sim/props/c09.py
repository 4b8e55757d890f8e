"""C09: declaration order and hash order do not change the model."""
from .. import bnmodel as M
from ..core import stepping
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, QUERY_BUDGET, ask, load_ebay

LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 80000}
RULE = ("one run = one network declared 2-4 times with shuffled factors, dict orders, condition rows, parent and argument "
        "orders, domain orders, each under its own set-order policy, then the same 1-3 queries to every variant; answers "
        "equal each other and the exact posterior, graph text and edges are identical; non-trivial = a network with an "
        "edge; distinct = distinct set of declarations")
REAL, STUB, ASSUMPTIONS = EBAY_REAL, EBAY_STUB, EBAY_ASSUME


def declare(sim, E, net):
    way = sim.draw(3)
    with stepping(sim, budget=QUERY_BUDGET):
        if way == 0:
            conds = M.conditionals(sim, net)
            sim.sched("declare", list(conds))
            return E.build_bbn_from_conditionals(conds)
        fs = M.Factors(sim, net, argspec=sim.draw(2) == 0)
        doms = M.domains_arg(sim, net)
        sim.sched("declare", [f.__name__ for f in fs.functions], fs.args, list(doms))
        if way == 1:
            return E.build_bbn(list(fs.functions), domains=doms)
        return E.build_bbn(*fs.functions, domains=doms)


def run(sim):
    E = load_ebay()
    net = M.gen_net(sim, 1, 7)
    sim.note("net", net.describe())
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    variants = []
    for _ in range(sim.between(2, 4)):
        sim.choose_set_order()
        variants.append(declare(sim, E, net))
    texts = []
    for b in variants:
        sim.choose_set_order()
        with stepping(sim, budget=QUERY_BUDGET):
            texts.append(b.get_graphviz_source())
        edges = {(n.variable_name, c.variable_name) for n in b.nodes for c in n.children}
        back = {(p.variable_name, n.variable_name) for n in b.nodes for p in n.parents}
        want = {(p, v) for v in net.vars for p in net.par[v]}
        sim.check(edges == want and back == want, "wrong-structure",
                  lambda: "children give %r, parents give %r, declared %r" % (sorted(edges), sorted(back), sorted(want)))
    sim.check(len(set(texts)) == 1, "graph-text-differs", lambda: "declarations print differently:\n" + "\n".join(texts))
    for v in net.vars:
        sim.check("  f_%s [" % v in texts[0], "graph-text-incomplete", lambda: "no node for %s in\n%s" % (v, texts[0]))
        for p in net.par[v]:
            sim.check("  f_%s -> f_%s;" % (p, v) in texts[0], "graph-text-incomplete",
                      lambda: "no edge %s->%s in\n%s" % (p, v, texts[0]))
    sim.check(texts[0].count("->") == sum(map(len, net.par.values())), "graph-text-extra", lambda: texts[0])
    for _ in range(sim.between(1, 3)):
        ev = M.gen_evidence(sim, net)
        answers = []
        for b in variants:
            sim.choose_set_order()
            asked = {k: ev[k] for k in sim.shuffled(ev)}
            res = ask(sim, net, b, asked)
            if res is not None:
                M.judge_marginals(sim, net, ev, res, "variant")
            answers.append(res)
            sim.units["queries"] += 1
    if any(net.par.values()):
        sim.nontrivial = True
