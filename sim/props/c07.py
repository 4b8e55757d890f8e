"""C07: every sample is complete, possible and honours the evidence, for every RNG outcome."""
import math

from .. import bnmodel as M
from ..core import SIMRANDOM, stepping
from .c05 import judge_sample
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, QUERY_BUDGET, build, load_ebay

LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 200000}
RULE = ("one run = one network (zero-probability and near-one states frequent), 1-4 draw_samples calls with possible "
        "evidence while the RNG seam returns adversarial values: 0.0, 2^-53, 1-2^-53, every cumulative probability of "
        "the relevant conditionals +-1 grid step, uniform; node choice bits 0 / uniform; non-trivial = an adversarial "
        "value was consumed; distinct = distinct sequence of RNG outcomes and requests")
REAL, STUB, ASSUMPTIONS = EBAY_REAL, EBAY_STUB, EBAY_ASSUME + [
    "the RNG returns multiples of 2^-53 in [0,1), as Python's does"]
GRID = 2.0 ** -53
EDGE = [0.0, GRID, 1.0 - GRID, 0.5, 1.0 - 2 * GRID, 2.0 ** -30]


def cumulative_values(sim, net, ev):
    """Cumulative sums of conditionals reachable while sampling, in every value order."""
    out = []
    for _ in range(4):
        part = dict(ev)
        rows = [a for a, _ in net.joint() if all(a[k] == v for k, v in ev.items())]
        a = rows[sim.draw(len(rows))]
        for v in net.vars:
            if v not in part and sim.chance(1, 3):
                part[v] = a[v]
        post = net.posterior(part)
        for v in net.vars:
            if v in part:
                continue
            acc, rev = 0.0, 0.0
            dom = net.dom[v]
            for x, y in zip(dom, dom[::-1]):
                acc += float(post[(v, x)])
                rev += float(post[(v, y)])
                out += [acc, rev]
    return out


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    net = M.gen_net(sim, 1, 5, max_joint=300)
    bbn, how = build(sim, E, net)
    sim.note("net", net.describe(), how)
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    SIMRANDOM.seed(sim.draw(2 ** 30))
    used = [0]
    for call in range(sim.between(1, 4)):
        ev = M.gen_evidence(sim, net, possible_only=True)
        pool = EDGE + cumulative_values(sim, net, ev)
        style = sim.draw(4)

        def source(kind, k):
            if kind == "bits":
                return 0 if style == 3 else None
            pick = sim.draw(3) if style else 2
            if pick == 2:
                return None
            base = pool[sim.draw(len(pool))]
            base = math.floor(base / GRID) * GRID + (sim.draw(3) - 1) * GRID
            used[0] += 1
            v = min(max(base, 0.0), 1.0 - GRID)
            sim.sched("random()", v.hex())
            return v
        SIMRANDOM.source = source
        given = dict(ev)
        n = sim.size(1, 4, (40, 150), 60)
        form = sim.draw(3)
        sim.sched("draw", ev, n)
        try:
            with stepping(sim, budget=QUERY_BUDGET * max(1, n // 4)):
                if form == 0:
                    out = bbn.draw_samples(given, n)
                elif form == 1:
                    out = bbn.draw_samples(query=given, n=n)
                elif not ev:
                    out = bbn.draw_samples(n=n)
                else:
                    out = bbn.draw_samples(given, n=n)
        finally:
            SIMRANDOM.source = None
        where = "draw_samples(%r, %d)" % (ev, n)
        sim.check(given == ev, "evidence-mutated", "%s: evidence became %r" % (where, given))
        sim.check(len(out) == n, "wrong-sample-count", "%s returned %d samples" % (where, len(out)))
        sim.check(len({id(s) for s in out}) == n, "aliased-samples", "%s returned one dict twice" % where)
        for s in out:
            judge_sample(sim, net, ev, s, where)
            if s:
                s[sim.pick(sorted(s))] = "scribbled"     # samples belong to the caller
        sim.units["samples"] += n
    if used[0]:
        sim.fault("adversarial_random", used[0])
        sim.nontrivial = True
    if not bbn.draw_samples(n=0) == []:
        sim.fail("wrong-sample-count", "draw_samples(n=0) is not empty")
