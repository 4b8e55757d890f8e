"""C08: samples follow the exact joint posterior and are independent of each other."""
import math
from itertools import combinations

from .. import bnmodel as M
from ..core import SIMRANDOM, stepping
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, build, load_ebay

LEVEL = "exploration"
RUNS = {"quick": 64, "thorough": 6000}
WALL = {"quick": 120, "thorough": 2400}
RULE = ("one run = one small network, 1-2 pieces of evidence, 5000 samples (1500 for 5-6 variables) drawn in calls of tape-chosen sizes (1 to all) "
        "from a seeded RNG, interleaved with draws under other evidence; frequencies of single variables, pairs, full "
        "assignments and consecutive-sample pairs against exact probabilities by Chernoff bounds at total error 1e-9 per "
        "run; non-trivial = at least two possible assignments; distinct = distinct request schedule")
REAL, STUB = EBAY_REAL, EBAY_STUB
ASSUMPTIONS = EBAY_ASSUME + ["the statistical test accepts deviations its Chernoff bound cannot exclude at 5000 samples "
                             "(about 0.05 in a probability near one half)"]
LOG_ALPHA = math.log(1e-9)


def kl(p, q):
    r = 0.0
    if p > 0:
        r += p * (math.log(p / q) if q > 0 else math.inf)
    if p < 1:
        r += (1 - p) * (math.log((1 - p) / (1 - q)) if q < 1 else math.inf)
    return r


def judge_counts(sim, counts, exact, n, tests, what):
    for key in set(counts) | set(exact):
        c = counts.get(key, 0)
        p = float(exact.get(key, 0))
        if p == 0 and c:
            sim.fail("impossible-sample", "%s %r seen %d times, probability 0" % (what, key, c))
        f = c / n
        # P(freq at least / at most f) <= exp(-n KL(f||p)) : rigorous for every n
        if p > 0 and n * kl(f, p) > -LOG_ALPHA + math.log(2 * tests):
            sim.fail("wrong-frequency", "%s %r: %d of %d samples, exact probability %.6f" % (what, key, c, n, p))


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    if sim.chance(1, 4):
        net = M.gen_net(sim, 5, 6, max_joint=72, binary=True)
        N = 1500
    else:
        N = 5000
        net = M.gen_net(sim, 1, 4, max_joint=36)
    sim.sched("net", net.describe())
    bbn, how = build(sim, E, net)
    SIMRANDOM.seed(sim.draw(2 ** 30))
    sim.note("net", net.describe(), how)
    if sim.run_index % 20 == 0:
        sim.sample = {"net": str(net.describe())}
    evs = [M.gen_evidence(sim, net, max_n=2, possible_only=True) for _ in range(sim.between(1, 2))]
    got = [[] for _ in evs]
    chunk = sim.pick([N, 1000, 250, 50])
    turn = 0
    while any(len(g) < N for g in got):
        k = turn % len(evs)
        turn += 1
        if len(got[k]) >= N:
            continue
        if turn % 8 == 1:
            sim.sched("draw", k, evs[k], chunk)
        with stepping(sim, budget=50_000_000):
            got[k] += bbn.draw_samples(dict(evs[k]), min(chunk, N - len(got[k])))
        if sim.chance(1, 10):
            sim.choose_set_order()
    for ev, samples in zip(evs, got):
        judge(sim, net, ev, samples)
        sim.units["samples"] += len(samples)


def judge(sim, net, ev, samples):
    n = len(samples)
    free = [v for v in net.vars if v not in ev]
    full = {k: p for k, p in net.subset_marginal(net.vars, ev).items()}
    tot = sum(full.values())
    full = {k: p / tot for k, p in full.items() if p}
    for s in samples:
        if set(s) != set(net.vars):
            sim.fail("incomplete-sample", repr(s))
    rows = [tuple(s[v] for v in net.vars) for s in samples]
    fams = [("assignment", lambda r: r, full)]
    idx = {v: i for i, v in enumerate(net.vars)}
    for vs in [(v,) for v in free] + list(combinations(free, 2)):
        ex = {k: p / tot for k, p in net.subset_marginal(vs, ev).items()}
        fams.append(("marginal of %s" % (vs,), lambda r, vs=vs: tuple(r[idx[v]] for v in vs), ex))
    tests = 4 * sum(len(ex) for _, _, ex in fams) + 100
    for what, key, ex in fams:
        counts = {}
        for r in rows:
            counts[key(r)] = counts.get(key(r), 0) + 1
        judge_counts(sim, counts, ex, n, tests, "evidence %r: %s" % (ev, what))
    # independence of consecutive samples: disjoint pairs (0,1), (2,3), ...
    for v in free:
        ex1 = {k[0]: p / tot for k, p in net.subset_marginal([v], ev).items()}
        i = idx[v]
        pairs = {}
        for a, b in zip(rows[0::2], rows[1::2]):
            pairs[(a[i], b[i])] = pairs.get((a[i], b[i]), 0) + 1
        ex = {(x, y): px * py for x, px in ex1.items() for y, py in ex1.items()}
        judge_counts(sim, pairs, ex, n // 2, tests * 4, "evidence %r: consecutive samples of %s" % (ev, v))
    if len(full) > 1:
        sim.nontrivial = True
