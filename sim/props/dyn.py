"""Shared by C21, C25: reading and judging dynamic data."""
import numpy as np


def split(node):
    v, k = node.rsplit("_lag", 1)
    return v, int(k)


def judge(sim, g, df, n, nodes, drawn, where, drift=None, prehistory=None, scale=1.0, used_all=False):
    """The frame is a stretch of the process that ``g`` describes.

    drawn: every noise value handed out (any order), or None.  drift: {node of lag 0: value}.
    prehistory: number of rows simulated before the returned ones (earlier values are zero), or None if unknown.
    """
    cols = list(df.columns)
    sim.check(len(cols) == len(nodes) and set(cols) == set(nodes), "wrong-columns",
              lambda: "%s: columns %r, nodes %r" % (where, cols, sorted(nodes)))
    vals = np.asarray(df.values, dtype=float)
    sim.check(vals.shape == (n, len(cols)), "wrong-shape", lambda: "%s: shape %r, expected %d rows" % (where, vals.shape, n))
    sim.check(list(df.index) == list(range(n)), "wrong-index", lambda: "%s: index %r" % (where, list(df.index)[:5]))
    at = {c: vals[:, k] for k, c in enumerate(cols)}
    big = 1 + np.abs(vals[np.isfinite(vals)]).max(initial=0)
    tol = 1e-9 * big
    for c in cols:
        v, k = split(c)
        if k == 0:
            continue
        newer = at["%s_lag%d" % (v, k - 1)]
        sim.check(np.array_equal(at[c][1:], newer[:-1]), "lag-mislabelled",
                  lambda: "%s: column %r is not %r one step earlier" % (where, c, "%s_lag%d" % (v, k - 1)))
        if prehistory is not None and prehistory < k:
            sim.check(not at[c][:k - prehistory].any(), "lag-before-start",
                      lambda: "%s: column %r starts with %r" % (where, c, at[c][:k].tolist()))
    resid = {}
    for c in cols:
        if split(c)[1]:
            continue
        r = at[c].copy()
        if drift is not None:
            r = r - drift[c]
        for u in g.predecessors(c):
            w = g.edges[u, c].get("weight", 1.0)
            r = r - w * at[u]
        resid[c] = r
    if drawn is not None and len(drawn):
        match(sim, np.concatenate(list(resid.values())), np.asarray(drawn, dtype=float), tol, scale, where)
    return resid


def match(sim, resid, drawn, tol, scale, where):
    """Every residual is one of the drawn noise values, each used once."""
    best = None
    for f in {1.0, float(scale)}:
        pool = np.sort(drawn * f)
        r = np.sort(resid)
        # greedy matching of sorted lists (both continuous): r[i] -> next unused pool value within tol
        j, bad = 0, None
        for x in r:
            while j < len(pool) and pool[j] < x - tol:
                j += 1
            if j >= len(pool) or pool[j] > x + tol:
                bad = x
                break
            j += 1
        if bad is None:
            return
        best = bad if best is None else best
    sim.fail("not-following-the-graph", "%s: after removing drift and parents, %r remains, which is no drawn noise value" % (
        where, float(best)))
