"""Cases: point sets with ties and lattices, every form of range, several metrics or supplied
distances (square or condensed), L plain and linearized, evaluated well between or exactly at
pair distances. Compared with exhaustive pair counts (pairs at exactly the distance do not count,
those within rounding of it may). Non-trivial: a pair lies exactly at an evaluated distance, or a
metric or distances are given."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import ripley as R
from pbt.core import check
from pointpats import distance_statistics as ds

case = st.fixed_dictionaries({"pts": G.points(3, 20, places=G.near_place, large=80, huge=500), "support": R.support, "metric": st.sampled_from((*R.METRICS, "own cityblock")), "distances": st.sampled_from([None, None, "square", "condensed"]),
                              "function": st.sampled_from(["k", "l", "linearized"])})


def call(ctx, c, a, arg):
    kw = {"support": arg}
    D = R.distances(a, a, c["metric"])
    if c["distances"]:
        kw["distances"] = D.copy() if c["distances"] == "square" else D[np.triu_indices(len(a), 1)]
    else:
        kw["metric"] = R.argument(c["metric"])
    if c["function"] == "k":
        return D, ctx.call("k", ds.k, a, **kw)
    return D, ctx.call("l", ds.l, a, linearized=c["function"] == "linearized", **kw)


@check("pairs", case, quick=2600)
def pairs(c, ctx):
    a = G.arr(c["pts"])
    n = len(a)
    scale = 1.0 if c["metric"] == "canberra" else G.extent(c["pts"])
    # without a metric, the default range is that of Euclidean nearest distances
    nn = R.nearest(a, "euclidean" if c["distances"] else c["metric"])
    arg, s = R.make_support(c["support"], scale, nn.max())
    D, (gs, gv) = call(ctx, c, a, arg)
    ctx.label(c["function"], R.form_of(c["support"]), c["distances"] or c["metric"])
    eps = 1e-9 if c["metric"] == "canberra" else R.slack(a)
    ctx.close(gs, s, "distances evaluated", rtol=1e-9, atol=eps)
    up = D[np.triu_indices(n, 1)]
    area = float(np.prod(a.max(axis=0) - a.min(axis=0)))
    exact = np.round(up * 4096) == up * 4096  # representable on the grid: no rounding to allow for
    exact_s = (np.asarray(gs) * 4096 == np.round(np.asarray(gs) * 4096))[:, None] & exact[None, :] & (c["metric"] != "canberra")
    less = up[None, :] < np.asarray(gs)[:, None]
    lo = np.where(exact_s, less, up[None, :] < np.asarray(gs)[:, None] - eps).sum(axis=1)
    hi = np.where(exact_s, less, up[None, :] < np.asarray(gs)[:, None] + eps).sum(axis=1)
    ctx.interesting(bool((exact_s & (up[None, :] == np.asarray(gs)[:, None])).any()) or c["distances"] is not None or c["metric"] != "euclidean")
    f = 2 * area / n / n
    gv = np.asarray(gv, float)
    ctx.equal(gv.shape, np.shape(gs), "number of values")
    want_lo, want_hi = lo * f, hi * f
    if c["function"] != "k":
        want_lo, want_hi = np.sqrt(want_lo / np.pi), np.sqrt(want_hi / np.pi)
        if c["function"] == "linearized":
            want_lo, want_hi = want_lo - gs, want_hi - gs
    tol = 1e-9 * (np.abs(want_hi).max() + scale)
    bad = ~((gv >= want_lo - tol) & (gv <= want_hi + tol))
    ctx.ok(not bad.any(), lambda: f"{c['function']} at {np.asarray(gs)[bad][0]!r} is {gv[bad][0]!r}, expected {want_lo[bad][0]!r}" + (f" to {want_hi[bad][0]!r}" if want_lo[bad][0] != want_hi[bad][0] else ""))
    if c["function"] != "linearized":
        ctx.ok((np.diff(gv) >= -tol).all(), f"{c['function']} decreases")


@check("transform", case, quick=500)
def transform(c, ctx):
    """L and linearized L from the K of the same arguments."""
    a = G.arr(c["pts"])
    scale = 1.0 if c["metric"] == "canberra" else G.extent(c["pts"])
    arg, _ = R.make_support(c["support"], scale, 1.0)
    _, (s, k) = call(ctx, {**c, "function": "k"}, a, arg)
    _, (s1, l) = call(ctx, {**c, "function": "l"}, a, arg)  # noqa: E741
    _, (s2, z) = call(ctx, {**c, "function": "linearized"}, a, arg)
    ctx.interesting()
    ctx.equal(np.asarray(s1), np.asarray(s), "distances evaluated by L")
    ctx.equal(np.asarray(s2), np.asarray(s), "distances evaluated by linearized L")
    ctx.close(l, np.sqrt(np.asarray(k) / np.pi), "L", rtol=1e-12)
    ctx.close(z, np.sqrt(np.asarray(k) / np.pi) - s, "linearized L", rtol=1e-12, atol=1e-12 * scale)
