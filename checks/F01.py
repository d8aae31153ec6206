"""Cases: point sets with ties, coincident points and lattices (many equal nearest distances), every
form of evaluation range, distances computed internally (several metrics) or supplied. G is
compared with shares of exhaustively computed nearest distances, F with shares of supplied
distances, and internally sampled F with the area within reach of the pattern (binomial tail below
1e-9 after allowing 0.01 for integration). Non-trivial: tied nearest distances, a range that starts
above zero or ends below the largest distance, or a sampled F."""
import numpy as np
import shapely
from hypothesis import strategies as st
from scipy import stats

from pbt import gens as G
from pbt import ripley as R
from pbt import sims as S
from pbt.core import check
from checks.D04 import grid
from pointpats import distance_statistics as ds

METRICS = ("euclidean", "euclidean", "cityblock", "manhattan", "chebyshev", "canberra", "l1", "infinity", "own cityblock", "own chebyshev")
case = st.fixed_dictionaries({"pts": G.points(3, 20, places=G.near_place, large=80, huge=500), "support": R.support, "metric": st.sampled_from(METRICS), "function": st.sampled_from(["g", "f"]),
                              "supplied": st.booleans(), "seed": G.small_seed, "p": st.integers(1, 40)})


def empty_distances(c, a):
    """Distances from some locations to the pattern."""
    rng = np.random.default_rng(c["seed"])
    lo, hi = a.min(axis=0), a.max(axis=0)
    q = lo + np.round(rng.random((c["p"], 2)) * 32) / 32 * (hi - lo)
    return R.distances(a, q, "euclidean")


def compute(ctx, c):
    """(support, values, the distances they should describe, what, rounding)"""
    a = G.arr(c["pts"])
    metric = c["metric"]
    nn = R.nearest(a, "euclidean" if c["supplied"] else metric)
    scale = G.extent(c["pts"])
    if not c["supplied"] and metric == "canberra":
        scale = 1.0
    arg, s = R.make_support(c["support"], scale, nn.max())
    fn = getattr(ds, c["function"])
    kw = {"support": arg}
    if c["function"] == "f":
        d = empty_distances(c, a).min(axis=0)
        kw["distances"] = d
    elif c["supplied"]:
        d = nn
        kw["distances"] = nn.copy()
    else:
        d = nn
        kw["metric"] = R.argument(metric)
    if c["function"] == "f":  # the range of F comes from the pattern
        nn = R.nearest(a)
        arg, s = R.make_support(c["support"], G.extent(c["pts"]), nn.max())
        kw["support"] = arg
    eps = R.slack(a) if (c["supplied"] or metric != "canberra" or c["function"] == "f") else 1e-9
    gs, gv = ctx.call(c["function"], fn, a, **kw)
    return a, gs, gv, s, d, eps


@check("shares", case, quick=2600)
def shares(c, ctx):
    a, gs, gv, s, d, eps = compute(ctx, c)
    ctx.label(c["function"], R.form_of(c["support"]), "supplied" if c["supplied"] or c["function"] == "f" else c["metric"])
    ctx.interesting(len(np.unique(d)) < len(d) or s[0] > 0 or s[-1] < d.max())
    ctx.close(gs, s, "distances evaluated", rtol=1e-9, atol=eps)
    R.share_between(ctx, gs, gv, d, c["function"].upper(), 2 * eps)
    ctx.ok(np.min(gv) >= 0 and np.max(gv) <= 1, f"values {np.asarray(gv).tolist()}")
    # does not depend on which other distances are evaluated
    if len(gs) > 3 and len(np.unique(gs)) == len(gs):
        sub = np.asarray(gs)[1::2]
        kw = {"distances": d} if c["function"] == "f" or c["supplied"] else {"metric": R.argument(c["metric"])}
        s2, v2 = ctx.call(c["function"], getattr(ds, c["function"]), a, support=sub, **kw)
        R.share_between(ctx, s2, v2, d, f"{c['function'].upper()} at fewer distances", 2 * eps)
        tied = np.abs(np.asarray(d)[None, :] - sub[:, None]).min(axis=1) <= 2 * eps
        ctx.ok(np.allclose(np.asarray(v2)[~tied], np.asarray(gv)[1::2][~tied], rtol=0, atol=1e-12), f"{c['function'].upper()} at fewer distances: {np.asarray(v2).tolist()}, among all {np.asarray(gv)[1::2].tolist()}")


f_case = st.fixed_dictionaries({"pts": G.points(3, 12, places=G.near_place, large=60), "hull": st.one_of(st.none(), S.any_hull(kinds=("bbox", "polygon", "holed", "multi", "thin"), places=st.just((0.0, 0.0, 1.0)))), "seed": G.small_seed,
                               "metric": st.sampled_from([None, None, "euclidean", "cityblock", "chebyshev", "own cityblock"])})


@check("empty_space", f_case, quick=160)
def empty_space(c, ctx):
    """F with empty-space locations sampled by the function itself."""
    hull, a = None, G.arr(c["pts"])
    ctx.interesting()
    if c["hull"] is not None:
        hull, _ = G.make_hull(c["hull"])
        reg = S.outer(c["hull"])
        # the pattern moves into the region's bounding box
        lo, hi = a.min(axis=0), a.max(axis=0)
        a = reg.bbox[:2] + (a - lo) / (hi - lo) * (reg.bbox[2:] - reg.bbox[:2])
        ctx.label(c["hull"]["kind"])
    else:
        reg = S.outer({"kind": "points", "points": a.tolist()})
        ctx.label("default")
    scale = float((reg.bbox[2:] - reg.bbox[:2]).max())
    s = np.linspace(0, scale / 2, 12)
    kw = {"metric": R.argument(c["metric"])} if c["metric"] else {}
    gs, gv = ctx.call("f", ds.f, a, support=s, hull=hull, **kw)
    near = R.distances(grid(reg, 160), a, c["metric"] or "euclidean").min(axis=1)
    n = 1000
    ctx.ok((np.diff(gv) >= 0).all() and gv[0] == 0 and gv[-1] <= 1, f"F {np.asarray(gv).tolist()}")
    for si, v in zip(s, gv):
        p = float((near < si).mean())
        k = v * n
        ctx.ok(abs(k - round(k)) < 1e-6, f"F at {si!r} is {v!r}, no share of {n} locations")
        bad = stats.binom.sf(round(k) - 1, n, min(p + 0.01, 1)) < 1e-9 or stats.binom.cdf(round(k), n, max(p - 0.01, 0)) < 1e-9
        ctx.ok(not bad, f"F at {si!r} is {v!r}; {p:.4f} of the region is nearer than that to a point")
