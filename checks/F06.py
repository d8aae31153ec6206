"""Cases: 120 kept simulations per case, of patterns of 3 to 24 points in regions of every kind (the
observed points' bounding box by default), all five tests, several metrics. Their mean at eight
distances is compared with that of 3000 patterns placed uniformly in the region by rejection and
evaluated by exhaustive computation (7 standard errors, shared empty-space locations and rare
events allowed for); for J, whose mean has no use, the shares of simulated values below the
reference's median. Simulated G are shares of the number of points. Patterns that are extremely
clustered or regular must fall on the documented side of every simulation. Non-trivial: the region
is not the observed bounding box, or the pattern extreme."""
import numpy as np
import shapely
from hypothesis import strategies as st

from pbt import gens as G
from pbt import ripley as R
from pbt import sims as S
from pbt.core import check
from pointpats import distance_statistics as ds

N, M = 120, 3000
KINDS = ("bbox", "polygon", "holed", "multi", "convexhull", "thin")
case = st.fixed_dictionaries({"pts": G.points(3, 24, places=st.just((0.0, 0.0, 1.0))), "hull": st.one_of(st.sampled_from([None, "bbox", "convex"]), S.any_hull(kinds=KINDS), S.any_hull(kinds=KINDS)),
                              "test": st.sampled_from(["f", "g", "j", "k", "l"]), "metric": st.sampled_from(["euclidean", "euclidean", "cityblock", "chebyshev"]), "linearized": st.booleans(), "reach": st.sampled_from([0.1, 0.25, 0.5]), "seed": G.small_seed})


def uniform(reg, count, rng):
    shape = S.as_shapely(reg)
    out = np.empty((0, 2))
    b = reg.bbox
    while len(out) < count:
        xy = b[:2] + rng.random((count, 2)) * (b[2:] - b[:2])
        out = np.vstack([out, xy[shapely.contains_xy(shape, xy[:, 0], xy[:, 1])]])
    return out[:count]


def pair_distances(P, metric):
    """(M, n, n) distances within each of M patterns"""
    d = np.abs(P[:, :, None, :] - P[:, None, :, :])
    if metric == "cityblock":
        return d.sum(axis=-1)
    if metric == "chebyshev":
        return d.max(axis=-1)
    return np.hypot(d[..., 0], d[..., 1])


def reference(c, reg, n, s, rng):
    """(M, len(s)) values of the function for uniform patterns"""
    P = uniform(reg, M * n, rng).reshape(M, n, 2)
    t = c["test"]
    D = np.concatenate([pair_distances(p, c["metric"]) for p in np.array_split(P, 10)])
    if t in "gj":
        i = np.arange(n)
        D[:, i, i] = np.inf
        nn = D.min(axis=2)
        g = (nn[:, :, None] < s).mean(axis=1)
        if t == "g":
            return g
    if t in "fj":
        E = uniform(reg, 400, rng)
        f = np.empty((M, len(s)))
        for m in range(M):
            f[m] = (R.distances(E, P[m], c["metric"]).min(axis=1)[:, None] < s).mean(axis=0)
        if t == "f":
            return f
        with np.errstate(all="ignore"):
            return (1 - g) / (1 - f)
    iu = np.triu_indices(n, 1)
    up = D[:, iu[0], iu[1]]
    pairs = np.array([(up < x).sum(axis=1) for x in s]).T
    area = (P.max(axis=1) - P.min(axis=1)).prod(axis=1)
    k = 2 * pairs * area[:, None] / n / n
    if t == "k":
        return k
    k = np.sqrt(k / np.pi)
    return k - s if c["linearized"] else k


def region(c, a):
    if isinstance(c["hull"], dict):
        return S.outer(c["hull"]), G.make_hull(c["hull"])[0]
    if c["hull"] == "convex":
        return S.outer({"kind": "convexhull", "points": a.tolist()}), "convex"
    return S.outer({"kind": "points", "points": a.tolist()}), c["hull"]


@check("uniform", case, quick=100)
def simulated(c, ctx):
    a = G.arr(c["pts"])
    reg, hull = region(c, a)
    if isinstance(c["hull"], dict):  # the pattern lies in the region's bounding box
        lo, hi = a.min(axis=0), a.max(axis=0)
        a = reg.bbox[:2] + (a - lo) / (hi - lo) * (reg.bbox[2:] - reg.bbox[:2])
    n, t = len(a), c["test"]
    scale = float(np.sqrt(reg.area))
    s = np.linspace(0, scale * c["reach"], 9)
    kw = {"support": s, "metric": c["metric"]}
    if hull is not None:
        kw["hull"] = hull
    if t == "l":
        kw["linearized"] = c["linearized"]
    if t == "j":
        kw["truncate"] = False
    ctx.label(t, c["hull"]["kind"] if isinstance(c["hull"], dict) else str(c["hull"]), c["metric"])
    ctx.interesting(isinstance(c["hull"], dict) or c["hull"] == "convex")
    what = f"{t}_test of {n} points"
    res = ctx.call(what, getattr(ds, f"{t}_test"), a, keep_simulations=True, n_simulations=N, n_jobs=1, **kw)
    sims = np.asarray(res.simulations, float)
    ctx.equal(sims.shape, (N, len(s)), f"{what}: simulations")
    ref = reference(c, reg, n, s, np.random.default_rng(c["seed"]))
    if t == "g":
        ctx.ok(np.allclose(sims * n, np.round(sims * n), atol=1e-9), f"{what}: simulated G are no shares of {n} points")
    if t == "f":
        ctx.ok(np.allclose(sims * 1000, np.round(sims * 1000), atol=1e-6), f"{what}: simulated F are no shares of 1000 locations")
    if t == "j":
        for i in range(1, len(s)):
            x, y = sims[:, i], ref[:, i]
            med = np.nanmedian(y)
            if not np.isfinite(med) or np.isnan(y).mean() > 0.01:
                continue
            for cut in (med, np.quantile(y[~np.isnan(y)], 0.2)):
                # thresholds J takes with positive probability decide nothing
                lo, hi = (y < cut * (1 - 1e-6)).mean(), (y <= cut * (1 + 1e-6)).mean()
                share = (x <= cut).mean()
                slack = 0.2 + 6.5 * np.sqrt(0.25 / N)
                ctx.ok(lo - slack <= share <= hi + slack, f"{what}: at {s[i]!r} {share:.3f} of the simulated J are up to {cut!r}, which {lo:.3f} to {hi:.3f} of uniform patterns are")
        return
    var = ref.var(axis=0)
    unit = {"f": 0.05, "g": 2 / n, "k": 2 * reg.area * 2 / n / n, "l": np.sqrt(2 * reg.area * 2 / n / n / np.pi)}[t]
    allow = 7 * np.sqrt(var * (1 / N + 1 / M) + (ref.mean(axis=0) * (1 - ref.mean(axis=0)) * (1 / 1000 + 1 / 400) if t == "f" else 0)) + 12 / N * unit
    off = np.abs(sims.mean(axis=0) - ref.mean(axis=0))
    bad = off > allow
    ctx.ok(not bad.any(), lambda: f"{what} in {ctx.labels}: mean of {N} simulations at {s[bad][0]!r} is {sims.mean(axis=0)[bad][0]!r}, of uniform patterns {ref.mean(axis=0)[bad][0]!r} (allowing {allow[bad][0]!r})")
    # patterns are drawn anew each time
    mine, theirs = len(np.unique(np.round(sims, 9), axis=0)), len(np.unique(np.round(ref[:N], 9), axis=0))
    ctx.ok(mine >= 0.4 * theirs, f"{what}: {mine} of {N} simulated functions are distinct, {theirs} of as many uniform patterns")


extreme = st.fixed_dictionaries({"test": st.sampled_from(["f", "g", "j", "k", "l"]), "pattern": st.sampled_from(["clustered", "regular"]), "hull": st.sampled_from(["given", "default"]), "side": st.integers(6, 9),
                                 "place": G.near_place, "linearized": st.booleans(), "shift": st.integers(0, 3)})


@check("extremes", extreme, quick=120)
def extremes(c, ctx):
    """Clustered: G, K, L above and F, J below every simulation; regular: the other side."""
    m = c["side"]
    ox, oy, u = c["place"]
    i, j = np.meshgrid(np.arange(m), np.arange(m))
    grid = np.column_stack([i.ravel(), j.ravel()]).astype(float)
    if c["pattern"] == "clustered":
        # four tight clumps near the corners, of the same extent as the lattice
        corner = np.round(grid / (m - 1)) * (m - 1)
        a = corner + (grid - corner) * 0.02
    else:
        a = grid
    a = a * u + np.array([ox, oy])
    b = np.array([*a.min(axis=0), *a.max(axis=0)])
    pad = 0.5 * u
    hull = None if c["hull"] == "default" else b + np.array([-pad, -pad, pad, pad])
    t = c["test"]
    # regular: below the spacing there is no pair, and everything is within 0.75 of a point
    s = (np.array([0.0, 0.5, 0.8, 0.95]) if t != "f" else np.array([0.0, 0.6, 0.72])) * u
    if c["pattern"] == "clustered":
        s = np.array([0.0, 0.4, 0.6]) * u
    kw = {"support": s, "n_simulations": 39, "n_jobs": 1, "keep_simulations": True}
    if hull is not None:
        kw["hull"] = hull
    if t == "j":
        kw["truncate"] = False
    if t == "l":
        kw["linearized"] = c["linearized"]
    ctx.label(t, c["pattern"], c["hull"])
    ctx.interesting()
    res = ctx.call(f"{t}_test", getattr(ds, f"{t}_test"), a, **kw)
    above = (t in "gkl") == (c["pattern"] == "clustered")
    o, sims = np.asarray(res.statistic)[1:], np.asarray(res.simulations)[:, 1:]
    right = o > sims if above else o < sims
    right |= np.isnan(sims) | (np.isinf(o) if t == "j" else False)
    ctx.ok(right.all(), lambda: f"{t}_test of a {c['pattern']} pattern: observed {o.tolist()} is not {'above' if above else 'below'} all simulations, {(np.nanmax(sims, axis=0) if above else np.nanmin(sims, axis=0)).tolist()}")
    fine = ~np.isnan(sims).any(axis=0) & np.isfinite(o)
    ctx.ok(np.allclose(np.asarray(res.pvalue)[1:][fine], 1 / 40), f"p-values {np.asarray(res.pvalue)[1:].tolist()} of a {c['pattern']} pattern, {t}_test")
