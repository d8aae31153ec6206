"""Cases: legacy processes on windows of one or two parts, with and without a hole, convex or not,
with n, number of parents, radius, samples and each switch drawn, and the global generator seeded
per case. Sizes, membership (own point-in-ring computation), conditioning, cluster structure and
pattern conversion are checked; the share of points in drawn half-planes against their area, and
drawn sizes against the Poisson distribution, with tails of 1e-9. Non-trivial: the window is not a
box, or conditioning or pattern output is on, or n is no multiple of the number of parents."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.cluster.hierarchy import fcluster, linkage

import pointpats
from pbt import gens as G
from pbt import oracle as O
from pbt import sims as S
from pbt.core import check
from checks.D04 import cuts, shares

windows = G.hull_case(("bbox", "polygon", "polygon", "holed", "multi", "thin"))


def make_window(hull):
    reg = O.region(hull)
    parts = [[tuple(p) for p in r] for r in reg.parts]
    holes = [[tuple(p) for p in r] for r in reg.holes]
    return pointpats.Window(parts, holes) if holes else pointpats.Window(parts), reg


case = st.fixed_dictionaries({"hull": windows, "n": st.one_of(st.integers(1, 3), st.integers(4, 25)), "samples": st.integers(1, 4), "conditioning": st.booleans(), "asPP": st.booleans(), "seed": G.small_seed,
                              "parents": st.one_of(st.none(), st.integers(1, 8)), "radius": st.sampled_from([0.01, 0.05, 0.2]), "keep": st.booleans()})


def build(c, w, scale, **change):
    c = {**c, **change}
    np.random.seed(c["seed"])
    if c["parents"] is None:
        return pointpats.PoissonPointProcess(w, c["n"], c["samples"], conditioning=c["conditioning"], asPP=c["asPP"])
    return pointpats.PoissonClusterPointProcess(w, c["n"], c["parents"], c["radius"] * scale, c["samples"], keep=c["keep"], asPP=c["asPP"], conditioning=c["conditioning"])


@check("process", case, quick=900)
def process(c, ctx):
    w, reg = make_window(c["hull"])
    scale = float((reg.bbox[2:] - reg.bbox[:2]).max())
    ctx.label(c["hull"]["kind"], "poisson" if c["parents"] is None else "cluster", "conditioning" if c["conditioning"] else "fixed size")
    ctx.interesting(c["hull"]["kind"] != "bbox" or c["conditioning"] or c["asPP"] or (c["parents"] and c["n"] % c["parents"]))
    plain = ctx.call("the process", build, c, w, scale, asPP=False)
    ctx.equal(sorted(plain.realizations), list(range(c["samples"])), "realizations")
    children = None if c["parents"] is None else -(-c["n"] // c["parents"])
    sizes = [len(plain.realizations[i]) for i in range(c["samples"])]
    tol = S.slack(reg)
    for i, pts in plain.realizations.items():
        ctx.ok(pts.shape == (sizes[i], 2) and np.isfinite(pts).all(), f"realization {i}: {pts!r}")
        for p in pts:
            ctx.ok(reg.contains(p) or reg.dist(p) <= tol, f"{p.tolist()} lies outside the window")
        ctx.equal(len(np.unique(pts, axis=0)), len(pts), "distinct points")
        if c["conditioning"]:
            ctx.equal(sizes[i], plain.parameters[i]["n"], f"size of realization {i} and the number drawn for it")
            if children:
                ctx.equal(sizes[i], plain.num_parents[i] * children, f"size of realization {i}, {plain.num_parents[i]} parents of {children}")
        else:
            ctx.equal(sizes[i], c["n"], f"size of realization {i}")
            if children:
                ctx.equal(plain.num_parents[i], c["parents"], "number of parents")
    again = ctx.call("the process", build, c, w, scale, asPP=False)
    for i in plain.realizations:
        ctx.equal(again.realizations[i], plain.realizations[i], "the same global seed again")
        for j in range(i):
            if sizes[i] and sizes[j]:
                ctx.ok(not np.array_equal(plain.realizations[i], plain.realizations[j]), f"realizations {j} and {i} are the same")
    if c["asPP"]:
        pats = ctx.call("the process", build, c, w, scale, asPP=True)
        for i, pp in pats.realizations.items():
            ctx.ok(isinstance(pp, pointpats.PointPattern), f"realization {i}: {pp!r}")
            ctx.equal(np.asarray(pp.points), plain.realizations[i], "points of the pattern")
            ctx.ok(pp.window is w, "the pattern has another window")


realize_case = st.fixed_dictionaries({"hull": windows, "n": st.integers(1, 40), "parents": st.integers(1, 6), "keep": st.booleans(), "conditioning": st.booleans(), "seed": G.small_seed})


@check("clusters", realize_case, quick=350)
def clusters(c, ctx):
    """With a radius tiny against the window, clusters can be told apart."""
    w, reg = make_window(c["hull"])
    scale = float((reg.bbox[2:] - reg.bbox[:2]).max())
    mag = float(np.abs(reg.bbox).max())
    r = 1e-5 * scale
    tol = 1e-9 * scale + 1e-12 * mag
    c = {**c, "samples": 1, "asPP": False, "radius": 1e-5}
    p = ctx.call("the process", build, c, w, scale)
    children = -(-c["n"] // c["parents"])
    n = p.parameters[0]["n"]
    ctx.label("keep" if c["keep"] else "children only", "conditioning" if c["conditioning"] else "fixed size")
    if n == 0:
        ctx.equal(len(p.realizations[0]), 0, "size of an empty realization")
        return
    want = p.num_parents[0] if c["conditioning"] else -(-n // children)
    ctx.interesting(children > 1)
    got = np.asarray(ctx.call("realize", p.realize, n))
    ctx.equal(got.shape, (want * (children + (1 if c["keep"] else 0)), 2), "points of a realization before the window applies")
    ctx.ok(want <= c["parents"] or c["conditioning"], f"{want} parents, {c['parents']} requested")
    if len(got) == 1:
        return
    groups = fcluster(linkage(got, "single"), 2 * r + tol, "distance")
    labels, counts = np.unique(groups, return_counts=True)
    # two parents within 4 radii of each other have a probability of about 1e-8 on these windows
    ctx.equal(len(labels), want, "number of clusters")
    ctx.ok((counts == counts[0]).all(), f"cluster sizes {counts.tolist()}")
    for g in labels:
        q = got[groups == g]
        D = O.dmat(q)
        ctx.ok(D.max() <= 2 * r + tol, f"a cluster of diameter {D.max()!r}, radius {r!r}")
        if c["keep"]:
            ctx.ok(D.max(axis=1).min() <= r + tol, f"no point of a cluster is within the radius {r!r} of all others: {D.max(axis=1).min()!r}")
    b = reg.bbox
    ctx.ok((got >= b[:2] - r - tol).all() and (got <= b[2:] + r + tol).all(), "a cluster outside the window's bounding box")
    final = p.realizations[0]
    ctx.ok(len(final) < 2 or len(np.unique(fcluster(linkage(final, "single"), 2 * r + tol, "distance"))) >= 1, "")


big_case = st.fixed_dictionaries({"hull": windows, "cuts": cuts, "seed": G.small_seed})


@check("uniform", big_case, quick=60)
def uniform(c, ctx):
    w, reg = make_window(c["hull"])
    ctx.interesting()
    ctx.label(c["hull"]["kind"])
    np.random.seed(c["seed"])
    p = ctx.call("PoissonPointProcess", pointpats.PoissonPointProcess, w, 100, 15)
    shares(ctx, np.vstack([p.realizations[i] for i in range(15)]), reg, c["cuts"], lambda g: np.ones(len(g)), "PoissonPointProcess")


disc_case = st.fixed_dictionaries({"seed": G.small_seed, "radius": st.sampled_from([0.5, 1.0, 100.0]), "center": st.tuples(st.integers(-50, 50), st.integers(-50, 50)).map(list), "burn": st.sampled_from([1, 2, 5]), "n": st.sampled_from([1, 7, 400, 400])})


@check("discs", disc_case, quick=80)
def discs(c, ctx):
    from checks.D05 import share_test

    np.random.seed(c["seed"])
    p = ctx.call("runif_in_circle", pointpats.process.runif_in_circle, c["n"], radius=c["radius"], center=tuple(c["center"]), burn=c["burn"])
    ctx.equal(p.shape, (c["n"], 2), "shape")
    u = (p - c["center"]) / c["radius"]
    q = (u**2).sum(axis=1)
    ctx.ok((q <= 1 + 1e-9).all(), f"a point {q.max()**0.5!r} radii from the centre")
    ctx.interesting()
    if c["n"] >= 100:
        for t in (0.25, 0.5, 0.8):
            share_test(ctx, q <= t, t, f"points within {t**0.5:.2f} radii")
        for a in range(8):
            share_test(ctx, u @ [np.cos(np.pi * a / 4), np.sin(np.pi * a / 4)] > 0, 0.5, f"points in direction {a}/8")


@check("drawn_sizes", st.fixed_dictionaries({"n": st.sampled_from([3, 10, 40]), "parents": st.sampled_from([None, 4, 10]), "seed": G.small_seed}), quick=40)
def drawn_sizes(c, ctx):
    """With lambda conditioning the sizes follow the Poisson distribution."""
    w = pointpats.Window([(0.0, 0.0), (0.0, 1.0), (1.0, 1.0), (1.0, 0.0)])
    ctx.interesting()
    np.random.seed(c["seed"])
    k = 60
    if c["parents"] is None:
        p = ctx.call("PoissonPointProcess", pointpats.PoissonPointProcess, w, c["n"], k, conditioning=True)
        lam, sizes = c["n"], [len(p.realizations[i]) for i in range(k)]
    else:
        p = ctx.call("PoissonClusterPointProcess", pointpats.PoissonClusterPointProcess, w, c["n"], c["parents"], 0.1, k, conditioning=True)
        each = -(-c["n"] // c["parents"])
        lam, sizes = c["parents"], [len(p.realizations[i]) / each for i in range(k)]
    total = round(sum(sizes))
    ctx.ok(stats.poisson.sf(total - 1, k * lam) > 1e-9 and stats.poisson.cdf(total, k * lam) > 1e-9, f"{total} drawn over {k} samples, expected {k * lam}")
    ctx.ok(len(set(sizes)) > 1, f"all {k} sizes are {sizes[0]}")
    v = np.var(sizes) / lam
    ctx.ok(0.25 < v < 4, f"the variance of the sizes is {v:.2f} times their mean")
