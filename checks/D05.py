"""Cases: clustered patterns on every kind of region with two to six clusters, sizes that do and do
not divide, every form of radius and covariance, one or several replications. Every cluster's
size, centre and radius are checked for each point; in cases with many points, the shares of
squared radii and directions (clustered Poisson) and the moments or probability transforms
(clustered normal) are compared with the distribution, failing below a tail of 1e-9 or beyond 6.5
standard errors. Non-trivial: the number of points is no multiple of the number of clusters,
radii differ or are the default, or there are several replications."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.spatial.distance import pdist

from pbt import gens as G
from pbt import sims as S
from pbt.core import check
from pointpats import random as R
from checks.D04 import moments

share = st.sampled_from([0.02, 0.1, 0.25, 0.5])


@st.composite
def case(draw, sims):
    c = draw(S.call(sims, max_n=24))
    many = draw(st.integers(0, 29)) == 17
    k = draw(st.integers(7, 30) if many else st.integers(2, 6))
    c["k"] = k
    c["n"] = draw(st.integers(k, 700 if many else 26))
    if isinstance(c.get("radius"), list):
        c["radius"] = draw(st.lists(share, min_size=k, max_size=k))
    return c


def clusters(pattern, k):
    """Sizes differ by at most one, larger ones first."""
    n = len(pattern)
    sizes = [n // k + (1 if i < n % k else 0) for i in range(k)]
    at = np.cumsum([0] + sizes)
    return [pattern[a:b] for a, b in zip(at[:-1], at[1:])]


@check("poisson", case(("cluster_poisson",)), quick=900)
def poisson(c, ctx):
    f, hull, kw, reg, scale = S.arguments(c)
    k = c["k"]
    ctx.label("default" if c["radius"] is None else c.get("as", "scalar"), c["hull"]["kind"])
    ctx.interesting(c["n"] % k != 0 or isinstance(c["radius"], list) or c["radius"] is None or c["reps"] > 1)
    got = ctx.call("cluster_poisson", f, hull, rng=c["seed"], **kw)
    got = got[None] if c["reps"] == 1 else got
    tol = S.slack(reg)
    for r in got:
        parts = clusters(r, k)
        centers = np.array([p[0] for p in parts])
        for p in centers:
            ctx.ok(reg.contains(p) or reg.dist(p) <= tol, f"centre {p.tolist()} outside the region")
        ctx.equal(len(np.unique(centers, axis=0)), k, "number of distinct centres")
        if c["radius"] is None:
            rad = [pdist(centers).min() / 2] * k
        else:
            rad = [x * scale for x in c["radius"]] if isinstance(c["radius"], list) else [c["radius"] * scale] * k
        for i, (p, ri) in enumerate(zip(parts, rad)):
            d = np.hypot(*(p - p[0]).T).max()
            ctx.ok(d <= ri + tol, f"cluster {i} of {[len(q) for q in parts]}: a point {d!r} from its centre, radius {ri!r}")


@check("normal", case(("cluster_normal",)), quick=300)
def normal(c, ctx):
    f, hull, kw, reg, scale = S.arguments(c)
    k = c["k"]
    ctx.label(f"cov {c['cov']}")
    ctx.interesting(c["n"] % k != 0 or c["cov"] is None or c["reps"] > 1)
    got = ctx.call("cluster_normal", f, hull, rng=c["seed"], **kw)
    got = got[None] if c["reps"] == 1 else got
    tol = S.slack(reg)
    for r in got:
        centers = np.array([p[0] for p in clusters(r, k)])
        for p in centers:
            ctx.ok(reg.contains(p) or reg.dist(p) <= tol, f"centre {p.tolist()} outside the region")
        ctx.equal(len(np.unique(centers, axis=0)), k, "number of distinct centres")
        C = S.covariance(c["cov"], scale)
        if C is not None:
            sd = np.sqrt(np.diag(np.eye(2) * C if np.ndim(C) == 0 else C))
            for p in clusters(r, k):  # rejection by the region can only select among draws
                ctx.ok((np.abs(p - p[0]) < 12 * sd).all(), f"a point {(p - p[0]).tolist()} from its centre, standard deviations {sd.tolist()}")


def copies(ctx, displacements, what):
    """Clusters are drawn separately: most displacements from a centre occur once."""
    if len(displacements) < 4:
        return
    d = np.round(np.vstack(displacements), 9)
    ctx.ok(len(np.unique(d, axis=0)) > 0.6 * len(d), f"{what}: clusters repeat each other's displacements")


def share_test(ctx, flags, p, what):
    k, n = int(np.sum(flags)), len(flags)
    ctx.ok(stats.binom.sf(k - 1, n, p) > 1e-9 and stats.binom.cdf(k, n, p) > 1e-9, f"{what}: {k} of {n}, expected {n * p:.0f}")


many = st.fixed_dictionaries({"hull": S.any_hull(kinds=("bbox", "polygon", "convexhull")), "k": st.integers(2, 5), "each": st.integers(40, 80), "reps": st.integers(1, 6), "seed": G.small_seed,
                              "radius": st.one_of(st.none(), st.lists(st.sampled_from([0.005, 0.02, 0.04]), min_size=5, max_size=5))})


@check("discs", many, quick=150)
def discs(c, ctx):
    hull, _ = G.make_hull(c["hull"])
    reg = S.outer(c["hull"])
    scale = float((reg.bbox[2:] - reg.bbox[:2]).max())
    k, n = c["k"], c["k"] * c["each"]
    rad = None if c["radius"] is None else [r * scale for r in c["radius"][:k]]
    got = ctx.call("cluster_poisson", R.cluster_poisson, hull, size=(n, c["reps"]), n_seeds=k, cluster_radius=rad, rng=c["seed"])
    got = got[None] if c["reps"] == 1 else got
    ctx.label("default" if rad is None else "given")
    unit = []
    for r in got:
        parts = clusters(r, k)
        rs = [pdist([p[0] for p in parts]).min() / 2] * k if rad is None else rad
        unit += [(p[1:] - p[0]) / ri for p, ri in zip(parts, rs) if reg.dist(p[0]) > ri * (1 + 1e-9)]
    if not unit:
        ctx.label("all clusters at the border")
        return
    ctx.interesting()
    copies(ctx, unit, "cluster_poisson")
    u = np.vstack(unit)
    q = (u**2).sum(axis=1)
    for t in (0.1, 0.25, 0.5, 0.8):
        share_test(ctx, q <= t, t, f"points within {t**0.5:.2f} radii")
    for a in range(8):
        t = np.pi * a / 4
        share_test(ctx, u @ [np.cos(t), np.sin(t)] > 0, 0.5, f"points in direction {a}/8 of a turn")
    share_test(ctx, u[:, 0] * u[:, 1] > 0, 0.5, "points on the diagonal quadrants")


spread_case = st.fixed_dictionaries({"k": st.integers(2, 5), "each": st.integers(40, 80), "reps": st.integers(1, 5), "seed": G.small_seed, "unit": st.sampled_from([1.0, 64.0, 0.125]),
                                     "cov": st.sampled_from([None, None, 0.25, 4, [[1.0, 0.0], [0.0, 9.0]], [[4.0, 3.0], [3.0, 4.0]], [[1.0, -0.5], [-0.5, 1.0]]])})


@check("spread", spread_case, quick=100)
def spread(c, ctx):
    box = np.array([-300.0, -300.0, 300.0, 300.0]) * c["unit"] if c["cov"] is None else np.array([-300.0, -300.0, 300.0, 300.0])
    k, n = c["k"], c["k"] * c["each"]
    cov = np.array(c["cov"]) if isinstance(c["cov"], list) else c["cov"]
    got = ctx.call("cluster_normal", R.cluster_normal, box, cov=cov, size=(n, c["reps"]), n_seeds=k, rng=c["seed"])
    got = got[None] if c["reps"] == 1 else got
    ctx.interesting()
    ctx.label(f"cov {c['cov']}")
    offs, pit, every = [], [], []
    for r in got:
        parts = clusters(r, k)
        every += [(p[1:] - p[0]) / np.abs(p[1:] - p[0]).max() for p in parts]
        centers = np.array([p[0] for p in parts])
        if cov is None:
            s = pdist(centers).mean()
            for p in parts:  # each axis a normal truncated at the box
                a, b = (box[:2] - p[0]) / s, (box[2:] - p[0]) / s
                z = (p[1:] - p[0]) / s
                pit.append((stats.norm.cdf(z) - stats.norm.cdf(a)) / (stats.norm.cdf(b) - stats.norm.cdf(a)))
        else:
            offs += [p[1:] - p[0] for p in parts if np.abs(p[0]).max() < 270]
    copies(ctx, every, "cluster_normal")
    if cov is None:
        u = np.vstack(pit)
        for axis in (0, 1):
            for t in (0.1, 0.25, 0.5, 0.75, 0.9):
                share_test(ctx, u[:, axis] <= t, t, f"axis {axis}: points below the {t} quantile")
        for t in (0.25, 0.5):  # about the centre: tells a wider from a narrower spread
            share_test(ctx, np.abs(u - 0.5).max(axis=1) <= t / 2, t * t, f"points in the central {t} square")
    elif offs:
        moments(ctx, np.vstack(offs), np.zeros(2), np.eye(2) * cov if np.ndim(cov) == 0 else cov, f"cluster_normal, cov {c['cov']}")


bad = st.fixed_dictionaries({"k": st.integers(2, 5), "given": st.integers(1, 6), "as": st.sampled_from(["list", "array"])})


@check("wrong_radii", bad, quick=40)
def wrong_radii(c, ctx):
    if c["k"] == c["given"]:
        return
    ctx.interesting()
    rad = [0.1] * c["given"]
    ctx.refused(f"{c['given']} radii for {c['k']} clusters", (AssertionError, ValueError), R.cluster_poisson, np.array([0.0, 0.0, 1.0, 1.0]), size=30,
                n_seeds=c["k"], cluster_radius=np.array(rad) if c["as"] == "array" else rad, rng=1)
