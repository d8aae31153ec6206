"""Cases: 3000 simulated points per case. Poisson and (default or given) truncated normal patterns
on every kind of region: the share of points in drawn half-planes and wedges against numerical
integration of the density over the region; normal patterns in a region so wide that truncation
plays no part: mean and covariance against those requested. A share fails when its binomial
tail is below 1e-9 even after moving the probability by the integration error (0.01); a moment
when it is more than 6.5 standard errors off. Non-trivial: the region is not a box, the density is
not uniform, or the covariance is a matrix."""
import math

import numpy as np
import shapely
from hypothesis import strategies as st
from scipy import stats

from pbt import gens as G
from pbt import sims as S
from pbt.core import check
from pointpats import random as R

N = 3000
cut = st.fixed_dictionaries({"at": st.tuples(st.integers(1, 15), st.integers(1, 15)).map(list), "angle": st.integers(0, 31), "wedge": st.booleans()})


def side(xy, spec, reg):
    """Which of the locations lie in the half-plane or quadrant."""
    b = reg.bbox
    o = b[:2] + np.array(spec["at"]) / 16.0 * (b[2:] - b[:2])
    t = 2 * np.pi * spec["angle"] / 32
    d = xy - o
    u = d @ np.array([math.cos(t), math.sin(t)]) >= 0
    if spec["wedge"]:
        u &= d @ np.array([-math.sin(t), math.cos(t)]) >= 0
    return u


def grid(reg, k=500):
    b = reg.bbox
    xs = b[0] + (np.arange(k) + 0.5) / k * (b[2] - b[0])
    ys = b[1] + (np.arange(k) + 0.5) / k * (b[3] - b[1])
    xy = np.array(np.meshgrid(xs, ys)).reshape(2, -1).T
    return xy[shapely.contains_xy(S.as_shapely(reg), xy[:, 0], xy[:, 1])]


def shares(ctx, pts, reg, cuts, weight, what):
    g = grid(reg)
    w = weight(g)
    for spec in cuts:
        p = float(w[side(g, spec, reg)].sum() / w.sum())
        k = int(side(pts, spec, reg).sum())
        lo, hi = max(p - 0.01, 0.0), min(p + 0.01, 1.0)
        bad = stats.binom.sf(k - 1, len(pts), hi) < 1e-9 or stats.binom.cdf(k, len(pts), lo) < 1e-9
        ctx.ok(not bad, f"{what}: {k} of {len(pts)} points in {spec}, where {p:.4f} of the probability is")


cuts = st.lists(cut, min_size=8, max_size=8)
poisson_case = st.fixed_dictionaries({"hull": S.any_hull(), "cuts": cuts, "seed": G.small_seed, "how": st.sampled_from(["size", "intensity", "replications"])})


@check("uniform", poisson_case, quick=120)
def uniform(c, ctx):
    hull, _ = G.make_hull(c["hull"])
    reg = S.outer(c["hull"])
    ctx.label(c["hull"]["kind"], c["how"])
    ctx.interesting(c["hull"]["kind"] not in ("bbox", "points"))
    kw = {"size": {"size": N}, "intensity": {"intensity": (N + 0.5) / reg.area}, "replications": {"size": (N // 100, 100)}}[c["how"]]
    pts = ctx.call("poisson", R.poisson, hull, rng=c["seed"], **kw).reshape(-1, 2)
    ctx.equal(len(pts), N, "number of points")
    ctx.equal(len(np.unique(pts, axis=0)), N, "number of distinct points")
    shares(ctx, pts, reg, c["cuts"], lambda g: np.ones(len(g)), "poisson")


normal_case = st.fixed_dictionaries({"hull": S.any_hull(), "cuts": cuts, "seed": G.small_seed,
                                     "cov": st.sampled_from([None, None, 0.25, 0.5, [0.3, 0.0, 0.3], [0.3, 0.6, 0.3], [0.2, 0.0, 0.5]]),
                                     "center": st.sampled_from([None, None, "vertex", "middle"]), "replications": st.booleans()})


@check("truncated_normal", normal_case, quick=80)
def truncated_normal(c, ctx):
    hull, _ = G.make_hull(c["hull"])
    reg = S.outer(c["hull"])
    kind = c["hull"]["kind"]
    ctx.label(kind, f"cov {c['cov']}", f"center {c['center']}")
    ctx.interesting()
    w, h = reg.bbox[2:] - reg.bbox[:2]
    scale = float(max(w, h))
    cov = S.covariance(c["cov"], scale)
    center = {"vertex": reg.parts[0][0], "middle": ((reg.bbox[:2] + reg.bbox[2:]) / 2).tolist(), None: None}[c["center"]]
    if center is None:
        mu = np.array(reg.parts[0]).mean(axis=0) if kind == "convexhull" else reg.centroid
        if kind == "convexhull" and len(hull.vertices) != len(reg.parts[0]):
            return
    else:
        mu = np.array(center)
    C = np.eye(2) * (scale / 2) ** 2 if cov is None else np.atleast_2d(cov) if np.ndim(cov) == 2 else np.eye(2) * cov
    n = 50 * int(24 * max(0.15, reg.area / (w * h)))  # fewer where most draws are rejected
    pts = ctx.call("normal", R.normal, hull, center=center, cov=cov, size=(n // 50, 50) if c["replications"] else n, rng=c["seed"]).reshape(-1, 2)
    inv = np.linalg.inv(C)
    shares(ctx, pts, reg, c["cuts"], lambda g: np.exp(-0.5 * np.einsum("ij,jk,ik->i", g - mu, inv, g - mu)), "normal")


@check("default_centre", st.fixed_dictionaries({"hull": S.any_hull(), "seed": G.small_seed, "replications": st.booleans()}), quick=200)
def default_centre(c, ctx):
    """Concentrated patterns show where the centre is."""
    hull, _ = G.make_hull(c["hull"])
    reg = S.outer(c["hull"])
    kind = c["hull"]["kind"]
    if kind == "convexhull":
        if len(hull.vertices) != len(reg.parts[0]):
            return
        mu = np.array(reg.parts[0]).mean(axis=0)
    else:
        mu = np.asarray(reg.centroid)
    shape = S.as_shapely(reg)
    room = shape.boundary.distance(shapely.Point(mu))
    scale = float(max(reg.bbox[2:] - reg.bbox[:2]))
    if not shape.contains(shapely.Point(mu)) or room < 1e-3 * scale or np.abs(reg.bbox).max() > 1e6 * scale:
        ctx.label("centre not inside")
        return
    ctx.label(kind)
    ctx.interesting(np.abs(mu - (reg.bbox[:2] + reg.bbox[2:]) / 2).max() > room / 10)
    sd = room / 6
    pts = ctx.call("normal", R.normal, hull, cov=float(sd * sd), size=(100, 4) if c["replications"] else 400, rng=c["seed"]).reshape(-1, 2)
    moments(ctx, pts, mu, np.eye(2) * sd * sd, "normal, default centre")


sd = st.sampled_from([0.25, 1.0, 3.0])
wide_case = st.fixed_dictionaries({
    "cov": st.one_of(st.builds(lambda v: {"scalar": v}, st.sampled_from([1, 4, 0.25, 2.0, 9.0])),
                     st.builds(lambda a, b: {"matrix": [[a * a, 0.0], [0.0, b * b]]}, sd, sd),
                     st.builds(lambda a, r: {"matrix": [[a * a, r * a * a], [r * a * a, a * a]]}, sd, st.sampled_from([-0.75, -0.25, 0.5, 0.9])),
                     st.builds(lambda a, b: {"stack": [[[a * a, 0.5 * a * a], [0.5 * a * a, a * a]], [[b * b, 0.0], [0.0, 1.0]]]}, sd, sd)),
    "center": st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(list), "form": st.sampled_from(["tuple", "list", "array"]),
    "shape": st.sampled_from(["box", "polygon"]), "seed": G.small_seed,
})


@check("wide_normal", wide_case, quick=120)
def wide_normal(c, ctx):
    box = np.array([-200.0, -200.0, 200.0, 200.0])
    hull = box if c["shape"] == "box" else shapely.box(*box)
    (kind, spec), = c["cov"].items()
    ctx.label(kind)
    ctx.interesting(kind != "scalar")
    center = {"tuple": tuple, "list": list, "array": np.array}[c["form"]](c["center"])
    reps = len(spec) if kind == "stack" else 1
    got = ctx.call("normal", R.normal, hull, center=center, cov=spec if kind == "scalar" else np.array(spec), size=(N // reps, reps), rng=c["seed"])
    got = got if reps > 1 else got[None]
    for i, pts in enumerate(got):
        C = np.eye(2) * spec if kind == "scalar" else np.array(spec[i] if kind == "stack" else spec)
        moments(ctx, pts, np.array(c["center"], float), C, f"normal, cov {C.tolist()}")


def moments(ctx, pts, mu, C, what):
    n = len(pts)
    m = pts.mean(axis=0)
    se = np.sqrt(np.diag(C) / n)
    ctx.ok((np.abs(m - mu) < 6.5 * se).all(), lambda: f"{what}: mean {m.tolist()}, centre {mu.tolist()}, standard errors {se.tolist()}")
    d = pts - mu
    Sg = d.T @ d / n
    se = np.sqrt((np.outer(np.diag(C), np.diag(C)) + C**2) / n)
    ctx.ok((np.abs(Sg - C) < 6.5 * se).all(), lambda: f"{what}: covariance {Sg.tolist()}, standard errors {se.tolist()}")
    # squared Mahalanobis distances are exponential: tells a normal pattern from another of that covariance
    q = np.einsum("ij,jk,ik->i", d, np.linalg.inv(C), d)
    for t in (0.5, 1.5, 4.0):
        p = math.exp(-t / 2)
        k = int((q > t).sum())
        ctx.ok(stats.binom.sf(k - 1, n, p) > 1e-9 and stats.binom.cdf(k, n, p) > 1e-9, f"{what}: {k} of {n} points beyond squared distance {t}, expected {n * p:.0f}")
