"""Cases: a call of one of the five simulators (sizes as number, pair or intensity; one or
several replications; scalar, per-cluster and default radii; scalar, matrix and default
covariances) on a box, polygon, thin strip, polygon with a hole, two parts, scipy hull or set of
points, at several places and scales. Shape, finiteness and membership (by an independent
point-in-ring computation) of every point are checked. Non-trivial: the region is not its
bounding box, or there is a single point, or several replications."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import sims as S
from pbt.core import check


def shaped(ctx, got, n, reps):
    want = (n, 2) if reps == 1 else (reps, n, 2)
    ctx.ok(isinstance(got, np.ndarray) and got.shape == want, lambda: f"shape {np.shape(got)}, expected {want}")


def inside(ctx, got, reg, what):
    tol = S.slack(reg)
    for p in np.asarray(got).reshape(-1, 2):
        ctx.ok(np.isfinite(p).all(), f"{what}: not finite: {p.tolist()}")
        ctx.ok(reg.contains(p) or reg.dist(p) <= tol, lambda: f"{what}: {p.tolist()} is {reg.dist(p)!r} outside the region")


@check("simulate", S.call(("poisson", "normal", "cluster_poisson", "cluster_normal"), max_reps=4, big=1200), quick=1300)
def simulate(c, ctx):
    f, hull, kw, reg, scale = S.arguments(c)
    ctx.label(c["sim"], c["hull"]["kind"], c["form"], "several" if c["reps"] > 1 else "one")
    ctx.interesting(c["hull"]["kind"] not in ("bbox", "points") or c["n"] == 1 or c["reps"] > 1)
    got = ctx.call(c["sim"], f, hull, rng=c["seed"], **kw)
    shaped(ctx, got, c["n"], c["reps"])
    inside(ctx, got, reg, c["sim"])


@check("strauss", S.call(("strauss",), max_reps=3, big=300), quick=350)
def strauss(c, ctx):
    f, hull, kw, reg, scale = S.arguments(c)
    ctx.label(c["hull"]["kind"], c["form"])
    ctx.interesting(c["hull"]["kind"] not in ("bbox", "points") or c["reps"] > 1)
    try:
        got = f(hull, rng=c["seed"], **kw)
    except RuntimeError:
        ctx.ok(c["gamma"] < 1, "refused although there is no interaction")
        ctx.label("refused")
        return
    shaped(ctx, got, c["n"], c["reps"])
    inside(ctx, got, reg, "strauss")


degenerate = st.fixed_dictionaries({"hull": S.any_hull(), "seed": G.small_seed, "sim": st.sampled_from(["poisson", "normal", "cluster_poisson", "cluster_normal"]), "reps": st.integers(1, 3)})


@check("none_or_one", degenerate, quick=250)
def none_or_one(c, ctx):
    """No points at all; one point per cluster; more clusters than points are refused."""
    f, hull, kw, reg, _ = S.arguments({**c, "n": 3, "form": "size", "k": 3, "radius": None, "cov": None, "center": None})
    ctx.interesting()
    ctx.label(c["sim"])
    if c["sim"] in ("poisson", "normal"):
        got = ctx.call(c["sim"], f, hull, size=(0, c["reps"]), rng=c["seed"])
        shaped(ctx, got, 0, c["reps"])
        return
    got = ctx.call(c["sim"], f, hull, rng=c["seed"], **kw)
    shaped(ctx, got, 3, c["reps"])
    inside(ctx, got, reg, c["sim"])
    ctx.refused("two points in three clusters", (Exception,), f, hull, **{**kw, "size": (2, c["reps"])})
