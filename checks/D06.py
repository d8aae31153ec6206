"""Cases: Strauss simulations of 6 to 30 points on boxes, polygons, strips and other regions of
several scales. Pair counts over 20 replications are compared with complete randomness (own
uniform sampler) and between interaction parameters; and exact relations between runs with the
same seed: no interaction makes the radius irrelevant, a radius below all distances makes the
interaction irrelevant, a power-of-two scale of region and radius scales the points. Non-trivial:
complete randomness would give at least four close pairs, or the relation compares two results."""
import numpy as np
import shapely
from hypothesis import strategies as st
from scipy.spatial.distance import pdist

from pbt import gens as G
from pbt import sims as S
from pbt.core import check
from pointpats import random as R

REPS = 20
regions = S.any_hull(kinds=("bbox", "polygon", "holed", "multi", "convexhull", "points"))
pairs_case = st.fixed_dictionaries({"hull": regions, "n": st.integers(12, 26), "want": st.integers(5, 10), "seed": G.small_seed, "n_iter": st.sampled_from([500, 900])})


def uniform(reg, n, seed):
    """n locations uniform over the region, by rejection."""
    rng = np.random.default_rng([n, seed])
    g, out, have = S.as_shapely(reg), [], 0
    b = reg.bbox
    while have < n:
        xy = rng.uniform(b[:2], b[2:], (4 * n, 2))
        xy = xy[shapely.contains_xy(g, xy[:, 0], xy[:, 1])]
        out.append(xy)
        have += len(xy)
    return np.vstack(out)[:n]


def close(pattern, r):
    return int((pdist(pattern) < r).sum())


@check("pairs", pairs_case, quick=24)
def pairs(c, ctx):
    hull, _ = G.make_hull(c["hull"])
    reg = S.outer(c["hull"])
    n = c["n"]
    csr = uniform(reg, 400 * n, c["seed"]).reshape(400, n, 2)
    # the radius at which complete randomness has about the wanted number of close pairs
    r = float(np.quantile(np.concatenate([pdist(p) for p in csr]), c["want"] / (n * (n - 1) / 2)))
    counts = np.array([close(p, r) for p in csr])
    mean, sd = counts.mean(), counts.std()
    ctx.label(c["hull"]["kind"])
    ctx.interesting(mean >= 4)

    def run(gamma, n_iter=c["n_iter"]):
        got = ctx.call(f"strauss gamma={gamma}", R.strauss, hull, size=(n, REPS), gamma=gamma, r=r, n_iter=n_iter, rng=c["seed"])
        ctx.equal(got.shape, (REPS, n, 2), "shape")
        tol = S.slack(reg)
        for p in got.reshape(-1, 2):
            ctx.ok(reg.contains(p) or reg.dist(p) <= tol, f"{p.tolist()} lies outside the region")
        return np.array([close(p, r) for p in got])

    strong, weak, none = run(0.02), run(0.4), run(1.0)
    ctx.ok(abs(none.mean() - mean) < 6.5 * sd * (1 / REPS + 1 / 400) ** 0.5, f"without interaction {none.mean():.2f} close pairs, complete randomness {mean:.2f} (sd {sd:.2f})")
    se = ((weak.var() + none.var()) / REPS) ** 0.5
    ctx.ok(weak.mean() < mean - 0.1 * mean + 4 * se, f"gamma 0.4: {weak.mean():.2f} close pairs, complete randomness {mean:.2f}")
    ctx.ok(strong.mean() < 0.5 * mean, f"gamma 0.02: {strong.mean():.2f} close pairs, complete randomness {mean:.2f}")
    # attraction, weak enough for the chain not to run away in its few hundred moves
    more = run(1 + 0.6 * n / (2 * c["want"]), 400)
    ctx.ok(more.mean() > 1.4 * mean, f"gamma above one: {more.mean():.2f} close pairs, complete randomness {mean:.2f}")
    ctx.ok(strong.mean() <= weak.mean() + 4 * ((strong.var() + weak.var()) / REPS) ** 0.5, f"gamma 0.02 gives {strong.mean():.2f} close pairs, 0.4 {weak.mean():.2f}")


rel_case = st.fixed_dictionaries({"hull": S.any_hull(places=st.sampled_from([(0.0, 0.0, 1.0), (0.0, 0.0, 64.0), (0.0, 0.0, 0.015625)])), "n": st.integers(2, 10), "reps": st.integers(1, 3), "seed": G.small_seed,
                                  "n_iter": st.sampled_from([20, 80]), "gamma": st.sampled_from([0.05, 0.3, 0.7]), "r": st.sampled_from([0.05, 0.2]), "scale": st.sampled_from([0.125, 8.0, 1024.0]),
                                  "what": st.sampled_from(["radius irrelevant", "gamma irrelevant", "scale"])})


def scaled(hull, f):
    out = dict(hull)
    if "bbox" in out:
        out["bbox"] = [v * f for v in out["bbox"]]
    for k in ("rings", "holes"):
        if k in out:
            out[k] = [r and [[x * f, y * f] for x, y in r] for r in out[k]]
    if "points" in out:
        out["points"] = [[x * f, y * f] for x, y in out["points"]]
    return out


def attempt(hull, **kw):
    """The points, or 'refused'."""
    try:
        return R.strauss(G.make_hull(hull)[0], **kw)
    except RuntimeError as e:
        if "too large" not in str(e):
            raise
        return "refused"


@check("relations", rel_case, quick=350)
def relations(c, ctx):
    reg = S.outer(c["hull"])
    size = float((reg.bbox[2:] - reg.bbox[:2]).max())
    kw = {"size": (c["n"], c["reps"]), "n_iter": c["n_iter"], "rng": c["seed"]}
    ctx.label(c["what"])
    ctx.interesting()
    if c["what"] == "radius irrelevant":
        a = ctx.call("strauss", attempt, c["hull"], gamma=1.0, r=c["r"] * size, **kw)
        b = ctx.call("strauss", attempt, c["hull"], gamma=1.0, r=0.5 * size, **kw)
        what = "without interaction, another radius"
    elif c["what"] == "gamma irrelevant":
        a = ctx.call("strauss", attempt, c["hull"], gamma=c["gamma"], r=1e-12 * size, **kw)
        b = ctx.call("strauss", attempt, c["hull"], gamma=1.0, r=1e-12 * size, **kw)
        what = "with a radius below every distance, another gamma"
    else:
        a = ctx.call("strauss", attempt, c["hull"], gamma=c["gamma"], r=c["r"] * size, **kw)
        b = ctx.call("strauss", attempt, scaled(c["hull"], c["scale"]), gamma=c["gamma"], r=c["r"] * size * c["scale"], **kw)
        what = f"region and radius scaled by {c['scale']}"
        if not isinstance(a, str) and not isinstance(b, str):
            b = b / c["scale"]
    if isinstance(a, str) or isinstance(b, str):
        ctx.ok(isinstance(a, str) and isinstance(b, str), f"{what}: {a if isinstance(a, str) else 'points'} and {b if isinstance(b, str) else 'points'}")
        return
    ctx.close(b, a, what, rtol=1e-9, atol=1e-9 * size)
    d = [pdist(p).min() for p in np.reshape(a, (-1, c["n"], 2)) if c["n"] > 1]
    ctx.ok(min(d, default=1) > 0, "a point occurs twice")
