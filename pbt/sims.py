"""Generated calls of the simulators, as JSON, and how to make them."""
import numpy as np
import shapely
from hypothesis import strategies as st

from . import gens as G
from . import oracle as O
from pointpats import random as R

SIMS = ("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss")


def outer(case):
    """The Region of a hull case, 'points' (their bounding box) included."""
    if case["kind"] == "points":
        a = np.array(case["points"], float)
        case = {"kind": "bbox", "bbox": [*a.min(axis=0), *a.max(axis=0)]}
    return O.region(case)


@st.composite
def any_hull(draw, places=G.near_place, kinds=("bbox", "polygon", "holed", "multi", "convexhull", "thin", "points")):
    if draw(st.sampled_from(kinds)) == "points":
        return {"kind": "points", "points": draw(G.points(4, 8, places=places))}
    return draw(G.hull_case(tuple(k for k in kinds if k != "points"), places=places))


@st.composite
def call(draw, sims=SIMS, max_n=14, max_reps=3, min_n=None, places=G.near_place, min_reps=1, big=0):
    """A simulator call on a region: lengths are in shares of the region's extent.  With big, now and
    then up to so many points, or more than a handful of replications or clusters."""
    sim = draw(st.sampled_from(sims))
    c = {"sim": sim, "hull": draw(any_hull(places)), "seed": draw(G.small_seed)}
    k = draw(st.integers(2, 4)) if sim.startswith("cluster") else 1
    low = max(k if sim.startswith("cluster") else (2 if sim == "strauss" else 1), min_n or 0)
    c["n"] = draw(st.integers(low, max(max_n, low)))
    c["reps"] = draw(st.integers(min_reps, max_reps))
    if big and draw(st.integers(0, 15)) == 11:
        c["n"], c["reps"] = draw(st.one_of(
            st.tuples(st.integers(max_n + 1, big), st.integers(1, 2)), st.tuples(st.integers(low, max(max_n, low)), st.integers(max_reps + 1, max(big // 20, max_reps + 2)))))
        if sim.startswith("cluster") and c["n"] > 60:
            k = draw(st.integers(k, 30))
    forms = ["size", "size1"] if c["reps"] == 1 else ["size"]
    if sim in ("poisson", "cluster_poisson", "strauss"):
        forms.append("intensity")
    c["form"] = draw(st.sampled_from(forms))
    share = st.sampled_from([0.02, 0.1, 0.25, 0.5])
    if sim == "cluster_poisson":
        c["k"] = k
        c["radius"] = draw(st.one_of(st.none(), share, st.lists(share, min_size=k, max_size=k)))
        if isinstance(c["radius"], list):
            c["as"] = draw(st.sampled_from(["list", "tuple", "array", "column", "generator"]))
    if sim == "cluster_normal":
        c["k"] = k
        c["cov"] = draw(st.sampled_from([None, 0.02, 0.2, [0.1, 0.0, 0.1], [0.1, 0.5, 0.1], [0.05, 0.0, 0.3]]))
    if sim == "normal":
        c["cov"] = draw(st.sampled_from([None, 0.1, 0.4, [0.2, 0.0, 0.2], [0.2, -0.5, 0.2], [0.1, 0.0, 0.3]]))
        # a corner of the bounding box may be far outside the region: only with a wide spread
        c["center"] = draw(st.sampled_from([None, None, "corner" if c["cov"] in (None, 0.4) else None, "vertex"]))
    if sim == "strauss":
        c["gamma"] = draw(st.sampled_from([0.1, 0.5, 0.9, 1.0]))
        c["radius"] = draw(st.sampled_from([0.0, 0.03, 0.1]))
        c["n_iter"] = draw(st.sampled_from([0, 5, 60]))
    return c


def covariance(spec, scale):
    """None, a share for the standard deviation, or [sd_x, correlation, sd_y]."""
    if spec is None:
        return None
    if isinstance(spec, list):
        a, rho, b = spec[0] * scale, spec[1], spec[2] * scale
        return np.array([[a * a, rho * a * b], [rho * a * b, b * b]])
    return float((spec * scale) ** 2)


def radii(c, scale):
    r = c["radius"]
    if r is None:
        return None
    if not isinstance(r, list):
        return r * scale
    rs = [x * scale for x in r]
    how = c.get("as", "list")
    if how == "array":
        return np.array(rs)
    if how == "column":
        return np.array(rs).reshape(-1, 1)
    if how == "tuple":
        return tuple(rs)
    if how == "generator":
        return (x for x in rs)
    return rs


def arguments(c):
    """(function, hull, keyword arguments without rng, Region, expected number of points)"""
    hull, _ = G.make_hull(c["hull"])
    reg = outer(c["hull"])
    scale = float((reg.bbox[2:] - reg.bbox[:2]).max())
    kw = {}
    n = c["n"]
    if c["form"] == "size":
        kw["size"] = (n, c["reps"])
    elif c["form"] == "size1":
        kw["size"] = n
    else:
        kw["intensity"] = (n + 0.4) / reg.area
        if c["reps"] > 1 or c["seed"] % 2:
            kw["size"] = c["reps"]
    sim = c["sim"]
    if sim == "cluster_poisson":
        kw.update(n_seeds=c["k"], cluster_radius=radii(c, scale))
    if sim == "cluster_normal":
        kw.update(n_seeds=c["k"], cov=covariance(c["cov"], scale))
    if sim == "normal":
        kw["cov"] = covariance(c["cov"], scale)
        if c["center"] == "corner":
            kw["center"] = (float(reg.bbox[0]), float(reg.bbox[1]))
        elif c["center"] == "vertex":
            kw["center"] = np.array(reg.parts[0][0])
    if sim == "strauss":
        kw.update(gamma=c["gamma"], r=c["radius"] * scale, n_iter=c["n_iter"])
    return getattr(R, sim), hull, kw, reg, scale


def slack(reg):
    return 1e-9 * float((reg.bbox[2:] - reg.bbox[:2]).max()) + 1e-12 * float(np.abs(reg.bbox).max())


def as_shapely(reg):
    parts = shapely.unary_union([shapely.Polygon(r) for r in reg.parts])
    for h in reg.holes:
        parts = parts.difference(shapely.Polygon(h))
    return parts
