"""Cases: small point sets with ties and coincident points, or sixty to ninety points so that
the trees split, a metric (named or a function) and k up to n-1; neighbours compared with the
full distance matrix under that metric; the Euclidean ones also in a process without
scikit-learn. Non-trivial: coincident points, k > 1 or a non-Euclidean metric."""
import numpy as np
from hypothesis import strategies as st

from pbt import alt
from pbt import gens as G
from pbt.core import Violation, check
from pointpats import geometry as geo
from checks.A02 import verify_neighbors


def pair(metric):
    if metric in ("euclidean", "l2", "minkowski", "callable_l2"):
        return lambda d, a, b: np.hypot(d[..., 0], d[..., 1])
    if metric in ("manhattan", "cityblock", "l1", "callable_l1"):
        return lambda d, a, b: np.abs(d).sum(axis=-1)
    if metric in ("chebyshev", "infinity"):
        return lambda d, a, b: np.abs(d).max(axis=-1)
    if metric == "canberra":
        def f(d, a, b):
            s = np.abs(a) + np.abs(b)
            return np.where(s == 0, 0, np.abs(d) / np.where(s == 0, 1, s)).sum(axis=-1)
        return f
    if metric == "haversine":
        return lambda d, a, b: 2 * np.arcsin(np.sqrt(np.sin(d[..., 0] / 2) ** 2 + np.cos(a[..., 0]) * np.cos(b[..., 0]) * np.sin(d[..., 1] / 2) ** 2))
    raise ValueError(metric)


def l1_function(p, q):
    return float(abs(p[0] - q[0]) + abs(p[1] - q[1]))


def l2_function(p, q):
    return float(((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5)


METRICS = ["euclidean", "l2", "minkowski", "manhattan", "cityblock", "l1", "chebyshev", "infinity", "canberra", "haversine", "callable_l1", "callable_l2"]


@st.composite
def case(draw, metrics=tuple(METRICS)):
    m = draw(st.sampled_from(metrics))
    if draw(st.integers(0, 7)) == 0:
        n, s = draw(st.integers(60, 90)), draw(st.integers(1, 10**6))
        g = draw(st.sampled_from([5, 12, 4096]))
        pts = (np.random.default_rng(s).integers(-g, g, (n, 2)) / 4.0).tolist()
        k = draw(st.integers(1, 8))
    else:
        pts = draw(G.points(3, 14, places=G.near_place, flat_ok=True, large=70, huge=300))
        k = draw(st.integers(1, len(pts) - 1))
    if m == "haversine":  # latitude and longitude in radians
        f = 1.5 / max(np.abs(pts).max(), 1.0)
        pts = [[x * f, y * f] for x, y in pts]
    return {"pts": pts, "k": k, "metric": m, "form": draw(st.sampled_from(["array", "list", "frame"]))}


@check("metric", case(), quick=2000)
def metric(c, ctx):
    a = G.arr(c["pts"])
    m, k = c["metric"], c["k"]
    D = pair(m)(a[:, None, :] - a[None, :, :], a[:, None, :], a[None, :, :])
    off = D[~np.eye(len(a), dtype=bool)]
    ctx.interesting(k > 1 or (off == 0).any() or m not in ("euclidean", "l2"))
    ctx.label(m, "coincident" if (off == 0).any() else "distinct")
    fn = {"callable_l1": l1_function, "callable_l2": l2_function}.get(m, m)
    tree = ctx.call(f"build_best_tree({m})", geo.build_best_tree, G.as_container(c["pts"], c["form"]), fn)
    d, i = ctx.call("k_neighbors", geo.k_neighbors, tree, a, k)
    ctx.ok(np.shape(d) == (len(a), k) and np.shape(i) == (len(a), k), f"k_neighbors: shapes {np.shape(d)}, {np.shape(i)}")
    if m == "haversine":
        D = np.where(D < 1e-7, 0, D)
        d = np.where(np.asarray(d) < 1e-7, 0, d)
    np.fill_diagonal(D, 0)
    verify_neighbors(ctx, f"k_neighbors({m}, k={k})", i, d, D, k, True)


@check("scipy_tree", case(("euclidean",)), quick=400)
def scipy_tree(c, ctx):
    """k_neighbors of a scipy tree, as PointPattern.knn uses it."""
    from scipy.spatial import KDTree

    a = G.arr(c["pts"])
    D = pair("l2")(a[:, None, :] - a[None, :, :], None, None)
    off = D[~np.eye(len(a), dtype=bool)]
    ctx.interesting(c["k"] > 1 or (off == 0).any())
    d, i = ctx.call("k_neighbors", geo.k_neighbors, KDTree(a), a, c["k"])
    verify_neighbors(ctx, f"k_neighbors(scipy, k={c['k']})", i, d, D, c["k"], True)


@check("without_sklearn", case(("euclidean", "l2", "manhattan", "chebyshev", "haversine")), quick=240, shards=2)
def without_sklearn(c, ctx):
    a = G.arr(c["pts"])
    m, k = c["metric"], c["k"]
    ctx.label(m)
    ctx.interesting()
    try:
        d, i = alt.call(["sklearn"], "knn", c["pts"], m, k)
    except alt.Refused as e:
        if m in ("euclidean", "l2") or e.kind != "KeyError":
            raise Violation(f"without scikit-learn, {m} neighbours: {e}") from e
        return
    ctx.ok(m in ("euclidean", "l2"), f"without scikit-learn the metric {m} is accepted")
    D = pair("l2")(a[:, None, :] - a[None, :, :], None, None)
    verify_neighbors(ctx, f"without scikit-learn, k={k}", np.array(i), np.array(d), D, k, True)


@check("unknown", st.sampled_from(["euclid", "foo", "L2", "l3", "", "manhatten", "nearest"]), quick=20)
def unknown(c, ctx):
    ctx.interesting()
    ctx.refused(f"metric {c!r}", (KeyError,), geo.build_best_tree, np.array([[0.0, 1.0], [2.0, 3.0]]), c)
