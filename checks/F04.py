"""Cases: point sets with ties as array, list, tuples, data frame, GeoSeries, GeoDataFrame or search
tree (scipy KDTree, scikit-learn KDTree and BallTree); all five functions; distances computed
internally or supplied in every layout (for G square or nearest, for K and L square or condensed, for
F matrix or nearest), and distances of wrong shapes, no matrix, invalid metrics and edge correction,
which must be refused. Compared with the same function on the plain array. Non-trivial: a container
other than an array, or supplied distances."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import spatial

from pbt import gens as G
from pbt import ripley as R
from pbt.core import check
from checks.F01 import empty_distances
from pointpats import distance_statistics as ds

TREES = ("scipy KDTree", "sklearn KDTree", "sklearn BallTree")
FORMS = G.ARRAY_FORMS[1:] + G.GEO_FORMS + TREES
base = {"pts": G.points(3, 16, places=G.near_place, large=60), "support": R.support, "function": st.sampled_from(["f", "g", "j", "k", "l"]), "seed": G.small_seed, "p": st.integers(1, 40)}


def container(pts, form):
    if form in TREES:
        import sklearn.neighbors as sn

        a = G.arr(pts)
        return {"scipy KDTree": spatial.KDTree, "sklearn KDTree": sn.KDTree, "sklearn BallTree": sn.BallTree}[form](a)
    return G.as_container(pts, form)


def same(ctx, what, got, want, scale):
    ctx.equal(len(got), 2, f"{what}: parts")
    ctx.close(got[0], want[0], f"{what}: distances", rtol=1e-9, atol=1e-12 * scale)
    ctx.close(got[1], want[1], f"{what}: values", rtol=1e-9, atol=1e-12)


def safe_support(c, a, d):
    """The range, moved off the pair distances (rounding must not decide)."""
    arg, s = R.make_support(c["support"], G.extent(c["pts"]), R.nearest(a).max())
    return arg, s


def off(s, d, eps):
    """distances of the range that no supplied distance comes close to"""
    return np.abs(np.asarray(s)[:, None] - np.asarray(d).ravel()[None, :]).min(axis=1) > eps


@check("containers", st.fixed_dictionaries({**base, "form": st.sampled_from(FORMS), "metric": st.sampled_from(["euclidean", "euclidean", "cityblock", "chebyshev", "own chebyshev"]), "linearized": st.booleans()}), quick=1300)
def containers(c, ctx):
    a = G.arr(c["pts"])
    arg, _ = R.make_support(c["support"], G.extent(c["pts"]), R.nearest(a, c["metric"]).max())
    ctx.label(c["function"], c["form"])
    ctx.interesting()
    kw = {"support": arg, "metric": R.argument(c["metric"])}
    if c["function"] == "f":
        del kw["metric"]
        kw["distances"] = empty_distances(c, a).min(axis=0)
    if c["function"] == "j":
        del kw["metric"]
        kw.update(distances=(R.nearest(a), empty_distances(c, a).min(axis=0)), truncate=False)
    if c["function"] == "l":
        kw["linearized"] = c["linearized"]
    fn = getattr(ds, c["function"])
    want = ctx.call(c["function"], fn, a, **kw)
    got = ctx.call(f"{c['function']} of a {c['form']}", fn, container(c["pts"], c["form"]), **kw)
    same(ctx, f"{c['function']} of a {c['form']}", got, want, G.magnitude(c["pts"]))


@check("sampled", st.fixed_dictionaries({"pts": G.points(3, 12, places=G.near_place, large=60), "function": st.sampled_from(["f", "j"]), "form": st.sampled_from(FORMS), "seed": G.small_seed}), quick=400)
def sampled(c, ctx):
    """Empty-space locations sampled by the function: the same ones for every container."""
    a = G.arr(c["pts"])
    s = np.linspace(0, G.extent(c["pts"]), 9)
    fn = getattr(ds, c["function"])
    ctx.label(c["function"], c["form"])
    ctx.interesting()
    gs, gv = ctx.call(f"{c['function']} of a {c['form']}", fn, container(c["pts"], c["form"]), support=s, **({"truncate": False} if c["function"] == "j" else {}))
    ctx.close(gs, s, "distances evaluated", rtol=1e-12)
    if c["function"] == "j":
        _, g = ds.g(a, support=s)
        ok = np.isfinite(gv) & (gv > 0)
        f = 1 - (1 - g[ok]) / gv[ok]
        s = s[ok]
    else:
        f = np.asarray(gv)
    from checks.D04 import grid
    from pbt import sims as S

    near = R.distances(grid(S.outer({"kind": "points", "points": a.tolist()}), 100), a, "euclidean").min(axis=1)
    p = (near[None, :] < s[:, None]).mean(axis=1)
    bad = np.abs(f - p) > 0.02 + 6.5 * np.sqrt(p * (1 - p) / 1000) + 0.01
    ctx.ok(not bad.any(), lambda: f"F of a {c['form']} is {f.tolist()}, the shares of the box within reach {p.tolist()}")


layout_case = st.fixed_dictionaries({**base, "layout": st.integers(0, 1), "metric": st.sampled_from(["euclidean", "cityblock", "chebyshev"]), "say": st.sampled_from(["nothing", "precomputed", "metric"]), "form": st.sampled_from(("array",) * 3 + FORMS)})


@check("layouts", layout_case, quick=1600)
def layouts(c, ctx):
    """Supplied distances give what is computed internally for the same distances."""
    a = G.arr(c["pts"])
    n = len(a)
    D = R.distances(a, a, c["metric"])
    nn = R.nearest(a, c["metric"])
    arg, s = R.make_support(c["support"], G.extent(c["pts"]), R.nearest(a).max())
    E = empty_distances(c, a)
    up = D[np.triu_indices(n, 1)]
    ctx.label(c["function"], f"layout {c['layout']}", c["say"], "square F" if E.shape[1] == n else "")
    ctx.interesting()
    two = c["layout"] == 0
    kw = {"support": s}
    # what is supplied, and the plainest way of asking for the same
    if c["function"] == "f":
        given = E if two else E.min(axis=0)
        want = s, np.array([(E.min(axis=0) < x).mean() for x in s])
        clear = off(s, E.min(axis=0), R.slack(a))
    elif c["function"] == "g":
        given = D if two else nn
        want = s, np.array([(nn < x).mean() for x in s])
        clear = off(s, nn, R.slack(a))
    elif c["function"] == "j":
        given = (D, E) if two else (nn, E.min(axis=0))
        g, f = (np.array([(d < x).mean() for x in s]) for d in (nn, E.min(axis=0)))
        want = s, np.array([np.nan if x == y == 1 else np.inf if y == 1 else (1 - x) / (1 - y) for x, y in zip(g, f)])
        clear = off(s, nn, R.slack(a)) & off(s, E.min(axis=0), R.slack(a))
        kw["truncate"] = False
    else:
        given = D if two else up
        k = 2 * np.array([(up < x).sum() for x in s]) / n / n * float(np.prod(a.max(axis=0) - a.min(axis=0)))
        want = s, k if c["function"] == "k" else np.sqrt(k / np.pi)
        clear = off(s, up, R.slack(a))
    if c["say"] != "nothing":
        kw["metric"] = "precomputed" if c["say"] == "precomputed" else "cityblock"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gs, gv = ctx.call(f"{c['function']} with distances", getattr(ds, c["function"]), container(c["pts"], c["form"]), distances=given, **kw)
    ctx.close(gs, want[0], "distances evaluated", rtol=1e-12)
    ctx.equal(np.shape(gv), np.shape(want[1]), "number of values")
    ctx.close(np.asarray(gv)[clear], np.asarray(want[1])[clear], f"{c['function']} with supplied distances", rtol=1e-9, atol=1e-12)


bad_case = st.fixed_dictionaries({"pts": G.points(4, 10, places=G.near_place), "function": st.sampled_from(["f", "g", "k", "l", "j"]), "what": st.sampled_from(["rows", "columns", "vector", "no matrix", "metric", "edge"]), "by": st.sampled_from([-2, -1, 1, 2]),
                                  "value": st.sampled_from([5, None, 2.5])})


@check("refusals", bad_case, quick=900)
def refusals(c, ctx):
    a = G.arr(c["pts"])
    n = len(a)
    fn = getattr(ds, c["function"])
    ctx.label(c["function"], c["what"])
    ctx.interesting()
    rng = np.random.default_rng(n)
    m = n + c["by"]
    what = f"{c['function']} of {n} points"
    if c["what"] == "no matrix":
        ctx.refused(f"{what}, metric='precomputed' without distances", (ValueError,), fn, a, metric="precomputed")
    elif c["what"] == "metric":
        ctx.refused(f"{what}, metric={c['value']!r}", (TypeError,), fn, a, metric=c["value"])
    elif c["what"] == "edge":
        ctx.refused(f"{what} with edge correction", (NotImplementedError,), fn, a, edge_correction="ripley")
    else:
        if c["what"] == "vector":
            if c["function"] == "f":
                return  # any number of locations is fine
            bad = rng.random((n * (n - 1) // 2 if c["function"] in "kl" else n) + c["by"])
        elif c["what"] == "columns":
            if c["function"] == "f":
                return
            bad = rng.random((n, m))
        else:
            bad = rng.random((m, n if c["by"] % 2 else m))
        good = rng.random(n)
        given = bad
        if c["function"] == "j":
            given = (bad, good)
            if c["what"] == "rows" and c["by"] > 0:
                given = (good, bad)
        ctx.refused(f"{what} with distances of shape {bad.shape}", (ValueError,), fn, a, distances=given)
