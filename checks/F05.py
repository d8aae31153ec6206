"""Cases: all five tests on point sets with ties, every form of range, hulls of all kinds, metrics,
supplied distances, 0 to 30 simulations kept or not, L linearized, J truncated or not. The reported
range and statistic are compared with the function itself (for F and J sampled internally: with a
distribution function of the sampled number of locations), the p-values with a recount from the
kept simulations; the p-values of runs that do not keep their simulations are compared with those of
the same generator state that do. Non-trivial: p-values were recounted from kept simulations."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import ripley as R
from pbt import sims as S
from pbt.core import check, seed_everything
from checks.F01 import empty_distances
from pointpats import distance_statistics as ds

case = st.fixed_dictionaries({"pts": G.points(3, 14, places=G.near_place, large=45, huge=250), "support": R.support, "test": st.sampled_from(["f", "g", "j", "k", "l"]), "metric": st.sampled_from(["euclidean", "euclidean", "cityblock", "chebyshev", "own cityblock"]), "seed": G.small_seed, "p": st.integers(1, 30),
                              "distances": st.booleans(), "n": st.integers(1, 24), "keep": st.sampled_from([True, True, True, False, None]), "truncate": st.sampled_from([True, False, None]), "linearized": st.booleans(),
                              "hull": st.sampled_from([None, None, "bbox", "convex", "array", "polygon"]), "form": st.sampled_from(["array", "array", "list", "geoseries", "geodataframe"])})


def make(c):
    a = G.arr(c["pts"])
    nn = R.nearest(a, "euclidean" if c["distances"] else c["metric"])
    arg, s = R.make_support(c["support"], G.extent(c["pts"]), nn.max())
    kw = {"support": arg}
    t = c["test"]
    if c["distances"]:
        E = empty_distances(c, a).min(axis=0)
        D = R.distances(a, a, "euclidean")
        kw["distances"] = {"f": E, "g": nn, "j": (nn, E)}.get(t, D)
    else:
        kw["metric"] = R.argument(c["metric"])
    if t == "l" and c["linearized"]:
        kw["linearized"] = True
    lo, hi = a.min(axis=0), a.max(axis=0)
    h = {None: None, "bbox": "bbox", "convex": "convex", "array": np.array([*lo, *hi])}.get(c["hull"])
    if c["hull"] == "polygon":
        import shapely

        h = shapely.box(*(lo - (hi - lo) / 4), *hi)
    test_kw = {"n_jobs": 1, "n_simulations": c["n"]}
    if h is not None:
        test_kw["hull"] = h
    if c["keep"] is not None:
        test_kw["keep_simulations"] = c["keep"]
    if t == "j" and c["truncate"] is not None:
        test_kw["truncate"] = c["truncate"]
    return a, s, kw, test_kw


def recount(stat, sims):
    return np.array([(1 + min(sum(v >= o for v in col), sum(v <= o for v in col))) / (len(col) + 1) for o, col in zip(stat, sims.T)])


# the default range of an F or J test follows the metric
FIXED = ({"pts": [[0.0, 3.0], [0.5, 0.0], [-0.5, 0.0]], "support": None, "test": "f", "metric": "cityblock", "seed": 0, "p": 1, "distances": False, "n": 1, "keep": True, "truncate": True, "linearized": False, "hull": None, "form": "array"},)


@check("report", case, quick=1100, examples=FIXED)
def report(c, ctx):
    a, s, kw, test_kw = make(c)
    t = c["test"]
    pts = G.as_container(c["pts"], c["form"]) if c["form"] != "list" else a.tolist()
    if c["form"] == "list":
        pts = a  # tests take arrays and geometry containers
    ctx.label(t, R.form_of(c["support"]), "distances" if c["distances"] else c["metric"], f"keep {c['keep']}")
    test = getattr(ds, f"{t}_test")
    res = ctx.call(f"{t}_test", test, pts, **kw, **test_kw)
    n, what = c["n"], f"{t}_test"
    cut = t == "j" and c["truncate"] is not False
    # the reported function
    fs = None
    if t in "gkl" or c["distances"]:
        fs, fv = getattr(ds, t)(a, **kw, **({"truncate": cut} if t == "j" else {}))
        ctx.close(res.support, fs, f"{what}: range", rtol=1e-12)
        ctx.close(res.statistic, fv, f"{what}: statistic", rtol=1e-9, atol=1e-12)
    elif not cut:
        ctx.close(res.support, s, f"{what}: range", rtol=1e-9, atol=R.slack(a))
    m = len(res.support)
    if t == "f" and not c["distances"]:
        v = np.asarray(res.statistic)
        ctx.ok((np.diff(v) >= 0).all() and v[0] >= 0 and v[-1] <= 1 and np.allclose(v * 1000, np.round(v * 1000), atol=1e-6), f"F {v.tolist()} is no distribution function of 1000 locations")
    if t == "j":
        v = np.asarray(res.statistic)
        ctx.ok(not cut or np.isfinite(v).all(), f"truncated J {v.tolist()}")
        if not c["distances"]:
            _, g = ds.g(a, support=np.asarray(s), metric=R.argument(c["metric"]))
            ok = np.isfinite(v) & (v > 0)
            f = 1 - (1 - np.asarray(g)[:m][ok]) / v[ok]
            ctx.ok((np.diff(f) > -1e-9).all() and np.allclose(f * 1000, np.round(f * 1000), atol=1e-5), f"the F implied by J is {f.tolist()}")
    # the same length everywhere
    p = np.asarray(res.pvalue)
    ctx.equal(np.shape(res.statistic), (m,), f"{what}: statistics")
    ctx.equal(p.shape, (m,), f"{what}: p-values")
    ctx.ok(bool(((p >= 1 / (n + 1) - 1e-15) & (p <= 1)).all()), f"{what}: p-values {p.tolist()} with {n} simulations")
    ctx.ok(np.allclose(p * (n + 1), np.round(p * (n + 1)), atol=1e-9), f"{what}: p-values {p.tolist()} are no shares of {n} + 1")
    sims = res.simulations
    if not c["keep"]:
        ctx.ok(sims is None, f"{what}: simulations {np.shape(sims)} kept without being asked for")
        seed_everything(c["seed"])
        one = ctx.call(what, test, pts, **kw, **test_kw)
        seed_everything(c["seed"])
        two = ctx.call(what, test, pts, **kw, **{**test_kw, "keep_simulations": True})
        ctx.close(one.pvalue, two.pvalue, f"{what}: p-values without and with the simulations kept", rtol=1e-12)
        ctx.close(one.statistic, two.statistic, f"{what}: statistic without and with the simulations kept", rtol=1e-12)
        res, sims, p = two, two.simulations, np.asarray(two.pvalue)
        m = len(res.support)
    ctx.equal(np.shape(sims), (n, m), f"{what}: simulations kept")
    col = np.isfinite(res.statistic) & ~np.isnan(sims).any(axis=0)
    ctx.interesting(col.any())
    want = recount(np.asarray(res.statistic)[col], sims[:, col])
    ctx.close(p[col], want, f"{what}: p-values of the kept simulations", rtol=1e-12)
    if t in "fgk":
        ctx.ok((np.diff(sims, axis=1) >= -1e-12).all(), f"{what}: a simulated function decreases")


@check("none", st.fixed_dictionaries({"pts": G.points(3, 10, places=G.near_place), "test": st.sampled_from(["f", "g", "j", "k", "l"]), "n": st.sampled_from([0, 0, -1]), "keep": st.booleans(), "support": st.sampled_from([True, True, None, 7])}), quick=120)
def none(c, ctx):
    """Without simulations: the function, no p-value, and a warning."""
    a = G.arr(c["pts"])
    s = np.linspace(0, G.extent(c["pts"]) / 4, 5) if c["support"] is True else c["support"]
    ctx.interesting()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = ctx.call(f"{c['test']}_test", getattr(ds, f"{c['test']}_test"), a, support=s, n_simulations=c["n"], n_jobs=1, keep_simulations=c["keep"])
    ctx.ok(any("simulations" in str(x.message) for x in w), "no warning that nothing was simulated")
    m = len(res.support)
    ctx.equal(np.shape(res.statistic), (m,), "statistics")
    ctx.ok(np.shape(res.pvalue) == (m,) and np.isnan(res.pvalue).all(), f"p-values {res.pvalue!r} of no simulations")
    ctx.ok(res.simulations is None if not c["keep"] else np.shape(res.simulations) == (0, m), f"simulations {res.simulations!r}")


@check("jobs", st.fixed_dictionaries({"pts": G.points(4, 10, places=st.just((0.0, 0.0, 1.0))), "test": st.sampled_from(["f", "g", "j", "k", "l"]), "default": st.booleans()}), quick=8, thorough=40, shards=2,
       examples=[{"pts": [[0.0, 0.0], [4.0, 1.0], [3.0, 3.0], [1.0, 5.0], [2.0, 1.5]], "test": t, "default": True} for t in "fgjkl"])
def jobs(c, ctx):
    """Several workers: as many simulations, no two of them the same by construction."""
    a = G.arr(c["pts"])
    s = np.linspace(0, G.extent(c["pts"]) / 3, 12)
    ctx.interesting()
    kw = {"truncate": False} if c["test"] == "j" else {}
    if not c["default"]:
        kw["n_jobs"] = 2
    res = ctx.call(f"{c['test']}_test", getattr(ds, f"{c['test']}_test"), a, support=s, n_simulations=30, keep_simulations=True, **kw)
    ctx.equal(np.shape(res.simulations), (30, 12), "simulations kept")
    col = np.isfinite(res.statistic) & ~np.isnan(res.simulations).any(axis=0)
    ctx.close(np.asarray(res.pvalue)[col], recount(np.asarray(res.statistic)[col], res.simulations[:, col]), "p-values", rtol=1e-12)
    distinct = len(np.unique(np.round(np.nan_to_num(res.simulations, nan=-1, posinf=-2), 9), axis=0))
    ctx.ok(distinct > 3, f"only {distinct} of 30 simulations are distinct")


@check("edges", st.fixed_dictionaries({"pts": G.points(4, 10, places=G.near_place), "test": st.sampled_from(["f", "g", "j", "k", "l"]), "how": st.sampled_from(["ripley", True, "border"]), "given": st.booleans()}), quick=100,
       examples=[{"pts": [[0.0, 0.0], [4.0, 1.0], [3.0, 3.0], [1.0, 5.0], [2.0, 1.5]], "test": t, "how": "ripley", "given": g} for t in "fgjkl" for g in (True, False)])
def edges(c, ctx):
    """Edge correction, which does not exist, is refused by the tests too."""
    a = G.arr(c["pts"])
    ctx.interesting()
    kw = {}
    if c["given"]:
        near = np.linspace(0.5, 1, len(a)) * G.extent(c["pts"])
        kw["distances"] = {"f": near, "g": near, "j": (near, near)}.get(c["test"], np.ones((len(a), len(a))))
    ctx.refused(f"{c['test']}_test with edge_correction={c['how']!r}", (NotImplementedError,), getattr(ds, f"{c['test']}_test"), a, edge_correction=c["how"], n_simulations=3, n_jobs=1, **kw)


few = [[0.0, 0.0], [4.0, 1.0], [3.0, 3.0], [1.0, 5.0]]


@check("defaults", st.fixed_dictionaries({"test": st.sampled_from(["f", "g", "j", "k", "l"]), "pts": G.points(4, 6, places=st.just((0.0, 0.0, 1.0)))}), quick=0, thorough=10, shards=5, examples=[{"test": t, "pts": few} for t in "fgjkl"])
def defaults(c, ctx):
    """9999 simulations unless told otherwise, each behind the p-value."""
    a = G.arr(c["pts"])
    ctx.interesting()
    kw = {"truncate": False} if c["test"] == "j" else {}
    s = np.linspace(0, G.extent(c["pts"]) / 3, 4)
    seed_everything(5)
    res = ctx.call(f"{c['test']}_test", getattr(ds, f"{c['test']}_test"), a, support=s, keep_simulations=True, n_jobs=1, **kw)
    ctx.equal(np.shape(res.simulations), (9999, 4), "simulations kept")
    seed_everything(5)
    again = ctx.call(f"{c['test']}_test", getattr(ds, f"{c['test']}_test"), a, support=s, n_jobs=1, **kw)
    ctx.close(again.pvalue, res.pvalue, "p-values without keeping the simulations", rtol=1e-12)
    col = np.isfinite(res.statistic) & ~np.isnan(res.simulations).any(axis=0)
    ctx.close(np.asarray(res.pvalue)[col], recount(np.asarray(res.statistic)[col], res.simulations[:, col]), "p-values", rtol=1e-12)
