"""Cases: a rule of a table of thirty-four (what is to be refused, what is to be warned of), with a request on the wrong side or
on the right side of it: a refusal must come exactly for the wrong ones, with an error of the documented kind and no
answer, a warning exactly when its reason is there, and every other request must be answered. Non-trivial: the
request is on the wrong side of its rule, or is a right one nearest to it."""
import contextlib
import io
import warnings

import geopandas
import matplotlib
import numpy as np
import shapely
from hypothesis import strategies as st
from scipy.spatial import ConvexHull
from scipy.spatial.distance import pdist, squareform

import pointpats
from pbt import gens as G
from pbt.core import check, seed_everything
from pointpats import centrography as C
from pointpats import distance_statistics as D
from pointpats import geometry as geom
from pointpats import quadrat_statistics as Q
from pointpats import random as S
from pointpats import spacetime as T

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

RULES = {}


def rule(**kinds):
    """Register fn(i) -> (call, due): due is the error expected, a fragment of the warning expected, or None."""

    def deco(fn):
        RULES[fn.__name__] = (fn, kinds)
        return fn

    return deco


class Inputs:
    def __init__(self, c):
        self.c = c
        self.a = G.arr(c["pts"])
        self.n = len(self.a)
        self.bad, self.u, self.v = c["bad"], c["u"], c["v"]
        self.size = G.extent(c["pts"])
        lo, hi = self.a.min(axis=0), self.a.max(axis=0)
        self.box = np.array([lo[0], lo[1], lo[0] + self.size, lo[1] + self.size])
        self.D = squareform(pdist(self.a))
        rng = np.random.default_rng(self.u)
        self.t = rng.integers(0, 9, (self.n, 1))
        self.where = lo + rng.random((5, 2)) * (hi - lo)

    def pick(self, *options):
        return options[self.u % len(options)]

    def other(self, *options):
        return options[self.v % len(options)]

    def supports(self):
        return np.linspace(0, self.size / 4, 6)

    def frame(self, **kw):
        return geopandas.GeoDataFrame({"t": self.t[:, 0]}, geometry=shapely.points(self.a), **kw)


# ---------------------------------------------------------------- warnings
def only(due, fragment):
    return fragment if due else None


@rule(warns="not unique")
def even_median(i):
    a = i.a[: i.pick(*range(2 if i.bad else 1, i.n + 1, 2))]
    a = i.other(a, a.tolist(), geopandas.GeoSeries(shapely.points(a)), pointpats.PointPattern(a).points)
    return lambda: C.manhattan_median(a), only(i.bad, "not unique")


@rule(warns="metric will be ignored")
def metric_and_distances(i):
    f, given = i.pick((D.f, i.D[:, :3] + 0.5), (D.g, np.sort(i.D, axis=1)[:, 1]), (D.k, i.D), (D.l, squareform(i.D, checks=False)), (D.j, (np.sort(i.D, axis=1)[:, 1], i.D[:, :2] + 0.5)))
    metric, s = i.other("cityblock", "chebyshev", "precomputed"), i.supports()
    if i.bad:
        return lambda: f(i.a, s, distances=given, metric=metric), "metric will be ignored"
    if i.v % 2:
        return lambda: f(i.a, s, distances=given, metric="euclidean"), None
    return lambda: f(i.a, s, metric=i.other("euclidean", "cityblock", "chebyshev")), None


@rule(warns="full distance matrix")
def square_matrix(i):
    f = i.pick(D.f, D.g)
    if i.bad:
        return lambda: f(i.a, i.supports(), distances=i.D), "full distance matrix"
    given = i.other(np.sort(i.D, axis=1)[:, 1], i.D[:, : i.n - 1] if f is D.f else None, None)
    return lambda: f(i.a, i.supports(), distances=given), None


def whole(i, f, s, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(i.u)
        return f(i.a, s, truncate=False, **kw)


@rule(warns="reaches infinity")
def j_cut(i):
    test = i.pick(False, True)
    s = np.linspace(0, i.size * i.other(0.02, 0.2, 0.5, 1.0, 1.5), 9)
    d = np.sort(i.D, axis=1)[:, 1]
    given = (d, i.D[:, [0, -1]] * 0.5 + 0.1 * i.size if i.bad else i.D[:, [0]] + 4 * i.size)
    kw = {"distances": given}
    f = D.j_test if test else D.j
    if test:
        kw.update(n_simulations=1, n_jobs=1)
        kw.pop("distances")
        # the simulated locations of F are random: learn from the run itself
        held = {}

        def call():
            np.random.seed(i.u)
            held["cut"] = f(i.a, s, truncate=True, **kw)

        def due():
            np.random.seed(i.u)
            full = whole(i, f, s, **kw)
            return only(len(full.statistic) != len(held["cut"].statistic), "reaches infinity")

        return call, due
    full = whole(i, f, s, **kw)[1]
    # cut before the first infinity that is not the end of the function
    return lambda: f(i.a, s, truncate=True, **kw), lambda got: only(len(got[0]) != len(full), "reaches infinity")


@rule(warns="No simulations")
def no_simulations(i):
    f = i.pick(D.f_test, D.g_test, D.j_test, D.k_test, D.l_test)
    n = i.other(0, -1) if i.bad else i.other(1, 2)
    return lambda: f(i.a, i.supports(), n_simulations=n, n_jobs=1), only(i.bad, "No simulations")


@rule(warns="pure Python")
def python_metric(i):
    metric = (lambda p, q: float(np.abs(p - q).sum())) if i.bad else i.other("cityblock", "euclidean", "chebyshev")
    return i.pick(lambda: geom.build_best_tree(i.a, metric), lambda: D.g(i.a, i.supports(), metric=metric)), only(i.bad, "pure Python")


@rule(warns="deprecated")
def deprecated(i):
    np.random.seed(i.u)
    if not i.bad:
        return i.pick(lambda: T.Knox(i.a, i.t, i.size / 4, 2, permutations=0), lambda: S.poisson(i.box, size=3, rng=1)), None
    w = pointpats.Window(pointpats.poly_from_bbox(i.box.tolist()).parts)
    return i.pick(lambda: T.knox(i.a, i.t, i.size / 4, 2, permutations=2), lambda: pointpats.PoissonPointProcess(w, 3, 1), lambda: pointpats.PoissonClusterPointProcess(w, 4, 2, i.size / 4, 1)), "deprecated"


@rule(warns="values not avail")
def no_pseudo_values(i):
    np.random.seed(i.u)
    k = T.KnoxLocal(i.a, i.t, i.size / 3, 2, permutations=0 if i.bad or i.u % 2 else 5)
    kind = "permutation" if i.bad or not i.u % 2 else "analytic"
    return lambda: k.hotspots(crit=0.9, inference=kind), only(i.bad, "values not avail")


@rule(warns="no CRS")
def no_crs(i):
    df = i.frame(crs=None if i.bad else i.other("EPSG:3857", "EPSG:32633"))
    cls = i.pick(T.Knox, T.KnoxLocal)
    return lambda: cls.from_dataframe(df, "t", i.size / 4, 2, permutations=0), only(i.bad, "no CRS")


# ---------------------------------------------------------------- refusals
@rule(error=ValueError)
def ellipse_method(i):
    m = i.other("yull", "crime", "", "mahalanobis") if i.bad else i.other("yuill", "crimestat", "Yuill", "CrimeStat", "CRIMESTAT")
    a = i.pick(i.a, i.a.tolist(), geopandas.GeoSeries(shapely.points(i.a)))
    return lambda: C.ellipse(a, method=m), i.bad and ValueError


@rule(error=ValueError)
def ellipse_weights(i):
    w = np.ones(i.n + (i.other(-1, 1, 2) if i.bad else 0))
    a = i.pick(i.a, i.a.tolist(), geopandas.GeoSeries(shapely.points(i.a)))
    return lambda: C.ellipse(a, weights=w), i.bad and ValueError


@rule(error=ValueError)
def neighbours_wanted(i):
    p = pointpats.PointPattern(i.a)
    k = i.other(0, -1, -2) if i.bad else i.other(1, 2)
    return i.pick(lambda: p.knn(k), lambda: p.knn_other(p, k)), i.bad and ValueError


@rule(error=TypeError)
def superimpose_unlike(i):
    p, q = pointpats.PointPattern(i.a, names=["x", "y"]), pointpats.PointPattern(i.a + 1, names=["x", "y"])
    if i.bad:
        q = i.other(pointpats.PointPattern(i.a, names=["lon", "lat"]), pointpats.PointPattern(np.column_stack([i.a, i.t]), names=["x", "y", "m"]), pointpats.PointPattern(i.a, names=["x", "y"], coord_names=["y", "x"]))
    if i.u % 2:
        p, q = q, p
    return lambda: p.superimpose(q), i.bad and TypeError


GRIDS = [Q.RectangleM, lambda pts, **kw: Q.HexagonM(pts, 1e3, **kw), lambda pts, **kw: Q.QStatistic(pts, **kw)]


@rule(error=ValueError)
def shape_of_points(i):
    f = i.pick(*GRIDS)
    if i.bad:
        a = i.other(np.column_stack([i.a, i.t]), i.a[:, :1], i.a[:, 0], i.a[:0], i.a[:0].tolist(), np.stack([i.a, i.a]))
    else:
        a = i.other(i.a, i.a.tolist(), [tuple(r) for r in i.a.tolist()])
    return lambda: f(a), i.bad and ValueError


@rule(error=TypeError)
def kind_of_geometry(i):
    f = i.pick(*GRIDS)
    s = list(shapely.points(i.a))
    if i.bad:
        at = i.v % i.n
        s[at] = i.other(s[at].buffer(0.1 * i.size), shapely.LineString([s[at], (i.a[at] + i.size).tolist()]))
    s = geopandas.GeoSeries(s)
    return lambda: f(s if i.u % 2 else geopandas.GeoDataFrame(geometry=s)), i.bad and TypeError


@rule(error=ValueError)
def nothing_but_missing(i):
    f = i.pick(*GRIDS)
    s = [None] * i.n if i.bad else [None, *shapely.points(i.a)]
    return lambda: f(geopandas.GeoSeries(s)), i.bad and (ValueError, TypeError)


@rule(error=ValueError)
def quadrat_options(i):
    q = Q.QStatistic(i.a, shape="rectangle", nx=2, ny=2)
    if i.u % 2:
        shape = i.other("square", "hex", "", "Rectangle") if i.bad else i.other("rectangle", "hexagon")
        return lambda: Q.QStatistic(i.a, shape=shape, lh=i.size), i.bad and ValueError
    show = i.other("count", "chi", "", "both") if i.bad else i.other("counts", "chi2")
    return lambda: q.plot(show=show), i.bad and ValueError


@rule(error=ValueError)
def map_of_contributions(i):
    m = i.pick(Q.RectangleM(i.a, 2, 2), Q.HexagonM(i.a, i.size))
    n = len(m.point_location_sta())
    if not i.bad:
        return lambda: m.plot(show="chi2", chi2_contrib=np.arange(float(n))), None
    bad = i.other(None, np.arange(n + 1.0), np.arange(n - 1.0))
    return lambda: m.plot(show="chi2", chi2_contrib=bad), ValueError


@rule(error=ValueError)
def size_forms(i):
    f = i.pick(S.poisson, S.cluster_poisson, S.strauss)
    kw = {"n_iter": 20, "gamma": 1.0} if f is S.strauss else {}
    if i.bad:
        size = i.other((4,), (4, 2, 1), "4", 4.5, [4, 2], "both")
        if size == "both":
            size = (4 + i.u % 3, 1 + i.u // 3 % 3)
            kw["intensity"] = 4 / i.size**2
    else:
        size = i.other(4, (4, 2), (5, 1), np.int64(4), 2)
        if size == 2:
            kw["intensity"] = 6 / i.size**2
    return lambda: f(i.box, size=size, rng=i.u, **kw), i.bad and ValueError


@rule(error=ValueError)
def covariance_forms(i):
    f = i.pick(S.normal, lambda *a, **k: S.normal(*a, center=i.box[:2], **k))
    v = (i.size / 3) ** 2
    E = np.eye(2) * v
    if i.bad:
        cov = i.other(np.eye(3) * v, np.stack([E, E, E]), np.ones((2, 3, 3)) * v, "wide", E.tolist(), E[:1])
    else:
        cov = i.other(v, E, np.stack([E, 2 * E]), None, np.float32(v) if v < 1e30 else v)
    return lambda: f(i.box, cov=cov, size=(3, 2), rng=i.u), i.bad and (AssertionError, ValueError)


@rule(error=AssertionError)
def radii_per_cluster(i):
    n = i.other(2, 3)
    r = [i.size / 8] * (n + (i.pick(-1, 1, 2) if i.bad else 0))
    r = i.pick(r, np.array(r), tuple(r))
    return lambda: S.cluster_poisson(i.box, size=9, n_seeds=n, cluster_radius=r, rng=i.u), i.bad and AssertionError


@rule(error=Exception)
def clusters_per_point(i):
    n = i.other(2, 3, 5)
    f = i.pick(S.cluster_poisson, S.cluster_normal)
    return lambda: f(i.box, size=n - i.pick(1, 2) if i.bad else n + i.pick(0, 1), n_seeds=n, rng=i.u), i.bad and Exception


@rule(error=RuntimeError)
def hard_core(i):
    n, r = i.other(2, 3, 6), 3 * i.size if i.bad else 1e-9 * i.size
    return lambda: S.strauss(i.box, size=i.pick(n, (n, 2)), gamma=0, r=r, n_iter=80, max_iter=2, rng=i.u), i.bad and RuntimeError


@rule(error=KeyError)
def metric_names(i):
    m = i.other("euclid", "no such metric", "EUCLIDEAN") if i.bad else i.other("euclidean", "l2", "cityblock", "manhattan", "chebyshev", "canberra")
    return i.pick(lambda: geom.build_best_tree(i.a, m), lambda: D.g(i.a, i.supports(), metric=m)), i.bad and KeyError


@rule(error=TypeError)
def metric_kinds(i):
    f = i.pick(D.f, D.g, D.k, D.l, D.j)
    m = i.other(None, 2, ["euclidean"]) if i.bad else i.other("euclidean", "cityblock")
    return lambda: f(i.a, i.supports(), metric=m), i.bad and TypeError


@rule(error=(AssertionError, ValueError))
def hull_forms(i):
    if i.bad:
        h = i.other(i.box[:3], i.box[None, :], "box", "konvex", "", np.append(i.box, 1.0))
    else:
        h = i.other(i.box, "bbox", None, "convex", shapely.box(*i.box), ConvexHull(i.a))
    return i.pick(lambda: geom.prepare_hull(i.a, h), lambda: D.f(i.a, i.supports(), hull=h)), i.bad and (AssertionError, ValueError)


@rule(error=ValueError)
def local_inputs(i):
    kw = {"permutations": 0}
    s, t = i.a, i.t
    if i.bad:
        s, t, ids = i.other((s.tolist(), t, None), (s, t.tolist(), None), (s[:, :1], t, None), (s[1:], t, None), (s, t[1:], None), (s, t, list(range(i.n + 1))), (s, t, list(range(i.n - 1))))
    else:
        ids = i.other(None, list(range(5, i.n + 5)), [f"e{k}" for k in range(i.n)])
    return lambda: T.KnoxLocal(s, t, i.size / 4, 2, ids=ids, **kw), i.bad and ValueError


@rule(error=ValueError)
def kind_of_inference(i):
    np.random.seed(i.u)
    k = T.KnoxLocal(i.a, i.t, i.size / 3, 2, permutations=5)
    kind = i.other("perm", "", "Analytic", "bootstrap") if i.bad else i.other("permutation", "analytic")
    f = i.pick(k.hotspots, k.plot)
    return lambda: f(crit=0.9, inference=kind), i.bad and ValueError


@rule(error=ValueError)
def event_frames(i):
    df = i.frame(crs="EPSG:3857")
    if i.bad:
        way = i.other("crs", "geometry", "multi", "text", "date")
        if way == "crs":
            df = df.set_crs("EPSG:4326", allow_override=True)
        elif way in ("geometry", "multi"):
            g = list(df.geometry)
            g[i.v % i.n] = g[0].buffer(1) if way == "geometry" else shapely.MultiPoint([g[0]])
            df = df.set_geometry(geopandas.GeoSeries(g, crs=df.crs))
        elif way == "text":
            df["t"] = df["t"].astype(str)
        else:
            df["t"] = np.datetime64("2020-01-01") + df["t"].values.astype("timedelta64[D]")
    elif i.v % 2:
        df["t"] = df["t"].astype(i.other("float64", "int32", "uint8", "float32"))
    cls = i.pick(T.Knox, T.KnoxLocal)
    return lambda: cls.from_dataframe(df, "t", i.size / 4, 2, permutations=0), i.bad and ValueError


@rule(error=ValueError)
def density_inputs(i):
    kw = {"bandwidth": i.size / 3, "resolution": 8}
    g = geopandas.GeoSeries(shapely.points(i.a))
    if i.bad and i.u % 2:
        g.iloc[i.v % i.n] = g.iloc[0].buffer(1.0)
    elif i.bad:
        kw["resolution"] = i.other("fine", [8, 8], {"x": 8})
    else:
        kw["resolution"] = i.other(8, (6, 8), np.int64(7), 9)
        g = i.pick(g, i.a, g.to_frame("geometry"))
    return lambda: pointpats.plot_density(g, **kw), i.bad and ValueError


@rule(error=ValueError)
def misaligned_distances(i):
    f = i.pick(D.g, D.k, D.l)
    nn, up = np.sort(i.D, axis=1)[:, 1], squareform(i.D, checks=False)
    if i.bad:
        given = i.other(i.D[:-1], i.D[:, :-1], i.D[:-1, :-1], nn[:-1] if f is D.g else up[:-1], np.append(nn, 1.0) if f is D.g else np.append(up, 1.0))
    else:
        given = i.other(i.D, nn if f is D.g else up)
    return lambda: f(i.a, i.supports(), distances=given), i.bad and ValueError


@rule(error=ValueError)
def unknown_distances(i):
    f = i.pick(D.f, D.g, D.k, D.l, D.j)
    if i.bad:
        return lambda: f(i.a, i.supports(), metric="precomputed"), ValueError
    return lambda: f(i.a, i.supports()), None


@rule(error=NotImplementedError)
def edges(i):
    f = i.pick(D.f, D.g, D.k, D.l, D.j, D.f_test, D.g_test, D.k_test, D.l_test, D.j_test)
    kw = {"n_simulations": 1, "n_jobs": 1} if f.__name__.endswith("_test") else {}
    return lambda: f(i.a, i.supports(), edge_correction=i.other("ripley", True, "toroidal") if i.bad else None, **kw), i.bad and NotImplementedError


@rule(error=(AssertionError, TypeError, NotImplementedError))
def regions(i):
    if i.bad:
        return i.pick(lambda: geom.area(i.box[:3]), lambda: geom.centroid(i.box[:3]), lambda: geom.contains("box", 0.0, 0.0)), (AssertionError, TypeError, NotImplementedError)
    h = i.other(i.box, shapely.box(*i.box), ConvexHull(i.a))
    return i.pick(lambda: geom.area(h), lambda: geom.centroid(h), lambda: geom.contains(h, *i.box[:2])), None


case = st.fixed_dictionaries({"rule": st.sampled_from(sorted(RULES)), "bad": st.booleans(), "pts": G.points(5, 10, kinds=("grid", "float", "cluster"), places=G.near_place), "u": st.integers(0, 59), "v": st.integers(0, 59)})
fixed = [{"rule": r, "bad": b, "pts": [[0.0, 0.0], [4.0, 1.0], [3.0, 3.0], [1.0, 5.0], [2.0, 1.5], [4.5, 4.0]], "u": u, "v": u // 2} for r in sorted(RULES) for b in (True, False) for u in (2, 3)]


@check("rules", case, quick=9000, thorough=40000, examples=fixed)
def rules(c, ctx):
    a = np.unique(G.arr(c["pts"]), axis=0)
    if len(a) < 5 or not G.noncollinear(a):
        return
    c = {**c, "pts": a.tolist()}
    i = Inputs(c)
    fn, kinds = RULES[c["rule"]]
    what = f"{c['rule']} ({'wrong' if c['bad'] else 'right'} side)"
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        call, due = fn(i)
        seed_everything(c["u"])
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter("always")
            error = got = None
            try:
                got = call()
            except Exception as e:
                error = e
        if callable(due) and not isinstance(due, type):
            if error is None:
                due = due(got) if got is not None else due()
            else:
                due = None
        plt.close("all")
    ctx.label(c["rule"])
    ctx.interesting()
    if "error" in kinds:
        if due:
            ctx.ok(error is not None, f"{what}: not refused")
            ctx.ok(isinstance(error, due), f"{what}: refused with {type(error).__name__}: {error}")
            ctx.ok(not ({"{", "}"} & set(str(error))), f"{what}: the message is not filled in: {error}")
        else:
            ctx.ok(error is None, f"{what}: refused with {type(error).__name__}: {error}")
        return
    ctx.ok(error is None, f"{what}: refused with {type(error).__name__}: {error}")
    here = any(kinds["warns"] in " ".join(str(w.message).split()) for w in said)
    ctx.ok(not (due and not here), f"{what}: no warning")
    ctx.ok(not (here and not due), f"{what}: warned for no reason")
