"""Cases: one set of inputs (points as array, column-major array, list, frame and geographic objects, weights,
windows, regions of every kind, distance matrices, ranges, radii, covariances, events, identifiers) shared
by a drawn history of one to eight calls out of some hundred entry points, or of calls around one object. After each call every
input is compared bit for bit with a copy made before, and the result with that of the same call in the
same random state on inputs of its own. Non-trivial: a later call of the history shares an input with an
earlier one."""
import contextlib
import io
import os
import warnings

import geopandas as gpd
import matplotlib
import numpy as np
import pandas as pd
import shapely
from hypothesis import strategies as st
from scipy import spatial

import pointpats
from pbt import gens as G
from pbt import ripley as R
from pbt.core import check, seed_everything
from pointpats import centrography as C
from pointpats import distance_statistics as D
from pointpats import geometry as geom
from pointpats import quadrat_statistics as Q
from pointpats import random as S
from pointpats import spacetime as T
from pointpats import window as W

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402


class Inputs:
    """Built from the case, each at most once per instance."""

    def __init__(self, c):
        self.c = c
        self.made = {}

    def __getattr__(self, name):
        if name.startswith("_") or name in ("c", "made"):
            raise AttributeError(name)
        if name not in self.made:
            self.made[name] = BUILD[name](self)
        return self.made[name]


def _box(i, grow=0.0):
    a = G.arr(i.c["pts"])
    lo, hi = a.min(axis=0), a.max(axis=0)
    return [*(lo - grow * (hi - lo)), *(hi + grow * (hi - lo))]


def _near(i):
    D0 = R.distances(G.arr(i.c["pts"]), G.arr(i.c["pts"]), "euclidean")
    return D0


def _region(i):
    return G.make_hull(i.c["hull"])[0]


def _window(i):
    b = _box(i, 0.25)
    m = [(b[0] + b[2]) / 2, (b[1] + b[3]) / 2]
    ring = [(b[0], b[1]), (b[0], b[3]), (b[2], b[3]), (b[2], b[1]), (b[0], b[1])]
    if not i.c["hole"]:
        return pointpats.Window(ring)
    q = [(m[0], m[1]), (m[0] + (b[2] - m[0]) / 8, m[1]), (m[0], m[1] + (b[3] - m[1]) / 8), (m[0], m[1])]
    return pointpats.Window([ring], [q])


def _marked(i):
    p = pointpats.PointPattern(i.rows)
    p.add_marks(i.marks, mark_names=i.names)
    return p


def _named(i):
    p = pointpats.PointPattern(i.wide, coord_names=i.cnames)
    p.add_marks(i.marks, mark_names=i.names)
    return p


def _fitted(i):
    state = np.random.get_state()
    try:
        np.random.seed(i.c["seed"])
        return T.KnoxLocal(i.a.copy(), i.t.copy(), i.c["delta"], 2, permutations=9, keep=True, ids=list(i.ids), crs="EPSG:3857")
    finally:
        np.random.set_state(state)


BUILD = {
    "fitted": _fitted,
    "quadrats": lambda i: Q.QStatistic(i.a.copy(), nx=3, ny=2, realizations=2, rng=7),
    "cells": lambda i: Q.RectangleM(i.a.copy(), count_column=2, count_row=3),
    "honeycomb": lambda i: Q.HexagonM(i.a.copy(), lh=G.extent(i.c["pts"]) / 2),
    "a": lambda i: G.arr(i.c["pts"]),
    "fortran": lambda i: np.asfortranarray(G.arr(i.c["pts"])),
    "rows": lambda i: [list(map(float, p)) for p in i.c["pts"]],
    "wide": lambda i: [[*map(float, p), float(k % 3)] for k, p in enumerate(i.c["pts"])],
    "colnames": lambda i: ["east", "north", "kind"],
    "pairs": lambda i: [tuple(map(float, p)) for p in i.c["pts"]],
    "frame": lambda i: pd.DataFrame(G.arr(i.c["pts"]), columns=["east", "north"]),
    "series": lambda i: G.as_container(i.c["pts"], "geoseries_crs"),
    "geo": lambda i: G.as_container(i.c["pts"], "geodataframe_named"),
    "weights": lambda i: np.arange(1.0, len(i.c["pts"]) + 1) % 5 + 0.5,
    "heavy": lambda i: (np.arange(1.0, len(i.c["pts"]) + 1) % 5 + 0.5) * 2.0**60,
    "wlist": lambda i: [float(k % 3 + 1) for k in range(len(i.c["pts"]))],
    "coord": lambda i: np.array([0.5, -1.25]),
    "marks": lambda i: [[k % 3 for k in range(len(i.c["pts"]))]],
    "names": lambda i: ["kind"],
    "cnames": lambda i: ["east", "north"],
    "window": _window,
    "polygon": lambda i: shapely.box(*_box(i, 0.5)).difference(shapely.box(*_box(i, -0.45))),
    "region": _region,
    "regions": lambda i: gpd.GeoSeries([shapely.box(*_box(i, 0.1)), shapely.box(*_box(i, 0.3))]),
    "hullobj": lambda i: spatial.ConvexHull(G.arr(i.c["pts"])),
    "bbox": lambda i: np.array(_box(i, 0.125)),
    "blist": lambda i: [float(v) for v in _box(i, 0.125)],
    "radii": lambda i: [G.extent(i.c["pts"]) * 0.2, G.extent(i.c["pts"]) * 0.1],
    "radii_array": lambda i: np.array([0.2, 0.1]) * G.extent(i.c["pts"]),
    "radii_region": lambda i: np.array([0.2, 0.1]) * np.sqrt(shapely.box(*geom.bbox(i.region)).area),
    "cov": lambda i: np.array([[1.0, 0.25], [0.25, 1.0]]) * G.extent(i.c["pts"]) ** 2,
    "center": lambda i: np.array([(_box(i)[0] + _box(i)[2]) / 2, (_box(i)[1] + _box(i)[3]) / 2]),
    "support": lambda i: np.linspace(0, G.extent(i.c["pts"]) / 2, 7),
    "slist": lambda i: [float(v) for v in np.linspace(0, G.extent(i.c["pts"]) / 3, 5)],
    "mixed": lambda i: np.array([0.3, 0.1, 0.5, 0.2]) * G.extent(i.c["pts"]),
    "matrix": _near,
    "vector": lambda i: _near(i)[np.triu_indices(len(i.c["pts"]), 1)],
    "nearest": lambda i: R.nearest(G.arr(i.c["pts"])),
    "empties": lambda i: np.sqrt(np.arange(30.0) * 7 % 30) * G.extent(i.c["pts"]) / 12,
    "both": lambda i: (i.nearest, i.empties),
    "tree": lambda i: spatial.KDTree(G.arr(i.c["pts"])),
    "sktree": lambda i: _sklearn_tree(G.arr(i.c["pts"])),
    "pattern": lambda i: pointpats.PointPattern(G.arr(i.c["pts"])),
    "marked": _marked,
    "other": lambda i: pointpats.PointPattern(np.vstack([G.arr(i.c["pts"])[1:], G.arr(i.c["pts"])[:2] + 1])),
    "t": lambda i: np.array(i.c["t"]).reshape(-1, 1),
    "tfloat": lambda i: np.array(i.c["t"], float).reshape(-1, 1) / 2,
    "ids": lambda i: [f"e{k * 5 % 7}-{k}" for k in range(len(i.c["t"]))],
    "events": lambda i: gpd.GeoDataFrame({"day": i.c["t"]}, geometry=gpd.points_from_xy(*G.arr(i.c["pts"]).T), crs="EPSG:3857", index=[k * 2 + 5 for k in range(len(i.c["t"]))]),
    "levels": lambda i: [v / G.extent(i.c["pts"]) ** 2 for v in (0.1, 0.5, 1.0, 2.0)],
    "style": lambda i: {"markersize": 5},
    "estyle": lambda i: {"linewidth": 2},
    "colors": lambda i: {"focal": "blue", "neighbor": "green", "nonsig": "black"},
    "resolution": lambda i: (12, 9),
}


def _sklearn_tree(a):
    from sklearn.neighbors import KDTree

    return KDTree(a)


def _is_tree(x):
    return hasattr(x, "query") and hasattr(x, "data") and not isinstance(x, (pd.DataFrame, pd.Series))


def freeze(x, deep=0):
    """A value that changes when x does."""
    if isinstance(x, (np.generic, float, int, str, bytes, bool, type(None))):
        return repr(x)
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), [freeze(v) for v in x.ravel()] if x.dtype == object else np.ascontiguousarray(x).tobytes())
    if isinstance(x, shapely.Geometry):
        return ("geometry", x.wkb)
    if isinstance(x, (gpd.GeoSeries, gpd.GeoDataFrame)):
        head = ("geo", str(x.crs), [repr(k) for k in x.index], str(x.geometry.name))
        if isinstance(x, gpd.GeoSeries):
            return (*head, [g.wkb if g is not None else None for g in x])
        return (*head, [repr(k) for k in x.columns], [str(d) for d in x.dtypes], [[freeze(v) for v in x[k]] for k in x.columns])
    if isinstance(x, pd.DataFrame):
        return ("frame", [repr(k) for k in x.index], [repr(k) for k in x.columns], [str(d) for d in x.dtypes], [[freeze(v) for v in x[k]] for k in x.columns])
    if isinstance(x, pd.Series):
        return ("series", [repr(k) for k in x.index], freeze(x.values))
    if isinstance(x, pointpats.PointPattern):
        return ("pattern", freeze(x.points), freeze(x.df) if isinstance(getattr(x, "df", None), pd.DataFrame) else None, [repr(k) for k in x.coord_names], repr(getattr(x, "names", None)))
    if isinstance(x, W.Window):
        return ("window", repr(x.parts), repr(x.holes))
    if isinstance(x, spatial.ConvexHull):
        return ("hull", freeze(x.points), freeze(x.vertices), repr(x.volume))
    if _is_tree(x):
        return ("tree", freeze(np.asarray(x.data)))
    if isinstance(x, dict):
        return ("dict", [(repr(k), freeze(v, deep)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, deep) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(repr(freeze(v)) for v in x))
    if isinstance(x, matplotlib.axes.Axes):
        return ("axes", [[freeze(np.asarray(p.vertices)) for p in col.get_paths()] + [freeze(np.asarray(col.get_offsets()))] for col in x.collections], [freeze(ln.get_xydata()) for ln in x.lines], [t.get_text() for t in x.texts])
    if hasattr(x, "__dict__") and deep < 2:
        return (type(x).__name__, [(k, freeze(v, deep + 1)) for k, v in sorted(x.__dict__.items()) if not k.startswith("_") and k != "rng"])
    return type(x).__name__


def simple(name, *inputs):
    f = getattr(C, name)
    return [(f"{name}({i})", (lambda i: lambda I: f(getattr(I, i)))(i)) for i in inputs]


CONT = ("a", "fortran", "rows", "frame", "series", "geo")
ENTRIES = dict(
    [e for n in ("mean_center", "manhattan_median", "std_distance", "euclidean_median", "hull", "minimum_bounding_rectangle", "minimum_bounding_circle", "minimum_rotated_rectangle", "ellipse") for e in simple(n, "a", "rows", "geo" if n != "ellipse" else "series", "fortran" if n != "hull" else "pairs")]
    + [
        ("weighted_mean_center(a, weights)", lambda I: C.weighted_mean_center(I.a, I.weights)),
        ("weighted_mean_center(rows, wlist)", lambda I: C.weighted_mean_center(I.rows, I.wlist)),
        ("weighted_mean_center(geo, weights)", lambda I: C.weighted_mean_center(I.geo, I.weights)),
        ("ellipse(a, all options)", lambda I: C.ellipse(I.a, weights=I.weights, method="yuill", crimestatCorr=False)),
        ("ellipse(a, large weights)", lambda I: C.ellipse(I.a, weights=I.heavy)),
        ("weighted_mean_center(a, large weights)", lambda I: C.weighted_mean_center(I.a, I.heavy)),
        ("ellipse(a, weights)", lambda I: C.ellipse(I.a, weights=I.weights)),
        ("ellipse(geo, weights)", lambda I: C.ellipse(I.geo, weights=I.wlist)),
        ("minimum_rotated_rectangle(a, angle)", lambda I: C.minimum_rotated_rectangle(I.a, return_angle=True)),
        ("dtot(coord, a)", lambda I: C.dtot(I.coord, I.a)),
        ("dtot(coord, rows)", lambda I: C.dtot(I.coord, I.rows)),
        # geometry
        ("area(region)", lambda I: geom.area(I.region)),
        ("area(hull)", lambda I: geom.area(I.hullobj)),
        ("bbox(region)", lambda I: geom.bbox(I.region)),
        ("centroid(region)", lambda I: geom.centroid(I.region)),
        ("contains(polygon)", lambda I: [geom.contains(I.polygon, x, y) for x, y in I.a]),
        ("contains(hull)", lambda I: [geom.contains(I.hullobj, x, y) for x, y in I.a]),
        ("k_neighbors(tree, a)", lambda I: geom.k_neighbors(I.tree, I.a, 1)),
        ("k_neighbors(sktree, a)", lambda I: geom.k_neighbors(I.sktree, I.a, 2)),
        ("build_best_tree(a)", lambda I: geom.build_best_tree(I.a, "euclidean").query(I.a, k=2)[0]),
        ("build_best_tree(rows)", lambda I: geom.build_best_tree(I.rows, "cityblock").query(I.a, k=1)[0]),
        ("prepare_hull(a, convex)", lambda I: geom.area(geom.prepare_hull(I.a, "convex"))),
        ("prepare_hull(a, bbox list)", lambda I: geom.prepare_hull(I.a, I.bbox)),
        # windows
        ("poly_from_bbox", lambda I: freeze(W.as_window(W.poly_from_bbox(I.blist)))),
        ("filter_contained", lambda I: I.window.filter_contained(I.pairs)),
        # patterns
        ("PointPattern(a)", lambda I: pointpats.PointPattern(I.a)),
        ("PointPattern(rows, names)", lambda I: pointpats.PointPattern(I.rows, coord_names=I.cnames)),
        ("PointPattern(rows, names, marks)", lambda I: _named(I)),
        ("PointPattern(wide, colnames)", lambda I: pointpats.PointPattern(I.wide, names=I.colnames)),
        ("PointPattern(frame)", lambda I: pointpats.PointPattern(I.frame)),
        ("PointPattern(a, window)", lambda I: pointpats.PointPattern(I.a, window=I.window).lambda_window),
        ("add_marks", lambda I: _marked(I)),
        ("explode", lambda I: I.marked.explode("kind")),
        ("unique", lambda I: I.pattern.unique()),
        ("superimpose", lambda I: I.pattern.superimpose(I.other)),
        ("superimpose marked", lambda I: I.marked.superimpose(I.marked)),
        ("knn", lambda I: I.pattern.knn(2)),
        ("knn_other", lambda I: I.pattern.knn_other(I.other, 2)),
        ("find_pairs", lambda I: I.pattern.find_pairs(1.5)),
        ("summary", lambda I: I.pattern.summary()),
        ("plot pattern", lambda I: I.pattern.plot(window=True, hull=True, get_ax=True)),
        ("summaries", lambda I: [I.pattern.mbb, I.pattern.hull, I.pattern.hull_area, I.pattern.nnd, I.pattern.mean_nnd, I.pattern.rot]),
        ("set_window", lambda I: pointpats.PointPattern(I.a).set_window(I.window)),
        # simulators
        ("poisson(region)", lambda I: S.poisson(I.region, size=(5, 2), rng=3)),
        ("poisson(a)", lambda I: S.poisson(I.a, size=6, rng=3)),
        ("poisson(bbox)", lambda I: S.poisson(I.bbox, intensity=3 / geom.area(I.bbox), rng=4)),
        ("poisson(hull)", lambda I: S.poisson(I.hullobj, size=6, rng=5)),
        ("normal(bbox, cov)", lambda I: S.normal(I.bbox, center=I.center, cov=I.cov, size=5, rng=3)),
        ("normal(region)", lambda I: S.normal(I.region, size=(4, 2), rng=3)),
        ("cluster_poisson(bbox, list)", lambda I: S.cluster_poisson(I.bbox, n_seeds=2, cluster_radius=I.radii, size=(6, 2), rng=3)),
        ("cluster_poisson(region, array)", lambda I: S.cluster_poisson(I.region, n_seeds=2, cluster_radius=I.radii_region, size=(6, 2), rng=3)),
        ("cluster_normal(bbox, cov)", lambda I: S.cluster_normal(I.bbox, n_seeds=2, cov=I.cov * 0.01, size=(6, 2), rng=3)),
        ("strauss(bbox)", lambda I: S.strauss(I.bbox, size=(5, 1), gamma=0.5, r=0.0, n_iter=5, rng=3)),
        ("PoissonPointProcess", lambda I: pointpats.PoissonPointProcess(I.window, 8, 2).realizations),
        ("PoissonClusterPointProcess", lambda I: pointpats.PoissonClusterPointProcess(I.window, 8, 2, 0.2 * G.extent(I.c["pts"]), 2, keep=True).realizations),
        # quadrats
        ("QStatistic(a)", lambda I: Q.QStatistic(I.a, nx=3, ny=2)),
        ("QStatistic(geo, polygon)", lambda I: Q.QStatistic(I.geo, nx=3, ny=2, window=I.polygon, realizations=2, rng=3)),
        ("QStatistic(pattern)", lambda I: Q.QStatistic(I.pattern, shape="hexagon", lh=G.extent(I.c["pts"]) / 3, realizations=2, rng=3).chi2),
        ("QStatistic(frame)", lambda I: Q.QStatistic(I.frame, nx=3, ny=2).chi2),
        ("QStatistic plot", lambda I: Q.QStatistic(I.rows, nx=2, ny=2).plot()),
        ("RectangleM(a)", lambda I: Q.RectangleM(I.a, count_column=3, count_row=2).point_location_sta()),
        ("HexagonM(a)", lambda I: Q.HexagonM(I.a, lh=G.extent(I.c["pts"]) / 3).point_location_sta()),
        # distances
        ("f(a, empties)", lambda I: D.f(I.a, support=I.support, distances=I.empties)),
        ("f(a)", lambda I: D.f(I.a, support=I.support, hull=I.bbox)),
        ("g(a)", lambda I: D.g(I.a, support=I.slist)),
        ("g(geo)", lambda I: D.g(I.geo)),
        ("g(a, matrix)", lambda I: D.g(I.a, support=I.support, distances=I.matrix)),
        ("g(a, nearest)", lambda I: D.g(I.a, distances=I.nearest)),
        ("j(a, both)", lambda I: D.j(I.a, support=I.support, distances=I.both, truncate=False)),
        ("j(series)", lambda I: D.j(I.series, truncate=False, hull=I.polygon)),
        ("k(a)", lambda I: D.k(I.a, support=I.support)),
        ("k(a, unsorted)", lambda I: D.k(I.a, support=I.mixed)),
        ("k(tree)", lambda I: D.k(I.tree, support=I.support)),
        ("k(a, matrix)", lambda I: D.k(I.a, distances=I.matrix)),
        ("k(a, vector)", lambda I: D.k(I.a, support=I.slist, distances=I.vector)),
        ("l(a, matrix)", lambda I: D.l(I.a, support=I.support, distances=I.matrix, linearized=True)),
    ]
    + [(f"{n}_test(a)", (lambda n: lambda I: getattr(D, f"{n}_test")(I.a, support=I.support, n_simulations=3, n_jobs=1, keep_simulations=True, hull=I.polygon))(n)) for n in "fgjkl"]
    + [
        ("g_test(geo, nearest)", lambda I: D.g_test(I.geo, distances=I.nearest, n_simulations=3, n_jobs=1)),
        ("k_test(a, matrix)", lambda I: D.k_test(I.a, support=I.slist, distances=I.matrix, n_simulations=3, n_jobs=1)),
        ("j_test(a, both)", lambda I: D.j_test(I.a, support=I.support, distances=I.both, n_simulations=3, n_jobs=1)),
        # space-time
        ("knox", lambda I: T.knox(I.a, I.t, I.c["delta"], 2, permutations=5)),
        ("knox float", lambda I: T.knox(I.a, I.tfloat, I.c["delta"], 1.0, permutations=5)),
        ("modified_knox", lambda I: T.modified_knox(I.a, I.t, I.c["delta"], 2, permutations=5)),
        ("mantel", lambda I: T.mantel(I.a, I.t, permutations=5)),
        ("jacquez", lambda I: T.jacquez(I.a, I.t, 2, permutations=5)),
        ("Knox", lambda I: T.Knox(I.a, I.t, I.c["delta"], 2, permutations=5, keep=True)),
        ("KnoxLocal", lambda I: T.KnoxLocal(I.a, I.t, I.c["delta"], 2, permutations=5, keep=True, ids=I.ids)),
        ("KnoxLocal hotspots", lambda I: T.KnoxLocal(I.a, I.tfloat, I.c["delta"], 2, permutations=5, ids=I.ids).hotspots(crit=0.7)),
        ("Knox frame", lambda I: T.Knox.from_dataframe(I.events, "day", I.c["delta"], 2, permutations=5)),
        ("KnoxLocal frame", lambda I: T.KnoxLocal.from_dataframe(I.events, "day", I.c["delta"], 2, permutations=5).hotspots(crit=0.7)),
        ("KnoxLocal plot", lambda I: T.KnoxLocal(I.a, I.t, I.c["delta"], 2, permutations=5).plot(crit=0.7, colors=I.colors, point_kwargs=I.style, edge_kwargs=I.estyle)),
        ("KnoxLocal map", lambda I: type(T.KnoxLocal(I.a, I.t, I.c["delta"], 2, permutations=5).explore(crit=0.7, colors=I.colors))),
        # an object made once
        ("fitted hotspots", lambda I: I.fitted.hotspots(crit=0.6)),
        ("fitted hotspots analytic", lambda I: I.fitted.hotspots(crit=0.8, inference="analytic", keep_neighbors=False)),
        ("fitted plot", lambda I: I.fitted.plot(crit=0.6, point_kwargs=I.style)),
        ("fitted plot analytic", lambda I: I.fitted.plot(crit=0.8, inference="analytic", plot_edges=False)),
        ("fitted map", lambda I: type(I.fitted.explore(crit=0.6))),
        ("QStatistic(a, seed)", lambda I: Q.QStatistic(I.a, nx=2, ny=2, rng=5).chi2),
        ("quadrats plot", lambda I: I.quadrats.plot()),
        ("quadrats plot chi2", lambda I: I.quadrats.plot(show="chi2")),
        ("quadrats", lambda I: [I.quadrats.chi2, I.quadrats.chi2_pvalue, I.quadrats.chi2_r_pvalue, I.quadrats.df, I.quadrats.chi2_contrib]),
        ("cells", lambda I: I.cells.point_location_sta()),
        ("cells plot", lambda I: I.cells.plot()),
        ("honeycomb", lambda I: I.honeycomb.point_location_sta()),
        ("honeycomb plot", lambda I: I.honeycomb.plot()),
        # density
        ("plot_density(a)", lambda I: pointpats.plot_density(I.a, G.extent(I.c["pts"]) / 4, resolution=I.resolution, levels=I.levels)),
        ("plot_density(geo)", lambda I: pointpats.plot_density(I.geo, G.extent(I.c["pts"]) / 4, resolution=8)),
        ("plot_density(a, filled)", lambda I: pointpats.plot_density(I.a, G.extent(I.c["pts"]) / 4, resolution=I.resolution, figsize=(3, 2), fill=True, margin=0.3, cmap="Reds")),
        ("plot_density(a, kernel)", lambda I: pointpats.plot_density(I.a, G.extent(I.c["pts"]) / 4, kernel="gaussian", resolution=32)),
    ]
)


def values(name, case, seed):
    """What the call gives, as plain numbers and words."""
    seed_everything(seed)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter("ignore")
        try:
            return plain(ENTRIES[name](Inputs(case))) + [out.getvalue()]
        finally:
            plt.close("all")


def plain(x):
    """Flattened: floats and words."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "iufb":
        return ["array", str(x.shape), *x.ravel().astype(float).tolist()]
    if isinstance(x, (float, int, np.number, bool, np.bool_)):
        return [float(x)]
    if isinstance(x, shapely.Geometry):
        return [x.geom_type, *shapely.get_coordinates(x).ravel().tolist()]
    if isinstance(x, pd.DataFrame):
        return [*map(repr, x.columns), *[v for k in x.columns for y in x[k] for v in plain(y)]]
    if isinstance(x, pd.Series):
        return [v for y in x for v in plain(y)]
    if isinstance(x, pointpats.PointPattern):
        return ["pattern", *plain(x.points)]
    if _is_tree(x):
        return plain(np.asarray(x.data))
    if isinstance(x, dict):
        return [v for k, y in x.items() for v in [repr(k), *plain(y)]]
    if isinstance(x, (list, tuple, np.ndarray)):
        return [v for y in x for v in plain(y)]
    if isinstance(x, matplotlib.axes.Axes):
        return ["axes", *[v for col in x.collections for p in col.get_paths() for v in plain(np.asarray(p.vertices))]]
    if isinstance(x, (Q.QStatistic, T.Knox, T.KnoxLocal)):
        return [v for k, y in sorted(x.__dict__.items()) if k not in ("rng", "_rng") for v in [k, *plain(y)]]
    return [x if isinstance(x, str) else type(x).__name__]


THEMES = [[n for n in sorted(ENTRIES) if any(w in n for w in words)] for words in (
    ("fitted",), ("quadrats", "cells", "honeycomb"), ("knn", "explode", "unique", "superimpose", "find_pairs", "summar", "plot pattern", "add_marks", "QStatistic(pattern)"),
    ("nox", "mantel", "jacquez"), ("test(", "f(", "g(", "j(", "k(", "l("), ("poisson", "normal", "strauss", "Process", "region"))]


@st.composite
def case_(draw):
    pts = draw(G.points(4, 9, places=G.near_place, large=30))
    n = len(pts)
    return {"pts": pts, "t": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)), "hull": draw(G.hull_case()), "hole": draw(st.booleans()),
            "delta": draw(st.sampled_from([0.25, 0.5, 1.0])) * G.extent(pts), "seed": draw(G.small_seed),
            "calls": draw(st.one_of(st.lists(st.sampled_from(sorted(ENTRIES)), min_size=1, max_size=8), *[st.lists(st.sampled_from(t), min_size=2, max_size=5) for t in THEMES]))}


def perform(name, I, seed):
    seed_everything(seed)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter("ignore")
        r = ENTRIES[name](I)
    return freeze(r), out.getvalue()


EXAMPLE = {"pts": [[0.0, 0.0], [4.0, 1.0], [4.0, 1.0], [2.0, 5.0], [-1.0, 3.0], [3.0, 3.0]], "t": [1, 4, 2, 2, 9, 0], "hull": {"kind": "bbox", "bbox": [-2.0, -1.0, 6.0, 7.0]}, "hole": True, "delta": 3.0, "seed": 5}


@check("histories", case_(), quick=1000, examples=[{**EXAMPLE, "calls": sorted(ENTRIES)[k::8]} for k in range(8)])
def histories(c, ctx):
    I = Inputs(c)  # noqa: E741
    seen = set()
    ctx.label(*c["calls"])
    try:
        for k, name in enumerate(c["calls"]):
            fresh = Inputs(c)
            want = ctx.call(name, perform, name, fresh, c["seed"] + k)
            for x in fresh.made:  # what this call uses
                getattr(I, x)
            ctx.interesting(bool(seen & set(fresh.made)))
            seen |= set(fresh.made)
            untouched = {x: freeze(v) for x, v in I.made.items()}
            got = ctx.call(f"{name} after {c['calls'][:k]}", perform, name, I, c["seed"] + k)
            for x, v in untouched.items():
                ctx.ok(freeze(I.made[x]) == v, lambda: f"{name} changed its input {x!r}")
            if got != want:
                ctx.ok(False, f"{name} after {c['calls'][:k]} gives another result than on inputs of its own")
    finally:
        plt.close("all")
    ctx.ok(os.environ.get("MPLBACKEND") == "Agg", "the plotting backend changed")
