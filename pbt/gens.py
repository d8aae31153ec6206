"""Strategies for cases.  Everything they yield is plain JSON (lists, numbers, strings)."""
import numpy as np
from hypothesis import strategies as st

# (offset x, offset y, unit): where on the plane, and in which unit, a pattern lives.
# All representable; the large ones are like projected (UTM, Lambert) coordinates.
PLACES = [
    (0.0, 0.0, 1.0),
    (0.0, 0.0, 1.0),
    (-7.0, -3.0, 1.0),
    (0.0, 0.0, 64.0),
    (0.0, 0.0, 0.015625),
    (-512.0, 2048.0, 1.0),
    (0.0, 0.0, 2.0**-14),  # like thousandths of a degree
    (500000.0, 4649776.0, 16.0),
    (-1000.5, -2000.25, 0.5),
]
place = st.sampled_from(PLACES)
near_place = st.sampled_from(PLACES[:7])


@st.composite
def raw_points(draw, min_size=3, max_size=20, kinds=("grid", "dyadic", "dups", "float", "line", "cluster"), large=0, huge=0):
    """Up to max_size points drawn one by one; with large, sometimes up to so many, from a seed;
    with huge, now and then up to so many."""
    pick = draw(st.integers(0, 27)) if large else 0
    if pick in (7, 8, 19):
        rare = huge and pick == 19
        n, s = draw(st.integers(large + 1, huge) if rare else st.integers(max_size + 1, large)), draw(st.integers(0, 10**6))
        g = draw(st.sampled_from([4, 16, 160, 1024]))  # from many coincident points to few
        return (np.random.default_rng(s).integers(-g, g + 1, (n, 2)) / 16.0).tolist()
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(min_size, max_size))
    if kind == "grid":  # many ties, coincident points, collinear subsets
        g = draw(st.integers(2, 6))
        xy = draw(st.lists(st.tuples(st.integers(0, g), st.integers(0, g)), min_size=n, max_size=n))
        pts = [[float(a), float(b)] for a, b in xy]
    elif kind == "dyadic":
        q = st.integers(-1024, 1024)
        xy = draw(st.lists(st.tuples(q, q), min_size=n, max_size=n))
        pts = [[a / 64.0, b / 64.0] for a, b in xy]
    elif kind == "dups":
        q = st.integers(-40, 40)
        base = draw(st.lists(st.tuples(q, q), min_size=2, max_size=max(3, n // 2)))
        idx = draw(st.lists(st.integers(0, len(base) - 1), min_size=n, max_size=n))
        pts = [[base[i][0] / 4.0, base[i][1] / 4.0] for i in idx]
    elif kind == "float":
        f = st.floats(-50.0, 50.0, allow_nan=False, width=32)
        pts = [list(t) for t in draw(st.lists(st.tuples(f, f), min_size=n, max_size=n))]
    elif kind == "line":
        dx, dy = draw(st.tuples(st.integers(-3, 3), st.integers(-3, 3)))
        if dx == dy == 0:
            dx = 1
        ts = draw(st.lists(st.integers(-12, 12), min_size=n, max_size=n))
        pts = [[t * dx / 2.0, t * dy / 2.0] for t in ts]
    else:  # cluster
        q = st.integers(-64, 64)
        cs = draw(st.lists(st.tuples(q, q), min_size=1, max_size=3))
        off = st.integers(-8, 8)
        rows = draw(
            st.lists(st.tuples(st.integers(0, len(cs) - 1), off, off), min_size=n, max_size=n)
        )
        pts = [[cs[i][0] + a / 16.0, cs[i][1] + b / 16.0] for i, a, b in rows]
    return pts


def whole(draw, n, lo, hi):
    """n whole numbers, drawn one by one or, when they are many, from a seed"""
    if n > 100:
        return np.random.default_rng(draw(st.integers(0, 10**6))).integers(lo, hi + 1, n).tolist()
    return draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))


def weights(draw, n, top):
    """n weights in quarters"""
    return [v / 4.0 for v in whole(draw, n, 1, top)]


def put(pts, place):
    ox, oy, u = place
    return [[p[0] * u + ox, p[1] * u + oy] for p in pts]


def spread(pts):
    """Make the points span a bounding box of positive width and height, hull too."""
    a = np.asarray(pts, float)
    w, h = a.max(axis=0) - a.min(axis=0)
    pts = [list(p) for p in pts]
    if w == 0:
        pts[-1][0] += 4.0
    if h == 0:
        pts[0][1] += 3.0
    a = np.asarray(pts, float)
    if not noncollinear(a):
        # move one extreme point off the line
        pts.append([a[:, 0].min(), a[:, 1].max() + 2.0])
        if not noncollinear(np.asarray(pts, float)):
            pts.append([a[:, 0].max() + 5.0, a[:, 1].min() - 1.0])
    return pts


def noncollinear(a, rel=1e-3):
    """True when the points have a hull that is not a sliver."""
    a = np.asarray(a, float)
    c = a - a.mean(axis=0)
    scale = np.abs(c).max()
    if scale == 0:
        return False
    s = np.linalg.svd(c / scale, compute_uv=False)
    return len(s) > 1 and s[-1] > rel


@st.composite
def points(draw, min_size=3, max_size=20, kinds=("grid", "dyadic", "dups", "float", "line", "cluster"),
           places=place, flat_ok=False, large=0, huge=0):
    pts = draw(raw_points(min_size, max_size, kinds, large, huge))
    if not flat_ok:
        pts = spread(pts)
    return put(pts, draw(places))


exact_kinds = ("grid", "dyadic", "dups", "line", "cluster")


def exact_points(min_size=3, max_size=20, places=place, flat_ok=False, large=0, huge=0):
    """Coordinates on dyadic grids: differences and comparisons are exact."""
    return points(min_size, max_size, exact_kinds, places, flat_ok, large, huge)


small_seed = st.integers(0, 10**6)


def arr(pts):
    return np.array(pts, dtype=float).reshape(-1, 2)


def extent(pts):
    a = arr(pts)
    return float(max((a.max(axis=0) - a.min(axis=0)).max(), 1e-12))


def magnitude(pts):
    return float(max(np.abs(arr(pts)).max(), 1e-12))


# ---------------------------------------------------------------- containers


def as_container(pts, form):
    """The same points as another kind of container."""
    import geopandas as gpd
    import pandas as pd

    a = np.array(pts, dtype=float).reshape(-1, 2)
    if form == "array":
        return a
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "list":
        return [list(map(float, r)) for r in a]
    if form == "tuples":
        return [tuple(map(float, r)) for r in a]
    if form == "frame":
        return pd.DataFrame(a, columns=["x", "y"])
    if form == "geoseries":
        return gpd.GeoSeries(gpd.points_from_xy(a[:, 0], a[:, 1]))
    if form == "geoseries_crs":
        return gpd.GeoSeries(gpd.points_from_xy(a[:, 0], a[:, 1]), crs="EPSG:3857",
                             index=[f"p{i}" for i in range(len(a))][::-1])
    if form == "geodataframe":
        return gpd.GeoDataFrame({"v": np.arange(len(a))}, geometry=gpd.points_from_xy(a[:, 0], a[:, 1]))
    if form == "geodataframe_named":
        return gpd.GeoDataFrame({"v": np.arange(len(a))[::-1], "where": gpd.points_from_xy(a[:, 0], a[:, 1])},
                                geometry="where", index=np.arange(len(a)) * 2 + 5)
    raise ValueError(form)


ARRAY_FORMS = ("array", "fortran", "list", "tuples", "frame")
GEO_FORMS = ("geoseries", "geoseries_crs", "geodataframe", "geodataframe_named")


# ---------------------------------------------------------------- polygons and hulls


@st.composite
def star_ring(draw, min_v=3, max_v=8, rmin=4, rmax=16):
    """A simple ring around the origin: vertices at increasing angles, any radii."""
    k = draw(st.integers(min_v, max_v))
    radii = draw(st.lists(st.integers(rmin, rmax), min_size=k, max_size=k))
    turn = draw(st.integers(0, 31))
    ring = []
    for i, r in enumerate(radii):
        t = 2 * np.pi * (i / k + turn / 32.0 / k)
        # coordinates on a fine dyadic grid keep everything exactly representable
        ring.append([round(r * np.cos(t) * 64) / 64.0, round(r * np.sin(t) * 64) / 64.0])
    return ring


@st.composite
def hull_case(draw, kinds=("bbox", "polygon", "holed", "multi", "convexhull", "thin"), places=near_place):
    """A region of a given kind, as JSON."""
    kind = draw(st.sampled_from(kinds))
    ox, oy, u = draw(places)
    mv = lambda ring: [[p[0] * u + ox, p[1] * u + oy] for p in ring]  # noqa: E731
    if kind == "bbox":
        x, y = draw(st.integers(-20, 20)), draw(st.integers(-20, 20))
        w, h = draw(st.integers(1, 40)), draw(st.integers(1, 40))
        return {"kind": kind, "bbox": [x * u / 4 + ox, y * u / 4 + oy, (x + w) * u / 4 + ox, (y + h) * u / 4 + oy]}
    if kind == "thin":  # a long diagonal strip: most of its bounding box is outside
        w = draw(st.integers(1, 4)) / 4.0
        s = draw(st.sampled_from([-1, 1]))
        ring = [[-8.0, -8.0 * s], [-8.0 + w, -8.0 * s], [8.0, 8.0 * s], [8.0 - w, 8.0 * s]]
        return {"kind": "polygon", "rings": [mv(ring)]}
    if kind == "polygon":
        return {"kind": kind, "rings": [mv(draw(star_ring()))]}
    if kind == "holed":
        outer = draw(star_ring(4, 8, 10, 16))
        inner = draw(star_ring(3, 6, 1, 4))
        return {"kind": kind, "rings": [mv(outer), mv(inner)]}
    if kind == "multi":
        holes = draw(st.sampled_from([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)]))  # which parts have one
        dy = draw(st.integers(-4, 4))
        shift = lambda ring: [[p[0] + 20.0, p[1] + dy] for p in ring]  # noqa: E731
        parts = [draw(star_ring(3, 6, 5 if h else 3, 8)) for h in holes]
        inner = [draw(star_ring(3, 5, 1, 2)) if h else None for h in holes]
        c = {"kind": kind, "rings": [mv(parts[0]), mv(shift(parts[1]))]}
        if any(holes):
            c["holes"] = [inner[0] and mv(inner[0]), inner[1] and mv(shift(inner[1]))]
        return c
    if kind == "convexhull":
        pts = spread(draw(raw_points(4, 10, ("grid", "dyadic", "float"))))
        return {"kind": kind, "points": mv(pts)}
    raise ValueError(kind)


def make_hull(case):
    """(object for pointpats, shapely geometry of the same set)"""
    import shapely
    from scipy.spatial import ConvexHull

    k = case["kind"]
    if k == "bbox":
        b = case["bbox"]
        return np.array(b, float), shapely.box(*b)
    if k == "polygon":
        g = shapely.Polygon(case["rings"][0])
        return g, g
    if k == "holed":
        g = shapely.Polygon(case["rings"][0], [case["rings"][1]])
        return g, g
    if k == "multi":
        g = shapely.MultiPolygon([shapely.Polygon(r, [h] if h else []) for r, h in zip(case["rings"], case.get("holes", [None, None]))])
        return g, g
    if k == "convexhull":
        a = arr(case["points"])
        return ConvexHull(a), shapely.MultiPoint(a).convex_hull
    if k == "points":
        a = arr(case["points"])
        return a, shapely.box(*a.min(axis=0), *a.max(axis=0))
    raise ValueError(k)
