"""Cases: a region of each supported kind (box array, polygon, thin strip, polygon with a hole,
two parts, scipy hull) at several places and scales, with query locations near vertices,
edges, hole and far away; and point sets for prepare_hull. Area, extent, centroid and
membership are compared with computations from the rings alone; locations closer to the
boundary than rounding are left out. Non-trivial: a location inside and one outside that is
within the bounding box, or a hull made from points."""
import numpy as np
import shapely
from hypothesis import strategies as st
from libpysal.cg import alpha_shape_auto
from scipy.spatial import ConvexHull, Delaunay

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check
from pointpats import geometry as geo

locs = st.lists(st.tuples(st.integers(0, 12), st.integers(-4, 36), st.integers(-4, 36), st.booleans()).map(list), min_size=1, max_size=12)
case = st.fixed_dictionaries({"hull": G.hull_case(), "locs": locs})


def locations(reg, spec):
    b = reg.bbox
    span = b[2:] - b[:2]
    verts = [p for r in reg.rings for p in r]
    for i, u, v, near in spec:
        if near:  # around a vertex
            p = np.array(verts[i % len(verts)]) + (np.array([u, v]) - 16) / 64.0 * span
        else:
            p = b[:2] + np.array([u, v]) / 32.0 * span
        yield p


@check("region", case, quick=2000)
def region(c, ctx):
    obj, _ = G.make_hull(c["hull"])
    reg = O.region(c["hull"])
    scale = float((reg.bbox[2:] - reg.bbox[:2]).max())
    mag = float(np.abs(reg.bbox).max())
    ctx.label(c["hull"]["kind"])
    ctx.close(ctx.call("area", geo.area, obj), reg.area, "area", rtol=1e-9, atol=1e-11 * mag * scale)
    ctx.close(ctx.call("bbox", geo.bbox, obj), reg.bbox, "bbox", rtol=1e-12, atol=1e-12 * scale)
    cen = np.asarray(ctx.call("centroid", geo.centroid, obj), float)
    if c["hull"]["kind"] == "convexhull":
        want = np.array(reg.parts[0]).mean(axis=0)
        if len(obj.vertices) != len(reg.parts[0]):
            want = cen
    else:
        want = reg.centroid
    ctx.close(cen, want, "centroid", rtol=1e-9, atol=1e-9 * mag)
    inside = outside = False
    tol = 1e-9 * scale + 1e-12 * mag
    for p in locations(reg, c["locs"]):
        if reg.dist(p) <= tol:
            ctx.label("location on the boundary, skipped")
            continue
        want = reg.contains(p)
        got = ctx.call("contains", geo.contains, obj, float(p[0]), float(p[1]))
        ctx.ok(bool(got) == want, f"contains({p.tolist()}) is {got}, expected {want}")
        inside |= want
        outside |= not want and bool((p > reg.bbox[:2]).all() and (p < reg.bbox[2:]).all())
    ctx.interesting(inside and (outside or c["hull"]["kind"] == "bbox"))


pts_case = st.fixed_dictionaries({"pts": G.points(4, 14, places=G.near_place, large=60, huge=300), "locs": locs,
                                  "how": st.sampled_from(["default", "bbox", "convex", "convex hull", "alpha", "α", "box", "polygon", "scipy", "multi"])})


@check("prepare_hull", pts_case, quick=900)
def prepare_hull(c, ctx):
    a = G.arr(c["pts"])
    how = c["how"]
    ctx.label(how)
    ctx.interesting()
    bb = np.array([*a.min(axis=0), *a.max(axis=0)])
    scale, mag = G.extent(c["pts"]), G.magnitude(c["pts"])
    tol = 1e-9 * scale + 1e-12 * mag
    if how in ("default", "bbox"):
        h = ctx.call("prepare_hull", geo.prepare_hull, a) if how == "default" else ctx.call("prepare_hull", geo.prepare_hull, a, "bbox")
        ctx.equal(np.asarray(h), bb, "hull of points")
        reg = O.region({"kind": "bbox", "bbox": bb.tolist()})
    elif how.startswith("convex"):
        h = ctx.call("prepare_hull", geo.prepare_hull, a, how)
        ctx.ok(isinstance(h, ConvexHull), f"prepare_hull gave {h!r}")
        reg = O.Region([O.convex_hull(a).tolist()])
        ctx.close(geo.area(h), reg.area, "area of the hull", rtol=1e-9, atol=1e-11 * mag * scale)
    elif how in ("alpha", "α"):
        q = np.unique(a, axis=0)
        if len(q) < 4 or np.linalg.matrix_rank(q - q[0], tol=1e-3 * scale) < 2:
            return
        # no three points in line, so that the triangulation is regular
        q = q + 0.2 * scale / len(q) * np.array([[np.cos(7.0 * i * i), np.sin(5.0 * i * i + i)] for i in range(len(q))])
        h = ctx.call("prepare_hull", geo.prepare_hull, q, how)
        ctx.ok(isinstance(h, (shapely.Polygon, shapely.MultiPolygon)), f"prepare_hull gave {h!r}")
        full = O.hull_area(q)
        ctx.ok(0 < geo.area(h) <= full * (1 + 1e-9), f"alpha shape of area {geo.area(h)!r}, hull {full!r}")
        same = ctx.call("alpha_shape_auto", alpha_shape_auto, q)  # libpysal's, by definition
        ctx.ok(h.equals(same), f"alpha shape {h.wkt}, libpysal's {same.wkt}")
        return
    else:
        ready = {"box": bb, "polygon": shapely.box(*bb), "scipy": ConvexHull(a),
                 "multi": shapely.MultiPolygon([shapely.box(*bb)])}[how]
        h = ctx.call("prepare_hull", geo.prepare_hull, a[:4], ready)
        ctx.ok(h is ready, f"a ready-made region {ready!r} came back as {h!r}")
        return
    for p in locations(reg, c["locs"]):
        if reg.dist(p) > tol:
            ctx.equal(bool(geo.contains(h, float(p[0]), float(p[1]))), reg.contains(p), f"contains({p.tolist()})")


@check("others", pts_case, quick=300)
def others(c, ctx):
    """Lists, point arrays and triangulations; refusals."""
    a = G.arr(c["pts"])
    bb = [*a.min(axis=0), *a.max(axis=0)]
    ctx.interesting()
    ctx.close(ctx.call("bbox of a list", geo.bbox, [list(p) for p in a]), bb, "bbox of a list", rtol=0)
    ctx.close(ctx.call("bbox of an array", geo.bbox, a), bb, "bbox of an array", rtol=0)
    ctx.close(ctx.call("area of a list", geo.area, [float(v) for v in bb]), (bb[2] - bb[0]) * (bb[3] - bb[1]), "area of a box list")
    ctx.close(ctx.call("centroid of points", geo.centroid, a), a.mean(axis=0), "centroid of points", rtol=1e-12, atol=1e-12 * G.magnitude(c["pts"]))
    d = Delaunay(a)
    reg = O.Region([O.convex_hull(a).tolist()])
    for p in locations(reg, c["locs"]):
        if reg.dist(p) > 1e-6 * G.extent(c["pts"]) + 1e-12 * G.magnitude(c["pts"]):
            ctx.equal(bool(ctx.call("contains", geo.contains, d, float(p[0]), float(p[1]))), reg.contains(p), f"triangulation contains {p.tolist()}")
    ctx.refused("prepare_hull('nothing')", (ValueError,), geo.prepare_hull, a, "nothing")
