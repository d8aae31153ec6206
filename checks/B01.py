"""Cases: point sets of every kind (grids, duplicates, floats, collinear runs, clusters) at every
location and scale, as array or GeoSeries; the rectangle, hull and rotated rectangle are
compared with minima and maxima, Andrew's monotone chain and the smallest rectangle over all
hull-edge directions. Non-trivial: a hull of more than four vertices, or negative coordinates."""
import numpy as np
import shapely
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check
from pointpats import centrography as cg

case = st.fixed_dictionaries({
    "pts": st.one_of(
        G.points(3, 16, large=90, huge=600),
        st.builds(lambda p, t, pl: G.put(G.spread([[a * np.cos(t / 7) - b * np.sin(t / 7), a * np.sin(t / 7) + b * np.cos(t / 7)] for a, b in p]), pl),
                  G.raw_points(3, 16, large=90, huge=600), st.integers(0, 44), G.place)),
    "form": st.sampled_from(["array", "array", "fortran", "list", "frame", "geoseries", "geodataframe"]),
})


def prepare(c, ctx):
    a = G.arr(c["pts"])
    h = O.convex_hull(a)
    ctx.label(c["form"], f"hull>{4 if len(h) > 4 else 2}")
    ctx.interesting(len(h) > 4 or bool((a < 0).all(axis=1).any()))
    return a, h, G.as_container(c["pts"], c["form"]), c["form"].startswith("geo")


@check("rectangle", case, quick=1200)
def rectangle(c, ctx):
    a, h, obj, geo = prepare(c, ctx)
    want = [*a.min(axis=0), *a.max(axis=0)]
    got = ctx.call("minimum_bounding_rectangle", cg.minimum_bounding_rectangle, obj)
    if geo:
        ctx.ok(isinstance(got, shapely.Polygon), f"minimum_bounding_rectangle gave {got!r}")
        ctx.equal([float(v) for v in got.bounds], [float(v) for v in want], "bounds of the rectangle")
        ctx.close(got.area, (want[2] - want[0]) * (want[3] - want[1]), "area of the rectangle", rtol=1e-9, atol=1e-12 * G.magnitude(c["pts"]) ** 2)
    else:
        ctx.equal([float(v) for v in got], [float(v) for v in want], "minimum_bounding_rectangle")


@check("hull", case, quick=1200)
def hull(c, ctx):
    a, h, obj, geo = prepare(c, ctx)
    tol = 1e-9 * G.extent(c["pts"]) + 1e-12 * G.magnitude(c["pts"])
    got = ctx.call("hull", cg.hull, obj)
    if geo:
        ctx.ok(isinstance(got, shapely.Polygon), f"hull gave {got!r}")
        v = shapely.get_coordinates(got)[:-1]
        if O.shoelace(v) < 0:
            v = v[::-1]
    else:
        v = np.asarray(got, float)
    ctx.ok(v.ndim == 2 and v.shape[1] == 2 and len(v) >= 3, f"hull has shape {v.shape}")
    if len(v) > 1 and (v[0] == v[-1]).all():
        v = v[:-1]
    ctx.ok(set(map(tuple, v)) <= set(map(tuple, a)), "a hull vertex is none of the points")
    ctx.ok(len(set(map(tuple, v))) == len(v), f"repeated hull vertices {v.tolist()}")
    if geo:
        proper = O.convex_hull(v)
        if len(proper) < len(v) and not c.get("known"):
            # GEOS may list nearly straight corners out of order: known_findings.json
            ctx.label("excluded: hull with a nearly straight corner")
            e = np.roll(h, -1, axis=0) - h
            off = (e[:, None, 0] * (v[None, :, 1] - h[:, None, 1]) - e[:, None, 1] * (v[None, :, 0] - h[:, None, 0])) / np.hypot(*e.T)[:, None]
            ctx.ok(off.min(axis=0).max() <= tol, f"a hull vertex lies {off.min(axis=0).max()!r} inside the hull")
            v = proper
    ctx.close(O.shoelace(v), O.shoelace(h), "signed area of the hull", rtol=1e-9, atol=tol * G.extent(c["pts"]))
    if geo:
        v = O.convex_hull(v)
    e = np.roll(v, -1, axis=0) - v
    L = np.hypot(*e.T)
    d = (e[:, None, 0] * (a[None, :, 1] - v[:, None, 1]) - e[:, None, 1] * (a[None, :, 0] - v[:, None, 0])) / L[:, None]
    ctx.ok(d.min() >= -tol, f"a point lies {-d.min()!r} outside the hull")
    turns = np.array([e[i, 0] * e[(i + 1) % len(e), 1] - e[i, 1] * e[(i + 1) % len(e), 0] for i in range(len(e))])
    ctx.ok((turns >= -tol * L.max()).all(), f"the hull is not convex and counter-clockwise: {v.tolist()}")


@check("rotated", case, quick=1200)
def rotated(c, ctx):
    a, h, obj, geo = prepare(c, ctx)
    ext, mag = G.extent(c["pts"]), G.magnitude(c["pts"])
    # the library computes intersections of lines in absolute coordinates
    tol = 1e-9 * ext + 1e-12 * mag + 1e-13 * mag**2 / ext
    he = np.roll(h, -1, axis=0) - h
    hn = np.roll(he, -1, axis=0)
    sines = (he[:, 0] * hn[:, 1] - he[:, 1] * hn[:, 0]) / (np.hypot(*he.T) * np.hypot(*hn.T))
    if sines.min() < 1e-9 and not c.get("known"):
        # GEOS may then return a wrong rectangle: known_findings.json
        ctx.label("excluded: hull with a nearly straight corner")
        return
    best = np.inf
    for i in range(len(h)):
        u = h[(i + 1) % len(h)] - h[i]
        u = u / np.hypot(*u)
        w = np.ptp((h - h[0]) @ u)
        t = np.ptp((h - h[0]) @ np.array([-u[1], u[0]]))
        best = min(best, w * t)
    plain = ctx.call("minimum_rotated_rectangle", cg.minimum_rotated_rectangle, obj)
    got, angle = ctx.call("minimum_rotated_rectangle(return_angle)", cg.minimum_rotated_rectangle, obj, return_angle=True)
    if geo:
        ctx.ok(isinstance(got, shapely.Polygon) and isinstance(plain, shapely.Polygon), f"gave {got!r}")
        r, r0 = shapely.get_coordinates(got)[:-1], shapely.get_coordinates(plain)[:-1]
    else:
        r, r0 = np.asarray(got, float), np.asarray(plain, float)
    ctx.equal(r, r0, "the rectangle with and without its angle")
    ctx.equal(r.shape, (4, 2), "corners of the rectangle")
    e = np.roll(r, -1, axis=0) - r
    L = np.hypot(*e.T)
    ctx.ok(L.min() > 0, f"degenerate rectangle {r.tolist()}")
    dots = np.array([abs(e[i] @ e[(i + 1) % 4]) / L.max() for i in range(4)])
    ctx.ok(dots.max() <= 10 * tol, f"no right angles: {r.tolist()}")
    ctx.close(abs(O.shoelace(r)), best, "area of the smallest rectangle", rtol=1e-8, atol=4 * tol * ext)
    s = 1 if O.shoelace(r) > 0 else -1
    d = s * (e[:, None, 0] * (a[None, :, 1] - r[:, None, 1]) - e[:, None, 1] * (a[None, :, 0] - r[:, None, 0])) / L[:, None]
    ctx.ok(d.min() >= -4 * tol, f"a point lies {-d.min()!r} outside the rectangle")
    k = int(np.argmax(L))
    want = np.degrees(np.arctan2(e[k, 1], e[k, 0])) % 90
    diff = abs((angle - want + 45) % 90 - 45)
    ctx.ok(0 <= angle <= 90 and diff <= np.degrees(20 * tol / L.min()) + 1e-7, f"angle {angle!r}, sides point to {want!r} (mod 90)")
