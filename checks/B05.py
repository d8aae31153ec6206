"""Cases: a point set, a container form, weights in some form and an option setting; every
centrographic measure on that container is compared with the same measure on a plain array.
Non-trivial: the container is not an array."""
import numpy as np
import shapely
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check
from pointpats import centrography as cg


@st.composite
def case(draw):
    pts = draw(G.points(3, 12, places=G.near_place, large=60, huge=400))
    n = len(pts)
    return {"pts": pts, "form": draw(st.sampled_from(G.ARRAY_FORMS[1:] + G.GEO_FORMS)),
            "w": G.weights(draw, n, 20),
            "wform": draw(st.sampled_from(["list", "array", "series", "tuple"])),
            "method": draw(st.sampled_from(["crimestat", "yuill"])), "corr": draw(st.booleans()), "df": draw(st.booleans()),
            "weighted": draw(st.booleans()), "at": draw(st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list)),
            "atform": draw(st.sampled_from(["list", "tuple", "array"]))}


def weights(c):
    import pandas as pd

    w = c["w"]
    return {"list": list(w), "array": np.array(w), "tuple": tuple(w),
            "series": pd.Series(w, index=np.arange(len(w))[::-1])}[c["wform"]]


def xy(geo, v, ctx, what):
    if geo:
        ctx.ok(isinstance(v, shapely.Point), f"{what} gave {v!r} for geographic input")
        return [v.x, v.y]
    ctx.ok(isinstance(v, np.ndarray) and v.shape == (2,), f"{what} gave {v!r}")
    return v


@check("measures", case(), quick=1500)
def measures(c, ctx):
    a = G.arr(c["pts"])
    obj = G.as_container(c["pts"], c["form"])
    geo = c["form"].startswith("geo")
    mag, ext = G.magnitude(c["pts"]), G.extent(c["pts"])
    ctx.label(c["form"], c["wform"])
    ctx.interesting()
    tol = dict(rtol=1e-12, atol=1e-12 * mag)
    em = xy(geo, ctx.call("euclidean_median", cg.euclidean_median, obj), ctx, "euclidean_median")
    total = [np.hypot(*(a - x).T).sum() for x in (np.array(em), cg.euclidean_median(a))]
    ctx.close(total[0], total[1], f"distance total of the euclidean_median of a {c['form']}", rtol=1e-6)
    for name in ("mean_center", "manhattan_median"):
        f = getattr(cg, name)
        ctx.close(xy(geo, ctx.call(name, f, obj), ctx, name), f(a), f"{name} of a {c['form']}", **tol)
    w = weights(c)
    ctx.close(xy(geo, ctx.call("weighted_mean_center", cg.weighted_mean_center, obj, w), ctx, "weighted_mean_center"),
              cg.weighted_mean_center(a, np.array(c["w"])), "weighted_mean_center", **tol)
    ctx.close(ctx.call("std_distance", cg.std_distance, obj), cg.std_distance(a), "std_distance", **tol)
    at = [float(v) for v in c["at"]]
    if geo:
        d = ctx.call("dtot", cg.dtot, shapely.Point(*at), obj)
    else:
        q = {"list": at, "tuple": tuple(at), "array": np.array(at)}[c["atform"]]
        d = ctx.call(f"dtot of a {c['atform']} and a {c['form']}", cg.dtot, q, obj)
    ctx.close(d, cg.dtot(np.array(at), a), "dtot", **tol)
    kw = dict(method=c["method"], crimestatCorr=c["corr"], degfreedCorr=c["df"])
    if c["weighted"]:
        kw["weights"] = w
        kwa = dict(kw, weights=np.array(c["w"]))
    else:
        kwa = kw
    major, minor, ang = cg.ellipse(a, **kwa)
    got = ctx.call("ellipse", cg.ellipse, obj, **kw)
    if geo:
        ctx.ok(isinstance(got, shapely.Polygon), f"ellipse gave {got!r}")
        m = cg.weighted_mean_center(a, np.array(c["w"])) if c["weighted"] else a.mean(axis=0)
        if minor > 1e-3 * major:
            ctx.close(got.area, major * minor * shapely.Point(0, 0).buffer(1).area, "area of the ellipse", rtol=1e-6)
            ctx.close([got.centroid.x, got.centroid.y], m, "centre of the ellipse", rtol=0, atol=1e-6 * ext + 1e-10 * mag)
            far = np.hypot(*(shapely.get_coordinates(got) - m).T).max()
            ctx.close(far, major, "longest radius of the ellipse", rtol=1e-5)
    else:
        ctx.close(got, (major, minor, ang), "ellipse", rtol=1e-9, atol=1e-9 * major)
    r = ctx.call("minimum_bounding_rectangle", cg.minimum_bounding_rectangle, obj)
    ctx.close(r.bounds if geo else r, cg.minimum_bounding_rectangle(a), "minimum_bounding_rectangle", **tol)
    h = ctx.call("hull", cg.hull, obj)
    want = cg.hull(a)
    if geo:
        ctx.ok(isinstance(h, shapely.Polygon), f"hull gave {h!r}")
        ctx.close(h.area, O.shoelace(want), "area of the hull", rtol=1e-9, atol=1e-12 * mag * ext)
        v = set(map(tuple, shapely.get_coordinates(h)))
        ctx.ok(v <= set(map(tuple, a)), "a hull vertex is none of the points")
    else:
        ctx.ok(isinstance(h, np.ndarray), f"hull gave {h!r}")
        ctx.equal(h, want, f"hull of a {c['form']}")
    q, ang = ctx.call("minimum_rotated_rectangle", cg.minimum_rotated_rectangle, obj, return_angle=True)
    q0, ang0 = cg.minimum_rotated_rectangle(a, return_angle=True)
    if geo:
        ctx.ok(isinstance(q, shapely.Polygon), f"minimum_rotated_rectangle gave {q!r}")
        v = shapely.get_coordinates(q)[:-1]
        ctx.equal(sorted(map(tuple, v)), sorted(map(tuple, q0)), "corners of the rotated rectangle")
    else:
        ctx.equal(np.asarray(q), q0, "corners of the rotated rectangle")
    ctx.equal(float(ang), float(ang0), "angle of the rotated rectangle")
