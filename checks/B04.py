"""Cases: point clouds that are axis aligned, tall, wide, diagonal, symmetric up to rounding or
arbitrary, with and without weights, every method and switch; the ellipse is compared with
the eigenvectors of the weighted covariance, the geographic polygon vertex by vertex with
the ellipse equation. Non-trivial: axes that differ by more than one per cent."""
import math

import numpy as np
import shapely
from hypothesis import strategies as st

from pbt import gens as G
from pbt.core import check
from pointpats import centrography as cg


@st.composite
def case(draw):
    k = draw(st.sampled_from(["points", "points", "cross", "box", "rotated", "diagonal"]))
    if k == "points":
        pts = draw(G.raw_points(3, 14, large=70, huge=400))
    elif k in ("cross", "box"):
        # mirror images: the true covariance is diagonal
        q = draw(st.lists(st.tuples(st.integers(1, 99), st.integers(1, 99)), min_size=1, max_size=4))
        f = draw(st.sampled_from([0.1, 1.0, 1 / 3]))
        g = draw(st.sampled_from([1.0, 0.01, 7.0]))
        pts = []
        for x, y in q:
            x, y = x * f, y * f * g
            pts += [[x, 0.0], [-x, 0.0], [0.0, y], [0.0, -y]] if k == "cross" else [[x, y], [-x, y], [x, -y], [-x, -y]]
    elif k == "rotated":
        t = draw(st.integers(0, 127)) * math.pi / 64
        pts = [[x * math.cos(t) - y * math.sin(t), x * math.sin(t) + y * math.cos(t)]
               for x, y in [[a * 3.0, b * 0.5] for a in range(-2, 3) for b in range(-1, 2)]]
    else:
        s = draw(st.sampled_from([-1.0, 1.0]))
        e = draw(st.lists(st.tuples(st.integers(-40, 40), st.integers(-3, 3)), min_size=3, max_size=9))
        pts = [[a / 4.0, s * a / 4.0 + b / 8.0] for a, b in e]
    ox, oy, u = draw(st.sampled_from(G.PLACES[:7] + [(0.1, -0.7, 1.0), (0.3, 0.3, 0.1)]))
    pts = G.put(G.spread(pts), (ox, oy, u))
    n = len(pts)
    w = [v / 2.0 for v in G.whole(draw, n, 1, 20)] if draw(st.booleans()) else None
    return {"pts": pts, "w": w, "method": draw(st.sampled_from(["crimestat", "yuill", "Yuill", "CrimeStat"])),
            "corr": draw(st.booleans()), "df": draw(st.booleans()),
            "wform": draw(st.sampled_from(["list", "array"]))}


def reference(c):
    a = G.arr(c["pts"])
    n = len(a)
    w = np.ones(n) if c["w"] is None else np.array(c["w"])
    m = np.array([math.fsum(w * a[:, k]) for k in (0, 1)]) / math.fsum(w)
    d = a - m
    cov = np.array([[math.fsum(w * d[:, i] * d[:, j]) for j in (0, 1)] for i in (0, 1)]) / math.fsum(w)
    val, vec = np.linalg.eigh(cov)
    f = 1.0
    crime = c["method"].lower() == "crimestat"
    if crime or c["corr"]:
        f *= math.sqrt(2)
    if crime or c["df"]:
        f *= math.sqrt(n / (n - 2))
    minor, major = f * np.sqrt(np.maximum(val, 0))
    return m, major, minor, math.atan2(vec[1, 1], vec[0, 1])


def options(c):
    kw = dict(method=c["method"], crimestatCorr=c["corr"], degfreedCorr=c["df"])
    if c["w"] is not None:
        kw["weights"] = c["w"] if c["wform"] == "list" else np.array(c["w"])
    return kw


EX = [{"pts": p, "w": None, "method": "crimestat", "corr": True, "df": True, "wform": "list"} for p in (
    [[0.1, 0.0], [-0.1, 0.0], [0.0, 0.7], [0.0, -0.7]], [[0.7, 0.2], [-0.5, 0.2], [0.7, -0.4], [-0.5, -0.4]],
    [[1.1, 10.3], [1.1, 0.1], [2.2, 10.3], [2.2, 0.1], [3.3, 10.3], [3.3, 0.1]])]


@check("axes", case(), quick=2500, examples=EX)
def axes(c, ctx):
    m, major, minor, angle = reference(c)
    mag = G.magnitude(c["pts"])
    got = ctx.call("ellipse", cg.ellipse, G.arr(c["pts"]), **options(c))
    ctx.equal(len(got), 3, "length of the result")
    tol = dict(rtol=1e-7, atol=1e-7 * major + 1e-11 * mag)
    ctx.close(got[0], major, "major axis", **tol)
    ctx.close(got[1], minor, "minor axis", **tol)
    ctx.label(c["method"].lower(), "weighted" if c["w"] else "unweighted")
    gap = 1 - minor / major
    ctx.interesting(gap > 0.01)
    if gap > 1e-3:
        diff = abs((got[2] - angle + math.pi / 2) % math.pi - math.pi / 2)
        ctx.ok(diff <= 1e-6 / gap + 1e-10 * mag / (major * gap), f"rotation {got[2]!r}, the major axis points to {angle!r} (mod pi)")


@check("polygon", case(), quick=800)
def polygon(c, ctx):
    m, major, minor, angle = reference(c)
    mag = G.magnitude(c["pts"])
    if minor < 1e-3 * major:
        return
    form = "geoseries" if len(c["pts"]) % 2 else "geodataframe_named"
    g = ctx.call("ellipse", cg.ellipse, G.as_container(c["pts"], form), **options(c))
    ctx.ok(isinstance(g, shapely.Polygon), f"ellipse of a {form} gave {g!r}")
    v = shapely.get_coordinates(g)
    ctx.ok(len(v) >= 17, f"only {len(v)} vertices")
    gap = 1 - minor / major
    ctx.interesting(gap > 0.01)
    if gap <= 1e-3:
        angle = 0.0
    u = (v - m) @ np.array([[math.cos(angle), -math.sin(angle)], [math.sin(angle), math.cos(angle)]])
    e = (u[:, 0] / major) ** 2 + (u[:, 1] / minor) ** 2
    ctx.close(e, np.ones(len(v)), "ellipse equation at the polygon's vertices", rtol=0,
              atol=(1e-5 if gap > 1e-3 else 1e-2) * (major / minor) ** 2 + 1e-9 * mag / minor)


@check("refused", case(), quick=60)
def refused(c, ctx):
    a = G.arr(c["pts"])
    ctx.interesting()
    ctx.refused("ellipse(method='foo')", (ValueError,), cg.ellipse, a, method="foo")
    ctx.refused("ellipse with a weight too few", (ValueError,), cg.ellipse, a, weights=[1.0] * (len(a) - 1))
