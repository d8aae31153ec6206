"""Cases: non-collinear point sets, among them regular polygons, cocircular arcs, isosceles
trapezoids, near-collinear chains, rotated lattices and obtuse triangles, at several locations
and scales; the circle is compared with the smallest one over all pairs and triples of hull
vertices, with numba and in a process without it. Non-trivial: the hull has four vertices or
more, or the circle is determined by two points."""
import itertools

import numpy as np
import shapely
from hypothesis import strategies as st

from pbt import alt
from pbt import gens as G
from pbt import oracle as O
from pbt.core import Violation, check
from pointpats import centrography as cg


def smallest_circle(a):
    """(radius, centre, number of determining points), by exhaustion over the hull."""
    h = O.convex_hull(a)
    o = h.mean(axis=0)
    q = h - o
    best = None
    for i, j in itertools.combinations(range(len(q)), 2):
        c = (q[i] + q[j]) / 2
        r = np.hypot(*(q[i] - q[j])) / 2
        if np.hypot(*(q - c).T).max() <= r * (1 + 1e-12) and (best is None or r < best[0]):
            best = (r, c + o, 2)
    if best:
        return best
    for i, j, k in itertools.combinations(range(len(q)), 3):
        A = 2 * np.array([q[j] - q[i], q[k] - q[i]])
        b = np.array([(q[j] ** 2 - q[i] ** 2).sum(), (q[k] ** 2 - q[i] ** 2).sum()])
        if abs(np.linalg.det(A)) < 1e-13 * np.abs(A).max() ** 2:
            continue
        c = np.linalg.solve(A, b)
        r = np.hypot(*(q[i] - c))
        if np.hypot(*(q - c).T).max() <= r * (1 + 1e-10) and (best is None or r < best[0]):
            best = (r, c + o, 3)
    return best


def turn(pts, t):
    return [[x * np.cos(t) - y * np.sin(t), x * np.sin(t) + y * np.cos(t)] for x, y in pts]


@st.composite
def shape(draw):
    k = draw(st.sampled_from(["points", "points", "regular", "arc", "trapezoid", "lattice", "chain", "triangle"]))
    t = draw(st.integers(0, 63)) / 10.0
    i = lambda a, b: draw(st.integers(a, b))  # noqa: E731
    if k == "points":
        pts = draw(G.raw_points(3, 14, large=60, huge=400))
    elif k == "regular":
        m = i(3, 12)
        pts = [[8 * np.cos(t + 2 * np.pi * j / m), 8 * np.sin(t + 2 * np.pi * j / m)] for j in range(m)]
    elif k == "arc":
        m, span = i(3, 10), i(5, 62) / 10.0
        pts = [[8 * np.cos(t + span * j / (m - 1)), 8 * np.sin(t + span * j / (m - 1))] for j in range(m)]
    elif k == "trapezoid":
        w, v, y = i(1, 40) / 8.0, i(1, 40) / 8.0, i(1, 24) / 8.0
        pts = turn([[-w, 0], [w, 0], [v, y], [-v, y]], t)
    elif k == "lattice":
        pts = turn([[x, y] for x in range(i(2, 5)) for y in range(i(2, 4))], t)
    elif k == "chain":
        eps = 10.0 ** -i(3, 16)
        xs = draw(st.lists(st.integers(0, 80), min_size=3, max_size=8, unique=True))
        pts = turn([[x / 8.0, ((x * 7) % 5 - 2) * eps] for x in xs] + [[i(-10, 90) / 8.0, i(4, 40) / 8.0]], t)
    else:
        pts = turn([[0, 0], [i(8, 80) / 8.0, 0], [i(-60, 120) / 8.0, i(1, 40) / 8.0]], t)
    pts = G.spread(pts)
    if draw(st.booleans()):
        pts = pts + [pts[j % len(pts)] for j in range(i(1, 3))]
    return G.put(pts, draw(st.sampled_from(G.PLACES)))


def verify(ctx, what, a, x, y, r, want):
    ext, mag = float(np.ptp(a, axis=0).max()), float(np.abs(a).max())
    tol = 1e-6 * want[0] + 1e-9 * mag
    far = np.hypot(*(a - [x, y]).T).max()
    ctx.ok(np.isfinite(far) and far <= r + tol, f"{what}: a point lies {far - r!r} outside the circle of radius {r!r}")
    ctx.ok(r <= want[0] + tol, f"{what}: radius {r!r}, but a circle of radius {want[0]!r} contains all points")


@check("circle", shape(), quick=1600, examples=[
    [[0.0, 0.0], [10.0, 1.0], [3.0, 3.0]], [[0.0, 0.0], [10.0, 0.0], [5.0, 1.0], [4.0, 1.0]],
    [[1.0, 2.0], [4.0, 1.0], [3.0, 0.0], [0.0, 2.0]]])
def circle(c, ctx):
    a = G.arr(c)
    want = smallest_circle(a)
    ctx.interesting(len(O.convex_hull(a)) > 3 or want[2] == 2)
    ctx.label(f"by {want[2]} points")
    (x, y), r = ctx.call("minimum_bounding_circle", cg.minimum_bounding_circle, a)
    verify(ctx, "minimum_bounding_circle", a, x, y, r, want)


@check("without_numba", shape(), quick=500, shards=2)
def without_numba(c, ctx):
    a = G.arr(c)
    want = smallest_circle(a)
    ctx.interesting(len(O.convex_hull(a)) > 3 or want[2] == 2)
    try:
        x, y, r = alt.call(["numba"], "mbc", c)
    except alt.Refused as e:
        raise Violation(f"minimum_bounding_circle without numba raised {e}") from e
    verify(ctx, "minimum_bounding_circle without numba", a, x, y, r, want)
    (x1, y1), r1 = ctx.call("minimum_bounding_circle", cg.minimum_bounding_circle, a)
    tol = 1e-6 * want[0] + 1e-9 * float(np.abs(a).max())
    ctx.close([x, y, r], [x1, y1, r1], "the circle without numba, compared with numba", rtol=0, atol=tol * 40)


@check("containers", st.fixed_dictionaries({"pts": shape(), "form": st.sampled_from(["list", "tuples", "frame", "fortran", "geoseries", "geodataframe_named"]), "q": st.integers(2, 40)}), quick=500)
def containers(c, ctx):
    """Other containers give the same circle; geographic input its buffer polygon."""
    a = G.arr(c["pts"])
    want = smallest_circle(a)
    ctx.interesting()
    obj = G.as_container(c["pts"], c["form"])
    tol = 1e-6 * want[0] + 1e-9 * float(np.abs(a).max())
    if c["form"].startswith("geo"):
        g = ctx.call("minimum_bounding_circle", cg.minimum_bounding_circle, obj, quad_segs=c["q"])
        ctx.ok(isinstance(g, shapely.Polygon), f"gave {g!r}")
        v = shapely.get_coordinates(g)
        ctx.equal(len(v), 4 * c["q"] + 1, "vertices of the circle with the given resolution")
        d = np.hypot(*(v - want[1]).T)
        ctx.close(d, np.full(len(v), want[0]), "distance of the outline from the centre", rtol=0, atol=40 * tol)
    else:
        (x, y), r = ctx.call("minimum_bounding_circle", cg.minimum_bounding_circle, obj)
        verify(ctx, c["form"], a, x, y, r, want)
