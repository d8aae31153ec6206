"""Cases: point sets with ties, on lattices, on honeycomb vertices and edges and at several places,
and hexagon sides from a small part to several times the extent, exact fits included. The
honeycomb is built independently; every point must be countable in a hexagon that contains it, the
hexagons must cover the box and be as many as announced. Non-trivial: a point on a shared edge, or
two or more columns and rows."""
import numpy as np
from hypothesis import strategies as st

from pbt import cells
from pbt import gens as G
from pbt.core import check
from pointpats import quadrat_statistics as Q

R3 = 3**0.5


@st.composite
def honeycomb_points(draw):
    """Points at special places of a honeycomb of side 1: centres, vertices, edge midpoints."""
    n = draw(st.integers(2, 14))
    q = st.integers(0, 10)
    sp = draw(st.lists(st.tuples(q, q), min_size=n, max_size=n))
    return [[0.0, 0.0]] + G.spread([[a * 0.25, b * R3 / 4] for a, b in sp])


fraction = st.one_of(st.sampled_from([0.25, 0.5, 1.0, 2.0, 1 / 3, 2 / 3, 0.4, 4 / 7, 4.0, 0.2, 0.125]), st.integers(5, 160).map(lambda v: v / 64.0))
case = st.one_of(
    st.fixed_dictionaries({"pts": G.points(3, 24, places=st.sampled_from(G.PLACES), large=120, huge=2000), "side": fraction, "of": st.sampled_from(["width", "height"])}),
    st.fixed_dictionaries({"pts": honeycomb_points(), "side": st.sampled_from([1.0, 0.5, 2.0]), "of": st.just("unit")}),
)


def side(c, mbb):
    W, H = mbb[2:] - mbb[:2]
    if c["of"] == "unit":
        return c["side"]
    s = c["side"] * (W if c["of"] == "width" else H / (R3 / 2))
    return max(s, W / 60, H / 60)  # not too many cells


def verify(ctx, m, a, mbb, s, what):
    W, H = mbb[2:] - mbb[:2]
    tol = 1e-9 * max(W, H) + 1e-11 * np.abs(mbb).max()
    got = ctx.call("point_location_sta", m.point_location_sta)
    ids = list(got)
    ctx.equal(len(ids), m.num, f"{what}: cells counted and announced")
    ctx.equal(len(set(ids)), len(ids), f"{what}: cell numbers")
    centres = cells.hex_centres(mbb, ids, m.count_column, s)
    # a shared edge is decided by a line through coordinates of the size of the offset
    tol = tol + 1e-9 * s
    amb = cells.partition(ctx, cells.hex_candidates(a, centres, s, tol), [got[i] for i in ids], what)
    t = (np.arange(25) / 24.0)
    box = mbb[:2] + np.array(np.meshgrid(t, t)).reshape(2, -1).T * (mbb[2:] - mbb[:2])
    near = np.array([cells.hexdist(p - centres, s).min() for p in box])
    ctx.ok((near <= 1 + tol / s).all(), lambda: f"{what}: {box[np.argmax(near)].tolist()} of the bounding box lies in no hexagon")
    # no hexagon is needless: each column and each row reaches into the box
    ctx.ok((centres[:, 0] - s <= mbb[2] + tol).all() and (centres[:, 1] - s * R3 / 2 <= mbb[3] + tol).all(), f"{what}: a hexagon outside the bounding box")
    return amb


@check("hexagons", case, quick=2600)
def hexagons(c, ctx):
    a = G.arr(c["pts"])
    mbb = np.array([*a.min(axis=0), *a.max(axis=0)])
    s = side(c, mbb)
    m = ctx.call("HexagonM", Q.HexagonM, a, s)
    amb = verify(ctx, m, a, mbb, s, f"HexagonM(side {s!r})")
    ctx.label("on an edge" if amb else "inside cells", f"{min(m.count_column, 4)} columns")
    ctx.interesting(amb > 0 or (m.count_column > 1 and m.count_row_even > 1))


inner = st.fixed_dictionaries({"cols": st.integers(1, 5), "rows": st.integers(1, 5), "pts": st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 23), st.integers(1, 15)).map(list), min_size=1, max_size=20),
                               "u": st.sampled_from([1.0, 0.125, 64.0]), "o": st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list)})


@check("numbering", inner, quick=700)
def numbering(c, ctx):
    """Points strictly inside known hexagons."""
    cols, rows, u = c["cols"], c["rows"], c["u"]
    W, H = 1.5 * cols + 0.25, R3 * rows + 0.25
    o = np.array(c["o"], float)
    pts, home = [[0.0, 0.0], [W, H]], []
    for i, j, t, r in c["pts"]:
        i, j = i % (cols + 1), j % (rows + 1)
        p = np.array([1.5 * i, R3 * (j + (i % 2) / 2)]) + r / 16 * R3 / 2 * np.array([np.cos(np.pi * t / 12), np.sin(np.pi * t / 12)])
        if (p >= 0).all() and p[0] <= W and p[1] <= H:
            pts.append(p.tolist())
            home.append((i, j))
    a = (np.array(pts) + o) * u
    m = ctx.call("HexagonM", Q.HexagonM, a, u)
    got = ctx.call("point_location_sta", m.point_location_sta)
    want = {}
    for i, j in home:
        want[i + j * m.count_column] = want.get(i + j * m.count_column, 0) + 1
    ctx.interesting(len(want) > 1)
    want[0] = want.get(0, 0) + 1  # the lower left corner
    for k, v in want.items():
        ctx.ok(v <= got.get(k, -1) <= v + 1, f"hexagon {k} counts {got.get(k)}, {v} points lie well inside it (and perhaps the far corner)")
    ctx.equal(sum(got.values()), len(a), "sum of the counts")
    ctx.equal(m.count_column, cols + 1, "columns")
