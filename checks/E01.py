"""Cases: point sets with ties, on lattices and at several places, and a grid given by counts or
by cell size, sizes including exact divisors of the extent, multiples, and larger than it. Every
point's possible cells come from the geometry; the counts must be those of an assignment of every
point to one of them. Non-trivial: a point lies on an inner or far edge, or a cell size is given."""
import numpy as np
from hypothesis import strategies as st

from pbt import cells
from pbt import gens as G
from pbt.core import check
from pointpats import quadrat_statistics as Q

size = st.one_of(st.sampled_from([1.0, 2.0, 3.0, 4.0, 7.0, 0.5, 1.5]), st.integers(1, 40).map(lambda v: v / 8.0))
grid = st.one_of(
    st.sampled_from([{}, {"nx": 4}, {"ny": 2}]),  # three unless given
    st.fixed_dictionaries({"nx": st.integers(1, 9), "ny": st.integers(1, 9)}),
    st.fixed_dictionaries({"parts_x": size, "parts_y": size}),  # cells per extent
    st.fixed_dictionaries({"w": st.sampled_from([0.1, 0.2, 0.3, 0.5, 1.0, 1.25, 3.0, 10.0]), "h": st.sampled_from([0.1, 0.25, 0.7, 1.0, 2.0, 10.0])}),
)
case = st.fixed_dictionaries({"pts": G.points(3, 24, places=st.sampled_from(G.PLACES), large=120, huge=2000), "grid": grid})
decimal = st.fixed_dictionaries({
    "pts": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 30)), min_size=3, max_size=20).map(lambda q: G.spread([[a * 0.1, b * 0.1] for a, b in q])),
    "grid": st.one_of(grid, st.fixed_dictionaries({"w": st.sampled_from([0.1, 0.2, 0.3, 0.4, 0.6]), "h": st.sampled_from([0.1, 0.2, 0.3, 0.7])})),
})


def build(ctx, c, cls=Q.RectangleM):
    a = G.arr(c["pts"])
    mbb = np.array([*a.min(axis=0), *a.max(axis=0)])
    W, H = mbb[2:] - mbb[:2]
    g = c["grid"]
    if not g or "nx" in g or "ny" in g:
        kw = {k: g[v] for k, v in (("count_column", "nx"), ("count_row", "ny")) if v in g}
    elif "w" in g:
        f = max(W, H) / 8 if W > 300 * g["w"] or H > 300 * g["h"] or max(W, H) < g["w"] / 8 else 1.0
        kw = {"rectangle_width": g["w"] * f, "rectangle_height": g["h"] * f}
        if W / kw["rectangle_width"] > 400 or H / kw["rectangle_height"] > 400:
            kw = {"rectangle_width": W / 3, "rectangle_height": H / 2}
    else:
        kw = {"rectangle_width": W / g["parts_x"], "rectangle_height": H / g["parts_y"]}
    return a, mbb, kw


def verify(ctx, m, a, mbb, kw, what):
    W, H = mbb[2:] - mbb[:2]
    tol = 1e-9 * max(W, H) + 1e-11 * np.abs(mbb).max()
    if "rectangle_width" not in kw:
        nx, ny = kw.get("count_column", 3), kw.get("count_row", 3)
        w, h = W / nx, H / ny
    else:
        w, h = kw["rectangle_width"], kw["rectangle_height"]
        nx, ny = m.count_column, m.count_row
        for k, size, full, name in ((nx, w, W, "columns"), (ny, h, H, "rows")):
            ctx.ok(k >= 1 and k * size >= full - tol and (k - 1) * size < full + tol, f"{what}: {k} {name} of {size!r} for an extent of {full!r}")
    ctx.equal((m.count_column, m.count_row, m.num), (nx, ny, nx * ny), f"{what}: columns, rows and cells")
    ctx.close([m.rectangle_width, m.rectangle_height], [w, h], f"{what}: cell size", rtol=1e-12)
    ctx.close(m.mbb, mbb, f"{what}: bounding box", rtol=0)
    got = ctx.call("point_location_sta", m.point_location_sta)
    ctx.equal(list(got.keys()), list(range(nx * ny)), f"{what}: cell numbers")
    cand = cells.rect_candidates(a, mbb, nx, ny, w, h, tol)
    on_far = (a[:, 0] == mbb[2]) & (cand.sum(axis=1) == 1)
    return cells.partition(ctx, cand, [got[i] for i in range(nx * ny)], what), bool(on_far.any())


@check("rectangles", case, quick=2200)
def rectangles(c, ctx):
    a, mbb, kw = build(ctx, c)
    m = ctx.call("RectangleM", Q.RectangleM, a, **kw)
    ctx.label("sizes" if "rectangle_width" in kw else "counts" if len(kw) == 2 else "default counts")
    amb, far = verify(ctx, m, a, mbb, kw, f"RectangleM({kw})")
    ctx.label("on an edge" if amb else "inside cells")
    ctx.interesting(amb > 0 or "rectangle_width" in kw)


@check("decimals", decimal, quick=1000)
def decimals(c, ctx):
    """Lattices of tenths, whose multiples are not representable."""
    rectangles(c, ctx)


inner = st.fixed_dictionaries({"nx": st.integers(1, 6), "ny": st.integers(1, 6), "pts": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(1, 7), st.integers(1, 7)).map(list), min_size=1, max_size=20),
                               "u": st.sampled_from([1.0, 0.125, 64.0]), "o": st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list)})


@check("numbering", inner, quick=700)
def numbering(c, ctx):
    """Points strictly inside known cells of a grid of unit cells."""
    nx, ny, u, o = c["nx"], c["ny"], c["u"], c["o"]
    want = {i: 0 for i in range(nx * ny)}
    pts = [[0.0, 0.0], [float(nx), float(ny)]]
    want[0] += 1
    want[nx * ny - 1] += 1
    for i, j, a, b in c["pts"]:
        i, j = i % nx, j % ny
        want[i + j * nx] += 1
        pts.append([i + a / 8, j + b / 8])
    a = (np.array(pts) + o) * u
    ctx.interesting(nx != ny)
    by_count = ctx.call("RectangleM", Q.RectangleM, a, count_column=nx, count_row=ny)
    ctx.equal(by_count.point_location_sta(), want, "counts of a grid given by counts")
    by_size = ctx.call("RectangleM", Q.RectangleM, a, rectangle_width=u, rectangle_height=u)
    ctx.equal((by_size.count_column, by_size.count_row, by_size.num), (nx, ny, nx * ny), "columns, rows, cells")
    ctx.equal(by_size.point_location_sta(), want, "counts of a grid given by cell size")
