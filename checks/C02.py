"""Cases: rings (open or closed, clockwise or not) of one or two parts, with or without a hole,
given to Window directly, through as_window or as a bounding box, and points around the
vertices; compared with computations from the rings alone, points within rounding of the
boundary, or exactly level with a horizontal edge (misjudged by libpysal), left out. Non-trivial: a hole or several parts, or a point kept and one dropped."""
import numpy as np
from hypothesis import strategies as st
from libpysal.cg import Polygon

import pointpats
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check
from checks.C01 import locations, locs

case = st.fixed_dictionaries({
    "hull": G.hull_case(("polygon", "polygon", "holed", "multi", "thin", "bbox"), places=st.sampled_from(G.PLACES)), "locs": locs,
    "closed": st.booleans(), "flip": st.booleans(), "via": st.sampled_from(["Window", "as_window", "lists"]),
})


@check("window", case, quick=1800)
def window(c, ctx):
    reg = O.region(c["hull"])
    form = lambda r: [tuple(p) for p in (r[::-1] if c["flip"] else r)] + ([tuple((r[::-1] if c["flip"] else r)[0])] if c["closed"] else [])  # noqa: E731
    parts, holes = [form(r) for r in reg.parts], [form(r) for r in reg.holes]
    ctx.label(c["hull"]["kind"], c["via"], "holes" if holes else "no holes")
    scale = float((reg.bbox[2:] - reg.bbox[:2]).max())
    mag = float(np.abs(reg.bbox).max())
    if c["via"] == "as_window":
        src = Polygon(parts, holes) if holes else Polygon(parts)
        w = ctx.call("as_window", pointpats.as_window, src)
    elif c["via"] == "Window" or len(parts) > 1 or holes:
        w = ctx.call("Window", pointpats.Window, parts, holes) if holes else ctx.call("Window", pointpats.Window, parts)
    else:
        w = ctx.call("Window", pointpats.Window, parts[0])
    ctx.ok(isinstance(w, pointpats.Window), f"got {w!r}")
    ctx.close(w.area, reg.area, "area", rtol=1e-9, atol=1e-11 * mag * max(mag, scale))
    ctx.close([*w.bounding_box], reg.bbox, "bounding box", rtol=1e-12)
    ctx.equal(len(w.parts), len(parts), "number of parts")
    ctx.equal(len([h for h in w.holes if h]), len(holes), "number of holes")
    if mag < 1e4 * scale:
        ctx.close(w.centroid, reg.centroid, "centroid", rtol=1e-6, atol=1e-6 * scale + 1e-9 * mag)
    tol = 1e-9 * scale + 1e-11 * mag
    # libpysal (not pointpats) misjudges locations exactly level with a horizontal edge
    level = {a[1] for r in reg.rings for a, b in zip(r, r[1:] + r[:1]) if a[1] == b[1]}
    pts = [p for p in locations(reg, c["locs"]) if reg.dist(p) > tol and p[1] not in level]
    kept = [p for p in pts if reg.contains(p)]
    ctx.interesting(bool(holes) or len(parts) > 1 or 0 < len(kept) < len(pts))
    for p in pts:
        ctx.equal(bool(ctx.call("contains_point", w.contains_point, tuple(p))), reg.contains(p), f"contains_point({p.tolist()})")
    for form_ in (lambda q: q, lambda q: tuple(q), lambda q: [*q]):
        got = ctx.call("filter_contained", w.filter_contained, [form_(p) for p in pts])
        ctx.equal([list(map(float, p)) for p in got], [list(map(float, p)) for p in kept], "filter_contained")
    got = ctx.call("filter_contained", w.filter_contained, np.array(pts).reshape(-1, 2))
    ctx.equal([list(map(float, p)) for p in got], [list(map(float, p)) for p in kept], "filter_contained of an array")
    pp = ctx.call("a pattern with that window", pointpats.PointPattern, np.array(pts + [np.array(reg.parts[0][0]), np.array(reg.parts[0][1])]), window=w)
    ctx.close(pp.lambda_window * reg.area, pp.n, "intensity times area", rtol=1e-9 + 1e-11 * mag * max(mag, scale) / reg.area)


ring = st.lists(st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list), min_size=3, max_size=6)


@check("ring", st.fixed_dictionaries({"ring": ring, "closed": st.booleans(), "box": st.tuples(st.integers(-90, 90), st.integers(-90, 90), st.integers(1, 90), st.integers(1, 90)), "u": st.sampled_from([1.0, 0.125, 1000.0])}), quick=500)
def ring_(c, ctx):
    r = [tuple(map(float, p)) for p in c["ring"]]
    if c["closed"]:
        r = r + [r[0]]
    want = r if r[0] == r[-1] else r + [r[0]]
    ctx.interesting(r[0] != r[-1])
    ctx.equal(list(ctx.call("to_ccf", pointpats.to_ccf, list(r))), want, f"to_ccf({r})")
    x, y, w, h = (v * c["u"] for v in c["box"])
    p = ctx.call("poly_from_bbox", pointpats.poly_from_bbox, [x, y, x + w, y + h])
    ctx.close(p.area, w * h, "area of the box polygon", rtol=1e-9)
    ctx.equal([float(v) for v in p.bounding_box], [x, y, x + w, y + h], "extent of the box polygon")
    ctx.equal(set(p.vertices), {(x, y), (x, y + h), (x + w, y), (x + w, y + h)}, "corners of the box polygon")
    ctx.equal(p.vertices[0], p.vertices[-1], "first and last vertex of the box polygon")
    ctx.ok(p.contains_point((x + w / 2, y + h / 3)) and not p.contains_point((x + w * 1.5, y + h / 3)), "membership in the box polygon")
