"""Cases: patterns of any place and scale with coincident points, marks and columns in any order, windows of one
to three parts with or without a hole, coordinates flipped or not, and a history of one to three plots of
one or two patterns with window, hull and title on or off. The axes must show every point
once at its coordinates (the first coordinate across, the second when flipped), every part of the window and the hull when and
only when they are asked for, under the title, with equal scales, in a figure of their own. Non-trivial: the window or the hull is drawn
after another plot, or the coordinates are flipped."""
import matplotlib
import numpy as np
from hypothesis import strategies as st

import pointpats
from pbt import gens as G
from pbt import oracle as O
from pbt.core import Violation, check

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

box = st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(1, 12), st.integers(1, 12)).map(list)
pattern = st.fixed_dictionaries({
    "pts": G.points(3, 12, large=80), "marks": st.booleans(), "columns": st.sampled_from([None, None, ["y", "x"], ["kind", "x", "y"]]),
    "window": st.one_of(st.none(), st.lists(box, min_size=1, max_size=3)), "hole": st.booleans(), "flip": st.booleans()})
step = st.fixed_dictionaries({"which": st.integers(0, 1), "window": st.booleans(), "hull": st.booleans(), "title": st.sampled_from([None, None, "Cases in Soho"]), "get_ax": st.booleans(), "positional": st.booleans()})
case = st.fixed_dictionaries({"patterns": st.lists(pattern, min_size=1, max_size=2), "steps": st.lists(step, min_size=1, max_size=3)})


def rings(c):
    """The window's parts, side by side, and its hole."""
    out, shift = [], 0.0
    for x, y, w, h in c["window"]:
        x = x + shift
        out.append([(x, y), (x, y + h), (x + w, y + h), (x + w, y), (x, y)])
        shift = x + w + 20.0
    x, y, w, h = c["window"][0]
    hole = [(x + w / 4, y + h / 4), (x + w / 2, y + h / 4), (x + w / 2, y + h / 2), (x + w / 4, y + h / 4)]
    return [[(float(a), float(b)) for a, b in r] for r in out], [hole] if c["hole"] else []


def build(c, ctx):
    a = G.arr(c["pts"])
    data, kw = a, {}
    if c["columns"]:
        col = {"x": a[:, 0], "y": a[:, 1], "kind": np.arange(len(a)) * 7.0 + 100}
        data = np.column_stack([col[k] for k in c["columns"]])
        kw = {"names": c["columns"], "coord_names": ["x", "y"]}
    if c["window"]:
        parts, holes = rings(c)
        kw["window"] = pointpats.Window(parts, holes) if holes else pointpats.Window(parts)
    p = ctx.call("PointPattern", pointpats.PointPattern, data, **kw)
    if c["marks"]:
        p.add_marks([list(range(len(a)))])
    if c["flip"]:
        ctx.call("flip_coordinates", p.flip_coordinates)
    return p


def corners(xy):
    """The distinct corners of a ring, in cyclic order from the smallest, in one sense."""
    v = [tuple(map(float, p)) for p in np.asarray(xy)]
    v = [p for i, p in enumerate(v) if i == 0 or p != v[i - 1]]
    if len(v) > 1 and v[0] == v[-1]:
        v.pop()
    k = v.index(min(v))
    v = v[k:] + v[:k]
    return v if len(v) < 3 or v[1] <= v[-1] else [v[0], *v[:0:-1]]


def drawn(ax, a):
    """The points drawn and the corners of the polygons drawn."""
    points, outlines = [], []
    for ln in ax.lines:
        if ln.get_linestyle() in ("None", "none", "", " "):
            if ln.get_marker() not in ("None", "none", "", " ", None):
                points += [tuple(p) for p in ln.get_xydata()]
        else:
            outlines.append(corners(ln.get_xydata()))
    for col in ax.collections:
        off = np.asarray(col.get_offsets(), float)
        if len(off) and not (len(off) == 1 and not off.any() and len(a) > 1):
            points += [tuple(p) for p in off]
            continue
        for path in col.get_paths():
            outlines += [corners(v) for v in path.to_polygons(closed_only=False)]
    for patch in ax.patches:
        path = patch.get_patch_transform().transform_path(patch.get_path())
        outlines += [corners(v) for v in path.to_polygons(closed_only=False)]
    return points, outlines


@check("pattern", case, quick=260)
def pattern_(c, ctx):
    made = [build(p, ctx) for p in c["patterns"]]
    keep = []
    for i, s in enumerate(c["steps"]):
        k = s["which"] % len(made)
        d, p = c["patterns"][k], made[k]
        a = G.arr(d["pts"])
        kw = {k: s[k] for k in ("window", "hull", "get_ax") if s[k]}
        if s["title"]:
            kw["title"] = s["title"]
        if s["positional"]:
            got = ctx.call("plot", p.plot, s["window"], s["title"] or "Point Pattern", s["hull"], s["get_ax"])
        else:
            got = ctx.call("plot", p.plot, **kw)
        ax = plt.gca()
        if s["get_ax"]:
            ctx.ok(isinstance(got, matplotlib.axes.Axes), f"plot(get_ax=True) returned {got!r}")
            ax = got
        ctx.ok(all(ax.figure is not x for x, _ in keep), "a plot is drawn in the figure of another one")
        shows = (lambda ax=ax, d=d, s=s, a=a: _shows(ctx, ax, d, s, a))
        shows()
        keep.append((ax.figure, shows))
        ctx.interesting((i and (s["window"] or s["hull"])) or d["flip"])
    for _, shows in keep:  # and still do
        shows()
    plt.close("all")


def _shows(ctx, ax, d, s, a):
    points, outlines = drawn(ax, a)
    want = sorted(map(tuple, a[:, ::-1] if d["flip"] else a))
    ctx.equal(sorted(points), want, "points drawn")
    ctx.equal(ax.get_title(), s["title"] or "Point Pattern", "title")
    ctx.ok(ax.get_aspect() in (1.0, "equal"), f"aspect {ax.get_aspect()}")
    try:
        _outlines(ctx, outlines, d, s, a)
    except Violation:
        if not d["flip"]:
            raise
        # whether the window and the hull are flipped too is not documented
        _outlines(ctx, [corners([q[::-1] for q in o]) for o in outlines], d, s, a)


def _outlines(ctx, outlines, d, s, a):
    wanted = []
    if s["window"]:
        ctx.label("window")
        if d["window"]:
            wanted += [corners(r) for r in rings(d)[0]]
        else:
            lo, hi = a.min(axis=0), a.max(axis=0)
            wanted.append(corners([lo, (lo[0], hi[1]), hi, (hi[0], lo[1])]))
    for w in wanted:
        ctx.ok(w in outlines, lambda w=w: f"the window's part {w} is not drawn: {outlines}")
    rest = [o for o in outlines if o not in wanted]
    if s["window"] and d["window"]:
        rest = [o for o in rest if o not in [corners(r) for r in rings(d)[1]]]  # a hole may be drawn
    if s["hull"]:
        ctx.label("hull")
        # judged by area: GEOS or Qhull decide about nearly collinear corners; the window may be the hull
        mine = {tuple(map(float, q)) for q in a}
        ok = [o for o in outlines if set(o) <= mine and abs(abs(O.shoelace(o)) - O.hull_area(a)) <= 1e-9 * np.abs(a).max() ** 2]
        ctx.ok(ok, lambda: f"the hull is not drawn: {outlines}")
        rest = [o for o in rest if o not in ok]
    ctx.ok(not rest, lambda: f"drawn without being asked for: {rest}")


