"""Cases: a rectangular or hexagonal quadrat statistic of a point set given as array, list, frame,
point pattern, GeoSeries, GeoDataFrame or multi-points (with missing geometries), drawn with
counts or contributions. The patches, labels, colours and points of the figure are read back and
compared with the cells' geometry and counts. Non-trivial: hexagons, contributions, or a
container other than an array."""
import numpy as np
import geopandas as gpd
import shapely
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.collections import PatchCollection, PathCollection

import pointpats
from pbt import cells
from pbt import gens as G
from pbt.core import check
from pointpats import quadrat_statistics as Q
from checks.E03 import arguments

FORMS = ("array", "list", "tuples", "frame", "pattern", "geoseries", "geoseries_crs", "geodataframe", "geodataframe_named", "multipoint", "missing")


def container(pts, form):
    a = G.arr(pts)
    if form == "pattern":
        return pointpats.PointPattern(a)
    if form == "multipoint":
        k = max(1, len(a) // 2)
        return gpd.GeoSeries([shapely.MultiPoint(a[:k]), *map(shapely.Point, a[k:])])
    if form == "missing":
        return gpd.GeoSeries([shapely.Point(*a[0]), None, *map(shapely.Point, a[1:]), None])
    return G.as_container(pts, form)


base = {
    "pts": G.points(4, 16, places=G.near_place),
    "shape": st.one_of(st.fixed_dictionaries({"nx": st.integers(1, 6), "ny": st.integers(1, 6)}), st.fixed_dictionaries({"w": st.sampled_from([0.5, 0.75]), "h": st.sampled_from([0.3, 0.5, 2.0])}),
                       st.fixed_dictionaries({"lh": st.sampled_from([0.35, 0.5, 1.0])})),
    "window": st.sampled_from([None, None, "larger", "two parts", "inner", "holes", "parts with holes"]), "form": st.sampled_from(FORMS),
}
fixed = {"reals": st.just(0), "seed": st.just(1), "rng": st.just("int")}


@check("plot", st.fixed_dictionaries({**base, **fixed, "show": st.sampled_from(["counts", "chi2"]), "title": st.sampled_from([None, "A title"]), "direct": st.booleans()}), quick=300)
def plot(c, ctx):
    a, kw, window = arguments(c)
    hexa = "lh" in kw
    ctx.label("hexagon" if hexa else "rectangle", c["show"], c["form"])
    ctx.interesting(hexa or c["show"] == "chi2" or c["form"] != "array")
    q = ctx.call("QStatistic", Q.QStatistic, container(c["pts"], c["form"]), **kw)
    counts = q.mr.point_location_sta()
    plt.close("all")
    extra = {} if c["title"] is None else {"title": c["title"]}
    try:
        if c["direct"]:
            more = {"chi2_contrib": q.chi2_contrib} if c["show"] == "chi2" else {}
            ax, ids = ctx.call("plot", q.mr.plot, show=c["show"], **more, **extra)
            ctx.equal(sorted(ids), sorted(counts), "cells plotted")
        else:
            ax = ctx.call("plot", q.plot, show=c["show"], **extra)
        ctx.equal(ax.get_title(), c["title"] or "Quadrat Count", "title")
        patches = [k for k in ax.collections if isinstance(k, PatchCollection)]
        dots = [k for k in ax.collections if isinstance(k, PathCollection)]
        ctx.equal((len(patches), len(dots)), (1, 1), "patch collections and scatters")
        ctx.equal(np.asarray(dots[0].get_offsets()), a, "points drawn")
        paths = [p.vertices for p in patches[0].get_paths()]
        b = q.mr.mbb
        ids = list(counts)
        if hexa:
            s = kw["lh"]
            want = cells.hex_centres(b, ids, q.mr.count_column, s)
            corners = np.array([[s, 0], [s / 2, s * 3**0.5 / 2], [-s / 2, s * 3**0.5 / 2], [-s, 0], [-s / 2, -s * 3**0.5 / 2], [s / 2, -s * 3**0.5 / 2]])
        else:
            w, h = (b[2] - b[0]) / kw["nx"] if "nx" in kw else kw["rectangle_width"], (b[3] - b[1]) / kw["ny"] if "nx" in kw else kw["rectangle_height"]
            want = np.array([[b[0] + (i % q.mr.count_column + 0.5) * w, b[1] + (i // q.mr.count_column + 0.5) * h] for i in ids])
            corners = np.array([[-w, -h], [-w, h], [w, h], [w, -h]]) / 2
        scale, mag = G.extent(c["pts"]), G.magnitude(c["pts"])
        tol = 1e-9 * scale + 1e-12 * mag + 1e-9 * np.abs(corners).max()
        ctx.equal(len(paths), len(ids), "cells drawn")
        seen = []
        for p in paths:
            hit = [i for i, m in enumerate(want) if np.abs(p[:, None] - (m + corners)[None]).max(axis=2).min(axis=0).max() <= tol and np.abs(p[:, None] - (m + corners)[None]).max(axis=2).min(axis=1).max() <= tol]
            ctx.equal(len(hit), 1, f"cells at the place of the patch {p.tolist()}")
            seen.append(hit[0])
        ctx.equal(sorted(seen), list(range(len(ids))), "cells drawn")
        contrib = dict(zip(q.cell_ids, q.chi2_contrib))
        label = (lambda i: str(counts[i])) if c["show"] == "counts" else (lambda i: f"{contrib[i]:.2f}")
        texts = [(np.array(t.get_position()), t.get_text()) for t in ax.texts]
        ctx.equal(len(texts), len(ids), "labels drawn")
        used = set()
        for pos, text in texts:
            j = int(np.argmin(np.abs(want - pos).max(axis=1)))
            ctx.ok(np.abs(want[j] - pos).max() <= tol, f"a label at {pos.tolist()} is at no cell's centre")
            used.add(j)
            ctx.equal(text, label(ids[j]), f"label of cell {ids[j]}")
        ctx.equal(len(used), len(ids), "cells labelled")
        if c["show"] == "chi2":
            ctx.close(patches[0].get_array(), [contrib[ids[j]] for j in seen], "values behind the colours", rtol=1e-12, atol=1e-12)
        # the window's outline
        rings = [np.asarray(r.coords) for g in getattr(window, "geoms", [window]) for r in (g.exterior, *g.interiors)]
        lines = [np.column_stack(ln.get_data()) for ln in ax.lines]
        ctx.equal(len(lines), len(rings), "rings of the window drawn")
        for r in rings:
            ctx.ok(any(ln.shape == r.shape and np.allclose(np.sort(ln, axis=0), np.sort(r, axis=0), rtol=1e-12, atol=tol) for ln in lines), f"the window's ring {r.tolist()[:4]} is not drawn")
        if not c["direct"]:
            ctx.equal(len(plt.get_fignums()), 1, "figures left open")
    finally:
        plt.close("all")


@check("containers", st.fixed_dictionaries({**base, **fixed}), quick=700)
def containers(c, ctx):
    a, kw, _ = arguments(c)
    ctx.label(c["form"])
    ctx.interesting(c["form"] != "array")
    ref = Q.QStatistic(a, **kw)
    src = container(c["pts"], c["form"])
    got = ctx.call(f"QStatistic of {c['form']}", Q.QStatistic, src, **{**kw, "rng": 1})
    ctx.equal(np.asarray(got.points), a, "points")
    ctx.equal(got.mr.point_location_sta(), ref.mr.point_location_sta(), f"counts from {c['form']}")
    ctx.equal((got.chi2, got.df), (ref.chi2, ref.df), f"chi-square from {c['form']}")
    cls, args = (Q.HexagonM, {"lh": kw["lh"]}) if "lh" in kw else (Q.RectangleM, {"count_column": 3, "count_row": 2})
    ctx.equal(ctx.call(cls.__name__, cls, src, **args).point_location_sta(), cls(a, **args).point_location_sta(), f"counts of a grid from {c['form']}")


refuse = st.fixed_dictionaries({"pts": G.points(4, 8, places=G.near_place), "what": st.sampled_from(["empty", "one dimension", "three columns", "line geometries", "polygons", "no geometries", "show", "mr show", "no contributions", "few contributions"]), "hexa": st.booleans()})


@check("refusals", refuse, quick=200)
def refusals(c, ctx):
    a = G.arr(c["pts"])
    ctx.interesting()
    ctx.label(c["what"])
    make = (lambda p: Q.HexagonM(p, G.extent(c["pts"]) / 3)) if c["hexa"] else Q.RectangleM
    bad = {
        "empty": lambda: np.zeros((0, 2)), "one dimension": lambda: a[:, 0], "three columns": lambda: np.column_stack([a, a[:, 0]]),
        "line geometries": lambda: gpd.GeoSeries([shapely.LineString(a[:2]), shapely.Point(*a[0])]), "polygons": lambda: gpd.GeoSeries([shapely.box(0, 0, 1, 1)]),
        "no geometries": lambda: gpd.GeoSeries([shapely.Point(), shapely.Point()]),
    }
    try:
        if c["what"] in bad:
            ctx.refused(c["what"], (ValueError, TypeError), make, bad[c["what"]]())
            ctx.refused(c["what"], (ValueError, TypeError), Q.QStatistic, bad[c["what"]]())
            return
        m, q = make(a), Q.QStatistic(a)
        if c["what"] == "show":
            ctx.refused("an unknown display", (ValueError,), q.plot, show="values")
        elif c["what"] == "mr show":
            ctx.refused("an unknown display", (ValueError,), m.plot, show="values")
        elif c["what"] == "no contributions":
            ctx.refused("contributions without values", (ValueError,), m.plot, show="chi2")
        else:
            ctx.refused("too few contributions", (ValueError,), m.plot, show="chi2", chi2_contrib=np.ones(m.num + 1))
    finally:
        plt.close("all")
