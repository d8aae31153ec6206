"""Cases: point sets with coincident points, as array, point or multipoint series and frames; bandwidths
from 0.04 to 1 of the extent, resolutions per axis or for both, margins, explicit or automatic
levels, lines or fills, own or given axes, styles. The default estimate is computed by brute force at
the nodes of the documented grid: every contour vertex must lie on an edge of the grid where linear
interpolation gives the level, every edge the level crosses must have a vertex, fills must stay
between their levels. With a kernel, the density at the vertices is compared with KDEpy's direct (not
FFT) evaluation, within the error of the FFT's binning. Non-trivial: contours exist and the
resolutions of the axes differ, or a margin, or a fill is asked for."""
import warnings

import geopandas as gpd
import matplotlib
import numpy as np
import shapely
from hypothesis import strategies as st

from pbt import gens as G
from pbt.core import check
from pointpats import plot_density

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

FORMS = ("array", "array", "geoseries", "geodataframe_named", "multi", "mixed")
res = st.integers(4, 24)
case = st.fixed_dictionaries({
    "pts": G.points(3, 12, places=G.near_place, large=45, huge=300), "form": st.sampled_from(FORMS), "bandwidth": st.sampled_from([0.04, 0.1, 0.25, 0.5, 1.0]),
    "resolution": st.one_of(res, st.tuples(res, res).map(list), st.none()), "margin": st.sampled_from([None, 0, 0.05, 0.3, 1.0]),
    "levels": st.one_of(st.none(), st.integers(1, 12), st.lists(st.integers(1, 19), min_size=2, max_size=5, unique=True).map(lambda v: [x / 20 for x in sorted(v)])),
    "fill": st.booleans(), "own": st.booleans(), "style": st.sampled_from(["none", "color", "alpha"]), "returns": st.booleans()})


def container(pts, form):
    if form not in ("multi", "mixed"):
        return G.as_container(pts, form)
    a = G.arr(pts)
    if form == "multi":
        return gpd.GeoSeries([shapely.MultiPoint(a[:2]), shapely.MultiPoint(a[2:])])
    return gpd.GeoDataFrame(geometry=[shapely.Point(a[0]), shapely.MultiPoint(a[1:])])


def gaussian(a, h, xy):
    out = np.zeros(len(xy))
    for p in a:
        out += np.exp(-(((xy - p) / h) ** 2).sum(axis=1) / 2)
    return out / (len(a) * 2 * np.pi * h * h)


def run(ctx, c, data, bw, **extra):
    kw = dict(extra)
    for k in ("margin", "levels"):
        if c.get(k) is not None:
            kw[k] = c[k]
    if c["resolution"] is not None or len(c["pts"]) % 2:
        kw["resolution"] = tuple(c["resolution"]) if isinstance(c["resolution"], list) else c["resolution"]
    if c["fill"]:
        kw["fill"] = True
    if c["style"] == "color":
        kw["colors"] = ["red"]
    elif c["style"] == "alpha":
        kw["alpha"] = 0.25
    ax = None
    if c["own"]:
        ax = plt.subplots(1, 2)[1][0]
    else:
        kw["figsize"] = (3, 7)
    other = plt.gca() if not c["own"] else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = ctx.call("plot_density", plot_density, data, bw, ax=ax, return_contourset=True, **kw)
        ctx.ok(isinstance(r, tuple) and len(r) == 2, f"returned {type(r)} with return_contourset")
        got, cs = r
        if c["returns"]:
            alone = ctx.call("plot_density", plot_density, data, bw, **{k: v for k, v in kw.items() if k != "figsize"})
            ctx.ok(isinstance(alone, plt.Axes), f"returned {type(alone)} without return_contourset")
            ctx.ok(alone is not got, "two plots without axes given share their axes")
            a1, a2 = ([p.vertices for p in x.collections[0].get_paths()] for x in (got, alone))
            ctx.ok(len(a1) == len(a2) and all(np.array_equal(x, y) for x, y in zip(a1, a2)), "the same call twice draws different contours")
    ctx.ok(cs.axes is got and cs in got.collections, "the contours are not drawn on the axes returned")
    if c["own"]:
        ctx.ok(got is ax, "the axes given are not the ones drawn on")
    else:
        ctx.ok(got is not other, "drawn on other axes than new ones")
        ctx.equal(tuple(got.figure.get_size_inches()), (3.0, 7.0), "size of the new figure")
    ctx.equal(got.get_aspect(), 1.0, "aspect of the axes")
    ctx.equal(bool(cs.filled), c["fill"], "filled")
    if c["style"] == "alpha":
        ctx.equal(cs.get_alpha(), 0.25, "alpha")
    if c["style"] == "color":
        face = cs.get_facecolor() if c["fill"] else cs.get_edgecolor()
        ctx.ok(len(face) and np.allclose(face, [1, 0, 0, 1]), f"colours {face.tolist()}")
    return got, cs


@check("contours", case, quick=330)
def contours(c, ctx):
    a = G.arr(c["pts"])
    span = a.max(axis=0) - a.min(axis=0)
    bw = float(span.max()) * c["bandwidth"]
    r = c["resolution"]
    nx, ny = r if isinstance(r, list) else (r, r) if r else (100, 100)
    m = 0.1 if c["margin"] is None else c["margin"]
    lo, hi = a.min(axis=0) - m * span, a.max(axis=0) + m * span
    xs, ys = np.linspace(lo[0], hi[0], nx), np.linspace(lo[1], hi[1], ny)
    X, Y = np.meshgrid(xs, ys)
    z = gaussian(a, bw, np.column_stack([X.ravel(), Y.ravel()])).reshape(ny, nx)
    if isinstance(c["levels"], list):
        c = {**c, "levels": [float(z.min() + x * (z.max() - z.min())) for x in c["levels"]]}
    try:
        ax, cs = run(ctx, c, container(c["pts"], c["form"]), bw)
        paths, levels = [p.vertices for p in cs.get_paths()], np.asarray(cs.levels)
    finally:
        plt.close("all")
    ctx.label(c["form"], "fill" if c["fill"] else "lines", "levels " + ("given" if isinstance(c["levels"], list) else "automatic"))
    if isinstance(c["levels"], list):
        ctx.close(levels, c["levels"], "levels", rtol=1e-12)
    else:
        ctx.ok(len(levels) <= (c["levels"] or 10) + 4, f"{len(levels)} levels, asked for about {c['levels'] or 10}")
        ctx.ok((levels > z.min()).sum() and levels.min() <= z.max(), f"levels {levels.tolist()} of a density from {z.min()!r} to {z.max()!r}")
    ctx.equal(len(paths), len(levels) - c["fill"], "contours")
    tol = 1e-6 * float(z.max())
    some = False
    for k, v in enumerate(paths):
        if len(v):
            some = True
        gx, gy = (v[:, 0] - xs[0]) / (xs[1] - xs[0]), (v[:, 1] - ys[0]) / (ys[1] - ys[0])
        inside = (gx > -1e-6) & (gx < nx - 1 + 1e-6) & (gy > -1e-6) & (gy < ny - 1 + 1e-6)
        ctx.ok(inside.all(), lambda: f"contour vertex {v[~inside][0].tolist()} outside the extent {[xs[0], xs[-1], ys[0], ys[-1]]}")
        on = (np.abs(gx - np.round(gx)) < 1e-5) | (np.abs(gy - np.round(gy)) < 1e-5)
        ctx.ok(on.all(), lambda: f"contour vertex {v[~on][0].tolist()} off the grid of {nx} by {ny}")
        i, j = np.clip(np.floor(gx + 1e-7).astype(int), 0, nx - 2), np.clip(np.floor(gy + 1e-7).astype(int), 0, ny - 2)
        u, w = np.clip(gx - i, 0, 1), np.clip(gy - j, 0, 1)
        d = z[j, i] * (1 - u) * (1 - w) + z[j, i + 1] * u * (1 - w) + z[j + 1, i] * (1 - u) * w + z[j + 1, i + 1] * u * w
        if c["fill"]:
            bad = (d < levels[k] - tol) | (d > levels[k + 1] + tol)
            ctx.ok(not bad.any(), lambda: f"fill between {levels[k]!r} and {levels[k + 1]!r} reaches {v[bad][0].tolist()}, where the density is {d[bad][0]!r}")
            continue
        bad = np.abs(d - levels[k]) > tol
        ctx.ok(not bad.any(), lambda: f"contour of {levels[k]!r} passes {v[bad][0].tolist()}, where the density is {d[bad][0]!r}")
        # every crossing is drawn
        above = z > levels[k]
        clear = np.abs(z - levels[k]) > tol
        want = []
        for dj, di in ((0, 1), (1, 0)):
            p, q = z[: ny - dj, : nx - di], z[dj:, di:]
            cross = (above[: ny - dj, : nx - di] != above[dj:, di:]) & clear[: ny - dj, : nx - di] & clear[dj:, di:]
            jj, ii = np.nonzero(cross)
            f = (levels[k] - p[cross]) / (q[cross] - p[cross])
            want.append(np.column_stack([ii + di * f, jj + dj * f]))
        want = np.vstack(want)
        if len(want):
            ctx.ok(len(v) > 0, f"no contour of {levels[k]!r}")
            have = np.column_stack([gx, gy])
            far = np.array([np.abs(have - x).max(axis=1).min() for x in want]) if len(want) * len(have) < 4_000_000 else np.zeros(1)
            ctx.ok(far.max() < 1e-3, lambda: f"the density crosses {levels[k]!r} at {want[far.argmax()].tolist()} of the grid, but the contour does not pass there")
    ctx.interesting(some and (nx != ny or c["margin"] is not None or c["fill"]))


kernel_case = st.fixed_dictionaries({"pts": G.points(4, 14, places=G.near_place), "form": st.sampled_from(FORMS), "bandwidth": st.sampled_from([0.1, 0.2, 0.4]), "kernel": st.sampled_from(["gaussian", "gaussian", "epa", "biweight", "triweight", "tri", "cosine"]),
                                     "resolution": st.sampled_from([128, [96, 160], [160, 100], None]), "fill": st.booleans(), "own": st.booleans(), "style": st.just("none"), "returns": st.just(False), "shares": st.lists(st.integers(2, 17), min_size=2, max_size=4, unique=True)})


@check("kernels", kernel_case, quick=110)
def kernels(c, ctx):
    from KDEpy import NaiveKDE

    a = G.arr(c["pts"])
    span = a.max(axis=0) - a.min(axis=0)
    bw = float(span.max()) * c["bandwidth"]

    def density(xy):
        return NaiveKDE(kernel=c["kernel"], bw=bw).fit(a).evaluate(np.ascontiguousarray(xy))

    gx, gy = (np.linspace(lo - 2 * bw, hi + 2 * bw, 60) for lo, hi in zip(a.min(axis=0), a.max(axis=0)))
    X, Y = np.meshgrid(gx, gy)
    z = density(np.column_stack([X.ravel(), Y.ravel()]))
    if c["kernel"] == "gaussian":
        ctx.close(z, gaussian(a, bw, np.column_stack([X.ravel(), Y.ravel()])), "the reference densities", rtol=1e-6, atol=1e-9 * z.max() + 1e-15)  # it adds a floor of 2e-16
    top = float(z.max())
    c = {**c, "levels": sorted(x / 20 * top for x in c["shares"])}
    try:
        ax, cs = run(ctx, c, container(c["pts"], c["form"]), bw, kernel=c["kernel"])
        paths, levels = [p.vertices for p in cs.get_paths()], np.asarray(cs.levels)
    finally:
        plt.close("all")
    ctx.label(c["kernel"], str(c["resolution"]))
    ctx.interesting(any(len(v) for v in paths))
    # binning moves each point by up to a cell; kernels change by their slope over that
    n = min(c["resolution"]) if isinstance(c["resolution"], list) else c["resolution"] or 100
    cell = (float(span.max()) + 8 * bw) / n
    tol = 1.6 * top * cell / bw
    for k, v in enumerate(paths):
        ctx.ok(len(v) > 0 or levels[k] > top - tol, f"no contour of {levels[k]!r}, the density reaches {top!r}")
        if len(v) == 0:
            continue
        d = density(v)
        lo, hi = (levels[k], levels[k + 1]) if c["fill"] else (levels[k], levels[k])
        bad = (d < lo - tol) | (d > hi + tol)
        ctx.ok(not bad.any(), lambda: f"contour of {lo!r} to {hi!r} passes {v[bad][0].tolist()}, where the {c['kernel']} density is {d[bad][0]!r} (allowing {tol!r})")
        if not c["fill"]:
            ctx.ok(np.abs(d - lo).mean() < tol / 3, f"contour of {lo!r} passes densities {np.abs(d - lo).mean()!r} off on average (allowing {tol / 3!r})")


bad_case = st.fixed_dictionaries({"pts": G.points(4, 8, places=G.near_place), "what": st.sampled_from(["polygons", "line", "frame of lines", "resolution text", "resolution list"]), "kernel": st.sampled_from([None, "gaussian"])})


@check("refusals", bad_case, quick=60)
def refusals(c, ctx):
    a = G.arr(c["pts"])
    ctx.label(c["what"])
    ctx.interesting()
    kw = {"kernel": c["kernel"]}
    data = a
    geo = [shapely.Point(p) for p in a]
    if c["what"] == "polygons":
        data = gpd.GeoSeries([g.buffer(1) for g in geo])
    elif c["what"] == "line":
        data = gpd.GeoSeries([*geo, shapely.LineString(a[:2])])
    elif c["what"] == "frame of lines":
        data = gpd.GeoDataFrame(geometry=[shapely.LineString(a[:2]), shapely.LineString(a[2:4])])
    else:
        kw["resolution"] = "fine" if c["what"] == "resolution text" else [20, 20]
    try:
        ctx.refused(f"plot_density with {c['what']}", (ValueError,), plot_density, data, G.extent(c["pts"]) / 4, **kw)
    finally:
        plt.close("all")
