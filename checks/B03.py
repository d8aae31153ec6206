"""Cases: point sets of every kind, location and scale (from millionths to hundreds of
kilometres), positive weights and a query location; means, medians, spreads and distance
totals against direct formulas, the Euclidean median against the best of Weiszfeld's
iteration, the points themselves and the mean. Non-trivial: four or more distinct points."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt.core import check
from pointpats import centrography as cg

PLACES = G.PLACES + [(0.0, 0.0, 2.0**-20), (400000.0, 5500000.0, 4096.0), (0.0, 0.0, 2.0**17)]


@st.composite
def case(draw):
    pts = draw(G.points(2, 16, places=st.sampled_from(PLACES), flat_ok=True, large=70, huge=400))
    return {"pts": pts, "w": G.weights(draw, len(pts), 40),
            "at": draw(st.tuples(st.integers(0, len(pts) - 1), st.integers(-50, 50), st.integers(-50, 50))),
            "form": draw(st.sampled_from(["array", "list", "frame", "int"])),
            "wform": draw(st.sampled_from(["list", "array"]))}


def setup(c, ctx):
    a = G.arr(c["pts"])
    if c["form"] == "int" and (a == np.floor(a)).all():
        obj = a.astype(int)
    else:
        obj = G.as_container(c["pts"], "array" if c["form"] == "int" else c["form"])
    ctx.label(c["form"])
    ctx.interesting(len(set(map(tuple, a))) >= 4)
    return a, obj, G.magnitude(c["pts"])


def fmean(v, w=None):
    w = [1.0] * len(v) if w is None else w
    return math.fsum(x * y for x, y in zip(v, w)) / math.fsum(w)


@check("centres", case(), quick=2000)
def centres(c, ctx):
    a, obj, mag = setup(c, ctx)
    tol = dict(rtol=1e-12, atol=1e-12 * mag)
    ctx.close(ctx.call("mean_center", cg.mean_center, obj), [fmean(a[:, 0]), fmean(a[:, 1])], "mean_center", **tol)
    w = c["w"] if c["wform"] == "list" else np.array(c["w"])
    ctx.close(ctx.call("weighted_mean_center", cg.weighted_mean_center, obj, w),
              [fmean(a[:, 0], c["w"]), fmean(a[:, 1], c["w"])], "weighted_mean_center", **tol)
    ctx.close(ctx.call("weighted_mean_center", cg.weighted_mean_center, obj, [3] * len(a)),
              [fmean(a[:, 0]), fmean(a[:, 1])], "weighted_mean_center, equal weights", **tol)
    n = len(a)
    s = np.sort(a, axis=0)
    med = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    ctx.close(ctx.call("manhattan_median", cg.manhattan_median, obj), med, "manhattan_median", **tol)
    m = np.array([fmean(a[:, 0]), fmean(a[:, 1])])
    sd = math.sqrt(math.fsum(((a - m) ** 2).ravel()) / n)
    ctx.close(ctx.call("std_distance", cg.std_distance, obj), sd, "std_distance", rtol=1e-9, atol=1e-12 * mag)
    i, dx, dy = c["at"]
    u = G.extent(c["pts"]) / 64
    for p in (a[i], m, a[i] + np.array([dx, dy]) * u):
        want = math.fsum(np.hypot(*(a - p).T))
        ctx.close(ctx.call("dtot", cg.dtot, p, a), want, f"dtot from {p.tolist()}", rtol=1e-12, atol=1e-13 * mag * n)


def best_total(a):
    def total(x):
        return math.fsum(np.hypot(*(a - x).T))

    x = a.mean(axis=0)
    best = min([total(x)] + [total(p) for p in a])
    floor = 1e-12 * max(np.abs(a - x).max(), 1e-300)
    for _ in range(80):
        d = np.maximum(np.hypot(*(a - x).T), floor)
        x = (a / d[:, None]).sum(axis=0) / (1 / d).sum()
    return min(best, total(x))


@check("euclidean_median", case(), quick=1600)
def euclidean_median(c, ctx):
    a, obj, mag = setup(c, ctx)
    if not np.ptp(a, axis=0).any():
        got = np.asarray(ctx.call("euclidean_median", cg.euclidean_median, obj), float)
        ctx.close(got, a[0], "median of one location", rtol=1e-12)
        return
    got = np.asarray(ctx.call("euclidean_median", cg.euclidean_median, obj), float)
    ctx.equal(got.shape, (2,), "shape of the median")
    total = math.fsum(np.hypot(*(a - got).T))
    want = best_total(a)
    ctx.ok(total <= want * (1 + 2e-5) + 1e-12 * mag * len(a),
           f"euclidean_median: distance total {total!r}, attainable is {want!r}")
