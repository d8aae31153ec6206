"""Cases: point sets with ties and coincident points, every form of range (also far beyond the
largest distance, where F and G reach one), distances supplied or sampled, with and without
truncation. J is compared with G and F from the same arguments (F01 is about those), or, when
the function samples locations itself, with G and a consistency of the implied F. Non-trivial: J is
infinite or undefined somewhere, or never."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import ripley as R
from pbt.core import check
from checks.F01 import empty_distances
from pointpats import distance_statistics as ds

case = st.fixed_dictionaries({"pts": G.points(3, 16, places=G.near_place, large=60, huge=400), "support": R.support, "stretch": st.sampled_from([0.25, 1.0, 1.0, 4.0]), "seed": G.small_seed, "p": st.integers(1, 40),
                              "truncate": st.sampled_from([True, False, None]), "g_as": st.sampled_from(["nearest", "square"]), "f_as": st.sampled_from(["nearest", "matrix"])})


@check("ratio", case, quick=2200)
def ratio(c, ctx):
    a = G.arr(c["pts"])
    E = empty_distances(c, a)
    D = R.distances(a, a, "euclidean")
    nn = R.nearest(a)
    if E.shape == D.shape:  # would be taken for a matrix of the pattern
        E = E[:, 1:] if E.shape[1] > 1 else np.hstack([E, E])
    arg, s = R.make_support(c["support"], G.extent(c["pts"]) * c["stretch"], nn.max())
    gd = nn if c["g_as"] == "nearest" else D
    fd = E.min(axis=0) if c["f_as"] == "nearest" else E
    ctx.label(R.form_of(c["support"]), f"truncate {c['truncate']}")
    kw = {} if c["truncate"] is None else {"truncate": c["truncate"]}
    gs, jv = ctx.call("j", ds.j, a, support=arg, distances=(gd, fd), **kw)
    s1, g = ds.g(a, support=arg, distances=gd)
    s2, f = ds.f(a, support=arg, distances=fd)
    want = np.array([np.nan if x == 1 and y == 1 else np.inf if y == 1 else (1 - x) / (1 - y) for x, y in zip(g, f)])
    bad = ~np.isfinite(want)
    ctx.interesting()
    ctx.label("defined everywhere" if not bad.any() else "defined nowhere" if bad.all() else f"first undefined: {'inf' if np.isinf(want[bad][0]) else 'nan'}")
    cut = len(want) if c["truncate"] is False or not bad.any() else int(np.argmax(bad))
    ctx.equal(len(gs), cut, "distances kept")
    ctx.close(gs, s[:cut], "distances", rtol=1e-9, atol=R.slack(a))
    ctx.close(jv, want[:cut], "J", rtol=1e-9, atol=1e-12)


sampled_case = st.fixed_dictionaries({"pts": G.points(3, 16, places=G.near_place, large=50), "support": R.support, "metric": st.sampled_from(["euclidean", "cityblock", "own cityblock"]), "hull": st.sampled_from([None, "bbox", "convex", "wide"])})


@check("sampled", sampled_case, quick=250)
def sampled(c, ctx):
    """Locations sampled by the function: F = 1 - (1 - G) / J must be a distribution function of 1000 distances."""
    a = G.arr(c["pts"])
    nn = R.nearest(a, c["metric"])
    arg, s = R.make_support(c["support"], G.extent(c["pts"]), nn.max())
    b = np.array([*a.min(axis=0), *a.max(axis=0)])
    w = (b[2:] - b[:2]) * 2
    hull = np.array([*(b[:2] - w), *(b[2:] + w)]) if c["hull"] == "wide" else c["hull"]
    gs, jv = ctx.call("j", ds.j, a, support=arg, metric=R.argument(c["metric"]), hull=hull, truncate=False)
    ctx.close(gs, s, "distances", rtol=1e-9, atol=R.slack(a))
    _, g = ds.g(a, support=arg, metric=R.argument(c["metric"]))
    ctx.ok(np.shape(jv) == np.shape(g), f"{np.shape(jv)} values for {np.shape(g)} distances")
    ctx.ok(((jv >= 0) | np.isnan(jv)).all(), f"J {jv.tolist()}")
    ok = np.isfinite(jv) & (jv > 0)
    f = 1 - (1 - np.asarray(g)[ok]) / jv[ok]
    ctx.interesting(ok.sum() > 2)
    ctx.ok((np.diff(f) > -1e-9).all() and (f > -1e-9).all() and (f < 1).all(), f"the implied F is {f.tolist()}")
    ctx.ok(np.allclose(f * 1000, np.round(f * 1000), atol=1e-5), f"the implied F {f.tolist()} is no share of 1000 locations")
    ctx.ok((np.asarray(g)[jv == 0] == 1).all(), "J is zero where G is below one")
    if c["hull"] == "wide" and len(f):  # at most the area of discs around the points
        reach = len(a) * np.pi * (2.0 if "cityblock" in c["metric"] else 1.0) * np.asarray(gs)[ok] ** 2 / (25 * np.prod(b[2:] - b[:2]))
        ctx.ok((f < reach + 0.02 + 7 * np.sqrt(np.minimum(reach, 0.25) / 1000)).all(), f"the implied F {f.tolist()} exceeds the share of the wide hull within reach, {reach.tolist()}")
