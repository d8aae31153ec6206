"""Cases: point sets with exactly representable coordinates of every kind and place, and an exact transformation
of the plane: a drawn permutation of the points, an offset, a power-of-two unit (of length, of time) and an exchange of the axes.
Every measure of the transformed points must be that of the points, moved or scaled as geometry
dictates: counts, shares, p-values and angles unchanged, lengths, areas and locations carried along.
Non-trivial: at least four distinct points and a transformation that is not the identity."""
import warnings

import numpy as np
import shapely
from hypothesis import strategies as st

import pointpats
from pbt import gens as G
from pbt import knox as K
from pbt.core import check, seed_everything
from pointpats import centrography as C
from pointpats import distance_statistics as D
from pointpats import quadrat_statistics as Q
from pointpats import spacetime as T

offset = st.sampled_from([0.0, 0.0, 1.0, -0.5, 37.0, -4096.0, 500000.0, -2.0**21])


@st.composite
def change(draw, n, exchange=True):
    return {"order": draw(st.permutations(range(n))) if draw(st.booleans()) else list(range(n)),
            "unit": draw(st.sampled_from([1.0, 1.0, 0.25, 2.0, 1024.0, 2.0**-10])),
            "by": draw(st.tuples(offset, offset)),
            "exchange": draw(st.booleans()) if exchange else False}


@st.composite
def case(draw, lo=4, hi=14, places=G.place, flat_ok=False, exchange=True, large=50):
    pts = draw(G.exact_points(lo, hi, places=places, flat_ok=flat_ok, large=large))
    return {"pts": pts, "change": draw(change(len(pts), exchange)), "seed": draw(G.small_seed), "k": draw(st.integers(0, 100))}


class Change:
    def __init__(self, c, ctx):
        h = c["change"]
        self.order = np.array(h["order"])
        self.unit = h["unit"]
        self.by = np.array(h["by"])
        self.swap = h["exchange"]
        a = G.arr(c["pts"])
        b = self(a)[self.order]
        # coordinates that keep enough digits for areas
        self.exact = bool(np.all(self.back(b) == a[self.order])) and all(np.abs(x).max() < 1e5 * np.ptp(x, axis=0).max() for x in (a, b))
        self.before, self.after = a, b
        # rounding of a coordinate, in the unit of the result
        self.tol = 1e-9 * (np.abs(b).max() + self.unit * np.abs(a).max())
        kinds = [k for k, on in (("order", (self.order != np.arange(len(a))).any()), ("origin", self.by.any()), ("unit", self.unit != 1), ("axes", self.swap)) if on]
        ctx.label(*kinds)
        ctx.interesting(self.exact and bool(kinds) and len({tuple(p) for p in a}) >= 4)

    def __call__(self, xy):
        xy = np.asarray(xy, float)
        if self.swap:
            xy = xy[..., ::-1]
        return xy * self.unit + self.by

    def back(self, xy):
        xy = (np.asarray(xy, float) - self.by) / self.unit
        return xy[..., ::-1] if self.swap else xy

    def box(self, b):
        return [*self(b[:2]), *self(b[2:])]


@check("descriptive", case(), quick=900)
def descriptive(c, ctx):
    h = Change(c, ctx)
    a, b, u = h.before, h.after, h.unit
    if not h.exact:
        return
    loc = dict(rtol=0, atol=h.tol)
    size = dict(rtol=1e-7, atol=h.tol)
    w = 1.0 + (np.arange(len(a)) * 7 + c["k"]) % 5

    def both(f, wanted=lambda x: x, what=None, **tol):
        what = what or f.__name__
        ctx.close(ctx.call(what, f, b), wanted(np.asarray(ctx.call(what, f, a))), what, **tol)

    both(C.mean_center, h, **loc)
    ctx.close(ctx.call("weighted_mean_center", C.weighted_mean_center, b, w[h.order]), h(C.weighted_mean_center(a, w)), "weighted_mean_center", **loc)
    both(C.manhattan_median, h, **loc)
    both(C.std_distance, lambda s: s * u, **size)
    d = h.before[c["k"] % len(a)] + np.array([0.25, 0.5]) * G.extent(c["pts"])
    ctx.close(ctx.call("dtot", C.dtot, h(d), b), C.dtot(d, a) * u, "dtot", **size)
    m0, m1 = C.euclidean_median(a), ctx.call("euclidean_median", C.euclidean_median, b)
    # it may lie anywhere on a segment: compare what it minimises
    ctx.close(C.dtot(m1, b), C.dtot(m0, a) * u, "distance total of the euclidean_median", rtol=1e-5, atol=h.tol)
    both(C.minimum_bounding_rectangle, h.box, **loc)
    (x, y), r = ctx.call("minimum_bounding_circle", C.minimum_bounding_circle, b)
    (x0, y0), r0 = C.minimum_bounding_circle(a)
    ctx.close([x, y, r], [*h((x0, y0)), r0 * u], "minimum_bounding_circle", rtol=0, atol=h.tol + 1e-7 * r0 * u)
    s0, s1 = shapely.Polygon(C.hull(a)), shapely.Polygon(ctx.call("hull", C.hull, b))
    ctx.close(s1.area, s0.area * u * u, "area of the hull", rtol=1e-5, atol=h.tol * G.extent(c["pts"]) * u)
    ctx.equal(sorted(map(tuple, h.back(C.hull(b)))), sorted(map(tuple, C.hull(a))), "corners of the hull")
    for kw in ({}, {"crimestatCorr": False}, {"method": "yuill"}, {"weights": w}):
        k1 = {k: (v[h.order] if k == "weights" else v) for k, v in kw.items()}
        e0, e1 = ctx.call("ellipse", C.ellipse, a, **kw), ctx.call("ellipse", C.ellipse, b, **k1)
        # the main axis is not defined for round patterns
        big, small = max(e0[:2]), min(e0[:2])
        if kw.get("method") == "yuill":
            ctx.close(sorted(e1[:2]), np.array(sorted(e0[:2])) * u, f"axes of the ellipse {kw}", rtol=1e-5, atol=1e-4 * u * big)
        elif big - small > 1e-2 * big and not h.swap:
            x = a - a.mean(axis=0)
            if abs((x[:, 0] * x[:, 1]).sum()) > 1e-6 * (x**2).sum():
                ctx.close(e1[:2], np.array(e0[:2]) * u, f"axes of the ellipse {kw}", rtol=1e-5, atol=1e-4 * u * big)
                turn = (e1[2] - e0[2] + np.pi / 2) % np.pi - np.pi / 2
                ctx.ok(abs(turn) < 1e-4, f"angle of the ellipse {kw}: {e1[2]} instead of {e0[2]}")


@check("pattern", case(), quick=700)
def pattern(c, ctx):
    h = Change(c, ctx)
    if not h.exact:
        return
    u = h.unit
    p, q = pointpats.PointPattern(h.before), pointpats.PointPattern(h.after)
    tol = dict(rtol=1e-9, atol=h.tol)
    ctx.close(q.mbb, h.box(p.mbb), "mbb", **tol)
    for name, power in (("n", 0), ("mbb_area", 2), ("lambda_mbb", -2), ("hull_area", 2), ("lambda_hull", -2), ("lambda_window", -2), ("min_nnd", 1), ("max_nnd", 1), ("mean_nnd", 1), ("rot", 1)):
        if name == "rot" and h.swap:
            continue  # a side's rule of thumb
        ctx.close(ctx.call(name, getattr, q, name), np.asarray(getattr(p, name)) * u**power, name, rtol=1e-5 if "hull" in name or "window" in name else 1e-8)
    ctx.close(np.asarray(q.nnd).ravel(), np.asarray(p.nnd).ravel()[h.order] * u, "nnd", rtol=1e-9)
    k = 1 + c["k"] % 3
    ctx.close(ctx.call("knn", q.knn, k)[1].reshape(len(p), -1), p.knn(k)[1].reshape(len(p), -1)[h.order] * u, "distances of knn", rtol=1e-9)
    d = np.unique(np.hypot(*(h.before[:, None] - h.before[None]).transpose(2, 0, 1)))
    r = float(d[c["k"] % len(d)])
    if c["k"] % 2 or float(np.sqrt(r * r)) != r or r != int(r * 1024) / 1024:  # between two distances, unless this one is exact
        j = c["k"] % len(d)
        r = float(d[j] + (d[j + 1] if j + 1 < len(d) else d[j] + 1)) / 2
        if j + 1 < len(d) and d[j + 1] - d[j] < 1e-6 * d[-1]:
            return
    back = {i: int(k) for i, k in enumerate(h.order)}
    got = {tuple(sorted((back[i], back[j]))) for i, j in ctx.call("find_pairs", q.find_pairs, r * u)}
    ctx.equal(got, {tuple(sorted(map(int, e))) for e in p.find_pairs(r)}, f"pairs within {r}")
    ctx.equal(len(ctx.call("unique", q.unique)), len(p.unique()), "distinct points")


@check("quadrats", case(6, 20, places=G.near_place), quick=400)
def quadrats(c, ctx):
    h = Change(c, ctx)
    if not h.exact:
        return
    nx, ny = [(1, 2), (2, 2), (4, 2), (2, 8), (4, 4)][c["k"] % 5]
    mx, my = (ny, nx) if h.swap else (nx, ny)
    p = ctx.call("QStatistic", Q.QStatistic, h.before, nx=nx, ny=ny)
    q = ctx.call("QStatistic", Q.QStatistic, h.after, nx=mx, ny=my)
    ctx.close([q.chi2, q.chi2_pvalue, q.df], [p.chi2, p.chi2_pvalue, p.df], "chi2, p-value, degrees of freedom", rtol=1e-9, atol=1e-12)
    n0 = Q.RectangleM(h.before, count_column=nx, count_row=ny).point_location_sta()
    n1 = ctx.call("RectangleM", Q.RectangleM, h.after, count_column=mx, count_row=my).point_location_sta()
    g0 = np.array([n0[k] for k in sorted(n0)]).reshape(ny, nx)
    g1 = np.array([n1[k] for k in sorted(n1)]).reshape(my, mx)
    ctx.equal(g1, g0.T if h.swap else g0, "counts")
    # hexagons: only the order of the points is sure to keep every point on its side of every edge
    lh = G.extent(c["pts"]) / (2 + c["k"] % 3)
    a = h.before
    x0 = Q.HexagonM(a, lh=lh).point_location_sta()
    ctx.equal(ctx.call("HexagonM", Q.HexagonM, a[h.order], lh=lh).point_location_sta(), x0, "hexagon counts of reordered points")


@check("distance functions", case(4, 20), quick=900)
def distance_functions(c, ctx):
    h = Change(c, ctx)
    if not h.exact:
        return
    a, b, u = h.before, h.after, h.unit
    ext = G.extent(c["pts"])
    kind = c["k"] % 3
    s0, s1 = [(None, None), (12, 12), (np.array([0.0, 0.11, 0.23, 0.37, 0.61, 1.3]) * ext, np.array([0.0, 0.11, 0.23, 0.37, 0.61, 1.3]) * ext * u)][kind]
    empties = np.sqrt(np.arange(40.0)) * ext / 12
    metric = ["euclidean", "cityblock"][c["k"] % 2]
    for name in "fgjkl":
        kw0, kw1 = {}, {}
        if name == "f":
            kw0["distances"], kw1["distances"] = empties, empties * u
        elif name == "j":
            near = np.asarray(pointpats.PointPattern(a).nnd).ravel()
            kw0 = {"distances": (near, empties), "truncate": False}
            kw1 = {"distances": (near[h.order] * u, empties * u), "truncate": False}
        elif name in "gkl":
            kw0["metric"] = kw1["metric"] = metric
        if name == "l":
            kw0["linearized"] = kw1["linearized"] = bool(c["k"] % 2)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            x0, v0 = ctx.call(name, getattr(D, name), a, support=s0, **kw0)
            x1, v1 = ctx.call(name, getattr(D, name), b, support=s1, **kw1)
        ctx.close(x1, np.asarray(x0) * u, f"{name}: distances", rtol=1e-12)
        power = {"k": 2, "l": 1}.get(name, 0)
        ctx.close(v1, np.asarray(v0) * u**power, f"{name}: values", rtol=1e-8, atol=1e-9 * u**power * (ext if name == "l" else 1))


@check("tests", case(5, 14, places=G.near_place, exchange=False), quick=200)
def tests_(c, ctx):
    h = Change(c, ctx)
    if not h.exact or abs(h.by).max() > 2000 * G.extent(c["pts"]) * h.unit:
        return
    h.order = np.arange(len(h.before))
    ext = G.extent(c["pts"])
    s = np.array([0.05, 0.13, 0.29, 0.53]) * ext
    name = "gk"[c["k"] % 2]
    out = []
    for pts, support in ((h.before, s), (h.after, s * h.unit)):
        seed_everything(c["seed"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out.append(ctx.call(f"{name}_test", getattr(D, f"{name}_test"), pts, support=support, n_simulations=19, n_jobs=1))
    same = np.isclose(out[1].pvalue, out[0].pvalue)
    # a point of the pattern or of a simulation may round to the other side of a distance
    ctx.ok((~same).sum() <= 1, f"{name}_test: p-values {out[1].pvalue} instead of {out[0].pvalue}")


@st.composite
def events_case(draw):
    e = draw(K.events(4, 12, large=40))
    return {"events": e, "pts": e["pts"], "change": draw(change(len(e["pts"]))), "later": draw(st.sampled_from([0, 5, -20, 1000])), "hours": draw(st.sampled_from([1, 1, 1 / 16, 64])), "seed": draw(G.small_seed), "k": draw(st.integers(0, 20))}


@check("space-time", events_case(), quick=600)
def space_time(c, ctx):
    h = Change(c, ctx)
    if not h.exact:
        return
    s, t = K.arrays(c["events"])
    delta, tau = c["events"]["delta"], c["events"]["tau"]
    hours = c["hours"]
    if hours != 1 and c["events"]["times"] != "float32":
        t = t.astype(float)
    unit = t.dtype.type(hours)
    # the same times counted from another moment in another unit
    s1, t1 = h.after, (t[h.order] + t.dtype.type(c["later"])) * unit
    tau1 = tau * hours
    if hours != 1:
        ctx.label("unit of time")
    back = [int(k) for k in h.order]
    d1 = delta * h.unit

    def run(f, *args, **kw):
        seed_everything(c["seed"])
        return ctx.call(f.__name__, f, *args, **kw)

    p, q = run(T.Knox, s, t, delta, tau, permutations=0), run(T.Knox, s1, t1, d1, tau1, permutations=0)
    ctx.equal(q.nst, p.nst, "Knox.nst")
    for name in ("observed", "expected", "p_poisson"):
        ctx.close(getattr(q, name), getattr(p, name), f"Knox.{name}", rtol=1e-9, atol=1e-12)
    p, q = run(T.KnoxLocal, s, t, delta, tau, permutations=0), run(T.KnoxLocal, s1, t1, d1, tau1, permutations=0)
    ctx.equal(q.nsti, np.asarray(p.nsti)[h.order], "KnoxLocal.nsti")
    ctx.close(q.p_hypergeom, np.asarray(p.p_hypergeom)[h.order], "KnoxLocal.p_hypergeom", rtol=1e-9, atol=1e-12)
    links0 = sorted(zip(p.adjlist.focal, p.adjlist.neighbor, p.adjlist.orientation))
    links1 = sorted((back[i], back[j], o) for i, j, o in zip(q.adjlist.focal, q.adjlist.neighbor, q.adjlist.orientation))
    ctx.equal(links1, links0, "KnoxLocal.adjlist")
    ctx.equal(run(T.knox, s1, t1, d1, tau1, permutations=0), run(T.knox, s, t, delta, tau, permutations=0), "knox")
    ctx.close(run(T.modified_knox, s1, t1, d1, tau1, permutations=0), run(T.modified_knox, s, t, delta, tau, permutations=0), "modified_knox", rtol=1e-9, atol=1e-9)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        scon = G.extent(c["pts"]) / 8
        m0 = run(T.mantel, s, t, permutations=0, scon=scon)
        m1 = run(T.mantel, s1, t1, permutations=0, scon=scon * h.unit, tcon=1.0 * hours)
    ctx.close(m1, m0, "mantel", rtol=1e-7, atol=1e-9)
    # with nothing reordered, the permutations are the same ones
    t2 = (t + t.dtype.type(c["later"])) * unit
    a2 = h(s)
    for f in (T.knox, T.modified_knox):
        ctx.close(*[run(f, x, y, r, q, permutations=19)["pvalue"] for x, y, r, q in ((a2, t2, d1, tau1), (s, t, delta, tau))], f"{f.__name__}: p-value", rtol=1e-12)
    p, q = run(T.KnoxLocal, s, t, delta, tau, permutations=9), run(T.KnoxLocal, a2, t2, d1, tau1, permutations=9)
    ctx.equal(q.p_sims, p.p_sims, "KnoxLocal.p_sims")
    ctx.equal(q.p_sim, p.p_sim, "KnoxLocal.p_sim")
    hs0, hs1 = p.hotspots(crit=0.5), q.hotspots(crit=0.5)
    ctx.equal(sorted(hs1.focal), sorted(hs0.focal), "hotspots")
    a = dict(zip(hs0.focal, hs0.cluster))
    b = dict(zip(hs1.focal, hs1.cluster))
    ctx.equal([[b[i] == b[j] for j in sorted(b)] for i in sorted(b)], [[a[i] == a[j] for j in sorted(a)] for i in sorted(a)], "clusters of hotspots")
    # nearest neighbours, where they are unique
    k = 1 + c["k"] % 2
    gaps = [np.abs(x[:, None, :] - x[None, :, :]).astype(float) for x in (s, t)]
    rows = [np.sort((g**2).sum(axis=-1), axis=1) for g in gaps]
    if len(s) > k + 1 and all((r[:, 1 : k + 1] < r[:, 2 : k + 2]).all() and (r[:, 1] > 0).all() for r in rows):
        ctx.label("jacquez")
        ctx.equal(run(T.jacquez, s1, t1, k, permutations=0), run(T.jacquez, s, t, k, permutations=0), "jacquez")
