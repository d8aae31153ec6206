"""Cases: point sets with ties, rectangular grids by counts or cell size and hexagons, default,
larger and non-rectangular windows, 0 to 12 realizations and every form of random source. The
chi-square, contributions, degrees of freedom and both p-values are recomputed from counts made
by an independent assignment of points to cells; simulated statistics are compared with those of
Poisson patterns of as many points from the same source. Non-trivial: realizations, or
hexagons, or a window of its own."""
import numpy as np
import shapely
from hypothesis import strategies as st
from scipy import stats

from pbt import gens as G
from pbt.core import check
from pointpats import quadrat_statistics as Q
from pointpats.random import poisson

case = st.fixed_dictionaries({
    "pts": G.points(4, 24, places=G.near_place, large=90, huge=700),
    "shape": st.one_of(st.sampled_from([{}, {"nx": 2}, {"ny": 4}]), st.fixed_dictionaries({"nx": st.integers(1, 5), "ny": st.integers(1, 5)}),
                       st.fixed_dictionaries({"w": st.sampled_from([0.3, 0.5, 0.75, 1.0, 1.5]), "h": st.sampled_from([0.3, 0.5, 1.0, 2.0])}),
                       st.fixed_dictionaries({"lh": st.sampled_from([0.2, 0.35, 0.5, 1.0, 3.0])}),
                       st.fixed_dictionaries({"lh": st.sampled_from([0.2, 0.35, 0.5])})),
    "window": st.sampled_from([None, None, "same", "larger", "disc", "two parts", "inner", "holes", "parts with holes"]),
    "reals": st.sampled_from([0, 1, 1, 2, 3, 5, 12]), "seed": G.small_seed, "rng": st.sampled_from(["int", "numpy int", "generator", "random state", "bit generator", "seed sequence"]),
})


def source(kind, seed):
    return {"int": lambda: seed, "numpy int": lambda: np.int64(seed), "generator": lambda: np.random.default_rng(seed), "random state": lambda: np.random.RandomState(seed),
            "bit generator": lambda: np.random.PCG64(seed), "seed sequence": lambda: np.random.SeedSequence(seed)}[kind]()


def arguments(c):
    a = G.arr(c["pts"])
    b = np.array([*a.min(axis=0), *a.max(axis=0)])
    W, H = b[2:] - b[:2]
    s = c["shape"]
    kw = {"rng": source(c["rng"], c["seed"])}
    if not s or "nx" in s or "ny" in s:
        kw.update(s)
    elif "w" in s:
        kw.update(rectangle_width=s["w"] * W, rectangle_height=s["h"] * H)
    else:
        kw.update(shape="hexagon", lh=max(s["lh"] * min(W, H), max(W, H) / 25))
    box = shapely.box(*b)
    m, d = (b[:2] + b[2:]) / 2, max(W, H)
    hole = lambda x, y: shapely.box(b[0] + x * W, b[1] + y * H, b[0] + (x + 0.125) * W, b[1] + (y + 0.125) * H)  # noqa: E731
    far = shapely.box(b[2] + W, b[1], b[2] + 2 * W, b[3])
    win = {"holes": box.difference(hole(0.125, 0.25)).difference(hole(0.5, 0.625)).difference(hole(0.75, 0.125)), "parts with holes": shapely.MultiPolygon([box.difference(hole(0.5, 0.25)), far.difference(hole(1.25, 0.25)).difference(hole(1.5, 0.5))]), None: None, "same": box, "larger": shapely.box(b[0] - W, b[1] - H / 2, b[2] + W / 4, b[3] + H), "disc": shapely.Point(*m).buffer(d, 8),
           "two parts": shapely.MultiPolygon([box, shapely.box(b[2] + W, b[1], b[2] + 2 * W, b[3])]), "inner": shapely.Polygon(box.exterior, [shapely.Point(*m).buffer(min(W, H) / 4, 4).exterior])}[c["window"]]
    if win is not None:
        kw["window"] = win
    if c["reals"]:
        kw["realizations"] = c["reals"]
    return a, kw, box if win is None else win


def recount(m, pts):
    return np.array(list(m.point_location_sta().values()), float)


def chi2_of(counts):
    e = counts.sum() / len(counts)
    return float(((counts - e) ** 2 / e).sum())


@check("statistic", case, quick=1100)
def statistic(c, ctx):
    a, kw, window = arguments(c)
    hexa = "lh" in kw
    ctx.label("hexagon" if hexa else "rectangle", f"window {c['window']}", f"{c['reals']} realizations", c["rng"])
    ctx.interesting(hexa or c["reals"] > 0 or c["window"] is not None)
    q = ctx.call("QStatistic", Q.QStatistic, a, **kw)
    # the same grid, asked for its counts directly (E01 and E02 are about those)
    if hexa:
        m = Q.HexagonM(a, kw["lh"])
    elif "rectangle_width" not in kw:
        m = Q.RectangleM(a, count_column=kw.get("nx", 3), count_row=kw.get("ny", 3))
    else:
        m = Q.RectangleM(a, rectangle_width=kw["rectangle_width"], rectangle_height=kw["rectangle_height"])
    sta = m.point_location_sta()
    counts = np.array(list(sta.values()), float)
    k, n = len(counts), len(a)
    ctx.equal(list(q.cell_ids), list(sta), "cell numbers")
    ctx.equal(q.df, k - 1, "degrees of freedom")
    want = chi2_of(counts)
    ctx.close(q.chi2, want, "chi-square", rtol=1e-9, atol=1e-9)
    e = n / k
    ctx.close(q.chi2_contrib, (counts - e) ** 2 / e, "contributions", rtol=1e-9, atol=1e-12)
    if k > 1:
        ctx.close(q.chi2_pvalue, stats.chi2.sf(want, k - 1), "analytical p-value", rtol=1e-8, atol=1e-300)
    if not c["reals"]:
        ctx.ok(not hasattr(q, "chi2_realizations") and not hasattr(q, "chi2_r_pvalue"), "simulated results without simulations")
        return
    sims = np.asarray(q.chi2_realizations, float)
    ctx.equal(sims.shape, (c["reals"],), "number of simulated statistics")
    p = (1 + int((sims >= q.chi2).sum())) / (c["reals"] + 1)
    ctx.close(q.chi2_r_pvalue, p, "pseudo p-value", rtol=1e-12)
    ctx.ok(1 / (c["reals"] + 1) <= q.chi2_r_pvalue <= 1, f"pseudo p-value {q.chi2_r_pvalue!r}")
    if not hexa:  # k * (sum of squared counts) / n - n for whole counts that sum to n
        ss = (sims + n) * n / k
        ctx.ok((np.abs(ss - np.round(ss)) < 1e-6).all() and (ss > 0).all() and (ss <= n * n + 1e-6).all(),
               f"simulated statistics {sims.tolist()} are not those of {n} points in {k} cells")
    # patterns of as many points in the window, from the same source of randomness
    if c["rng"] == "random state":
        rng = np.random.default_rng(int(np.random.RandomState(c["seed"]).randint(0, 2**32 - 1, dtype=np.uint32)))
    else:
        rng = np.random.default_rng(c["seed"])
    pats = poisson(window, size=(n, c["reals"]), rng=rng)
    pats = pats[None] if c["reals"] == 1 else pats
    expect = []
    for p in pats:
        ms = Q.HexagonM(p, kw["lh"]) if hexa else Q.RectangleM(p, count_column=m.count_column, count_row=m.count_row)
        expect.append(chi2_of(recount(ms, p)))
    if c["rng"] != "random state":
        ctx.close(sims, expect, "simulated statistics", rtol=1e-9, atol=1e-9)
    again = Q.QStatistic(a, **{**kw, "rng": source(c["rng"], c["seed"])})
    ctx.equal(again.chi2_realizations, sims, "the same seed again")


long_case = st.fixed_dictionaries({"n": st.integers(20, 60), "nx": st.integers(2, 4), "ny": st.integers(2, 4), "seed": G.small_seed, "window": st.sampled_from(["box", "triangle"])})


@check("null", long_case, quick=40)
def null(c, ctx):
    """Statistics simulated in a box average to the degrees of freedom, and spread."""
    pts = np.array([[(i * 7 % c["n"]) / c["n"], (i * 11 % c["n"]) / c["n"]] for i in range(c["n"])])
    window = None if c["window"] == "box" else shapely.Polygon([(0, 0), (2, 0), (0, 2)])
    q = ctx.call("QStatistic", Q.QStatistic, pts, nx=c["nx"], ny=c["ny"], realizations=150, window=window, rng=c["seed"])
    df = c["nx"] * c["ny"] - 1
    ctx.interesting()
    mean, sims = float(np.mean(q.chi2_realizations)), q.chi2_realizations
    ctx.ok(len(np.unique(np.round(sims, 6))) > 3, "simulated statistics hardly vary")
    if c["window"] == "box":  # the grid adapts to each pattern's own extent: a little above
        ctx.ok(0.6 * df < mean < 1.6 * df, f"mean simulated statistic {mean:.2f}, degrees of freedom {df}")
    else:  # cells outside the triangle are empty: far above
        ctx.ok(mean > 1.3 * df, f"mean simulated statistic {mean:.2f} in a triangle, degrees of freedom {df}")


refuse = st.fixed_dictionaries({"shape": st.sampled_from(["hex", "rect", "triangle", "Rectangle", "", "square"]), "n": st.integers(3, 8)})


@check("shape", refuse, quick=30)
def shape(c, ctx):
    ctx.interesting()
    pts = [[float(i), float(i * i % 5)] for i in range(c["n"])]
    ctx.refused(f"shape {c['shape']!r}", (ValueError,), Q.QStatistic, pts, shape=c["shape"])
