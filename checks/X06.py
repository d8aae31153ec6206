"""Cases: the calls of X01 on integer-valued inputs that nearly fill the range of a drawn type of number (8- to 64-bit
integers signed or not, single precision; int or float in lists), each once with all arrays
in that type and once in double precision: the answers must agree to the precision of the
narrower floating-point type, in their own type-independent values. Likewise descriptive and analytic calls with
parameters given as NumPy numbers instead of Python's. Non-trivial: an array the call uses was stored in a narrow type
in which differences or products of its values do not fit; or a parameter was a NumPy number."""
import contextlib
import io
import warnings

import matplotlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import pointpats
from checks import X01
from pbt import gens as G
from pbt.core import check, seed_everything
from pointpats import centrography as C
from pointpats import distance_statistics as D
from pointpats import geometry as geom
from pointpats import quadrat_statistics as Q
from pointpats import random as S
from pointpats import spacetime as T

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

# type: the values used, as multiples of the unit
TYPES = {"int8": (-120, 120, 1), "uint8": (4, 250, 1), "int16": (-120, 120, 250), "uint16": (4, 250, 250), "int32": (-120, 120, 8000), "uint32": (4, 250, 8000),
         "int64": (-120, 120, 8000), "uint64": (4, 250, 8000), "float32": (-120, 120, 0.5), "list": (-120, 120, 10)}
KEEP = ("tree", "sktree", "hullobj", "series", "geo", "events", "region", "regions", "polygon", "levels", "colors", "style", "estyle", "names", "cnames", "colnames", "ids", "resolution", "marks", "cov", "heavy")
WHOLE = ("coord", "weights", "center", "support", "slist", "radii", "radii_array", "radii_region", "mixed", "matrix", "vector", "nearest", "empties", "t", "tfloat", "bbox", "blist")
# discontinuous in rounding, or fed with random numbers of the type
INEXACT = {"float32": ("median",)}


def stored(x, kind):
    """The same numbers in another type, where it can hold them."""
    if isinstance(x, (list, tuple)):
        if kind != "list":
            return x
        return type(x)(stored(v, kind) for v in x)
    if isinstance(x, float):
        return int(x) if kind == "list" and x == int(x) else x
    if isinstance(x, pd.DataFrame):
        return x if kind == "list" else pd.DataFrame({k: stored(x[k].to_numpy(), kind) for k in x}, index=x.index)
    if not isinstance(x, np.ndarray) or kind == "list":
        return x
    with np.errstate(all="ignore"):
        r = x.astype(kind)
        return r if np.array_equal(r.astype(float), x.astype(float)) else x


class Whole(X01.Inputs):
    """Inputs of whole numbers, stored in one type."""

    def __init__(self, c, kind, cast):
        super().__init__(c)
        self.kind, self.cast = kind, cast
        self.narrow = []

    def __getattr__(self, name):
        if name.startswith("_") or name in ("c", "made", "kind", "cast", "narrow"):
            raise AttributeError(name)
        if name not in self.made:
            x = self.whole(name)
            if self.cast and name not in KEEP:
                if name in ("pattern", "other", "quadrats", "cells", "honeycomb", "fitted", "marked"):
                    pass  # made from arrays of that type below
                else:
                    y = stored(x, self.kind)
                    if y is not x:
                        self.narrow.append(name)
                    x = y
            self.made[name] = x
        return self.made[name]

    def whole(self, name):
        if name in ("pattern", "other"):
            a = self.a
            if self.kind == "list":
                a = a.astype(int) if self.cast else a
            return pointpats.PointPattern(a if name == "pattern" else np.vstack([a[1:], a[:2]]))
        x = X01.BUILD[name](self)
        if name in ("t", "tfloat") and self.c["wide"]:  # times that fill the range
            lo, hi, unit = TYPES[self.kind]
            return np.round(lo + np.array(self.c["t"], float).reshape(-1, 1) * (hi - lo) / 9) * unit
        if name in WHOLE:
            if name in ("bbox", "blist"):
                lo, hi = x[:2], x[2:]
                return type(x)([*np.floor(lo).tolist(), *np.ceil(hi).tolist()]) if isinstance(x, list) else np.array([*np.floor(lo), *np.ceil(hi)])
            if not self.c["round"]:  # these as they are, the coordinates whole
                return x
            if isinstance(x, (list, np.ndarray)):
                r = np.round(np.asarray(x, float) * (1 + (name == "weights")))
                return r.tolist() if isinstance(x, list) else r
            if isinstance(x, tuple):
                return tuple(np.round(v) for v in x)
        return x


@st.composite
def case_(draw):
    c = draw(X01.case_())
    c["calls"] = c["calls"][:1]
    c["kind"] = draw(st.sampled_from(sorted(TYPES)))
    c["wide"], c["round"] = draw(st.booleans()), draw(st.booleans())
    return c


def placed(c):
    lo, hi, unit = TYPES[c["kind"]]
    a = np.asarray(c["pts"], float)
    a = a - a.min(axis=0)
    a = np.round(lo + a / a.max() * (hi - lo)) * unit
    ends = [lo * unit, lo * unit, hi * unit, hi * unit]
    return {**c, "pts": a.tolist(), "delta": float(round(c["delta"] / G.extent(c["pts"]) * (hi - lo)) * unit), "hull": {"kind": "bbox", "bbox": ends}}


SCALE = {"float32": 2e-5}


def agree(ctx, got, want, kind, size, what):
    ctx.ok(len(got) == len(want), lambda: f"{what}: {len(got)} values instead of {len(want)}: {got[:12]}... {want[:12]}...")
    words = [(g, w) for g, w in zip(got, want) if (isinstance(g, str) or isinstance(w, str)) and g != w]
    ctx.ok(not words, lambda: f"{what}: {words[:3]}")
    g = np.array([v for v in got if not isinstance(v, str)], float)
    w = np.array([v for v in want if not isinstance(v, str)], float)
    tol = SCALE.get(kind, 1e-9)
    ok = np.isclose(g, w, rtol=tol, atol=tol * size, equal_nan=True)
    ctx.ok(ok.all(), lambda: f"{what}: {g[~ok][:5]} instead of {w[~ok][:5]}")


def answer(name, I, seed):  # noqa: E741
    seed_everything(seed)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter("ignore")
        try:
            r = X01.plain(X01.ENTRIES[name](I))
        finally:
            plt.close("all")
    return [w for v in [*r, out.getvalue()] for w in (words(v) if isinstance(v, str) else [v])]


def words(text):
    """Printed numbers as numbers."""
    r = []
    for w in text.replace("[", " ").replace("]", " ").replace("(", " ").replace(")", " ").replace(",", " ").split():
        try:
            r.append(float(w))
        except ValueError:
            r.append(w)
    return r


EXAMPLES = [{**X01.EXAMPLE, "calls": [n], "kind": k, "wide": j % 2 > 0, "round": j % 4 < 2} for j, k in enumerate(sorted(TYPES)) for n in sorted(X01.ENTRIES)[j % 3 :: 3]]


@check("arrays", case_(), quick=1000, examples=EXAMPLES)
def arrays(c, ctx):
    c = placed(c)
    a = np.asarray(c["pts"])
    if len(np.unique(a, axis=0)) < 3 or np.linalg.matrix_rank(a - a[0]) < 2:
        return
    name, kind = c["calls"][0], c["kind"]
    ctx.label(kind)
    if any(w in name for w in INEXACT.get(kind, ())) or (name == "plot_density(a, kernel)" and G.extent(c["pts"]) > 1e4):  # KDEpy finds no support there
        return
    plain = Whole(c, kind, False)
    want = ctx.call(name, answer, name, plain, c["seed"])
    I = Whole(c, kind, True)  # noqa: E741
    got = ctx.call(f"{name} of {kind}", answer, name, I, c["seed"])
    ctx.interesting(bool(I.narrow))
    agree(ctx, got, want, kind, float(np.abs(a).max()), f"{name} with {'/'.join(I.narrow)} as {kind}")


def region(c):
    return np.array([-1.0, -2.0, 9.0, 8.0])


# parameters as i(whole number) and r(real number)
CALLS = {
    "poisson, size": lambda A, t, i, r: S.poisson(region(A), size=i(7), rng=1),
    "poisson, size and replications": lambda A, t, i, r: S.poisson(region(A), size=(i(5), i(3)), rng=1),
    "poisson, intensity": lambda A, t, i, r: S.poisson(region(A), intensity=r(0.25), rng=1),
    "poisson, whole intensity": lambda A, t, i, r: S.poisson(region(A), intensity=i(2), size=i(2), rng=1),
    "normal, size": lambda A, t, i, r: S.normal(region(A), size=i(7), rng=1),
    "normal, cov": lambda A, t, i, r: S.normal(region(A), cov=r(2.5), size=i(6), rng=1),
    "normal, whole cov": lambda A, t, i, r: S.normal(region(A), cov=i(3), size=(i(6), i(2)), rng=1),
    "cluster_poisson": lambda A, t, i, r: S.cluster_poisson(region(A), cluster_radius=r(0.75), size=i(9), n_seeds=i(3), rng=1),
    "cluster_poisson, whole radius": lambda A, t, i, r: S.cluster_poisson(region(A), cluster_radius=i(2), size=(i(9), i(2)), n_seeds=i(2), rng=1),
    "cluster_poisson, radii": lambda A, t, i, r: S.cluster_poisson(region(A), cluster_radius=[r(0.5), i(2)], size=i(9), n_seeds=i(2), rng=1),
    "cluster_normal": lambda A, t, i, r: S.cluster_normal(region(A), cov=r(0.5), size=i(8), n_seeds=i(2), rng=1),
    "strauss": lambda A, t, i, r: S.strauss(region(A), size=(i(4), i(1)), gamma=r(0.5), r=r(0.25), n_iter=i(4), rng=1, max_iter=i(30)),
    "seeds": lambda A, t, i, r: [S.poisson(region(A), size=4, rng=i(6)), S.normal(region(A), size=4, rng=i(6)), S.cluster_poisson(region(A), size=4, n_seeds=2, cluster_radius=1.0, rng=i(6))],
    "g, steps": lambda A, t, i, r: D.g(A, support=i(6)),
    "f, steps": lambda A, t, i, r: D.f(A, support=i(6), distances=np.arange(8.0)),
    "k, steps": lambda A, t, i, r: D.k(A, support=i(5)),
    "l, steps": lambda A, t, i, r: D.l(A, support=i(5), linearized=True),
    "j, steps": lambda A, t, i, r: D.j(A, support=i(5), truncate=False, distances=(np.arange(1.0, len(A) + 1), np.arange(9.0))),
    "g, stop": lambda A, t, i, r: D.g(A, support=(r(4.5),)),
    "k, start and stop": lambda A, t, i, r: D.k(A, support=(r(0.5), r(4.5))),
    "k, start, stop and steps": lambda A, t, i, r: D.k(A, support=(i(0), r(4.5), i(7))),
    "k, values": lambda A, t, i, r: D.k(A, support=[i(0), i(2), r(4.5)]),
    "g_test": lambda A, t, i, r: D.g_test(A, support=i(5), n_simulations=i(6), hull=region(A), n_jobs=i(1)).statistic,
    "k_test": lambda A, t, i, r: D.k_test(A, support=(r(4.5),), n_simulations=i(6), hull=region(A), n_jobs=1)._replace(simulations=None),
    "QStatistic": lambda A, t, i, r: X01.plain(Q.QStatistic(A, nx=i(3), ny=i(2), realizations=i(3), rng=i(5))),
    "QStatistic, hexagons": lambda A, t, i, r: X01.plain(Q.QStatistic(A, shape="hexagon", lh=r(1.5), realizations=i(3), rng=i(5))),
    "RectangleM": lambda A, t, i, r: Q.RectangleM(A, count_column=i(3), count_row=i(4)).point_location_sta(),
    "RectangleM, sizes": lambda A, t, i, r: Q.RectangleM(A, rectangle_width=r(1.5), rectangle_height=i(2)).point_location_sta(),
    "HexagonM": lambda A, t, i, r: Q.HexagonM(A, lh=i(2)).point_location_sta(),
    "knox": lambda A, t, i, r: T.knox(A, t, delta=r(2.5), tau=i(3), permutations=i(9)),
    "Knox": lambda A, t, i, r: [(k.statistic_, k.p_poisson, k.p_sim) for k in [T.Knox(A, t, delta=r(2.5), tau=r(2.5), permutations=i(9))]],
    "KnoxLocal": lambda A, t, i, r: [(k.statistic_, k.p_hypergeom, k.p_sims, k.hotspots(crit=r(0.75))) for k in [T.KnoxLocal(A, t, delta=i(3), tau=i(3), permutations=i(9))]],
    "modified_knox": lambda A, t, i, r: T.modified_knox(A, t, r(2.5), i(3), i(9)),
    "mantel": lambda A, t, i, r: T.mantel(A, t, i(9), scon=r(0.5), spow=i(-1), tcon=i(1), tpow=r(-0.5)),
    "jacquez": lambda A, t, i, r: T.jacquez(A, t, k=i(2), permutations=i(9)),
    "knn": lambda A, t, i, r: pointpats.PointPattern(A).knn(i(2)),
    "knn_other": lambda A, t, i, r: pointpats.PointPattern(A).knn_other(pointpats.PointPattern(A + 0.25), i(2)),
    "find_pairs": lambda A, t, i, r: sorted(pointpats.PointPattern(A).find_pairs(r(2.5))),
    "k_neighbors": lambda A, t, i, r: geom.k_neighbors(geom.build_best_tree(A, "euclidean"), A, i(2)),
    "dtot": lambda A, t, i, r: [C.dtot([r(0.5), i(2)], A), C.dtot((i(1), i(2)), A)],
    "area, bbox, contains": lambda A, t, i, r: [geom.area([i(0), i(-1), r(2.5), i(3)]), geom.contains(np.array([0.0, 0.0, 3.0, 3.0]), i(2), r(2.5)), geom.bbox([(i(0), r(0.5)), (r(2.5), i(-1))])],
    "Window": lambda A, t, i, r: [pointpats.Window([(i(0), i(0)), (i(0), r(2.5)), (i(3), r(2.5)), (i(3), i(0)), (i(0), i(0))]).area],
    "PoissonPointProcess": lambda A, t, i, r: pointpats.PoissonPointProcess(pointpats.PointPattern(A).window, i(6), i(2), asPP=False).realizations,
    "PoissonPointProcess, conditioned": lambda A, t, i, r: pointpats.PoissonPointProcess(pointpats.PointPattern(A).window, i(6), i(2), conditioning=True, asPP=False).realizations,
    "PoissonClusterPointProcess": lambda A, t, i, r: pointpats.PoissonClusterPointProcess(pointpats.PointPattern(A).window, i(8), i(2), r(0.5), i(2), asPP=False).realizations,
    "ellipse": lambda A, t, i, r: C.ellipse(A, weights=[i(1 + k % 3) for k in range(len(A))]),
    "weighted_mean_center": lambda A, t, i, r: C.weighted_mean_center(A, [r(1.0 + k % 3) for k in range(len(A))]),
    "plot_density": lambda A, t, i, r: pointpats.plot_density(A, r(1.5), resolution=i(8), levels=i(4), margin=r(0.25)),
    "plot_density, levels": lambda A, t, i, r: pointpats.plot_density(A, i(2), resolution=(i(8), i(7)), levels=[r(0.0078125), r(0.03125)]),
}
WHOLES = {"int": int, "int64": np.int64, "int32": np.int32}
REALS = {"float": float, "float64": np.float64, "float32": np.float32}
scalar_case = st.fixed_dictionaries({
    "pts": st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6)).map(list), min_size=5, max_size=9, unique_by=tuple), "call": st.sampled_from(sorted(CALLS)),
    "whole": st.sampled_from(sorted(WHOLES)), "real": st.sampled_from(sorted(REALS)), "seed": G.small_seed})
POINTS = [[0, 0], [4, 1], [5, 1], [2, 5], [1, 3], [3, 3]]


@check("scalars", scalar_case, quick=500, examples=[{"pts": POINTS, "call": n, "whole": w, "real": r, "seed": 3} for n in sorted(CALLS) for w, r in (("int64", "float64"), ("int32", "float32"))])
def scalars(c, ctx):
    A = np.asarray(c["pts"], float)
    if np.linalg.matrix_rank(A - A[0]) < 2:
        return
    t = np.array([[3 * k % 7] for k in range(len(A))])
    f = CALLS[c["call"]]
    results = []
    for whole, real in ((int, float), (WHOLES[c["whole"]], REALS[c["real"]])):
        what = f"{c['call']}, parameters as {whole.__name__} and {real.__name__}"
        seed_everything(c["seed"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = ctx.call(what, f, A.copy(), t.copy(), whole, real)
                results.append([w for v in X01.plain(list(r) if isinstance(r, tuple) else r) for w in (words(v) if isinstance(v, str) else [v])])
            finally:
                plt.close("all")
    ctx.interesting(c["whole"] != "int" or c["real"] == "float32")
    agree(ctx, results[1], results[0], c["real"], 1.0, what)
