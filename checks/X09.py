"""Cases: a public function, class or method of a table of fifty with the documented order and defaults of their parameters;
each option left out, given at its documented default or given another value, each argument given by position
or by name as far as Python allows. The answer, in the same random state, must equal that of the call in which
every argument is spelled out by name. Each
option, given another value alone or along with others, must change the answer for some input. Non-trivial: some
option is left out or given by position, or two values of an option are compared."""
import contextlib
import io
import warnings

import matplotlib
import numpy as np
from hypothesis import strategies as st

import pointpats
from checks import X01
from pbt import gens as G
from pbt.core import check, seed_everything
from pointpats import centrography as C
from pointpats import distance_statistics as D
from pointpats import geometry as geom
from pointpats import process
from pointpats import quadrat_statistics as Q
from pointpats import random as S
from pointpats import spacetime as T

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402


def unit(i):
    return G.extent(i.c["pts"])


def named(i):
    return pointpats.PointPattern(i.a, names=["x", "y"])


def shown(ax):
    fig = ax.figure
    return [X01.freeze(ax), ax.get_title(), len(fig.axes), [a.get_ylabel() for a in fig.axes], [p.get_facecolor().tolist() for p in ax.collections], [p.get_edgecolor().tolist() for p in ax.collections],
            [len(p.get_paths()) for p in ax.collections], [np.round(p.get_linewidth(), 9).tolist() for p in ax.collections],
            [np.round(p.get_sizes(), 9).tolist() for p in ax.collections if hasattr(p, "get_sizes")], fig.get_size_inches().tolist()]


NONE = ("none",)  # no other value
COSTLY = ("costly",)  # always given
# name: (callable of the inputs, [required arguments, in order], [(option, default, another value)] in documented order)
SUP = [("support", None, lambda i: [0.0, unit(i) / 8, unit(i) / 3]), ("distances", None, NONE), ("metric", "euclidean", "cityblock")]
EDGE = ("edge_correction", None, NONE)
HULL = ("hull", None, lambda i: i.bbox)
SIM = [("keep_simulations", False, True), ("n_simulations", COSTLY, 3), ("n_jobs", COSTLY, 1)]
PERM = ("permutations", 99, 5)
PTS = ("coordinates", lambda i: i.a)
KNOX = [("s_coords", lambda i: i.a), ("t_coords", lambda i: i.t), ("delta", lambda i: i.c["delta"]), ("tau", 2)]
FRAME = [("dataframe", lambda i: i.events), ("time_col", "day"), ("delta", lambda i: i.c["delta"]), ("tau", 2)]
PLOT = [("title", "Quadrat Count", "Other"), ("show", "counts", "chi2")]
WINDOW = ("window", None, lambda i: i.polygon)
CALLS = {
    "mean_center": (C.mean_center, [("points", lambda i: i.a)], []),
    "weighted_mean_center": (C.weighted_mean_center, [("points", lambda i: i.a), ("weights", lambda i: i.weights)], []),
    "dtot": (C.dtot, [("coord", lambda i: i.coord), ("points", lambda i: i.a)], []),
    "ellipse": (C.ellipse, [("points", lambda i: i.a)], [("weights", None, lambda i: i.weights), ("method", "crimestat", "yuill"), ("crimestatCorr", True, False), ("degfreedCorr", True, False)]),
    "ellipse of a frame": (C.ellipse, [("points", lambda i: i.geo)], [("weights", None, lambda i: i.weights), ("method", "crimestat", "yuill"), ("crimestatCorr", True, False), ("degfreedCorr", True, False)]),
    "minimum_rotated_rectangle": (C.minimum_rotated_rectangle, [("points", lambda i: i.a)], [("return_angle", False, True)]),
    "f": (D.f, [PTS], [*SUP, HULL, EDGE]),
    "g": (D.g, [PTS], [*SUP, EDGE]),
    "j": (D.j, [PTS], [*SUP, HULL, EDGE, ("truncate", True, False)]),
    "k": (D.k, [PTS], [*SUP, EDGE]),
    "l": (D.l, [PTS], [SUP[0], ("permutations", 9999, 5), *SUP[1:], EDGE, ("linearized", False, True)]),
    "f_test": (D.f_test, [PTS], [*SUP, HULL, EDGE, *SIM]),
    "g_test": (D.g_test, [PTS], [*SUP, HULL, EDGE, *SIM]),
    "j_test": (D.j_test, [PTS], [*SUP, HULL, EDGE, ("truncate", True, False), *SIM]),
    "k_test": (D.k_test, [PTS], [*SUP, HULL, EDGE, *SIM]),
    "l_test": (D.l_test, [PTS], [*SUP, HULL, EDGE, ("linearized", False, True), *SIM]),
    "contains": (geom.contains, [("shape", lambda i: i.polygon), ("x", lambda i: float(i.a[0, 0])), ("y", lambda i: float(i.a[0, 1]))], []),
    "build_best_tree": (geom.build_best_tree, [PTS, ("metric", "euclidean")], []),
    "k_neighbors": (geom.k_neighbors, [("tree", lambda i: i.tree), PTS, ("k", 2)], []),
    "prepare_hull": (geom.prepare_hull, [PTS], [("hull", None, "convex")]),
    "plot_density": (pointpats.plot_density, [("data", lambda i: i.a), ("bandwidth", lambda i: unit(i) / 4)],
                     [("kernel", None, NONE), ("resolution", 100, 9), ("levels", 10, 4), ("fill", False, True), ("margin", 0.1, 0.3), ("ax", None, NONE), ("figsize", None, (3, 2)), ("return_contourset", False, NONE)]),
    "PointPattern": (pointpats.PointPattern, [("points", lambda i: i.wide)], [("window", None, lambda i: i.window), ("names", None, lambda i: i.colnames), ("coord_names", None, NONE)]),
    "PointPattern, names of its coordinates": (pointpats.PointPattern, [("points", lambda i: i.wide)], [("window", None, lambda i: i.window), ("names", None, NONE), ("coord_names", None, lambda i: i.cnames)]),
    "add_marks": (lambda i: named(i).add_marks, [("marks", lambda i: i.marks)], [("mark_names", None, lambda i: i.names)]),
    "pattern plot": (lambda i: i.pattern.plot, [], [("window", False, True), ("title", "Point Pattern", "Other"), ("hull", False, True), ("get_ax", False, True)]),
    "knn": (lambda i: i.pattern.knn, [], [("k", 1, 2)]),
    "knn_other": (lambda i: i.pattern.knn_other, [("other", lambda i: i.other)], [("k", 1, 2)]),
    "PoissonPointProcess": (process.PoissonPointProcess, [("window", lambda i: i.window), ("n", 5), ("samples", 2)], [("conditioning", False, True), ("asPP", False, True)]),
    "PoissonClusterPointProcess": (process.PoissonClusterPointProcess, [("window", lambda i: i.window), ("n", 6), ("parents", 2), ("radius", lambda i: unit(i) / 8), ("samples", 2)],
                                   [("keep", False, True), ("asPP", False, True), ("conditioning", False, True)]),
    "runif_in_circle": (process.runif_in_circle, [("n", 5)], [("radius", 1.0, 2.5), ("center", (0.0, 0.0), (1.0, -2.0)), ("burn", 2, 3), ("verbose", False, NONE)]),
    "RectangleM": (Q.RectangleM, [("pp", lambda i: i.a)], [("count_column", 3, 2), ("count_row", 3, 4), ("rectangle_width", 0, NONE), ("rectangle_height", 0, NONE), WINDOW]),
    "RectangleM of a size": (Q.RectangleM, [("pp", lambda i: i.a)], [("count_column", 3, 2), ("count_row", 3, 4), ("rectangle_width", COSTLY, lambda i: unit(i) / 4), ("rectangle_height", COSTLY, lambda i: unit(i) / 3), WINDOW]),
    "RectangleM plot": (lambda i: Q.RectangleM(i.a).plot, [], [PLOT[0], ("show", "counts", NONE), ("chi2_contrib", None, NONE)]),
    "HexagonM": (Q.HexagonM, [("pp", lambda i: i.a), ("lh", lambda i: unit(i) / 3)], [WINDOW]),
    "HexagonM plot": (lambda i: Q.HexagonM(i.a, unit(i) / 2).plot, [], [PLOT[0], ("show", "counts", NONE), ("chi2_contrib", None, NONE)]),
    "QStatistic": (Q.QStatistic, [("pp", lambda i: i.a)], [("shape", "rectangle", NONE), ("nx", 3, 2), ("ny", 3, 4), ("rectangle_width", 0, lambda i: unit(i) / 2), ("rectangle_height", 0, lambda i: unit(i) / 3), ("lh", 10, 3),
                   ("realizations", 0, 2), WINDOW, ("rng", None, 5)]),
    "QStatistic, hexagons": (Q.QStatistic, [("pp", lambda i: (i.a - i.a.min(axis=0)) / unit(i) * 30)], [("shape", COSTLY, "hexagon"), ("nx", 3, 2), ("ny", 3, 4), ("rectangle_width", 0, NONE), ("rectangle_height", 0, NONE), ("lh", 10, 8),
                             ("realizations", 0, 2), ("window", None, NONE), ("rng", None, 5)]),
    "QStatistic plot": (lambda i: i.quadrats.plot, [], PLOT),
    "poisson": (S.poisson, [("hull", lambda i: i.bbox)], [("intensity", None, NONE), ("size", None, (4, 2)), ("rng", None, 5)]),
    "poisson, intensity": (S.poisson, [("hull", lambda i: i.bbox)], [("intensity", None, lambda i: 5 / geom.area(i.bbox)), ("size", None, NONE), ("rng", None, 5)]),
    "normal": (S.normal, [("hull", lambda i: i.bbox)], [("center", None, lambda i: i.center - unit(i) / 8), ("cov", None, lambda i: i.cov), ("size", None, (4, 2)), ("rng", None, 5)]),
    "cluster_poisson": (S.cluster_poisson, [("hull", lambda i: i.bbox)], [("intensity", None, NONE), ("size", None, (9, 2)), ("n_seeds", 2, 3), ("cluster_radius", None, lambda i: unit(i) / 8), ("rng", None, 5)]),
    "cluster_normal": (S.cluster_normal, [("hull", lambda i: i.bbox)], [("cov", None, lambda i: i.cov * 0.01), ("size", None, (9, 2)), ("n_seeds", 2, 3), ("rng", None, 5)]),
    "strauss": (S.strauss, [("hull", lambda i: np.array([0.0, 0.0, 1.0, 1.0]))], [("intensity", None, NONE), ("size", COSTLY, (4, 2)), ("gamma", 0.1, 0.5), ("r", 0.05, 0.2), ("n_iter", COSTLY, 12), ("rng", None, 5), ("max_iter", 10, 40)]),
    "strauss at length": (S.strauss, [("hull", lambda i: np.array([0.0, 0.0, 1.0, 1.0]))], [("intensity", None, NONE), ("size", COSTLY, (4, 1)), ("gamma", 0.1, 0.5), ("r", 0.05, 0.2), ("n_iter", 5000, NONE), ("rng", None, 5), ("max_iter", 10, 20)]),
    "knox": (T.knox, KNOX, [PERM, ("debug", False, NONE)]),
    "modified_knox": (T.modified_knox, KNOX, [PERM]),
    "mantel": (T.mantel, KNOX[:2], [PERM, ("scon", 1.0, 0.5), ("spow", -1.0, -2.0), ("tcon", 1.0, 2.0), ("tpow", -1.0, -0.5)]),
    "jacquez": (T.jacquez, [*KNOX[:2], ("k", 2)], [PERM]),
    "Knox": (T.Knox, KNOX, [PERM, ("keep", False, True)]),
    "KnoxLocal": (T.KnoxLocal, KNOX, [PERM, ("keep", False, True), ("crit", 0.05, NONE), ("crs", None, "EPSG:3857"), ("ids", None, lambda i: i.ids)]),
    "Knox of a frame": (T.Knox.from_dataframe, FRAME, [PERM, ("keep", False, True)]),
    "KnoxLocal of a frame": (T.KnoxLocal.from_dataframe, FRAME, [PERM, ("keep", False, True)]),
    "hotspots": (lambda i: i.fitted.hotspots, [], [("crit", 0.05, 0.6), ("inference", "permutation", "analytic"), ("keep_neighbors", True, False)]),
    "local plot": (lambda i: i.fitted.plot, [], [("colors", {"focal": "red", "neighbor": "yellow", "nonsig": "grey"}, lambda i: i.colors), ("crit", 0.05, 0.6), ("inference", "permutation", "analytic"), ("point_kwargs", None, lambda i: i.style),
                   ("plot_edges", True, False), ("edge_color", "black", "green"), ("edge_kwargs", None, lambda i: i.estyle), ("ax", None, NONE)]),
    "map": (lambda i: i.fitted.explore, [], [("crit", 0.05, 0.6), ("inference", "permutation", "analytic"), ("radius", 5, 9), ("style_kwds", None, lambda i: {"weight": 3}), ("tiles", "CartoDB Positron", NONE), ("plot_edges", True, False),
            ("edge_weight", 2, 4), ("edge_color", "black", "green"), ("colors", {"focal": "red", "neighbor": "yellow", "nonsig": "grey"}, lambda i: i.colors)]),
    "Window": (pointpats.Window, [("parts", lambda i: [[(0.0, 0.0), (0.0, 4.0), (5.0, 4.0), (5.0, 0.0), (0.0, 0.0)]])], [("holes", [], lambda i: [[(1.0, 1.0), (2.0, 1.0), (1.0, 2.0), (1.0, 1.0)]])]),
}
BOUND = ("add_marks", "pattern plot", "knn", "knn_other", "RectangleM plot", "HexagonM plot", "QStatistic plot", "hotspots", "local plot", "map")
GIVEN = ("left out", "default", "other")


def value(v, i):
    return v(i) if callable(v) and not isinstance(v, type) else v


def leaflet(m):
    """What a map shows, without the names drawn for its parts."""
    import json
    import re

    m.get_root().render()
    out = []
    for k, part in m._children.items():
        out.append(re.sub(r"_[0-9a-f]{32}", "", k))
        data = getattr(part, "data", None)
        if isinstance(data, dict):
            out.append(re.sub(r'"name": "[^"]*"', "", json.dumps(data)))
            out += [repr(sorted(part.style_function(f).items())) for f in data["features"][:1]]
        if hasattr(part, "marker") and part.marker is not None:
            out.append(repr(sorted((a, repr(b)) for a, b in part.marker.options.items())))
        out.append(repr(getattr(part, "tiles", "")))
    return out


def answer(c, style):
    """style: {argument: (given how, by position)}, or None to spell everything out."""
    i = X01.Inputs(c)
    f, required, options = CALLS[c["call"]]
    if c["call"] in BOUND:
        f = f(i)
    args, kw, positional = [], {}, True
    for n, v in required:
        _, by_place = style[n] if style else (None, False)
        positional = positional and (by_place or (not args and hasattr(f, "dispatch")))  # dispatched on the first
        if positional:
            args.append(value(v, i))
        else:
            kw[n] = value(v, i)
    for n, default, other in options:
        how, by_place = c["style"][n] if n in c["style"] else ("default", False)
        if default is COSTLY or (how == "other" and other is not NONE):
            v = value(other, i)
        else:
            how, v = ("default" if how == "other" else how), default
        if style is None:
            kw[n] = v
            continue
        if how == "left out" and default is not COSTLY:
            positional = False
            continue
        positional = positional and by_place
        if positional:
            args.append(v)
        else:
            kw[n] = v
    seed_everything(c["seed"])
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter("ignore")
        try:
            r = f(*args, **kw)
            if c["call"] == "map":
                r = leaflet(r)
            elif isinstance(r, matplotlib.axes.Axes):
                r = shown(r)
            elif "plot" in c["call"]:
                r = [X01.freeze(r), *[shown(a) for a in plt.gcf().axes]]
            elif c["call"] == "add_marks":
                r = X01.freeze(f.__self__.df)
            elif isinstance(r, pointpats.PointPattern):
                r = [X01.freeze(r), X01.plain(r), X01.freeze(r.window.bbox), r.window.area]
            else:
                r = [X01.freeze(r), X01.plain(r)]
            return repr(r) + out.getvalue()
        finally:
            plt.close("all")


def arguments(call):
    _, required, options = CALLS[call]
    return [n for n, _ in required] + [n for n, *_ in options]


how_given = st.tuples(st.sampled_from(GIVEN), st.sampled_from([True, True, True, False]))


@st.composite
def case_(draw):
    c = draw(X01.case_())
    del c["calls"]
    c["call"] = draw(st.sampled_from(sorted(k for k in CALLS if k != "strauss at length")))
    c["style"] = {n: list(draw(how_given)) for n in arguments(c["call"])}
    return c


BASE = {k: v for k, v in X01.EXAMPLE.items() if k != "calls"}
EXAMPLES = [{**BASE, "call": n, "style": {a: [how, place] for a in arguments(n)}} for n in sorted(CALLS) for how, place in (("left out", False), ("default", True), ("other", True))]
EXAMPLES += [{**BASE, "call": n, "style": {a: ["left out" if a == b else "other", True] for a in arguments(n)}} for n in sorted(CALLS) if n != "strauss at length" for b in [o[0] for o in CALLS[n][2]]]


@check("options", case_(), quick=1000, examples=EXAMPLES)
def options(c, ctx):
    what = f"{c['call']} given {[(n, *v) for n, v in c['style'].items()]}"
    want = ctx.call(f"{c['call']}, every argument by name", answer, c, None)
    got = ctx.call(what, answer, c, c["style"])
    ctx.label(c["call"])
    ctx.interesting(any(h == "left out" or p for h, p in c["style"].values()))
    if got != want:
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.ok(False, f"{what}: ...{got[max(0, k - 60) : k + 100]}... instead of ...{want[max(0, k - 60) : k + 100]}...")


# options without a use of their own, or whose use another option of the call takes away
IDLE = {("l", "permutations"), ("RectangleM of a size", "count_column"), ("RectangleM of a size", "count_row"), ("QStatistic", "lh"), ("QStatistic, hexagons", "nx"), ("QStatistic, hexagons", "ny"), ("strauss", "max_iter")}
PAIRS = [(n, o) for n in sorted(CALLS) if n != "strauss at length" for o, default, other in CALLS[n][2] if default is not COSTLY and other is not NONE and (n, o) not in IDLE]


# options that matter only along with some of the others or for some data
PARTLY = {"QStatistic": {"nx", "ny", "rectangle_width", "rectangle_height", "rng"}, "QStatistic, hexagons": {"rng"}, "ellipse": {"method", "crimestatCorr", "degfreedCorr"}, "ellipse of a frame": {"method", "crimestatCorr", "degfreedCorr"},
          "g": {"metric"}, "k": {"metric"}, "l": {"metric"}, "g_test": {"metric", "hull"}, "k_test": {"metric", "hull"}, "l_test": {"metric", "hull"}, "j": {"truncate"}, "j_test": {"truncate"},
          "hotspots": {"crit", "inference", "keep_neighbors"}, "local plot": {"inference", "plot_edges", "edge_color", "edge_kwargs"}, "map": {"radius", "plot_edges", "edge_weight", "edge_color"}, "strauss": {"gamma", "r"}}


@check("effects", st.fixed_dictionaries({"pair": st.sampled_from([list(p) for p in PAIRS]), "seed": st.integers(0, 2**16)}), quick=60, examples=[{"pair": list(p), "seed": 0} for p in PAIRS])
def effects(c, ctx):
    """An option given another value changes the answer, alone and together with other options."""
    call, option = c["pair"]
    rest = [o for o, default, other in CALLS[call][2] if o != option and default is not COSTLY and other is not NONE]
    ctx.label(call)
    ctx.interesting()
    partly = option in PARTLY.get(call, ())
    for together in [(), tuple(rest), *((o,) for o in rest[: None if partly or len(rest) > 1 else 0])]:
        style = {o: ("other", False) for o in together}
        for seed in range(c["seed"], c["seed"] + (3 if partly else 6)):
            base = {**BASE, "call": call, "seed": seed}
            without = ctx.call(call, answer, {**base, "style": style}, None)
            if without != ctx.call(f"{call} with {option}", answer, {**base, "style": {**style, option: ("other", False)}}, None):
                break
        else:
            ctx.ok(partly, f"{call}: {option} changes nothing{' along with ' if together else ''}{', '.join(together)}")
            continue
        if partly:
            return
    ctx.ok(not partly, f"{call}: {option} changes nothing")
