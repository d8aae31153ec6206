"""Cases: a pattern, window, quadrat count, fitted space-time statistic, point process or test result on drawn inputs, of which
some properties and methods have been read, is copied (copy, deepcopy), stored and loaded (pickle protocols 2 and later), or stored here and
loaded in another process. Everything it can be asked must have the answer of an object never copied; the
original must be unchanged; and later changes to either (another window, marks, flipped coordinates) must not show in the other.
Non-trivial: something had been read before copying, or one of the two was changed after it."""
import base64
import contextlib
import copy
import io
import pickle
import warnings

import matplotlib
import numpy as np
from hypothesis import strategies as st

import pointpats
from checks import X01
from pbt import alt
from pbt import gens as G
from pbt.core import check, seed_everything
from pointpats import distance_statistics as D
from pointpats import quadrat_statistics as Q
from pointpats import spacetime as T

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402


def drawn(f):
    """Built with numbers of its own, whatever the global state."""
    def build(i):
        seed_everything(i.c["seed"])
        return f(i)
    return build


OBJECTS = {
    "pattern": lambda i: i.pattern,
    "marked": lambda i: i.marked,
    "window": lambda i: i.window,
    "quadrats": lambda i: i.quadrats,
    "hexagons": lambda i: Q.QStatistic(i.a.copy(), shape="hexagon", lh=G.extent(i.c["pts"]) / 2, realizations=2, rng=7),
    "cells": lambda i: i.cells,
    "honeycomb": lambda i: i.honeycomb,
    "fitted": lambda i: i.fitted,
    "Knox": drawn(lambda i: T.Knox(i.a, i.t, i.c["delta"], 2, permutations=5, keep=True)),
    "process": drawn(lambda i: pointpats.PoissonPointProcess(i.window, 6, 2, asPP=True)),
    "cluster process": drawn(lambda i: pointpats.PoissonClusterPointProcess(i.window, 6, 2, 0.2 * G.extent(i.c["pts"]), 1, keep=True, asPP=True)),
    "result": drawn(lambda i: D.k_test(i.a, support=i.support, n_simulations=3, n_jobs=1, keep_simulations=True, hull=i.polygon)),
}
SUMMARIES = {n: (lambda n: lambda o: getattr(o, n))(n) for n in ("n", "mbb", "mbb_area", "hull", "hull_area", "lambda_mbb", "lambda_hull", "lambda_window", "rot", "nnd", "min_nnd", "max_nnd", "mean_nnd", "points", "df", "coord_names")}
PATTERN = SUMMARIES | {
    "len": len, "window": lambda o: o.window, "area": lambda o: o.window.area, "knn": lambda o: o.knn(2), "find_pairs": lambda o: sorted(o.find_pairs(1.5)), "unique": lambda o: o.unique(),
    "summary": lambda o: o.summary(), "superimpose": lambda o: o.superimpose(o), "contains": lambda o: [tuple(p) in o for p in o.points.values.tolist()],
    "head": lambda o: o.head(3), "tree": lambda o: o.tree.query(o.points.values, k=2)[0],
    "plot": lambda o: o.plot(window=True, hull=True, get_ax=True),
}
QUADRATS = {n: (lambda n: lambda o: getattr(o, n))(n) for n in ("chi2", "df", "chi2_pvalue", "chi2_r_pvalue", "chi2_contrib", "chi2_realizations")} | {"plot": lambda o: o.plot(), "cells": lambda o: o.mr.point_location_sta()}
CELLS = {"counts": lambda o: o.point_location_sta(), "plot": lambda o: o.plot(), "points": lambda o: o.points, "number": lambda o: o.num}
LOCAL = {n: (lambda n: lambda o: getattr(o, n))(n) for n in ("statistic_", "p_hypergeom", "p_sims")} | {
    "hotspots": lambda o: o.hotspots(crit=0.7), "hotspots analytic": lambda o: o.hotspots(crit=0.8, inference="analytic", keep_neighbors=False), "plot": lambda o: o.plot(crit=0.6)}
GLOBAL = {n: (lambda n: lambda o: getattr(o, n))(n) for n in ("statistic_", "p_poisson", "p_sim")}
READS = {"pattern": PATTERN, "marked": PATTERN | {"explode": lambda o: o.explode("kind")},
         "window": {"area": lambda o: o.area, "bbox": lambda o: o.bounding_box[:], "parts": lambda o: o.parts, "holes": lambda o: o.holes, "contains": lambda o: [o.contains_point((x / 4, 1.0)) for x in range(-8, 24)],
                    "filter": lambda o: o.filter_contained([(x / 4, 1.0) for x in range(-8, 24)]), "centroid": lambda o: o.centroid},
         "quadrats": QUADRATS, "hexagons": QUADRATS, "cells": CELLS, "honeycomb": CELLS, "fitted": LOCAL, "Knox": GLOBAL,
         "process": {"realizations": lambda o: o.realizations, "parameters": lambda o: o.parameters, "window": lambda o: o.window, "samples": lambda o: o.samples, "patterns": lambda o: [p.mean_nnd for p in o.realizations.values()]},
         "result": {"all": lambda o: list(o), "support": lambda o: o.support, "statistic": lambda o: o.statistic, "pvalue": lambda o: o.pvalue, "simulations": lambda o: o.simulations}}
READS["cluster process"] = READS["process"]
for _n in ("fitted", "Knox", "process", "cluster process"):
    READS[_n] = READS[_n] | {"attributes": lambda o: {k: v for k, v in vars(o).items() if not k.startswith("_")}}
CHANGES = ("set window", "add marks", "flip", "set no window")
WAYS = ("copy", "deepcopy", *[f"pickle {k}" for k in range(2, pickle.HIGHEST_PROTOCOL + 1)], "other process")


def duplicate(o, way):
    if way == "copy":
        return copy.copy(o)
    if way == "deepcopy":
        return copy.deepcopy(o)
    return pickle.loads(pickle.dumps(o, int(way.split()[1])))


def change(o, what):
    if what == "set window":
        o.set_window(pointpats.Window([(-1.0, -2.0), (-1.0, 9.0), (8.0, 9.0), (8.0, -2.0), (-1.0, -2.0)]))
    elif what == "set no window":
        o.window = None
    elif what == "add marks":
        o.add_marks([list(range(len(o)))], mark_names=["rank"])
    else:
        o.flip_coordinates()


def ask(o, read, what=""):
    seed_everything(1)
    with contextlib.redirect_stdout(io.StringIO()) as out, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return X01.freeze(READS[what][read](o)), out.getvalue()
        finally:
            plt.close("all")


OTHERS = []


def elsewhere(data, what, reads):
    """The answers, as text, of a stored object."""
    if not OTHERS:  # patterns of the process itself
        OTHERS.extend(pointpats.PointPattern(np.array([[0.0, 0.0], [k, 1.5], [2.5, 7.0 + k], [1.0, 1.0]])) for k in range(1, 500))
    o = pickle.loads(base64.b64decode(data))
    return [repr(ask(o, r, what)) for r in reads]


@st.composite
def case_(draw):
    c = draw(X01.case_())
    del c["calls"]
    c["object"] = draw(st.sampled_from(sorted(OBJECTS) + ["pattern"] * 4 + ["marked"] * 4))
    names = sorted(READS[c["object"]])
    c["way"] = draw(st.sampled_from(WAYS))
    read = st.sampled_from(names)
    c["before"] = draw(st.lists(st.one_of(read, read, st.sampled_from(CHANGES)) if c["object"] in ("pattern", "marked") else read, max_size=6))
    changes = CHANGES if c["way"] != "copy" else ("set window", "set no window")
    step = st.tuples(st.booleans(), st.one_of(st.sampled_from(names), st.sampled_from(changes)) if c["object"] in ("pattern", "marked") else st.sampled_from(names)).map(list)
    c["after"] = draw(st.lists(step, max_size=8))
    return c


BASE = {k: v for k, v in X01.EXAMPLE.items() if k != "calls"}
EXAMPLES = [{**BASE, "object": o, "way": w, "before": sorted(READS[o])[: 3 * (k % 3)], "after": []} for o in sorted(OBJECTS) for k, w in enumerate(WAYS)]
EXAMPLES += [{**BASE, "object": "marked", "way": w, "before": sorted(PATTERN), "after": [[k, ch]]} for w in WAYS[1:3] for k in (False, True) for ch in CHANGES]
EXAMPLES += [{**BASE, "object": "pattern", "way": w, "before": ["mbb", ch], "after": []} for w in WAYS for ch in CHANGES]


@check("copies", case_(), quick=700, examples=EXAMPLES)
def copies(c, ctx):
    what, way = c["object"], c["way"]
    ctx.label(what, way)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = ctx.call(what, OBJECTS[what], X01.Inputs(c))
        for r in c["before"]:
            if r in CHANGES:
                ctx.call(f"{what}: {r}", change, o, r)
            else:
                ctx.call(f"{what}: {r}", ask, o, r, what)
        names = sorted(READS[what])
        reference = {False: OBJECTS[what](X01.Inputs(c)), True: OBJECTS[what](X01.Inputs(c))}
        for r in c["before"]:
            if r in CHANGES:
                change(reference[False], r)
                change(reference[True], r)
        ctx.interesting(bool(c["before"]) or any(s in CHANGES for _, s in c["after"]))
        if way == "other process":
            data = ctx.call(f"storing {what}", lambda: base64.b64encode(pickle.dumps(o)).decode())
            try:
                got = alt.call(["KDEpy"], "loaded", data, what, names)
            except alt.Refused as e:
                ctx.ok(False, f"{what} stored after {c['before']} and loaded elsewhere: {e}")
            for r, g in zip(names, got):
                want = repr(ask(reference[False], r, what))
                ctx.ok(g == want, lambda: f"{r} of {what} loaded in another process: {g[:200]} instead of {want[:200]}")
            return
        state = X01.freeze(o)
        d = ctx.call(f"{way} of {what}", duplicate, o, way)
        ctx.ok(type(d) is type(o), f"{way} of {what} is {type(d)}")
        ctx.ok(X01.freeze(o) == state, f"{way} changes the {what}")
        two = {False: o, True: d}
        history = []
        for which, step in c["after"]:
            name = f"{what} {'made by ' + way if which else 'copied by ' + way} after {c['before']} {history}"
            if step in CHANGES:
                ctx.call(f"{step} of {name}", change, two[which], step)
                change(reference[which], step)
            else:
                got, want = ctx.call(f"{step} of {name}", ask, two[which], step, what), ask(reference[which], step, what)
                ctx.ok(got == want, lambda: f"{step} of {name}: {str(got)[:200]} instead of {str(want)[:200]}")
            history.append(("copy: " if which else "original: ") + step)
        for which in (False, True):
            for r in names:
                got, want = ask(two[which], r, what), ask(reference[which], r, what)
                ctx.ok(got == want, lambda: f"{r} of {what} {'made by ' + way if which else 'copied by ' + way} after {c['before']} {history}: {str(got)[:200]} instead of {str(want)[:200]}")
