"""Cases: the calls of X01, each stopped at a drawn point of the package's code by Ctrl-C or lack of memory,
then repeated on the same inputs, followed by one more call that shares them; and calls that are refused, likewise.
After each, every input is as before bit for bit, the repeated call gives the result of a first call on inputs of its
own, and the settings of the process (warning filters, floating-point error handling, print, plotting
and table options, random state where the call is given a seed or draws nothing, figures where nothing is plotted) are
what they were. Non-trivial: the call was stopped before its end, or refused."""
import ast
import contextlib
import functools
import io
import os
import random
import sys
import warnings

import matplotlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import pointpats
from checks import X01
from pbt import gens as G
from pbt.core import check, seed_everything
from pointpats import centrography as C
from pointpats import distance_statistics as D
from pointpats import geometry as geom
from pointpats import quadrat_statistics as Q
from pointpats import random as S
from pointpats import spacetime as T

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

HOME = os.path.dirname(os.path.abspath(pointpats.__file__)) + os.sep
NAMES = sorted(X01.ENTRIES)
DRAWS = ("_test(", "f(a)", "j(series)", "knox", "Knox", "mantel", "jacquez", "PointProcess", "fitted map")
PLOTS = ("plot", "map")
ANY = "_test( plot"  # may draw numbers and figures
CRASHES = (KeyboardInterrupt, MemoryError)


def settings(name):
    """What a call has no business to change."""
    r = {
        "floating-point error handling": repr(sorted(np.geterr().items())),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": repr([(f[0], getattr(f[1], "pattern", f[1]), f[2], getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters]),
        "table options": repr([pd.get_option(k) for k in ("display.max_rows", "display.precision", "mode.chained_assignment", "display.width", "mode.copy_on_write")]),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "backend": matplotlib.get_backend(),
    }
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r["plotting defaults"] = repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items() if "backend" not in k))
    if not any(w in name for w in DRAWS):
        r["random state"] = repr(random.getstate()[1][:4]) + repr(random.getstate()[1][-1]) + repr(np.random.get_state()[1][:8]) + repr(np.random.get_state()[2:])
    if not any(w in name for w in PLOTS):
        r["figures"] = repr(plt.get_fignums())
    return r


@functools.cache
def kept(path):
    """Lines at which nothing is stopped: entering and leaving a context, and clearing up."""
    with open(path) as fh:
        tree = ast.parse(fh.read())
    r = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            r |= set(range(n.lineno, n.body[0].lineno)) or {n.lineno}
        if isinstance(n, ast.Try):
            r |= {k for b in n.finalbody for k in range(b.lineno, b.end_lineno + 1)}
        if isinstance(n, ast.ExceptHandler):
            r |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.FunctionDef) and n.name == "__exit__":
            r |= set(range(n.lineno, n.end_lineno + 1))
    return r


FLOATS, PRINT, RC = np.geterr(), np.get_printoptions(), dict(matplotlib.rcParams)


def reset():
    """Undo what an earlier case may have left."""
    np.seterr(**FLOATS)
    if np.get_printoptions() != PRINT:
        np.set_printoptions(**PRINT)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, v in RC.items():
            if "backend" not in k and matplotlib.rcParams[k] != v:
                matplotlib.rcParams[k] = v


class Stop:
    """Counts the lines of the package that are run, and raises at one of them."""

    def __init__(self, at=None, error=KeyboardInterrupt):
        self.at, self.error, self.lines, self.seen = at, error, 0, {}

    def __enter__(self):
        self.before = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *_):
        sys.settrace(self.before)

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(HOME) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            self.seen.setdefault((frame.f_code.co_filename, frame.f_lineno), self.lines)
            if self.at is not None and self.lines >= self.at and frame.f_lineno not in kept(frame.f_code.co_filename):
                self.at = None
                raise self.error
        return self.line


def go(f, I, seed, stop):  # noqa: E741
    seed_everything(seed)
    with contextlib.redirect_stdout(io.StringIO()) as out, stop:
        r = f(I)
    return X01.freeze(r), out.getvalue()


def same_settings(ctx, name, before, what):
    after = settings(name)
    for k, v in before.items():
        ctx.ok(after[k] == v, lambda: f"{what} leaves other {k}: {after[k][:150]} instead of {v[:150]}")


def same_inputs(ctx, I, untouched, what):  # noqa: E741
    for x, v in untouched.items():
        ctx.ok(X01.freeze(I.made[x]) == v, lambda: f"{what} leaves its input {x!r} changed")


@st.composite
def crash_case(draw):
    c = draw(X01.case_())
    name = draw(st.sampled_from(NAMES))
    theme = [t for t in X01.THEMES if name in t] or [NAMES]
    c["calls"] = [name, draw(st.sampled_from(theme[0]))]
    c["share"] = draw(st.one_of(st.integers(0, 1000), st.integers(0, 30), st.integers(970, 1000)))
    c["error"] = draw(st.integers(0, 1))
    return c


BASE = X01.EXAMPLE


@check("interrupted", crash_case(), quick=500, examples=[{**BASE, "calls": [n, n], "share": (500, 960, 40)[k % 3], "error": k % 2} for k, n in enumerate(NAMES)])
def interrupted(c, ctx):
    name, then = c["calls"]
    f = X01.ENTRIES[name]
    error = CRASHES[c["error"]]
    ctx.label(error.__name__)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fresh = X01.Inputs(c)
            I = X01.Inputs(c)  # noqa: E741
            whole = Stop()
            # build the inputs, and import what is imported on first use
            reset()
            seed_everything(c["seed"])
            state, known = settings(name), len(sys.modules)
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.call(name, f, fresh)
            if len(sys.modules) == known:
                same_settings(ctx, name, {k: v for k, v in state.items() if k != "random state"}, name)
            for x in fresh.made:
                getattr(I, x)
            fresh = X01.Inputs(c)
            for x in I.made:
                getattr(fresh, x)
            plt.close("all")
            seed_everything(c["seed"])
            state = settings(name)
            want = ctx.call(name, go, f, fresh, c["seed"], whole)
            same_settings(ctx, name, state, name)
            plt.close("all")
            untouched = {x: X01.freeze(v) for x, v in I.made.items()}
            at = 1 + c["share"] * (whole.lines - 1) // 1000
            what = f"{name}, stopped at line {at} of {whole.lines} by {error.__name__}"
            seed_everything(c["seed"])
            state = settings(name)
            state.pop("figures", None)
            try:
                go(f, I, c["seed"], Stop(at, error))
            except error:
                ctx.interesting(at < whole.lines)
            except Exception as e:  # noqa: BLE001
                ctx.label("another error: " + type(e).__name__)
            same_inputs(ctx, I, untouched, what)
            same_settings(ctx, name, state, what)
            plt.close("all")
            again = ctx.call(f"{what}, and called again", go, f, I, c["seed"], Stop())
            ctx.ok(again == want, f"{what}, gives another result when called again")
            fresh = X01.Inputs(c)
            want = ctx.call(then, X01.perform, then, fresh, c["seed"] + 1)
            for x in fresh.made:
                getattr(I, x)
            got = ctx.call(f"{then} after {what}", X01.perform, then, I, c["seed"] + 1)
            ctx.ok(got == want, f"{what}: {then} then gives another result than on inputs of its own")
        finally:
            plt.close("all")


# plots take long, and keep what they work on in objects of their own
SWEPT = [n for n in NAMES if not n.startswith(("plot_density", "KnoxLocal map"))]


@check("every line", crash_case(), quick=60, examples=[{**BASE, "calls": [n, n], "share": k, "error": k % 2} for k, n in enumerate(SWEPT)])
def every_line(c, ctx):
    """Stopped where each line of the package is reached for the first time."""
    name = c["calls"][0]
    f = X01.ENTRIES[name]
    error = CRASHES[c["error"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            I, fresh = X01.Inputs(c), X01.Inputs(c)  # noqa: E741
            reset()
            seed_everything(c["seed"])
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.call(name, f, fresh)
            for x in fresh.made:
                getattr(I, x)
            fresh = X01.Inputs(c)
            for x in I.made:
                getattr(fresh, x)
            whole = Stop()
            want = ctx.call(name, go, f, fresh, c["seed"], whole)
            untouched = {x: X01.freeze(v) for x, v in I.made.items()}
            points = sorted(whole.seen.values())
            if len(points) > 60:
                points = points[c["share"] % 2 :: 2]
            for k, at in enumerate(points):
                what = f"{name}, stopped at line {at} of {whole.lines} by {error.__name__}"
                seed_everything(c["seed"])
                state = settings(name)
                state.pop("figures", None)
                try:
                    go(f, I, c["seed"], Stop(at, error))
                except error:
                    ctx.interesting()
                except Exception as e:  # noqa: BLE001
                    ctx.label("another error: " + type(e).__name__)
                same_inputs(ctx, I, untouched, what)
                same_settings(ctx, name, state, what)
                plt.close("all")
                if k % 8 == 7 or k == len(points) - 1:
                    again = ctx.call(f"{what}, and called again", go, f, I, c["seed"], Stop())
                    ctx.ok(again == want, f"{what}, gives another result when called again")
                    I = X01.Inputs(c)  # noqa: E741
                    for x in untouched:
                        getattr(I, x)
        finally:
            plt.close("all")


def _far(I):  # noqa: E741
    return G.extent(I.c["pts"])


REFUSED = {
    "knn(0)": (lambda I: I.pattern.knn(0), ("knn", "summaries")),
    "explode by an unknown mark": (lambda I: I.marked.explode("none"), ("explode", "superimpose marked")),
    "mean_center of words": (lambda I: C.mean_center([["a", "b"]]), ("mean_center(a)",)),
    "weights too few": (lambda I: C.ellipse(I.a, weights=I.weights[1:]), ("ellipse(a, weights)", "weighted_mean_center(a, weights)")),
    "ellipse by an unknown method": (lambda I: C.ellipse(I.geo, method="none"), ("ellipse(geo, weights)",)),
    "an unknown metric": (lambda I: geom.build_best_tree(I.a, "none"), ("build_best_tree(a)", "g(a)")),
    "an unknown hull": (lambda I: geom.prepare_hull(I.a, "none"), ("prepare_hull(a, convex)",)),
    "sizes and intensity": (lambda I: S.poisson(I.region, intensity=1.0, size=(3, 2), rng=1), ("poisson(region)",)),
    "too many radii": (lambda I: S.cluster_poisson(I.bbox, n_seeds=1, cluster_radius=I.radii, size=6, rng=3), ("cluster_poisson(bbox, list)",)),
    "strauss that repels too much": (lambda I: S.strauss(I.bbox, size=5, gamma=2.0, r=_far(I), n_iter=2, rng=3), ("strauss(bbox)",)),
    "an unknown quadrat shape": (lambda I: Q.QStatistic(I.a, shape="none"), ("QStatistic(a)", "QStatistic(pattern)")),
    "a plot of unknown values": (lambda I: I.quadrats.plot(show="none"), ("quadrats plot", "quadrats plot chi2", "quadrats")),
    "distances too few": (lambda I: D.g(I.a, support=I.support, distances=I.nearest[1:]), ("g(a, nearest)", "g(a)")),
    "edge correction": (lambda I: D.k(I.a, support=I.mixed, edge_correction="ripley"), ("k(a, unsorted)", "k(a)")),
    "no distances": (lambda I: D.k(I.a, support=I.slist, distances=None, metric="precomputed"), ("k(a, vector)",)),
    "a test with edge correction": (lambda I: D.j_test(I.a, support=I.support, distances=I.both, edge_correction="km", n_simulations=3, n_jobs=1), ("j_test(a, both)", "j(a, both)")),
    "times of another length": (lambda I: T.KnoxLocal(I.a, I.t[1:], I.c["delta"], 2, permutations=3), ("KnoxLocal", "Knox", "knox")),
    "an unknown time column": (lambda I: T.Knox.from_dataframe(I.events, "none", I.c["delta"], 2), ("Knox frame", "KnoxLocal frame")),
    "degrees": (lambda I: T.KnoxLocal.from_dataframe(I.events.set_crs("EPSG:4326", allow_override=True), "day", I.c["delta"], 2), ("KnoxLocal frame",)),
    "an unknown inference": (lambda I: I.fitted.hotspots(crit=0.6, inference="none"), ("fitted hotspots", "fitted plot")),
    "a plot by unknown inference": (lambda I: I.fitted.plot(crit=0.6, inference="none", point_kwargs=I.style), ("fitted plot", "fitted hotspots")),
    "an unknown kernel": (lambda I: pointpats.plot_density(I.a, _far(I) / 4, kernel="none", levels=I.levels, resolution=I.resolution), ("plot_density(a)",)),
    "a density of polygons": (lambda I: pointpats.plot_density(I.regions, _far(I) / 4), ("plot_density(geo)",)),
}


@st.composite
def refused_case(draw):
    c = draw(X01.case_())
    c["refused"] = draw(st.sampled_from(sorted(REFUSED)))
    c["calls"] = draw(st.lists(st.sampled_from(REFUSED[c["refused"]][1]), min_size=1, max_size=2))
    return c


@check("refused", refused_case(), quick=400, examples=[{**BASE, "refused": n, "calls": list(REFUSED[n][1])} for n in sorted(REFUSED)])
def refused(c, ctx):
    f = REFUSED[c["refused"]][0]
    what = f"the refusal of {c['refused']}"
    ctx.label(c["refused"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            reset()
            I, wanted = X01.Inputs(c), []  # noqa: E741
            for k, name in enumerate(c["calls"]):
                fresh = X01.Inputs(c)
                wanted.append(ctx.call(name, X01.perform, name, fresh, c["seed"] + k))
                for x in fresh.made:
                    getattr(I, x)
            with contextlib.suppress(Exception):
                f(X01.Inputs(c))
            plt.close("all")
            seed_everything(c["seed"])
            untouched = {x: X01.freeze(v) for x, v in I.made.items()}
            state = settings(ANY)
            try:
                f(I)
            except Exception:  # noqa: BLE001
                ctx.interesting()
            else:
                ctx.label("not refused")
            same_inputs(ctx, I, untouched, what)
            same_settings(ctx, ANY, state, what)
            plt.close("all")
            for k, name in enumerate(c["calls"]):
                got = ctx.call(f"{name} after {what}", X01.perform, name, I, c["seed"] + k)
                ctx.ok(got == wanted[k], f"after {what}, {name} gives another result than on inputs of its own")
        finally:
            plt.close("all")
