"""Cases: the calls of X01, and histories of changes and questions to a point pattern as in X07, each once on plain inputs and once on the
same numbers laid out otherwise in memory (by column, every other row of a larger array, backwards, columns of a wider table,
transposed, read-only) and labelled otherwise (frames and geographic objects whose rows are numbered from elsewhere, backwards, with repetitions,
by words, dates or pairs): the answers must have the same values. Non-trivial: an array the call uses had another layout,
or a table it uses other labels."""
import contextlib
import io
import warnings

import matplotlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import pointpats
from checks import X01, X06, X07
from pbt import gens as G
from pbt.core import Violation, check, seed_everything
from pointpats import centrography as C
from pointpats import distance_statistics as D
from pointpats import quadrat_statistics as Q
from pointpats import spacetime as T

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402


def every_other(x):
    r = np.full((2 * x.shape[0] + 1, *x.shape[1:]), 7, dtype=x.dtype)
    r[1::2] = x
    return r[1::2]


def wider(x):
    if x.ndim < 2:
        return every_other(x)
    r = np.full((x.shape[0], x.shape[1] + 2), 7, dtype=x.dtype)
    r[:, 1:-1] = x
    return r[:, 1:-1]


def read_only(x):
    r = x.copy()
    r.flags.writeable = False
    return r


LAYOUTS = {
    "by column": lambda x: np.asfortranarray(x.copy()),
    "every other row": every_other,
    "backwards": lambda x: x[::-1].copy()[::-1],
    "mirrored": lambda x: x[..., ::-1].copy()[..., ::-1],
    "columns of a wider table": wider,
    "transposed": lambda x: x.T.copy().T,
    "read-only": read_only,
    "read-only columns": lambda x: read_only(x.T).T,
}
LABELS = {
    "from elsewhere": lambda n: np.arange(n) + 1,
    "backwards": lambda n: np.arange(n)[::-1],
    "shuffled": lambda n: np.arange(n) * 2 % n if n % 2 else (np.arange(n) + n // 2) % n,
    "repeated": lambda n: np.arange(n) // 2,
    "all the same": lambda n: np.zeros(n, int),
    "words": lambda n: [f"p{i * 7 % 5}{i}" for i in range(n)],
    "repeated words": lambda n: ["ab"[i % 2] for i in range(n)],
    "negative": lambda n: np.arange(n) - n // 2,
    "fractions": lambda n: np.arange(n) / 2,
    "dates": lambda n: pd.date_range("2020-01-01", periods=n)[::-1],
    "pairs": lambda n: pd.MultiIndex.from_arrays([np.arange(n) % 2, np.arange(n)], names=["x", "y"]),
    "named": lambda n: pd.Index(np.arange(n)[::-1], name="x"),
}


SAME = ("repeated", "all the same", "repeated words")


class Laid(X01.Inputs):
    def __init__(self, c, layout, labels):
        super().__init__(c)
        self.layout, self.labels, self.other_ways = layout, labels, []

    def __getattr__(self, name):
        if name.startswith("_") or name in ("c", "made", "layout", "labels", "other_ways"):
            raise AttributeError(name)
        if name not in self.made:
            self.made[name] = self.laid(name)
        return self.made[name]

    def relabelled(self, x):
        if self.labels is None:
            return x
        x = x.copy()
        x.index = LABELS[self.labels](len(x))
        return x

    def laid(self, name):
        if name in ("pattern", "other", "marked"):
            a = G.arr(self.c["pts"])
            a = np.vstack([a[1:], a[:2] + 1]) if name == "other" else a
            p = pointpats.PointPattern(self.relabelled(pd.DataFrame(a, columns=["x", "y"])))
            if name == "marked":
                p.add_marks(self.marks, mark_names=self.names)
            x = p
        elif name in ("fitted", "quadrats", "cells", "honeycomb"):
            x = {"fitted": X01._fitted, **{k: X01.BUILD[k] for k in ("quadrats", "cells", "honeycomb")}}[name](self)
        else:
            x = X01.BUILD[name](self)
        y = x
        if isinstance(x, np.ndarray) and self.layout:
            y = LAYOUTS[self.layout](x)
            assert np.array_equal(x, y)
        elif isinstance(x, (pd.DataFrame, pd.Series)) and self.labels:
            y = self.relabelled(x)
        if y is not x or (name in ("pattern", "other", "marked") and self.labels):
            self.other_ways.append(name)
        return y


@st.composite
def case_(draw):
    c = draw(X01.case_())
    c["calls"] = c["calls"][:1]
    c["layout"] = draw(st.sampled_from(sorted(LAYOUTS)))
    c["labels"] = draw(st.sampled_from(sorted(LABELS)))
    return c


def located(I):  # noqa: E741
    """What the local statistic says of a frame's rows, by their positions."""
    k = T.KnoxLocal.from_dataframe(I.events, "day", I.c["delta"], 2, permutations=5)
    r = [k.statistic_, k.p_hypergeom, k.p_sims, k.s_coords, k.t_coords, len(k.adjlist)]
    if I.c["labels"] not in SAME:
        place = {v: j for j, v in enumerate(I.events.index)}
        r.append(sorted((place[a], place[b], o) for a, b, o in zip(*(k.adjlist[v] for v in ("focal", "neighbor", "orientation")))))
        h = k.hotspots(crit=0.7)
        groups = {}
        for f, v in zip(h["focal"], h["cluster"]):
            groups.setdefault(v, []).append(place[f])
        r.append(sorted((place[f], p, t, g.x, g.y) for f, p, t, g in zip(h["focal"], h["pvalue"], h["focal_time"], h["geometry"])))
        r.append(sorted(map(sorted, groups.values())))
    return r


CALLS = {**X01.ENTRIES, "KnoxLocal frame": located}
EXAMPLES = [{**X01.EXAMPLE, "calls": [n], "layout": lay, "labels": lab} for j, n in enumerate(sorted(X01.ENTRIES)) for lay, lab in zip(sorted(LAYOUTS)[j % 4 :: 4], sorted(LABELS)[j % 6 :: 6])]


def answer(name, I, seed):  # noqa: E741
    seed_everything(seed)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter("ignore")
        try:
            r = X01.plain(CALLS[name](I))
        finally:
            plt.close("all")
    return [w for v in [*r, "" if "summary" in name else out.getvalue()] for w in (X06.words(v) if isinstance(v, str) else [v])]


@check("calls", case_(), quick=500, examples=EXAMPLES)
def calls(c, ctx):
    name = c["calls"][0]
    want = ctx.call(name, answer, name, Laid(c, None, None), c["seed"])
    I = Laid(c, c["layout"], c["labels"])  # noqa: E741
    how = f"{name}, arrays {c['layout']}, labels {c['labels']}"
    got = ctx.call(how, answer, name, I, c["seed"])
    ctx.interesting(bool(I.other_ways))
    ctx.label(*I.other_ways)
    X06.agree(ctx, got, want, "float64", float(np.abs(G.arr(c["pts"])).max()), f"{how} ({'/'.join(I.other_ways)})")


def told(x):
    """An answer's values, whatever the rows are called."""
    if isinstance(x, pointpats.PointPattern):
        return ["pattern", *X01.plain(x.points), *X01.plain(x.df), *map(str, x.coord_names), *X01.plain(list(x.window.bbox))]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in told(y)]
    if isinstance(x, dict):
        return [v for k, y in x.items() for v in [repr(k), *told(y)]]
    return X01.plain(x)


def drawn_in(p):
    if p.window.area < p.mbb_area * 1e-3 or p.mbb_area <= 1e-6 * (p.mbb[2] - p.mbb[0] + p.mbb[3] - p.mbb[1]) ** 2:
        return None  # hardly a place to draw in
    return pointpats.PoissonPointProcess(p.window, 4, 2, asPP=True).realizations


STEPS = {
    **{f"ask {k}": (lambda k: lambda p: (p, X07.READS["marked"][k](p)))(k) for k in X07.READS["marked"] if k not in ("summary", "window")},
    **{k: (lambda k: lambda p: (p, X07.change(p, k)))(k) for k in X07.CHANGES if k != "add marks"},
    "mark by list": lambda p: (p, p.add_marks([[k % 2 for k in range(len(p))]], mark_names=["m1"])),
    "mark by array": lambda p: (p, p.add_marks([np.arange(len(p)) % 3], mark_names=["m2"])),
    "mark by words": lambda p: (p, p.add_marks([["uvw"[k % 3] for k in range(len(p))]], mark_names=["m3"])),
    "own marks again": lambda p: (p, p.add_marks([p.df[k] for k in p.df.columns[2:3]], mark_names=["again"])),
    "go on with its unique points": lambda p: (p.unique(), None),
    "go on with the first part": lambda p: (p.explode("kind")[0], None),
    "superimpose itself": lambda p: (p.superimpose(p), None),
    "superimpose another": lambda p: (p.superimpose(pointpats.PointPattern(np.array([[9.0, 1.5], [9.0, 1.5], [0.0, 0.0]]))), None),
    "rebuild": lambda p: (pointpats.PointPattern(p.df, names=list(p.df.columns), coord_names=p.coord_names), None),
    "quadrats": lambda p: (p, Q.QStatistic(p, nx=2, ny=3).chi2),
    "map of quadrats": lambda p: (p, Q.QStatistic(p, nx=2, ny=3).plot()),
    "points alone": lambda p: (p, [D.g(p.points, support=4), D.k(p.points, support=4), C.hull(p.points), C.std_distance(p.points), C.ellipse(p.points)]),
    "random patterns": lambda p: (p, drawn_in(p)),
}
pattern_case = st.fixed_dictionaries({
    "pts": G.points(3, 9, places=G.near_place, large=30), "labels": st.sampled_from(sorted(LABELS)), "steps": st.lists(st.sampled_from(sorted(STEPS)), min_size=1, max_size=7), "seed": G.small_seed})


@check("patterns", pattern_case, quick=700, examples=[{"pts": X01.EXAMPLE["pts"], "labels": lab, "steps": [*first, s], "seed": 4} for j, lab in enumerate(sorted(LABELS)) for k, s in enumerate(sorted(STEPS)) for first in ([], ["mark by words"], ["ask unique", "flip"]) if (j + k) % 4 == 0])
def patterns(c, ctx):
    a = G.arr(c["pts"])
    if len(np.unique(a, axis=0)) < 3 or np.linalg.matrix_rank(a - a[0], tol=1e-6 * G.extent(c["pts"])) < 2:
        return
    frame = {"x": a[:, 0], "y": a[:, 1], "kind": np.arange(len(a)) % 2}
    two = [pointpats.PointPattern(pd.DataFrame(frame, index=ix), names=list(frame)) for ix in (None, LABELS[c["labels"]](len(a)))]
    ctx.interesting(any(not s.startswith("ask") for s in c["steps"]))
    for k, s in enumerate(c["steps"]):
        said = []
        for j, p in enumerate(two):
            seed_everything(c["seed"] + k)
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                try:
                    two[j], r = STEPS[s](p)
                    said.append([*told(r), *told(two[j])])
                except Violation:
                    raise
                except Exception as e:  # as the plain one does
                    said.append([type(e).__name__])
                finally:
                    plt.close("all")
        X06.agree(ctx, said[1], said[0], "float64", float(np.abs(a).max()), f"{s} after {c['steps'][:k]}, labels {c['labels']}")
        ctx.label(s)
        if len(said[0]) == 1:
            return
