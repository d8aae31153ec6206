"""Cases: a pattern (any location, scale, ties, duplicates) and a history of reads, window
replacements, added marks, coordinate flips and plots, then every summary read once more,
all compared with direct computation from the points and the current window. Non-trivial:
the history replaces the window or adds marks after something has been read."""
import contextlib
import io

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import pointpats
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check

ATTRS = [
    "n", "len", "mbb", "mbb_area", "hull", "hull_area", "lambda_mbb", "lambda_hull",
    "lambda_window", "rot", "window", "nnd", "min_nnd", "max_nnd", "mean_nnd", "points", "summary",
]
box = st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(1, 12), st.integers(1, 12))
ops = st.lists(
    st.one_of(
        st.tuples(st.just("read"), st.sampled_from(ATTRS)),
        st.tuples(st.just("window"), box.map(list), st.sampled_from(["set", "prop", "none", "hole"])),
        st.tuples(st.just("mark"), st.integers(0, 3)),
        st.tuples(st.just("flip"), st.just(0)),
        st.tuples(st.just("derive"), st.sampled_from(["unique", "tree", "knn"])),
    ).map(list),
    min_size=0, max_size=12,
)
case = st.fixed_dictionaries(
    {"pts": G.points(3, 14, large=60, huge=300), "ops": ops, "window": st.one_of(st.none(), box.map(list)),
     "rows": st.sampled_from(["array", "list", "frame"]),
     "columns": st.sampled_from([None, None, ["kind", "x", "y"], ["y", "x"], ["x", "kind", "y"], ["kind", "y", "id", "x"]])}
)


def make_window(b, hole=False):
    x, y, w, h = map(float, b)
    ring = [(x, y), (x, y + h), (x + w, y + h), (x + w, y), (x, y)]
    if hole:
        q = [(x + w / 4, y + h / 4), (x + w / 2, y + h / 4), (x + w / 2, y + h / 2), (x + w / 4, y + h / 2), (x + w / 4, y + h / 4)]
        return pointpats.Window([ring], [q]), w * h - w * h / 16, [x, y, x + w, y + h]
    return pointpats.Window(ring), w * h, [x, y, x + w, y + h]


class Model:
    def __init__(self, pts):
        self.a = G.arr(pts)
        lo, hi = self.a.min(axis=0), self.a.max(axis=0)
        self.mbb = np.array([*lo, *hi])
        self.mbb_area = float(np.prod(hi - lo))
        self.hull_area = O.hull_area(self.a)
        self.rot = 0.25 * float((hi - lo).min())
        self.nnd = O.nn_dist(self.a)
        self.mag2 = float(np.abs(self.a).max() ** 2)
        self.default_window()

    def default_window(self):
        self.warea, self.wbox = self.mbb_area, self.mbb

    def check(self, pp, attr, ctx, when):
        n = len(self.a)
        tol = dict(rtol=1e-9, atol=1e-13 * self.mag2)
        say = f"{attr} {when}"
        get = lambda name: ctx.call(say, lambda: getattr(pp, name))  # noqa: E731
        if attr == "n":
            ctx.equal(get("n"), n, say)
        elif attr == "len":
            ctx.equal(ctx.call(say, len, pp), n, say)
        elif attr == "mbb":
            ctx.equal(np.asarray(get("mbb")), self.mbb, say)
        elif attr == "mbb_area":
            ctx.close(get("mbb_area"), self.mbb_area, say)
        elif attr == "rot":
            ctx.close(get("rot"), self.rot, say)
        elif attr == "hull_area":
            ctx.close(get("hull_area"), self.hull_area, say, **tol)
        elif attr == "hull":
            h = np.asarray(get("hull"), float)
            ctx.ok(h.ndim == 2 and h.shape[1] == 2, f"{say}: shape {h.shape}")
            ctx.ok(set(map(tuple, h)) <= set(map(tuple, self.a)), f"{say}: a vertex is no point of the pattern")
            ctx.close(O.shoelace(h), self.hull_area, f"{say}: signed area", **tol)
        elif attr == "lambda_mbb":
            ctx.close(get("lambda_mbb"), n / self.mbb_area, say)
        elif attr == "lambda_hull":
            ctx.close(get("lambda_hull") * self.hull_area, n, say, rtol=1e-9,
                      atol=n * 1e-12 * self.mag2 / self.hull_area)
        elif attr == "lambda_window":
            ctx.close(get("lambda_window"), n / self.warea, say)
        elif attr == "window":
            w = get("window")
            ctx.close(w.area, self.warea, f"{say}: area", rtol=1e-9, atol=1e-12 * self.mag2)
            ctx.close([*w.bounding_box], self.wbox, f"{say}: box")
            ctx.ok(ctx.call(say, pp.get_window) is w, f"{say}: get_window() is another window")
        elif attr == "nnd":
            ctx.close(np.asarray(get("nnd")).ravel(), self.nnd, say)
        elif attr in ("min_nnd", "max_nnd", "mean_nnd"):
            ctx.close(get(attr), getattr(self.nnd, attr[:-4].replace("_", ""))(), say)
        elif attr == "points":
            ctx.equal(np.asarray(get("points"), float), self.a, say)
        elif attr == "summary":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                ctx.call(say, pp.summary)
            text = out.getvalue()
            ctx.ok(f"{n} points" in text, f"{say}: {text!r} does not tell the {n} points")
            area = [ln for ln in text.splitlines() if ln.startswith("Area of window")][0].split(":")[1]
            lam = [ln for ln in text.splitlines() if ln.startswith("Intensity")][0].split(":")[1]
            ctx.close(float(area), self.warea, f"{say}: area", rtol=1e-9, atol=1e-12 * self.mag2)
            ctx.close(float(lam), n / self.warea, f"{say}: intensity", rtol=1e-9, atol=1e-11 * self.mag2 / self.warea)


@check("history", case, quick=2500)
def history(c, ctx):
    m = Model(c["pts"])
    kw = {}
    if c["window"] is not None:
        w, area, wb = make_window(c["window"])
        kw["window"] = w
        m.warea, m.wbox = area, wb
    rows = G.as_container(c["pts"], c["rows"])
    if c.get("columns"):
        ctx.label("columns of any order")
        by = {"x": m.a[:, 0], "y": m.a[:, 1], "kind": np.arange(len(m.a)) * 7.0 % 5 - 40, "id": np.arange(len(m.a)) + 1000.0}
        rows = np.column_stack([by[k] for k in c["columns"]])
        rows = pd.DataFrame(rows) if c["rows"] == "frame" else rows.tolist() if c["rows"] == "list" else rows
        kw |= {"names": list(c["columns"]), "coord_names": ["x", "y"]}
    pp = ctx.call("building the pattern", pointpats.PointPattern, rows, **kw)
    read = False
    n_marks = 0
    for i, op in enumerate(c["ops"]):
        when = f"after step {i} of {c['ops']}"
        if op[0] == "read":
            m.check(pp, op[1], ctx, when)
            read = True
        elif op[0] == "window":
            ctx.interesting(read)
            ctx.label("window-replaced")
            if op[2] == "none":
                ctx.call("window = None", setattr, pp, "window", None)
                m.default_window()
            else:
                w, area, wb = make_window(op[1], op[2] == "hole")
                if op[2] == "prop":
                    pp.window = w
                else:
                    ctx.call("set_window", pp.set_window, w)
                m.warea, m.wbox = area, wb
        elif op[0] == "mark":
            ctx.interesting(read)
            ctx.label("mark")
            ctx.call("add_marks", pp.add_marks, [[op[1]] * len(m.a)], [f"extra_{n_marks}"])
            n_marks += 1
        elif op[0] == "flip":
            ctx.label("flip")
            ctx.call("flip_coordinates", pp.flip_coordinates)
        elif op[0] == "derive":
            if op[1] == "unique":
                ctx.call("unique", pp.unique)
            elif op[1] == "tree":
                ctx.call("tree", lambda: pp.tree)
            else:
                ctx.call("knn", pp.knn, 1)
    for attr in ATTRS + ["window", "lambda_window"]:
        m.check(pp, attr, ctx, f"at the end of {c['ops']}")


two = st.fixed_dictionaries({"a": G.points(3, 10), "b": G.points(3, 10), "order": st.permutations(list(range(2 * 13)))})


@check("two_patterns", two, quick=400)
def two_patterns(c, ctx):
    """Interleaved reads of two patterns never mix their values up."""
    names = ATTRS[:13]
    pats = [ctx.call("building", pointpats.PointPattern, G.arr(c[k])) for k in "ab"]
    models = [Model(c[k]) for k in "ab"]
    ctx.interesting(c["a"] != c["b"])
    for j in c["order"]:
        models[j % 2].check(pats[j % 2], names[j // 2], ctx, f"of pattern {j % 2}, order {c['order']}")
