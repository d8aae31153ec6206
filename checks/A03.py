"""Cases: two tables of marked points with repeated rows, in any column layout, and a history
of unique / superimpose / explode / membership operations on them and on the results; every
pattern that exists at the end, the originals included, is compared with a list-of-rows model.
Non-trivial: a table has a repeated row and an operation other than membership is applied."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import pointpats
from pbt import gens as G
from pbt.core import check

LAYOUTS = {  # names, coord_names given to the constructor
    "xy": (["x", "y"], None),
    "xym": (["x", "y", "m"], None),
    "mxy": (["m", "x", "y"], ["x", "y"]),
    "xmyk": (["x", "m", "y", "k"], ["x", "y"]),
    "yxm": (["x", "y", "m"], ["y", "x"]),
    "lonlat": (["kind", "lat", "lon"], ["lon", "lat"]),
}


@st.composite
def case(draw):
    layout = draw(st.sampled_from(sorted(LAYOUTS)))
    names = LAYOUTS[layout][0]
    coords = set(LAYOUTS[layout][1] or names[:2])
    u = draw(st.sampled_from([1.0, 0.25, 100.0]))
    off = draw(st.sampled_from([0.0, -10.0, 500000.0]))
    coord = st.integers(-2, 3).map(lambda v: v * u + off)
    kinds = {n: draw(st.sampled_from(["int", "str"])) for n in names if n not in coords}
    col = lambda n: coord if n in coords else (  # noqa: E731
        st.integers(-2, 12) if kinds[n] == "int" else st.sampled_from(["b", "a", "c", "Z"]))
    row = st.tuples(*[col(n) for n in names]).map(list)
    tables = []
    for _ in range(2):
        rows = draw(st.lists(row, min_size=2, max_size=7))
        rep = draw(st.lists(st.integers(0, len(rows) - 1), max_size=4))
        tables.append(rows + [list(rows[i]) for i in rep])
    idx = st.integers(0, 7)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("unique"), idx, idx),
        st.tuples(st.just("superimpose"), idx, idx),
        st.tuples(st.just("explode"), idx, idx),
        st.tuples(st.just("contains"), idx, idx),
        st.tuples(st.just("flip"), idx, idx),
        st.tuples(st.just("window"), idx, idx),
    ).map(list), min_size=1, max_size=7))
    return {"layout": layout, "tables": tables, "ops": ops}


def rows_of(df, names):
    cols = [df[n].tolist() for n in names]
    return [tuple(r) for r in zip(*cols)]


def dedupe(rows):
    return list(dict.fromkeys(rows))


def key(r):
    return tuple((str(type(v)), v) if isinstance(v, str) else ("n", float(v)) for v in r)


def verify(ctx, what, pp, rows, names, cnames, ordered):
    ctx.equal(list(pp.df.columns), list(names), f"{what}: columns")
    ctx.equal(list(pp.coord_names), list(cnames), f"{what}: coordinate names")
    got = rows_of(pp.df, names)
    if ordered:
        ctx.equal(got, rows, f"{what}: rows")
    else:
        ctx.equal(sorted(map(key, got)), sorted(map(key, rows)), f"{what}: rows")
    a = np.array([[r[names.index(c)] for c in cnames] for r in got], float)
    ctx.equal(np.asarray(pp.points, float), a, f"{what}: points")
    ctx.equal(pp.n, len(rows), f"{what}: n")
    ctx.equal(len(pp), len(rows), f"{what}: len")
    ctx.close(pp.mbb, [*a.min(axis=0), *a.max(axis=0)], f"{what}: bounding box")


@check("sets", case(), quick=1400)
def sets(c, ctx):
    names, cn = LAYOUTS[c["layout"]]
    cnames = cn or names[:2]
    pop = []
    for rows in c["tables"]:
        df = pd.DataFrame(rows, columns=names)
        kw = {"coord_names": list(cn)} if cn else {}
        pp = ctx.call("building", pointpats.PointPattern, df, names=list(names), **kw)
        pop.append([pp, [tuple(r) for r in rows], True, pp.window])
    repeated = any(len(dedupe(m)) < len(m) for _, m, _, _ in pop)
    for op, i, j in c["ops"]:
        i, j = i % len(pop), j % len(pop)
        pp, rows, ordered, win = pop[i]
        what = f"{op}({i},{j}) in {c['ops']}"
        if op == "unique":
            q = ctx.call(what, pp.unique)
            new = [q, dedupe(rows), False, win]
            ctx.close(q.window.area, win.area, f"{what}: window area")
            ctx.close([*q.window.bounding_box], [*win.bounding_box], f"{what}: window box")
            ctx.equal([*map(tuple, q.window.vertices)], [*map(tuple, win.vertices)], f"{what}: window vertices")
        elif op == "superimpose":
            q = ctx.call(what, pp.superimpose, pop[j][0])
            new = [q, dedupe(rows + pop[j][1]), False, q.window]
        elif op == "explode":
            marks = [n for n in names if n not in cnames] or names[:1]
            m = marks[j % len(marks)]
            k = names.index(m)
            parts = ctx.call(what, pp.explode, m)
            values = sorted({r[k] for r in rows})
            ctx.equal(len(parts), len(values), f"{what}: number of patterns by {m}")
            for q, v in zip(parts, values):
                verify(ctx, f"{what}: part {m}={v!r}", q, [r for r in rows if r[k] == v], names, cnames, ordered)
            q = parts[j % len(parts)]
            v = values[j % len(values)]
            new = [q, [r for r in rows if r[k] == v], ordered, q.window]
        elif op == "contains":
            xi, yi = (names.index(x) for x in cnames)
            have = {(r[xi], r[yi]) for r in rows}
            xs = sorted({r[xi] for r in rows} | {r[yi] for r in rows} | {0.5})
            for x in xs:
                for y in xs:
                    got = ctx.call(what, lambda: (x, y) in pp)
                    ctx.ok(bool(got) == ((x, y) in have), f"{what}: ({x}, {y}) in pattern is {got}, coordinates {sorted(have)}")
            new = None
        elif op == "flip":
            ctx.call(what, pp.flip_coordinates)
            new = None
        else:
            w = pointpats.Window([(i, j), (i, j + 5.0), (i + 7.0, j + 5.0), (i + 7.0, j)])
            pp.set_window(w)
            pop[i][3] = w
            new = None
        ctx.label(op)
        if new is not None:
            ctx.interesting(repeated)
            if len(pop) < 8:
                pop.append(new)
            verify(ctx, what, new[0], new[1], names, cnames, new[2])
    for k, (pp, rows, ordered, win) in enumerate(pop):
        verify(ctx, f"pattern {k} after {c['ops']}", pp, rows, names, cnames, ordered)
        ctx.ok(pp.window is win or pp.window.area == win.area, f"pattern {k} after {c['ops']}: its window changed")


@check("names_differ", st.fixed_dictionaries({"pts": G.points(3, 6)}), quick=30)
def names_differ(c, ctx):
    """Patterns with other columns or coordinates are refused."""
    a = pointpats.PointPattern(G.arr(c["pts"]))
    b = pointpats.PointPattern(G.arr(c["pts"]), names=["u", "v"])
    ctx.interesting()
    ctx.refused("superimposing other columns", (TypeError,), a.superimpose, b)
    d = pointpats.PointPattern(G.arr(c["pts"]), names=["x", "y"], coord_names=["y", "x"])
    ctx.refused("superimposing other coordinate columns", (TypeError,), a.superimpose, d)
