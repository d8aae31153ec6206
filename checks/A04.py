"""Cases: a table (2 to 5 columns) as array, list, tuples or frame, names and coordinate names
given or not and in any order, lists shared between two constructions, and marks added with
or without names; the resulting frame, points, names and the caller's objects are compared
with the table. Non-trivial: marks, given names or permuted coordinate columns."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import pointpats
from pbt import gens as G
from pbt.core import check


@st.composite
def case(draw):
    p = draw(st.integers(2, 5))
    n = draw(st.integers(2, 8))
    v = st.integers(-1000, 1000).map(lambda q: q / 8.0)
    rows = draw(st.lists(st.lists(v, min_size=p, max_size=p), min_size=n, max_size=n))
    how = draw(st.sampled_from(["default", "names", "coords", "both"]))
    pool = draw(st.permutations(["x", "y", "lat", "lon", "kind", "z", "0"]))
    names = list(pool[:p]) if how in ("names", "both") else None
    coord = None
    if how == "coords":
        coord = list(pool[:2])
    elif how == "both":
        coord = list(draw(st.permutations(names))[:2])
    adds = draw(st.lists(st.tuples(st.integers(1, 2), st.booleans(), st.sampled_from(["num", "str", "series", "array"])).map(list), max_size=3))
    return {"rows": rows, "form": draw(st.sampled_from(["array", "fortran", "list", "tuples", "frame", "frame_named", "int"])),
            "names": names, "coord": coord, "adds": adds}


def build_input(c):
    rows, form = c["rows"], c["form"]
    if form == "array":
        return np.array(rows)
    if form == "fortran":
        return np.asfortranarray(np.array(rows))
    if form == "int":
        return np.array([[int(v) for v in r] for r in rows])
    if form == "tuples":
        return [tuple(r) for r in rows]
    if form == "frame":
        return pd.DataFrame(rows)
    if form == "frame_named":
        return pd.DataFrame(rows, columns=[f"col{i}" for i in range(len(rows[0]))], index=[f"r{i}" for i in range(len(rows))][::-1])
    return [list(r) for r in rows]


@check("construction", case(), quick=2500)
def construction(c, ctx):
    data = build_input(c)
    before = copy.deepcopy(data)
    want = np.array(data, float)
    n, p = want.shape
    names = None if c["names"] is None else list(c["names"])
    coord = None if c["coord"] is None else list(c["coord"])
    kw = {}
    if names is not None:
        kw["names"] = names
    if coord is not None:
        kw["coord_names"] = coord
    ctx.interesting(p > 2 or bool(kw))
    ctx.label(c["form"], "names" if names else "-", "coord" if coord else "-")
    pats = [ctx.call("building", pointpats.PointPattern, data, **kw) for _ in range(2)]
    if c["names"] is not None:
        cols = list(c["names"])
        cn = list(c["coord"]) if c["coord"] is not None else cols[:2]
    else:
        cn = list(c["coord"]) if c["coord"] is not None else ["x", "y"]
        cols = cn + [f"mark_{i}" for i in range(p - 2)]
    at = [cols.index(k) for k in cn]
    for t, pp in enumerate(pats):
        w = f"pattern {t}"
        ctx.equal([str(x) for x in pp.df.columns], cols, f"{w}: columns")
        ctx.equal(pp.df.to_numpy(float), want, f"{w}: rows")
        ctx.equal(list(pp.coord_names), cn, f"{w}: coordinate names")
        ctx.equal(np.asarray(pp.points, float), want[:, at], f"{w}: points")
        ctx.equal(list(pp.points.columns), cn, f"{w}: names of points")
        ctx.equal(pp.n, n, f"{w}: n")
        ctx.ok((want[0, at][0], want[0, at][1]) in pp, f"{w}: first point not in the pattern")
        ctx.equal(pp.head(2).to_numpy(float), want[:2], f"{w}: head")
        ctx.equal(pp.tail(1).to_numpy(float), want[-1:], f"{w}: tail")
    pp = pats[0]
    added = 0
    have = dict(zip(cols, want.T.tolist()))
    for count, named, kind in c["adds"]:
        vals = []
        for k in range(count):
            base = [float(added * 10 + k + i) for i in range(n)]
            vals.append({"num": base, "str": [f"m{v}" for v in base], "array": np.array(base),
                         "series": pd.Series(base, index=pp.df.index)}[kind])
        keep = copy.deepcopy(vals)
        old = list(pp.df.columns)
        if named:
            nm = [f"new{added + k}" for k in range(count)]
            mine = list(nm)
            ctx.call("add_marks", pp.add_marks, vals, nm)
            ctx.equal(nm, mine, "add_marks changed the list of names")
        else:
            ctx.call("add_marks", pp.add_marks, vals)
        new = [x for x in pp.df.columns if x not in old]
        ctx.equal(len(new), count, f"add_marks of {count} to columns {old} gave new columns {new}: their number")
        ctx.equal(list(pp.df.columns), old + new, "add_marks: order of columns")
        if named:
            ctx.equal(new, mine, "add_marks: names")
        for k, v in zip(new, keep):
            have[k] = list(v)
        ctx.label("marks added")
        ctx.interesting()
        added += count
        ctx.ok(all(list(a) == list(b) for a, b in zip(vals, keep)), "add_marks changed the marks given")
    for k, v in have.items():
        ctx.equal(pp.df[k].tolist(), list(v), f"column {k}")
    ctx.equal(np.asarray(pp.points, float), want[:, at], "points after adding marks")
    ctx.equal(list(pats[1].df.columns), cols, "columns of the other pattern after adding marks")
    # the caller's objects
    if isinstance(before, pd.DataFrame):
        ctx.ok(before.equals(data) and list(before.columns) == list(data.columns) and list(before.index) == list(data.index), f"the caller's frame changed: {data}")
    elif isinstance(before, np.ndarray):
        ctx.equal(data, before, "the caller's array")
    else:
        ctx.equal(data, before, "the caller's list")
    ctx.equal(names, c["names"], "the caller's list of names")
    ctx.equal(coord, c["coord"], "the caller's list of coordinate names")
