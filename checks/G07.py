"""Cases: point shapefiles of 1 to 12 events written byte by byte (.shp, .shx, .dbf) into a scratch
directory whose name, like the file's, may contain dots, blanks and the words shp and dbf, with
other shapefiles beside it; integer, negative, fractional and calendar date columns in any position
of the table, read with and without inference, by absolute and relative path. Locations and times
against what was written; dates as given, or as days since the earliest. Non-trivial: dates, or a name
or directory with a dot in it."""
import contextlib
import datetime
import io
import os
import shutil
import struct
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt.core import check
from pointpats import SpaceTimeEvents

names = st.sampled_from(["events", "events.2020", "a.sh.b", "my shp", "shp", "dbf", ".hidden", "dbf.x", "Événements"])
folders = st.sampled_from(["plain", "data.sh", "v1.2", "a b", "x.dbf/y", "shp"])


@st.composite
def case_(draw):
    n = draw(st.integers(1, 12))
    pts = draw(G.points(n, n, kinds=("grid", "dyadic", "float"), flat_ok=True))
    kind = draw(st.sampled_from(["int", "int", "float", "date", "date", "date"]))
    if kind == "int":
        t = draw(st.lists(st.integers(-10**6, 10**6), min_size=n, max_size=n))
    elif kind == "float":
        t = [x / 8 for x in draw(st.lists(st.integers(-10**5, 10**5), min_size=n, max_size=n))]
    else:
        first = draw(st.sampled_from([datetime.date(1, 6, 1), datetime.date(1899, 12, 25), datetime.date(1999, 12, 20), datetime.date(2020, 2, 1)])).toordinal()
        span = draw(st.sampled_from([3, 60, 40000]))
        t = [datetime.date.fromordinal(first + x).isoformat() for x in draw(st.lists(st.integers(0, span), min_size=n, max_size=n))]
    return {"pts": pts, "kind": kind, "t": t, "name": draw(names), "folder": draw(folders), "column": draw(st.sampled_from(["T", "DATE", "when", "a"])), "before": draw(st.integers(0, 2)), "infer": draw(st.sampled_from([True, False, None])), "relative": draw(st.booleans()), "decoy": draw(st.booleans())}


def write(path, pts, columns):
    """path without extension; columns: (name, kind, values)"""
    n = len(pts)
    x, y = zip(*pts)
    for ext, record, count in (("shp", 28, n), ("shx", 8, n)):
        with open(f"{path}.{ext}", "wb") as fh:
            fh.write(struct.pack(">7i", 9994, 0, 0, 0, 0, 0, (100 + count * record) // 2) + struct.pack("<2i4d4d", 1000, 1, min(x), min(y), max(x), max(y), 0, 0, 0, 0))
            for i, p in enumerate(pts):
                if ext == "shp":
                    fh.write(struct.pack(">2i", i + 1, 10) + struct.pack("<i2d", 1, *p))
                else:
                    fh.write(struct.pack(">2i", (100 + i * 28) // 2, 10))
    spec = {"int": ("N", 12, 0), "float": ("N", 18, 6), "date": ("D", 8, 0), "text": ("C", 6, 0)}
    with open(f"{path}.dbf", "wb") as fh:
        size = 1 + sum(spec[k][1] for _, k, _ in columns)
        fh.write(struct.pack("<BBBBIHH20x", 3, 120, 1, 1, n, 33 + 32 * len(columns), size))
        for name, k, _ in columns:
            fh.write(struct.pack("<11sc4xBB14x", name.encode(), spec[k][0].encode(), spec[k][1], spec[k][2]))
        fh.write(b"\r")
        for i in range(n):
            row = " "
            for _, k, v in columns:
                w = spec[k][1]
                row += {"int": lambda v: f"{v:>{w}d}", "float": lambda v: f"{v:>{w}.6f}", "date": lambda v: v.replace("-", ""), "text": lambda v: f"{v:<{w}}"}[k](v[i])
            fh.write(row.encode())
        fh.write(b"\x1a")


@check("events", case_(), quick=600)
def events(c, ctx):
    n = len(c["pts"])
    ctx.label(c["kind"], f"infer {c['infer']}", c["name"])
    ctx.interesting(c["kind"] == "date" or "." in c["name"] + c["folder"])
    top = tempfile.mkdtemp(prefix="verif-g07-")
    here = os.getcwd()
    try:
        folder = os.path.join(top, c["folder"])
        os.makedirs(folder)
        columns = [(f"other{i}", "int", list(range(i, n + i))) for i in range(c["before"])]
        columns += [(c["column"], c["kind"], c["t"]), ("note", "text", ["n"] * n)]
        path = os.path.join(folder, c["name"])
        write(path, c["pts"], columns)
        if c["decoy"]:  # tables a wrong name would find
            wrong = [(c["column"], "int", [77777 + i for i in range(n)])]
            for other in {c["name"].split(".")[0] or "none", c["name"].replace("shp", "dbf"), "events"} - {c["name"]}:
                with contextlib.suppress(OSError):
                    write(os.path.join(folder, other), c["pts"], wrong)
        arg = path + ".shp"
        if c["relative"]:
            os.chdir(top)
            arg = os.path.relpath(arg, top)
        kw = {} if c["infer"] is None else {"infer_timestamp": c["infer"]}
        with contextlib.redirect_stdout(io.StringIO()):
            e = ctx.call(f"SpaceTimeEvents({os.path.basename(arg)!r})", SpaceTimeEvents, arg, c["column"], **kw)
    finally:
        os.chdir(here)
        shutil.rmtree(top)
    a = G.arr(c["pts"])
    ctx.equal(e.n, n, "number of events")
    ctx.equal(np.asarray(e.x), a[:, :1], "x")
    ctx.equal(np.asarray(e.y), a[:, 1:], "y")
    ctx.equal(np.asarray(e.space), a, "space")
    if c["kind"] == "date":
        days = [datetime.date.fromisoformat(v) for v in c["t"]]
        want = [(d - min(days)).days for d in days] if c["infer"] else days
    else:
        want = c["t"]
    ctx.equal(np.shape(e.t), (n, 1), "shape of t")
    ctx.equal([x for x in e.t[:, 0].tolist()], want, "times")
    ctx.equal(np.shape(e.time), (n, 2), "shape of time")
    ctx.equal(e.time[:, 0].tolist(), want, "first column of time")
    ctx.equal([float(v) for v in e.time[:, 1]], [1.0] * n, "second column of time")
    if c["kind"] == "date" and c["infer"]:
        ctx.ok(np.issubdtype(np.asarray(e.t).dtype, np.number), f"inferred times have type {np.asarray(e.t).dtype}")


@check("use", case_().filter(lambda c: c["kind"] != "float" and len(c["pts"]) > 3), quick=60)
def use(c, ctx):
    """What was read can be handed to the tests of interaction."""
    from pointpats import Knox

    top = tempfile.mkdtemp(prefix="verif-g07-")
    try:
        write(os.path.join(top, "e"), c["pts"], [("T", c["kind"], c["t"])])
        with contextlib.redirect_stdout(io.StringIO()):
            e = ctx.call("SpaceTimeEvents", SpaceTimeEvents, os.path.join(top, "e.shp"), "T", infer_timestamp=True)
    finally:
        shutil.rmtree(top)
    t = [datetime.date.fromisoformat(v).toordinal() for v in c["t"]] if c["kind"] == "date" else c["t"]
    a = G.arr(c["pts"])
    d = a[:, None, :] - a[None, :, :]
    D = np.hypot(d[..., 0], d[..., 1])
    delta = float(np.median(D[np.triu_indices(len(a), 1)])) * 1.0001
    gaps = np.abs(np.subtract.outer(t, t))
    tau = int(np.median(gaps[np.triu_indices(len(a), 1)]))
    near = (D <= delta) & (gaps <= tau)
    ctx.interesting(near.sum() > len(a))
    ctx.equal(ctx.call("Knox", Knox, e.space, e.t, delta, tau, permutations=0).nst, int((near.sum() - len(a)) // 2), "Knox statistic of the events read")
