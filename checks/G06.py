"""Cases: data frames of 2 to 12 events with default, shuffled, text or repeated-name indexes, active
geometry of any name next to another geometry column, projected or no reference system, integer,
unsigned, boolean, fractional and nullable times, three-dimensional points: Knox and KnoxLocal built
from them against those built from arrays under the same seed. Refusals: geographic reference
systems, geometries other than points (all, one of them, none), text, dates and durations as time,
arrays of the wrong type or shape. Non-trivial: the frame is not the plainest one."""
import warnings

import geopandas as gpd
import numpy as np
import pandas as pd
import shapely
from hypothesis import strategies as st

from pbt import gens as G
from pbt import knox as K
from pbt.core import check
from pointpats import Knox, KnoxLocal

options = {"crs": st.sampled_from([None, "EPSG:3857", "EPSG:32633", "EPSG:2263"]), "index": st.sampled_from(["range", "reversed", "text", "apart", "dates"]), "geometry": st.sampled_from(["geometry", "where", "two"]), "time": st.sampled_from(["T", "day of year", "geometry_time", "time"]),
           "dtype": st.sampled_from(["same", "float32", "uint8", "Int64", "Float64"]), "z": st.booleans(), "permutations": st.sampled_from([0, 1, 19]), "keep": st.booleans(), "seed": G.small_seed}
case = st.tuples(K.events(2, 12, times=("int", "half")), st.fixed_dictionaries(options)).map(lambda t: {**t[0], **t[1]})


def frame(c):
    s, t = K.arrays(c)
    n = len(s)
    index = {"range": None, "reversed": list(range(n))[::-1], "text": [f"e{(i * 5) % 7}_{i}" for i in range(n)], "apart": [i * 3 + 100 for i in range(n)], "dates": pd.date_range("2020-01-01", periods=n)}[c["index"]]
    col = t[:, 0]
    if c["dtype"] == "uint8" and c["times"] == "int" or c["dtype"] == "Int64" and c["times"] == "int":
        col = pd.array(col, dtype=c["dtype"])
    elif c["dtype"] in ("float32", "Float64"):
        col = pd.array(col, dtype=c["dtype"])
    pts = gpd.points_from_xy(s[:, 0], s[:, 1], np.arange(n) if c["z"] else None)
    name = "geometry" if c["geometry"] == "geometry" else "where"
    data = {"note": list("abcdefghijklmnop"[:n]), c["time"]: col, name: pts}
    if c["geometry"] == "two":
        data["elsewhere"] = gpd.points_from_xy(s[:, 1] * 3 + 1, s[:, 0] - 5)
    return gpd.GeoDataFrame(data, geometry=name, crs=c["crs"], index=index)


def quiet(ctx, what, fn, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ctx.call(what, fn, *a, **kw)


@check("frames", case, quick=600)
def frames(c, ctx):
    df = frame(c)
    before = df.copy(deep=True)
    s, t = K.arrays(c)
    P = c["permutations"]
    ctx.label(c["index"], c["geometry"], str(df[c["time"]].dtype), str(c["crs"]))
    ctx.interesting(c["index"] != "range" or c["geometry"] != "geometry" or c["z"])
    for cls in (Knox, KnoxLocal):
        what = f"{cls.__name__}.from_dataframe"
        np.random.seed(c["seed"])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = ctx.call(what, cls.from_dataframe, df, c["time"], c["delta"], c["tau"], permutations=P, keep=c["keep"])
        ctx.equal(any("CRS" in str(x.message) for x in w), c["crs"] is None, f"{what}: warned that there is no reference system")
        np.random.seed(c["seed"])
        q = ctx.call(cls.__name__, cls, s, t, c["delta"], c["tau"], permutations=P, keep=c["keep"])
        for name in ("nst", "p_poisson", "observed", "expected", "statistic_", "p_sim", "sim", "p_sims", "sims", "p_hypergeom", "nsti"):
            ctx.equal(hasattr(r, name), hasattr(q, name), f"{what}: has {name}")
            if hasattr(q, name):
                ctx.close(getattr(r, name), getattr(q, name), f"{what}: {name}", rtol=1e-12)
        ctx.equal(np.asarray(r.s_coords, float), s, f"{what}: s_coords")
        if cls is KnoxLocal:
            ids = list(df.index)
            i, j = np.nonzero(np.logical_and(*K.close(c)))
            ctx.equal(set(zip(r.adjlist["focal"], r.adjlist["neighbor"])), {(ids[a], ids[b]) for a, b in zip(i, j)}, f"{what}: identifiers in the link table")
            if P:
                h = quiet(ctx, "hotspots", r.hotspots, crit=0.99)
                ctx.ok(set(h["focal"]) <= set(ids), f"{what}: hotspots {list(h['focal'])}")
                ctx.ok(h.crs == df.crs, f"{what}: hotspots in {h.crs}, events in {df.crs}")
    pd.testing.assert_frame_equal(pd.DataFrame(df), pd.DataFrame(before))
    ctx.ok(df.crs == before.crs and df.geometry.name == before.geometry.name, "the frame's geometry or reference system changed")


bad = st.tuples(case, st.sampled_from(["geographic", "geographic2", "polygons", "one line", "one multipoint", "missing", "text", "dates", "durations", "s list", "t list", "t frame", "one column", "lengths", "more times", "ids", "more ids"])).map(lambda t: {**t[0], "bad": t[1]})


@check("refusals", bad, quick=500)
def refusals(c, ctx):
    df = frame({**c, "crs": c["crs"] if c["bad"] not in ("geographic", "geographic2") else {"geographic": "EPSG:4326", "geographic2": "EPSG:4269"}[c["bad"]]})
    s, t = K.arrays(c)
    n, b = len(s), c["bad"]
    ctx.label(b)
    ctx.interesting()
    at = c["seed"] % n
    geo = np.array(df.geometry.values, dtype=object)
    if b == "polygons":
        geo = [p.buffer(1) for p in geo]
    elif b == "one line":
        geo[at] = shapely.LineString([(0, 0), (1, 1)])
    elif b == "one multipoint":
        geo[at] = shapely.MultiPoint([(0, 0)])
    elif b == "missing":
        geo[at] = None
    if b in ("polygons", "one line", "one multipoint", "missing"):
        df = df.set_geometry(gpd.GeoSeries(list(geo), index=df.index, crs=df.crs))
    if b == "text":
        df[c["time"]] = [str(x) for x in c["t"]]
    elif b == "dates":
        df[c["time"]] = pd.date_range("2001-01-01", periods=n).values
    elif b == "durations":
        df[c["time"]] = pd.to_timedelta(np.arange(n), unit="D").values
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if b in ("geographic", "geographic2", "polygons", "one line", "one multipoint", "missing", "text", "dates", "durations"):
            for cls in (Knox, KnoxLocal):
                ctx.refused(f"{cls.__name__}.from_dataframe with {b}", (ValueError,), cls.from_dataframe, df, c["time"], c["delta"], c["tau"], permutations=0)
            return
        kw = {}
        args = {"s list": (s.tolist(), t), "t list": (s, t.tolist()), "t frame": (s, pd.DataFrame(t)), "one column": (s[:, :1], t), "lengths": (s, t[:-1]), "more times": (s, np.vstack([t, t[:1]])), "ids": (s, t), "more ids": (s, t)}[b]
        if b == "ids":
            kw["ids"] = list(range(n - 1))
        if b == "more ids":
            kw["ids"] = list(range(n + 1))
        ctx.refused(f"KnoxLocal with {b}", (ValueError,), KnoxLocal, *args, c["delta"], c["tau"], permutations=0, **kw)
