"""Cases: 2 to 16 events with many ties in time, identifiers of every kind (positions, shuffled and
overlapping integers, floats, strings, through arrays or a data frame with a reference system),
significance levels among the p-values that occur, both inferences, with and without neighbours.
The link table is compared with all pairs, the hotspots with the p-values reported, the clusters
with union-find over the links that touch a significant event, plots and maps with both. Non-trivial:
several clusters, members that are not significant, or identifiers that are not positions."""
import json
import warnings

import matplotlib
import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import knox as K
from pbt.core import check
from pointpats import KnoxLocal

matplotlib.use("Agg")


@st.composite
def case_(draw):
    c = draw(K.events(2, 16, times=("int", "half", "negative"), large=40))
    if draw(st.booleans()):  # few, small groups: several clusters
        c["tau"] = draw(st.sampled_from([0, 0.5, 1, 3]))
        c["delta"] = c["delta"] / 2 if draw(st.booleans()) else c["delta"]
    n = len(c["pts"])
    kind = draw(st.sampled_from(["none", "none", "shuffled", "reversed", "apart", "strings", "floats", "shifted"]))
    if kind == "shuffled":
        c["ids"] = draw(st.permutations(range(n)))
    elif kind == "reversed":
        c["ids"] = list(range(n))[::-1]
    elif kind == "shifted":
        c["ids"] = list(range(1, n + 1))
    elif kind == "apart":
        c["ids"] = draw(st.lists(st.integers(-5, 60), min_size=n, max_size=n, unique=True))
    elif kind == "strings":
        c["ids"] = [f"{'xyz'[i % 3]}{(i * 7) % 5}-{i}" for i in range(n)]
    elif kind == "floats":
        c["ids"] = [float(i) + 0.5 for i in draw(st.permutations(range(n)))]
    else:
        c["ids"] = None
    c["idkind"] = kind
    c["via"] = draw(st.sampled_from(["arrays", "frame"]))
    c["crs"] = draw(st.sampled_from([None, "EPSG:3857"]))
    c["permutations"] = draw(st.sampled_from([0, 9, 19, 39]))
    c["inference"] = draw(st.sampled_from(["permutation", "analytic"]))
    c["crit"] = draw(st.one_of(st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.6, 0.0]), st.integers(0, n - 1).map(lambda i: {"of": i})))
    c["keep"] = draw(st.sampled_from([True, False, None]))
    c["seed"] = draw(G.small_seed)
    return c


case = case_()


def fit(ctx, c):
    s, t = K.arrays(c)
    np.random.seed(c["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["via"] == "arrays":
            kw = {} if c["ids"] is None else {"ids": list(c["ids"])}
            r = ctx.call("KnoxLocal", KnoxLocal, s, t, c["delta"], c["tau"], permutations=c["permutations"], crs=c["crs"], **kw)
        else:
            import geopandas as gpd

            df = gpd.GeoDataFrame({"day": t[:, 0], "other": np.arange(len(s))[::-1]}, geometry=gpd.points_from_xy(s[:, 0], s[:, 1]), crs=c["crs"], index=c["ids"])
            r = ctx.call("KnoxLocal.from_dataframe", KnoxLocal.from_dataframe, df, "day", c["delta"], c["tau"], permutations=c["permutations"])
    ids = list(range(len(s))) if c["ids"] is None else list(c["ids"])
    return s, t, ids, r


def links(c, ids):
    S, T = K.close(c)
    t = K.arrays(c)[1][:, 0]
    i, j = np.nonzero(S & T)
    return {(ids[a], ids[b]): "lead" if t[a] < t[b] else "lag" if t[a] > t[b] else "coincident" for a, b in zip(i, j)}


def plain(x):
    return x.item() if isinstance(x, np.generic) else x


def level(c, p):
    return float(p[c["crit"]["of"]]) if isinstance(c["crit"], dict) else c["crit"]


def clusters(nodes, edges):
    parent = {v: v for v in nodes}

    def find(v):
        while parent[v] != v:
            v = parent[v]
        return v

    for a, b in edges:
        parent[find(a)] = find(b)
    return {v: find(v) for v in nodes}


@check("links", case, quick=900)
def link_table(c, ctx):
    s, t, ids, r = fit(ctx, {**c, "permutations": 0})
    want = links(c, ids)
    adj = r.adjlist
    got = list(zip(map(plain, adj["focal"]), map(plain, adj["neighbor"]), adj["orientation"]))
    ctx.label(c["idkind"], c["via"])
    ctx.interesting(len(want) > 0 and (c["idkind"] != "none" or len(set(want.values())) == 3))
    ctx.ok(len(got) == len(want), f"{len(got)} links {got}, expected {want}")
    bad = [g for g in got if want.get(g[:2]) != g[2]]
    ctx.ok(not bad, lambda: f"links {bad}, expected {want}")
    ctx.ok(len({g[:2] for g in got}) == len(got), f"repeated links {got}")


def expected(c, p, ids):
    """(identifiers of significant events, identifiers of those linked to them, links that count)"""
    crit = level(c, p)
    sig = {ids[i] for i in range(len(ids)) if p[i] <= crit}
    edges = {e: o for e, o in links(c, ids).items() if e[0] in sig or e[1] in sig}
    linked = {e[1] for e in edges if e[0] in sig} - sig
    return crit, sig, linked, edges


def pvalues(c, r):
    return np.asarray(r.p_sims if c["inference"] == "permutation" and c["permutations"] else r.p_hypergeom, float)


@check("hotspots", case, quick=900)
def hotspots(c, ctx):
    s, t, ids, r = fit(ctx, c)
    p = pvalues(c, r)
    crit, sig, linked, edges = expected(c, p, ids)
    if crit >= 1:
        return  # everything is a hotspot of itself
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        kw = {} if c["keep"] is None else {"keep_neighbors": c["keep"]}
        h = ctx.call("hotspots", r.hotspots, crit=crit, inference=c["inference"], **kw)
    warned = any("p values not" in str(x.message) for x in w) or any("Pseudo-p" in str(x.message) for x in w)
    ctx.equal(warned, c["inference"] == "permutation" and not c["permutations"], "warned that there are no pseudo p-values")
    keep = c["keep"] is not False
    want = sig | (linked if keep else set())
    got = [plain(x) for x in h["focal"]]
    root = clusters(sig | linked, edges)
    ctx.label(c["idkind"], c["inference"], f"keep {c['keep']}", f"{min(len(set(root.values())), 3)} clusters", "linked" if linked else "no others")
    ctx.interesting(bool(sig) and (len(set(root.values())) > 1 or bool(linked) or c["idkind"] != "none"))
    ctx.ok(len(got) == len(set(got)), f"hotspots {got} are repeated")
    ctx.ok(set(got) == want, lambda: f"hotspots {got} at {crit!r}; significant are {sorted(sig, key=str)}, linked to them {sorted(linked, key=str)}, keep_neighbors={c['keep']}")
    pos = {v: i for i, v in enumerate(ids)}
    label = {}
    for _, row in h.iterrows():
        v = plain(row["focal"])
        i = pos[v]
        ctx.equal((row.geometry.x, row.geometry.y), tuple(s[i]), f"location of {v!r}")
        ctx.equal(float(row["pvalue"]), float(p[i]), f"p-value of {v!r}")
        ctx.equal(float(row["focal_time"]), float(t[i, 0]), f"time of {v!r}")
        e = (v, plain(row["neighbor"]))
        ctx.ok(edges.get(e) == row["orientation"] if e in edges else False, f"hotspot {v!r} linked to {e[1]!r} as {row['orientation']!r}; its links are { {k: o for k, o in edges.items() if k[0] == v} }")
        label[v] = row["cluster"]
    for a in got:
        for b in got:
            ctx.ok((label[a] == label[b]) == (root[a] == root[b]), lambda: f"{a!r} and {b!r} are in clusters {label[a]!r} and {label[b]!r}; links {sorted(edges, key=str)}")
    if c["crs"] is not None:
        ctx.ok(h.crs is not None and h.crs.to_string() == c["crs"], f"hotspots are in {h.crs}")


figure = st.tuples(case, st.sampled_from([None, ["black", "blue", "green"], ["yellow", "red", "white"]]), st.sampled_from([None, True, False]), st.booleans(), st.sampled_from([None, {"size": 7.5, "width": 2.5, "line": "purple"}])).map(lambda t: {**t[0], "colors": t[1], "edges": t[2], "own_axes": t[3], "style": t[4]})


def roles(c, p, ids):
    crit, sig, linked, edges = expected(c, p, ids)
    return crit, ["focal" if v in sig else "neighbor" if v in linked else "nonsig" for v in ids], sig, linked, edges


def keywords(c, crit):
    kw = {"crit": crit, "inference": c["inference"]}
    colors = {"focal": "red", "neighbor": "yellow", "nonsig": "grey"}
    if c["colors"]:
        colors = dict(zip(("focal", "neighbor", "nonsig"), c["colors"]))
        kw["colors"] = dict(colors)
    if c["edges"] is not None:
        kw["plot_edges"] = c["edges"]
    return kw, colors


def check_lines(ctx, c, lines, s, ids, sig, linked, edges, what):
    """one link per hotspot, each an actual link of that hotspot"""
    if c["edges"] is False:
        ctx.equal(len(lines), 0, f"{what}: links drawn without being asked for")
        return
    left = [tuple(map(tuple, x)) for x in lines]  # geopandas may turn them round
    ctx.equal(len(left), len(sig | linked), f"{what}: links drawn")
    at = {v: tuple(map(float, p)) for v, p in zip(ids, s)}
    actual = {(at[a], at[b]) for a, b in edges}
    bad = [x for x in left if x not in actual]
    ctx.ok(not bad, f"{what}: links {bad} drawn, actual ones are {sorted(actual)}")
    missed = {at[v] for v in sig | linked} - {p for x in left for p in x}
    ctx.ok(not missed, f"{what}: no link drawn for the hotspots at {missed}")


@check("plots", figure, quick=100, shards=8)
def plots(c, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba

    s, t, ids, r = fit(ctx, c)
    p = pvalues(c, r)
    crit, role, sig, linked, edges = roles(c, p, ids)
    if crit >= 1:
        return
    kw, colors = keywords(c, crit)
    ctx.interesting(bool(sig))
    if c["style"]:
        kw |= {"point_kwargs": {"markersize": c["style"]["size"]}, "edge_kwargs": {"linewidth": c["style"]["width"]}, "edge_color": c["style"]["line"]}
    ax = plt.subplots()[1] if c["own_axes"] else None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = ctx.call("plot", r.plot, ax=ax, **kw)
        ctx.ok(ax is None or m is ax, "plot: the axes given are not the ones drawn on")
        shown, lines = {}, []
        for col in m.collections:
            if isinstance(col, matplotlib.collections.LineCollection):
                lines += [x.tolist() for x in col.get_segments()]
                ctx.ok({tuple(np.round(k, 6)) for k in col.get_edgecolor()} <= {tuple(np.round(to_rgba(kw.get("edge_color", "black")), 6))}, lambda: f"links drawn in {col.get_edgecolor()}")
                ctx.ok(not c["style"] or set(np.round(col.get_linewidth(), 6)) == {c["style"]["width"]}, lambda: f"links drawn with the width {col.get_linewidth()}")
            else:
                face = col.get_facecolor()
                ctx.ok(not c["style"] or not len(col.get_offsets()) or set(np.round(col.get_sizes(), 6)) == {c["style"]["size"]}, lambda: f"points drawn with the size {col.get_sizes()}")
                for i, xy in enumerate(np.asarray(col.get_offsets()).tolist()):
                    shown.setdefault(tuple(np.round(face[i if len(face) > 1 else 0], 6)), []).append(tuple(xy))
        want = {}
        for i, x in enumerate(role):
            want.setdefault(tuple(np.round(to_rgba(colors[x]), 6)), []).append(tuple(map(float, s[i])))
        ctx.ok({k: sorted(v) for k, v in shown.items() if v} == {k: sorted(v) for k, v in want.items()}, lambda: f"plot shows {shown}, expected {want}")
        check_lines(ctx, c, lines, s, ids, sig, linked, edges, "plot")
    finally:
        plt.close("all")


@check("maps", figure, quick=100, shards=8)
def maps(c, ctx):
    import folium

    c = {**c, "crs": None}
    s, t, ids, r = fit(ctx, c)
    p = pvalues(c, r)
    crit, role, sig, linked, edges = roles(c, p, ids)
    if crit >= 1:
        return
    kw, colors = keywords(c, crit)
    ctx.interesting(bool(sig))
    if c["style"]:
        kw |= {"edge_color": c["style"]["line"], "edge_weight": 5}
    given = [{}, {"radius": 8}, {"style_kwds": {"weight": 3, "fillOpacity": 0.25}}, {"radius": 8, "style_kwds": {"weight": 3, "fillOpacity": 0.25}}][len(s) % 4]
    kw |= given
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = ctx.call("explore", r.explore, **kw)
    shown, lines = {}, []
    for layer in m._children.values():
        if not isinstance(layer, folium.GeoJson):
            continue
        for f in json.loads(json.dumps(layer.data, default=plain))["features"]:
            xy = f["geometry"]["coordinates"]
            if f["geometry"]["type"] == "LineString":
                lines.append(xy)
                ctx.equal(f["properties"].get("__folium_color"), kw.get("edge_color", "black"), "colour of a link on the map")
                ctx.equal(layer.style_function(f)["weight"], kw.get("edge_weight", 2), "width of a link on the map")
            else:
                # the radius is for when no style is given
                style = layer.style_function(f)
                for k, v in given.get("style_kwds", {"radius": given.get("radius", 5)}).items():
                    ctx.equal(style.get(k), v, f"{k} of a point on the map")
                ctx.ok("style_kwds" not in given or "radius" not in style, f"style {style} with a style given")
                shown.setdefault(f["properties"]["__folium_color"], []).append(tuple(xy))
    want = {}
    for i, x in enumerate(role):
        want.setdefault(colors[x], []).append(tuple(map(float, s[i])))
    ctx.ok({k: sorted(v) for k, v in shown.items()} == {k: sorted(v) for k, v in want.items()}, lambda: f"map shows {shown}, expected {want}")
    check_lines(ctx, c, lines, s, ids, sig, linked, edges, "map")


@check("refusals", case, quick=60)
def refusals(c, ctx):
    """Unknown inference."""
    s, t, ids, r = fit(ctx, {**c, "permutations": 9})
    ctx.interesting()
    for f in (r.hotspots, r.plot, r.explore):
        ctx.refused(f"{f.__name__} with inference='bayes'", (ValueError,), f, inference="bayes")
