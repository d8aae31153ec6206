"""Cases: the calls of X01 (some hundred entry points on drawn inputs), the distance functions on drawn
patterns, supports, metrics and options, and density plots, each once here and once in a process
in which the just-in-time compiler, the machine-learning library or all optional libraries are hidden. The
answers must agree to rounding, or the call be refused naming the library that it needs.
Non-trivial: the hidden library is one the call uses where present, or the call draws random numbers."""
import sys
import warnings

import matplotlib
import numpy as np
from hypothesis import strategies as st

import pointpats
from checks import B02, X01
from pbt import alt
from pbt import gens as G
from pbt.core import check, seed_everything
from pointpats import centrography as C

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

CONFIGS = (["numba"], ["sklearn"], ["numba", "sklearn", "KDEpy", "statsmodels"])
# the libraries a call cannot do without
NEEDS = {"k_neighbors(sktree, a)": "sklearn", "build_best_tree(rows)": "sklearn",
         "plot_density(a)": "statsmodels", "plot_density(a, filled)": "statsmodels", "plot_density(geo)": "statsmodels", "plot_density(a, kernel)": "KDEpy"}
SPELLED = {"sklearn": "scikit-learn"}


def agree(ctx, got, want, what):
    ctx.ok(len(got) == len(want), lambda: f"{what}: {len(got)} values instead of {len(want)}: {got[:12]}... {want[:12]}...")
    words = [(g, w) for g, w in zip(got, want) if (isinstance(g, str) or isinstance(w, str)) and g != w]
    ctx.ok(not words, lambda: f"{what}: {words[:3]}")
    g = np.array([v for v in got if not isinstance(v, str)], float)
    w = np.array([v for v in want if not isinstance(v, str)], float)
    ok = np.isclose(g, w, rtol=1e-8, atol=1e-9 * max([1.0, *np.abs(w[np.isfinite(w)])]) if len(w) else 0, equal_nan=True)
    ctx.ok(ok.all(), lambda: f"{what}: {g[~ok][:5]} instead of {w[~ok][:5]}")


def without(ctx, config, needed, what, fn, *args):
    """The answer without the libraries, or None where it is properly refused."""
    try:
        r = alt.call(config, fn, *args)
    except alt.Refused as e:
        ctx.ok(needed is not None and needed in config, f"{what} without {'/'.join(config)}: {e}")
        ctx.ok(e.kind in ("KeyError", "ImportError", "ModuleNotFoundError") and SPELLED.get(needed, needed) in str(e),
               f"{what} without {needed} is not refused with an explanation: {e}")
        ctx.label("refused")
        return None
    ctx.ok(needed is None or needed not in config, f"{what} without {needed} is not refused")
    return r


@st.composite
def entry_case(draw):
    c = draw(X01.case_())
    c["calls"] = [draw(st.sampled_from(sorted(X01.ENTRIES)))]
    c["config"] = draw(st.integers(0, 2))
    return c


BASE = X01.EXAMPLE


@check("entries", entry_case(), quick=700, examples=[{**BASE, "calls": [n], "config": 2} for n in sorted(X01.ENTRIES)])
def entries(c, ctx):
    name = c["calls"][0]
    config = CONFIGS[c["config"]]
    ctx.label("without " + "/".join(config))
    if name in ("k_neighbors(sktree, a)", "KnoxLocal map", "fitted map") and "sklearn" in config:  # other libraries need it there
        return
    got = without(ctx, config, NEEDS.get(name), name, "entry", {k: v for k, v in c.items() if k not in ("calls", "config")}, name, c["seed"])
    if got is None:
        return
    ctx.interesting(any(w in name for w in ("circle", "g(", "f(", "j(", "test", "neigh", "poisson", "normal", "strauss")))
    agree(ctx, got, ctx.call(name, X01.values, name, c, c["seed"]), f"{name} without {'/'.join(config)}")


@check("bounding circle", st.fixed_dictionaries({"pts": B02.shape(), "config": st.sampled_from([0, 2])}), quick=300)
def bounding_circle(c, ctx):
    a = G.arr(c["pts"])
    config = CONFIGS[c["config"]]
    (x, y), r = ctx.call("minimum_bounding_circle", C.minimum_bounding_circle, a)
    ctx.interesting(len(a) > 3)
    try:
        got = alt.call(config, "mbc", c["pts"])
    except alt.Refused as e:
        ctx.ok(False, f"minimum_bounding_circle without {'/'.join(config)}: {e}")
    ctx.close(got, [x, y, r], f"minimum_bounding_circle without {'/'.join(config)}", rtol=0, atol=4e-5 * r + 1e-7 * float(np.abs(a).max()))


METRICS = ["euclidean", "l2", "cityblock", "manhattan", "l1", "chebyshev"]


@st.composite
def dist_case(draw):
    name = draw(st.sampled_from("fgjkl"))
    return {"fn": name, "pts": draw(G.points(4, 25, large=60)), "metric": draw(st.sampled_from(METRICS[:2] * 3 + METRICS)), "config": draw(st.integers(1, 2)),
            "support": draw(st.one_of(st.none(), st.integers(2, 20), st.lists(st.floats(0, 2), min_size=2, max_size=6, unique=True).map(sorted))),
            "seed": draw(G.small_seed)}


@check("distance functions", dist_case(), quick=500)
def distance_functions(c, ctx):
    from pointpats import distance_statistics as D

    name, pts, config = c["fn"], c["pts"], CONFIGS[c["config"]]
    ctx.label(name, c["metric"])
    kw = {"metric": c["metric"], "seed": c["seed"]}
    if isinstance(c["support"], list):
        kw |= {"support": [v * G.extent(pts) for v in c["support"]], "as_tuple": False}
    elif c["support"]:
        kw["support"] = c["support"]
    if name == "j":
        kw["truncate"] = False
    if name in "kl" and c["metric"] in ("manhattan", "l1", "l2"):
        return  # pdist knows other names
    ctx.interesting()
    needed = "sklearn" if c["metric"] not in METRICS[:2] else None
    try:
        got = alt.call(config, "dist", name, pts, **kw)
    except alt.Refused as e:
        ctx.ok(needed is not None, f"{name} without {'/'.join(config)}: {e}")
        ctx.ok(e.kind in ("KeyError", "ImportError", "ModuleNotFoundError") and "scikit-learn" in str(e), f"{name}, metric {c['metric']!r} without scikit-learn is not refused with an explanation: {e}")
        ctx.label("refused")
        return
    ctx.ok(needed is None or name in "kl", f"{name}, metric {c['metric']!r}, is answered without scikit-learn")
    support = kw.pop("support", None)
    kw.pop("as_tuple", None)
    seed_everything(kw.pop("seed"))
    if support is not None:
        kw["support"] = np.asarray(support) if isinstance(support, list) else support
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s, v = ctx.call(name, getattr(D, name), np.asarray(pts, float), **kw)
    ctx.close(got[0], s, f"{name}: support without {'/'.join(config)}", rtol=1e-9, atol=1e-12)
    g, w = np.asarray(got[1], float), np.asarray(v, float)
    ctx.ok(g.shape == w.shape, f"{name}: {g.shape} values instead of {w.shape}")
    bad = ~np.isclose(g, w, rtol=1e-9, equal_nan=True)
    ctx.ok(not bad.any(), lambda: f"{name} without {'/'.join(config)} at {np.asarray(s)[bad][:4]}: {g[bad][:4]} instead of {w[bad][:4]}")


density = st.fixed_dictionaries({"pts": G.points(4, 12, places=G.near_place), "kernel": st.sampled_from([None, "gaussian", "tri", "box"]), "hide": st.sampled_from(["KDEpy", "statsmodels"])})


@check("density", density, quick=60, examples=[{"pts": BASE["pts"], "kernel": k, "hide": h} for k in (None, "tri") for h in ("KDEpy", "statsmodels")])
def density_(c, ctx):
    a = G.arr(c["pts"])
    width = G.extent(c["pts"]) / 3
    needed = "statsmodels" if c["kernel"] is None else "KDEpy"
    kept = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] == c["hide"]}
    try:
        sys.modules[c["hide"]] = None
        go = lambda: pointpats.plot_density(a, width, kernel=c["kernel"], resolution=16)  # noqa: E731
        if needed == c["hide"]:
            ctx.interesting()
            try:
                go()
            except ImportError as e:
                ctx.ok(needed in str(e), f"plot_density without {needed}: {e}")
            else:
                ctx.ok(False, f"plot_density without {needed} plots something else")
        else:
            got = X01.plain(ctx.call(f"plot_density without {c['hide']}", go))
            del sys.modules[c["hide"]]
            sys.modules.update(kept)
            agree(ctx, got, X01.plain(go()), f"plot_density without {c['hide']}")
    finally:
        sys.modules.pop(c["hide"], None)
        sys.modules.update(kept)
        plt.close("all")


@check("names", st.fixed_dictionaries({"config": st.integers(0, 2)}), quick=6, shards=1, examples=[{"config": k} for k in range(3)])
def names(c, ctx):
    config = CONFIGS[c["config"]]
    ctx.interesting()
    try:
        got = alt.call(config, "names")
    except alt.Refused as e:
        ctx.ok(False, f"pointpats without {'/'.join(config)} does not import: {e}")
    ctx.equal(got, sorted(n for n in dir(pointpats) if not n.startswith("_")), f"public names without {'/'.join(config)}")
