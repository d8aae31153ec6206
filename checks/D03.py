"""Cases: a region of any kind and place and a request in each documented form, the intensity
being a whole number of points over the area (computed in floating point) or any share more.
The exact area comes from rational arithmetic over the rings. Non-trivial: an intensity is
involved or there are several replications."""
from fractions import Fraction
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt import sims as S
from pbt.core import check
from pointpats import random as R
from pointpats.random import parse_size_and_intensity as parse


def exact_area(reg):
    def ring(r):
        pts = [(Fraction(x), Fraction(y)) for x, y in r]
        return abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(pts, pts[1:] + pts[:1]))) / 2

    return sum(map(ring, reg.parts)) - sum(map(ring, reg.holes))


case = st.fixed_dictionaries({
    "hull": S.any_hull(kinds=("bbox", "polygon", "holed", "multi", "convexhull", "thin")),
    "m": st.one_of(st.integers(1, 60), st.integers(1, 5000)), "extra": st.sampled_from([0, 0, 0, 1, 30, 50, 99]),
    "reps": st.integers(1, 5), "form": st.sampled_from(["int", "pair", "intensity", "intensity and reps", "nothing", "both", "triple", "float", "text"]),
})


def expected(intensity, reg):
    p = Fraction(intensity) * exact_area(reg)
    near = round(p)
    if abs(p - near) <= Fraction(1, 10**11) * max(1, near):
        return near
    if abs(p - near) < Fraction(1, 10**6):
        return None  # neither whole nor clearly not
    return math.floor(p)


@check("parse", case, quick=2500)
def parse_(c, ctx):
    hull, _ = G.make_hull(c["hull"])
    reg = O.region(c["hull"])
    m, reps, form = c["m"], c["reps"], c["form"]
    lam = (m + c["extra"] / 100.0) / reg.area
    ctx.label(form, c["hull"]["kind"])
    ctx.interesting(form.startswith("intensity") or reps > 1)
    if form == "int":
        ctx.equal(ctx.call("size", parse, hull, size=m)[:2], (m, 1), "(points, replications)")
        ctx.close(parse(hull, size=m)[2], m / reg.area, "implied intensity")
    elif form == "pair":
        got = ctx.call("size", parse, hull, size=(m, reps))
        ctx.equal(got[:2], (m, reps), "(points, replications)")
        ctx.close(got[2], m / reg.area, "implied intensity")
    elif form.startswith("intensity"):
        want = expected(lam, reg)
        args = {"size": reps} if "reps" in form else {}
        got = ctx.call("intensity", parse, hull, intensity=lam, **args)
        if c["hull"]["kind"] == "convexhull" and c["extra"] == 0 and m > 60:
            want = None  # its floating-point area may be too far from the exact one
        if want is not None:
            ctx.equal(got[0], want, f"points for intensity {lam!r} on area {reg.area!r}")
        ctx.equal(got[1], reps if args else 1, "replications")
        ctx.close(got[2], lam, "intensity", rtol=0)
    elif form == "nothing":
        got = ctx.call("defaults", parse, hull)
        ctx.equal(got[:2], (100, 1), "(points, replications)")
        ctx.close(got[2], 100 / reg.area, "implied intensity")
    else:
        size = {"both": (m, reps), "triple": (m, reps, 2), "float": m + 0.5, "text": str(m)}[form]
        ctx.refused(f"size {size!r}", (ValueError,), parse, hull, size=size, **({"intensity": lam} if form == "both" else {}))


shape_case = st.fixed_dictionaries({"hull": S.any_hull(kinds=("bbox", "polygon", "convexhull", "points")), "m": st.integers(3, 12), "reps": st.integers(1, 3), "seed": G.small_seed,
                                    "sim": st.sampled_from(["poisson", "cluster_poisson", "strauss", "normal", "cluster_normal"]),
                                    "form": st.sampled_from(["int", "pair", "intensity", "intensity and reps", "nothing", "both"])})


@check("through", shape_case, quick=600)
def through(c, ctx):
    """The simulators' arrays have the sizes requested."""
    hull, _ = G.make_hull(c["hull"])
    reg = S.outer(c["hull"])
    form, m, reps = c["form"], c["m"], c["reps"]
    if c["sim"] in ("normal", "cluster_normal") and (form.startswith("int") and form != "int" or form == "both"):
        form = "pair"
    f = getattr(R, c["sim"])
    extra = {"n_iter": 10, "gamma": 1.0} if c["sim"] == "strauss" else {}
    ctx.label(c["sim"], form)
    ctx.interesting(form.startswith("intensity") or reps > 1)
    kw, n, k = {"int": ({"size": m}, m, 1), "pair": ({"size": (m, reps)}, m, reps),
                "intensity": ({"intensity": m / reg.area}, m, 1),
                "intensity and reps": ({"intensity": m / reg.area, "size": reps}, m, reps),
                "nothing": ({}, 100, 1), "both": ({"size": (m, reps), "intensity": m / reg.area}, None, None)}[form]
    if n is None:
        ctx.refused("an intensity and a pair", (ValueError,), f, hull, rng=c["seed"], **kw, **extra)
        return
    got = ctx.call(c["sim"], f, hull, rng=c["seed"], **kw, **extra)
    ctx.equal(np.shape(got), (n, 2) if k == 1 else (k, n, 2), f"shape of {c['sim']} with {kw}")
