"""Cases: 2 to 16 events with coincident locations, lattices and collinear sets, integer, negative and
fractional times with ties, thresholds exactly at distances that occur, between them, zero, and
beyond all. Counts, both tables and the analytical p-value of Knox and KnoxLocal and the count
of the deprecated function against all pairs. Non-trivial: pairs lie exactly at a threshold and all
four cells of the table are occupied, or some margin is empty."""
import warnings

import numpy as np
from scipy import stats

from pbt import knox as K
from pbt.core import check
from pointpats import Knox, KnoxLocal
from pointpats import spacetime as sp


@check("tables", K.events(large=60, huge=250), quick=2200)
def tables(c, ctx):
    s, t = K.arrays(c)
    w = K.counts(c)
    S, T = K.close(c)
    d = np.hypot(*(s[:, None, :] - s[None, :, :]).transpose(2, 0, 1))[np.triu_indices(len(s), 1)]
    at = bool((d == c["delta"]).any()) or bool((np.abs(t[:, 0][:, None].astype(float) - t[:, 0][None, :])[np.triu_indices(len(s), 1)] == c["tau"]).any())
    cells = (w["observed"] > 0).all()
    ctx.label("at a threshold" if at else "clear", "all cells" if cells else "no neighbours" if w["nst"] == 0 else "empty cells", c["times"])
    ctx.interesting(at or not cells)
    for what, cls in (("Knox", Knox), ("KnoxLocal", KnoxLocal)):
        if cls is KnoxLocal and len(s) > 120:
            continue  # takes seconds
        r = ctx.call(what, cls, s, t, c["delta"], c["tau"], permutations=0)
        ctx.equal(r.nst, int(w["nst"]), f"{what}: number of space-time pairs")
        ctx.close(r.observed, w["observed"], f"{what}: observed table")
        ctx.close(r.expected, w["expected"], f"{what}: expected table", rtol=1e-12, atol=1e-9)
        ctx.close(r.p_poisson, stats.poisson.sf(w["nst"], w["expected"][0, 0]), f"{what}: Poisson p-value", rtol=1e-9, atol=1e-12)
        ctx.ok((not hasattr(r, "p_sim")) and not hasattr(r, "sim"), f"{what}: permutation results without permutations")
        ctx.close(np.sum(r.observed), w["pairs"], f"{what}: pairs in the observed table")
        ctx.ok(np.array_equal(r.s_coords, s) and np.array_equal(r.t_coords, t), f"{what}: s_coords and t_coords are not the events given")
        ctx.equal((r.delta, r.tau, r.permutations, bool(r.keep)), (c["delta"], c["tau"], 0, False), f"{what}: thresholds and options kept")
    ctx.equal(Knox(s, t, c["delta"], c["tau"], permutations=0).statistic_, int(w["nst"]), "Knox: statistic_")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old = ctx.call("knox", sp.knox, s, t, c["delta"], c["tau"], permutations=0)
    ctx.equal(int(old["stat"]), int(w["nst"]), "knox(): number of space-time pairs")


@check("types", K.events(3, 10), quick=250)
def types(c, ctx):
    """Thresholds and coordinates of other numeric types; lists of points."""
    s, t = K.arrays(c)
    w = K.counts(c)
    ctx.interesting(w["nst"] > 0)
    for conv in (np.float64, lambda v: np.array(v).item()):
        r = ctx.call("Knox", Knox, np.asfortranarray(s), t.astype(float), conv(c["delta"]), conv(c["tau"]), permutations=0)
        ctx.equal(r.nst, int(w["nst"]), "number of space-time pairs")
    if (s == np.round(s)).all() and np.abs(s).max() < 2**31:
        r = ctx.call("Knox", Knox, s.astype(int), t, c["delta"], c["tau"], permutations=0)
        ctx.equal(r.nst, int(w["nst"]), "number of space-time pairs of integer coordinates")
