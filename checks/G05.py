"""Cases: 3 to 14 events with coincident locations, ties and integer or fractional times, constants
and powers of several signs, k from 1 to n-1, times as a column or with the column of ones that
SpaceTimeEvents.time has. The statistics are compared with exhaustive computation (ties among the
nearest neighbours give bounds), p-values for up to 6 events with the enumeration of all
assignments of times to events (binomial tail 1e-9 over 400 permutations), and checked for form,
reproducibility and unchanged input for all. Non-trivial: the statistic differs between
assignments, or links are not all or none."""
import itertools
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pbt import gens as G
from pbt import knox as K
from pbt.core import check
from pointpats import spacetime as sp

TESTS = ("knox", "modified_knox", "mantel", "jacquez")


def enrich(lo, hi, large=0, huge=0):
    @st.composite
    def build(draw):
        c = draw(K.events(lo, hi, large=large, huge=huge))
        c["test"] = draw(st.sampled_from(TESTS))
        c["scon"], c["tcon"] = draw(st.sampled_from([1.0, 0.5, 2.0, 1])), draw(st.sampled_from([1.0, 0.25, 3.0, 1]))
        c["spow"], c["tpow"] = draw(st.sampled_from([-1.0, 1.0, -2.0, 0.5])), draw(st.sampled_from([-1.0, 1.0, 2.0, -0.5]))
        c["plain"] = draw(st.booleans())
        c["k"] = draw(st.integers(1, max(1, min(8, len(c["pts"]) - 1))))
        c["permutations"] = draw(st.sampled_from([0, 1, 9, 19, 99]))
        c["time"] = draw(st.sampled_from(["column", "column", "ones"]))
        c["seed"] = draw(G.small_seed)
        if c["test"] == "jacquez" and c["times"] != "negative" and draw(st.booleans()):
            # all pairs of events differ by different times, so that nearest ones are well defined
            r = np.random.default_rng(c["seed"])
            c["t"], c["times"] = (r.integers(0, 2**40, len(c["t"])) / 2.0**20).tolist(), "half"
            if draw(st.booleans()):
                c["pts"] = (r.integers(0, 2**20, (len(c["t"]), 2)) / 2.0**10).tolist()
        return c

    return build()


def call(ctx, c, s, t, permutations):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        test = c["test"]
        if test in ("knox", "modified_knox"):
            return ctx.call(test, getattr(sp, test), s, t, c["delta"], c["tau"], permutations=permutations)
        if test == "mantel":
            kw = {} if c["plain"] else {k: c[k] for k in ("scon", "spow", "tcon", "tpow")}
            return ctx.call("mantel", sp.mantel, s, t, permutations=permutations, **kw)
        return ctx.call("jacquez", sp.jacquez, s, t, c["k"], permutations=permutations)


def coords(c):
    s, t = K.arrays(c)
    if c["time"] == "ones" and c["test"] != "knox":  # (n, 2), as SpaceTimeEvents.time
        t = np.hstack([t, np.ones_like(t)])
    return s, t


def neighbours(D, k):
    """(surely, possibly) among the k nearest of each event"""
    n = len(D)
    sure, poss = np.zeros((n, n), bool), np.zeros((n, n), bool)
    for i in range(n):
        d = D[i].copy()
        d[i] = np.inf
        kth = np.sort(d)[k - 1]
        poss[i] = d <= kth
        sure[i] = d < kth
        if poss[i].sum() == k:
            sure[i] = poss[i]
    return sure, poss


def statistic(c, p=None):
    """Lowest and highest value for times assigned by p."""
    s, t = K.arrays(c)
    t = t[:, 0].astype(float)
    n = len(s)
    p = np.arange(n) if p is None else np.asarray(p)
    t = t[p]
    d = s[:, None, :] - s[None, :, :]
    DS, DT = np.hypot(d[..., 0], d[..., 1]), np.abs(t[:, None] - t[None, :])
    if c["test"] in ("knox", "modified_knox"):
        S, T = K.close(c)
        T = T[np.ix_(p, p)]
        if c["test"] == "knox":
            v = (S & T).sum() / 2
        else:
            v = ((S & T).sum() - (S.sum(axis=1) * T.sum(axis=1)).sum() / (n - 1)) / 2
        return v, v
    if c["test"] == "mantel":
        sc, tc, sw, tw = (1, 1, -1, -1) if c["plain"] else (c["scon"], c["tcon"], c["spow"], c["tpow"])
        iu = np.triu_indices(n, 1)
        x, y = (DS[iu] + sc) ** float(sw), (DT[iu] + tc) ** float(tw)
        if np.ptp(x) < 1e-9 or np.ptp(y) < 1e-9:
            return None
        x, y = x - x.mean(), y - y.mean()
        v = float((x * y).sum() / math.sqrt((x * x).sum() * (y * y).sum()))
        return v, v
    ss, sps = neighbours(DS, c["k"])
    ts, tps = neighbours(DT, c["k"])
    lo = (ss & ts).sum()
    hi = np.minimum((sps & tps).sum(axis=1), c["k"]).sum()
    return int(lo), int(hi)


@check("statistics", enrich(3, 14, large=30, huge=160), quick=1500)
def statistics(c, ctx):
    s, t = coords(c)
    want = statistic(c)
    ctx.label(c["test"], c["time"])
    if want is None:
        return  # a correlation with a constant
    s0, t0 = s.copy(), t.copy()
    r = call(ctx, c, s, t, 0)
    v = r["stat"] if isinstance(r, dict) else r
    v = float(np.ravel(v)[0])
    tol = 0 if c["test"] == "knox" else 1e-9
    ctx.ok(want[0] - tol <= v <= want[1] + tol, f"{c['test']} is {v!r}, expected {want[0]!r}" + (f" to {want[1]!r}" if want[1] != want[0] else ""))
    ctx.interesting(want[0] == want[1] and v != 0)
    P = c["permutations"]
    if P:
        np.random.seed(c["seed"])
        a = call(ctx, c, s, t, P)
        np.random.seed(c["seed"])
        b = call(ctx, c, s, t, P)
        ctx.ok(set(a) == {"stat", "pvalue"}, f"{c['test']}: result {a!r}")
        ctx.close(float(np.ravel(a["stat"])[0]), v, f"{c['test']}: statistic with permutations", rtol=1e-12)
        p = float(np.ravel(a["pvalue"])[0])
        ctx.ok(abs(p * (P + 1) - round(p * (P + 1))) < 1e-9 and 1 / (P + 1) - 1e-12 <= p <= 1, f"{c['test']}: pseudo p-value {p!r} of {P} permutations")
        ctx.equal(float(np.ravel(b["pvalue"])[0]), p, f"{c['test']}: pseudo p-value for the same seed")
    ctx.equal(s, s0, f"{c['test']}: locations after the call")
    ctx.equal(t, t0, f"{c['test']}: times after the call")


@check("pvalues", enrich(3, 6), quick=320)
def pvalues(c, ctx):
    s, t = coords(c)
    obs = statistic(c)
    if obs is None or obs[0] != obs[1]:
        return
    n, P = len(s), 400
    at_least = above = 0
    values = set()
    for p in itertools.permutations(range(n)):
        lo, hi = statistic(c, p)
        values.add(round(lo, 9))
        at_least += hi >= obs[0] - 1e-9
        above += lo > obs[0] + 1e-9
    up, over = at_least / math.factorial(n), above / math.factorial(n)
    # correlations and differences equal to the observed one may come out lower by rounding
    if c["test"] == "knox":
        over = up
    elif c["test"] == "jacquez":  # whole numbers; only ties leave room
        over = sum(statistic(c, p)[0] >= obs[0] for p in itertools.permutations(range(n))) / math.factorial(n)
    np.random.seed(c["seed"])
    r = call(ctx, c, s, t, P)
    p = float(np.ravel(r["pvalue"])[0])
    k = round(p * (P + 1)) - 1
    ctx.label(c["test"])
    ctx.interesting(len(values) > 1)
    if c["test"] == "knox":  # the smaller tail
        if up > 0.5:
            if up < 0.65:
                return
            k = P - k
        elif up > 0.35:
            return
    ctx.ok(stats.binom.cdf(k, P, over) > 1e-9 and stats.binom.sf(k - 1, P, up) > 1e-9, f"{c['test']}: pseudo p-value {p!r} ({k} of {P} at least as large), the share of assignments at least as large is {over:.4f} to {up:.4f}")
