"""Cases: 2 to 12 events, 1 to 99 permutations, kept or not: p-value from the kept statistics, their
range and mean; for up to 6 events the frequencies of each value over 400 permutations against the
enumeration of all assignments of times to events (binomial tail 1e-9), also for the deprecated
function's p-value; equal seeds give equal results and zero permutations none. Non-trivial: the
permuted statistic takes several values."""
import itertools
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pbt import gens as G
from pbt import knox as K
from pbt.core import check
from pointpats import Knox, KnoxLocal
from pointpats import spacetime as sp


def attainable(c):
    """{value: probability} of the permuted statistic, by enumeration"""
    S, T = K.close(c)
    n = len(S)
    out = {}
    for p in itertools.permutations(range(n)):
        v = int((S & T[np.ix_(p, p)]).sum() // 2)
        out[v] = out.get(v, 0) + 1
    return {v: k / math.factorial(n) for v, k in out.items()}


def old_knox(*args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sp.knox(*args, **kw)


case = st.tuples(K.events(2, 12, large=40, huge=150), st.one_of(st.integers(1, 99), st.integers(1, 99), st.integers(100, 400)), G.small_seed, st.sampled_from(["Knox", "KnoxLocal"]), st.booleans()).map(lambda t: {**t[0], "permutations": t[1], "seed": t[2], "cls": t[3], "keep": t[4]})


@check("pvalue", case, quick=700)
def pvalue(c, ctx):
    s, t = K.arrays(c)
    w = K.counts(c)
    n, P = w["n"], c["permutations"]
    cls = {"Knox": Knox, "KnoxLocal": KnoxLocal}[c["cls"]]
    what = c["cls"]

    def run(keep):
        np.random.seed(c["seed"])
        return ctx.call(what, cls, s, t, c["delta"], c["tau"], permutations=P, keep=keep)

    r = run(True)
    sim = np.asarray(r.sim)
    ctx.equal(sim.shape, (P,), f"{what}: permuted statistics")
    ctx.equal(r.p_sim, ((sim >= w["nst"]).sum() + 1) / (P + 1), f"{what}: pseudo p-value of observed {w['nst']} and permuted {sim.tolist()}")
    ctx.ok((sim == np.round(sim)).all() and sim.min() >= 0 and sim.max() <= min(w["ns"], w["nt"]), f"{what}: permuted statistics {sim.tolist()} with {w['ns']} and {w['nt']} pairs")
    ctx.ok(sim.min() >= w["ns"] + w["nt"] - w["pairs"], f"{what}: permuted statistics {sim.tolist()} with {w['ns']} and {w['nt']} of {w['pairs']} pairs")
    if w["ns"] in (0, w["pairs"]) or w["nt"] in (0, w["pairs"]):
        ctx.label("constant")
        ctx.ok((sim == w["nst"]).all() and r.p_sim == 1, f"{what}: permuted statistics {sim.tolist()} cannot vary")
    ctx.interesting(len(set(sim.tolist())) > 1)
    again = run(c["keep"])
    ctx.equal(again.p_sim, r.p_sim, f"{what}: pseudo p-value for the same seed")
    ctx.equal(again.nst, r.nst, f"{what}: statistic for the same seed")
    if c["keep"]:
        ctx.equal(again.sim, r.sim, f"{what}: permuted statistics for the same seed")
    else:
        ctx.ok(not hasattr(again, "sim"), f"{what}: permuted statistics kept without being asked for")
    np.random.seed(c["seed"])
    a = ctx.call("knox", old_knox, s, t, c["delta"], c["tau"], permutations=P)
    np.random.seed(c["seed"])
    b = ctx.call("knox", old_knox, s, t, c["delta"], c["tau"], permutations=P)
    p = float(np.ravel(a["pvalue"])[0])
    ctx.ok(abs(p * (P + 1) - round(p * (P + 1))) < 1e-9 and 1 / (P + 1) - 1e-12 <= p <= (P / 2 + 1) / (P + 1) + 1e-12, f"knox(): pseudo p-value {p!r} of {P} permutations")
    ctx.equal(float(np.ravel(b["pvalue"])[0]), p, "knox(): pseudo p-value for the same seed")


few = st.tuples(K.events(3, 6), G.small_seed).map(lambda t: {**t[0], "seed": t[1]})


@check("distribution", few, quick=260)
def distribution(c, ctx):
    s, t = K.arrays(c)
    w = K.counts(c)
    prob = attainable(c)
    P = 400
    ctx.label(f"{len(prob)} values")
    ctx.interesting(len(prob) > 1)
    for what, cls in (("Knox", Knox), ("KnoxLocal", KnoxLocal)):
        if what == "KnoxLocal" and c["seed"] % 4:
            continue
        np.random.seed(c["seed"])
        sim = np.asarray(ctx.call(what, cls, s, t, c["delta"], c["tau"], permutations=P, keep=True).sim)
        ctx.ok(set(sim.tolist()) <= set(prob), f"{what}: permuted statistics {sorted(set(sim.tolist()))}, attainable are {sorted(prob)}")
        for v, p in prob.items():
            k = int((sim == v).sum())
            ctx.ok(min(stats.binom.sf(k - 1, P, p), stats.binom.cdf(k, P, p)) > 1e-9, f"{what}: {k} of {P} permuted statistics are {v}, with probability {p:.4f}")
    # the deprecated function reports the smaller tail
    np.random.seed(c["seed"])
    got = float(np.ravel(ctx.call("knox", old_knox, s, t, c["delta"], c["tau"], permutations=P)["pvalue"])[0])
    up = sum(p for v, p in prob.items() if v >= w["nst"])
    k = round(got * (P + 1)) - 1
    tail = min(up, 1 - up)
    lo, hi = stats.binom.ppf(1e-10, P, tail), stats.binom.isf(1e-10, P, tail)
    if tail < 1e-12:
        lo = hi = 0
    ctx.ok(lo <= k <= hi or (abs(up - 0.5) < 0.2 and k <= P / 2 and k >= lo), f"knox(): pseudo p-value {got!r}, the smaller tail has probability {tail:.4f}")


wide = st.tuples(K.events(7, 16), G.small_seed).map(lambda t: {**t[0], "seed": t[1]})


@check("mean", wide, quick=150)
def mean(c, ctx):
    """More events than can be enumerated: mean and variance of the permuted statistic."""
    s, t = K.arrays(c)
    w = K.counts(c)
    P = 300
    np.random.seed(c["seed"])
    sim = np.asarray(ctx.call("Knox", Knox, s, t, c["delta"], c["tau"], permutations=P, keep=True).sim)
    S, T = K.close(c)
    rng = np.random.default_rng(c["seed"])
    ref = np.empty(1500)
    for i in range(len(ref)):
        p = rng.permutation(len(S))
        ref[i] = (S & T[np.ix_(p, p)]).sum() / 2
    ctx.interesting(ref.var() > 0)
    e = w["expected"][0, 0]
    se = np.sqrt(ref.var() / P) + 12 / P
    ctx.ok(abs(sim.mean() - e) < 7 * se, f"mean of the permuted statistics {sim.mean()!r}, expected {e!r}")
    if ref.var() > 0.5:
        ctx.ok(ref.var() / 3 < sim.var() < ref.var() * 3, f"variance of the permuted statistics {sim.var()!r}, of random assignments {ref.var()!r}")


@check("none", K.events(2, 8), quick=100)
def none(c, ctx):
    s, t = K.arrays(c)
    w = K.counts(c)
    ctx.interesting(w["nst"] > 0)
    state = np.random.get_state()[1].copy()
    for cls in (Knox, KnoxLocal):
        for keep in (True, False):
            r = ctx.call(cls.__name__, cls, s, t, c["delta"], c["tau"], permutations=0, keep=keep)
            ctx.ok(not any(hasattr(r, x) for x in ("p_sim", "sim", "p_sims", "sims")), f"{cls.__name__}: permutation results without permutations")
    r = ctx.call("knox", old_knox, s, t, c["delta"], c["tau"], permutations=0)
    ctx.ok("pvalue" not in r, "knox(): p-value without permutations")
    ctx.equal(np.random.get_state()[1], state, "random state after runs without permutations")
