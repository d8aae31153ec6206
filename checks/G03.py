"""Cases: 2 to 14 events as for G01, 1 to 60 permutations: local statistics and hypergeometric p-values
against all pairs; local pseudo p-values recounted from the kept permutation counts; the counts
within the attainable range, and over 400 permutations distributed hypergeometrically (binomial
tail 1e-9) for every event. Non-trivial: an event with a space-time neighbour whose permuted counts
vary."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pbt import gens as G
from pbt import knox as K
from pbt.core import check
from pointpats import Knox, KnoxLocal

case = st.tuples(K.events(2, 14, large=40, huge=120), st.integers(1, 60), G.small_seed, st.booleans()).map(lambda t: {**t[0], "permutations": t[1], "seed": t[2], "keep": t[3]})


def margins(c):
    S, T = K.close(c)
    return S.sum(axis=1), T.sum(axis=1), (S & T).sum(axis=1)


@check("statistics", case, quick=700)
def statistics(c, ctx):
    s, t = K.arrays(c)
    ns, nt, nst = margins(c)
    n, P = len(s), c["permutations"]

    def run(keep):
        np.random.seed(c["seed"])
        return ctx.call("KnoxLocal", KnoxLocal, s, t, c["delta"], c["tau"], permutations=P, keep=keep)

    r = run(True)
    ctx.equal(r.nsti, nst, "local statistics")
    ctx.equal(r.statistic_, nst, "statistic_")
    ctx.equal(int(np.sum(r.nsti)), 2 * r.nst, "sum of the local statistics")
    want = stats.hypergeom.sf(nst[:, None] - 1, n - 1, np.asarray(nt)[None, :], np.asarray(ns)[:, None]).mean(axis=1)
    ctx.close(r.p_hypergeom, want, "hypergeometric p-values", rtol=1e-9, atol=1e-12)
    sims = np.asarray(r.sims)
    ctx.equal(sims.shape, (n, P), "kept local permutation counts")
    ctx.close(r.p_sims, ((sims >= nst[:, None]).sum(axis=1) + 1) / (P + 1), "local pseudo p-values", rtol=1e-12)
    lo, hi = np.maximum(0, ns + nt - (n - 1)), np.minimum(ns, nt)
    bad = (sims < lo[:, None]) | (sims > hi[:, None]) | (sims != np.round(sims))
    ctx.ok(not bad.any(), lambda: f"permuted counts {sims[bad.any(axis=1)][0].tolist()} of an event with attainable {lo[bad.any(axis=1)][0]} to {hi[bad.any(axis=1)][0]}")
    ctx.interesting(bool(((nst > 0) & (hi > lo)).any()))
    # the global part
    np.random.seed(c["seed"])
    g = ctx.call("Knox", Knox, s, t, c["delta"], c["tau"], permutations=P, keep=True)
    ctx.equal(r.nst, g.nst, "global statistic")
    ctx.equal(r.p_sim, ((np.asarray(r.sim) >= r.nst).sum() + 1) / (P + 1), "global pseudo p-value of the kept statistics")
    ctx.equal(r.p_poisson, g.p_poisson, "global Poisson p-value")
    ctx.equal(r.observed, g.observed, "global observed table")
    ctx.equal(r.expected, g.expected, "global expected table")
    again = run(c["keep"])
    ctx.equal(again.p_sims, r.p_sims, "local pseudo p-values for the same seed")
    ctx.ok(hasattr(again, "sims") == c["keep"], f"local permuted counts kept: {hasattr(again, 'sims')}, asked for: {c['keep']}")


few = st.tuples(K.events(3, 10), G.small_seed).map(lambda t: {**t[0], "seed": t[1]})


@check("distribution", few, quick=130)
def distribution(c, ctx):
    s, t = K.arrays(c)
    ns, nt, nst = margins(c)
    n, P = len(s), 400
    np.random.seed(c["seed"])
    sims = np.asarray(ctx.call("KnoxLocal", KnoxLocal, s, t, c["delta"], c["tau"], permutations=P, keep=True).sims)
    for i in range(n):
        h = stats.hypergeom(n - 1, nt[i], ns[i])
        ctx.interesting(h.var() > 0)
        for v in range(min(ns[i], nt[i]) + 1):
            p, k = float(h.pmf(v)), int((sims[i] == v).sum())
            ctx.ok(min(stats.binom.sf(k - 1, P, p), stats.binom.cdf(k, P, p)) > 1e-10, f"event {i}: {k} of {P} permuted counts are {v}, with probability {p:.4f}")
