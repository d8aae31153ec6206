"""Cases: simulator calls on any kind of region, seeded by integer or generator, as single
calls and as histories of calls on two shared generators interleaved with seeded calls and with
use of the global random state. Outcomes are compared with the same calls in isolation.
Non-trivial: several replications, or a history that uses both generators or global state."""
import random as pyrandom

import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import sims as S
from pbt.core import check

QUICK = ("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss")


def run(c, rng):
    f, hull, kw, _, _ = S.arguments(c)
    try:
        return f(hull, rng=rng, **kw)
    except RuntimeError:
        if c["sim"] != "strauss":
            raise
        return np.zeros((0, 2))


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], pyrandom.getstate())


def quick_call(**kw):
    return S.call(QUICK, max_n=8, min_n=6, big=600, **kw)


@check("repeat", quick_call(), quick=700)
def repeat(c, ctx):
    ctx.label(c["sim"], c["hull"]["kind"])
    ctx.interesting(c["reps"] > 1)
    what = c["sim"]
    np.random.seed(1)
    before = state()
    a = ctx.call(what, run, c, c["seed"])
    ctx.ok(state() == before, f"{what} with a seed changed the global random state")
    np.random.seed(2)
    pyrandom.seed(2)
    b = ctx.call(what, run, c, c["seed"])
    ctx.equal(b, a, f"{what}: the same seed again, with other global random state")
    g = ctx.call(what, run, c, np.random.default_rng(c["seed"]))
    h = ctx.call(what, run, c, np.random.default_rng(c["seed"]))
    ctx.equal(g, h, f"{what}: generators in the same state")
    if len(a) == 0:
        return
    other = ctx.call(what, run, c, c["seed"] + 1)
    ctx.ok(len(other) == 0 or not np.array_equal(a, other), f"{what}: seeds {c['seed']} and {c['seed'] + 1} give the same points")
    if c["reps"] > 1:
        for i in range(c["reps"]):
            for j in range(i):
                ctx.ok(not np.array_equal(a[i], a[j]), f"{what}: replications {j} and {i} are the same")
    gen = np.random.default_rng(c["seed"])
    first = ctx.call(what, run, c, gen)
    second = ctx.call(what, run, c, gen)
    ctx.equal(first, g, f"{what}: first call on a generator")
    ctx.ok(len(second) == 0 or not np.array_equal(first, second), f"{what}: successive calls on a generator give the same points")


def shared(ctx, what, results):
    """No point is common to all the results, nor a displacement from the first point."""
    common = set.intersection(*[{tuple(p) for p in r} for r in results])
    ctx.ok(not common, f"{what}: {common} in each result")
    moves = [{tuple(np.round((p - r[0]) / np.abs(r).max(), 9)) for p in r[1:]} for r in results]
    common = set.intersection(*moves)
    ctx.ok(not common, f"{what}: the same displacement from the first point in each result: {common}")


@check("seeds", S.call(("poisson", "normal", "cluster_poisson", "cluster_normal"), max_n=8, min_n=6, max_reps=1), quick=200)
def seeds(c, ctx):
    """Four seeds, and a generator in four states, have nothing in common; a state restored gives the same."""
    ctx.label(c["sim"])
    ctx.interesting()
    what = c["sim"]
    shared(ctx, f"{what} with four seeds", [ctx.call(what, run, c, c["seed"] + k) for k in range(4)])
    results = []
    for k in range(4):
        gen = np.random.default_rng(c["seed"])
        gen.random(k)
        results.append(ctx.call(what, run, c, gen))
    shared(ctx, f"{what} with a generator after 0, 1, 2 and 3 draws", results)
    before = gen.bit_generator.state
    a = ctx.call(what, run, c, gen)
    gen.bit_generator.state = before
    ctx.equal(ctx.call(what, run, c, gen), a, f"{what} with the generator's state restored")


many = S.call(("poisson", "normal", "cluster_poisson", "cluster_normal"), max_n=8, min_n=6, max_reps=6, min_reps=4)


@check("replications", many, quick=250)
def replications(c, ctx):
    """No point, nor cluster centre, is common to all replications, nor is a cluster's shape."""
    a = ctx.call(c["sim"], run, c, c["seed"])
    ctx.label(c["sim"])
    ctx.interesting()
    shared(ctx, f"{c['sim']}, replications", a)
    for r in a:
        ctx.ok(len({tuple(p) for p in r}) == len(r), f"{c['sim']}: a point occurs twice")


step = st.one_of(
    st.tuples(st.just("gen"), st.integers(0, 1), quick_call(max_reps=2)),
    st.tuples(st.just("gen"), st.integers(0, 1), quick_call(max_reps=2)),
    st.tuples(st.just("seeded"), G.small_seed, quick_call(max_reps=2)),
    st.tuples(st.just("global"), st.integers(0, 99), st.none()),
).map(list)


@check("history", st.fixed_dictionaries({"seeds": st.tuples(G.small_seed, G.small_seed).map(list), "steps": st.lists(step, min_size=2, max_size=7)}), quick=200)
def history(c, ctx):
    gens = [np.random.default_rng([s, i]) for i, s in enumerate(c["seeds"])]
    results = []
    for kind, i, call in c["steps"]:
        if kind == "global":
            np.random.seed(i)
            np.random.random(3)
            pyrandom.random()
            results.append(None)
        else:
            before = state()
            results.append(ctx.call(call["sim"], run, call, gens[i] if kind == "gen" else i))
            ctx.ok(state() == before, f"{call['sim']} with a generator changed the global random state")
    used = {i for k, i, _ in c["steps"] if k == "gen"}
    ctx.interesting(len(used) > 1 or any(k == "global" for k, _, _ in c["steps"]))
    for g in used:  # the same calls on that generator, with nothing in between
        gen = np.random.default_rng([c["seeds"][g], g])
        for (kind, i, call), r in zip(c["steps"], results):
            if kind == "gen" and i == g:
                ctx.equal(run(call, gen), r, f"{call['sim']} in a history of calls on one generator")
    for (kind, i, call), r in zip(c["steps"], results):
        if kind == "seeded":
            ctx.equal(run(call, i), r, f"{call['sim']} with a seed, in a history")
