"""Cases: point patterns with ties, coincident and collinear points and a number of
neighbours, a second set of query points, or a radius; compared with the full distance
matrix. Ties may be broken either way, so distances are compared as sorted values and
indices by the distance they name. Non-trivial: coincident points, tied distances or k > 1."""
import numpy as np
from hypothesis import strategies as st

import pointpats
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check


def verify_neighbors(ctx, what, ids, dist, D, k, exclude_self):
    """ids, dist (m, k) against the distance matrix D (m, n)."""
    m, n = D.shape
    ids, dist = np.asarray(ids), np.asarray(dist, float)
    ctx.ok(ids.size == m * k and dist.size == m * k, f"{what}: {ids.shape} ids, {dist.shape} distances for {m} points and k={k}")
    ids, dist = ids.reshape(m, k), dist.reshape(m, k)
    ctx.ok(np.issubdtype(ids.dtype, np.integer) and ids.min() >= 0 and ids.max() < n, f"{what}: ids {ids.tolist()} outside 0..{n - 1}")
    W = D.copy()
    if exclude_self:
        np.fill_diagonal(W, np.inf)
    want = np.sort(W, axis=1)[:, :k]
    ctx.close(dist, want, f"{what}: distances", rtol=1e-9, atol=1e-12 * max(D.max(), 1e-300))
    for i in range(m):
        ctx.ok(len(set(ids[i])) == k, f"{what}: row {i} repeats an id: {ids[i].tolist()}")
        if exclude_self:
            ctx.ok(i not in ids[i], f"{what}: point {i} is listed as its own neighbour")
        ctx.close(W[i, ids[i]], dist[i], f"{what}: distance to the ids {ids[i].tolist()} of row {i}", rtol=1e-9, atol=1e-12 * max(D.max(), 1e-300))


@st.composite
def knn_case(draw):
    pts = draw(G.points(3, 16, large=70, huge=400))
    return {"pts": pts, "k": draw(st.integers(1, len(pts) - 1)), "first": draw(st.booleans())}


@check("knn", knn_case(), quick=1500)
def knn(c, ctx):
    a = G.arr(c["pts"])
    D = O.dmat(a)
    k = c["k"]
    off = D[~np.eye(len(a), dtype=bool)]
    ctx.interesting(k > 1 or (off == 0).any())
    if (off == 0).any():
        ctx.label("coincident")
    ctx.label(f"k={min(k, 5)}")
    pp = ctx.call("building", pointpats.PointPattern, a)
    if c["first"]:
        ctx.call("mean_nnd", lambda: pp.mean_nnd)
    ids, dist = ctx.call(f"knn({k})", pp.knn, k)
    ctx.ok(np.shape(ids) == (len(a), k) and np.shape(dist) == (len(a), k), f"knn({k}): shapes {np.shape(ids)}, {np.shape(dist)}")
    verify_neighbors(ctx, f"knn({k})", ids, dist, D, k, True)
    ids, dist = ctx.call("knn()", pp.knn)
    verify_neighbors(ctx, "knn()", ids, dist, D, 1, True)
    nn = O.nn_dist(a)
    ctx.close(np.asarray(pp.nnd).ravel(), nn, "nnd")
    ctx.close(pp.min_nnd, nn.min(), "min_nnd")
    ctx.close(pp.max_nnd, nn.max(), "max_nnd")
    ctx.close(pp.mean_nnd, nn.mean(), "mean_nnd")


@st.composite
def other_case(draw):
    place = draw(G.place)
    pts = G.put(G.spread(draw(G.raw_points(3, 14, large=60, huge=300))), place)
    oth = draw(G.raw_points(2, 8))
    shared = draw(st.lists(st.integers(0, len(pts) - 1), max_size=3))
    other = G.put(oth, place) + [pts[i] for i in shared]
    return {"pts": pts, "other": G.spread(other), "k": draw(st.integers(1, len(pts))), "form": draw(st.sampled_from(["pattern", "list"]))}


@check("knn_other", other_case(), quick=900)
def knn_other(c, ctx):
    a, b, k = G.arr(c["pts"]), G.arr(c["other"]), c["k"]
    D = O.dmat(b, a)
    ctx.interesting(k > 1 or (D == 0).any())
    ctx.label(c["form"])
    pp = ctx.call("building", pointpats.PointPattern, a)
    oth = pointpats.PointPattern(b) if c["form"] == "pattern" else [list(r) for r in b]
    ids, dist = ctx.call("knn_other", pp.knn_other, oth, k)
    verify_neighbors(ctx, f"knn_other(k={k})", ids, dist, D, k, False)
    ids, dist = ctx.call("knn_other", pp.knn_other, oth)
    verify_neighbors(ctx, "knn_other()", ids, dist, D, 1, False)


@st.composite
def pairs_case(draw):
    pts = draw(G.exact_points(2, 14, flat_ok=False, large=40, huge=150))
    i, j = draw(st.tuples(st.integers(0, len(pts) - 1), st.integers(0, len(pts) - 1)))
    return {"pts": pts, "i": i, "j": j, "mode": draw(st.sampled_from(["exact", "below", "above", "axis"])), "f": draw(st.integers(0, 16))}


@check("find_pairs", pairs_case(), quick=900)
def find_pairs(c, ctx):
    a = G.arr(c["pts"])
    D = O.dmat(a)
    base = D[c["i"], c["j"]]
    if c["mode"] == "axis":  # an exact coordinate difference: pairs exactly on the radius
        r = float(abs(a[c["i"], 0] - a[c["j"], 0]))
    else:
        r = {"exact": base * c["f"] / 8.0, "below": base * (1 - 1e-6), "above": base * (1 + 1e-6)}[c["mode"]]
    pp = ctx.call("building", pointpats.PointPattern, a)
    got = ctx.call(f"find_pairs({r!r})", pp.find_pairs, r)
    got_pairs = [tuple(sorted(map(int, p))) for p in got]
    ctx.ok(len(set(got_pairs)) == len(got_pairs), "a pair is reported twice")
    S = set(got_pairs)
    tol = 1e-12 * max(D.max(), 1e-300)
    # squared distances of dyadic coordinates are exact unless far from the origin
    d2 = ((a[:, None, :] - a[None, :, :]) ** 2).sum(axis=2)
    inside = 0
    for i in range(len(a)):
        for j in range(i + 1, len(a)):
            if c["mode"] == "axis":
                want = d2[i, j] <= r * r
                strict = True
            else:
                want = D[i, j] <= r
                strict = abs(D[i, j] - r) > tol
            inside += want
            if strict:
                ctx.ok(((i, j) in S) == bool(want), f"pair {(i, j)} at distance {D[i, j]!r}: within {r!r} is {bool(want)}, reported {(i, j) in S}")
    ctx.ok(all(0 <= i < j < len(a) for i, j in S), f"bad pairs {S}")
    ctx.interesting(0 < inside)


@check("refused", st.fixed_dictionaries({"pts": G.points(3, 8), "k": st.integers(-3, 0)}), quick=60)
def refused(c, ctx):
    """k below one is refused by both queries."""
    pp = pointpats.PointPattern(G.arr(c["pts"]))
    ctx.interesting()
    ctx.refused(f"knn({c['k']})", (ValueError,), pp.knn, c["k"])
    ctx.refused(f"knn_other(k={c['k']})", (ValueError,), pp.knn_other, pp, c["k"])
