"""Space-time events as JSON and exhaustive pair counts."""

import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from . import gens as G


@st.composite
def events(draw, min_size=2, max_size=16, times=("int", "int", "half", "float32", "negative"), large=0, huge=0):
    pts = draw(G.points(min_size, max_size, kinds=G.exact_kinds, places=G.near_place, flat_ok=True, large=large, huge=huge))
    n = len(pts)
    kind = draw(st.sampled_from(times))
    top = draw(st.sampled_from([3, 12, 40]))
    t = G.whole(draw, n, 0, top)
    if kind in ("half", "float32"):
        t = [x / 2 for x in t]
    if kind == "negative":
        t = [x - 7 for x in t]
    # thresholds at, between or beyond the distances that occur
    a = G.arr(pts)
    d2 = np.unique(((a[:, None] - a) ** 2).sum(axis=2)[np.triu_indices(n, 1)]).tolist()
    exact = [r for r, x in ((math.sqrt(x), x) for x in d2) if Fraction(r) ** 2 == x]  # not those that are so up to rounding
    between = [math.sqrt((x + y) / 2) for x, y in zip(d2, d2[1:]) if y - x > 1e-9 * y]
    some = [v or [1.0] for v in (exact, between, [0.0, d2[-1] + 10.0])][draw(st.integers(0, 2))]
    delta = some[draw(st.integers(0, len(some) - 1))]
    tau = draw(st.one_of(st.integers(0, 8).map(lambda k: k / 2), st.sampled_from([0.25, 100.0])))
    return {"pts": pts, "t": t, "times": kind, "delta": delta, "tau": tau}


def arrays(c):
    s = G.arr(c["pts"])
    kind = c["times"]
    t = np.array(c["t"], dtype={"int": int, "negative": int, "half": float, "float32": np.float32}[kind]).reshape(-1, 1)
    return s, t


def close(c):
    """Boolean matrices of spatial and temporal neighbours (no event is its own)."""
    s, t = arrays(c)
    d = s[:, None, :] - s[None, :, :]
    # differences of dyadic coordinates are exact
    S = np.hypot(d[..., 0], d[..., 1]) <= c["delta"]
    S |= (d ** 2).sum(axis=-1) <= c["delta"] ** 2
    t = t[:, 0].astype(float)
    T = np.abs(t[:, None] - t[None, :]) <= c["tau"]
    np.fill_diagonal(S, False)
    np.fill_diagonal(T, False)
    return S, T


def counts(c):
    S, T = close(c)
    n = len(S)
    ns, nt, nst = S.sum() / 2, T.sum() / 2, (S & T).sum() / 2
    pairs = n * (n - 1) / 2
    e = ns * nt / pairs
    return {"n": n, "pairs": pairs, "ns": ns, "nt": nt, "nst": nst, "observed": np.array([[nst, ns - nst], [nt - nst, pairs - ns - nt + nst]]),
            "expected": np.array([[e, ns - e], [nt - e, pairs - ns - nt + e]])}
