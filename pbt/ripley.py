"""Generated arguments of the distance functions, and their values by exhaustive computation."""
import numpy as np
from hypothesis import strategies as st

from . import gens as G
from . import oracle as O

# names both scikit-learn's trees and scipy's pdist know
METRICS = ("euclidean", "euclidean", "cityblock", "chebyshev", "canberra")


def argument(metric):
    """What to pass as `metric`: names starting with "own" stand for a function."""
    if not metric.startswith("own "):
        return metric
    if metric == "own cityblock":
        return lambda p, q: float(np.abs(np.asarray(p) - np.asarray(q)).sum())
    return lambda p, q: float(np.abs(np.asarray(p) - np.asarray(q)).max())


def distances(a, b, metric):
    metric = metric.removeprefix("own ")
    d = a[:, None, :] - b[None, :, :]
    if metric in ("euclidean", "l2", "minkowski"):
        return np.hypot(d[..., 0], d[..., 1])
    if metric in ("cityblock", "manhattan", "l1"):
        return np.abs(d).sum(axis=-1)
    if metric in ("chebyshev", "infinity"):
        return np.abs(d).max(axis=-1)
    if metric == "canberra":
        s = np.abs(a[:, None, :]) + np.abs(b[None, :, :])
        return np.where(s == 0, 0, np.abs(d) / np.where(s == 0, 1, s)).sum(axis=-1)
    raise ValueError(metric)


def nearest(a, metric="euclidean"):
    D = distances(a, a, metric)
    np.fill_diagonal(D, np.inf)
    return D.min(axis=1)


# a range in shares of the extent
support = st.one_of(
    st.none(),
    st.integers(1, 30).map(lambda k: {"int": k}),
    st.integers(1, 24).map(lambda k: {"stop": k / 16}),
    st.tuples(st.integers(0, 8), st.integers(1, 16)).map(lambda t: {"start": t[0] / 16, "stop": (t[0] + t[1]) / 16}),
    st.tuples(st.integers(0, 8), st.integers(1, 16), st.integers(2, 30)).map(lambda t: {"start": t[0] / 16, "stop": (t[0] + t[1]) / 16, "num": t[2]}),
    st.tuples(st.lists(st.integers(0, 48), min_size=2, max_size=12, unique=True), st.sampled_from(["array", "list"])).map(lambda t: {"values": sorted(v / 32 for v in t[0]), "as": t[1]}),
)


def make_support(spec, scale, max_nnd):
    """(argument, the distances it stands for)"""
    if spec is None:
        return None, np.linspace(0, max_nnd, 20)
    if "int" in spec:
        return spec["int"], np.linspace(0, max_nnd, spec["int"])
    if "values" in spec:
        v = np.array(spec["values"]) * scale
        return (v if spec["as"] == "array" else v.tolist()), v
    lo, hi = spec.get("start", 0.0) * scale, spec["stop"] * scale
    if "num" in spec:
        return (lo, hi, spec["num"]), np.linspace(lo, hi, spec["num"])
    if "start" in spec:
        return (lo, hi), np.linspace(lo, hi, 20)
    return (hi,), np.linspace(0, hi, 20)


def form_of(spec):
    return "default" if spec is None else "+".join(sorted(set(spec) - {"as"})) + spec.get("as", "")


def share_between(ctx, support_values, got, d, what, eps):
    """got[i] is the share of d below support[i]; those equal to it may count either way."""
    d = np.asarray(d, float).ravel()
    s = np.asarray(support_values, float)
    got = np.asarray(got, float)
    ctx.ok(got.shape == s.shape, lambda: f"{what}: {got.shape} values for {s.shape} distances")
    lo = (d[None, :] < s[:, None] - eps).mean(axis=1)
    hi = (d[None, :] <= s[:, None] + eps).mean(axis=1)
    bad = ~((got >= lo - 1e-12) & (got <= hi + 1e-12))
    ctx.ok(not bad.any(), lambda: f"{what} at {s[bad][0]!r} is {got[bad][0]!r}, between {lo[bad][0]!r} and {hi[bad][0]!r} of the {len(d)} distances are below")
    ctx.ok((np.diff(got) >= -1e-12).all(), f"{what} decreases: {got.tolist()}")
    # whole numbers of the distances
    k = got * len(d)
    ctx.ok((np.abs(k - np.round(k)) < 1e-6).all(), f"{what}: {got.tolist()} are no shares of {len(d)}")
    return bool((hi > lo).any())


def slack(a):
    span = float((a.max(axis=0) - a.min(axis=0)).max())
    return 1e-9 * span + 1e-12 * float(np.abs(a).max())
