"""Brute-force reference computations, independent of the code under test."""
import numpy as np


def dmat(a, b=None):
    a = np.asarray(a, float)
    b = a if b is None else np.asarray(b, float)
    d = a[:, None, :] - b[None, :, :]
    return np.hypot(d[..., 0], d[..., 1])


def nn_dist(a):
    d = dmat(a)
    np.fill_diagonal(d, np.inf)
    return d.min(axis=1)


def shoelace(ring):
    r = np.asarray(ring, float)
    r = r - r[0]
    x, y = r[:, 0], r[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def convex_hull(a):
    """Andrew's monotone chain, counter-clockwise, on coordinates made relative."""
    a = np.asarray(a, float)
    pts = sorted(set(map(tuple, a)))
    if len(pts) < 3:
        return np.array(pts)

    def cross(o, p, q):
        return (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0])

    def half(it):
        h = []
        for p in it:
            while len(h) >= 2 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h

    lower, upper = half(pts), half(reversed(pts))
    return np.array(lower[:-1] + upper[:-1])


def hull_area(a):
    h = convex_hull(a)
    return shoelace(h) if len(h) >= 3 else 0.0


def in_ring(p, ring):
    """Even-odd rule; p not on the ring."""
    x, y = p
    inside = False
    n = len(ring)
    for i in range(n):
        (x1, y1), (x2, y2) = ring[i], ring[(i + 1) % n]
        if (y1 > y) != (y2 > y):
            # the crossing's abscissa against x, without division
            if ((x - x1) * (y2 - y1) < (x2 - x1) * (y - y1)) == (y2 > y1):
                inside = not inside
    return inside


def seg_dist(p, a, b):
    p, a, b = (np.asarray(v, float) for v in (p, a, b))
    d = b - a
    L = d @ d
    t = 0.0 if L == 0 else min(1.0, max(0.0, ((p - a) @ d) / L))
    return float(np.hypot(*(p - a - t * d)))


def ring_dist(p, ring):
    return min(seg_dist(p, ring[i], ring[(i + 1) % len(ring)]) for i in range(len(ring)))


def ring_moments(ring):
    """|area| and centroid of a simple ring."""
    r = np.asarray(ring, float)
    o = r[0].copy()
    r = r - o
    s = np.roll(r, -1, axis=0)
    c = r[:, 0] * s[:, 1] - s[:, 0] * r[:, 1]
    a = c.sum() / 2
    cx = ((r[:, 0] + s[:, 0]) * c).sum() / (6 * a)
    cy = ((r[:, 1] + s[:, 1]) * c).sum() / (6 * a)
    return abs(a), np.array([cx, cy]) + o


class Region:
    """Parts minus holes, from their rings alone."""

    def __init__(self, parts, holes=()):
        self.parts = [[list(map(float, p)) for p in r] for r in parts]
        self.holes = [[list(map(float, p)) for p in r] for r in holes]
        self.rings = self.parts + self.holes
        ms = [ring_moments(r) for r in self.parts]
        hs = [ring_moments(r) for r in self.holes]
        self.area = sum(m[0] for m in ms) - sum(h[0] for h in hs)
        o = np.array(self.parts[0][0])
        self.centroid = (sum(m[0] * (m[1] - o) for m in ms) - sum(h[0] * (h[1] - o) for h in hs)) / self.area + o
        v = np.array([p for r in self.parts for p in r])
        self.bbox = np.array([*v.min(axis=0), *v.max(axis=0)])

    def contains(self, p):
        return any(in_ring(p, r) for r in self.parts) and not any(in_ring(p, r) for r in self.holes)

    def dist(self, p):
        """Distance to the boundary."""
        return min(ring_dist(p, r) for r in self.rings)


def region(case):
    """The Region of a hull case (see gens.hull_case)."""
    k = case["kind"]
    if k == "bbox":
        x0, y0, x1, y1 = case["bbox"]
        return Region([[[x0, y0], [x0, y1], [x1, y1], [x1, y0]]])
    if k == "polygon":
        return Region(case["rings"])
    if k == "holed":
        return Region(case["rings"][:1], case["rings"][1:])
    if k == "multi":
        return Region(case["rings"], [h for h in case.get("holes", []) if h])
    if k == "convexhull":
        return Region([convex_hull(np.array(case["points"])).tolist()])
    raise ValueError(k)
