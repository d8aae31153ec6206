"""Grids of cells over the bounding box of a pattern, and who may be counted where."""
import numpy as np


def hexdist(d, side):
    """Distance to a flat-side-up hexagon's border as a ratio: <= 1 inside.  d: offsets from the centre.

    The hexagon has vertices at (+-side, 0) and (+-side/2, +-side*sqrt(3)/2).
    """
    d = np.abs(d)
    h = side * 3**0.5 / 2
    return np.maximum(d[..., 1] / h, (d[..., 0] * 3**0.5 + d[..., 1]) / (2 * h))


def rect_candidates(pts, mbb, nx, ny, w, h, tol):
    """bool (points, ny*nx): the closed cells within tol of each point."""
    x, y = pts[:, 0] - mbb[0], pts[:, 1] - mbb[1]
    ix, iy = np.arange(nx), np.arange(ny)
    inx = (x[:, None] >= ix * w - tol) & (x[:, None] <= (ix + 1) * w + tol)
    iny = (y[:, None] >= iy * h - tol) & (y[:, None] <= (iy + 1) * h + tol)
    # the far edges belong to the last column and row
    return (iny[:, :, None] & inx[:, None, :]).reshape(len(pts), -1)


def hex_centres(mbb, ids, ncol, side):
    """Centres of the honeycomb cells numbered column + row * columns, odd columns half a cell up."""
    h = side * 3**0.5 / 2
    ids = np.asarray(ids)
    ix, iy = ids % ncol, ids // ncol
    return np.column_stack([mbb[0] + ix * 1.5 * side, mbb[1] + (2 * iy + ix % 2) * h])


def hex_candidates(pts, centres, side, tol):
    return hexdist(pts[:, None, :] - centres[None, :, :], side) <= 1 + tol / side


def partition(ctx, cand, counts, what):
    """counts are those of some assignment of every point to one of its candidate cells."""
    n = len(cand)
    counts = np.asarray(counts)
    ctx.ok(cand.any(axis=1).all(), lambda: f"{what}: no cell contains point {int(np.argmin(cand.any(axis=1)))}")
    ctx.equal(int(counts.sum()), n, f"{what}: sum of the counts")
    sure = cand.sum(axis=1) == 1
    low = cand[sure].sum(axis=0)
    high = cand.sum(axis=0)
    bad = (counts < low) | (counts > high)
    ctx.ok(not bad.any(), lambda: f"{what}: cell {int(np.argmax(bad))} counts {int(counts[np.argmax(bad)])} points, between {int(low[np.argmax(bad)])} and {int(high[np.argmax(bad)])} lie in it")
    amb = ~sure
    if amb.any() and amb.sum() <= 60:  # bipartite: spare capacity must take every point on an edge
        left = counts - low
        order = np.where(amb)[0]
        taken = {int(c): [] for c in np.where(left > 0)[0]}

        def place(p, seen):
            for c in np.where(cand[p])[0]:
                c = int(c)
                if c in taken and c not in seen:
                    seen.add(c)
                    if len(taken[c]) < left[c]:
                        taken[c].append(p)
                        return True
                    for q in list(taken[c]):
                        if place(q, seen):
                            taken[c].remove(q)
                            taken[c].append(p)
                            return True
            return False

        for p in order:
            ctx.ok(place(int(p), set()), f"{what}: the counts {counts.tolist()} leave no cell for point {int(p)}, which lies on an edge")
    return int(amb.sum())
