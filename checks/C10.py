"""C10: rasterization gives the exact covered fraction of every pixel."""
import numpy as np

from vlib.core import family
from vlib import geom
from spins.gridlock import float_raster

RULE = ("random simple polygons (convex, star-shaped, rectilinear, thin, "
        "degenerate positions on grid lines, partly or fully outside, "
        "enclosing the grid, either orientation) on random non-uniform grids; "
        "each pixel is compared with an independent exact polygon clipper, and "
        "the sum over pixels with the clipped area; distinct by polygon and "
        "grid")
REQUIRED_EVENTS = ["polygons", "partly_outside", "fully_outside", "encloses",
                   "on_gridline", "nonconvex", "segments", "clockwise",
                   "round", "huge", "other_units", "fine_grid"]


def _grid(rng, n=None):
    n = n or int(rng.integers(2, 9))
    if rng.random() < 0.4:
        d = np.full(n, [1.0, 0.25, 40.0][int(rng.integers(3))])
    else:
        d = rng.uniform(0.2, 3, n)
    x = np.concatenate([[0], np.cumsum(d)])
    return x + (rng.normal() if rng.random() < 0.5 else 0.0) - x[-1] / 2


def _poly(ck, rng, gx, gy):
    cx, cy = rng.uniform(gx[0], gx[-1]), rng.uniform(gy[0], gy[-1])
    sx, sy = gx[-1] - gx[0], gy[-1] - gy[0]
    kind = int(rng.integers(9))
    if kind == 0:  # rectangle
        w, h = rng.uniform(0.05, 1.2) * sx, rng.uniform(0.05, 1.2) * sy
        p = np.array([[-w, -h], [w, -h], [w, h], [-w, h]]) / 2 + [cx, cy]
    elif kind == 1:  # rectangle on the grid lines
        i, j = sorted(rng.choice(len(gx), 2, replace=False))
        k, l = sorted(rng.choice(len(gy), 2, replace=False))
        p = np.array([[gx[i], gy[k]], [gx[j], gy[k]], [gx[j], gy[l]],
                      [gx[i], gy[l]]])
        ck.event("on_gridline")
    elif kind == 2:  # convex
        n = int(rng.integers(3, 9))
        th = np.sort(rng.uniform(0, 2 * np.pi, n))
        r = rng.uniform(0.1, 0.8)
        p = np.stack([r * sx * np.cos(th), r * sy * np.sin(th)],
                     axis=1) + [cx, cy]
    elif kind == 3:  # star shaped, non convex
        n = int(rng.integers(4, 12))
        th = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(
            0, 0.5)
        r = rng.uniform(0.1, 0.7, n)
        p = np.stack([r * sx * np.cos(th), r * sy * np.sin(th)],
                     axis=1) + [cx, cy]
        ck.event("nonconvex")
    elif kind == 4:  # vertices snapped to the lattice of grid points
        n = int(rng.integers(3, 8))
        th = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(0, 1)
        r = rng.uniform(0.2, 0.6)
        p = np.stack([r * sx * np.cos(th), r * sy * np.sin(th)],
                     axis=1) + [np.mean(gx), np.mean(gy)]
        for q in p:
            if rng.random() < 0.6:
                q[0] = gx[np.argmin(np.abs(gx - q[0]))]
            if rng.random() < 0.6:
                q[1] = gy[np.argmin(np.abs(gy - q[1]))]
        ck.event("on_gridline")
    elif kind == 5:  # staircase / L shape
        w = np.sort(rng.uniform(0, sx, 2))
        h = np.sort(rng.uniform(0, sy, 2))
        p = np.array([[0, 0], [w[1], 0], [w[1], h[0]], [w[0], h[0]],
                      [w[0], h[1]], [0, h[1]]]) + [
                          gx[0] + rng.uniform(-0.3, 0.5) * sx,
                          gy[0] + rng.uniform(-0.3, 0.5) * sy]
        ck.event("nonconvex")
    elif kind == 6:  # round, edges vertical up to round-off
        n = int(rng.integers(6, 60))
        th = np.linspace(0, 2 * np.pi, n + 1)[:-1] + rng.choice(
            [0, np.pi / n, np.pi / 4])
        r = rng.uniform(0.1, 0.8) * max(sx, sy)
        p = np.stack([r * np.sin(th), r * np.cos(th)], axis=1) + [cx, cy]
        ck.event("round")
    elif kind == 7:  # a half plane, cut far away
        th = rng.uniform(0, 2 * np.pi)
        L = 10**rng.uniform(2, 4) * max(sx, sy)
        u, v = np.array([np.cos(th), np.sin(th)]), np.array(
            [-np.sin(th), np.cos(th)])
        p = np.array([-L * rng.uniform(0.3, 1) * u, L * u, L * u + L * v,
                      L * v]) + [cx, cy]
        ck.event("huge")
    else:  # encloses the grid
        m = rng.uniform(0.01, 1, 4)
        p = np.array([[gx[0] - m[0] * sx, gy[0] - m[1] * sy],
                      [gx[-1] + m[2] * sx, gy[0] - m[1] * sy],
                      [gx[-1] + m[2] * sx, gy[-1] + m[3] * sy],
                      [gx[0] - m[0] * sx, gy[-1] + m[3] * sy]])
        ck.event("encloses")
    if rng.random() < 0.15:
        p = p + [3 * sx * rng.choice([-1, 1]), 0]
    if rng.random() < 0.5:
        p = p[::-1]
    if geom.signed_area(p) < 0:
        ck.event("clockwise")
    if rng.random() < 0.5:
        p = np.roll(p, int(rng.integers(len(p))), axis=0)
    if rng.random() < 0.1:  # repeated first point
        p = np.vstack([p, p[:1]])
    return p


def _simple(p):
    """No two non-adjacent edges cross (brute force)."""
    n = len(p)

    def cross(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        for j in range(i + 1, n):
            if j == i or (j + 1) % n == i or (i + 1) % n == j:
                continue
            c, d = p[j], p[(j + 1) % n]
            if (cross(a, b, c) * cross(a, b, d) <= 0 and
                    cross(c, d, a) * cross(c, d, b) <= 0):
                return False
    return True


@family(quick=6000, thorough=120000)
def polygons(ck, rng):
    gx, gy = _grid(rng), _grid(rng)
    if rng.random() < 0.01:
        gx = _grid(rng, int(rng.integers(60, 200)))
        ck.event("fine_grid")
    p = _poly(ck, rng, gx, gy)
    q = p[:-1] if np.all(p[0] == p[-1]) else p
    if len(q) < 3 or not _simple(q) or abs(geom.signed_area(q)) < 1e-6:
        return
    if rng.random() < 0.3:  # lengths in other units
        unit = float(rng.choice([1e-9, 1e-6, 1e-3, 1e6]))
        p, q, gx, gy = p * unit, q * unit, gx * unit, gy * unit
        ck.event("other_units")
    want = geom.raster(q, gx, gy)
    orig = (p.copy(), gx.copy(), gy.copy())
    got = float_raster.raster_2D(p.T, gx, gy)
    ck.event("polygons")
    inside = ((p[:, 0] >= gx[0]) & (p[:, 0] <= gx[-1]) &
              (p[:, 1] >= gy[0]) & (p[:, 1] <= gy[-1]))
    if not np.all(inside):
        ck.event("partly_outside")
    if not want.any():
        ck.event("fully_outside")
    d = lambda: {"poly": p, "gx": gx, "gy": gy, "got": got, "want": want}
    ck.close(got, want, "pixel-fraction", rtol=1e-7, atol=1e-7, detail=d)
    ck.expect(got.min() >= -1e-7 and got.max() <= 1 + 1e-7, "range", d)
    total = np.sum(got * np.outer(np.diff(gx), np.diff(gy)))
    area = abs(geom.signed_area(
        geom.clip_box(q, gx[0], gx[-1], gy[0], gy[-1])))
    ck.close(total, area, "area-conservation", rtol=1e-7,
             atol=1e-7 * (gx[-1] - gx[0]) * (gy[-1] - gy[0]), detail=d)
    ck.expect(np.array_equal(orig[0], p) and np.array_equal(orig[1], gx),
              "inputs-changed")
    ck.key(np.round(p, 6).tolist(), np.round(gx, 6).tolist())
    ck.sample({"polygon": p, "gx": gx, "gy": gy})


@family(quick=2000, thorough=20000)
def segments(ck, rng):
    gx = _grid(rng)
    s = gx[-1] - gx[0]
    k = int(rng.integers(5))
    if k == 0:
        a = np.sort(rng.uniform(gx[0] - 0.5 * s, gx[-1] + 0.5 * s, 2))
    elif k == 1:
        a = np.sort(rng.choice(gx, 2, replace=False))
    elif k == 2:
        i = int(rng.integers(len(gx) - 1))
        a = np.sort(rng.uniform(gx[i], gx[i + 1], 2))
    elif k == 3:
        a = np.array([gx[0] - s, gx[-1] + s])
    else:
        a = np.array([gx[int(rng.integers(len(gx)))], rng.uniform(
            gx[0] - s, gx[-1] + s)])
    if rng.random() < 0.5:
        a = a[::-1].copy()
    got = float_raster.raster_1D(a, gx)
    ck.event("segments")
    ck.close(got, geom.overlap_1d(a[0], a[1], gx), "segment-fraction",
             rtol=1e-9, atol=1e-9, detail=lambda: {"seg": a, "gx": gx})
    ck.key(a.tolist(), gx.tolist())
