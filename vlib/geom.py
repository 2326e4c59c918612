"""Exact geometry oracles: polygon clipping and convex set algebra."""
import itertools

import numpy as np


def clip_halfplane(poly, axis, bound, keep_greater):
    """Sutherland-Hodgman step for an axis-aligned half plane."""
    out = []
    n = len(poly)
    for i in range(n):
        p, q = poly[i], poly[(i + 1) % n]
        dp = (p[axis] - bound) if keep_greater else (bound - p[axis])
        dq = (q[axis] - bound) if keep_greater else (bound - q[axis])
        if dp >= 0:
            out.append(p)
        if (dp > 0 and dq < 0) or (dp < 0 and dq > 0):
            t = dp / (dp - dq)
            x = [p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])]
            x[axis] = bound
            out.append(tuple(x))
    return out


def signed_area(poly):
    if len(poly) < 3:
        return 0.0
    a = np.asarray(poly, dtype=float)
    a = a - a[0]
    x, y = a[:, 0], a[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def clip_box(poly, x0, x1, y0, y1):
    poly = [tuple(p) for p in poly]
    for axis, b, g in ((0, x0, True), (0, x1, False), (1, y0, True),
                       (1, y1, False)):
        poly = clip_halfplane(poly, axis, b, g)
        if not poly:
            return []
    return poly


def raster(poly, gx, gy):
    """Fraction of every pixel covered by the simple polygon `poly`."""
    out = np.zeros((len(gx) - 1, len(gy) - 1))
    for i in range(len(gx) - 1):
        strip = clip_halfplane([tuple(p) for p in poly], 0, gx[i], True)
        strip = clip_halfplane(strip, 0, gx[i + 1], False) if strip else []
        if not strip:
            continue
        for j in range(len(gy) - 1):
            p = clip_halfplane(strip, 1, gy[j], True)
            p = clip_halfplane(p, 1, gy[j + 1], False) if p else []
            if p:
                out[i, j] = abs(signed_area(p)) / (
                    (gx[i + 1] - gx[i]) * (gy[j + 1] - gy[j]))
    return out


def ccw(poly):
    return list(poly) if signed_area(poly) >= 0 else list(poly)[::-1]


def clip_convex(subject, clip):
    """Intersection of a polygon with a convex counter-clockwise polygon."""
    out = [tuple(p) for p in subject]
    n = len(clip)
    for i in range(n):
        a, b = clip[i], clip[(i + 1) % n]
        ex, ey = b[0] - a[0], b[1] - a[1]
        inp, out = out, []
        m = len(inp)
        for k in range(m):
            p, q = inp[k], inp[(k + 1) % m]
            dp = ex * (p[1] - a[1]) - ey * (p[0] - a[0])
            dq = ex * (q[1] - a[1]) - ey * (q[0] - a[0])
            if dp >= 0:
                out.append(p)
            if (dp > 0 and dq < 0) or (dp < 0 and dq > 0):
                t = dp / (dp - dq)
                out.append((p[0] + t * (q[0] - p[0]),
                            p[1] + t * (q[1] - p[1])))
        if not out:
            return []
    return out


def visible_fractions(polys, gx, gy):
    """Coverage of each convex polygon that is not covered by later ones.

    Inclusion-exclusion over the intersections of the convex polygons.
    """
    polys = [ccw([tuple(p) for p in q]) for q in polys]
    cache = {}

    def inter(idx):
        if idx not in cache:
            p = polys[idx[0]]
            for k in idx[1:]:
                p = clip_convex(p, polys[k])
                if not p:
                    break
            cache[idx] = raster(p, gx, gy) if len(p) > 2 else np.zeros(
                (len(gx) - 1, len(gy) - 1))
        return cache[idx]

    out = []
    n = len(polys)
    for i in range(n):
        later = range(i + 1, n)
        tot = np.zeros((len(gx) - 1, len(gy) - 1))
        for r in range(0, n - i):
            for sub in itertools.combinations(later, r):
                tot += (-1)**r * inter((i,) + sub)
        out.append(tot)
    return out


def overlap_1d(a, b, edges):
    """Fraction of each interval of `edges` covered by [a, b]."""
    edges = np.asarray(edges, dtype=float)
    lo = np.maximum(edges[:-1], min(a, b))
    hi = np.minimum(edges[1:], max(a, b))
    return np.maximum(hi - lo, 0) / np.diff(edges)


def box_average(boxes, background, ex, ey, ez):
    """Average over the cells of piecewise constant boxes, last one wins.

    `boxes` is a list of (center, extent, value).
    """
    axes = [np.asarray(ex, float), np.asarray(ey, float),
            np.asarray(ez, float)]
    fine = []
    for a in range(3):
        pts = [axes[a]]
        for c, e, _ in boxes:
            pts.append([c[a] - e[a] / 2, c[a] + e[a] / 2])
        p = np.unique(np.concatenate([np.asarray(q, float) for q in pts]))
        fine.append(p[(p >= axes[a][0]) & (p <= axes[a][-1])])
    mids = [(f[1:] + f[:-1]) / 2 for f in fine]
    val = np.full([len(m) for m in mids], background, dtype=complex)
    for c, e, v in boxes:
        sel = [(m > c[a] - e[a] / 2) & (m < c[a] + e[a] / 2)
               for a, m in enumerate(mids)]
        val[np.ix_(*sel)] = v
    for a in range(3):
        w = np.diff(fine[a])
        own = np.searchsorted(axes[a], mids[a]) - 1
        mat = np.zeros((len(axes[a]) - 1, len(mids[a])))
        mat[own, np.arange(len(mids[a]))] = w / np.diff(axes[a])[own]
        val = np.moveaxis(np.tensordot(mat, val, axes=(1, a)), 0, a)
    return val


def yee_cells(edges, comp):
    """Averaging cells of E component `comp` on a uniform grid."""
    out = []
    for a in range(3):
        e = np.asarray(edges[a], float)
        d = e[1] - e[0]
        out.append(e if a == comp else e - d / 2)
    return out


def scene_average(objs, background, cells, comp=None):
    """Exact volume average of extruded convex polygons; later ones win.

    `objs` is a list of (polygon, z0, z1, value), extruded along z.
    """
    gx, gy, gz = cells
    acc = np.zeros((len(gx) - 1, len(gy) - 1, len(gz) - 1), dtype=complex)
    frac = np.ones_like(acc)
    zs = np.unique([z for o in objs for z in (o[1], o[2])])
    for z0, z1 in zip(zs[:-1], zs[1:]):
        m = (z0 + z1) / 2
        live = [o for o in objs if o[1] < m < o[2]]
        wz = overlap_1d(z0, z1, gz)
        if not live or not wz.any():
            continue
        for o, w in zip(live, visible_fractions([o[0] for o in live], gx,
                                                gy)):
            acc += o[3] * w[:, :, None] * wz
            frac -= w[:, :, None] * wz
    return acc + background * frac


def rect(center, extent):
    x, y = center[0], center[1]
    w, h = extent[0] / 2, extent[1] / 2
    return [(x - w, y - h), (x + w, y - h), (x + w, y + h), (x - w, y + h)]


def circle(center, radius, n):
    """Inscribed polygon as drawn for a cylinder with `n` points."""
    th = np.linspace(0, 2 * np.pi, n)[:-1]
    return [(center[0] + radius * np.sin(t), center[1] + radius * np.cos(t))
            for t in th]
