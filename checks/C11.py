"""C11: drawn objects are averaged exactly onto the staggered grids."""
import os
import tempfile

import numpy as np

from vlib import geom
from vlib.core import family
from spins import gridlock
from spins.gridlock import Direction, Grid, GridType

RULE = ("random uniform and non-uniform grids (1 to 7 cells per axis, any "
        "extrusion axis, E or H staggering, periodic or not) with random "
        "sequences of overlapping cuboids, slabs, fills, convex polygons and "
        "cylinders with scalar, per-component and complex permittivities over "
        "scalar or array backgrounds; every cell of every component is "
        "compared with the exact volume average (later objects win), also "
        "after re-rendering, clearing, copying and saving; distinct by grid "
        "and objects")
REQUIRED_EVENTS = [
    "cells_compared", "cuboid", "slab", "fill_slab", "fill_cuboid", "polygon",
    "cylinder", "overlapping_objects", "object_outside", "complex_eps",
    "per_component_eps", "array_background", "re_render", "clear", "copy",
    "saved", "nonuniform", "one_cell_axis", "slices", "positions",
    "rejected_input", "directions", "background_array_reused", "long_axis",
    "split_in_parts"
]

HALF = {True: 0.5, False: 0.0}


def _axis(ck, rng, unit):
    n = int(rng.integers(1, 8))
    if rng.random() < 0.02:
        n = int(rng.integers(90, 160))
        ck.event("long_axis")
    if n == 1:
        ck.event("one_cell_axis")
    uniform = rng.random() < 0.5
    if uniform:
        d = np.full(n, unit)
    else:
        d = unit * rng.choice([0.5, 1.0, 1.5, 2.0, 2.75], n)
        ck.event("nonuniform")
    x = np.concatenate([[0], np.cumsum(d)])
    off = unit * rng.choice([0.0, 0.5, 3.25, -7.0]) - (
        x[-1] / 2 if rng.random() < 0.6 else 0)
    return x + off


def _make(ck, rng, unit):
    edges = [_axis(ck, rng, unit) for _ in range(3)]
    ext = int(rng.integers(3))
    h_grid = rng.random() < 0.2
    periodic = [bool(rng.integers(2)) for _ in range(3)]
    kw = {}
    if h_grid:
        kw = dict(shifts=Grid.Yee_Shifts_H, comp_shifts=Grid.Yee_Shifts_E)
    elif rng.random() < 0.3:
        kw = dict(shifts=Grid.Yee_Shifts_E, comp_shifts=Grid.Yee_Shifts_H)
    if kw and rng.random() < 0.5:
        kw = {k: np.array(q).tolist() for k, q in kw.items()}
    r = rng.random()
    shape = [len(e) - 1 for e in edges]
    if r < 0.4:
        bg = float(rng.uniform(1, 5))
        init, bgs = bg, [np.full(shape, bg)] * 3
    elif r < 0.6:
        init = [float(v) for v in rng.uniform(1, 5, 3)]
        bgs = [np.full(shape, v) for v in init]
    else:
        init = [rng.uniform(1, 5, shape) for _ in range(3)]
        if rng.random() < 0.5:
            init = [b + 0.3j * rng.random(shape) for b in init]
        bgs = [b.copy() for b in init]
        ck.event("array_background")
    if rng.random() < 0.5:
        kw["num_grids"] = 3
    per = rng.random()
    if per < 0.4:
        kw["periodic"] = periodic
    elif per < 0.6:
        periodic = [periodic[0]] * 3
        kw["periodic"] = periodic[0]
    else:
        periodic = [False] * 3
    g = Grid(edges, ext_dir=Direction(ext) if rng.random() < 0.5 else ext,
             initial=init, **kw)
    if r >= 0.6 and rng.random() < 0.5:
        for b in init:
            b *= 0.5  # the caller's arrays are not those of the grid
        ck.event("background_array_reused")
    return g, edges, ext, h_grid, periodic, bgs


def _cells(ck, g, edges, comp, h_grid):
    """Edges of the averaging cells of one component."""
    out = []
    got = g.shifted_exyz(comp, GridType.COMP)
    for a in range(3):
        e = np.asarray(edges[a])
        d = np.diff(e)
        # E component `comp` lies at half cells along its own axis.
        own = (a == comp) != h_grid
        if own:
            want = e
        else:
            want = np.concatenate([[got[a][0]], e[:-1] + d / 2])
            if np.allclose(d, d[0]):
                ck.close(got[a][0], e[0] - d[0] / 2, "staggering",
                         scale=abs(e).max() + d[0], detail="first cell")
        ck.close(got[a][:len(e)], want, "staggering",
                 scale=abs(e).max() + d.max(),
                 detail={"axis": a, "comp": comp})
        out.append(want)
    return out


def _eps(ck, rng):
    r = rng.random()
    if r < 0.5:
        v = float(rng.uniform(1, 13))
        return v, [v] * 3
    if r < 0.7:
        v = complex(rng.uniform(1, 13), rng.uniform(-2, 2))
        ck.event("complex_eps")
        return v, [v] * 3
    v = rng.uniform(1, 13, 3)
    ck.event("per_component_eps")
    return (v if r < 0.85 else [float(x) for x in v]), list(v)


def _snap(rng, lo, hi, e, unit):
    """A coordinate: arbitrary, on a lattice or on an edge."""
    r = rng.random()
    if r < 0.35:
        return float(rng.choice(e))
    if r < 0.6:
        return float(np.round(rng.uniform(lo, hi) / (unit / 4)) * unit / 4)
    return float(np.round(rng.uniform(lo, hi) / unit, 2) * unit)


def _box(ck, rng, edges, unit):
    c, s = [], []
    outside = rng.random() < 0.08
    for a in range(3):
        e = edges[a]
        span = e[-1] - e[0]
        lo, hi = e[0] - 0.3 * span - unit, e[-1] + 0.3 * span + unit
        while True:
            p, q = sorted([_snap(rng, lo, hi, e, unit),
                           _snap(rng, lo, hi, e, unit)])
            if q - p > 0.05 * unit:
                break
        if outside and a == 0:
            p, q = p + 3 * (span + 2 * unit), q + 3 * (span + 2 * unit)
            ck.event("object_outside")
        c.append((p + q) / 2)
        s.append(q - p)
    return np.array(c), np.array(s)


def _draw(ck, rng, g, edges, ext, unit):
    """Draws a random object; returns (polygon, z0, z1, eps list)."""
    kind = ["cuboid", "cuboid", "slab", "fill_slab", "fill_cuboid", "polygon",
            "polygon", "cylinder"][int(rng.integers(8))]
    ck.event(kind)
    arg, eps = _eps(ck, rng)
    pl = [a for a in range(3) if a != ext]
    BIG = 50 * unit + 10 * max(abs(np.asarray(e)).max() for e in edges)
    tol_geom = 0.0

    def far(a):
        """Fills reach at least half a (ghost) cell past the boundary."""
        return 0.55 * np.diff(edges[a]).max()

    def rect(lo, hi):
        p = [(lo[pl[0]], lo[pl[1]]), (hi[pl[0]], lo[pl[1]]),
             (hi[pl[0]], hi[pl[1]]), (lo[pl[0]], hi[pl[1]])]
        return p, lo[ext], hi[ext]

    c, s = _box(ck, rng, edges, unit)
    if kind == "cuboid":
        g.draw_cuboid(c, s if rng.random() < 0.5 else list(s), arg)
        poly, z0, z1 = rect(c - s / 2, c + s / 2)
    elif kind == "slab":
        a = int(rng.integers(3))
        g.draw_slab(Direction(a) if rng.random() < 0.5 else a, c[a], s[a],
                    arg)
        lo, hi = np.full(3, -BIG), np.full(3, BIG)
        lo[a], hi[a] = c[a] - s[a] / 2, c[a] + s[a] / 2
        poly, z0, z1 = rect(lo, hi)
    elif kind == "fill_slab":
        a = int(rng.integers(3))
        pol = int(rng.choice([-1, 1]))
        pos = float(np.clip(c[a], edges[a][0], edges[a][-1]))
        # Keep the surface away from the boundary it fills towards.
        pos = pos - pol * (far(a) if abs(
            pos - (edges[a][0] if pol < 0 else edges[a][-1])) < far(a) else 0)
        g.fill_slab(Direction(a) if rng.random() < 0.5 else a, pol, pos, arg)
        lo, hi = np.full(3, -BIG), np.full(3, BIG)
        (lo if pol > 0 else hi)[a] = pos
        poly, z0, z1 = rect(lo, hi)
    elif kind == "fill_cuboid":
        a = int(rng.integers(3))
        pol = int(rng.choice([-1, 1]))
        pos = c.copy()
        pos[a] = np.clip(c[a], edges[a][0], edges[a][-1])
        if abs(pos[a] - (edges[a][0] if pol < 0 else edges[a][-1])
               ) < far(a):
            pos[a] -= pol * far(a)
        g.fill_cuboid(Direction(a) if rng.random() < 0.5 else a, pol, pos,
                      np.delete(s, a), arg)
        lo, hi = c - s / 2, c + s / 2
        lo[a], hi[a] = -BIG, BIG
        (lo if pol > 0 else hi)[a] = pos[a]
        poly, z0, z1 = rect(lo, hi)
    elif kind == "polygon":
        n = int(rng.integers(3, 8))
        th = np.sort(rng.uniform(0, 2 * np.pi, n))
        while np.min(np.diff(np.append(th, th[0] + 2 * np.pi))) < 0.05:
            th = np.sort(rng.uniform(0, 2 * np.pi, n))
        loc = 0.5 * s[pl] * np.stack([np.cos(th), np.sin(th)], axis=1)
        if rng.random() < 0.5:
            loc = loc[::-1]
        g.draw_polygon(c, loc, s[ext], arg)
        poly = [tuple(p) for p in loc + c[pl]]
        z0, z1 = c[ext] - s[ext] / 2, c[ext] + s[ext] / 2
    else:
        n = int(rng.integers(60, 120))
        r = 0.5 * max(s[pl])
        g.draw_cylinder(c, r, s[ext], n, arg)
        th = np.linspace(0, 2 * np.pi, n)[:-1]
        poly = [tuple(p) for p in np.stack(
            [r * np.sin(th), r * np.cos(th)], axis=1) + c[pl]]
        z0, z1 = c[ext] - s[ext] / 2, c[ext] + s[ext] / 2
        # Any inscribed polygon of n or n - 1 points is a fair cylinder.
        tol_geom = 1.5 * r * (1 - np.cos(np.pi / (n - 1)))
    return kind, poly, z0, z1, eps, tol_geom


def _expected(objs, ext, bgs, cells, comp):
    pl = [a for a in range(3) if a != ext]
    gx, gy, gz = cells[pl[0]], cells[pl[1]], cells[ext]
    acc = np.zeros((len(gx) - 1, len(gy) - 1, len(gz) - 1), dtype=complex)
    frac = np.ones_like(acc)
    zs = np.unique([z for o in objs for z in (o[2], o[3])])
    for z0, z1 in zip(zs[:-1], zs[1:]):
        m = (z0 + z1) / 2
        live = [o for o in objs if o[2] < m < o[3]]
        wz = geom.overlap_1d(z0, z1, gz)
        if not live or not wz.any():
            continue
        for o, w in zip(live, geom.visible_fractions([o[1] for o in live], gx,
                                                     gy)):
            acc += o[4][comp] * w[:, :, None] * wz
            frac -= w[:, :, None] * wz
    order = [0, 0, 0]
    order[pl[0]], order[pl[1]], order[ext] = 0, 1, 2
    acc, frac = acc.transpose(order), frac.transpose(order)
    return acc + bgs[comp] * frac


def _check(ck, g, objs, edges, ext, h_grid, bgs, unit, mech, perimeter):
    tol = 1e-9
    if len(objs) > 1:
        # Precision of the boolean operations is 1e-3 length units.
        tol = 3e-3 * perimeter
    tol += sum(o[5] for o in objs)
    for comp in range(3):
        cells = _cells(ck, g, edges, comp, h_grid)
        want = _expected(objs, ext, bgs, cells, comp)
        dmin = min(np.diff(c).min() for c in cells)
        # The first staggered cell of a non-uniform axis hangs out of the grid
        # by a ghost cell of unspecified size, which slabs need not reach.
        sl = tuple(
            np.s_[1:] if cells[a][0] != edges[a][0] and np.ptp(
                np.diff(edges[a])) > 1e-9 else np.s_[:] for a in range(3))
        want = want[sl]
        ck.event("cells_compared", want.size)
        ck.close(g.grids[comp][sl], want, mech, rtol=0, scale=1.0,
                 atol=13 * (tol / dmin) + 1e-9 * 13,
                 detail={"comp": comp, "ext": ext, "edges": edges,
                         "objects": [(o[0], o[1], o[2], o[3], o[4])
                                     for o in objs]})


@family(quick=400, thorough=4000)
def averaging(ck, rng):
    unit = float([40.0, 25.0, 100.0][int(rng.integers(3))])
    g, edges, ext, h_grid, periodic, bgs = _make(ck, rng, unit)
    ck.expect(list(map(bool, g.periodic)) == periodic, "periodicity",
              {"got": list(g.periodic), "want": periodic})
    objs = [_draw(ck, rng, g, edges, ext, unit)
            for _ in range(int(rng.integers(0, 5)))]
    ck.key("g", [len(e) for e in edges], ext, [o[0] for o in objs],
           np.round(edges[0], 3), [round(o[2], 3) for o in objs])
    if len(objs) > 1:
        ck.event("overlapping_objects")
    g.render()
    _check(ck, g, objs, edges, ext, h_grid, bgs, unit, "volume-average", 4.0)
    ck.sample({"objects": [o[0] for o in objs], "shape": g.shape.tolist()})
    act = int(rng.integers(5))
    if act == 0:  # draw more and render again
        ck.event("re_render")
        objs.append(_draw(ck, rng, g, edges, ext, unit))
        g.render()
        _check(ck, g, objs, edges, ext, h_grid, bgs, unit, "re-render", 4.0)
    elif act == 1:
        ck.event("clear")
        g.clear()
        objs = [_draw(ck, rng, g, edges, ext, unit)
                for _ in range(int(rng.integers(0, 2)))]
        g.render()
        _check(ck, g, objs, edges, ext, h_grid, bgs, unit, "clear", 4.0)
    elif act == 2:
        ck.event("copy")
        h = g.copy()
        before = [np.array(x) for x in g.grids]
        extra = _draw(ck, rng, h, edges, ext, unit)
        h.render()
        _check(ck, h, objs + [extra], edges, ext, h_grid, bgs, unit, "copy",
               4.0)
        g.render()
        ck.close(np.array(g.grids), np.array(before), "copy-independent")
        if rng.random() < 0.5:
            objs.append(_draw(ck, rng, g, edges, ext, unit))
            g.render()
            _check(ck, g, objs, edges, ext, h_grid, bgs, unit,
                   "copied-from", 4.0)
        else:
            g.clear()
            h.render()
            _check(ck, h, objs + [extra], edges, ext, h_grid, bgs, unit,
                   "copy-independent", 4.0)
    elif act == 3:
        ck.event("saved")
        with tempfile.TemporaryDirectory() as td:
            fn = os.path.join(td, "g.pkl")
            g.save(fn)
            h = Grid.load(fn)
        ck.close(np.array(h.grids), np.array(g.grids), "save-load", rtol=0,
                 atol=0)
        objs.append(_draw(ck, rng, h, edges, ext, unit))
        h.render()
        _check(ck, h, objs, edges, ext, h_grid, bgs, unit, "save-load", 4.0)


@family(quick=250, thorough=2500)
def fine_units(ck, rng):
    """Boxes only, in micrometres: cells far smaller than one length unit."""
    unit = float(rng.choice([0.04, 0.25]))
    g, edges, ext, h_grid, periodic, bgs = _make(ck, rng, unit)
    c, s = _box(ck, rng, edges, unit)
    arg, eps = _eps(ck, rng)
    g.draw_cuboid(c, s, arg)
    pl = [a for a in range(3) if a != ext]
    lo, hi = c - s / 2, c + s / 2
    poly = [(lo[pl[0]], lo[pl[1]]), (hi[pl[0]], lo[pl[1]]),
            (hi[pl[0]], hi[pl[1]]), (lo[pl[0]], hi[pl[1]])]
    g.render(disable_intersection=bool(rng.integers(2)))
    ck.key("f", np.round(c, 4), np.round(s, 4))
    _check(ck, g, [("cuboid", poly, lo[ext], hi[ext], eps, 0.0)], edges, ext,
           h_grid, bgs, unit, "volume-average", 0)


@family(quick=400, thorough=4000)
def positions(ck, rng):
    """Indices <-> positions and interpolated slices."""
    unit = 40.0
    g, edges, ext, h_grid, periodic, bgs = _make(ck, rng, unit)
    which = [None, 0, 1, 2][int(rng.integers(4))]
    shape = [len(e) - 1 for e in edges]
    idx = [int(rng.integers(0, n)) for n in shape]
    pos = g.ind2pos(idx, which)
    ck.event("positions")
    ck.key("p", which, shape, idx, np.round(edges[0], 3))
    for a in range(3):
        e = np.asarray(edges[a], float)
        d = np.diff(e)
        sh = 0.0 if which is None else 0.5 * float((a == which) != h_grid)
        dg = np.append(d, d[0] if periodic[a] else d[-1])
        cell = e + sh * dg
        ck.close(pos[a], (cell[idx[a]] + cell[idx[a] + 1]) / 2, "ind2pos",
                 scale=abs(e).max(), detail={"axis": a, "which": which})
        ck.close(g.shifted_dxyz(which)[a], np.diff(cell), "cell-sizes",
                 scale=abs(e).max())
        ck.close(g.shifted_xyz(which)[a], (cell[1:] + cell[:-1]) / 2,
                 "cell-centers", scale=abs(e).max())
        if which is not None:
            ce, cd = (f(which, GridType.COMP)[a]
                      for f in (g.shifted_exyz, g.shifted_dxyz))
            ck.close(cd, np.diff(ce), "cell-sizes", scale=abs(e).max())
    ck.close(g.pos2ind(pos, which), idx, "pos2ind-inverse")
    # A random position lies in the cell its index names.
    ex = g.shifted_exyz(which)
    r = [float(rng.uniform(ex[a][0], ex[a][-1])) for a in range(3)]
    ind = g.pos2ind(r, which)
    fr = g.pos2ind(r, which, round_ind=False)
    for a in range(3):
        k = int(ind[a])
        ck.expect(ex[a][k] <= r[a] <= ex[a][k + 1], "pos2ind-cell",
                  {"r": r, "ind": ind})
        ck.close(ex[a][k] + (fr[a] - k) * (ex[a][k + 1] - ex[a][k]), r[a],
                 "pos2ind-fraction", scale=abs(ex[a]).max())
        ck.close(g.coord2ind(r[a], Direction(a), 0 if which is None else which,
                             check_bounds=False),
                 g.pos2ind([r[a]] * 3, 0 if which is None else which,
                           check_bounds=False)[a], "coord2ind")
    out = list(r)
    ax = int(rng.integers(3))
    side = rng.random() < 0.5
    out[ax] = ex[ax][0] - unit if side else ex[ax][-1] + unit
    if shape[ax] > 1:
        ck.raises(gridlock.GridError, lambda: g.pos2ind(out, which),
                  "outside-refused", {"r": out})
    ck.expect(g.pos2ind(out, which, check_bounds=False)[ax] == (
        0 if side else shape[ax] - 1), "outside-clipped")
    bad = list(idx)
    bad[ax] = shape[ax] if rng.random() < 0.5 else -1
    ck.raises(gridlock.GridError, lambda: g.ind2pos(bad, which),
              "index-outside-refused", {"ind": bad, "shape": shape})
    # Interpolated slices.
    c, s = _box(ck, rng, edges, unit)
    g.draw_cuboid(c, s, 5 + 1j)
    g.render()
    comp = int(rng.integers(3))
    n = int(rng.integers(3))
    centers = (np.asarray(edges[n])[1:] + np.asarray(edges[n])[:-1]) / 2
    z = float(rng.uniform(centers[0], centers[-1])) if len(
        centers) > 1 else float(centers[0])
    # The planes on which the component is sampled.
    e = np.asarray(edges[n])
    planes = centers if (n == comp) != h_grid else e[:-1]
    vals = np.moveaxis(np.array(g.grids[comp]), n, 0)
    if z >= planes[-1]:
        want = vals[-1]
    elif z <= planes[0]:
        want = vals[0]
    else:
        k = int(np.searchsorted(planes, z, side="right") - 1)
        t = (z - planes[k]) / (planes[k + 1] - planes[k])
        want = (1 - t) * vals[k] + t * vals[k + 1]
    sp = int(rng.integers(1, 3))
    got = g.get_slice(Direction(n) if rng.random() < 0.5 else n, z, comp, sp)
    ck.event("slices")
    ck.close(got, np.squeeze(want[::sp, ::sp]), "slice",
             detail={"n": n, "comp": comp, "z": z, "edges": edges[n]})
    for z in (centers[0] - unit, centers[-1] + 3 * unit):
        ck.raises(gridlock.GridError, lambda: g.get_slice(n, float(z), comp),
                  "slice-outside-refused")


@family(quick=80, thorough=400)
def rejects(ck, rng):
    edges = [np.arange(5) * 40.0] * 3
    g = Grid(edges)
    bad = [
        lambda: Grid(edges, ext_dir=3),
        lambda: Grid(edges, shifts=np.zeros((3, 2)),
                     comp_shifts=np.zeros((3, 3))),
        lambda: Grid(edges, comp_shifts=np.zeros((2, 3))),
        lambda: Grid(edges, shifts=-0.5 * np.eye(3)),
        lambda: Grid(edges, num_grids=4),
        lambda: Grid(edges, initial=[1.0, 2.0]),
        lambda: Grid(edges, initial=[np.ones((2, 2, 2))] * 3),
        lambda: g.draw_cuboid([0, 0], [1, 1, 1], 2.0),
        lambda: g.draw_cuboid([0, 0, 0], [1, 1], 2.0),
        lambda: g.draw_cuboid([0, 0, 0], [1, 1, 1], np.array([1.0, 2.0])),
        lambda: g.draw_cuboid([0, 0, 0], [1, 1, 1], [1.0, 2.0]),
        lambda: g.draw_polygon([0, 0, 0], [[0, 0], [1, 1]], 1.0, 2.0),
        lambda: g.draw_polygon([0, 0, 0], [0, 1, 2], 1.0, 2.0),
        lambda: g.draw_polygon([0, 0, 0], [[0, 0], [1, 1], [0, 1]], 0.0, 2.0),
        lambda: g.draw_polygon([0, 0, 0], [[0, 0], [1, 1], [0, 1]], 10.0,
                               [1.0, 2.0]),
        lambda: g.draw_slab(3, 0, 1.0, 2.0),
        lambda: g.fill_slab(Direction.x, 2, 0.0, 1.0),
        lambda: g.fill_slab(3, 1, 0.0, 1.0),
        lambda: g.fill_cuboid(Direction.x, 0, [0, 0, 0], [1, 1], 1.0),
        lambda: g.fill_cuboid(Direction.x, 1, [0, 0, 0], [1, 1, 1], 1.0),
        lambda: g.get_slice(3, 60.0),
        lambda: g.get_slice(0, 60.0, sample_period=0),
        lambda: g.pos2ind([1.0, 2.0], None),
        lambda: g.pos2ind([1.0, 2.0, 3.0], 7),
    ]
    k = int(rng.integers(len(bad)))
    ck.key("r", k)
    ck.event("rejected_input")
    ck.raises(gridlock.GridError, bad[k], "invalid-refused", {"case": k})
    # A refused object leaves nothing behind.
    g.render()
    ck.close(np.array(g.grids), np.ones((3, 4, 4, 4)), "invalid-refused")


@family(quick=60, thorough=600)
def directions(ck, rng):
    """Direction vectors of any length and sign name their axis."""
    for _ in range(20):
        axis = int(rng.integers(3))
        size = float(rng.choice([1e-9, 1e-3, 1, 17.5, 1e6]))
        sign = int(rng.choice([-1, 1]))
        vec = np.zeros(3)
        vec[axis] = sign * size
        if rng.random() < 0.3:   # noise of a computed vector
            vec[(axis + 1) % 3] = size * 1e-9 * rng.choice([-1, 1])
        arg = vec if rng.random() < 0.5 else [float(q) for q in vec]
        keep = np.array(arg)
        ck.expect(gridlock.axisvec2axis(arg) == axis, "direction_axis",
                  {"vector": list(vec)})
        ck.expect(gridlock.axisvec2polarity(arg) == sign,
                  "direction_polarity", {"vector": list(vec)})
        ck.expect(np.array_equal(keep, arg), "direction_argument_changed")
        ck.event("directions")
        bad = vec.copy()
        bad[(axis + 2) % 3] = size * float(rng.choice([-1, 1])) * \
            rng.uniform(1e-3, 2)
        for q in (bad, list(bad), np.zeros(3)):
            ck.raises(ValueError, lambda: gridlock.axisvec2axis(q),
                      "direction_refused")
    ck.expect([Direction.x.value, Direction.y.value, Direction.z.value] ==
              [0, 1, 2], "direction_numbers")
    ck.key(float(size), axis, sign)


@family(quick=60, thorough=600)
def combs(ck, rng):
    """Combs that split other objects into many parts."""
    unit = 40.0
    n = [int(rng.integers(4, 10)), int(rng.integers(3, 7)), 2]
    edges = [unit * (np.arange(k + 1) - k / 2) for k in n]
    L = [k * unit for k in n]
    bg = 1.5
    g = Grid(edges, ext_dir=Direction.z, initial=bg)
    boxes = []
    for _ in range(int(rng.integers(1, 3))):
        c = [float(np.round(rng.uniform(-0.1, 0.1) * l)) for l in L]
        e = [float(np.round(rng.uniform(0.6, 0.95) * l)) for l in L[:2]] + [
            float(rng.choice([30.0, 80.0, 100.0]))]
        v = float(rng.uniform(2, 12))
        g.draw_cuboid(c, e, v)
        boxes.append((c, e, v))
    teeth = int(rng.integers(2, 9))
    pitch = 2 * int(L[0] / (2 * teeth + 2))
    w = pitch / 2
    x0 = -pitch * teeth / 2
    y0, y1 = -L[1] / 2 - 10, -L[1] / 2 + 12
    top = float(np.round(rng.uniform(0.1, 0.6) * L[1]))
    poly = [(x0, y0), (x0 + pitch * teeth - w, y0)]
    for k in range(teeth)[::-1]:
        a, b = x0 + pitch * k, x0 + pitch * k + w
        poly += [(b, top), (a, top)]
        if k:
            poly += [(a, y1), (a - w, y1)]
    v = float(rng.uniform(2, 12))
    h = float(rng.choice([40.0, 100.0]))
    poly = np.array(poly)
    if rng.random() < 0.5:
        poly = poly[::-1]
    g.draw_polygon([0, 0, 0], poly, h, v)
    mid = lambda a, b, c, d: ([(a + b) / 2, (c + d) / 2, 0], [b - a, d - c, h],
                              v)
    boxes.append(mid(x0, x0 + pitch * teeth - w, y0, y1))
    for k in range(teeth):
        boxes.append(mid(x0 + pitch * k, x0 + pitch * k + w, y0, top))
    g.render()
    ck.event("split_in_parts")
    ck.key("comb", n, teeth, [np.round(b[0], 1) for b in boxes[:2]])
    for comp in range(3):
        cells = _cells(ck, g, edges, comp, False)
        want = geom.box_average(boxes, bg, *cells)
        ck.close(g.grids[comp], want, "comb-average", rtol=0,
                 atol=13 * 4 * 3e-3 * teeth / unit,
                 detail=lambda: {"teeth": teeth, "comp": comp})
