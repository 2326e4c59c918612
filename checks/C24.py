"""C24: gratings: rendering, discretization and fabrication constraints."""
import math
import random

import numpy as np

from vlib.core import family
from spins import goos
from spins.goos_sim import maxwell
from spins.invdes import parametrization
from spins.invdes import problem
from spins.invdes.problem_graph import grating as inv_grating

RULE = ("random height profiles, etch levels, directions and polarities "
        "rendered and compared with exact coverage; random continuous "
        "gratings discretized and compared with an independent dynamic "
        "program over the same lattice; constraints compared with their "
        "definition and with finite differences; distinct by parameters")
REQUIRED_EVENTS = ["rendered", "rendered_widths", "rendered_flipped",
                   "several_levels_in_pixel", "cut_off", "gradients",
                   "discretized_invdes", "inverted", "uniform",
                   "fractional_min_feature", "discretized_goos",
                   "max_features", "per_level_features", "three_levels",
                   "width_bounds", "feature_constraints", "multi_etch_constraints",
                   "composite_constraints", "edge_loc_constraints",
                   "edge_loc_optimized", "edge_count_changes", "long_gratings",
                   "search_features", "decreasing_heights", "restored",
                   "edges_between_pixels", "param_gradients", "barcodes", "empty_grating"]


# ------------------------------------------------------------------ oracles

def coverage(pieces, n):
    """Average over each of `n` unit pixels of a piecewise constant function.

    `pieces` is a list of (start, end, value).
    """
    out = np.zeros(n)
    for a, b, v in pieces:
        for p in range(n):
            out[p] += v * max(0.0, min(b, p + 1) - max(a, p))
    return out


def profile(edges, heights, n, first):
    """Pieces of a profile that is heights[i] after edges[i]."""
    pos = [0.0] + [min(max(e, 0.0), n) for e in edges] + [float(n)]
    val = [first] + list(heights)
    return [(pos[i], pos[i + 1], val[i]) for i in range(len(val))]


def lattice_optimum(x, heights, div, start, end, d_min, d_max, first_min,
                    last_min, need_edge):
    """Least squared error over the gratings on the lattice.

    A grating starts at one of the levels `start`, ends at one of the levels
    `end`, changes level at multiples of 1 / div, and every piece but the
    first and the last has a length between d_min and d_max of its level.
    The first and last pieces have at least first_min and last_min.
    """
    best = {}    # (level, length of the current piece, is first) -> cost
    for s in start:
        best[(s, 0, True)] = 0.0
    n = len(x)
    inf = float("inf")

    def may_leave(level, run, first):
        low = first_min if first else d_min[level]
        return low <= run <= d_max[level]

    for p in range(n):
        new = {}

        def put(key, cost):
            if key[1] <= d_max[key[0]] and cost < new.get(key, inf):
                new[key] = cost

        for (lev, run, first), cost in best.items():
            put((lev, run + div, first), cost + (x[p] - heights[lev])**2)
            for s in range(div):
                if not may_leave(lev, run + s, first):
                    continue
                for nxt in range(len(heights)):
                    if nxt == lev:
                        continue
                    val = (heights[lev] * s + heights[nxt] * (div - s)) / div
                    put((nxt, div - s, False), cost + (x[p] - val)**2)
        best = new
    out = inf
    for (lev, run, first), cost in best.items():
        if lev in end and run >= last_min and not (first and need_edge):
            out = min(out, cost)
        # A last change of level at the very end.
        if last_min == 0 and may_leave(lev, run, first) and any(
                e != lev for e in end):
            out = min(out, cost)
    return out


def random_target(rng, n):
    kind = rng.integers(5)
    if kind == 0:
        return rng.uniform(0, 1, size=n)
    if kind == 1:
        return rng.integers(0, 2, size=n).astype(float)
    if kind == 2:
        return np.clip(np.repeat(rng.uniform(0, 1, size=n), 3)[:n] +
                       rng.normal(size=n) * 0.1, 0, 1)
    if kind == 3:
        return np.full(n, float(rng.integers(0, 2)))
    return np.clip(0.5 + 0.7 * np.sin(np.arange(n) * rng.uniform(0.3, 2) +
                                      rng.uniform(0, 6)), 0, 1)


# ------------------------------------------------------------------ families

def make_grating(rnd, rng, spacing, n, etch_divs):
    """Random edges in units of length and the corresponding levels."""
    levels = rnd.randint(2, 4)
    fr = sorted(rng.uniform(0.05, 0.95, size=levels - 1)) + [1.0]
    if rnd.random() < 0.6:
        fr[0] = 0.0
    m = rnd.randint(1, 6)
    kind = rnd.random()
    edges = np.sort(rng.uniform(0, n, size=m))
    if kind < 0.3:
        edges = np.sort(rng.integers(0, n + 1, size=m)).astype(float)
    elif kind < 0.5:
        edges[-1] += n * 0.5
    elif kind < 0.6:
        edges[0] = 0.0
    # Keep off the right border, where the code is documented to clip.
    idx = rng.integers(0, levels, size=m)
    return [float(f) for f in fr], edges * spacing, idx


@family(quick=1000, thorough=12000, timeout=200)
def rendering(ck, rng):
    """PixelatedGrating shows the height profile on its pixels."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    spacing = rnd.choice([0.5, 1.0, 20.0, 0.25])
    n = rnd.randint(2, 9)
    divs = rnd.choice([1, 1, 2, 3, 4, 7])
    gdir, edir = rnd.sample([0, 1, 2], 2)
    fr, edges, idx = make_grating(rnd, rng, spacing, n, divs)
    ext = [0.0] * 3
    ext[gdir] = spacing * n
    ext[edir] = rnd.choice([0.22, 1.0, 40.0])
    ext[3 - gdir - edir] = rnd.choice([0.5, 10.0])
    pol = rnd.choice([1, -1])
    use_locs = rnd.random() < 0.5
    par = edges if use_locs else np.diff(np.r_[0, edges])
    with goos.OptimizationPlan():
        g = goos.grating.PixelatedGrating(
            goos.Constant(par), goos.Constant(idx), height_fracs=fr,
            pos=[1.0, -2.0, 0.5], extents=ext,
            material=goos.material.Material(index=1),
            material2=goos.material.Material(index=3.5), grating_dir=gdir,
            grating_dir_spacing=spacing, etch_dir=edir, etch_dir_divs=divs,
            etch_polarity=pol, use_edge_locs=use_locs).get()
    ck.event("rendered")
    if not use_locs:
        ck.event("rendered_widths")
    if pol < 0:
        ck.event("rendered_flipped")
    depths = np.array([(1 - f) * divs for f in fr])
    if np.any((np.abs(np.diff(depths)) < 1) & (np.abs(np.diff(depths)) > 0) &
              (np.floor(depths[1:]) == np.floor(depths[:-1]))):
        ck.event("several_levels_in_pixel")
    e = edges / spacing
    if e[-1] > n:
        ck.event("cut_off")
    # Row r is filled to the extent that it is not etched.
    want = np.zeros((n, divs))
    for r in range(divs):
        fill = [1 - max(0.0, min(d, r + 1) - r) for d in depths]
        want[:, r] = coverage(profile(e, [fill[i] for i in idx], n, 1.0), n)
    if pol < 0:
        want = want[:, ::-1]
    shape = [1, 1, 1]
    shape[gdir], shape[edir] = n, divs
    ck.require(list(g.array.shape) == shape, "array_shape",
               {"got": g.array.shape, "want": shape})
    got = np.moveaxis(g.array, [gdir, edir, 3 - gdir - edir], [0, 1, 2])
    ck.close(got[:, :, 0], want, "height_profile", rtol=0, atol=1e-4,
             detail={"edges": e.tolist(), "levels": idx.tolist(), "fr": fr,
                     "divs": divs})
    ck.close([complex(g.material.permittivity(1550.0)),
              complex(g.material2.permittivity(1550.0))], [1.0, 3.5**2],
             "materials", rtol=1e-9)
    if len(fr) > 1 and rnd.random() < 0.2:
        # Heights have to increase.
        i = rnd.randrange(len(fr) - 1)
        wrong = list(fr)
        wrong[i], wrong[i + 1] = wrong[i + 1], wrong[i]
        if wrong[i] > wrong[i + 1]:
            with goos.OptimizationPlan():
                ck.raises(ValueError, lambda: goos.grating.PixelatedGrating(
                    goos.Constant(par), goos.Constant(idx),
                    height_fracs=wrong, pos=[0, 0, 0], extents=ext,
                    material=goos.material.Material(index=1),
                    material2=goos.material.Material(index=2),
                    grating_dir=gdir, grating_dir_spacing=spacing,
                    etch_dir=edir), "decreasing_heights")
            ck.event("decreasing_heights")
    pix = list(ext)
    pix[gdir], pix[edir] = spacing, ext[edir] / divs
    ck.close(np.asarray(g.pixel_size), np.array(pix), "pixel_size",
             rtol=1e-12)
    ck.close(np.asarray(g.pos), np.array([1.0, -2.0, 0.5]), "position")
    ck.close(np.asarray(g.extents), np.array(ext), "extents", rtol=1e-12)
    ck.key(n, divs, gdir, edir, pol, use_locs, len(idx), len(fr))


@family(quick=160, thorough=1200, timeout=300)
def gradients(ck, rng):
    """Gradients of rendered gratings against finite differences."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    n, divs = rnd.randint(2, 6), rnd.choice([1, 2, 3])
    spacing = rnd.choice([0.5, 1.0])
    gdir, edir = rnd.choice([(0, 2), (1, 2), (0, 1), (2, 0)])
    levels = rnd.randint(2, 3)
    fr = sorted(float(v) for v in rng.uniform(0, 0.95, size=levels - 1))
    fr.append(1.0)
    m = rnd.randint(1, min(4, n))
    # One edge per pixel, away from the borders of the pixels.
    pix = np.sort(rng.permutation(n)[:m])
    edges = (pix + rng.uniform(0.05, 0.95, size=m)) * spacing
    idx = rng.integers(0, levels, size=m)
    ext = [1.0, 1.0, 1.0]
    ext[gdir] = spacing * n
    use_locs = rnd.random() < 0.5
    par = edges if use_locs else np.diff(np.r_[0, edges])
    with goos.OptimizationPlan():
        var = goos.Variable(par)
        g = goos.grating.PixelatedGrating(
            var, goos.Variable(idx, parameter=True), height_fracs=fr,
            pos=[0, 0, 0], extents=ext,
            material=goos.material.Material(index=1),
            material2=goos.material.Material(index=2), grating_dir=gdir,
            grating_dir_spacing=spacing, etch_dir=edir, etch_dir_divs=divs,
            etch_polarity=rnd.choice([1, -1]), use_edge_locs=use_locs)
        box = [2.0, 2.0, 2.0]
        box[gdir] = spacing * n + 1
        shape = maxwell.RenderShape(
            g, region=goos.Box3d(center=[0, 0, 0], extents=box),
            mesh=maxwell.UniformMesh(dx=0.25 * spacing), wavelength=1550)
        w = rng.normal(size=shape.get().array.shape)
        obj = goos.dot(shape, w)
        grad = np.array(obj.get_grad([var])[0].array_grad)
        num = np.zeros(m)
        step = 1e-3 * spacing
        for i in range(m):
            v = []
            for s in (step, -step):
                x = np.array(par)
                x[i] += s
                var.set(x)
                v.append(np.real(obj.get(run=True).array))
            num[i] = (v[0] - v[1]) / (2 * step)
    ck.event("gradients")
    ck.close(np.real(grad), num, "gradient", rtol=2e-3,
             atol=2e-3 * (1 + np.max(np.abs(num))),
             detail={"edges": edges.tolist(), "levels": idx.tolist()})
    ck.key(n, divs, gdir, use_locs, m)


@family(quick=640, thorough=8000, timeout=300)
def invdes_discretization(ck, rng):
    """Edges fitted to a continuous grating are the best ones."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    n = rnd.randint(4, 16) if rnd.random() < 0.95 else rnd.randint(41, 60)
    if n > 40:
        ck.event("long_gratings")
    x = random_target(rng, n)
    mf = rnd.choice([1.0, 1.5, 1.25, 2.0, 2.3, 3.0, 1.1,
                     round(rnd.uniform(1, 3), 3)])
    if mf > n / 2:
        mf = 1.5
    dx = rnd.choice([1.0, 40.0, 0.04])
    ck.raises(ValueError, lambda: inv_grating.GratingEdgeDiscretization(
        parametrization.DirectParam(x), rnd.uniform(0.1, 0.99) * dx, dx),
        "feature_below_pixel")
    inv = rnd.random() < 0.5
    cont = parametrization.DirectParam(x)
    disc = parametrization.GratingParam([], num_pixels=n, inverted=inv)
    trans = inv_grating.GratingEdgeDiscretization(cont, mf * dx, dx)
    trans(disc, None)
    edges = np.array(disc.to_vector(), dtype=float)
    ck.event("discretized_invdes")
    if inv:
        ck.event("inverted")
    if mf * 5 != int(mf * 5):
        ck.event("fractional_min_feature")
    ck.expect(len(edges) % 2 == 0 and bool(np.all(np.diff(edges) >= 0)) and
              (len(edges) == 0 or (edges[0] >= 0 and edges[-1] <= n)),
              "edges_ordered", {"edges": edges.tolist()})
    # Structure of the edges, independently rendered.
    pos = [0.0] + list(edges) + [float(n)]
    val = [(i % 2 == 0) == inv for i in range(len(pos) - 1)]
    struct = coverage([(pos[i], pos[i + 1], float(val[i]))
                       for i in range(len(val))], n)
    ck.close(np.asarray(disc.get_structure()), struct, "structure",
             atol=1e-9)
    inner = [e for e in edges if 1e-9 < e < n - 1e-9]
    if not inner:
        ck.event("uniform")
    ck.expect(all(b - a >= mf - 1e-9 for a, b in zip(inner, inner[1:])),
              "minimum_feature", {"edges": inner, "min_feature": mf})
    # Up to the rounding of the conversion to pixels.
    d = math.ceil(mf * 5 - 1e-8)
    opt = lattice_optimum(x, [0.0, 1.0], 5, [0, 1], [0, 1], [d, d],
                          [10**9] * 2, d, d, False)
    err = float(np.sum((struct - x)**2))
    ck.expect(err <= opt + 1e-9, "best_fit",
              {"error": err, "optimum": opt, "edges": edges.tolist(),
               "target": x.tolist(), "min_feature": mf, "inverted": inv})
    ck.expect(bool(np.all(cont.to_vector() == x)), "target_unchanged")
    ck.key(n, mf, inv, len(edges))


@family(quick=480, thorough=6000, timeout=300)
def goos_discretization(ck, rng):
    """The goos discretization finds the best grating of several levels."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    n = rnd.randint(3, 9)
    x = random_target(rng, n)
    levels = rnd.choice([2, 2, 3])
    fr = [0.0] + sorted(float(v) for v in rng.uniform(0.2, 0.8,
                                                      size=levels - 2))
    fr.append(1.0)
    div = rnd.choice([1, 2, 4, 5])
    pix = rnd.choice([1.0, 0.5, 64.0])
    per_level = rnd.random() < 0.5
    low = [rnd.choice([1.0, 1.0, 1.5, 2.0]) for _ in range(levels)]
    if not per_level:
        low = [low[0]] * levels
    high = None
    if rnd.random() < 0.4:
        high = [max(l, rnd.choice([2.0, 3.0, 4.0])) + 0.5 for l in low]
        if not per_level:
            high = [max(high)] * levels
        ck.event("max_features")
    start, end = rnd.randrange(levels), rnd.randrange(levels)
    use_locs = rnd.random() < 0.5
    if per_level:
        ck.event("per_level_features")
    if levels == 3:
        ck.event("three_levels")
    d_min = [math.ceil(l * div) for l in low]
    d_max = ([math.floor(h * div) for h in high] if high
             else [10**9] * levels)
    opt = lattice_optimum(x, fr, div, [start], [end], d_min, d_max, 0, 0,
                          True)
    if not np.isfinite(opt):
        ck.event("infeasible")
        return
    scale = lambda v: [pix * q for q in v] if per_level else pix * v[0]
    # The limits of the variable may differ from those of the search.
    blow, bhigh, kw = low, high, {}
    if rnd.random() < 0.3:
        ck.event("search_features")
        if rnd.random() < 0.7:
            blow = [l + 0.5 for l in low] if rnd.random() < 0.5 else (
                [1.0] * levels)
            kw["discr_min_features"] = scale(low)
        if high and rnd.random() < 0.5:
            bhigh = [h + 1.0 for h in high]
            kw["discr_max_features"] = scale(high)
    with goos.OptimizationPlan() as plan:
        cont = goos.Variable(x)
        var, ind, shape = goos.grating.discretize_to_pixelated_grating(
            cont, fr, pix, start, end, min_features=scale(blow),
            max_features=scale(bhigh) if high else None, divisions=div,
            **kw, use_edge_locs=use_locs, pos=[0, 0, 0],
            extents=[n * pix, 1.0, 1.0],
            material=goos.material.Material(index=1),
            material2=goos.material.Material(index=2), grating_dir=0,
            grating_dir_spacing=pix)
        plan.run()
        par = np.array(var.get().array, dtype=float)
        lev = [int(k) for k in np.atleast_1d(ind.get().array)]
        bounds = plan.get_var_bounds(var)
        struct = shape.get().array[:, 0, :]
    ck.event("discretized_goos")
    edges = (par if use_locs else np.cumsum(par)) / pix
    ck.require(len(lev) == len(edges) and len(edges) > 0, "edge_levels",
               {"edges": edges.tolist(), "levels": lev})
    ck.expect(lev[-1] == end, "end_level", {"levels": lev, "end": end})
    allv = [start] + lev
    ck.expect(all(a != b for a, b in zip(allv, allv[1:])), "levels_change",
              {"levels": allv})
    ck.expect(bool(np.all(np.diff(edges) >= -1e-9)) and edges[0] >= -1e-9 and
              edges[-1] <= n + 1e-9, "edges_ordered", {"edges":
                                                       edges.tolist()})
    pos = [0.0] + list(edges) + [float(n)]
    for i, l in enumerate(allv):
        size = pos[i + 1] - pos[i]
        if 0 < i < len(allv) - 1:
            ck.expect(size >= low[l] - 1e-9, "minimum_feature",
                      {"size": size, "level": l, "min": low})
        if high:
            ck.expect(size <= high[l] + 1e-9, "maximum_feature",
                      {"size": size, "level": l, "max": high})
    heights = coverage([(pos[i], pos[i + 1], fr[l])
                        for i, l in enumerate(allv)], n)
    err = float(np.sum((heights - x)**2))
    ck.expect(err <= opt + 1e-9, "best_fit",
              {"error": err, "optimum": opt, "edges": edges.tolist(),
               "levels": allv, "target": x.tolist(), "div": div})
    if start == levels - 1:
        ck.close(np.mean(np.asarray(struct), axis=1), heights,
                 "structure_is_fit", atol=1e-4)
    if not use_locs:
        ck.event("width_bounds")
        lo = np.broadcast_to(bounds[0], par.shape)
        hi = np.broadcast_to(bounds[1], par.shape)
        for i in range(1, len(par)):
            l = allv[i]
            ck.close(float(lo[i]), blow[l] * pix, "width_lower_bound",
                     detail={"levels": allv, "i": i})
            ck.expect((hi[i] == np.inf) if not high else
                      abs(hi[i] - bhigh[l] * pix) < 1e-9, "width_upper_bound",
                      {"levels": allv, "i": i, "got": float(hi[i])})
    ck.key(n, levels, div, per_level, bool(high), use_locs, len(edges))


@family(quick=800, thorough=10000, timeout=100)
def constraints(ck, rng):
    """Fabrication constraints: definition and derivatives."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    mf = rnd.uniform(0, 3) if rnd.random() < 0.9 else 0
    bs = rnd.choice([0.0, 1.0, 2.0, None])
    con = (problem.GratingFeatureConstraint(mf) if bs is None else
           problem.GratingFeatureConstraint(mf, boundary_constraint_scale=bs))
    bs = 2 if bs is None else bs
    parts = []
    for _ in range(rnd.choice([1, 1, 2, 3])):
        n = rnd.randint(4, 20)
        m = 2 * rnd.choice([0, 1, 2, 3])
        e = np.sort(rng.uniform(0, n, size=m))
        parts.append((n, e, parametrization.GratingParam(e, num_pixels=n)))
    if len(parts) == 1:
        par = parts[0][2]
    else:
        par = parametrization.CompositeParam([p[2] for p in parts])
        ck.event("composite_constraints")

    def want(vecs):
        out = []
        for (n, _, _), v in zip(parts, vecs):
            if len(v) == 0:
                continue
            out += [mf - (b - a) for a, b in zip(v, v[1:])]
            out += [bs * mf - v[0], v[-1] - n + bs * mf]
        return np.array(out)

    vecs = [p[1] for p in parts]
    if any(len(v) == 0 for v in vecs):
        ck.event("empty_grating")
    ck.event("feature_constraints")
    got = np.asarray(con.calculate_objective_function(par))
    ck.close(got, want(vecs), "feature_constraint", rtol=1e-12, atol=1e-12)
    jac = np.asarray(con.calculate_gradient(par))
    size = sum(len(v) for v in vecs)
    num = np.zeros((len(want(vecs)), size))
    flat = np.concatenate(vecs)
    cuts = np.cumsum([len(v) for v in vecs])[:-1]
    for i in range(size):
        d = np.zeros(size)
        d[i] = 1.0
        num[:, i] = want(np.split(flat + d, cuts)) - want(np.split(flat,
                                                                   cuts))
    if jac.shape == num.shape:
        ck.close(jac, num, "feature_constraint_gradient", atol=1e-12)
    else:
        ck.expect(jac.size == num.size == 0, "feature_constraint_shape",
                  {"got": jac.shape, "want": num.shape})
    ck.raises(ValueError, lambda: problem.GratingFeatureConstraint(-1.0),
              "negative_feature")

    # goos.
    m = rnd.randint(2, 5)
    length = rnd.uniform(2, 8)
    edges = np.sort(rng.uniform(-0.5, length + 0.5, size=m))
    idx = rng.integers(0, 3, size=m)
    low = [rnd.uniform(0.1, 1) for _ in range(3)]
    scalar = rnd.random() < 0.4
    with goos.OptimizationPlan() as plan:
        var = goos.Variable(edges)
        level = goos.Variable(idx, parameter=True)
        c = goos.grating.EdgeLocConstraint(
            var, level,
            low[0] if scalar else low, length)
        if rnd.random() < 0.4:
            # The number of edges changes when a grating is discretized.
            before = rnd.choice([q for q in range(2, 7) if q != m])
            var.set(np.sort(rng.uniform(0, length, size=before)))
            level.set(rng.integers(0, 3, size=before))
            c.get(run=True)
            plan.eval_grad(c, [var])
            var.set(edges)
            level.set(idx)
            ck.event("edge_count_changes")
        got = np.asarray(c.get(run=True).array)
        jac = np.asarray(plan.eval_grad(c, [var])[0].array_grad)

    def edge_want(v):
        return np.array([(low[0] if scalar else low[idx[i]]) -
                         (v[i + 1] - v[i]) for i in range(m - 1)] +
                        [-v[0], v[-1] - length])

    ck.event("edge_loc_constraints")
    ck.close(got, edge_want(edges), "edge_loc_constraint", atol=1e-12)
    num = np.stack([edge_want(edges + np.eye(m)[i]) - edge_want(edges)
                    for i in range(m)], axis=1)
    ck.close(jac, num, "edge_loc_gradient", atol=1e-12)
    # Constraints of the multi-level parametrization.
    q = rnd.randint(2, 6)
    length = rnd.randint(5, 20)
    mf = rnd.choice([0, 0.5, 1.25])
    par = goos.grating.MultiEtchEdgeParametrization(
        (length, 4), [0.5], np.sort(rng.uniform(0, length, size=q)),
        [i % 2 for i in range(q)], min_feature=mf)
    x = rng.uniform(-1, length + 1, size=q)
    margin = np.concatenate([np.diff(x) - mf, x, length - x])
    rows = np.concatenate([np.diff(np.eye(q), axis=0), np.eye(q), -np.eye(q)])
    cons = par.build_constraints()
    ck.expect(all(c["type"] == "ineq" for c in cons), "multi_etch_constraint",
              {"types": [c["type"] for c in cons]})
    vals = np.concatenate([np.atleast_1d(c["fun"](x)) for c in cons])
    jacs = np.concatenate([np.atleast_2d(c["jac"](x)) for c in cons])

    def table(v, j):
        # In any order.
        t = np.column_stack([v, j]).round(9) + 0.0
        return t[np.lexsort(t.T)]

    ck.require(vals.shape == margin.shape and jacs.shape == rows.shape,
               "multi_etch_constraint", {"got": vals.shape})
    ck.close(table(vals, jacs), table(margin, rows), "multi_etch_constraint",
             atol=1e-7)
    ck.event("multi_etch_constraints")
    ck.key(len(parts), m, scalar, bs)


@family(quick=800, thorough=8000, timeout=100)
def grating_params(ck, rng):
    """GratingParam: rendering, forward derivative, restored state."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    n = rnd.randint(2, 9)
    m = 2 * rnd.randint(0, 3)
    e = rng.uniform(-0.5, n + 0.5, size=m)
    whole = rng.uniform(size=m) < 0.4
    e[whole] = np.round(e[whole])
    # Two edges at the same place move past each other; keep them apart.
    e = np.unique(e)
    if len(e) % 2:
        e = e[1:]
    if np.any(e == np.round(e)):
        ck.event("edges_between_pixels")
    inv = rnd.random() < 0.5
    par = parametrization.GratingParam(rng.permutation(e), num_pixels=n,
                                       inverted=inv)

    def struct(v):
        v = np.clip(v, 0, n)
        out = coverage([(v[i], v[i + 1], 1.0)
                        for i in range(0, len(v), 2)], n)
        return 1 - out if inv else out

    ck.close(np.asarray(par.to_vector()), e, "edges_sorted", atol=1e-12)
    ck.close(np.asarray(par.get_structure()), struct(e), "structure",
             atol=1e-9)
    h = 1e-6
    gap = np.min(np.diff(e)) if len(e) > 1 else 1.0
    if gap > 10 * h:
        num = np.zeros((n, len(e)))
        for i in range(len(e)):
            v = e.copy()
            v[i] += h
            num[:, i] = (struct(v) - struct(e)) / h
        jac = par.calculate_gradient()
        jac = np.asarray(jac @ np.eye(len(e)) if len(e) else jac)
        ck.event("param_gradients")
        ck.close(jac, num.reshape(jac.shape), "param_gradient", atol=1e-6,
                 detail={"edges": e.tolist(), "inverted": inv})
    data = par.serialize()
    other = parametrization.GratingParam(
        np.sort(rng.uniform(0, n, size=2 * rnd.randint(0, 2))), num_pixels=n,
        inverted=not inv)
    other.deserialize(data)
    ck.event("restored")
    ck.close(np.asarray(other.get_structure()), struct(e), "restored",
             atol=1e-9, detail={"inverted": inv})
    ck.raises(ValueError, lambda: parametrization.GratingParam(
        [0.5] * (2 * rnd.randint(0, 3) + 1), num_pixels=n), "odd_edges")
    ck.key(n, len(e), inv, bool(np.any(whole)))


@family(quick=160, thorough=1600, timeout=200)
def constrained(ck, rng):
    """Optimizing edge locations under the constraint finds the optimum."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    m = rnd.randint(2, 4)
    length = float(m + 3)
    mf = rnd.uniform(0.3, 1.0)
    target = np.sort(rng.uniform(-1.5, length + 1.5, size=m))
    start = np.linspace(0.5, length - 0.5, m)
    with goos.OptimizationPlan() as plan:
        var = goos.Variable(start)
        c = goos.grating.EdgeLocConstraint(
            var, goos.Variable([0] * m, parameter=True), mf, length)
        obj = goos.Norm(var - target)**2
        goos.opt.scipy_minimize(obj, "SLSQP", constraints_ineq=[c],
                                max_iters=200, ftol=1e-12)
        plan.run()
        got = np.array(var.get().array)
    # Projection onto the ordered simplex: isotonic regression with bounds.
    shift = mf * np.arange(m)
    t = target - shift
    blocks = []
    for v in t:
        blocks.append([v, 1])
        while len(blocks) > 1 and blocks[-2][0] > blocks[-1][0]:
            a, b = blocks.pop(), blocks.pop()
            blocks.append([(a[0] * a[1] + b[0] * b[1]) / (a[1] + b[1]),
                           a[1] + b[1]])
    iso = np.concatenate([[v] * k for v, k in blocks])
    want = np.clip(iso, 0, length - mf * (m - 1)) + shift
    ck.event("edge_loc_optimized")
    ck.close(got, want, "constrained_optimum", rtol=0, atol=2e-4,
             detail={"target": target.tolist(), "mf": mf, "length": length})
    ck.key(m, round(mf, 1))


@family(quick=400, thorough=4000, timeout=100)
def barcodes(ck, rng):
    """BarcodeGrating makes one box per pair of neighbouring edges."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    m = rnd.randint(2, 6)
    edges = np.sort(rng.uniform(0, 1, size=m))
    single = rnd.random() < 0.5
    thick = rng.uniform(0.1, 1, size=1 if single else m - 1)
    gdir, edir = rnd.sample([0, 1, 2], 2)
    pos = [rnd.choice([0, 1, 0.25, -2]) for _ in range(3)]
    ext = [rnd.choice([2, 10, 0.5, 1]) for _ in range(3)]
    with goos.OptimizationPlan():
        boxes = goos.grating.BarcodeGrating(
            goos.Constant(edges), goos.Constant(thick), pos, ext,
            goos.material.Material(index=2), grating_dir=gdir,
            etch_dir=edir).get()
    ck.event("barcodes")
    ck.require(len(boxes) == m - 1, "number_of_boxes", {"got": len(boxes)})
    for i in range(m - 1):
        p, e = np.array(pos, dtype=float), np.array(ext, dtype=float)
        p[gdir] += ext[gdir] * ((edges[i] + edges[i + 1]) / 2 - 0.5)
        e[gdir] *= edges[i + 1] - edges[i]
        e[edir] *= thick[0 if single else i]
        ck.close(np.asarray(boxes[i].pos), p, "box_position", atol=1e-12)
        ck.close(np.asarray(boxes[i].extents), e, "box_extents", atol=1e-12)
    ck.key(m, gdir, edir, single)
