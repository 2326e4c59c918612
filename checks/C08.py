"""C08: shapes, groups and their rendering to permittivity (values, gradients).
"""
import numpy as np

from vlib import geom
from vlib.core import family
from spins import goos
from spins.goos_sim import maxwell

RULE = ("random scenes of cuboids, cylinders, pixelated and cubic-parametrized "
        "shapes in nested groups with random priorities, translations and "
        "variable positions, rendered on random regions, meshes and "
        "symmetries; permittivities of all three components are compared with "
        "the exact volume average, gradients of real objectives of the "
        "rendered permittivity with the exact derivative; distinct by scene")
REQUIRED_EVENTS = [
    "render_compared", "cuboid", "cylinder", "pixelated", "nested_group",
    "priorities", "translated", "moved", "gradients_compared",
    "shape_used_twice", "complex_objective", "cut_pixels", "cubic_param",
    "symmetric_params", "periodic_params", "bounded_params",
    "symmetric_mesh", "region_slices", "two_components_matter",
    "group_translated", "shared_group", "gradient_after_other_value",
    "result_kept", "position_changed"
]


def _region(ck, rng):
    dx = float(rng.choice([20.0, 40.0, 50.0]))
    n = [int(rng.integers(1, 7)) for _ in range(3)]
    sym = [0, 0, 0]
    if rng.random() < 0.3:
        ck.event("symmetric_mesh")
        sym = [int(rng.integers(0, 3)) for _ in range(3)]
        n = [2 * k if s else k for k, s in zip(n, sym)]
    c = [float(v) for v in rng.choice([0.0, 0.0, 30.0, -110.0, 12.5], 3)]
    region = goos.Box3d(center=c, extents=[k * dx for k in n])
    edges = [cc + dx * (np.arange(k + 1) - k / 2) for cc, k in zip(c, n)]
    return region, dx, sym, edges


def _index(rng):
    if rng.random() < 0.2:
        return complex(round(rng.uniform(1, 3.5), 3),
                       round(rng.uniform(0, 0.4), 3))
    return float(round(rng.uniform(1, 3.6), 3))


def _box(rng, edges, dx):
    c, s = [], []
    for e in edges:
        lo, hi = e[0] - dx, e[-1] + dx
        while True:
            p, q = sorted(np.round(rng.uniform(lo, hi, 2) / (dx / 8)) * dx / 8)
            if rng.random() < 0.3:
                p, q = sorted([float(rng.choice(e)), q])
            if q - p >= dx / 4:
                break
        c.append((p + q) / 2)
        s.append(q - p)
    return np.array(c), np.array(s)


def _disjoint(b1, b2):
    (c1, s1), (c2, s2) = b1, b2
    return bool(np.any(np.abs(c1 - c2) >= (s1 + s2) / 2))


def pixel_edges(extents, pixel):
    """Edges of the pixels relative to the center of the shape.

    Full pixels are centered; pixels at the border are cut by the extents.
    """
    out = []
    for L, p in zip(extents, pixel):
        n = int(np.ceil(L / p - 1e-9))
        e = p * (np.arange(n + 1) - n / 2)
        e[0], e[-1] = -L / 2, L / 2
        out.append(e)
    return out


class Scene:

    def __init__(self, ck, rng, edges, dx, only=None, int_pos=False):
        self.ck, self.rng, self.edges, self.dx = ck, rng, edges, dx
        self.items = []  # (priority, [(polygon, z0, z1, eps)], tol)
        self.pixelated = []  # (var, box, pixel edges, eps1, eps2)
        self.moves = []

    def make(self, kind):
        rng, ck = self.rng, self.ck
        c, s = _box(rng, self.edges, self.dx)
        n1 = _index(rng)
        off = np.zeros(3)
        shift = rng.random() < 0.3
        if shift:
            off = np.round(rng.uniform(-1, 1, 3) * self.dx * 4) / 8
            ck.event("translated")
        pos_v = c
        if rng.random() < 0.3:
            pos_v = np.round(c).astype(int)  # integer positions
        pos = (goos.Variable(pos_v) if rng.random() < 0.4 else goos.Constant(
            [float(v) for v in pos_v] if rng.random() < 0.5 else pos_v))
        p = np.asarray(pos_v, float) + off
        prio = 0
        if kind == "cuboid":
            prio = int(rng.choice([0, 0, 1, -1, 2]))
            if prio:
                ck.event("priorities")
            sh = goos.Cuboid(extents=goos.Constant(s), pos=pos, priority=prio,
                             material=goos.material.Material(index=n1))
            objs = [(geom.rect(p, s), p[2] - s[2] / 2, p[2] + s[2] / 2,
                     n1**2)]
            tol = 0
        elif kind == "cylinder":
            r = float(max(s[0], s[1]) / 2)
            s = np.array([2 * r, 2 * r, s[2]])
            sh = goos.Cylinder(pos=pos, radius=goos.Constant(r),
                               height=goos.Constant(float(s[2])),
                               material=goos.material.Material(index=n1))
            n = max(int(np.ceil(0.3 * 2 * np.pi * r)), 8)
            objs = [(geom.circle(p, r, n), p[2] - s[2] / 2, p[2] + s[2] / 2,
                     n1**2)]
            tol = 1.5 * r * (1 - np.cos(np.pi / (n - 1)))
        else:
            n2 = _index(rng)
            div = rng.integers(1, 4, 3)
            px = s / div
            if rng.random() < 0.3:
                px = np.minimum(px * 1.3, s)
                ck.event("cut_pixels")
            e = pixel_edges(s, px)
            shape = [len(x) - 1 for x in e]
            init = rng.random(shape)
            var, sh = goos.pixelated_cont_shape(
                initializer=lambda size: init.reshape(size),
                extents=s, pixel_size=px, pos=pos,
                material=goos.material.Material(index=n1),
                material2=goos.material.Material(index=n2))
            objs = []
            e = [x + q for x, q in zip(e, p)]
            for i in range(shape[0]):
                for j in range(shape[1]):
                    for k in range(shape[2]):
                        cc = [(e[0][i] + e[0][i + 1]) / 2,
                              (e[1][j] + e[1][j + 1]) / 2]
                        ss = [e[0][i + 1] - e[0][i], e[1][j + 1] - e[1][j]]
                        objs.append((geom.rect(cc, ss), e[2][k], e[2][k + 1],
                                     n1**2 + (n2**2 - n1**2) * init[i, j, k]))
            tol = 0
        if shift:
            sh = sh.translate(off if rng.random() < 0.5 else list(off))
        if kind == "pixelated":
            self.pixelated.append(dict(var=var, edges=e, eps=(n1**2, n2**2),
                                       init=init, box=(p, s)))
        it = dict(priority=prio, objs=objs, tol=tol, kind=kind, box=(p, s),
                  shift=np.zeros(3))
        if isinstance(pos, goos.Variable) and kind != "pixelated":
            self.moves.append((pos, np.array(pos_v, float), it))
        return sh, it


def _scene(ck, rng, edges, dx, kinds, need_pix=False):
    """Builds a (possibly nested) group; returns shape, items in draw order."""
    sc = Scene(ck, rng, edges, dx)
    while True:
        leaves = []
        for k in kinds:
            sc.pixelated = [q for q in sc.pixelated
                            if any(q["box"] is l[1]["box"] for l in leaves)]
            for _ in range(20):
                n_pix = len(sc.pixelated)
                sh, it = sc.make(k)
                ok = True
                for _, other in leaves:
                    # Pixelated regions may not be covered later on.
                    a, b = (it, other) if it["priority"] < other[
                        "priority"] else (other, it)
                    pix = a["kind"] == "pixelated" or (
                        it["kind"] == "pixelated" and
                        other["kind"] == "pixelated")
                    if pix and not _disjoint(a["box"], b["box"]):
                        ok = False
                if ok:
                    if k == "pixelated":
                        sc.pixelated[-1]["box"] = it["box"]
                    leaves.append((sh, it))
                    ck.event(k)
                    break
                del sc.pixelated[n_pix:]
        break
    order = [it for _, it in leaves]
    shapes = [sh for sh, _ in leaves]
    if len(shapes) == 1 and rng.random() < 0.6:
        top = shapes[0]
    elif len(shapes) > 2 and rng.random() < 0.5:
        k = int(rng.integers(1, len(shapes) - 1))
        ck.event("nested_group")
        top = goos.GroupShape(
            [goos.GroupShape(shapes[:k])] + shapes[k:] if rng.random(
            ) < 0.5 else [goos.GroupShape([goos.GroupShape(shapes[:k])]),
                          goos.GroupShape(shapes[k:])])
    else:
        top = goos.GroupShape(shapes)
    # Nested groups are sorted on their own first, then all together; with a
    # stable sort this is the stable sort by priority.
    order = sorted(order, key=lambda it: it["priority"])
    return top, order, sc


def _expect_eps(order, bg, edges, comp):
    objs = []
    for it in order:
        objs += it["objs"]
    # Pixels of one shape do not overlap: averaging shape by shape keeps the
    # inclusion-exclusion small.
    cells = geom.yee_cells(edges, comp)
    total = np.full([len(c) - 1 for c in cells], 0, dtype=complex)
    rest = np.ones_like(total)
    gx, gy, gz = cells
    zs = np.unique([z for o in objs for z in (o[1], o[2])])
    for z0, z1 in zip(zs[:-1], zs[1:]):
        m = (z0 + z1) / 2
        wz = geom.overlap_1d(z0, z1, gz)
        if not wz.any():
            continue
        live = [[o for o in it["objs"] if o[1] < m < o[2]] for it in order]
        hulls = []
        for it, l in zip(order, live):
            if not l:
                hulls.append(None)
            elif it["kind"] == "pixelated":
                hulls.append(geom.rect(it["box"][0], it["box"][1]))
            else:
                hulls.append(l[0][0])
        for i, l in enumerate(live):
            later = [h for h in hulls[i + 1:] if h is not None]
            for o in l:
                w = geom.visible_fractions([o[0]] + later, gx, gy)[0]
                total += o[3] * w[:, :, None] * wz
                rest -= w[:, :, None] * wz
    return total + bg * rest


@family(quick=350, thorough=3500)
def rendering(ck, rng):
    region, dx, sym, edges = _region(ck, rng)
    n = int(rng.integers(1, 5))
    kinds = [str(rng.choice(["cuboid", "cuboid", "cylinder", "pixelated"]))
             for _ in range(n)]
    with goos.OptimizationPlan(autorun=bool(rng.integers(2))):
        top, order, sc = _scene(ck, rng, edges, dx, kinds)
        bgi = _index(rng)
        bg = bgi**2
        kw = {}
        if rng.random() < 0.15:
            bg = 0
        else:
            kw["background"] = goos.material.Material(index=bgi)
        if any(sym):
            kw["simulation_symmetry"] = sym
        rend = maxwell.RenderShape(top, region=region,
                                   mesh=maxwell.UniformMesh(dx=dx),
                                   wavelength=1550, num_points_per_arclen=0.3,
                                   **kw)
        ck.key("r", kinds, dx, [len(e) for e in edges],
               [np.round(it["box"][0], 2) for it in order])
        tol = sum(it["tol"] for it in order) + (3e-3 * 4 if len(order) > 1
                                                else 0)

        def compare(mech):
            got = np.asarray(rend.get(run=True).array)
            ck.expect(got.shape == (3,) + tuple(len(e) - 1 for e in edges),
                      "render-shape", {"got": got.shape})
            for comp in range(3):
                want = _expect_eps(order, bg, edges, comp)
                ck.event("render_compared")
                ck.close(got[comp], want, mech, rtol=0,
                         atol=13 * tol / dx + 1e-8, detail=lambda: {
                             "comp": comp, "kinds": [i["kind"] for i in order],
                             "boxes": [i["box"] for i in order],
                             "edges": edges})

        compare("render-average")
        ck.sample({"kinds": kinds, "dx": dx})
        # New variable values give the new permittivity.
        if sc.pixelated:
            ck.event("moved")
            q = sc.pixelated[int(rng.integers(len(sc.pixelated)))]
            new = rng.random(q["init"].shape)
            q["var"].set(new)
            e1, e2 = q["eps"]
            it = [i for i in order if i["box"] is q["box"]][0]
            it["objs"] = [o[:3] + (e1 + (e2 - e1) * v,)
                          for o, v in zip(it["objs"], new.ravel())]
            compare("render-after-set")
        mov = [m for m in sc.moves if any(m[2] is it for it in order)]
        pix = any(it["kind"] == "pixelated" for it in order)
        if mov and not pix:
            ck.event("position_changed")
            var, p0, it = mov[int(rng.integers(len(mov)))]
            d = np.round(rng.uniform(-1.5, 1.5, 3) * 8) / 8 * dx
            var.set(p0 + d)
            it["objs"] = [([tuple(np.asarray(q) + d[:2]) for q in o[0]],
                           o[1] + d[2], o[2] + d[2], o[3])
                          for o in it["objs"]]
            compare("render-after-move")


@family(quick=250, thorough=2500)
def gradients(ck, rng):
    region, dx, sym, edges = _region(ck, rng)
    n = int(rng.integers(1, 4))
    kinds = ["pixelated"] + [
        str(rng.choice(["cuboid", "pixelated"])) for _ in range(n - 1)
    ]
    kinds = [kinds[int(k)] for k in rng.permutation(len(kinds))]
    with goos.OptimizationPlan():
        top, order, sc = _scene(ck, rng, edges, dx, kinds)
        if not sc.pixelated:
            return
        kw = dict(background=goos.material.Material(index=1.5))
        if any(sym):
            kw["simulation_symmetry"] = sym
        twice = rng.random() < 0.5
        rends = [maxwell.RenderShape(top, region=region,
                                     mesh=maxwell.UniformMesh(dx=dx),
                                     wavelength=1550, **kw)
                 for _ in range(2 if twice else 1)]
        if twice:
            ck.event("shape_used_twice")
        shape = (3,) + tuple(len(e) - 1 for e in edges)
        terms, weights, ds = [], [], []
        for r in rends:
            if rng.random() < 0.6:
                w = rng.normal(size=shape) + 1j * rng.normal(size=shape)
                ck.event("complex_objective")
            else:
                w = rng.normal(size=shape)
            if rng.random() < 0.3:
                w[int(rng.integers(3))] = 0
            else:
                ck.event("two_components_matter")
            f = goos.dot(w, r)
            terms.append(goos.abs(f))
            weights.append(w)
        obj = terms[0]
        for t in terms[1:]:
            obj = obj + t
        ck.key("g", kinds, dx, [len(e) for e in edges], twice,
               [np.round(it["box"][0], 2) for it in order])
        variables = [q["var"] for q in sc.pixelated]
        eps = [np.asarray(r.get(run=True).array) for r in rends]
        grads = obj.get_grad(variables)
        for q, g in zip(sc.pixelated, grads):
            e1, e2 = q["eps"]
            want = np.zeros(q["init"].shape)
            for w, ep in zip(weights, eps):
                d = np.sum(w * ep)
                for comp in range(3):
                    cells = geom.yee_cells(edges, comp)
                    cov = [np.array([geom.overlap_1d(pe[i], pe[i + 1], ce)
                                     for i in range(len(pe) - 1)])
                           for pe, ce in zip(q["edges"], cells)]
                    lin = (e2 - e1) * np.einsum("ai,bj,ck,ijk->abc", cov[0],
                                                cov[1], cov[2], w[comp])
                    want += np.real(np.conj(d) / np.abs(d) * lin)
            ck.event("gradients_compared")
            ck.close(g.array_grad, want, "render-gradient", rtol=1e-6,
                     atol=1e-7 * (1 + sum(np.abs(w).max() for w in weights)),
                     detail=lambda: {"kinds": kinds, "twice": twice})
        # Asking again gives the same answer.
        again = obj.get_grad(variables)
        for a, b in zip(again, grads):
            ck.close(a.array_grad, b.array_grad, "gradient-repeatable")


@family(quick=40, thorough=300)
def cubic_param(ck, rng):
    dx = 40.0
    nx, ny = int(rng.integers(4, 9)), int(rng.integers(4, 9))
    with goos.OptimizationPlan():
        kw = {}
        r = rng.random()
        if r < 0.3:
            kw["reflection_symmetry"] = [int(rng.integers(2)) for _ in "xy"]
        elif r < 0.6:
            per = [int(rng.integers(0, 4)) for _ in "xy"]
            nx, ny = [max(1, p) * int(rng.integers(4, 7)) if p else n
                      for p, n in zip(per, (nx, ny))]
            kw["periods"] = per
            if rng.random() < 0.4:
                kw["reflection_symmetry"] = [int(rng.integers(2))
                                             for _ in "xy"]
        var, design = goos.cubic_param_shape(
            initializer=lambda size: rng.uniform(0.2, 0.8, size),
            extents=[nx * dx, ny * dx, 100.0], pixel_spacing=dx,
            control_point_spacing=float(rng.choice([1.5, 2.0, 2.5])) * dx,
            pos=[0.0, 0.0, 0.0],
            material=goos.material.Material(index=1.0),
            material2=goos.material.Material(index=3.0), **kw)
        rend = maxwell.RenderShape(
            design,
            region=goos.Box3d(center=[0, 0, 0],
                              extents=[(nx + 2) * dx, (ny + 2) * dx, dx]),
            mesh=maxwell.UniformMesh(dx=dx), wavelength=1550,
            background=goos.material.Material(index=1.0))
        ck.event("cubic_param")
        ck.key("c", nx, ny, np.round(var.get().array, 5))
        arr = np.asarray(design.get().array)
        ck.expect(arr.shape == (nx, ny, 1), "param-shape", {"got": arr.shape})
        for a in range(2):
            if kw.get("reflection_symmetry", [0, 0])[a]:
                ck.close(arr, np.flip(arr, a), "param-symmetry", rtol=1e-9,
                         scale=1, detail=kw)
                ck.event("symmetric_params")
            if kw.get("periods", [0, 0])[a] > 1:
                ck.close(arr, np.roll(arr, arr.shape[a] // kw["periods"][a],
                                      a), "param-periods", rtol=1e-9, scale=1,
                         detail=kw)
                ck.event("periodic_params")
        # The rendered permittivity is the one of the pixels (z component lies
        # on the pixel corners in x and y: average of four pixels).
        full = np.zeros((nx + 2, ny + 2))
        full[1:-1, 1:-1] = arr[:, :, 0]
        pad = np.pad(full, ((1, 0), (1, 0)))
        want = 1 + 8 * (pad[1:, 1:] + pad[:-1, 1:] + pad[1:, :-1] +
                        pad[:-1, :-1]) / 4
        ck.close(rend.get(run=True).array[2][:, :, 0], want, "param-render",
                 rtol=1e-7)
        shape = (3, nx + 2, ny + 2, 1)
        w = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        obj = goos.abs(goos.dot(w, rend))
        g = obj.get_grad([var])[0].array_grad
        v0 = np.array(var.get().array)
        ck.expect(np.shape(g) == v0.shape, "param-gradient-shape")
        d = rng.normal(size=v0.shape)
        h = 1e-4

        def at(t):
            var.set(v0 + t * d)
            return float(obj.get(run=True).array)

        num = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
        ck.event("gradients_compared")
        ck.close(np.sum(g * d), num, "param-gradient", rtol=1e-5,
                 scale=np.sum(np.abs(g * d)))
        # The structure varies between none and all of the second material.
        side = int(rng.integers(2))
        var.set(v0)
        total = goos.dot(np.full(v0.shape, 1.0 - 2 * side), var)
        goos.opt.scipy_minimize(total, "L-BFGS-B", max_iters=60)
        goos.get_default_plan().run()
        ck.close(var.get().array, np.full(v0.shape, float(side)),
                 "param-bounds", rtol=0, atol=1e-9)
        ck.event("bounded_params")


@family(quick=300, thorough=3000)
def meshing(ck, rng):
    """Mesh edges and region slices."""
    dx = float(rng.choice([20.0, 40.0, 0.5, 33.0]))
    ext = [float(np.round(rng.uniform(0.1, 9), 2) * dx) for _ in range(3)]
    sym = [int(rng.choice([0, 0, 1, 2])) for _ in range(3)]
    ext = [max(e, 2 * dx) if s else e for e, s in zip(ext, sym)]
    c = [float(np.round(rng.uniform(-5, 5), 2) * dx) for _ in range(3)]
    e = maxwell.create_edge_coords(goos.Box3d(center=c, extents=ext), dx,
                                   sym if rng.random() < 0.9 or any(sym)
                                   else None)
    ck.key("m", dx, ext, sym, c)
    for a in range(3):
        n = len(e[a]) - 1
        ck.close(np.diff(e[a]), np.full(n, dx), "mesh-spacing",
                 rtol=1e-9, scale=abs(c[a]) + ext[a])
        ck.close((e[a][0] + e[a][-1]) / 2, c[a], "mesh-centered",
                 scale=dx + abs(c[a]))
        if sym[a]:
            ck.event("symmetric_mesh")
            ck.expect(n % 2 == 0, "symmetric-mesh-even", {"n": n})
            ck.expect(abs(n * dx - ext[a]) < 2 * dx, "mesh-extent")
        else:
            ck.expect(n >= 1 and abs(n * dx - max(ext[a], dx)) <= dx / 2 *
                      (1 + 1e-9), "mesh-extent", {"n": n, "ext": ext[a]})
    lo, hi = [], []
    for a in range(3):
        w = e[a][-1] - e[a][0]
        p, q = sorted(rng.uniform(e[a][0] - 0.3 * w, e[a][-1] + 0.3 * w, 2))
        p, q = min(p, e[a][-1] - 1e-3 * dx), max(q, e[a][0] + 1e-3 * dx)
        if rng.random() < 0.3:
            q = p = (p + q) / 2
            p = q = min(max(p, e[a][0] + 0.01 * dx), e[a][-1] - 0.01 * dx)
        lo.append(p)
        hi.append(q)
    lo, hi = np.array(lo), np.array(hi)
    sl = maxwell.create_region_slices(e, (lo + hi) / 2, hi - lo)
    ck.event("region_slices")
    for a in range(3):
        n = len(e[a]) - 1
        s0, s1 = int(sl[a].start), int(sl[a].stop)
        ck.expect(0 <= s0 < s1 <= n, "slice-within-grid",
                  {"slice": str(sl), "n": n})
        cl, ch = max(lo[a], e[a][0]), min(hi[a], e[a][-1])
        # The slice covers the region up to one cell on either side.
        ck.expect(e[a][s0] - 1e-9 <= cl + 1e-9 * dx + 1e-9 and
                  cl - e[a][s0] <= dx * (1 + 1e-9),
                  "slice-covers-region", {"axis": a, "lo": cl, "s": s0,
                                          "e": e[a]})
        ck.expect(abs(e[a][s1] - ch) <= dx * (1 + 1e-9),
                  "slice-covers-region", {"axis": a, "hi": ch, "s": s1,
                                          "e": e[a]})
        if lo[a] < e[a][0] and hi[a] > e[a][-1]:
            ck.expect((s0, s1) == (0, n), "slice-full")


@family(quick=100, thorough=800)
def pixel_geometry(ck, rng):
    unit = float(rng.choice([1.0, 0.1, 40.0]))
    px = unit * rng.choice([1.0, 2.0, 0.5, 3.0, 0.7], 3)
    k = rng.integers(1, 16, 3)
    frac = rng.choice([0.0, 0.0, 0.5, 0.25, 0.004], 3)
    ext = px * (k + frac)
    F = goos.PixelatedContShapeFlow
    ck.key("p", px, ext)
    e = F.get_relative_edge_coords(ext, px)
    cc = F.get_relative_cell_coords(ext, px)
    sh = F.get_shape(ext, px)
    ref = pixel_edges(ext, px)
    for a in range(3):
        ck.expect(len(e[a]) - 1 == sh[a] == len(cc[a]) == len(ref[a]) - 1,
                  "pixel-count", {"ext": ext, "px": px, "shape": sh})
        if len(e[a]) == len(ref[a]):
            ck.close(e[a], ref[a], "pixel-edges")
            ck.close(cc[a], (ref[a][1:] + ref[a][:-1]) / 2, "pixel-centers")
    arr = rng.random((4, 5, 6))
    ind = [None if rng.random() < 0.4 else int(rng.integers(0, n))
           for n in arr.shape]
    want = arr[tuple(slice(None) if i is None else slice(i, i + 1)
                     for i in ind)]
    got = arr[goos.util.make_slice(*ind)]
    ck.close(got, want, "make-slice", detail={"ind": ind})


@family(quick=1, thorough=1)
def covered_pixels(ck, rng):
    """A pixelated shape that is covered by a shape drawn after it.

    Known finding: the contrast of the pixels is added on top of every other
    shape, see known_findings.jsonl.
    """
    mat = lambda n: goos.material.Material(index=n)
    ck.key("covered")
    with goos.OptimizationPlan():
        var, design = goos.pixelated_cont_shape(
            initializer=np.ones, extents=[80, 80, 80],
            pixel_size=[40, 40, 80], pos=[0, 0, 0], material=mat(1.0),
            material2=mat(3.0))
        cover = goos.cuboid(extents=[80, 80, 80], pos=[0, 0, 0],
                            material=mat(2.0), priority=1)
        rend = maxwell.RenderShape(
            goos.GroupShape([design, cover]),
            region=goos.Box3d(center=[0, 0, 0], extents=[160, 160, 40]),
            mesh=maxwell.UniformMesh(dx=40), wavelength=1550,
            background=mat(1.0))
        got = np.asarray(rend.get().array)
        # The z component sits on corners; the center one is all cover.
        ck.close(got[2][2, 2, 0], 4.0, "shape-over-pixelated")


def _pixel_eps(px, order, edges, comp, bg):
    """Permittivity of pixelated shapes that do not overlap."""
    cells = geom.yee_cells(edges, comp)
    out = np.full([len(c) - 1 for c in cells], bg, dtype=complex)
    for q in order:
        cov = [np.array([geom.overlap_1d(pe[i], pe[i + 1], ce)
                         for i in range(len(pe) - 1)])
               for pe, ce in zip(q["edges"], cells)]
        e1, e2 = q["eps"]
        val = e1 - bg + (e2 - e1) * q["value"]
        out += np.einsum("ai,bj,ck,abc->ijk", cov[0], cov[1], cov[2], val)
    return out


@family(quick=120, thorough=1200)
def groups(ck, rng):
    """Groups that are translated, shared and evaluated at several values."""
    dx = 40.0
    n = [8, 6, 2]
    bg = 2.25
    edges = [dx * (np.arange(k + 1) - k / 2) for k in n]
    region = goos.Box3d(center=[0.0, 0.0, 0.0],
                        extents=[k * dx for k in n])
    mat = lambda v: goos.material.Material(index=v)
    lossy = rng.random() < 0.4
    autorun = bool(rng.integers(2))
    plan = goos.OptimizationPlan(autorun=autorun)
    with plan:
        var, leaf = [], []
        shared = rng.random() < 0.4
        for k in range(int(rng.integers(1, 4))):
            m1, m2 = float(np.round(rng.uniform(1, 2), 3)), complex(
                np.round(rng.uniform(2, 3.5), 3), 0.2 if lossy else 0)
            ext = np.array([40.0, float(rng.choice([40.0, 70.0])), 60.0])
            px = np.array([20.0, float(rng.choice([20.0, 35.0])), 60.0])
            e = pixel_edges(ext, px)
            shape = [len(x) - 1 for x in e]
            pos = np.array([-120.0 + 55 * k, -60.0, 0.0])
            if shared and var and shape == list(var[0].get(
                    run=True).array.shape):
                v = var[0]
                sh = goos.PixelatedContShape(
                    array=v, extents=ext, pixel_size=px,
                    pos=goos.Constant(pos), material=mat(m1),
                    material2=mat(m2))
            else:
                init = rng.random(shape)
                v, sh = goos.pixelated_cont_shape(
                    initializer=lambda size: init, extents=ext, pixel_size=px,
                    pos=pos, material=mat(m1), material2=mat(m2))
                var.append(v)
            leaf.append((sh, dict(var=v, rel=e, pos=pos, eps=(m1**2, m2**2))))
        inner = goos.GroupShape([sh for sh, _ in leaf])
        off = np.array([float(rng.choice([0.0, 13.0, 40.0])), 90.0,
                        float(rng.choice([0.0, -10.0]))])
        off2 = off + np.array([0.0, 20.0, 30.0])
        moved = inner.translate(off if rng.random() < 0.5 else list(off))
        twice = moved.translate(off2 - off)
        ck.event("group_translated")

        def at(o):
            return [dict(l, edges=[x + q + d for x, q, d in
                                   zip(l["rel"], l["pos"], o)])
                    for _, l in leaf]

        use = int(rng.integers(4))
        zero = np.zeros(3)
        if use == 0:
            tops, orders = [moved], [at(off)]
        elif use == 1:
            ck.event("shared_group")
            tops = [inner, goos.GroupShape([moved, inner])]
            orders = [at(zero), at(zero) + at(off)]
        elif use == 2:
            ck.event("shared_group")
            tops = [twice, moved]
            orders = [at(off2), at(off)]
        else:
            ck.event("shared_group")
            tops = [goos.GroupShape([goos.GroupShape([inner]), moved]),
                    leaf[0][0]]
            orders = [at(zero) + at(off), at(zero)[:1]]
        rends = [maxwell.RenderShape(t, region=region,
                                     mesh=maxwell.UniformMesh(dx=dx),
                                     wavelength=1550, background=mat(1.5))
                 for t in tops]
        shape = (3,) + tuple(n)
        ws = [rng.normal(size=shape) + (1j * rng.normal(
            size=shape) if rng.random() < 0.5 else 0) for _ in rends]
        obj = goos.abs(goos.dot(ws[0], rends[0]))
        for w, r in zip(ws[1:], rends[1:]):
            obj = obj + goos.abs(goos.dot(w, r))
        ck.key("grp", use, len(leaf), shared, lossy, off)

        def check(tag):
            vals = {id(v): np.array(v.get(run=True).array) for v in var}
            want, eps = 0.0, []
            for w, order in zip(ws, orders):
                for q in order:
                    q["value"] = vals[id(q["var"])]
                eps.append(np.array([_pixel_eps(None, order, edges, c, bg)
                                     for c in range(3)]))
                want += abs(np.sum(w * eps[-1]))
            return want, eps

        def gradient():
            _, eps = check("")
            out = {id(v): np.zeros(v.get(run=True).array.shape) for v in var}
            for w, order, ep in zip(ws, orders, eps):
                d = np.sum(w * ep)
                for q in order:
                    e1, e2 = q["eps"]
                    for comp in range(3):
                        cells = geom.yee_cells(edges, comp)
                        cov = [np.array([
                            geom.overlap_1d(pe[i], pe[i + 1], ce)
                            for i in range(len(pe) - 1)
                        ]) for pe, ce in zip(q["edges"], cells)]
                        lin = (e2 - e1) * np.einsum(
                            "ai,bj,ck,ijk->abc", cov[0], cov[1], cov[2],
                            w[comp])
                        out[id(q["var"])] += np.real(
                            np.conj(d) / abs(d) * lin)
            return [out[id(v)] for v in var]

        kept = []
        for step in range(int(rng.integers(2, 6))):
            act = int(rng.integers(5))
            if act <= 1:
                k = int(rng.integers(len(var)))
                var[k].set(rng.random(var[k].get(run=True).array.shape))
                if not autorun:
                    plan.run()
                ck.event("gradient_after_other_value")
            if act in (0, 2):
                k = int(rng.integers(len(rends)))
                got = np.asarray(rends[k].get(run=True).array)
                _, eps = check("")
                ck.event("render_compared")
                ck.close(got, eps[k], "group-render", rtol=1e-8,
                         detail=lambda: {"use": use, "step": step})
                kept.append((got, np.array(got)))
                ck.event("result_kept")
            if act == 3:
                want, _ = check("")
                ck.close(obj.get(run=True).array, want, "group-objective",
                         rtol=1e-8, scale=1 + abs(want))
            else:
                grads = obj.get_grad(var)
                for g, w in zip(grads, gradient()):
                    ck.event("gradients_compared")
                    ck.close(g.array_grad, w, "group-gradient", rtol=1e-6,
                             atol=1e-6, detail=lambda: {"use": use,
                                                        "step": step})
        for a, b in kept:
            ck.expect(np.array_equal(a, b), "render-result-changed")
