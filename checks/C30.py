"""C30: the exported GDS file is the final design."""
import os
import pickle
import random
import shutil
import tempfile

import gdspy
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.path import Path

from vlib.core import family
from spins.invdes import parametrization
from spins.invdes.problem_graph import optplan, solver, workspace

RULE = ("random cubic parametrizations are turned into polygons, and plans "
        "that fit a random target permittivity are run, stopped, resumed and "
        "exported; polygons are compared with the structure by the even-odd "
        "rule at every design pixel, areas with a count of sub-pixels; "
        "distinct by sizes and options")
REQUIRED_EVENTS = ["polygons", "holes", "several_polygons", "not_square",
                   "full", "empty", "plans", "direct", "reduced",
                   "resumed_exports",
                   "interrupted_exports", "two_designs", "off_centre",
                   "default_folder", "sigmoid", "improved", "symmetric"]


def inside(points, polygons):
    """Even-odd rule over all polygons."""
    par = np.zeros(len(points), bool)
    for p in polygons:
        par ^= Path(np.asarray(p), closed=False).contains_points(points)
    return par


def area(polygons):
    """Area covered by closed curves that do not cross, even-odd rule."""
    total = 0.0
    for i, p in enumerate(polygons):
        x, y = np.asarray(p).T
        a = 0.5 * abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))
        depth = sum(Path(np.asarray(q), closed=False).contains_point(p[0])
                    for j, q in enumerate(polygons) if j != i)
        total += a if depth % 2 == 0 else -a
    return total


def compare(ck, polys, z, n, pix, mech, info):
    """Polygons against the structure on n pixels of the given size."""
    c = [(np.arange(m) - (m - 1) / 2) * pix for m in n]
    pts = np.array([(x, y) for y in c[1] for x in c[0]])
    sure = np.abs(z - 0.5) > 1e-2
    got = inside(pts, polys)
    ck.expect(np.array_equal(got[sure], (z > 0.5)[sure]), mech,
              dict(info, wrong=int(np.sum(got[sure] != (z > 0.5)[sure])),
                   pixels=int(np.sum(sure)), polygons=len(polys)))
    for p in polys:
        # One pixel of padding surrounds the design.
        lim = np.array([(m + 1) * pix / 2 for m in n]) * (1 + 1e-6) + 0.51
        ck.expect(np.all(np.abs(np.asarray(p)) <= lim),
                  mech + "-outside-design-area", info)


def smooth(rnd, rng, nx, ny):
    """Values of coarse points with islands and holes."""
    v = rng.uniform(-0.3, 1.3, (nx, ny))
    if rnd.random() < 0.5:
        f = np.fft.fft2(rng.normal(size=(nx, ny)))
        kx, ky = np.meshgrid(np.fft.fftfreq(nx), np.fft.fftfreq(ny),
                             indexing="ij")
        v = np.real(np.fft.ifft2(f * np.exp(-40 * (kx**2 + ky**2))))
        v = 0.5 + v / (np.std(v) + 1e-12) * 0.5
    return v.flatten(order="F")


@family(quick=150, thorough=2000)
def polygons(ck, rng):
    rnd = random.Random(int(rng.integers(1 << 30)))
    n = [rnd.randint(4, 30), rnd.randint(4, 30)]
    dx = rnd.choice([2.0, 20.0, 40.0])
    und = rnd.choice([2, 3, 4])
    at = [0.0, 0.0]
    if rnd.random() < 0.3:
        # A design area anywhere else.
        at = [rnd.choice([0.5, 7.0, -20.0]) for _ in range(2)]
        ck.event("off_centre")
    fine = [np.arange(m) - (m - 1) / 2 + o for m, o in zip(n, at)]
    coarse = []
    for m, o in zip(n, at):
        c = np.arange(-m / 2 - und, m / 2 + und, und)
        coarse.append(c - (c[0] + c[-1]) / 2 + o)
    sym = [rnd.random() < 0.2, rnd.random() < 0.2]
    p = parametrization.CubicParam(
        0.5, coarse[0], coarse[1], fine[0], fine[1],
        symmetry=np.array(sym, int))
    m = len(p.to_vector())
    kind = rnd.choice(["random"] * 6 + ["full", "empty"])
    if kind == "random":
        if any(sym):
            v = rng.uniform(-0.3, 1.3, m)
            ck.event("symmetric")
        else:
            v = smooth(rnd, rng, len(coarse[0]), len(coarse[1]))
        if len(v) != m:
            v = rng.uniform(-0.3, 1.3, m)
    else:
        v = np.full(m, 1.0 if kind == "full" else 0.0)
        ck.event(kind)
    k = rnd.choice([None, 4, 40])
    if k:
        p.set_k(k)
    p.decode(v)
    z = np.clip(p.get_structure(), -5, 5)
    # The sigmoid does not move the edge; judge near it by the plain values.
    flat = z if not k else 0.5 + np.log(np.clip(z, 1e-12, 1) / np.clip(
        1 - z, 1e-12, 1)) / (2 * k)
    polys = [np.asarray(q) - np.array(at) * dx / 2
             for q in p.generate_polygons(dx)]
    plt.close("all")
    info = {"pixels": n, "dx": dx, "k": k, "symmetry": sym, "kind": kind}
    ck.event("polygons", len(polys))
    if len(polys) > 1:
        ck.event("several_polygons")
    if n[0] != n[1]:
        ck.event("not_square")
    compare(ck, polys, flat, n, dx / 2, "polygons-are-the-structure", info)
    if kind == "full":
        ck.close(area(polys), n[0] * n[1] * dx**2 / 4 - dx**2 / 8,
                 "full-area", rtol=0, atol=dx**2 / 2 + 1e-6, detail=info)
    if kind == "empty":
        ck.expect(not len(polys), "empty-structure", info)
    if any(sum(Path(np.asarray(q), closed=False).contains_point(p_[0])
               for q in polys if q is not p_) % 2 for p_ in polys):
        ck.event("holes")
    ck.expect(np.array_equal(p.to_vector(), v), "export-changes-parameters",
              info)
    ck.key(n, und, sym, k, kind)


def material(v):
    return optplan.Material(index=optplan.ComplexNumber(real=v))


def scene(rnd, folder, kind, tag):
    """A design area, its parametrization, and a drawing to fit."""
    dx = rnd.choice([20, 40])
    n = [rnd.randint(9, 14), rnd.randint(9, 14), rnd.choice([1, 3])]
    ext = [m * dx for m in n]
    lo = [-e / 2 - dx / 2 for e in ext]
    i0 = [rnd.randint(1, 2) for _ in range(2)]
    i1 = [n[a] - rnd.randint(1, 2) for a in range(2)]

    def rect(x0, y0, x1, y1):
        x = [lo[0] + x0 * dx, lo[0] + x1 * dx]
        y = [lo[1] + y0 * dx, lo[1] + y1 * dx]
        return [(x[0], y[0]), (x[1], y[0]), (x[1], y[1]), (x[0], y[1])]

    stack = optplan.GdsMaterialStack(
        background=material(1.0),
        stack=[optplan.GdsMaterialStackLayer(
            foreground=material(2.5), background=material(1.0),
            gds_layer=[100, 0], extents=[-1000, 1000])])

    def gds(name, polys):
        lib = gdspy.GdsLibrary(unit=1e-6, precision=1e-9)
        cell = gdspy.Cell("T", exclude_from_current=True)
        lib.add(cell)
        for p in polys:
            cell.add(gdspy.Polygon(np.array(p) / 1000, layer=100))
        name = tag + name
        lib.write_gds(os.path.join(folder, name))
        return optplan.GdsEps(gds=name, mat_stack=stack)

    whole = rect(i0[0], i0[1], i1[0], i1[1])
    far = [(x - 1e5, y) for x, y in whole]
    w = [i1[a] - i0[a] for a in range(2)]
    a = sorted(rnd.sample(range(w[0] + 1), 2))
    b = sorted(rnd.sample(range(w[1] + 1), 2))
    target = rect(i0[0] + a[0], i0[1] + b[0], i0[0] + a[1], i0[1] + b[1])
    space = optplan.SimulationSpace(
        name="space" + tag, mesh=optplan.UniformMesh(dx=dx),
        eps_fg=gds("fg.gds", [whole]), eps_bg=gds("bg.gds", [far]),
        sim_region=optplan.Box3d(center=[0, 0, 0], extents=ext),
        pml_thickness=[0] * 6, selection_matrix_type=kind.value)
    par = optplan.CubicParametrization(
        name="par" + tag, simulation_space=space, undersample=rnd.choice([2, 3]),
        init_method=optplan.UniformInitializer(min_val=0.2, max_val=0.8))
    obj = optplan.DiffEpsilon(
        name="diff" + tag, epsilon=optplan.Epsilon(name="eps" + tag,
                                             simulation_space=space,
                                             wavelength=1550),
        epsilon_ref=gds("target.gds", [target]))
    mon = optplan.SimpleMonitor(name="mon" + tag, function=obj)
    return space, par, obj, mon, dx


def build(ck, rnd, rng, folder, kind):
    """A plan that fits the permittivity of random drawings."""
    optplan.reset_graph()
    space, par, obj, mon, dx = scene(rnd, folder, kind, "")
    tr = []

    def strength(name, par):
        tr.append(optplan.Transformation(
            name=name, parametrization=par,
            transformation=optplan.CubicParamSigmoidStrength(
                value=rnd.choice([2.0, 4.0, 8.0]))))

    def optimize(name, par, obj, mon):
        tr.append(optplan.Transformation(
            name=name, parametrization=par,
            transformation=optplan.ScipyOptimizerTransformation(
                optimizer="L-BFGS-B", objective=obj,
                monitor_lists=optplan.ScipyOptimizerMonitorList(
                    callback_monitors=[mon], start_monitors=[mon],
                    end_monitors=[mon]),
                optimization_options=optplan.ScipyOptimizerOptions(
                    maxiter=rnd.randint(5, 12)))))

    # A second design that is optimized by the same plan.
    other = None
    if rnd.random() < 0.5:
        ck.event("two_designs")
        other = scene(rnd, folder, rnd.choice([
            optplan.SelectionMatrixType.DIRECT,
            optplan.SelectionMatrixType.REDUCED]), "two")
    stages = rnd.choice([1, 2])
    for s in range(stages):
        if other and rnd.random() < 0.7:
            optimize("other%d" % s, *other[1:4])
        if s or rnd.random() < 0.5:
            strength("k%d" % s, par)
        optimize("opt%d" % s, par, obj, mon)
    if other:
        if rnd.random() < 0.7:
            optimize("other_last", *other[1:4])
        strength("k_last", par)
    return optplan.OptimizationPlan(transformations=tr), space, par, dx


def read_gds(path):
    lib = gdspy.GdsLibrary()
    lib.read_gds(path)
    out = []
    for cell in lib.top_level():
        out += [p * 1000 for p in cell.get_polygons()]
    return out


@family(quick=24, thorough=200, timeout=240)
def plans(ck, rng):
    rnd = random.Random(int(rng.integers(1 << 30)))
    kind = rnd.choice([optplan.SelectionMatrixType.DIRECT,
                       optplan.SelectionMatrixType.REDUCED])
    root = tempfile.mkdtemp()
    try:
        np.random.seed(rnd.randrange(1 << 30))
        plan, space, par, dx = build(ck, rnd, rng, root, kind)
        text = optplan.dumps(plan)
        save = os.path.join(root, "save")
        os.mkdir(save)
        if rnd.random() < 0.3:
            # The files are saved in the project folder by default.
            save = root
            ck.event("default_folder")
            solver.run_plan(optplan.loads(text), root)
        else:
            solver.run_plan(optplan.loads(text), root, save_folder=save)
        plt.close("all")
        ck.event("plans")
        ck.event(kind.name.lower())
        # The final state, from the last checkpoint.
        last = plan.transformations[-1].name
        with open(os.path.join(save, last + ".chkpt.pkl"), "rb") as h:
            chk = pickle.load(h)
        work = workspace.Workspace(root)
        obj = work.get_object(par)
        obj.deserialize(chk["parametrizations"]["par"])
        sp = work.get_object(space)
        n = list(sp.design_dims)
        pix = dx / 2 if kind == optplan.SelectionMatrixType.DIRECT else dx
        z = obj.get_structure()
        info = {"design": n, "dx": dx, "selection": kind.name,
                "steps": [t.name for t in plan.transformations]}
        if any(t.name.startswith("k") for t in plan.transformations):
            ck.event("sigmoid")
        gds = read_gds(os.path.join(save, "spins_design.gds"))
        # Edges are rounded to nanometres.
        s = np.abs(z - 0.5) > 0.08
        zz = np.where(s, z, 0.5)
        compare(ck, gds, zz, n, pix, "exported-design", info)
        # Fitting improved the permittivity.
        vals = []
        steps = [q for q in os.listdir(save)
                 if q.startswith("step") and q.endswith(".pkl")]
        for name in sorted(steps, key=lambda q: int(q[4:-4])):
            with open(os.path.join(save, name), "rb") as h:
                d = pickle.load(h)
            if "mon" in d.get("monitor_data", {}):
                vals.append((d["transformation"],
                             float(np.real(d["monitor_data"]["mon"]))))
        ck.require(vals, "monitor-data", info)
        for t in {v[0] for v in vals}:
            f = [v for q, v in vals if q == t]
            ck.expect(f[-1] <= f[0] * (1 + 1e-9) + 1e-12,
                      "optimization-improves-the-objective",
                      dict(info, first=f[0], last=f[-1]))
            ck.event("improved")
        # A finished plan exports the same when resumed.
        if rnd.random() < 0.7:
            os.remove(os.path.join(save, "spins_design.gds"))
            np.random.seed(rnd.randrange(1 << 30))
            solver.run_plan(optplan.loads(text), root, save_folder=save,
                            resume=True)
            plt.close("all")
            again = read_gds(os.path.join(save, "spins_design.gds"))
            same = len(again) == len(gds) and all(
                a.shape == b.shape and np.allclose(a, b, atol=1e-6)
                for a, b in zip(again, gds))
            ck.expect(same, "export-of-resumed-plan", info)
            ck.event("resumed_exports")
        # So does a plan that was stopped after an earlier transformation.
        names = [t.name for t in plan.transformations]
        if len(names) > 1:
            keep = rnd.randrange(len(names) - 1)
            for gone in names[keep + 1:]:
                p = os.path.join(save, gone + ".chkpt.pkl")
                if os.path.exists(p):
                    os.remove(p)
            for name in steps:
                p = os.path.join(save, name)
                with open(p, "rb") as h:
                    t = pickle.load(h)["transformation"]
                if t in names[keep + 1:]:
                    os.remove(p)
            os.remove(os.path.join(save, "spins_design.gds"))
            np.random.seed(rnd.randrange(1 << 30))
            solver.run_plan(optplan.loads(text), root, save_folder=save,
                            resume=True)
            plt.close("all")
            again = read_gds(os.path.join(save, "spins_design.gds"))
            compare(ck, again, zz, n, pix, "export-of-interrupted-plan", info)
            ck.event("interrupted_exports")
        ck.key(n, kind.name, len(plan.transformations))
        ck.sample(dict(info, polygons=len(gds), objective=vals[-1][1]))
    finally:
        shutil.rmtree(root, ignore_errors=True)
