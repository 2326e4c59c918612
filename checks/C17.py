"""C17: goos simulation nodes return the simulated fields and their gradient."""
import json
import logging
import os
import subprocess
import sys
import warnings

import numpy as np

from vlib.core import family
from vlib import em
from vlib.maxserver import Fast, Server, solve_uploaded
from spins import fdfd_tools, goos, gridlock
from spins.fdfd_solvers import maxwell as remote_client
from spins.fdfd_solvers import waveguide_mode
from spins.fdfd_tools import grid as fgrid
from spins.goos_sim import maxwell
from spins.goos_sim.maxwell import simspace
from spins.invdes.problem_graph import grid_utils

RULE = ("random small simulation spaces (any orientation, PML arrangement, "
        "off-centre regions) with permittivities given directly or rendered "
        "from shapes, several sources and outputs; the fields are put into "
        "explicitly written difference equations, gradients are compared with "
        "finite differences, and long histories of changes must always give "
        "the result of a fresh node; distinct by set-up")
REQUIRED_EVENTS = ["fields", "dipoles", "overlaps", "gradients", "histories",
                   "history_steps", "remote", "rendered", "real_eps",
                   "complex_eps", "parallel", "edge_coords", "region_slices",
                   "symmetric_edges", "clipped_regions", "transmissions",
                   "not_differentiable", "gaussians", "shifted_beams",
                   "several_sources", "complex_gradients", "wavelengths",
                   "named_solvers", "symmetric_uploads", "shape_simulations",
                   "eigenmodes", "eigen_histories", "named_outputs"]

v = fdfd_tools.vec


def _space(rng, nd=2, dx=None, n=(6, 14), center=True):
    dx = dx or float(rng.integers(20, 60))
    shape = [int(rng.integers(*n)) for _ in range(3)]
    flat = int(rng.integers(3))
    if nd == 2:
        shape[flat] = 1
    c = [float(rng.integers(-500, 500)) if center else 0.0 for _ in range(3)]
    lay = [int(rng.integers(0, m // 3 + 1)) if m > 1 else 0
           for m in shape for _ in range(2)]
    sp = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx),
        sim_region=goos.Box3d(center=c, extents=[m * dx for m in shape]),
        pml_thickness=[int(x * dx) for x in lay])
    return sp, shape, dx, np.array(c), lay


def _wave_residual(shape, dx, lay, omega, eps, E):
    """-i omega J that belongs to the field E."""
    d = [np.full(m, dx) for m in shape]
    d = fgrid.apply_scpml([d, [x.copy() for x in d]], lay, omega)
    z, no = np.zeros(3), np.zeros((3, 3))
    c = em.curl(em.curl(E, d[0], True, z, no), d[1], False, z, no)
    return [a - omega**2 * e * x for a, e, x in zip(c, eps, E)]


def _solver(rng):
    return {"solver_info": maxwell.DirectSolver(multiprocessing=False)}


@family(quick=150, thorough=600, timeout=300)
def fields(ck, rng):
    """Dipole sources: the field solves the wave equation with that current."""
    sp, shape, dx, c, lay = _space(rng, int(rng.integers(2, 4)), n=(4, 8))
    wl = dx * rng.uniform(6, 30)
    cplx = bool(rng.random() < 0.5)
    eps = rng.uniform(1, 6, [3] + shape)
    if cplx:
        eps = eps - 1j * rng.uniform(0, 0.5, eps.shape)
        ck.event("complex_eps")
    else:
        ck.event("real_eps")
    lo = c - np.array(shape) * dx / 2
    want = np.zeros([3] + shape, complex)
    srcs = []
    # The empirical normalisation is the same for every dipole.
    for _ in range(int(rng.integers(1, 4))):
        idx = [int(rng.integers(m)) for m in shape]
        pos = lo + (np.array(idx) + 0.5 + rng.uniform(-0.4, 0.4, 3)) * dx
        ax = int(rng.integers(3))
        ph = [0.0, rng.uniform(-4, 4)][int(rng.integers(2))]
        pw = 10.0**rng.uniform(-2, 2)
        srcs.append(maxwell.DipoleSource(position=list(pos), axis=ax,
                                         phase=ph, power=pw))
        want[(ax,) + tuple(idx)] += np.sqrt(pw) / eps[
            (ax,) + tuple(idx)] * np.exp(1j * ph)
        ck.event("dipoles")
    with goos.OptimizationPlan():
        node = goos.Constant(eps)
        sim = maxwell.SimulateNode(
            eps=node, wavelength=wl, simulation_space=sp, sources=srcs,
            outputs=[maxwell.ElectricField(name="f"),
                     maxwell.Epsilon(name="e")], **_solver(rng))
        out = sim.get()
        E, got_eps = np.array(out[0].array), np.array(out[1].array)
    ck.event("fields")
    ck.key(shape, lay, wl, len(srcs))
    ck.sample({"shape": shape, "pml": lay, "sources": len(srcs)})
    info = {"shape": shape, "pml": lay, "sources": len(srcs), "cplx": cplx}
    ck.close(got_eps, eps, "permittivity-output", detail=info)
    ck.expect(E.shape == eps.shape, "field-shape", info)
    omega = 2 * np.pi / wl
    J = np.array(_wave_residual(shape, dx, lay, omega, eps, E)) / (-1j * omega)
    amp = np.sum(np.abs(J)) / np.sum(np.abs(want))
    ck.close(J, amp * want, "field-of-the-sources", rtol=1e-5,
             scale=np.max(np.abs(E)) * (omega * 6 + 10 / dx**2 / omega) * 1e-3,
             detail=info)
    # One normalisation for all: power of a dipole in vacuum.
    ck.close(amp, 1 / np.sqrt(0.02661928208866846 * omega**2 * dx**3),
             "dipole-normalisation", rtol=1e-3, detail=info)


def _guide_eps(rng, shape, dx, axis, t, core):
    n = shape[t]
    w = rng.uniform(0.25, 0.4) * n
    y = np.arange(n) - n / 2 + 0.5
    f = np.clip(w / 2 - np.abs(y) + 0.5, 0, 1)
    s = [1, 1, 1]
    s[t] = n
    e = 1 + (core - 1) * f.reshape(s)
    return np.array([np.broadcast_to(e, shape)] * 3)


def _guide(rng, nprop=16):
    axis = int(rng.integers(3))
    t = (axis + int(rng.integers(1, 3))) % 3
    shape = [1, 1, 1]
    shape[axis], shape[t] = nprop, int(rng.integers(27, 32))
    dx = float(rng.integers(35, 45))
    wl = dx * rng.uniform(34, 40)
    lay = [0] * 6
    lay[2 * axis:2 * axis + 2] = [4, 4]
    c = np.array([float(rng.integers(-300, 300)) for _ in range(3)])
    sp = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx),
        sim_region=goos.Box3d(center=list(c),
                              extents=[m * dx for m in shape]),
        pml_thickness=[int(x * dx) for x in lay])
    eps = _guide_eps(rng, shape, dx, axis, t, rng.uniform(6, 12))
    lo = c - np.array(shape) * dx / 2

    def plane(i):
        p = c.copy()
        p[axis] = lo[axis] + (i + 0.5) * dx
        ext = [0.0, 0.0, 0.0]
        ext[t] = shape[t] * dx * 2
        return {"center": list(p), "extents": ext}

    def normal(s):
        nv = [0, 0, 0]
        nv[axis] = s
        return nv

    return dict(axis=axis, t=t, shape=shape, dx=dx, wl=wl, lay=lay, sp=sp,
                eps=eps, plane=plane, normal=normal, c=c)


def _objective(rng, sim, names):
    parts = []
    for i in names:
        k = int(rng.integers(3))
        o = sim[i]
        if k == 0:
            parts.append(goos.abs(o)**2 * float(rng.uniform(0.5, 2)))
        elif k == 1:
            parts.append(goos.abs(o) * float(rng.uniform(-2, 2)))
        else:
            parts.append((goos.abs(o) - 0.3)**2)
    obj = parts[0]
    for p in parts[1:]:
        obj = obj + p
    return obj


@family(quick=70, thorough=320, timeout=400)
def gradients(ck, rng):
    g = _guide(rng)
    sh, axis = g["shape"], g["axis"]
    src = maxwell.WaveguideModeSource(
        **g["plane"](5), normal=g["normal"](1), mode_num=int(
            rng.integers(0, 2)), power=float(rng.uniform(0.5, 2)))
    ov = [maxwell.WaveguideModeOverlap(
        **g["plane"](int(p)), wavelength=g["wl"],
        normal=g["normal"](int(s)), mode_num=int(rng.integers(0, 2)),
        power=float(rng.uniform(0.5, 2)))
        for p, s in [(10, 1), (11, -1)][:int(rng.integers(1, 3))]]
    outs = list(ov)
    pos = list(range(len(ov)))
    if rng.random() < 0.5:
        outs = [maxwell.ElectricField(), maxwell.Epsilon()] + outs
        pos = [p + 2 for p in pos]
    rendered = bool(rng.random() < 0.4)
    # Design region between source and overlaps.
    sl = [slice(None)] * 3
    sl[axis] = slice(7, 10)
    mid = g["eps"].shape[1 + g["t"]] // 2
    sl[g["t"]] = slice(mid - 4, mid + 4)
    with goos.OptimizationPlan() as plan, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rendered:
            ck.event("rendered")
            ext, pix = [0.0] * 3, [0.0] * 3
            for a in range(3):
                ext[a] = (3 if a == axis else
                          8 if a == g["t"] else 4) * g["dx"]
                pix[a] = (1.5 if a == axis else
                          4 if a == g["t"] else 4) * g["dx"]
            cen = np.array(g["plane"](8)["center"])
            if axis == 2 or g["t"] == 2:
                # Pixelated shapes are extruded along z.
                pix[2] = ext[2]
            var, shape = goos.pixelated_cont_shape(
                initializer=lambda size: rng.uniform(0.2, 0.8, size),
                pos=goos.Constant(cen), extents=ext, pixel_size=pix,
                material=goos.material.Material(index=1.0),
                material2=goos.material.Material(index=3.0))
            core = [0.0] * 3
            for a in range(3):
                core[a] = 1e5 if a != g["t"] else 10 * g["dx"]
            wg = goos.Cuboid(pos=goos.Constant(g["c"]),
                             extents=goos.Constant(core),
                             material=goos.material.Material(index=3.0))
            eps = maxwell.RenderShape(
                goos.GroupShape([wg, shape]), region=g["sp"].sim_region,
                mesh=g["sp"].mesh, wavelength=g["wl"],
                background=goos.material.Material(index=1.0))
            x0 = np.array(var.get().array)
        else:
            ck.event("real_eps")
            x0 = g["eps"] + rng.uniform(0, 1, g["eps"].shape)
            base = g["eps"].copy()
            base[(slice(None),) + tuple(sl)] = x0[(slice(None),) + tuple(sl)]
            x0 = base
            var = goos.Variable(x0)
            eps = var
        sim = maxwell.SimulateNode(
            eps=eps, wavelength=g["wl"], simulation_space=g["sp"],
            sources=[src], outputs=outs,
            solver_info=maxwell.DirectSolver(multiprocessing=False))
        obj = _objective(rng, sim, pos)
        if rng.random() < 0.5:
            obj.get()
        got = np.array(obj.get_grad([var])[0].array_grad)
        ck.event("gradients")
        ck.event("overlaps", len(ov))
        ck.key(sh, axis, rendered, g["wl"])
        info = {"shape": sh, "axis": axis, "rendered": rendered,
                "outputs": len(outs)}
        ck.expect(got.shape == x0.shape and np.isrealobj(got),
                  "gradient-shape", info)

        def f(x):
            var.set(x)
            return float(np.real(obj.get(run=True).array))

        scale = np.max(np.abs(got))
        # Directions: single entries, and a random one in the design region.
        dirs = []
        for _ in range(2):
            e = np.zeros(x0.shape)
            if rendered:
                e[tuple(int(rng.integers(k)) for k in e.shape)] = 1
            else:
                e[(int(rng.integers(3)),) + tuple(
                    int(rng.integers(*s.indices(n)[:2]))
                    for s, n in zip(sl, sh))] = 1
            dirs.append(e)
        e = np.zeros(x0.shape)
        if rendered:
            e = rng.normal(size=x0.shape)
        else:
            sub = (slice(None),) + tuple(sl)
            e[sub] = rng.normal(size=e[sub].shape)
        dirs.append(e)
        if not rendered:
            # Anywhere outside of the PML (modes are those of the first eps).
            e = np.zeros(x0.shape)
            at = [int(rng.integers(n)) for n in sh]
            at[axis] = int(rng.integers(4, 12))
            e[(int(rng.integers(3)),) + tuple(at)] = 1
            dirs.append(e)
        for e in dirs:
            h = 1e-3 / np.max(np.abs(e))
            num = (f(x0 + h * e) - f(x0 - h * e)) / (2 * h)
            num2 = (f(x0 + 2 * h * e) - f(x0 - 2 * h * e)) / (4 * h)
            if abs(num - num2) > 1e-2 * abs(num) + 1e-4 * scale:
                continue
            ck.close(float(np.sum(got * e)), num, "simulation-gradient",
                     rtol=1e-2, atol=1e-3 * scale * np.sum(
                         np.abs(e) > 0)**.5 + 1e-10,
                     detail=info)
        # After all the changes, the gradient at the first point is the same.
        var.set(x0)
        ck.close(np.array(obj.get_grad([var], run=True)[0].array_grad), got,
                 "gradient-depends-on-history", rtol=1e-6, detail=info)
        # The electric field itself is not differentiable; this is reported.
        if len(outs) > len(ov):
            bad = goos.abs(goos.dot(sim[0], sim[0]))
            ck.event("not_differentiable")
            ck.raises((NotImplementedError,), lambda: bad.get_grad([var]),
                      "silent-missing-gradient")


@family(quick=80, thorough=300, timeout=300)
def histories(ck, rng):
    """Whatever was computed before, results are those of a fresh node."""
    sp, shape, dx, c, lay = _space(rng, 2, n=(4, 8))
    wl = dx * rng.uniform(8, 20)
    pts = [rng.uniform(1, 6, [3] + shape) for _ in range(3)]
    # Nearly equal and partially equal permittivities.
    q = pts[0].copy()
    q[tuple(int(rng.integers(n)) for n in q.shape)] += 0.5
    pts.append(q)
    pts.append(pts[0] * (1 + 4e-6 * rng.uniform(-1, 1, pts[0].shape)))
    # Dipoles are normalised by the permittivity at their place, which is kept.
    spots = []
    lo = c - np.array(shape) * dx / 2
    for _ in range(int(rng.integers(1, 4))):
        idx = tuple(int(rng.integers(m)) for m in shape)
        spots.append(((int(rng.integers(3)),) + idx,
                      list(lo + (np.array(idx) + 0.5) * dx),
                      float(rng.uniform(-3, 3)), float(rng.uniform(0.5, 2))))
    if len(spots) > 1:
        ck.event("several_sources")
    for at, _, _, _ in spots:
        for p in pts[1:]:
            p[at] = pts[0][at]
    srcs = lambda: [maxwell.DipoleSource(position=p, axis=at[0], phase=ph,
                                         power=pw) for at, p, ph, pw in spots]
    make = lambda e: maxwell.SimulateNode(
        eps=e, wavelength=wl, simulation_space=sp, sources=srcs(),
        outputs=[maxwell.ElectricField(name="f"), maxwell.Epsilon(name="e")],
        solver_info=maxwell.DirectSolver(multiprocessing=False))
    rendered = bool(rng.random() < 0.4)
    fresh = []
    for p in pts:
        with goos.OptimizationPlan():
            fresh.append(np.array(make(goos.Constant(p)).get()[0].array))
    with goos.OptimizationPlan() as plan:
        var = goos.Variable(pts[0])
        node = make(var)
        node.get()
        for _ in range(int(rng.integers(3, 8))):
            i = int(rng.integers(len(pts)))
            arr = pts[i].copy()
            var.set(arr)
            plan.run()
            if rng.random() < 0.3:
                arr += 1  # in-place changes of the array that was handed in
            out = node.get(run=True) if rng.random() < 0.5 else node.get()
            E = np.array(out[0].array)
            ck.event("history_steps")
            ck.close(np.array(out[1].array), pts[i], "stale-permittivity",
                     rtol=1e-12)
            ck.close(E, fresh[i], "stale-field", rtol=1e-9,
                     detail={"sources": len(spots)})
            if rng.random() < 0.3:
                E2 = np.array(node.get(run=True)[0].array)
                ck.close(E2, E, "result-of-repetition", rtol=1e-9)
    if rng.random() < 0.4:
        # Outputs are found by name, whichever of the others have names.
        with goos.OptimizationPlan():
            outs = [maxwell.Epsilon(), maxwell.ElectricField(name="f"),
                    maxwell.Epsilon(name="e"), maxwell.ElectricField()]
            perm = [int(i) for i in rng.permutation(4)]
            node = maxwell.SimulateNode(
                eps=goos.Constant(pts[0]), wavelength=wl, simulation_space=sp,
                sources=srcs(), outputs=[outs[i] for i in perm],
                solver_info=maxwell.DirectSolver(multiprocessing=False))
            for name, want in (("f", fresh[0]), ("e", pts[0])):
                ck.close(np.array(node[name].get().array), want,
                         "output-by-name", rtol=1e-9,
                         detail={"order": perm, "name": name})
            ck.event("named_outputs")
    ck.event("histories")
    ck.key(shape, wl)


_PARALLEL = """
import json, sys
sys.path.insert(0, sys.argv[1])
import numpy as np
from spins import goos
from spins.goos_sim import maxwell
if __name__ == "__main__":
    shape, dx, c, pml, wls, kinds, seed = json.loads(sys.argv[2])
    eps = np.random.default_rng(seed).uniform(1, 6, [3] + shape)
    sp = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx),
        sim_region=goos.Box3d(center=c, extents=[m * dx for m in shape]),
        pml_thickness=pml)
    fields = []
    with goos.OptimizationPlan() as plan:
        var = goos.Variable(eps)

        def mk(w, kind):
            kw = {"solver": "local_direct"} if kind == 2 else {
                "solver_info": maxwell.DirectSolver(
                    multiprocessing=bool(kind))}
            return maxwell.SimulateNode(
                eps=var, wavelength=w, simulation_space=sp,
                sources=[maxwell.DipoleSource(position=c, axis=2)],
                outputs=[maxwell.ElectricField(), maxwell.Epsilon()], **kw)

        def total(sims):
            return goos.Sum([goos.norm(s[0]) for s in sims])

        one = [mk(w, 0) for w in wls]
        many = [mk(w, k) for w, k in zip(wls, kinds)]
        res = []
        for step in range(3):
            a = [np.array(s.get(run=True)[0].array) for s in one]
            v = [float(np.real(total(many).get(run=True).array)),
                 float(np.real(total(one).get(run=True).array))]
            b = [np.array(s.get(run=True)[0].array) for s in many]
            res.append([v, sum(float(np.linalg.norm(x)) for x in a),
                        max(float(np.max(np.abs(x - y))) for x, y
                            in zip(a, b)),
                        max(float(np.max(np.abs(x))) for x in a)])
            var.set(eps + 0.2 * (step + 1))
    sys.stdout.write("RESULT" + json.dumps(res))
    sys.stdout.flush()
    import os
    maxwell.simulate.DIRECT_SOLVER.pool.terminate()
    os._exit(0)
"""


@family(quick=6, thorough=30, timeout=300)
def parallel(ck, rng):
    """Several simulations of one graph, run concurrently or not."""
    sp, shape, dx, c, lay = _space(rng, 2, n=(5, 9))
    wls = [dx * rng.uniform(8, 20) for _ in range(int(rng.integers(2, 5)))]
    kinds = [int(rng.integers(3)) for _ in wls]
    kinds[0] = 1
    arg = json.dumps([shape, dx, list(c), [int(x * dx) for x in lay], wls,
                      kinds, int(rng.integers(2**31))])
    import spins
    root = os.path.dirname(os.path.abspath(list(spins.__path__)[0]))
    with open("parallel_case.py", "w") as f:
        f.write(_PARALLEL)
    out = subprocess.run([sys.executable, "parallel_case.py", root, arg],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         timeout=250)
    txt = out.stdout.decode()
    ck.require("RESULT" in txt, "parallel-run-fails", out.stderr.decode()[-800:])
    for vals, want, diff, top in json.loads(txt.split("RESULT")[1]):
        for v in vals:
            ck.close(v, want, "parallel-simulations", rtol=1e-8)
        ck.expect(diff <= 1e-9 * top, "parallel-field", {"diff": diff})
        ck.event("parallel", len(wls))
    ck.key(shape, wls)


@family(quick=10, thorough=60, timeout=300)
def remote(ck, rng):
    """Remote solvers get the requested algorithm and give the same field."""
    sp, shape, dx, c, lay = _space(rng, 3, n=(3, 6))
    eps = rng.uniform(1, 6, [3] + shape) - 0.3j
    wl = dx * rng.uniform(8, 20)
    name = ["maxwell_cg", "maxwell_bicgstab"][int(rng.integers(2))]
    srv = Server(np.random.default_rng(int(rng.integers(2**31))),
                 solve_uploaded, 0.05)
    tol = 10.0**-int(rng.integers(3, 8))
    mk = lambda **kw: maxwell.SimulateNode(
        eps=goos.Constant(eps), wavelength=wl, simulation_space=sp,
        sources=[maxwell.DipoleSource(position=list(c), axis=0)],
        outputs=[maxwell.ElectricField()], **kw)
    try:
        with goos.OptimizationPlan(), Fast():
            got = np.array(mk(solver_info=maxwell.MaxwellSolver(
                solver=name, server=srv.addr, err_thresh=tol,
                max_iters=123)).get()[0].array)
            want = np.array(mk(solver_info=maxwell.DirectSolver(
                multiprocessing=False)).get()[0].array)
    finally:
        srv.close()
    ck.event("remote")
    ck.key(shape, name, wl)
    ck.close(got, want, "remote-field", rtol=1e-6)
    u = srv.problems[0]
    ck.expect(u["solver"] == {"maxwell_cg": 0, "maxwell_bicgstab": 1}[name],
              "requested-algorithm", {"name": name, "uploaded": u["solver"]})
    ck.expect(abs(u["err_thresh"] - tol) < 1e-15 and u["max_iters"] == 123,
              "requested-tolerance")
    with goos.OptimizationPlan():
        ck.raises(ValueError, lambda: mk(solver="no_such_solver"),
                  "unknown-solver")


@family(quick=20, thorough=80, timeout=400)
def transmissions(ck, rng):
    """A straight waveguide transmits all of the power."""
    g = _guide(rng, 30)
    p = float(rng.uniform(0.5, 3))
    s = int(rng.choice([-1, 1]))
    ahead, back = (20, 8) if s > 0 else (9, 21)
    q = float(rng.uniform(0.5, 3))
    with goos.OptimizationPlan(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ovl = lambda i, n, m: maxwell.WaveguideModeOverlap(
            **g["plane"](i), wavelength=g["wl"], normal=g["normal"](n),
            mode_num=m, power=q)
        sim = maxwell.SimulateNode(
            eps=goos.Constant(g["eps"]), wavelength=g["wl"],
            simulation_space=g["sp"],
            sources=[maxwell.WaveguideModeSource(
                **g["plane"](14), normal=g["normal"](s), mode_num=0,
                power=p)],
            outputs=[ovl(ahead, s, 0), ovl(back, -s, 0),
                     maxwell.ElectricField(), ovl(ahead, s, 1)],
            **_solver(rng))
        out = sim.get()
    vals = [abs(complex(np.squeeze(out[i].array)))**2 / p / q
            for i in (0, 1, 3)]
    ck.event("transmissions")
    ck.key(g["shape"], g["wl"], s)
    info = {"axis": g["axis"], "sign": s, "values": vals}
    ck.close(vals[0], 1.0, "transmission", rtol=0.06, detail=info)
    ck.close(vals[1], 0.0, "back-emission", atol=0.02, detail=info)
    ck.close(vals[2], 0.0, "mode-conversion", atol=0.02, detail=info)


@family(quick=24, thorough=150, timeout=400)
def combined(ck, rng):
    """Several sources add up; each wavelength has its own modes; complex
    permittivities have complex derivatives."""
    g = _guide(rng)
    sh, axis = g["shape"], g["axis"]
    mk = lambda i, s, m, p: maxwell.WaveguideModeSource(
        **g["plane"](i), normal=g["normal"](s), mode_num=m, power=p)
    a = mk(5, 1, 0, float(rng.uniform(0.5, 2)))
    b = mk(int(rng.integers(5, 11)), int(rng.choice([-1, 1])), 1,
           float(rng.uniform(0.5, 2)))
    rest = [maxwell.DipoleSource(position=g["plane"](8)["center"],
                                 axis=int(rng.integers(3)))]
    wl2 = g["wl"] * float(rng.uniform(1.05, 1.2))
    at, sgn, mode = int(rng.integers(9, 12)), int(rng.choice([-1, 1])), int(
        rng.integers(2))
    power = float(rng.uniform(0.5, 2))
    eps = g["eps"]
    with goos.OptimizationPlan(), warnings.catch_warnings():
        warnings.simplefilter("ignore")

        def run(srcs, wl):
            ov = maxwell.WaveguideModeOverlap(
                **g["plane"](at), wavelength=wl, normal=g["normal"](sgn),
                mode_num=mode, power=power)
            sim = maxwell.SimulateNode(
                eps=goos.Constant(eps), wavelength=wl,
                simulation_space=g["sp"], sources=srcs,
                outputs=[maxwell.ElectricField(), ov], **_solver(rng))
            out = sim.get()
            return np.array(out[0].array), complex(np.squeeze(out[1].array))

        single = [run([s], g["wl"]) for s in (a, b, rest[0])]
        order = [a, b] + rest
        perm = [order[i] for i in rng.permutation(3)]
        both = run(perm, g["wl"])
        other = run([a, b] + rest, wl2)
    ck.event("several_sources")
    ck.key(sh, axis, at, sgn, mode)
    info = {"shape": sh, "axis": axis, "overlap": [at, sgn, mode]}
    ck.close(both[0], sum(s[0] for s in single), "sum-of-sources", rtol=1e-6,
             detail=info)
    ck.close(both[1], sum(s[1] for s in single), "sum-of-overlaps",
             rtol=1e-6, detail=info)
    # The overlap is that of the mode at this wavelength.
    d = [np.full(m, g["dx"]) for m in sh]
    sl = [slice(0, m) for m in sh]
    sl[axis] = slice(at, at + 1)
    ck.event("wavelengths")
    for (E, got), wl in [(both, g["wl"]), (other, wl2)]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            O = np.array(waveguide_mode.build_overlap(
                omega=2 * np.pi / wl, dxes=[d, d], eps=eps, mu=None,
                mode_num=mode, waveguide_slice=sl, axis=axis, polarity=sgn,
                power=power))
        ck.close(got, np.sum(O * E), "overlap-at-its-wavelength", rtol=1e-6,
                 detail={"first": wl == g["wl"], **info})


@family(quick=16, thorough=100, timeout=400)
def complex_gradients(ck, rng):
    """Derivatives with respect to complex permittivities: a change de of the
    permittivity changes the objective by 2 Re(gradient de)."""
    g = _guide(rng)
    sh, axis = g["shape"], g["axis"]
    x0 = g["eps"] * (1 - 0.01j)
    with goos.OptimizationPlan(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        var = goos.Variable(x0)
        sim = maxwell.SimulateNode(
            eps=var, wavelength=g["wl"], simulation_space=g["sp"],
            sources=[maxwell.WaveguideModeSource(
                **g["plane"](5), normal=g["normal"](1), mode_num=0,
                power=1.0)],
            outputs=[maxwell.WaveguideModeOverlap(
                **g["plane"](10), wavelength=g["wl"], normal=g["normal"](1),
                mode_num=int(rng.integers(2)), power=1.0)], **_solver(rng))
        obj = goos.abs(sim[0])**2
        obj.get()
        got = np.array(obj.get_grad([var])[0].array_grad)
        ck.expect(got.shape == x0.shape, "gradient-shape", {})

        def f(x):
            var.set(x)
            return float(np.real(obj.get(run=True).array))

        scale = np.max(np.abs(got))
        for _ in range(3):
            e = np.zeros(x0.shape, complex)
            at = [int(rng.integers(n)) for n in sh]
            at[axis] = int(rng.integers(6, 10))
            # Where the field is.
            at[g["t"]] = sh[g["t"]] // 2 + int(rng.integers(-4, 4))
            e[(int(rng.integers(3)),) + tuple(at)] = np.exp(
                1j * rng.choice([0, np.pi / 2, 1.0]))
            h = 1e-2
            num = (f(x0 + h * e) - f(x0 - h * e)) / (2 * h)
            num2 = (f(x0 + 2 * h * e) - f(x0 - 2 * h * e)) / (4 * h)
            if abs(num - num2) > 1e-2 * abs(num) + 1e-4 * scale:
                continue
            ck.close(2 * np.real(np.sum(got * e)), num, "complex-gradient",
                     rtol=1e-2, atol=2e-3 * scale)
            ck.event("complex_gradients")
    ck.key(sh, axis)


@family(quick=12, thorough=80, timeout=300)
def uploads(ck, rng):
    """Named solvers and symmetric spaces: forward and adjoint solves ask the
    server for the same algorithm and the same boundaries."""
    dx = float(rng.integers(20, 60))
    sym = [int(rng.integers(3)) for _ in range(3)]
    shape = [int(rng.integers(2, 4)) * 2 for _ in range(3)]
    sp = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx),
        sim_region=goos.Box3d(center=[0, 0, 0],
                              extents=[m * dx for m in shape]),
        pml_thickness=[0] * 6, reflection_symmetry=sym)
    name, code = [("maxwell_cg", 0), ("maxwell_bicgstab", 1)][
        int(rng.integers(2))]
    half = [m // 2 if s else m for m, s in zip(shape, sym)]

    def solve(server, p):
        server.problems.append(p)
        r = np.random.default_rng(7)
        return {"E_%s%s" % (c, q): r.normal(size=[int(x) for x in p["shape"]])
                for c in "xyz" for q in "ri"}

    srv = Server(np.random.default_rng(int(rng.integers(2**31))), solve, 0.0)
    real = remote_client.MaxwellSolver.__init__

    def init(self, *a, **k):
        if len(a) < 2:
            k.setdefault("server", srv.addr)
        real(self, *a, **k)

    named = bool(rng.random() < 0.7)
    remote_client.MaxwellSolver.__init__ = init
    grad = bool(rng.random() < 0.6)
    try:
        with goos.OptimizationPlan(), Fast(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            var = goos.Variable(rng.uniform(1, 6, [3] + shape))
            kw = {"solver": name} if named else {
                "solver_info": maxwell.MaxwellSolver(solver=name,
                                                     server=srv.addr)}
            sim = maxwell.SimulateNode(
                eps=var, wavelength=dx * 10, simulation_space=sp,
                sources=[maxwell.DipoleSource(position=[1.0, 1.0, 1.0],
                                              axis=0)],
                outputs=[_Probe(name="p")], **kw)
            obj = goos.abs(sim[0])
            if grad:
                obj.get_grad([var])
            else:
                obj.get()
    finally:
        remote_client.MaxwellSolver.__init__ = real
        srv.close()
    ck.event("named_solvers")
    if any(sym):
        ck.event("symmetric_uploads")
    ck.key(sym, shape, name, named, grad)
    ck.expect(len(srv.problems) == 1 + grad, "number-of-solves",
              {"got": len(srv.problems), "gradient": grad})
    for i, p in enumerate(srv.problems):
        info = {"adjoint": bool(i), "symmetry": sym, "solver": name,
                "named": named}
        ck.expect(p["solver"] == code, "requested-algorithm",
                  {"uploaded": p["solver"], **info})
        ck.expect(list(p["shape"]) == half, "uploaded-cells",
                  {"uploaded": list(map(int, p["shape"])), "want": half,
                   **info})
        ck.expect(list(p["pemc"]) == [s for s in sym for _ in range(2)],
                  "uploaded-boundaries",
                  {"uploaded": list(map(float, p["pemc"])), **info})


@goos.polymorphic_model()
class _Probe(maxwell.simulate.SimOutput):
    type = goos.ModelNameType("output.verif_probe")


@maxwell.simulate.maxwell.register(_Probe, output_type=goos.Function)
class _ProbeImpl(maxwell.simulate.SimOutputImpl):
    """User-defined output: a weighted sum of the fields."""

    def _w(self, shape):
        return np.cos(np.arange(np.prod(shape))).reshape(shape)

    def eval(self, sim):
        return goos.NumericFlow(np.sum(self._w(sim.fields.shape) *
                                       sim.fields))

    def before_adjoint_sim(self, sim, grad_val):
        sim.source += np.conj(grad_val.array_grad * self._w(sim.source.shape))


@family(quick=24, thorough=200, timeout=300)
def shape_simulations(ck, rng):
    """Simulations of shapes: permittivity and field belong to the scene, on
    symmetric spaces too."""
    dx = 40.0
    n = [int(rng.integers(5, 9)) for _ in range(3)]
    sym = [int(rng.choice([0, 0, 1, 2])) for _ in range(3)]
    if rng.random() < 0.4:
        sym = [0, 0, 0]
    c = [float(rng.integers(-200, 200)) for _ in range(3)]
    kw = {}
    if any(sym) or rng.random() < 0.5:
        kw["reflection_symmetry"] = sym
    sp = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx),
        sim_region=goos.Box3d(center=c, extents=[m * dx for m in n]),
        pml_thickness=[0] * 6, **kw)
    wl = dx * float(rng.uniform(10, 20))
    ei, bi = float(rng.uniform(2, 3)), float(rng.uniform(1, 1.5))
    size = [float(rng.uniform(1, 3)) * dx for _ in range(3)]
    logging.disable(logging.CRITICAL)
    try:
        with goos.OptimizationPlan(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            box = goos.Cuboid(pos=goos.Constant(c),
                              extents=goos.Constant(size),
                              material=goos.material.Material(index=ei))
            both = any(sym) or bool(rng.random() < 0.5)
            res = maxwell.fdfd_simulation(
                wavelength=wl, eps=box,
                background=goos.material.Material(index=bi),
                simulation_space=sp,
                sources=[maxwell.DipoleSource(position=[
                    x + 0.5 * dx for x in c], axis=1)],
                outputs=[maxwell.Epsilon(), maxwell.ElectricField()],
                **({"return_eps": True} if both else {}), **_solver(rng))
            sim, node = res if both else (res, None)
            if not any(sym):
                out = sim.get()
                eps, E = np.array(out[0].array), np.array(out[1].array)
                if both:
                    ck.close(np.array(node.get().array), eps, "returned-eps",
                             rtol=1e-12)
            else:  # no local solver handles symmetric spaces
                eps, E = np.array(node.get().array), None
    finally:
        logging.disable(logging.NOTSET)
    want = [m // 2 * 2 if s else m for m, s in zip(n, sym)]
    info = {"cells": n, "symmetry": sym, "shape": list(eps.shape)}
    ck.event("shape_simulations")
    ck.key(n, sym, wl)
    ck.expect(list(eps.shape[1:]) == want, "number-of-cells", info)
    if E is not None:
        ck.expect(E.shape == eps.shape, "field-shape", info)
        omega = 2 * np.pi / wl
        J = np.array(_wave_residual(want, dx, [0] * 6, omega, eps, E))
        top = np.abs(J) > 1e-6 * np.max(np.abs(J))
        ck.expect(np.sum(top) == 1, "field-of-the-scene",
                  {"current_cells": int(np.sum(top)), **info})
    # Volume of the box (where it is within one period of the grid).
    vol = np.prod(size)
    for comp in range(3):
        ck.close(np.sum(np.real(eps[comp]) - bi**2) * dx**3,
                 vol * (ei**2 - bi**2), "volume-of-the-scene", rtol=1e-6,
                 detail=info)


@family(quick=12, thorough=80, timeout=300)
def eigenmodes(ck, rng):
    """Eigenmode nodes give the field and frequency found for this design."""
    dx = float(rng.integers(20, 60))
    shape = [int(rng.integers(2, 5)) for _ in range(3)]
    lay = [int(rng.integers(0, 2)) for _ in range(6)]
    sp = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx),
        sim_region=goos.Box3d(center=[0, 0, 0],
                              extents=[m * dx for m in shape]),
        pml_thickness=[int(x * dx) for x in lay],
        reflection_symmetry=[0, 0, 0])
    k = [float(x) for x in rng.uniform(-1, 1, 3) / dx]
    if rng.random() < 0.3:
        k = [0.0, 0.0, 0.0]
    wl = dx * float(rng.uniform(8, 15))
    given = []

    def solve(server, p):
        server.problems.append(p)
        r = np.random.default_rng(int(abs(np.sum(p["epsilon"][0])) * 1e6))
        out, Q = {}, []
        for c in "xyz":
            for q in "ri":
                out["Q0_" + c + q] = r.normal(size=shape)
            Q.append(out["Q0_" + c + "r"] + 1j * out["Q0_" + c + "i"])
        w2 = (r.uniform(0.5, 2) * np.exp(-0.1j * r.uniform()))**2
        out["qr"], out["qi"] = np.array([w2.real]), np.array([w2.imag])
        given.append((np.array(Q), np.sqrt(w2)))
        return out

    srv = Server(np.random.default_rng(int(rng.integers(2**31))), solve, 0.0)
    real = remote_client.MaxwellSolver.__init__

    def init(self, *a, **kw):
        if len(a) < 2:
            kw.setdefault("server", srv.addr)
        real(self, *a, **kw)

    pts = [rng.uniform(1, 6, [3] + shape) for _ in range(2)]
    remote_client.MaxwellSolver.__init__ = init
    try:
        with goos.OptimizationPlan(), Fast():
            var = goos.Variable(pts[0])
            sim = maxwell.SimulateEigNode(
                eps=var, sources=[], solver="maxwell_eig", wavelength=wl,
                bloch_vector=k, simulation_space=sp,
                outputs=[maxwell.ElectricField(), maxwell.EigenValue(),
                         maxwell.Epsilon()])
            last = 0
            for step in range(int(rng.integers(1, 4))):
                i = 0 if step == 0 else int(rng.integers(2))
                if step:
                    var.set(pts[i].copy())
                    ck.event("eigen_histories")
                out = sim.get(run=True)
                if i != last:
                    ck.expect(len(given) > 1, "stale-mode", {"step": step})
                last = i
                Q, w = given[-1]
                ck.close(np.array(out[0].array), Q, "mode-field", rtol=1e-12)
                ck.close(np.array(out[1].array), np.real(w), "mode-frequency",
                         rtol=1e-12)
                ck.close(np.array(out[2].array), pts[i], "mode-permittivity",
                         rtol=1e-12)
            ck.raises(ValueError, lambda: maxwell.SimulateEigNode(
                eps=var, sources=[], solver="local_direct", wavelength=wl,
                bloch_vector=k, simulation_space=sp, outputs=[]),
                "unknown-solver")
    finally:
        remote_client.MaxwellSolver.__init__ = real
        srv.close()
    ck.event("eigenmodes")
    ck.key(shape, lay, wl)
    p = srv.problems[0]
    ck.expect(p["solver"] == 3 and p["n_eig"] == 1, "requested-algorithm",
              {"uploaded": [p["solver"], p["n_eig"]]})
    ck.close(p["omega"], 2 * np.pi / wl, "mode-guess", rtol=1e-12)
    for got, want in zip(p["epsilon"], pts[0]):
        ck.close(got, want + 0j, "uploaded-epsilon", rtol=1e-12)
    d = [np.full(m, dx) for m in shape]
    d = fgrid.apply_scpml([d, [x.copy() for x in d]], lay, 2 * np.pi / wl)
    for a in range(3):
        ck.close(p["dxes"][0][a], d[0][a] + 0j, "uploaded-grid", rtol=1e-9)
        ck.close(p["bloch_phase"][a], np.full(3, np.exp(
            1j * k[a] * shape[a] * dx)), "uploaded-bloch-phase", rtol=1e-9)


@family(quick=8, thorough=40, timeout=400)
def gaussians(ck, rng):
    """Normalised Gaussian beams carry the requested power."""
    dx = 50.0
    n, h = int(rng.integers(100, 130)), 50
    s = int(rng.choice([-1, 1]))
    p = float(rng.uniform(0.5, 3))
    sp = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx),
        sim_region=goos.Box3d(center=[0, 0, 0],
                              extents=[n * dx, dx, h * dx]),
        pml_thickness=[500, 500, 0, 0, 500, 500])
    ang = float(rng.choice([0, np.pi / 2]))
    kw, shift = {}, 0.0
    if rng.random() < 0.6:
        shift = float(rng.uniform(200, 700) * rng.choice([-1, 1]))
        kw["beam_center"] = [shift, 0, 0]
        ck.event("shifted_beams")
    with goos.OptimizationPlan():
        sim = maxwell.SimulateNode(
            eps=goos.Constant(np.ones((3, n, 1, h))), wavelength=1000.0,
            simulation_space=sp,
            sources=[maxwell.GaussianSource(
                w0=1100.0, center=[0, 0, 0], extents=[n * dx, 0, 0],
                normal=[0, 0, s], power=p, theta=0.0, psi=0.0,
                polarization_angle=ang, normalize_by_sim=True, **kw)],
            outputs=[maxwell.ElectricField()],
            solver_info=maxwell.DirectSolver(multiprocessing=False))
        E = np.array(sim.get()[0].array)
    om = 2 * np.pi / 1000.0
    de = lambda f, a: (np.roll(f, -1, a) - f) / dx
    Hy = (de(E[0], 2) - de(E[2], 0)) / (-1j * om)
    Hx = (de(E[2], 1) - de(E[1], 2)) / (-1j * om)
    S = 0.5 * np.real(E[0] * np.conj(Hy) - E[1] * np.conj(Hx)) * dx * dx
    P = S[12:-12].sum(axis=(0, 1))
    fwd, bwd = (P[35], P[14]) if s > 0 else (P[14], P[35])
    ck.event("gaussians")
    ck.key(n, s, ang)
    info = {"sign": s, "polarization": ang, "forward": fwd, "backward": bwd}
    at = 30 if s > 0 else 19
    row = np.sum(np.abs(E[:, :, 0, at])**2, axis=0)[12:-12]
    x = ((np.arange(n) + 0.5) - n / 2)[12:-12] * dx
    ck.close(np.sum(row * x) / np.sum(row), shift, "beam-center", atol=120,
             rtol=0.1, detail={"shift": shift, **info})
    ck.close(fwd / p, float(s), "beam-power", rtol=0.05, detail=info)
    ck.close(bwd / p, 0.0, "beam-backwards", atol=0.02, detail=info)


@family(quick=200, thorough=3000)
def edge_coords(ck, rng):
    """Simulation grids are centred, uniform and fill the region."""
    dx = float(rng.choice([1, 7, 20, 40, 0.5, 12.5, 33.3]))
    n = [int(rng.integers(1, 60)) for _ in range(3)]
    c = np.round(rng.uniform(-1000, 1000, 3), int(rng.integers(0, 3)))
    sym = [0, 0, 0]
    ext = np.array(n) * dx
    want = list(n)
    for a in range(3):
        if rng.random() < 0.2:
            ext[a] = rng.choice([0.0, dx * 0.3])
            n[a] = want[a] = 1
    use_sym = rng.random() < 0.4
    if use_sym:
        sym = [int(rng.integers(0, 3)) for _ in range(3)]
        for a in range(3):
            if sym[a]:
                if n[a] < 2:
                    sym[a] = 0
                    continue
                want[a] = n[a] // 2 * 2
                ck.event("symmetric_edges")
    logging.disable(logging.CRITICAL)
    try:
        e = simspace.create_edge_coords(
            goos.Box3d(center=list(c), extents=list(ext)), dx,
            *([sym] if use_sym else []))
    finally:
        logging.disable(logging.NOTSET)
    ck.event("edge_coords")
    ck.key(dx, n, sym)
    for a in range(3):
        info = {"dx": dx, "extent": ext[a], "center": c[a], "sym": sym[a],
                "n": len(e[a]) - 1}
        exact = abs(ext[a] / (2 * dx) - round(ext[a] / (2 * dx))) < 1e-12
        if sym[a] and float(ext[a] / (2 * dx)).is_integer() != exact:
            continue  # an even number of cells up to rounding
        ck.expect(len(e[a]) == want[a] + 1, "number-of-cells", info)
        ck.close(np.diff(e[a]), np.full(len(e[a]) - 1, dx), "cell-size",
                 rtol=1e-9, detail=info)
        ck.close((e[a][0] + e[a][-1]) / 2, c[a], "centre", rtol=1e-9,
                 atol=1e-9 * 1000, detail=info)


@family(quick=600, thorough=4000)
def region_slices(ck, rng):
    """A region selects the cells it covers, never nothing, never outside."""
    dx = float(rng.choice([1, 10, 40]))
    n = [int(rng.integers(1, 40)) for _ in range(3)]
    lo = np.round(rng.uniform(-300, 300, 3)) * dx
    edges = [l + dx * np.arange(m + 1) for l, m in zip(lo, n)]
    fn = [simspace.create_region_slices,
          grid_utils.create_region_slices][int(rng.integers(2))]
    a_lo, a_hi = [], []
    cen, ext = [], []
    for a in range(3):
        i = int(rng.integers(-3, n[a] + 3))
        j = int(rng.integers(i + 1, n[a] + 6))
        # Slightly off the cell edges, so that rounding is no matter.
        if rng.random() < 0.3:
            k = int(rng.integers(n[a]))
            cen.append(lo[a] + (k + 0.5 + rng.uniform(-0.3, 0.3)) * dx)
            ext.append(0.0)
            a_lo.append(k)
            a_hi.append(k + 1)
            continue
        off = rng.uniform(-0.3, 0.3)
        x0, x1 = lo[a] + (i + off) * dx, lo[a] + (j + off) * dx
        if x1 <= lo[a] + dx or x0 >= lo[a] + (n[a] - 1) * dx:
            x0, x1 = lo[a] + off * dx, lo[a] + (n[a] + off) * dx
            i, j = 0, n[a]
        cen.append((x0 + x1) / 2)
        ext.append(x1 - x0)
        a_lo.append(max(i, 0))
        a_hi.append(max(min(j, n[a]), max(i, 0) + 1))
        if i < 0 or j > n[a]:
            ck.event("clipped_regions")
    sl = fn(edges, cen, ext)
    ck.event("region_slices")
    ck.key(n, tuple(cen), tuple(ext))
    for a in range(3):
        s = sl[a]
        info = {"axis": a, "got": [s.start, s.stop], "want": [a_lo[a],
                                                              a_hi[a]],
                "n": n[a], "center": cen[a], "extent": ext[a], "lo": lo[a],
                "dx": dx, "fn": fn.__module__}
        ck.expect(0 <= s.start < s.stop <= n[a], "region-outside-grid", info)
        ck.expect(abs(s.start - a_lo[a]) <= 1 and abs(s.stop - a_hi[a]) <= 1,
                  "region-cells", info)
        if ext[a] == 0:
            ck.expect((s.start, s.stop) == (a_lo[a], a_hi[a]),
                      "plane-cells", info)
