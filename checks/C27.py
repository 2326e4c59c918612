"""C27: simulations in optimization plans, their overlaps and gradients."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

import gdspy
import numpy as np
import scipy.io

from vlib import em
from vlib.core import family
from vlib.maxserver import Fast, Server, solve_uploaded
from spins import fdfd_tools, gridlock
from spins.fdfd_solvers import local_matrix_solvers
from spins.fdfd_solvers import maxwell as remote
from spins.fdfd_tools import grid as fgrid
from spins.invdes import parametrization, problem
from spins.invdes.problem import graph_executor
from spins.invdes.problem_graph import creator_em, grid_utils, optplan
from spins.invdes.problem_graph import simspace, workspace
from spins.invdes.problem_graph.functions import poynting

RULE = ("random small simulation spaces with a design area, dipole and "
        "current sources, PML and Bloch vectors; the fields are put into "
        "explicitly written difference equations, the power through closed "
        "surfaces is balanced with the sources, gradients are compared with "
        "finite differences, histories of structures with fresh simulations; "
        "whole optimization plans are built and evaluated in processes of "
        "their own; distinct by set-up")
REQUIRED_EVENTS = ["fields", "real_eps", "complex_eps", "bloch", "gradients",
                   "several_wavelengths", "histories", "in_place_changes",
                   "cached_solves", "dipoles", "normalized_dipoles",
                   "closed_surfaces", "power_gradients", "imported_overlaps",
                   "planar_overlaps", "waveguides", "plans",
                   "direct_structures", "full_structures", "overlaps",
                   "similar_objectives", "tiny_changes", "cache_hits",
                   "higher_modes", "plan_bloch", "server_plans"]

vec, unvec = fdfd_tools.vec, fdfd_tools.unvec


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c27-")
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def mat(n):
    n = complex(n)
    return optplan.Material(index=optplan.ComplexNumber(real=n.real,
                                                        imag=n.imag))


def write_gds(path, rect):
    lib = gdspy.GdsLibrary(unit=1e-6, precision=1e-9)
    cell = gdspy.Cell("T", exclude_from_current=True)
    lib.add(cell)
    cell.add(gdspy.Polygon(np.array(rect) / 1000, layer=100))
    lib.write_gds(path)


def make_space(ck, rng, folder, lossy=None, pml=None, n=None, kind=None,
               filled=False):
    """A simulation space with a rectangular design area in the middle."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    dx = rnd.choice([25, 40, 50])
    n = n or [rnd.randint(6, 9), rnd.randint(6, 9), rnd.choice([1, 1, 4])]
    ext = [m * dx for m in n]
    c = [rnd.choice([0, 15, -100]) for _ in range(3)]
    lo = [c[a] - ext[a] / 2 - dx / 2 for a in range(3)]
    i0 = [2, 2]
    i1 = [n[0] - 2, n[1] - 2]
    rect = [(lo[0] + i0[0] * dx, lo[1] + i0[1] * dx),
            (lo[0] + i1[0] * dx, lo[1] + i0[1] * dx),
            (lo[0] + i1[0] * dx, lo[1] + i1[1] * dx),
            (lo[0] + i0[0] * dx, lo[1] + i1[1] * dx)]
    if lossy is None:
        lossy = rnd.random() < 0.4
    n1 = rnd.uniform(1, 1.6)
    n2 = rnd.uniform(2.2, 3.3)
    if lossy:
        n2 = n2 - rnd.choice([0.1j, 0.1j, 1e-4j])
    ck.event("complex_eps" if lossy else "real_eps")
    z = [c[2] - 5000, c[2] + 5000]
    stack = optplan.GdsMaterialStack(background=mat(n1), stack=[
        optplan.GdsMaterialStackLayer(foreground=mat(n2), background=mat(n1),
                                      gds_layer=[100, 0], extents=z)])
    write_gds(os.path.join(folder, "fg.gds"), rect)
    # The background is empty or has a part of the design area filled.
    shift = (i1[0] - i0[0]) * dx // 2 if filled else -20000
    write_gds(os.path.join(folder, "bg.gds"),
              [(min(x + shift, rect[1][0]), y) for x, y in rect])
    if pml is None:
        pml = [rnd.randint(0, 2 if n[a] > 5 else 1) if n[a] > 1 else 0
               for a in range(3) for _ in range(2)]
    if kind is None:
        kind = rnd.choice(["direct", "full"])
    ck.event(kind + "_structures")
    params = optplan.SimulationSpace(
        name="space", mesh=optplan.UniformMesh(dx=dx),
        eps_fg=optplan.GdsEps(gds="fg.gds", mat_stack=stack),
        eps_bg=optplan.GdsEps(gds="bg.gds", mat_stack=stack),
        sim_region=optplan.Box3d(center=c, extents=ext), pml_thickness=pml,
        selection_matrix_type=(
            optplan.SelectionMatrixType.DIRECT.value if kind == "direct" else
            optplan.SelectionMatrixType.FULL_DIRECT.value))
    space = simspace.SimulationSpace(params, folder)
    edges = [lo[a] + dx * np.arange(n[a] + 1) for a in range(3)]
    return space, params, dict(n=n, dx=float(dx), pml=pml, edges=edges,
                               rnd=rnd, lossy=lossy)


def current(space_info, omega, eps, E, k=None):
    """The current that belongs to a field."""
    n, dx = space_info["n"], space_info["dx"]
    d = [np.full(m, dx) for m in n]
    ph = em.phase(d, k if k is not None else np.zeros(3), np.zeros((3, 3)))
    d = fgrid.apply_scpml([d, [x.copy() for x in d]], space_info["pml"],
                          omega)
    no = np.zeros((3, 3))
    c = em.curl(em.curl(E, d[0], True, ph, no), d[1], False, ph, no)
    return np.array([a - omega**2 * e * x for a, e, x in zip(
        c, eps, E)]) / (-1j * omega)


class Counter(local_matrix_solvers.DirectSolver):
    """A direct solver that counts its solves."""

    def __init__(self):
        self.count = 0

    def solve_matrix_equation(self, A, b):
        self.count += 1
        return super().solve_matrix_equation(A, b)


def start(rng, m):
    z = rng.uniform(0.1, 0.9, m)
    return z, parametrization.DirectParam(z.copy(), bounds=[0, 1])


def random_current(rng, n, dense=None):
    J = np.zeros([3] + n, complex)
    if dense or rng.random() < 0.5:
        return em.cplx(rng, [3] + n)
    for _ in range(int(rng.integers(1, 4))):
        J[int(rng.integers(3))][tuple(int(rng.integers(m)) for m in n)] = (
            rng.normal() + 1j * rng.normal())
    return J


def make_sim(ck, rng, space, info, wlen, eps, solver=None, source=None):
    rnd = info["rnd"]
    if source is None:
        source = random_current(rng, info["n"])
    bloch = None
    info["cache"] = None if rnd.random() < 0.5 else rnd.randint(1, 3)
    if rnd.random() < 0.3:
        ck.event("bloch")
        bloch = [0.0 if info["pml"][2 * a] or info["pml"][2 * a + 1] else
                 rnd.uniform(-1, 1) / (info["n"][a] * info["dx"])
                 for a in range(3)]
    sim = creator_em.FdfdSimulation(
        eps=eps, solver=solver or local_matrix_solvers.DirectSolver(),
        wlen=wlen, source=source if rnd.random() < 0.5 else vec(list(source)),
        simspace=space, bloch_vector=bloch,
        **({} if info["cache"] is None else {"cache_size": info["cache"]}))
    return sim, source, bloch


def derivative(fun, z, dz, h=2e-4):
    """Directional derivative; two step widths tell how exact it is."""
    def f(t):
        return fun.calculate_objective_function(
            parametrization.DirectParam(z + t * dz, bounds=[-1, 2]))
    a = (f(h) - f(-h)) / (2 * h)
    b = (f(2 * h) - f(-2 * h)) / (4 * h)
    return (4 * a - b) / 3, abs(a - b)


@family(quick=90, thorough=1500, timeout=200)
def fields(ck, rng):
    """The field solves the wave equation in the current permittivity."""
    with Scratch() as folder:
        space, _, info = make_space(ck, rng, folder)
        wlen = info["dx"] * info["rnd"].uniform(8, 30)
        inst = space(wlen)
        m = inst.selection_matrix.shape[1]
        z, par = start(rng, m)
        eps = creator_em.Epsilon(problem.Variable(m), wlen, space)
        sim, J, k = make_sim(ck, rng, space, info, wlen, eps)
        E = np.array(unvec(sim.calculate_objective_function(par),
                           info["n"]))
        e = np.array(unvec(vec(inst.eps_bg.grids) +
                           inst.selection_matrix @ z, info["n"]))
        omega = 2 * np.pi / wlen
        got = current(info, omega, e, E, k)
        ck.event("fields")
        ck.close(got, J, "field_of_the_source", rtol=1e-5,
                 scale=np.max(np.abs(E)) * (omega * 11 + 12 /
                                            info["dx"]**2 / omega) * 1e-3,
                 detail={"n": info["n"], "pml": info["pml"], "bloch": k})
        ov = em.cplx(rng, 3 * int(np.prod(info["n"])))
        fun = creator_em.OverlapFunction(sim, ov)
        ck.event("overlaps")
        ck.close(fun.calculate_objective_function(par),
                 np.sum(ov * vec(list(E))), "overlap", rtol=1e-9,
                 scale=np.sum(np.abs(ov * vec(list(E)))))
    ck.key(info["n"], info["pml"], info["dx"], info["lossy"])
    ck.sample({"n": info["n"], "pml": info["pml"], "bloch": k})


@family(quick=110, thorough=1800, timeout=200)
def gradients(ck, rng):
    """Gradients of objectives of overlaps equal finite differences."""
    with Scratch() as folder:
        space, _, info = make_space(ck, rng, folder)
        rnd = info["rnd"]
        wl = [info["dx"] * rnd.uniform(8, 30)]
        if rnd.random() < 0.4:
            wl.append(info["dx"] * rnd.uniform(8, 30))
            ck.event("several_wavelengths")
        total = None
        m = space(wl[0]).selection_matrix.shape[1]
        z, par = start(rng, m)
        var = problem.Variable(m)
        for w in wl:
            eps = creator_em.Epsilon(var, w, space)
            sim, J, k = make_sim(ck, rng, space, info, w, eps)
            for _ in range(rnd.randint(1, 2)):
                ov = random_current(rng, info["n"], dense=rnd.random() < 0.5)
                ov = vec(list(ov))
                E = sim.calculate_objective_function(par)
                s = abs(np.sum(ov * E))
                if s < 1e-2 * np.linalg.norm(ov) * np.linalg.norm(E) / np.sqrt(
                        len(E)):
                    continue
                f = problem.AbsoluteValue(
                    creator_em.OverlapFunction(sim, ov / s))
                f = rnd.choice([lambda f: f**2, lambda f: f,
                                lambda f: (f - 2)**2, lambda f: f * 3 + 1,
                                lambda f: f**3])(f)
                if total is None:
                    total = f
                else:
                    total = rnd.choice([lambda a, b: a + b,
                                        lambda a, b: a * b,
                                        lambda a, b: a - b])(total, f)
        if total is None:
            return
        dz = rng.normal(size=m)
        grad = np.asarray(total.calculate_gradient(par))
        ck.expect(np.isrealobj(grad) and grad.shape == (m,),
                  "gradient_is_a_real_vector", {"shape": grad.shape})
        fd, err = derivative(total, z, dz)
        scale = abs(fd) + np.linalg.norm(grad) * np.linalg.norm(dz) * 0.05
        if err > 0.02 * scale:
            return  # next to a resonance
        ck.event("gradients")
        ck.close(grad @ dz, fd, "gradient", rtol=2e-3, scale=scale,
                 detail={"n": info["n"], "pml": info["pml"], "wl": wl,
                         "lossy": info["lossy"], "m": m})
    ck.key(info["n"], info["pml"], info["dx"], len(wl), m)


@family(quick=60, thorough=1000, timeout=200)
def histories(ck, rng):
    """Any history of structures gives the fields of fresh simulations."""
    with Scratch() as folder:
        space, _, info = make_space(ck, rng, folder, n=[6, 6, 1])
        rnd = info["rnd"]
        wlen = info["dx"] * rnd.uniform(8, 30)
        inst = space(wlen)
        direct = rnd.random() < 0.4
        m = 3 * 36 if direct else inst.selection_matrix.shape[1]
        var = problem.Variable(m)
        if direct:
            z = vec(inst.eps_bg.grids) + rng.uniform(0, 1, m)
            eps = var
        else:
            z = rng.uniform(0.1, 0.9, m)
            eps = creator_em.Epsilon(var, wlen, space)
        z = np.real(z).copy()
        solver = Counter()
        sim, J, k = make_sim(ck, rng, space, info, wlen, eps, solver)
        ov = [em.cplx(rng, 3 * 36) for _ in range(2)]
        if rnd.random() < 0.4:
            # Objectives that hardly differ are different all the same.
            ov[1] = ov[0] + 1e-6 * ov[1]
            ck.event("similar_objectives")
        keep = info["cache"] or 1
        known, known_adj = [], []     # most recent last
        objs = [problem.AbsoluteValue(creator_em.OverlapFunction(sim, o))**2
                for o in ov]
        old = [z.copy()]
        par = parametrization.DirectParam(z, bounds=[-10, 20])
        for step in range(rnd.randint(3, 8)):
            act = rnd.choice(["new", "back", "in_place", "same", "tiny", "back"])
            if act == "new":
                z = old[0] + rng.uniform(-0.1, 0.1, m)
                par = parametrization.DirectParam(z, bounds=[-10, 20])
            elif act == "back":
                z = rnd.choice(old).copy()
                par.from_vector(z)
            elif act == "in_place":
                z = par.to_vector()
                z[rnd.randrange(m)] += 0.3
                par.from_vector(z)
                ck.event("in_place_changes")
            elif act == "tiny":
                par.from_vector(np.array(par.to_vector()) +
                                1e-6 * rng.uniform(0.5, 1, m))
                ck.event("tiny_changes")
            z = np.array(par.to_vector())
            old.append(z.copy())
            what = rnd.choice(["value", "gradient", "both"])
            o = rnd.randrange(2)
            fresh_eps = var if direct else creator_em.Epsilon(var, wlen,
                                                              space)
            fresh = creator_em.FdfdSimulation(
                eps=fresh_eps, solver=local_matrix_solvers.DirectSolver(),
                wlen=wlen, source=J, simspace=space, bloch_vector=k)
            fobj = problem.AbsoluteValue(
                creator_em.OverlapFunction(fresh, ov[o]))**2
            fp = parametrization.DirectParam(z.copy(), bounds=[-10, 20])
            # What the caches hold need not be solved again.
            may = 0
            key, akey = z.tobytes(), (z.tobytes(), o)
            may += key not in known
            known = ([q for q in known if q != key] + [key])[-keep:]
            if what != "value":
                may += akey not in known_adj
                known_adj = ([q for q in known_adj if q != akey] +
                             [akey])[-keep:]
            before = solver.count
            if what != "gradient":
                v = fobj.calculate_objective_function(fp)
                ck.close(objs[o].calculate_objective_function(par), v,
                         "value_in_history", rtol=1e-8, scale=abs(v),
                         detail={"step": step, "act": act})
            if what != "value":
                g = np.asarray(fobj.calculate_gradient(fp))
                ck.close(np.asarray(objs[o].calculate_gradient(par)), g,
                         "gradient_in_history", rtol=1e-8,
                         scale=np.max(np.abs(g)),
                         detail={"step": step, "act": act})
            ck.expect(solver.count - before <= may, "solves_in_history",
                      {"solves": solver.count - before, "expected": may,
                       "cache_size": keep, "step": step})
            if may < (1 if what == "value" else 2):
                ck.event("cache_hits")
            # Asking again costs nothing.
            before = solver.count
            objs[o].calculate_objective_function(par)
            if what != "value":
                objs[o].calculate_gradient(par)
            ck.event("cached_solves")
            ck.expect(solver.count == before, "no_new_solve",
                      {"what": what, "solves": solver.count - before})
    ck.event("histories")
    ck.key(m, len(old), direct, info["dx"])


@family(quick=80, thorough=1500, timeout=200)
def dipoles(ck, rng):
    """Dipoles sit in their cell and have the requested power."""
    with Scratch() as folder:
        # Thin PML do not define any emitted power.
        norm = rng.random() < 0.5
        w = int(rng.integers(6, 11))
        kw = dict(n=[16 + w, 14 + w, 1], pml=[w] * 4 + [0, 0]) if norm else {}
        space, _, info = make_space(ck, rng, folder, lossy=False,
                                    filled=bool(rng.random() < 0.5), **kw)
        rnd, n, dx = info["rnd"], info["n"], info["dx"]
        wlen = dx * rnd.uniform(8, 16 if norm else 30)
        omega = 2 * np.pi / wlen
        # A source in the PML does not emit any defined power.
        idx = [rnd.randint(info["pml"][2 * a],
                           n[a] - info["pml"][2 * a + 1] - 1)
               for a in range(3)]
        pos = [float(info["edges"][a][idx[a]] + dx * rnd.uniform(0.05, 0.95))
               for a in range(3)]
        ax, power = rnd.randrange(3), 10**rnd.uniform(-2, 2)
        phase = rnd.choice([None, 0.0, rnd.uniform(-4, 4)])
        kw = {} if phase is None else {"phase": phase}
        src = creator_em.DipoleSource(optplan.DipoleSource(
            name="d", position=pos, axis=ax, power=power,
            normalize_by_sim=norm, **kw))
        solver = local_matrix_solvers.DirectSolver()
        J = np.array(src(space, wlen, solver=solver))
        e = np.array(space(wlen).eps_bg.grids)
        at = (ax,) + tuple(idx)
        ck.event("dipoles")
        rest = J.copy()
        rest[at] = 0
        ck.expect(not np.any(rest), "dipole_in_one_cell",
                  {"want": at, "got": np.argwhere(J).tolist()})
        ck.close(np.exp(1j * np.angle(J[at])), np.exp(1j * (phase or 0)),
                 "dipole_phase", rtol=1e-9)
        if norm:
            ck.event("normalized_dipoles")
            # In a uniform medium with the permittivity of the source.
            E = solver.solve(omega=omega, dxes=space.dxes,
                             epsilon=np.full(J.size, np.real(e[at])),
                             mu=None, J=vec(list(J)),
                             pml_layers=space.pml_layers)
            p = -0.5 * np.real(np.sum(np.conj(vec(list(J))) * E)) * dx**3
            ck.close(p, power, "normalized_power", rtol=1e-4)
        else:
            ck.close(abs(J[at]), np.sqrt(power / (0.02661928208866846 *
                                                  omega**2 * dx**3)) /
                     np.real(e[at]), "dipole_strength", rtol=1e-3)
    ck.key(n, idx, ax, norm)


@family(quick=90, thorough=1500, timeout=200)
def power(ck, rng):
    """Power through the faces of a box balances sources and absorption."""
    with Scratch() as folder:
        space, _, info = make_space(ck, rng, folder)
        rnd, n, dx = info["rnd"], info["n"], info["dx"]
        wlen = dx * rnd.uniform(8, 30)
        omega = 2 * np.pi / wlen
        inst = space(wlen)
        m = inst.selection_matrix.shape[1]
        z, par = start(rng, m)
        eps = creator_em.Epsilon(problem.Variable(m), wlen, space)
        J = random_current(rng, n)
        sim = creator_em.FdfdSimulation(
            eps=eps, solver=local_matrix_solvers.DirectSolver(), wlen=wlen,
            source=J, simspace=space)
        E = np.array(unvec(sim.calculate_objective_function(par), n))
        e = np.array(unvec(eps.calculate_objective_function(par), n))
        # A box outside of the PML; a flat axis is periodic and closed.
        lo, hi = [], []
        for a in range(3):
            if n[a] == 1:
                lo.append(0)
                hi.append(1)
                continue
            p0, p1 = info["pml"][2 * a], info["pml"][2 * a + 1]
            i = rnd.randint(p0 + 1, max(p0 + 1, n[a] - p1 - 2))
            lo.append(i)
            hi.append(rnd.randint(i + 1, max(i + 1, n[a] - p1 - 1)))

        def plane(axis, index, normal):
            """The face between the cells index and index + 1."""
            cen, ext = [], []
            for a in range(3):
                x0, x1 = ((index, index + 1) if a == axis else
                          (lo[a], hi[a]))
                x = info["edges"][a]
                cen.append(float(x[x0] + x[x1]) / 2)
                ext.append(float(x[x1] - x[x0]))
            v = [0, 0, 0]
            v[axis] = normal
            node = poynting.PowerTransmission(center=cen, extents=ext,
                                              normal=v)
            sl = grid_utils.create_region_slices(space.edge_coords, cen, ext)
            want = [slice(index, index + 1) if a == axis else
                    slice(lo[a], hi[a]) for a in range(3)]
            ck.expect([(s.start, s.stop) for s in sl] ==
                      [(s.start, s.stop) for s in want], "plane_cells",
                      {"got": str(sl), "want": str(want)})
            return poynting.PowerTransmissionFunction(
                field=sim, simspace=space, wlen=wlen, plane_slice=sl,
                axis=gridlock.axisvec2axis(node.normal),
                polarity=gridlock.axisvec2polarity(node.normal))

        out, gross = 0.0, 0.0
        faces = []
        for a in range(3):
            if n[a] == 1:
                continue
            for index, normal in ((hi[a] - 1, 1), (lo[a] - 1, -1)):
                f = plane(a, index, normal)
                faces.append(f)
                p = f.calculate_objective_function(par)
                out += p
                gross += abs(p)
        box = (slice(None),) + tuple(slice(l, h) for l, h in zip(lo, hi))
        V = dx**3
        emitted = -0.5 * np.real(np.sum(np.conj(J[box]) * E[box])) * V
        absorbed = -0.5 * omega * np.sum(np.imag(e[box]) *
                                         np.abs(E[box])**2) * V
        ck.event("closed_surfaces")
        scale = gross + abs(emitted) + abs(absorbed)
        ck.close(out, emitted - absorbed, "energy_balance", rtol=1e-7,
                 scale=scale, detail={"n": n, "box": [lo, hi],
                                      "emitted": emitted,
                                      "absorbed": absorbed})
        # The gradient, through the simulation.
        f = rnd.choice(faces)
        dz = rng.normal(size=m)
        fd, err = derivative(f, z, dz)
        grad = np.asarray(f.calculate_gradient(par))
        scale = abs(fd) + np.linalg.norm(grad) * np.linalg.norm(dz) * 0.05
        if err < 0.02 * scale:
            ck.event("power_gradients")
            got = float(grad @ dz)
            if abs(got - fd / 2) < 2e-3 * scale < abs(got - fd):
                # Known finding: the Wirtinger derivative, which the test of
                # the repository asks for, is half of what the others return.
                ck.fail("power_gradient_is_half", {"got": got, "fd": fd})
            else:
                ck.close(got, fd, "power_gradient", rtol=2e-3, scale=scale)
    ck.key(n, info["pml"], lo, hi)


@family(quick=1500, thorough=20000, timeout=60)
def regions(ck, rng):
    """A region selects the cells it covers, never nothing, never outside."""
    dx = float(rng.choice([1, 10, 40]))
    n = [int(rng.integers(1, 40)) for _ in range(3)]
    lo = np.round(rng.uniform(-300, 300, 3)) * dx
    edges = [l + dx * np.arange(m + 1) for l, m in zip(lo, n)]
    want, cen, ext, exact = [], [], [], []
    for a in range(3):
        if rng.random() < 0.3:
            # A plane is the cell that it lies in.
            k = int(rng.integers(n[a]))
            cen.append(lo[a] + (k + 0.5 + rng.uniform(-0.3, 0.3)) * dx)
            ext.append(0.0)
            want.append((k, k + 1))
            exact.append(True)
            continue
        i = int(rng.integers(-3, n[a]))
        j = int(rng.integers(max(i, 0) + 1, n[a] + 6))
        off = 0.0 if rng.random() < 0.5 else rng.uniform(-0.3, 0.3)
        cen.append(lo[a] + ((i + j) / 2 + off) * dx)
        ext.append((j - i) * dx)
        want.append((max(i, 0), min(j, n[a])))
        # Between the cells, up to the borders and beyond.
        exact.append(off == 0.0 and (0 <= i or i < -1) and
                     (j <= n[a] or j > n[a] + 1))
    sl = grid_utils.create_region_slices(edges, cen, ext)
    ck.event("regions")
    for a in range(3):
        s = sl[a]
        info = {"axis": a, "got": [s.start, s.stop], "want": want[a],
                "n": n[a], "center": cen[a], "extent": ext[a], "lo": lo[a],
                "dx": dx}
        ck.expect(0 <= s.start < s.stop <= n[a], "region_outside_grid", info)
        tol = 0 if exact[a] else 1
        ck.expect(abs(s.start - want[a][0]) <= tol and
                  abs(s.stop - want[a][1]) <= tol, "region_cells", info)
    ck.key(n, tuple(cen), tuple(ext))


@family(quick=80, thorough=1200, timeout=200)
def imported(ck, rng):
    """Imported overlaps have the field of the file at the grid's points."""
    with Scratch() as folder:
        space, _, info = make_space(ck, rng, folder, kind="full",
                                    lossy=False)
        rnd, n, dx = info["rnd"], info["n"], info["dx"]
        cen = [float(np.mean(info["edges"][a])) + rnd.choice([0, 13])
               for a in range(3)]
        flat = rnd.choice([(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2),
                           (0, 1, 2)])
        co = []
        for a in range(3):
            half = rnd.uniform(0.3, 1.2) * n[a] * dx
            k = rnd.randint(2, 5)
            x = np.sort(np.concatenate([[-half, half],
                                        rng.uniform(-half, half, k)]))
            co.append(np.array([0.0]) if a in flat else x)
        if flat:
            ck.event("planar_overlaps")
        if len(flat) > 1:
            ck.event("line_overlaps")
        # Multilinear fields are interpolated exactly.
        coef = em.cplx(rng, (3, 8))

        def field(i, x, y, z):
            c = coef[i]
            u, v, w = x / 300, y / 300, z / 300
            u, v, w = [0 * t if a in flat else t
                       for a, t in enumerate((u, v, w))]
            return (c[0] + c[1] * u + c[2] * v + c[3] * w + c[4] * u * v +
                    c[5] * v * w + c[6] * u * w + c[7] * u * v * w)

        X = np.meshgrid(*co, indexing="ij")
        scipy.io.savemat(os.path.join(folder, "o.mat"), {
            "x": co[0], "y": co[1], "z": co[2], "Ex": field(0, *X),
            "Ey": field(1, *X), "Ez": field(2, *X)})
        ov = creator_em.ImportOverlap(optplan.ImportOverlap(
            name="o", file_name="o.mat", center=cen))
        got = np.array(ov(space, 1550))
        ck.event("imported_overlaps")
        g = space(1550).eps_bg
        for i in range(3):
            pts = [np.asarray(p) - cen[a] for a, p in enumerate(
                g.shifted_xyz(which_shifts=i))]
            lim = [(-dx / 2, dx / 2) if a in flat else (co[a][0], co[a][-1])
                   for a in range(3)]
            P = np.meshgrid(*pts, indexing="ij")
            ins = np.ones(n, bool)
            edge = np.zeros(n, bool)
            for a in range(3):
                ins &= (P[a] >= lim[a][0]) & (P[a] <= lim[a][1])
                edge |= (np.abs(P[a] - lim[a][0]) < 1e-6) | (
                    np.abs(P[a] - lim[a][1]) < 1e-6)
            want = np.where(ins, field(i, *P), 0)
            ck.close(got[i][~edge], want[~edge], "imported_field",
                     rtol=1e-9, scale=10, detail={"comp": i, "flat": flat})
    ck.key(n, flat, [len(c) for c in co])


@family(quick=40, thorough=500, timeout=200)
def servers(ck, rng):
    """A plan's simulation on the Maxwell server is the local one."""
    with Scratch() as folder:
        space, params, info = make_space(ck, rng, folder)
        rnd, n, dx = info["rnd"], info["n"], info["dx"]
        wlen = dx * rnd.uniform(8, 30)
        m = space(wlen).selection_matrix.shape[1]
        z, par = start(rng, m)
        bloch = [0.0 if info["pml"][2 * a] or info["pml"][2 * a + 1] else
                 rnd.uniform(-1, 1) / (n[a] * dx) for a in range(3)]
        if rnd.random() < 0.3:
            bloch = [0.0] * 3
        pos = [float(info["edges"][a][rnd.randrange(n[a])] + dx / 2)
               for a in range(3)]
        name, code = rnd.choice([("maxwell_cg", 0), ("maxwell_bicgstab", 1)])
        power = rnd.uniform(0.5, 2)
        norm = rnd.random() < 0.3
        dip = dict(position=pos, axis=rnd.randrange(3), power=power,
                   normalize_by_sim=norm)

        def dipole():
            with np.errstate(all="ignore"):
                return creator_em.DipoleSource(optplan.DipoleSource(
                    name="d", **dip))(space, wlen, solver=(
                        local_matrix_solvers.DirectSolver()))

        # In so small a space a dipole may radiate nothing outwards.
        if norm and not np.all(np.isfinite(dipole())):
            norm = dip["normalize_by_sim"] = False
        spec = optplan.FdfdSimulation(
            simulation_space=params, wavelength=wlen, solver=name,
            epsilon=optplan.Epsilon(simulation_space=params, wavelength=wlen),
            source=optplan.DipoleSource(**dip), bloch_vector=bloch)
        optplan.autoname(spec)
        grad = rnd.random() < 0.6
        ov = em.cplx(rng, [3] + n)

        srv = Server(np.random.default_rng(int(rng.integers(2**31))),
                     solve_uploaded, 0.0)
        real = remote.MaxwellSolver.__init__

        def init(self, *a, **k):
            if len(a) < 2:
                k.setdefault("server", srv.addr)
            real(self, *a, **k)

        remote.MaxwellSolver.__init__ = init
        try:
            with Fast():
                sim = workspace.Workspace(folder, None).get_object(spec)
                obj = problem.AbsoluteValue(creator_em.OverlapFunction(
                    sim, vec(list(ov))))
                E = np.array(unvec(sim.calculate_objective_function(par), n))
                g = np.asarray(obj.calculate_gradient(par)) if grad else None
        finally:
            remote.MaxwellSolver.__init__ = real
            srv.close()
        J = dipole()
        loc = creator_em.FdfdSimulation(
            eps=creator_em.Epsilon(problem.Variable(m), wlen, space),
            solver=local_matrix_solvers.DirectSolver(), wlen=wlen, source=J,
            simspace=space, bloch_vector=bloch)
        want = np.array(unvec(loc.calculate_objective_function(par), n))
        ck.close(E, want, "server_field", rtol=1e-6,
                 scale=np.max(np.abs(want)), detail={"bloch": bloch})
        if grad:
            w = np.asarray(problem.AbsoluteValue(creator_em.OverlapFunction(
                loc, vec(list(ov)))).calculate_gradient(par))
            ck.close(g, w, "server_gradient", rtol=1e-5,
                     scale=np.max(np.abs(w)))
        # A solve with a Bloch phase always needs BiCGSTAB.
        code = 1 if np.any(bloch) else code
        ck.expect(all(p["solver"] == (code if i or not norm else p["solver"])
                      for i, p in enumerate(srv.problems)),
                  "requested_algorithm", {"name": name, "uploaded": [
                      int(p["solver"]) for p in srv.problems]})
        ck.event("server_plans")
    ck.key(n, m, name, grad, norm)


@family(quick=24, thorough=300, timeout=300)
def waveguides(ck, rng):
    """A mode is launched with its power and measured by the overlap."""
    with Scratch() as folder:
        rnd = random.Random(int(rng.integers(1 << 30)))
        axis = rnd.choice([0, 1])
        other = 1 - axis
        dx = 40
        n = [1, 1, 1]
        n[axis], n[other] = 40, 30
        ext = [m * dx for m in n]
        width = rnd.choice([280, 360, 560, 640])
        half = [0, 0]
        half[axis], half[other] = 50000, width / 2
        rect = [(-half[0], -half[1]), (half[0], -half[1]),
                (half[0], half[1]), (-half[0], half[1])]
        write_gds(os.path.join(folder, "g.gds"), rect)
        nc = rnd.uniform(2.6, 3.4)
        stack = optplan.GdsMaterialStack(background=mat(1), stack=[
            optplan.GdsMaterialStackLayer(
                foreground=mat(nc), background=mat(1), gds_layer=[100, 0],
                extents=[-500, 500])])
        spec = optplan.GdsEps(gds="g.gds", mat_stack=stack)
        pml = [0] * 6
        pml[2 * axis:2 * axis + 2] = [8, 8]
        params = optplan.SimulationSpace(
            name="s", mesh=optplan.UniformMesh(dx=dx), eps_fg=spec,
            eps_bg=spec, sim_region=optplan.Box3d(center=[0, 0, 0],
                                                  extents=ext),
            pml_thickness=pml, selection_matrix_type=(
                optplan.SelectionMatrixType.FULL_DIRECT.value))
        space = simspace.SimulationSpace(params, folder)
        wlen = rnd.choice([1400, 1550])
        pol = rnd.choice([1, -1])
        normal = [0, 0, 0]
        normal[axis] = pol
        size = [dx, dx, dx]
        size[other] = n[other] * dx - 80
        size[axis] = dx
        where = [0, 0, 0]
        where[axis] = -pol * 8 * dx
        p_src, p_ov = 10**rnd.uniform(-1, 1), 10**rnd.uniform(-1, 1)
        # A wide guide has several modes in the plane and out of it.
        mode = rnd.randrange(3) if width > 500 else 0
        if mode:
            ck.event("higher_modes")
        src = creator_em.WaveguideModeSource(optplan.WaveguideModeSource(
            name="a", center=where, extents=size, normal=normal,
            mode_num=mode, power=p_src))
        at = [-w for w in where]
        ov = creator_em.WaveguideModeOverlap(optplan.WaveguideModeOverlap(
            name="b", center=at, extents=size, normal=normal, mode_num=mode,
            power=p_ov))
        back = creator_em.WaveguideModeOverlap(optplan.WaveguideModeOverlap(
            name="c", center=at, extents=size, normal=[-v for v in normal],
            mode_num=mode, power=p_ov))
        cross = creator_em.WaveguideModeOverlap(optplan.WaveguideModeOverlap(
            name="e", center=at, extents=size, normal=normal,
            mode_num=0 if mode else 1, power=p_ov))
        J = np.array(src(space, wlen))
        eps = problem.Constant(vec(space(wlen).eps_bg.grids))
        sim = creator_em.FdfdSimulation(
            eps=eps, solver=local_matrix_solvers.DirectSolver(), wlen=wlen,
            source=J, simspace=space)
        fun = creator_em.OverlapFunction(sim, vec(ov(space, wlen)))
        fun_b = creator_em.OverlapFunction(sim, vec(back(space, wlen)))
        t = abs(graph_executor.eval_fun(fun, None))**2
        r = abs(graph_executor.eval_fun(fun_b, None))**2
        x = abs(graph_executor.eval_fun(creator_em.OverlapFunction(
            sim, vec(cross(space, wlen))), None))**2
        ck.event("waveguides")
        if width > 500:
            ck.expect(x < 2e-2 * p_src * p_ov, "other_mode",
                      {"x": x / (p_src * p_ov), "mode": mode})
        ck.close(t / (p_src * p_ov), 1.0, "transmission", rtol=0.06,
                 detail={"axis": axis, "pol": pol, "nc": nc, "wl": wlen})
        ck.expect(r < 5e-2 * p_src * p_ov, "no_reflection",
                  {"r": r / (p_src * p_ov)})
        pw = poynting.PowerTransmissionFunction(
            field=sim, simspace=space, wlen=wlen,
            plane_slice=grid_utils.create_region_slices(space.edge_coords,
                                                        at, size),
            axis=gridlock.axisvec2axis(normal),
            polarity=gridlock.axisvec2polarity(normal))
        p = graph_executor.eval_fun(pw, None)
        ck.close(p / p_src, 1.0, "power_of_the_mode", rtol=0.06)
    ck.key(axis, pol, width, wlen, mode)


PLAN = r'''
import json, os, sys
import numpy as np
sys.path.insert(0, sys.argv[1])
from spins import fdfd_tools
from spins.invdes import parametrization
from spins.invdes.problem_graph import creator_em, optplan, workspace
from spins.invdes.problem_graph import creator_monitor, simspace
from spins.invdes.problem_graph.functions import poynting
d = json.load(open(os.path.join(sys.argv[2], "case.json")))
space = optplan.SimulationSpace(d["space"])
wl = d["wlen"]
eps = optplan.Epsilon(simulation_space=space, wavelength=d["eps_wlen"])
src = optplan.DipoleSource(position=d["pos"], axis=d["axis"], power=2.0)
sim = optplan.FdfdSimulation(simulation_space=space, epsilon=eps, source=src,
                             wavelength=wl, solver="local_direct",
                             **({} if d["bloch"] is None else
                                {"bloch_vector": d["bloch"]}))
ov = optplan.ImportOverlap(file_name="o.mat", center=d["center"])
obj = (1 - optplan.abs(optplan.Overlap(simulation=sim, overlap=ov)))**2
pw = poynting.PowerTransmission(field=sim, center=d["pc"], extents=d["pe"],
                                normal=d["pn"])
mon = optplan.FieldMonitor(function=sim, center=d["pos"], normal=[0, 0, 1])
gspace = optplan.SimulationSpace(d["guide"])
gw = d["guide_wlen"]
gsim = optplan.FdfdSimulation(
    simulation_space=gspace, solver="local_direct", wavelength=gw,
    bloch_vector=[0.0, 0.0, 0.0],
    epsilon=optplan.Epsilon(simulation_space=gspace, wavelength=gw),
    source=optplan.WaveguideModeSource(**d["guide_source"]))
gov = optplan.abs(optplan.Overlap(
    simulation=gsim, overlap=optplan.WaveguideModeOverlap(
        **d["guide_overlap"])))
optplan.autoname([obj, pw, mon, gov])
work = workspace.Workspace(sys.argv[2], None)
par = parametrization.DirectParam(np.array(d["z"]), bounds=[0, 1])
f = work.get_object(obj)
out = {"value": float(np.real(f.calculate_objective_function(par))),
       "grad": np.asarray(f.calculate_gradient(par)).tolist(),
       "power": float(work.get_object(pw).calculate_objective_function(par))}
gpar = parametrization.DirectParam(np.array(d["guide_z"]), bounds=[0, 1])
out["guide"] = float(np.real(work.get_object(
    gov).calculate_objective_function(gpar)))
E = np.array(work.get_object(mon).get_data(par))
out["mon"] = [E.real.tolist(), E.imag.tolist()]
json.dump(out, open(os.path.join(sys.argv[2], "out.json"), "w"))
creator_em.DIRECT_SOLVER.pool.terminate() if hasattr(
    getattr(creator_em, "DIRECT_SOLVER", None), "pool") else None
'''


def plan_guide(rnd, folder):
    """A waveguide with a design area next to it, and its ports."""
    axis = rnd.choice([0, 1])
    other = 1 - axis
    dx = 40
    n = [1, 1, 1]
    n[axis], n[other] = 26, 24
    half = [0, 0]
    half[axis], half[other] = 50000, 160
    write_gds(os.path.join(folder, "gbg.gds"), [
        (-half[0], -half[1]), (half[0], -half[1]), (half[0], half[1]),
        (-half[0], half[1])])
    half[axis], half[other] = 80, 240
    lib = gdspy.GdsLibrary(unit=1e-6, precision=1e-9)
    cell = gdspy.Cell("T", exclude_from_current=True)
    lib.add(cell)
    for h in (half, [50000 if a == axis else 160 for a in range(2)]):
        cell.add(gdspy.Rectangle((-h[0] / 1000, -h[1] / 1000),
                                 (h[0] / 1000, h[1] / 1000), layer=100))
    lib.write_gds(os.path.join(folder, "gfg.gds"))
    stack = optplan.GdsMaterialStack(background=mat(1), stack=[
        optplan.GdsMaterialStackLayer(
            foreground=mat(3), background=mat(1), gds_layer=[100, 0],
            extents=[-500, 500])])
    pml = [0] * 6
    pml[2 * axis:2 * axis + 2] = [6, 6]
    params = optplan.SimulationSpace(
        name="guide", mesh=optplan.UniformMesh(dx=dx),
        eps_fg=optplan.GdsEps(gds="gfg.gds", mat_stack=stack),
        eps_bg=optplan.GdsEps(gds="gbg.gds", mat_stack=stack),
        sim_region=optplan.Box3d(center=[0, 0, 0],
                                 extents=[m * dx for m in n]),
        pml_thickness=pml,
        selection_matrix_type=optplan.SelectionMatrixType.DIRECT.value)
    normal = [0, 0, 0]
    normal[axis] = rnd.choice([1, -1])
    size = [dx, dx, dx]
    size[other] = 20 * dx
    kw = []
    for k in (-1, 1):
        at = [0, 0, 0]
        at[axis] = k * normal[axis] * 5 * dx
        kw.append(dict(center=at, extents=size, normal=normal, mode_num=0,
                       power=rnd.uniform(0.2, 3)))
    return params, simspace.SimulationSpace(params, folder), kw


@family(quick=10, thorough=60, timeout=200)
def plans(ck, rng):
    """A plan given by its nodes is the same as the objects put together."""
    with Scratch() as folder:
        space, params, info = make_space(ck, rng, folder)
        rnd, n, dx = info["rnd"], info["n"], info["dx"]
        wlen = dx * rnd.uniform(8, 30)
        inst = space(wlen)
        m = inst.selection_matrix.shape[1]
        z, par = start(rng, m)
        idx = [rnd.randrange(k) for k in n]
        pos = [float(info["edges"][a][idx[a]] + dx / 2) for a in range(3)]
        ax = rnd.randrange(3)
        cen = [float(np.mean(x)) for x in info["edges"]]
        co = [np.linspace(-500, 500, 3)] * 3
        F = em.cplx(rng, (3, 3, 3, 3))
        scipy.io.savemat(os.path.join(folder, "o.mat"), {
            "x": co[0], "y": co[1], "z": co[2], "Ex": F[0], "Ey": F[1],
            "Ez": F[2]})
        pa = rnd.choice([0, 1])
        pn = [0, 0, 0]
        pn[pa] = rnd.choice([1, -1])
        pe = [float(k * dx) for k in n]
        pe[pa] = dx
        bloch = None
        if rnd.random() < 0.8:
            bloch = [0.0 if info["pml"][2 * a] or info["pml"][2 * a + 1] else
                     rnd.uniform(-1, 1) / (n[a] * dx) for a in range(3)]
            ck.event("plan_bloch")
        eps_wlen = wlen if rnd.random() < 0.5 else wlen * rnd.uniform(.8, 1.2)
        gparams, gspace, gkw = plan_guide(rnd, folder)
        gw = rnd.uniform(1400, 1600)
        gz = rng.uniform(0, 1, gspace(gw).selection_matrix.shape[1])
        case = dict(space=params.to_primitive(), wlen=wlen, pos=pos, axis=ax,
                    center=cen, z=z.tolist(), pc=cen, pe=pe, pn=pn,
                    eps_wlen=eps_wlen, bloch=bloch,
                    guide=gparams.to_primitive(), guide_wlen=gw,
                    guide_source=gkw[0], guide_overlap=gkw[1],
                    guide_z=gz.tolist())
        with open(os.path.join(folder, "case.json"), "w") as fp:
            json.dump(case, fp)
        with open(os.path.join(folder, "plan.py"), "w") as fp:
            fp.write(PLAN)
        root = os.path.dirname(os.path.dirname(os.path.abspath(
            sys.modules["spins"].__file__)))
        res = subprocess.run([sys.executable, "plan.py", root, folder],
                             cwd=folder, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, timeout=150)
        ck.require(os.path.exists(os.path.join(folder, "out.json")),
                   "plan_evaluates", {"output": res.stdout[-1500:]})
        with open(os.path.join(folder, "out.json")) as fp:
            out = json.load(fp)
        eps = creator_em.Epsilon(problem.Variable(m), eps_wlen, space)
        J = creator_em.DipoleSource(optplan.DipoleSource(
            name="d", position=pos, axis=ax, power=2.0))(space, wlen,
                                                         solver=None)
        sim = creator_em.FdfdSimulation(
            eps=eps, solver=local_matrix_solvers.DirectSolver(), wlen=wlen,
            source=J, simspace=space, bloch_vector=bloch)
        gsim = creator_em.FdfdSimulation(
            eps=creator_em.Epsilon(problem.Variable(len(gz)), gw, gspace),
            solver=local_matrix_solvers.DirectSolver(), wlen=gw,
            source=np.array(creator_em.WaveguideModeSource(
                optplan.WaveguideModeSource(name="s", **gkw[0]))(gspace, gw)),
            simspace=gspace)
        want = abs(creator_em.OverlapFunction(gsim, vec(
            creator_em.WaveguideModeOverlap(optplan.WaveguideModeOverlap(
                name="v", **gkw[1]))(gspace, gw))).calculate_objective_function(
                    parametrization.DirectParam(gz, bounds=[0, 1])))
        ck.close(out["guide"], want, "plan_waveguide_modes", rtol=1e-4,
                 detail={"wlen": gw})
        ov = creator_em.ImportOverlap(optplan.ImportOverlap(
            name="o", file_name="o.mat", center=cen))(space, wlen)
        ab = problem.AbsoluteValue(creator_em.OverlapFunction(
            sim, vec(list(ov))))
        obj = (1 - ab)**2
        v = obj.calculate_objective_function(par)
        ck.close(out["value"], v, "plan_value", rtol=1e-7, scale=abs(v) + 1)
        g = np.asarray(obj.calculate_gradient(par))
        ck.close(np.array(out["grad"]), g, "plan_gradient", rtol=1e-6,
                 scale=np.max(np.abs(g)))
        E = np.array(unvec(sim.calculate_objective_function(par), n))
        got = np.array(out["mon"][0]) + 1j * np.array(out["mon"][1])
        ck.close(got, E[:, :, :, idx[2]:idx[2] + 1], "plan_field_monitor",
                 rtol=1e-7, scale=np.max(np.abs(E)))
        pw = poynting.PowerTransmissionFunction(
            field=sim, simspace=space, wlen=wlen,
            plane_slice=grid_utils.create_region_slices(space.edge_coords,
                                                        cen, pe),
            axis=pa, polarity=pn[pa])
        p = pw.calculate_objective_function(par)
        ck.close(out["power"], p, "plan_power", rtol=1e-7, scale=abs(p) +
                 1e-3 * np.max(np.abs(E))**2 * dx**2)
        ck.event("plans")
    ck.key(n, m, ax, pa)
