"""C28: plane waves and Gaussian beams."""
import copy
import os
import random
import shutil
import tempfile

import gdspy
import numpy as np

from vlib import em
from vlib.core import family
from spins import fdfd_tools, goos, gridlock
from spins.fdfd_solvers import local_matrix_solvers
from spins.fdfd_tools import free_space_sources as fss
from spins.goos_sim import maxwell
from spins.invdes.problem_graph import creator_em, optplan, simspace

RULE = ("random plane waves and Gaussian beams (axis, sign, angles, "
        "polarization, power, index, cell size) are simulated in uniform "
        "media; the simulated field is compared with the analytic wave, its "
        "power with an independent Poynting sum; currents are compared "
        "between axes, powers and borders; distinct by set-up")
REQUIRED_EVENTS = ["plane_waves", "oblique", "backward", "nonuniform_grids",
                   "gaussians", "oblique_gaussians", "off_centre", "axis_x",
                   "axis_y", "axis_z", "permuted", "borders", "scaled",
                   "plan_plane_waves", "plan_gaussians", "goos_gaussians",
                   "normalized", "currents", "thick_slices", "eps_layers",
                   "eps_lossy", "plane_amplitudes", "normalized_directly",
                   "structured_backgrounds", "one_sided_pml", "plan_borders",
                   "goos_structures", "goos_several_sources"]

vec, unvec = fdfd_tools.vec, fdfd_tools.unvec


def rotate(v, about, angle):
    """Rodrigues' rotation of a vector."""
    u = np.asarray(about, float)
    u = u / np.linalg.norm(u)
    v = np.asarray(v, float)
    return (v * np.cos(angle) + np.cross(u, v) * np.sin(angle) +
            u * np.dot(u, v) * (1 - np.cos(angle)))


def wave_vectors(axis, sign, theta, psi, pol):
    """Directions of propagation and of the electric field."""
    ez = np.eye(3)[axis]
    ex = np.eye(3)[(axis + 1) % 3]
    n = sign * ez
    k = rotate(rotate(n, ex, theta), n, psi)
    e = rotate(rotate(ex, n, psi), k, pol)
    return k, e


def make_grid(shape, dx, eps, rng=None, axis=None, origin=(0, 0, 0)):
    """A uniform grid, or one with unequal cells along `axis`."""
    edges = []
    for a in range(3):
        d = np.full(shape[a], dx)
        if axis == a:
            m = shape[a]
            d[14:m - 14] *= 1 + 0.1 * np.sin(np.arange(m - 28) * 0.3)
        edges.append(origin[a] + np.concatenate([[0], np.cumsum(d)]))
    g = gridlock.Grid(edges, num_grids=3, initial=eps, periodic=True,
                      ext_dir=gridlock.Direction.z)
    g.render()
    return g


def positions(g, comp):
    """Coordinates of a component of the electric field."""
    out = []
    for a in range(3):
        e = g.exyz[a]
        lo, hi = e[:-1], e[1:]
        mid = (lo + hi) / 2
        # The electric component lies half a cell further along itself.
        out.append(mid + (hi - lo) / 2 * (a == comp))
    return np.meshgrid(*out, indexing="ij")


def solve(g, omega, J, pml, k):
    dxes = [g.dxyz, g.autoshifted_dxyz()]
    E = local_matrix_solvers.DirectSolver().solve(
        omega=omega, dxes=dxes, epsilon=vec(g.grids), J=vec(list(J)),
        pml_layers=pml, bloch_vec=np.array(k))
    return np.array(unvec(E, g.shape))


def at(f, axis, i):
    return np.take(f, i, axis=axis)


@family(quick=64, thorough=1200, timeout=300)
def plane_waves(ck, rng):
    axis = int(rng.integers(3))
    sign = int(rng.choice([-1, 1]))
    oblique = rng.random() < 0.7
    theta = float(rng.uniform(-0.6, 0.6)) if oblique else 0.0
    psi = float(rng.uniform(-np.pi, np.pi)) if rng.random() < 0.7 else 0.0
    pol = float(rng.uniform(-np.pi, np.pi)) if rng.random() < 0.7 else 0.0
    power = float(rng.uniform(0.2, 5))
    n = float(rng.uniform(1, 2.5))
    wlen = float(rng.choice([1.0, 1550.0]))
    dx = wlen / n / float(rng.uniform(17, 24))
    shape = [int(rng.integers(1, 6)) for _ in range(3)]
    shape[axis] = int(rng.integers(50, 64))
    uneven = rng.random() < 0.3
    g = make_grid(shape, dx, n**2, rng, axis if uneven else None,
                  origin=rng.uniform(-1, 1, 3) * wlen)
    omega = 2 * np.pi / wlen
    p = int(rng.integers(20, 26)) if sign > 0 else shape[axis] - int(
        rng.integers(20, 26))
    slices = [slice(0, m) for m in shape]
    slices[axis] = slice(p, p + 1)
    J, k = fss.build_plane_wave_source(
        eps_grid=g, omega=omega, axis=axis, slices=list(slices), theta=theta,
        psi=psi, polarization_angle=pol, polarity=sign, power=power)
    kdir, e = wave_vectors(axis, sign, theta, psi, pol)
    info = {"axis": axis, "sign": sign, "theta": theta, "psi": psi,
            "pol": pol, "n": n, "shape": shape, "uneven": bool(uneven)}
    ck.event("plane_waves")
    ck.event("axis_" + "xyz"[axis])
    if oblique:
        ck.event("oblique")
    if sign < 0:
        ck.event("backward")
    if uneven:
        ck.event("nonuniform_grids")
    ck.key(axis, sign, round(theta, 3), round(psi, 3), round(pol, 3))
    ck.close(np.array(k), kdir * omega * n, "wavevector", rtol=1e-9,
             atol=1e-9 * omega, detail=info)
    J = np.array(J)
    inside = np.zeros(g.shape, bool)
    sl = [slice(None)] * 3
    sl[axis] = slice(p - 1, p + 1)
    inside[tuple(sl)] = True
    ck.expect(np.all(J[:, ~inside] == 0), "current_outside_of_its_plane", info)
    kk = np.array(k)
    kk[axis] = 0
    pml = [0] * 6
    pml[2 * axis] = pml[2 * axis + 1] = 12
    E = solve(g, omega, J, pml, kk)
    # Wave in front of the source: one complex amplitude describes all.
    area = np.prod([m * dx for a, m in enumerate(shape) if a != axis])
    amp = np.sqrt(2 * power / (n * area * np.cos(theta)))
    front = np.arange(p + 2, shape[axis] - 14) if sign > 0 else np.arange(
        14, p - 2)
    want = []
    for c in range(3):
        x = positions(g, c)
        want.append(e[c] * np.exp(-1j * omega * n * sum(
            kdir[a] * x[a] for a in range(3))))
    want = np.array(want)
    W, F = at(want, axis + 1, front), at(E, axis + 1, front)
    phase = np.vdot(W, F)
    phase /= abs(phase)
    err = np.max(np.abs(F - amp * phase * W)) / amp
    ck.expect(err < 0.09, "field_of_the_plane_wave",
              dict(info, error=float(err), amplitude=float(
                  abs(np.vdot(W, F) / np.vdot(W, W)) / amp)))
    a0 = abs(np.vdot(W, F) / np.vdot(W, W))
    ck.close(a0 / amp, 1.0, "power_of_the_plane_wave", rtol=0.01, detail=info)
    back = np.arange(14, p - 3) if sign > 0 else np.arange(
        p + 3, shape[axis] - 14)
    if len(back):
        b = np.max(np.abs(at(E, axis + 1, back))) / amp
        ck.expect(b < 0.03, "nothing_is_emitted_backwards",
                  dict(info, ratio=float(b)))


@family(quick=40, thorough=600, timeout=300)
def gaussians(ck, rng):
    """Beams in a flat space (one cell along one transverse direction)."""
    axis = int(rng.integers(3))
    sign = int(rng.choice([-1, 1]))
    lx, ly = (axis + 1) % 3, (axis + 2) % 3
    tilt = rng.random() < 0.6
    theta = float(rng.uniform(-0.3, 0.3)) if tilt else 0.0
    # The beam tilts within the plane of the default polarization's normal.
    turn = bool(rng.integers(2))
    psi = (np.pi / 2 if turn else 0.0) * float(rng.choice([1, -1]))
    flat, wide = (ly, lx) if turn else (lx, ly)
    pol = float(rng.choice([0, np.pi / 2, rng.uniform(0, np.pi)]))
    power = float(rng.uniform(0.3, 4))
    n = float(rng.uniform(1, 2))
    wlen = float(rng.choice([1.0, 1550.0]))
    lam = wlen / n
    dx = lam / float(rng.uniform(14, 18))
    w0 = lam * float(rng.uniform(1.4, 2))
    shape = [1, 1, 1]
    shape[wide] = int(7.5 * w0 / dx) + 24
    shape[axis] = int(rng.integers(60, 72))
    g = make_grid(shape, dx, n**2, origin=rng.uniform(-3, 3, 3) * wlen)
    mid = [(g.exyz[a][0] + g.exyz[a][-1]) / 2 for a in range(3)]
    p = int(rng.integers(22, 28))
    if sign < 0:
        p = shape[axis] - 1 - p
    centre = list(mid)
    centre[axis] = float(g.exyz[axis][p])
    centre[wide] += float(rng.uniform(-0.4, 0.4)) * w0
    ck.event("off_centre")
    slices = [slice(0, m) for m in shape]
    slices[axis] = slice(p, p + 1)
    omega = 2 * np.pi / wlen
    c0 = copy.deepcopy(centre)
    J, _ = fss.build_gaussian_source(
        eps_grid=g, omega=omega, w0=w0, center=np.array(centre), axis=axis,
        slices=list(slices), theta=theta, psi=psi, polarization_angle=pol,
        polarity=sign, power=power)
    J = np.array(J)
    info = {"axis": axis, "sign": sign, "theta": theta, "psi": psi,
            "pol": pol, "w0": w0 / lam, "n": n, "wide": wide,
            "shift": (centre[wide] - mid[wide]) / w0}
    ck.event("gaussians")
    ck.event("axis_" + "xyz"[axis])
    if tilt:
        ck.event("oblique_gaussians")
    if sign < 0:
        ck.event("backward")
    ck.key(axis, sign, round(theta, 3), turn, round(pol, 3))
    # The beam continues across the flat direction; its current, on the
    # plane at the beam centre, is therefore also one of a uniform wave.
    pml = [0] * 6
    for a in (axis, wide):
        pml[2 * a] = pml[2 * a + 1] = 10
    E = solve(g, omega, J, pml, np.zeros(3))
    kdir, e = wave_vectors(axis, sign, theta, psi, pol)
    z_r = np.pi * w0**2 / lam
    amp = np.sqrt(4 * power / (np.pi * w0**2 * n))
    ind = p + 4 * sign
    want = []
    for c in range(3):
        x = positions(g, c)
        d = [x[a] - centre[a] for a in range(3)]
        z = sum(d[a] * kdir[a] for a in range(3))
        r2 = sum(v**2 for v in d) - z**2
        w = w0 * np.sqrt(1 + (z / z_r)**2)
        inv = z / (z**2 + z_r**2)
        want.append(e[c] * amp * (w0 / w) * np.exp(-r2 / w**2) * np.exp(
            -1j * omega * n * (z + inv * r2 / 2) + 1j * np.arctan(z / z_r)))
    want = np.array(want)
    keep = slice(12, shape[wide] - 12)
    W = np.moveaxis(at(want, axis + 1, ind), 1 + [
        a for a in range(3) if a != axis].index(wide), 1)[:, keep]
    F = np.moveaxis(at(E, axis + 1, ind), 1 + [
        a for a in range(3) if a != axis].index(wide), 1)[:, keep]
    phase = np.vdot(W, F)
    phase /= abs(phase)
    err = np.max(np.abs(F - phase * W)) / amp
    ck.expect(err < 0.16, "field_of_the_beam", dict(
        info, error=float(err), ratio=float(
            abs(np.vdot(W, F) / np.vdot(W, W)))))
    ck.close(abs(np.vdot(W, F) / np.vdot(W, W)), 1.0, "power_of_the_beam",
             rtol=0.04, detail=info)
    # Centroid of the beam further on.
    x = positions(g, wide)[wide]
    far = p + 16 * sign
    I = np.sum(np.abs(at(E, axis + 1, far))**2, axis=0).ravel()
    xs = at(x, axis, far).ravel()
    got = np.sum(I * xs) / np.sum(I)
    dist = g.exyz[axis][far] - g.exyz[axis][p]
    w = centre[wide] + dist * kdir[wide] / kdir[axis]
    ck.expect(abs(got - w) < 0.06 * w0 + 0.6 * dx, "course_of_the_beam",
              dict(info, got=(got - centre[wide]) / w0,
                   want=(w - centre[wide]) / w0))
    back = p - 6 * sign
    b = np.max(np.abs(at(E, axis + 1, back))) / amp
    ck.expect(b < 0.06, "no_beam_backwards", dict(info, ratio=float(b)))


def beam(kind, x, omega, n, kdir, centre, w0):
    """The scalar wave at given positions."""
    if kind == "plane":
        return np.exp(-1j * omega * n * sum(kdir[a] * x[a] for a in range(3)))
    lam = 2 * np.pi / omega / n
    z_r = np.pi * w0**2 / lam
    d = [x[a] - centre[a] for a in range(3)]
    z = sum(d[a] * kdir[a] for a in range(3))
    r2 = sum(v**2 for v in d) - z**2
    w = w0 * np.sqrt(1 + (z / z_r)**2)
    return np.sqrt(4 / (np.pi * w0**2 * n)) * (w0 / w) * np.exp(
        -r2 / w**2 - 1j * omega * n * (z + z / (z**2 + z_r**2) * r2 / 2) +
        1j * np.arctan(z / z_r))


@family(quick=400, thorough=8000)
def currents(ck, rng):
    """The current is that of the wave which begins at the source plane."""
    kind = str(rng.choice(["plane", "gaussian"]))
    axis = int(rng.integers(3))
    sign = int(rng.choice([-1, 1]))
    wlen = float(rng.choice([1.0, 1550.0]))
    omega = 2 * np.pi / wlen
    n0 = float(rng.uniform(1, 3))
    d = [float(v) for v in wlen / n0 / rng.uniform(15, 60, 3)]
    shape = [int(rng.integers(4, 10)) for _ in range(3)]
    shape[axis] += 2
    origin = rng.uniform(-2, 2, 3) * wlen
    edges = [origin[a] + d[a] * np.arange(shape[a] + 1) for a in range(3)]
    g = gridlock.Grid(edges, num_grids=3, initial=1.0, periodic=True,
                      ext_dir=gridlock.Direction.z)
    thick = int(rng.integers(1, 4)) if kind == "gaussian" else 1
    slices = []
    for a in range(3):
        if a == axis:
            p = int(rng.integers(1, shape[a] - thick))
            slices.append(slice(p, p + thick))
        elif rng.random() < 0.4:
            slices.append(slice(0, shape[a]))
        else:
            q = int(rng.integers(0, shape[a] - 1))
            slices.append(slice(q, int(rng.integers(q + 1, shape[a] + 1))))
    if thick > 1:
        ck.event("thick_slices")
    style = str(rng.choice(["uniform", "layers", "random", "lossy"]))
    ck.event("eps_" + style)
    if style == "uniform":
        eps = np.full([3] + shape, n0**2)
    elif style == "layers":
        eps = np.full([3] + shape, n0**2)
        lay = [slice(None)] * 4
        lay[axis + 1] = slice(int(rng.integers(1, shape[axis])), None)
        eps[tuple(lay)] = float(rng.uniform(1, 9))
    else:
        eps = np.broadcast_to(n0**2 * rng.uniform(1, 1.6, shape),
                              [3] + shape).copy()
        if style == "lossy":
            eps = eps * (1 - 1j * rng.uniform(0, 0.5, shape))
    g.grids = eps
    n = float(np.sqrt(np.mean(np.real(eps[0][tuple(slices)]))))
    theta = float(rng.uniform(-1.3, 1.3)) if rng.random() < 0.8 else 0.0
    psi = float(rng.uniform(-7, 7)) if rng.random() < 0.8 else 0.0
    pol = float(rng.uniform(-7, 7)) if rng.random() < 0.8 else 0.0
    power = float(10**rng.uniform(-2, 2))
    w0 = wlen / n * float(10**rng.uniform(-1.3, 0.3))
    centre = origin + rng.uniform(-1, 2, 3) * np.array(shape) * d
    if rng.random() < 0.3:
        # A component of the field lies exactly at the waist.
        centre[axis] = positions(g, int(rng.integers(3)))[axis][
            tuple(v.start for v in slices)]
    args = dict(eps_grid=g, omega=omega, axis=axis, slices=list(slices),
                theta=theta, psi=psi, polarization_angle=pol, polarity=sign,
                power=power)
    if kind == "plane":
        J, k = fss.build_plane_wave_source(**args)
    else:
        J, k = fss.build_gaussian_source(w0=w0, center=centre, **args)
    J = np.array(J)
    info = {"kind": kind, "axis": axis, "sign": sign, "theta": theta,
            "psi": psi, "pol": pol, "eps": style, "thick": thick,
            "shape": shape}
    kdir, e = wave_vectors(axis, sign, theta, psi, pol)
    ck.close(np.array(k), kdir * omega * n, "wavevector_of_the_source",
             rtol=1e-9, atol=1e-9 * omega, detail=info)
    E = np.array([e[c] * beam(kind, positions(g, c), omega, n, kdir, centre,
                              w0) for c in range(3)])
    if kind == "plane":
        out = np.ones(shape, bool)
        out[tuple(v if a != axis else slice(None)
                  for a, v in enumerate(slices))] = False
        E[:, out] = 0
    else:
        E *= np.sqrt(power)
    ind = slices[axis].stop - 1 if sign > 0 else slices[axis].start
    cut = [slice(None)] * 4
    cut[axis + 1] = slice(0, ind) if sign > 0 else slice(ind, None)
    E[tuple(cut)] = 0
    dd = [np.full(shape[a], d[a]) for a in range(3)]
    no = np.zeros((3, 3))
    ph = em.phase(dd, kdir * omega * n, no)
    cc = em.curl(em.curl(E, dd, True, ph, no), dd, False, ph, no)
    want = np.array([(cc[c] - omega**2 * eps[c] * E[c]) / (-1j * omega)
                     for c in range(3)])
    keep = np.zeros(shape, bool)
    sl = list(slices)
    sl[axis] = slice(ind - 1, ind + 1)
    keep[tuple(sl)] = True
    want[:, ~keep] = 0
    if kind == "plane":
        # The amplitude is that of the power through the slice.
        a = np.vdot(want, J) / np.vdot(want, want)
        area = np.prod([d[b] * (slices[b].stop - slices[b].start)
                        for b in range(3) if b != axis])
        amp = np.sqrt(2 * power / (n * area * np.cos(theta)))
        ck.expect(abs(np.imag(a)) < 1e-6 * abs(a) and np.real(a) > 0,
                  "phase_of_the_current", dict(info, ratio=str(a)))
        if style == "uniform" and all(slices[b].stop - slices[b].start > 3
                                      for b in range(3) if b != axis):
            ck.event("plane_amplitudes")
            ck.close(abs(a) / amp, 1.0, "amplitude_of_the_current", rtol=0.1,
                     detail=info)
        want = want * np.real(a)
    scale = np.max(np.abs(want))
    ck.event("currents")
    ck.close(J, want, "current_of_the_wave", rtol=1e-6, atol=1e-7 * scale,
             detail=info)
    ck.key(kind, axis, sign, style, thick, shape, round(theta, 3))


@family(quick=120, thorough=1500, timeout=120)
def normalized(ck, rng):
    """A source normalised by a simulation radiates the power in a uniform
    medium of the index at the source."""
    shape = [int(rng.integers(4, 9)) for _ in range(3)]
    dx = float(rng.uniform(0.03, 0.08))
    omega = 2 * np.pi
    eps = rng.uniform(1, 5, [3] + shape)
    if rng.random() < 0.3:
        eps = np.broadcast_to(rng.uniform(1, 5), [3] + shape).copy()
    J = np.zeros([3] + shape, complex)
    if rng.random() < 0.5:
        for _ in range(int(rng.integers(1, 4))):
            J[int(rng.integers(3))][tuple(int(rng.integers(m)) for m in shape)
                                    ] = rng.normal() + 1j * rng.normal()
    else:
        J += em.cplx(rng, [3] + shape)
    pml = [int(rng.integers(0, 3)) for _ in range(6)]
    bloch = [0.0 if pml[2 * a] or pml[2 * a + 1] else float(rng.uniform(-3, 3))
             for a in range(3)]
    power = float(10**rng.uniform(-2, 2))
    dxes = [[np.full(m, dx) for m in shape] for _ in range(2)]
    w = np.abs(J)
    avg = np.sum(w * eps) / np.sum(w)
    solver = local_matrix_solvers.DirectSolver()
    E = np.array(unvec(solver.solve(
        omega=omega, dxes=copy.deepcopy(dxes), epsilon=vec(
            list(np.full([3] + shape, avg))), J=vec(list(J)),
        pml_layers=list(pml), bloch_vec=np.array(bloch)), shape))
    now = -0.5 * np.real(np.sum(np.conj(J) * E)) * dx**3
    if not now > 1e-6 * np.sum(np.abs(J * E)) * dx**3:
        return  # nothing is radiated outwards
    given = [j.copy() for j in J]
    kw = {"bloch_vector": bloch} if any(bloch) or rng.random() < 0.5 else {}
    e0 = [v.copy() for v in eps]
    got = np.array(fss.normalize_source_by_sim(
        omega=omega, source=given, eps=e0, dxes=dxes, pml_layers=pml,
        solver=solver, power=power, **kw))
    info = {"shape": shape, "pml": pml, "bloch": bloch, "power": power}
    ck.event("normalized_directly")
    ck.close(got, J * np.sqrt(power / now), "normalized_current", rtol=1e-6,
             scale=np.max(np.abs(J)) * np.sqrt(power / now), detail=info)
    ck.expect(np.array_equal(given, J) and np.array_equal(e0, eps),
              "arguments_are_changed", info)
    ck.key(shape, pml, power)


def random_source(rng, g, axis, kind, slices, args):
    if kind == "plane":
        return fss.build_plane_wave_source(
            eps_grid=g, axis=axis, slices=list(slices), **args)
    return fss.build_gaussian_source(
        eps_grid=g, axis=axis, slices=list(slices), **args)


@family(quick=200, thorough=4000)
def symmetries(ck, rng):
    """Cyclic permutations of the axes, and powers, change nothing else."""
    kind = str(rng.choice(["plane", "gaussian"]))
    axis = int(rng.integers(3))
    shift = int(rng.integers(1, 3))
    sign = int(rng.choice([-1, 1]))
    n = float(rng.uniform(1, 3))
    omega = 2 * np.pi / float(rng.uniform(8, 30))
    shape = [int(rng.integers(4, 9)) for _ in range(3)]
    origin = rng.uniform(-4, 4, 3)
    widths = [rng.uniform(0.7, 1.3, m) if rng.random() < 0.5 else np.ones(m)
              for m in shape]
    eps = np.real(n**2) * np.ones([3] + shape)
    if rng.random() < 0.5:
        eps = eps + rng.uniform(0, 1, eps.shape)

    def build(s):
        """The same scene with axis a called a + s."""
        r = [(a - s) % 3 for a in range(3)]
        edges = [origin[r[a]] + np.concatenate([[0], np.cumsum(
            widths[r[a]])]) for a in range(3)]
        g = gridlock.Grid(edges, num_grids=3, initial=1.0, periodic=True,
                          ext_dir=gridlock.Direction.z)
        g.grids = np.array([eps[r[c]].transpose(r) for c in range(3)])
        return g, r

    slices = []
    for a in range(3):
        if a == axis:
            p = int(rng.integers(2, shape[a] - 1))
            slices.append(slice(p, p + 1))
        elif rng.random() < 0.5:
            slices.append(slice(0, shape[a]))
        else:
            q = int(rng.integers(0, 2))
            slices.append(slice(q, int(rng.integers(q + 2, shape[a] + 1))))
    # eps_val is the average of the first component; keep it common.
    for s in (0, shift):
        pass
    args = dict(omega=omega, theta=float(rng.uniform(-0.8, 0.8)),
                psi=float(rng.uniform(-3, 3)),
                polarization_angle=float(rng.uniform(-3, 3)), polarity=sign)
    power = float(rng.uniform(0.1, 10))
    if np.ptp(eps):
        # The first component decides about the index, make all alike.
        eps[1:] = eps[0]
    g0, _ = build(0)
    g1, r = build(shift)
    a0, a1 = dict(args, power=power), dict(args, power=power)
    if kind == "gaussian":
        centre = rng.uniform(-4, 8, 3)
        a0.update(w0=float(rng.uniform(3, 8)), center=centre)
        a1.update(w0=a0["w0"], center=centre[r])
    info = {"kind": kind, "axis": axis, "shift": shift, "sign": sign,
            "shape": shape}
    s_in = list(slices)
    before = (copy.deepcopy(s_in), np.copy(g0.grids))
    if kind == "plane":
        J0, k0 = fss.build_plane_wave_source(eps_grid=g0, axis=axis,
                                             slices=s_in, **a0)
    else:
        J0, k0 = fss.build_gaussian_source(eps_grid=g0, axis=axis,
                                           slices=s_in, **a0)
    ck.expect(s_in == before[0] and np.array_equal(g0.grids, before[1]),
              "arguments_are_changed", info)
    J1, k1 = random_source(rng, g1, (axis + shift) % 3, kind,
                           [slices[r[a]] for a in range(3)], a1)
    J0, J1 = np.array(J0), np.array(J1)
    want = np.array([J0[r[c]].transpose(r) for c in range(3)])
    scale = np.max(np.abs(J0))
    ck.event("permuted")
    ck.close(J1, want, "permuted_axes", rtol=1e-8, atol=1e-8 * scale,
             detail=info)
    ck.close(np.array(k1), np.array(k0)[r], "permuted_wavevector", rtol=1e-9,
             atol=1e-9 * omega, detail=info)
    f = float(rng.uniform(0.2, 7))
    a2 = dict(a0, power=power * f)
    J2, _ = random_source(rng, g0, axis, kind, slices, a2)
    ck.event("scaled")
    ck.close(np.array(J2), np.sqrt(f) * J0, "current_scales_with_power",
             rtol=1e-9, atol=1e-9 * scale, detail=info)
    ck.key(kind, axis, shift, sign, shape, round(args["theta"], 3))


@family(quick=80, thorough=1200)
def borders(ck, rng):
    """The border fades the wave out and leaves the interior alone."""
    axis = int(rng.integers(3))
    sign = int(rng.choice([-1, 1]))
    b = int(rng.integers(1, 12)) if rng.random() < 0.6 else int(
        rng.integers(12, 110))
    one = int(rng.choice([a for a in range(3) if a != axis]))
    other = 3 - one - axis
    shape = [0, 0, 0]
    shape[axis] = 8
    shape[one] = 2 * b + int(rng.integers(6, 12))
    b2 = int(rng.integers(0, 4))
    shape[other] = 2 * b2 + int(rng.integers(6, 12))
    border = [0, 0, 0]
    border[one], border[other] = b, b2
    border[axis] = int(rng.integers(0, 5))
    off = int(rng.integers(0, 3))
    slices = [slice(off, off + m) for m in shape]
    full = [m + off + int(rng.integers(0, 3)) for m in shape]
    p = int(rng.integers(3, 6))
    slices[axis] = slice(p, p + 1)
    g = make_grid(full, 1.0, float(rng.uniform(1, 4)))
    args = dict(eps_grid=g, omega=2 * np.pi / 20, axis=axis, polarity=sign,
                theta=float(rng.uniform(-0.5, 0.5)),
                psi=float(rng.uniform(-3, 3)),
                polarization_angle=float(rng.uniform(-3, 3)),
                power=float(rng.uniform(0.5, 2)))
    info = {"axis": axis, "border": border, "shape": shape}
    given = list(border)
    try:
        J1, _ = fss.build_plane_wave_source(slices=list(slices), border=given,
                                            **args)
    except Exception as e:
        ck.fail("border_is_refused", dict(info, error=repr(e)))
        return
    ck.expect(given == border, "border_argument_is_changed", info)
    J0, _ = fss.build_plane_wave_source(slices=list(slices), **args)
    J0, J1 = np.array(J0), np.array(J1)
    ck.event("borders")
    ck.key(axis, border, shape, sign)
    outside = np.ones(full, bool)
    outside[tuple(slice(s.start, s.stop) if a != axis else slice(None)
                  for a, s in enumerate(slices))] = False
    ck.expect(np.all(J1[:, outside] == 0), "current_outside_of_the_slice",
              info)
    inner = [slice(s.start + border[a] + 1, s.stop - border[a] - 1)
             for a, s in enumerate(slices)]
    inner[axis] = slice(None)
    inner = (slice(None),) + tuple(inner)
    # Power through the region without border.
    ratio = np.prod([shape[a] / (shape[a] - 2 * border[a])
                     for a in (one, other)])
    scale = np.max(np.abs(J0))
    ck.close(J1[inner], np.sqrt(ratio) * J0[inner], "interior_of_the_border",
             rtol=1e-6, atol=1e-6 * scale, detail=info)
    # Outermost cells are dark, and the fade is monotonous.  The current of
    # the plane on the side of propagation is that of the masked field.
    if b >= 3:
        m = np.sqrt(np.sum(np.abs(J1)**2, axis=0))
        line = [slices[a].start + shape[a] // 2 for a in range(3)]
        line[axis] = p if sign > 0 else p - 1
        line[one] = slice(slices[one].start, slices[one].stop)
        v = m[tuple(line)] / m[tuple(line)].max()
        ck.expect(v[0] < 0.5 and v[-1] < 0.5, "border_is_dark",
                  dict(info, ends=[float(v[0]), float(v[-1])]))
    # Without a tilt, the current on the dark side of the plane has the shape
    # of the field: zero at the rim, rising to the interior.
    flat = dict(args, theta=0.0)
    J4 = np.array(fss.build_plane_wave_source(
        slices=list(slices), border=list(border), **flat)[0])
    J5 = np.array(fss.build_plane_wave_source(slices=list(slices), **flat)[0])
    cut = [s for s in slices]
    cut[axis] = slice(p - 1, p) if sign > 0 else slice(p, p + 1)
    cut = ([one, other],) + tuple(cut)
    a4 = np.sqrt(np.sum(np.abs(J4[cut])**2, axis=0)).squeeze(axis=axis)
    a5 = np.sqrt(np.sum(np.abs(J5[cut])**2, axis=0)).squeeze(axis=axis)
    shade = a4 / a5 / np.sqrt(ratio)
    if one > other:
        shade = shade.T  # `one` first
    if b > 0:
        ck.expect(np.max(shade[[0, -1], :]) < 1e-9, "rim_is_dark",
                  dict(info, rim=float(np.max(shade[[0, -1], :]))))
    if b2 > 0:
        ck.expect(np.max(shade[:, [0, -1]]) < 1e-9, "rim_is_dark",
                  dict(info, rim=float(np.max(shade[:, [0, -1]]))))
    for q, m in ((shade, b), (shade.T, b2)):
        up = np.diff(q[:m + 1], axis=0)
        down = np.diff(q[::-1][:m + 1], axis=0)
        ck.expect(np.all(up > -1e-9) and np.all(down > -1e-9),
                  "border_fades_monotonously", info)
    ck.expect(np.max(shade) < 1 + 1e-6, "border_does_not_amplify", info)
    if rng.random() < 0.3:
        bb = int(rng.integers(1, 3))
        J2, _ = fss.build_plane_wave_source(slices=list(slices), border=bb,
                                            **args)
        J3, _ = fss.build_plane_wave_source(slices=list(slices),
                                            border=[bb] * 3, **args)
        ck.close(np.array(J2), np.array(J3), "integer_border", rtol=1e-12,
                 atol=1e-12 * scale, detail=info)


def mat(n):
    return optplan.Material(index=optplan.ComplexNumber(real=float(n),
                                                        imag=0.0))


@family(quick=50, thorough=800, timeout=300)
def plan_sources(ck, rng):
    """Sources of optimization plans are those that they describe."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    folder = tempfile.mkdtemp(prefix="c28-")
    try:
        lib = gdspy.GdsLibrary(unit=1e-6, precision=1e-9)
        cell = gdspy.Cell("T", exclude_from_current=True)
        lib.add(cell)
        dx = rnd.choice([25, 40, 50])
        axis = rnd.randrange(3)
        sign = rnd.choice([-1, 1])
        kind = rnd.choice(["plane", "gaussian"])
        n = [rnd.randint(4, 7) for _ in range(3)]
        n[axis] = rnd.randint(26, 30)
        c = [rnd.choice([0, 15, -100]) for _ in range(3)]
        index = rnd.uniform(1, 2)
        rough = rnd.random() < 0.5
        if rough:
            ck.event("structured_backgrounds")
            q = rnd.randrange(2)
            lo_, hi_ = [-100.0, -100.0], [100.0, 100.0]
            hi_[q] = (c[q] + rnd.uniform(-0.4, 0.4) * n[q] * dx) / 1000
            cell.add(gdspy.Rectangle(tuple(lo_), tuple(hi_), layer=100))
        else:
            cell.add(gdspy.Rectangle((-100, -100), (-90, -90), layer=100))
        lib.write_gds(os.path.join(folder, "a.gds"))
        stack = optplan.GdsMaterialStack(background=mat(index), stack=[
            optplan.GdsMaterialStackLayer(
                foreground=mat(index + rnd.uniform(0.1, 0.8)),
                background=mat(index), gds_layer=[100, 0],
                extents=[-200000, 200000])])
        pml = [0] * 6
        pml[2 * axis] = pml[2 * axis + 1] = 8
        if rnd.random() < 0.4:
            ck.event("one_sided_pml")
            pml[rnd.randrange(6)] = rnd.choice([0, 1])
        if kind == "gaussian" and rnd.random() < 0.7:
            pml = [1 if not p else p for p in pml]
        eps = optplan.GdsEps(gds="a.gds", mat_stack=stack)
        space = simspace.SimulationSpace(optplan.SimulationSpace(
            name="space", mesh=optplan.UniformMesh(dx=dx), eps_fg=eps,
            eps_bg=eps, sim_region=optplan.Box3d(
                center=c, extents=[m * dx for m in n]), pml_thickness=pml,
            selection_matrix_type=(
                optplan.SelectionMatrixType.FULL_DIRECT.value)), folder)
        wlen = float(rnd.choice([600, 900]))
        omega = 2 * np.pi / wlen
        lo = [c[a] - n[a] * dx / 2 - dx / 2 for a in range(3)]
        p = rnd.randint(11, n[axis] - 12)
        centre = [float(c[a]) for a in range(3)]
        centre[axis] = lo[axis] + (p + 0.5) * dx
        ext = [20.0 * m * dx for m in n]
        ext[axis] = 0.0
        normal = [0, 0, 0]
        normal[axis] = sign
        norm = rnd.random() < 0.5
        power = rnd.uniform(0.3, 3)
        common = dict(center=centre, extents=ext, normal=normal,
                      theta=rnd.uniform(-0.4, 0.4), psi=rnd.uniform(-3, 3),
                      polarization_angle=rnd.uniform(-3, 3), power=power,
                      normalize_by_sim=norm)
        solver = local_matrix_solvers.DirectSolver()
        slices = [slice(0, m) for m in n]
        slices[axis] = slice(p, p + 1)
        edges = [lo[a] + dx * np.arange(n[a] + 1) for a in range(3)]
        g = gridlock.Grid(edges, num_grids=3, initial=index**2, periodic=True,
                          ext_dir=gridlock.Direction.z)
        g.render()
        if rough:
            g.grids = np.array(space(wlen).eps_bg.grids)
        index = np.sqrt(np.mean(np.real(g.grids[0][tuple(slices)])))
        args = dict(eps_grid=g, omega=omega, axis=axis, polarity=sign,
                    slices=slices, theta=common["theta"], psi=common["psi"],
                    polarization_angle=common["polarization_angle"],
                    power=power)
        bloch = np.zeros(3)
        info = {"kind": kind, "axis": axis, "sign": sign, "normalized": norm}
        if kind == "plane":
            over = rnd.random() < 0.6
            border = None
            if rnd.random() < 0.3 and axis == 2:
                border = [float(dx * rnd.uniform(0, 2)) for _ in range(2)]
                ck.event("plan_borders")
            src = creator_em.PlaneWaveSource(optplan.PlaneWaveSource(
                overwrite_bloch_vector=over, border=border, **common))
            got = src(space, wlen, solver)
            k, _ = wave_vectors(axis, sign, common["theta"], common["psi"], 0)
            k = k * omega * index
            for a in range(3):
                if pml[2 * a] or pml[2 * a + 1]:
                    k[a] = 0
            bloch = k
            if over:
                got, kv = got
                ck.close(np.array(kv), k, "bloch_vector", rtol=1e-9,
                         atol=1e-9 * omega, detail=info)
            if border:
                args["border"] = [int(b // dx) for b in border] + [0]
            want, _ = fss.build_plane_wave_source(**args)
            ck.event("plan_plane_waves")
        else:
            bc = None
            if rnd.random() < 0.5:
                bc = [centre[a] + rnd.uniform(-50, 50) for a in range(3)]
            w0 = rnd.uniform(300, 900)
            src = creator_em.GaussianSource(optplan.GaussianSource(
                w0=w0, beam_center=bc, **common))
            got = src(space, wlen, solver)
            want, _ = fss.build_gaussian_source(
                w0=w0, center=np.array(bc or centre), **args)
            ck.event("plan_gaussians")
        got, want = np.array(got), np.array(want)
        if norm:
            ck.event("normalized")
            w = np.abs(got)
            uni = copy.deepcopy(g)
            uni.grids = np.full(np.shape(g.grids), np.sum(w * np.array(
                g.grids)) / np.sum(w))
            E = solve(uni, omega, got, pml, bloch)
            pw = -0.5 * np.real(np.sum(np.conj(got) * E)) * dx**3
            ck.close(pw, power, "normalized_power", rtol=1e-6, detail=info)
            want = want * np.real(np.vdot(want, got) / np.vdot(want, want))
        scale = np.max(np.abs(got))
        ck.close(got, want, "current_of_the_source", rtol=1e-7,
                 atol=1e-7 * scale, detail=info)
        # Asking again gives the same source.
        again = src(space, wlen, solver)
        if isinstance(again, tuple):
            again = again[0]
        ck.close(np.array(again), got, "source_is_repeatable", rtol=1e-9,
                 atol=1e-9 * scale, detail=info)
        ck.key(kind, axis, sign, norm, n, dx)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@family(quick=40, thorough=500, timeout=300)
def goos_sources(ck, rng):
    """Gaussian beams of goos simulations, on any axis."""
    axis = int(rng.integers(3))
    sign = int(rng.choice([-1, 1]))
    dx = 40.0
    n = [int(rng.integers(5, 8)) for _ in range(3)]
    n[axis] = 26
    index = float(rng.uniform(1, 2))
    wlen = 800.0
    p = int(rng.integers(11, 14))
    centre = [0.0, 0.0, 0.0]
    centre[axis] = (p + 0.5 - n[axis] / 2) * dx
    beam = [float(rng.uniform(-60, 60)) for _ in range(3)]
    ext = [10 * m * dx for m in n]
    ext[axis] = 0.0
    normal = [0, 0, 0]
    normal[axis] = sign
    w0, power = float(rng.uniform(300, 700)), float(rng.uniform(0.3, 3))
    ang = [float(v) for v in rng.uniform(-0.5, 0.5, 3)]
    norm = bool(rng.random() < 0.5)
    sp = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx),
        sim_region=goos.Box3d(center=[0, 0, 0],
                              extents=[m * dx for m in n]),
        pml_thickness=[8 * dx if a == axis else dx for a in range(3)
                       for _ in range(2)])
    give = rng.random() < 0.5
    if give and rng.random() < 0.3:
        beam = [0.0, 0.0, 0.0]
    eps = np.full([3] + n, index**2)
    if rng.random() < 0.5:
        ck.event("goos_structures")
        eps = eps + rng.uniform(0, 1, eps.shape)
    second = bool(rng.random() < 0.5)
    spec = [dict(w0=w0, center=centre, extents=ext, normal=normal,
                 power=power, beam_center=beam if give else None,
                 theta=ang[0], psi=ang[1], polarization_angle=ang[2],
                 normalize_by_sim=norm)]
    if second:
        ck.event("goos_several_sources")
        spec.append(dict(spec[0], power=float(rng.uniform(0.3, 3)),
                         w0=float(rng.uniform(300, 700)),
                         normal=[-v for v in normal]))
    with goos.OptimizationPlan():
        sim = maxwell.SimulateNode(
            eps=goos.Constant(eps), wavelength=wlen,
            simulation_space=sp,
            sources=[maxwell.GaussianSource(**kw) for kw in spec],
            outputs=[maxwell.ElectricField()],
            solver_info=maxwell.DirectSolver(multiprocessing=False))
        E = np.array(sim.get()[0].array)
    edges = [(np.arange(m + 1) - m / 2) * dx for m in n]
    g = gridlock.Grid(edges, num_grids=3, initial=index**2, periodic=True,
                      ext_dir=gridlock.Direction.z)
    g.render()
    g.grids = eps
    slices = [slice(0, m) for m in n]
    slices[axis] = slice(p, p + 1)
    omega = 2 * np.pi / wlen
    pml = [8 if a == axis else 1 for a in range(3) for _ in range(2)]
    want = 0
    for kw in spec:
        J, _ = fss.build_gaussian_source(
            eps_grid=g, omega=omega, w0=kw["w0"],
            center=np.array(beam if give else centre), axis=axis,
            slices=slices, theta=ang[0], psi=ang[1],
            polarization_angle=ang[2], polarity=int(sum(kw["normal"])),
            power=kw["power"])
        J = np.array(J)
        if norm:
            uni = copy.deepcopy(g)
            uni.grids = np.full(eps.shape, np.sum(np.abs(J) * eps) / np.sum(
                np.abs(J)))
            cur = -0.5 * np.real(np.sum(np.conj(J) * solve(
                uni, omega, J, pml, np.zeros(3)))) * dx**3
            J = J * np.sqrt(kw["power"] / cur)
        want = want + solve(g, omega, J, pml, np.zeros(3))
    ck.event("goos_gaussians")
    ck.key(axis, sign, n, norm, give)
    scale = np.max(np.abs(want))
    ck.close(E, want, "field_of_goos_beam", rtol=1e-5, atol=1e-5 * scale,
             detail={"axis": axis, "sign": sign, "norm": norm})
