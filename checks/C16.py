"""C16: waveguide sources emit, and overlaps measure, the requested mode."""
import warnings

import numpy as np

from vlib.core import family
from vlib import em
from spins import fdfd_tools
from spins.fdfd_solvers import local_matrix_solvers, waveguide_mode
from spins.gridlock import Direction

RULE = ("random slab and rectangular waveguides along any axis on uniform and "
        "non-uniform grids, several modes and both directions; modes are "
        "compared with a dense eigenvalue solve and put into explicitly "
        "written mode equations, sources are simulated and measured with "
        "overlaps on both sides, and rotated, shifted and rescaled set-ups "
        "must agree; distinct by set-up")
REQUIRED_EVENTS = ["modes", "higher_modes", "simulated", "backward_source",
                   "overlaps", "rotated", "shifted", "power_scaled", "axis0",
                   "axis1", "axis2", "lossy", "nonuniform", "rescaled",
                   "refused", "poynting", "operator_modes",
                   "permeability", "permeable_guide", "graded_guide",
                   "windows"]

v = fdfd_tools.vec


def _profile(rng, nt, d, dh, two_d):
    """Permittivity of a cross-section for the three field components."""
    core = rng.uniform(6, 12.5)
    clad = rng.uniform(1, 2.2)
    pos = []
    for dd in d:
        edge = np.concatenate([[0], np.cumsum(dd)])
        pos.append((edge, edge[-1] / 2))
    width = [rng.uniform(0.25, 0.4) * p[0][-1] if len(p[0]) > 2 else np.inf
             for p in pos]
    shift = [rng.uniform(-0.05, 0.05) * p[0][-1] if len(p[0]) > 2 else 0
             for p in pos]
    out = []
    for comp in range(3):
        cover = []
        for a in range(2):
            edge, mid = pos[a]
            # Cells of a component are centred on its position.
            lo, hi = edge[:-1], edge[1:]
            if comp != a:
                c = (np.concatenate([[edge[0]], (lo + hi) / 2]))
                lo, hi = c[:-1], c[1:]
            x0, x1 = mid + shift[a] - width[a] / 2, mid + shift[a] + width[
                a] / 2
            f = (np.minimum(hi, x1) - np.maximum(lo, x0)) / np.maximum(
                hi - lo, 1e-9)
            cover.append(np.clip(f, 0, 1))
        f = cover[0][:, None] * cover[1][None, :]
        out.append(clad + (core - clad) * f)
    return out, core, clad


def _widths(rng, n, dx, uniform):
    if n == 1 or uniform:
        d = np.full(n, float(dx))
        return d, d.copy()
    s = np.cumsum(rng.uniform(-0.08, 0.08, n))
    s = s - np.linspace(s[0], s[-1], n)
    d = dx * np.exp(np.clip(s, -0.3, 0.3))
    return d, (d + np.roll(d, 1)) / 2


def _guide(ck, rng, axis, slab, nprop, uniform=None, permeable=True):
    """A straight waveguide along `axis`."""
    wl = rng.uniform(1200, 1700)
    dx = wl / rng.uniform(34, 44)
    ta, tb = (axis + 1) % 3, (axis + 2) % 3
    nt = [int(rng.integers(34, 46)), 1] if slab else [
        int(rng.integers(13, 19)), int(rng.integers(11, 16))]
    if slab and rng.random() < 0.5:
        nt = nt[::-1]
    if not slab:
        dx *= 2
    uniform = rng.random() < 0.5 if uniform is None else uniform
    if not uniform:
        ck.event("nonuniform")
    dd, hh = zip(*[_widths(rng, n, dx, uniform) for n in nt])
    prof, core, clad = _profile(rng, nt, dd, hh, slab)
    shape = [0] * 3
    shape[axis], shape[ta], shape[tb] = nprop, nt[0], nt[1]
    # Profile components are (ta, tb, axis).
    eps = [None] * 3
    for comp, c in zip([ta, tb, axis], prof):
        full = np.broadcast_to(c[:, :, None], nt + [nprop])
        order = [0] * 3
        for i, a in enumerate([ta, tb, axis]):
            order[a] = i
        eps[comp] = full.transpose(order).copy()
    d, h = [None] * 3, [None] * 3
    d[axis] = np.full(nprop, float(dx))
    h[axis] = d[axis].copy()
    for i, a in enumerate([ta, tb]):
        d[a], h[a] = dd[i], hh[i]
    ck.event("axis%d" % axis)
    mu = None
    if permeable and rng.random() < 0.4:
        f = rng.uniform(-0.2, 1.2, 3)
        mu = [1 + f[c] * (eps[c] - clad) / (core - clad) for c in range(3)]
        ck.event("permeable_guide")
        wl = wl * np.sqrt(1 + max(0, np.max(f)))  # as well resolved
    return dict(mu=mu, omega=2 * np.pi / wl, dxes=[d, h], eps=eps, shape=shape,
                axis=axis, ta=ta, tb=tb, core=core, clad=clad, dx=dx)


def _slices(g, pos):
    sl = [slice(0, n) for n in g["shape"]]
    sl[g["axis"]] = slice(pos, pos + 1)
    return sl


def _mu(g):
    return g["mu"] or [np.ones(g["shape"]) for _ in range(3)]


def _guided_modes(g):
    """Wavenumbers of all modes of the cross-section from a dense solve."""
    d, h = g["dxes"]
    ta, tb = g["ta"], g["tb"]
    sh = [g["shape"][ta], g["shape"][tb], 1]
    de, dh = [d[ta], d[tb]], [h[ta], h[tb]]
    order = [ta, tb, g["axis"]]
    take = lambda m, c: np.take(m[c], 0, axis=g["axis"])
    eps, mu = [], []
    for c in order:
        for m, out in [(g["eps"], eps), (_mu(g), mu)]:
            e = take(m, c)
            if g["axis"] == 1:  # remaining axes are (x, z), (ta, tb) = (z, x)
                e = e.T
            out.append(e[:, :, None])
    n = int(np.prod(sh))

    def mat(f):
        return np.array([f(e.reshape(sh)).ravel() for e in np.eye(n)]).T

    ph = np.zeros(3)
    no = np.zeros((3, 3))
    fwd = [mat(lambda q, a=a: em.diff(q, a, de, True, ph, no)) for a in (0, 1)]
    bwd = [mat(lambda q, a=a: em.diff(q, a, dh, False, ph, no))
           for a in (0, 1)]
    return sh, de, dh, eps, mu, fwd, bwd


def _spectrum(g):
    sh, de, dh, eps, mu, F, B = _guided_modes(g)
    n = int(np.prod(sh))
    ex, ey, ez = [e.ravel() for e in eps]
    eyx = np.concatenate([ey, ex])
    mx, my, mz = [e.ravel() for e in mu]
    mxy = np.concatenate([mx, my])
    A = np.diag(g["omega"]**2 * eyx * mxy).astype(complex)
    A += eyx[:, None] * np.vstack([-F[1], F[0]]) @ (
        (1 / ez)[:, None] * np.hstack([-B[1], B[0]]))
    A += np.vstack([B[0], B[1]]) @ (
        (1 / mz)[:, None] * np.hstack([F[0], F[1]]) * mxy)
    w = np.linalg.eigvals(A)
    w = w[np.abs(w.imag) < 1e-6 * np.max(np.abs(w))].real
    return np.sort(w)[::-1]


def _cross(g, field, pos):
    """Cross-section (ta, tb, axis components) of a field at a plane."""
    out = []
    for c in [g["ta"], g["tb"], g["axis"]]:
        f = np.take(field[c], pos, axis=g["axis"])
        out.append(f.T if g["axis"] == 1 else f)
    return out


@family(quick=24, thorough=300, timeout=300)
def modes(ck, rng):
    """The solver finds the mode with the requested number, normalised."""
    axis = int(rng.integers(3))
    slab = bool(rng.random() < 0.6)
    g = _guide(ck, rng, axis, slab, 3)
    k2 = _spectrum(g)
    guided = np.sum(k2 > (g["omega"])**2 * g["clad"] * 1.02)
    m = int(rng.integers(0, max(1, min(guided, 3))))
    pol = int(rng.choice([-1, 1]))
    sl = _slices(g, 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = waveguide_mode.solve_waveguide_mode(
            m, g["omega"], g["dxes"], axis, pol, sl, g["eps"], g["mu"])
    ck.event("modes")
    if m:
        ck.event("higher_modes")
    info = {"axis": axis, "mode": m, "pol": pol, "shape": g["shape"]}
    ck.key(axis, m, pol, g["omega"])
    beta = np.sqrt(k2[m])
    ck.close(r["wavenumber"], beta + 0j, "wavenumber", rtol=1e-4, detail=info)
    E, H = _cross(g, r["E"], 1), _cross(g, r["H"], 1)
    for f in (r["E"], r["H"]):
        for c in range(3):
            ck.expect(not np.any(np.delete(np.asarray(f[c]), 1, axis=axis)),
                      "field-outside-slice")
    # Undo the half-cell phase of H and the reversal.
    H = [x * np.exp(pol * 0.5j * beta * g["dx"]) for x in H]
    s = pol
    sh, de, dh, eps, mu, F, B = _guided_modes(g)
    D = lambda M, f: (M @ f.ravel()).reshape(f.shape)
    kz = -1j * s * beta
    curl_e = [D(F[1], E[2]) - kz * E[1], kz * E[0] - D(F[0], E[2]),
              D(F[0], E[1]) - D(F[1], E[0])]
    curl_h = [D(B[1], H[2]) - kz * H[1], kz * H[0] - D(B[0], H[2]),
              D(B[0], H[1]) - D(B[1], H[0])]
    scale = max(np.max(np.abs(x)) for x in curl_e)
    for c in range(3):
        ck.close(curl_e[c], -1j * g["omega"] * mu[c][:, :, 0] * H[c],
                 "mode-equation-h", rtol=2e-3, scale=scale, detail=info)
    scale = max(np.max(np.abs(x)) for x in curl_h)
    for c in range(3):
        ck.close(curl_h[c], 1j * g["omega"] * eps[c][:, :, 0] * E[c],
                 "mode-equation-e", rtol=2e-3, scale=scale, detail=info)
    da = de[0][:, None] * dh[1][None, :]
    db = dh[0][:, None] * de[1][None, :]
    P = 0.5 * np.real(np.sum(E[0] * np.conj(H[1]) * da) - np.sum(
        E[1] * np.conj(H[0]) * db))
    ck.close(P, float(s), "mode-power", rtol=0.12 if slab else 0.35, detail=info)


def _source(g, pos, pol, mode, power, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.array(
            waveguide_mode.build_waveguide_source(
                g["omega"], g["dxes"], g["eps"], g["mu"], kw.get(
                    "axis", g["axis"]), kw.get("sl", _slices(g, pos)), pol,
                mode, power))


def _overlap(g, pos, pol, mode, power=1.0, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.array(
            waveguide_mode.build_overlap(
                g["omega"], g["dxes"], g["eps"], g["mu"], kw.get(
                    "axis", g["axis"]), kw.get("sl", _slices(g, pos)), pol,
                mode, power))


def _flux(g, E, pos):
    """Power through the plane between pos and pos + 1."""
    E = fdfd_tools.unvec(E, g["shape"])
    d, h = g["dxes"]
    z = np.zeros(3)
    no = np.zeros((3, 3))
    a, t, u = g["axis"], g["ta"], g["tb"]
    de = lambda f, ax: (np.roll(f, -1, ax) - f) / d[ax].reshape(
        [-1 if i == ax else 1 for i in range(3)])
    m = _mu(g)
    Hu = (de(E[t], a) - de(E[a], t)) / (-1j * g["omega"] * m[u])
    Ht = (de(E[a], u) - de(E[u], a)) / (-1j * g["omega"] * m[t])
    rs = lambda x, ax: x.reshape([-1 if i == ax else 1 for i in range(3)])
    S = (E[t] * np.conj(Hu) * rs(d[t], t) * rs(h[u], u) -
         E[u] * np.conj(Ht) * rs(h[t], t) * rs(d[u], u))
    return 0.5 * np.real(np.sum(np.take(S, pos, axis=a)))


@family(quick=24, thorough=240, timeout=300)
def simulated(ck, rng):
    """Source and overlaps on a straight waveguide."""
    axis = int(rng.integers(3))
    g = _guide(ck, rng, axis, True, 46)
    k2 = _spectrum(g)
    # Modes that are well confined in the box.
    n_ok = np.sum(k2 > g["omega"]**2 * (g["clad"] * 1.35 + 0.4))
    if n_ok < 1:
        return
    m = int(rng.integers(0, min(n_ok, 3)))
    # Different wavenumbers, so that modes are identified by their number.
    gaps = np.abs(np.delete(k2[:6], m) - k2[m]) / k2[m]
    if np.min(gaps) < 0.02:
        return
    pol = int(rng.choice([-1, 1]))
    power = 10.0**rng.uniform(-3, 3)
    src = 22
    J = _source(g, src, pol, m, power)
    pml = [0] * 6
    pml[2 * axis:2 * axis + 2] = [10, 10]
    for a in (g["ta"], g["tb"]):
        if g["shape"][a] > 1:
            pml[2 * a:2 * a + 2] = [6, 6]
    E = local_matrix_solvers.DirectSolver().solve(
        omega=g["omega"], dxes=g["dxes"], J=v(J), epsilon=v(g["eps"]),
        mu=v(g["mu"]), pml_layers=pml)
    ck.event("simulated")
    if pol < 0:
        ck.event("backward_source")
    info = {"axis": axis, "pol": pol, "mode": m, "power": power,
            "shape": g["shape"], "omega": g["omega"], "dx": g["dx"]}
    ck.key(axis, pol, m, g["omega"])
    ck.sample(info)
    ahead = [30, 33] if pol > 0 else [15, 12]
    behind = 14 if pol > 0 else 31
    ov = lambda pos, p, mm: np.dot(v(_overlap(g, pos, p, mm)), E)
    vals = [ov(q, pol, m) for q in ahead]
    ck.event("overlaps", 5)
    ck.close(abs(vals[0])**2 / power, 1.0, "emitted-power", rtol=0.08,
             detail=info)
    ck.close(abs(vals[1]) / abs(vals[0]), 1.0, "power-conserved-along-guide",
             rtol=0.02, detail=info)
    # The phase advances with the (discrete) wavenumber of the mode.
    beta = np.sqrt(k2[m])
    kd = 2 * np.arcsin(min(1, beta * g["dx"] / 2)) / g["dx"]
    adv = np.angle(vals[1] / vals[0] * np.exp(1j * kd * 3 * g["dx"]))
    ck.close(adv, 0.0, "phase-advance", atol=0.1, detail=info)
    ck.close(abs(ov(behind, pol, m))**2 / power, 0.0, "emission-backwards",
             atol=0.01, detail=info)
    ck.close(abs(ov(behind, -pol, m))**2 / power, 0.0, "emission-backwards",
             atol=0.01, detail=info)
    ck.close(abs(ov(ahead[0], -pol, m))**2 / power, 0.0,
             "overlap-of-the-wrong-direction", atol=0.08, detail=info)
    other = int(rng.integers(0, min(n_ok, 3)))
    if other != m:
        ck.close(abs(ov(ahead[0], pol, other))**2 / power, 0.0,
                 "overlap-of-the-wrong-mode", atol=0.02, detail=info)
    ck.event("poynting")
    ck.close(_flux(g, E, ahead[0]) / power, float(pol), "poynting-flux",
             rtol=0.1, detail=info)
    ck.close(_flux(g, E, behind) / power, 0.0, "poynting-flux-behind",
             atol=0.02, detail=info)


def _rotate(g):
    """The same waveguide with the axes permuted cyclically."""
    r = dict(g)
    r["axis"], r["ta"], r["tb"] = [(g[k] + 1) % 3 for k in
                                   ("axis", "ta", "tb")]
    roll = lambda x: [x[2], x[0], x[1]]
    r["shape"] = roll(g["shape"])
    r["eps"] = roll([e.transpose(2, 0, 1) for e in g["eps"]])
    r["dxes"] = [roll(x) for x in g["dxes"]]
    if g["mu"]:
        r["mu"] = roll([e.transpose(2, 0, 1) for e in g["mu"]])
    return r


def _embed(x, shape, win, fill):
    out = np.full(shape, fill, dtype=float)
    out[tuple(win)] = x
    return out


def _same_up_to_phase(ck, a, b, mech, info, strict, rtol=1e-4):
    if not strict:
        ph = np.vdot(a, b)
        if abs(ph) > 0:
            b = b * np.conj(ph) / abs(ph)
    ck.close(a, b, mech, rtol=rtol, detail=info)


@family(quick=30, thorough=300, timeout=300)
def invariance(ck, rng):
    """Rotated, shifted and rescaled set-ups give the same source/overlap."""
    axis = int(rng.integers(3))
    slab = bool(rng.random() < 0.5)
    g = _guide(ck, rng, axis, slab, 8)
    k2 = _spectrum(g) if slab else None
    pol = int(rng.choice([-1, 1]))
    m = 0
    if slab:
        gaps = np.abs(np.diff(k2[:4])) / k2[0]
        n_ok = int(np.sum(k2 > g["omega"]**2 * (g["clad"] * 1.35 + 0.4)))
        if n_ok < 1 or gaps[0] < 0.02:
            return
        if n_ok > 1 and gaps[1] > 0.02 and rng.random() < 0.5:
            m = 1
    build = [_source, _overlap][int(rng.integers(2))]
    info = {"axis": axis, "pol": pol, "mode": m, "what": build.__name__,
            "shape": g["shape"]}
    ck.key(axis, pol, m, build.__name__, g["omega"])
    p = 10.0**rng.uniform(-2, 2)
    base = build(g, 3, pol, m, 1.0)
    nz = np.max(np.abs(base))
    ck.expect(nz > 0 and np.all(np.isfinite(base)), "empty-source", info)
    # Rotation of the axes.
    r = _rotate(g)
    got = build(r, 3, pol, m, 1.0)
    back = np.array([got[(c + 1) % 3].transpose(1, 2, 0) for c in range(3)])
    ck.event("rotated")
    strict = False
    _same_up_to_phase(ck, base, back, "rotated-setup", info, strict)
    # Shift along the waveguide.
    got = build(g, 4, pol, m, 1.0)
    ck.event("shifted")
    _same_up_to_phase(ck, np.roll(base, 1, axis=1 + axis), got,
                      "shifted-setup", info, strict)
    # Power.
    ck.event("power_scaled")
    got = build(g, 3, pol, m, p)
    _same_up_to_phase(ck, np.sqrt(p) * base, got, "power-scaling", info,
                      strict)
    # Equivalent ways of giving axis and slice.
    sl = _slices(g, 3)
    idx = [[s.start for s in sl], [s.stop - 1 for s in sl]]
    got = build(g, 3, pol, m, 1.0, axis=Direction(axis), sl=idx)
    _same_up_to_phase(ck, base, got, "slice-by-index", info, strict)
    # The cells far away along the guide do not matter.
    far = dict(g, dxes=[[x.copy() for x in y] for y in g["dxes"]])
    for y in far["dxes"]:
        y[axis][0], y[axis][-1] = y[axis][0] * 1.6, y[axis][-1] * 0.7
    got = build(far, 3, pol, m, 1.0)
    ck.event("graded_guide")
    _same_up_to_phase(ck, base, got, "far-cells", info, strict)
    # Nor does what lies outside of the window of the slice.
    big = dict(g, shape=[n + 6 if n > 1 and a != axis else n
                         for a, n in enumerate(g["shape"])])
    off = [int(rng.integers(2, 5)) if n > 1 and a != axis else 0
           for a, n in enumerate(g["shape"])]
    win = tuple(slice(o, o + n) for o, n in zip(off, g["shape"]))
    emb = lambda q: [_embed(x, big["shape"], win, 2.0) for x in q]
    big["eps"] = emb(g["eps"])
    big["mu"] = emb(g["mu"]) if g["mu"] else None
    big["dxes"] = [[_embed(x, [m_], [w], g["dx"] * f) for x, m_, w in zip(
        y, big["shape"], win)] for y, f in zip(g["dxes"], (0.8, 0.9))]
    sl = list(win)
    sl[axis] = slice(3, 4)
    got = build(big, 3, pol, m, 1.0, sl=sl)
    ck.event("windows")
    inner = tuple(slice(2, n - 2) if n > 1 and a != axis else slice(None)
                  for a, n in enumerate(g["shape"]))
    _same_up_to_phase(
        ck, np.array([x[inner] for x in base]),
        np.array([x[win][inner] for x in got]), "window", info, strict,
        rtol=1e-3 if build is _source else 0.1)
    far = np.array(got)
    grown = tuple(slice(max(0, w.start - 2), w.stop + 2) for w in win)
    far[(slice(None),) + grown] = 0
    ck.expect(np.max(np.abs(far)) <= 1e-12 * np.max(np.abs(got)),
              "current-outside-window", info)
    # Units (nanometre scale).
    s = rng.uniform(0.5, 2)
    q = dict(g, omega=g["omega"] / s, dxes=[[x * s for x in y]
                                            for y in g["dxes"]])
    got = build(q, 3, pol, m, 1.0)
    # The mode fields scale as 1/length; J has another 1/length, an overlap
    # weights a field by an area.
    ck.event("rescaled")
    fac = s**-2 if build is _source else s
    _same_up_to_phase(ck, base * fac, got, "rescaled-setup", info, strict,
                      rtol=1e-3)


@family(quick=12, thorough=60, timeout=300)
def arguments(ck, rng):
    g = _guide(ck, rng, int(rng.integers(3)), True, 4, permeable=False)
    bad = int(rng.choice([0, 2, -3]))
    ck.event("refused")
    ck.key(bad, g["omega"])
    ck.raises(ValueError, lambda: _overlap(g, 1, bad, 0), "polarity-accepted")
    # A lossy material is warned about, and the mode is still found.
    lossy = dict(g, eps=[e - 0.05j * (e > g["clad"] + 1) for e in g["eps"]])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = waveguide_mode.solve_waveguide_mode(
            0, lossy["omega"], lossy["dxes"], lossy["axis"], 1,
            _slices(lossy, 1), lossy["eps"])
    ck.event("lossy")
    ck.expect(any("imaginary" in str(x.message) for x in w), "loss-unreported")
    ck.close(np.real(r["wavenumber"]), np.sqrt(_spectrum(g)[0]),
             "lossy-wavenumber", rtol=0.02)
    before = [e.copy() for e in g["eps"]]
    mu = [np.ones(g["shape"]) for _ in range(3)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, k = waveguide_mode.build_waveguide_source(
            g["omega"], g["dxes"], g["eps"], mu, g["axis"], _slices(g, 1), 1,
            0, 1.0, get_wavenumber=True)
    beta = np.sqrt(_spectrum(g)[0])
    ck.expect(min(abs(k - beta), abs(k - 2 * np.sin(beta / 2))) < 1e-3 * beta,
              "returned-wavenumber", {"got": k, "want": beta})
    _same_up_to_phase(ck, np.array(a), _source(g, 1, 1, 0, 1.0),
                      "unit-permeability", None, False)
    ck.expect(all(np.array_equal(x, y) for x, y in zip(before, g["eps"])),
              "source-changes-permittivity")


@family(quick=80, thorough=1200, timeout=120)
def operators2d(ck, rng):
    """The mode operators satisfy the equations for any cross-section."""
    sh = (int(rng.integers(3, 8)), int(rng.integers(3, 8)))
    dxes = [[rng.uniform(0.5, 1.5, n) for n in sh] for _ in range(2)]
    omega = rng.uniform(0.3, 1.5)
    n = sh[0] * sh[1]
    eps = rng.uniform(1, 12, 3 * n)
    mu = rng.uniform(1, 3, 3 * n) if rng.random() < 0.6 else None
    if mu is not None:
        ck.event("permeability")
    one = np.ones(3 * n) if mu is None else mu
    op = fdfd_tools.waveguide.operator(omega, dxes, eps, mu)
    w, vec = np.linalg.eig(op.toarray())
    scale = np.max(np.abs(w))
    good = [i for i in range(len(w)) if abs(w[i].imag) < 1e-9 * scale and
            w[i].real > 1e-4 * scale]
    if not good:
        return
    i = int(rng.choice(good))
    beta = np.sqrt(w[i].real)
    # Explicit curl equations, fields propagate as exp(-i beta z).
    def diff(f, a, d, fwd):
        dd = d.reshape([-1 if q == a else 1 for q in range(2)])
        return ((np.roll(f, -1, a) - f) if fwd else
                (f - np.roll(f, 1, a))) / dd

    def curl(f, d, fwd):
        x, y, z = f
        k = -1j * beta
        return [diff(z, 1, d[1], fwd) - k * y, k * x - diff(z, 0, d[0], fwd),
                diff(y, 0, d[0], fwd) - diff(x, 1, d[1], fwd)]

    split = lambda q: [p.reshape(sh, order="F")
                       for p in np.split(np.asarray(q), 3)]
    join = lambda q: np.concatenate([p.ravel(order="F") for p in q])
    try:
        e, h = fdfd_tools.waveguide.normalized_fields(
            vec[:, i].astype(complex), beta, omega, dxes, eps, mu)
    except AssertionError:
        # A mode of the numerical cross-section with backward power.
        ck.event("backward_modes")
        h = fdfd_tools.waveguide.v2h(vec[:, i].astype(complex), beta, dxes, mu)
        e = fdfd_tools.waveguide.v2e(vec[:, i].astype(complex), beta, omega,
                                     dxes, eps, mu)
    ck.event("operator_modes")
    ce = join(curl(split(e), dxes[0], True))
    ch = join(curl(split(h), dxes[1], False))
    tol = dict(rtol=1e-6)
    ck.close(ce, -1j * omega * one * h, "explicit-mode-h",
             scale=np.max(np.abs(ce)), **tol)
    ck.close(ch, 1j * omega * eps * e, "explicit-mode-e",
             scale=np.max(np.abs(ch)), **tol)
    a, b = h[:2 * n], vec[:, i]
    ck.close(a * np.vdot(a, b), b * np.vdot(a, a), "transverse-field",
             rtol=1e-9, scale=np.max(np.abs(a))**2)
    # Any field: operators against the explicit curl.
    x = rng.normal(size=3 * n) + 1j * rng.normal(size=3 * n)
    wg = fdfd_tools.waveguide
    cx, cy = join(curl(split(x), dxes[0], True)), join(
        curl(split(x), dxes[1], False))
    ck.close(wg.curl_e(beta, dxes) @ x, cx, "curl-e", rtol=1e-12)
    ck.close(wg.curl_h(beta, dxes) @ x, cy, "curl-h", rtol=1e-12)
    ck.close(wg.e2h(beta, omega, dxes, mu) @ x, cx / (-1j * omega * one),
             "e2h", rtol=1e-12)
    ck.close(wg.h2e(beta, omega, dxes, eps) @ x, cy / (1j * omega * eps),
             "h2e", rtol=1e-12)
    # Errors vanish for modes and are the residual of other fields.
    for f, err, first, m1, second, m2 in (
            (e, wg.e_err, (dxes[0], True), one, (dxes[1], False), eps),
            (h, wg.h_err, (dxes[1], False), eps, (dxes[0], True), one)):
        ck.close(err(f, beta, omega, dxes, eps, mu), 0.0, "error-of-a-mode",
                 rtol=0, atol=1e-6 * scale)
        r = join(curl(split(join(curl(split(x), *first)) / m1), *second))
        r = r - omega**2 * m2 * x
        ck.close(err(x, beta, omega, dxes, eps, mu),
                 np.linalg.norm(r) / np.linalg.norm(x), "error-of-a-field",
                 rtol=1e-9)
    ck.key(sh, omega)
