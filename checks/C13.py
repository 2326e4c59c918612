"""C13: the discrete electromagnetic operators are Maxwell's equations."""
import itertools

import numpy as np
import scipy.sparse as sparse

from vlib.core import family
from vlib.em import (cplx as _cplx, curl as _curl, diff as _diff,
                     phase as _phase)
from spins import fdfd_tools
from spins.fdfd_tools import functional, grid, operators

RULE = ("random grids (1 to 5 cells per axis, uniform and non-uniform, with "
        "and without complex stretching), random materials, masks, Bloch "
        "vectors and sheared periodic boundaries; every operator is applied "
        "to random fields and compared with explicit finite differences, "
        "Bloch plane waves must be eigenvectors of every derivative, and the "
        "algebraic identities (div curl = 0, symmetry, power balance) must "
        "hold; distinct by grid and parameters")
REQUIRED_EVENTS = ["curls", "wave_operators", "bloch", "sheared", "pec", "pmc",
                   "mu", "functional", "symmetry", "plane_waves", "shifts",
                   "mirrors", "power_balance", "vectorization", "pml_grids",
                   "nonuniform_grids", "div_curl", "complex_grid",
                   "one_cell_axis", "pml_on_some_sides", "pml_profiles",
                   "coarse_mesh", "mesh_step"]


def _shape(ck, rng, hi=6):
    s = [int(rng.integers(1, hi)) for _ in range(3)]
    if 1 in s:
        ck.event("one_cell_axis")
    return s


def _dxes(ck, rng, shape, kind=None):
    kind = int(rng.integers(3)) if kind is None else kind
    e, h = [], []
    for n in shape:
        if kind == 0:
            d = np.full(n, rng.uniform(0.5, 3))
            dh = d.copy()
        else:
            d = rng.uniform(0.5, 3, n)
            dh = (d + np.roll(d, 1)) / 2
            if kind == 2:
                d = d * (1 - 1j * rng.uniform(0, 1, n))
                dh = dh * (1 - 1j * rng.uniform(0, 1, n))
        e.append(d)
        h.append(dh)
    if kind == 2:
        ck.event("complex_grid")
    return [e, h]


def _mask(rng, shape):
    """Any nonzero value marks a conductor."""
    val = [1.0, True, 2, -1.0, 0.25, 1j][int(rng.integers(6))]
    return [(rng.random(shape) < 0.3) * val for _ in range(3)]


def _setup(ck, rng):
    shape = _shape(ck, rng, 5)
    dxes = _dxes(ck, rng, shape)
    k = np.zeros(3)
    shear = np.zeros((3, 3))
    if rng.random() < 0.6:
        k = rng.uniform(-1, 1, 3)
        ck.event("bloch")
    if rng.random() < 0.3:
        a = int(rng.integers(3))
        b = (a + int(rng.integers(1, 3))) % 3
        if shape[b] > 1:
            shear[a, b] = int(rng.integers(-shape[b] + 1, shape[b]))
            if shear[a, b]:
                ck.event("sheared")
    return shape, dxes, k, shear


@family(quick=250, thorough=2500)
def maxwell_operators(ck, rng):
    shape, dxes, k, shear = _setup(ck, rng)
    n = int(np.prod(shape))
    omega = rng.uniform(0.3, 3)
    if rng.random() < 0.2:
        omega = omega * (1 + 0.1j)
    E = [_cplx(rng, shape) for _ in range(3)]
    H = [_cplx(rng, shape) for _ in range(3)]
    eps = [rng.uniform(1, 12, shape) + (1j * rng.uniform(0, 1, shape)
                                        if rng.random() < 0.3 else 0)
           for _ in range(3)]
    mu = pec = pmc = None
    one = [np.ones(shape)] * 3
    if rng.random() < 0.5:
        mu = [rng.uniform(0.5, 3, shape) for _ in range(3)]
        ck.event("mu")
    if rng.random() < 0.4:
        pec = _mask(rng, shape)
        ck.event("pec")
    if rng.random() < 0.4:
        pmc = _mask(rng, shape)
        ck.event("pmc")
    m = mu or one
    pe = [1.0 * (p == 0) for p in pec] if pec else one
    pm = [1.0 * (p == 0) for p in pmc] if pmc else one
    v, u = fdfd_tools.vec, lambda x: fdfd_tools.unvec(x, shape)
    pe_phase, ph_phase = _phase(dxes[0], k, shear), _phase(dxes[1], k, shear)
    ce = lambda f: _curl(f, dxes[0], True, pe_phase, shear)
    ch = lambda f: _curl(f, dxes[1], False, ph_phase, shear)
    mul = lambda a, b: [x * y for x, y in zip(a, b)]
    bl = dict(bloch_vec=k, shift_orthogonal=shear)
    if not np.any(k) and rng.random() < 0.5:
        bl["bloch_vec"] = None
    args = dict(pec=v(pec) if pec else None, pmc=v(pmc) if pmc else None)
    vmu = v(mu) if mu else None
    info = {"shape": shape, "k": k, "shear": shear, "mu": mu is not None}

    def same(got, want, mech):
        ck.close(np.asarray(got).ravel(), v(want), mech, rtol=1e-10,
                 detail=info)

    ck.event("curls", 2)
    same(operators.curl_e(dxes, **bl) @ v(E), ce(E), "curl-e")
    same(operators.curl_h(dxes, **bl) @ v(H), ch(H), "curl-h")

    ck.event("wave_operators", 6)
    inner = ce(mul(pe, E))
    inner = ch([p * x / q for p, x, q in zip(pm, inner, m)])
    want = [p * (c - omega**2 * e * p * x)
            for p, c, e, x in zip(pe, inner, eps, E)]
    same(operators.e_full(omega, dxes, v(eps), mu=vmu, **args, **bl) @ v(E),
         want, "e-wave-operator")
    inner = ch(mul(pm, H))
    inner = ce([p * x / q for p, x, q in zip(pe, inner, eps)])
    want = [p * (c - omega**2 * q * p * x)
            for p, c, q, x in zip(pm, inner, m, H)]
    same(operators.h_full(omega, dxes, v(eps), mu=vmu, **args, **bl) @ v(H),
         want, "h-wave-operator")
    A = operators.eh_full(omega, dxes, v(eps), mu=vmu, **args, **bl)
    got = A @ np.hstack([v(E), v(H)])
    ce_ = ce(mul(pe, E))
    ch_ = ch(mul(pm, H))
    want_e = [p * c - 1j * omega * p * p * e * x
              for p, c, e, x in zip(pe, ch_, eps, E)]
    want_h = [p * c + 1j * omega * p * p * q * x
              for p, c, q, x in zip(pm, ce_, m, H)]
    same(got[:3 * n], want_e, "eh-operator-e")
    same(got[3 * n:], want_h, "eh-operator-h")
    same(operators.e2h(omega, dxes, vmu, args["pmc"], **bl) @ v(E),
         [p * c / (-1j * omega * q) for p, c, q in zip(pm, ce(E), m)], "e2h")
    same(operators.h2e(omega, dxes, v(eps), **bl) @ v(H),
         [c / (1j * omega * e) for c, e in zip(ch(H), eps)], "h2e")
    same(operators.m2j(omega, dxes, k, vmu, shear) @ v(H),
         [c / (1j * omega) for c in ch([x / q for x, q in zip(H, m)])], "m2j")

    # Matrix-free versions.
    if not np.any(k) and not np.any(shear):
        ck.event("functional")
        fmu = mu if mu else None
        same(v(functional.curl_e(dxes)(E)), ce(E), "functional-curl-e")
        same(v(functional.curl_h(dxes)(H)), ch(H), "functional-curl-h")
        same(v(functional.e2h(omega, dxes, fmu)(E)),
             [c / (-1j * omega * q) for c, q in zip(ce(E), m)],
             "functional-e2h")
        same(v(functional.e_full(omega, dxes, eps, fmu)(E)),
             [c - omega**2 * e * x for c, e, x in zip(
                 ch([x / q for x, q in zip(ce(E), m)]), eps, E)],
             "functional-e-operator")
        fe, fh = functional.eh_full(omega, dxes, eps, fmu)(E, H)
        same(v(fe), [c - 1j * omega * e * x
                     for c, e, x in zip(ch(H), eps, E)], "functional-eh-e")
        same(v(fh), [c + 1j * omega * q * x
                     for c, q, x in zip(ce(E), m, H)], "functional-eh-h")
    ck.key(shape, k, shear, mu is not None, pec is not None, pmc is not None)
    ck.sample(info)


@family(quick=200, thorough=2000)
def identities(ck, rng):
    """Symmetry, Hermiticity and div curl = 0."""
    shape, dxes, k, shear = _setup(ck, rng)
    n = int(np.prod(shape))
    eps = rng.uniform(1, 9, 3 * n)
    A = operators.e_full(1.3, dxes, eps)
    Pl, Pr = operators.e_full_preconditioners(dxes)
    S = (Pl @ A @ Pr).toarray()
    ck.event("symmetry")
    ck.close(S, S.T, "preconditioned-symmetry", rtol=1e-10)
    ck.close((Pl @ Pr).toarray(), np.eye(3 * n), "preconditioners-inverse",
             rtol=1e-12)
    # The divergence of a curl vanishes for any quasi-periodic boundary.
    D = operators.deriv_forward_shift(dxes[0], k, shear)
    div = sparse.hstack(D)
    f = _cplx(rng, 3 * n)
    if not np.any(shear):
        ck.event("div_curl")
        ck.close(div @ (operators.curl_e(dxes, k, shear) @ f), np.zeros(n),
                 "div-curl-e", atol=1e-9)
        Db = sparse.hstack(operators.deriv_back_shift(dxes[1], k, shear))
        ck.close(Db @ (operators.curl_h(dxes, k, shear) @ f), np.zeros(n),
                 "div-curl-h", atol=1e-9)
    # Lossless uniform grids have a Hermitian wave operator for every k.
    uni = _dxes(ck, rng, shape, 0)
    B = operators.e_full(1.1, uni, eps, bloch_vec=k,
                         shift_orthogonal=shear).toarray()
    ck.close(B, B.conj().T, "hermitian", rtol=1e-10,
             detail={"shape": shape, "k": k, "shear": shear})
    # The unsheared operators agree with the older interface.
    if not np.any(shear):
        for fun, old, d in [
            (operators.deriv_forward_shift, operators.deriv_forward, dxes[0]),
            (operators.deriv_back_shift, operators.deriv_back, dxes[1])]:
            if np.any(k) and np.iscomplexobj(d[0]):
                continue
            for a, b in zip(fun(d, k), old(d, k)):
                ck.close(a.toarray(), b.toarray(), "derivative-variants",
                         rtol=1e-12)
    ck.key("i", shape, k, shear)


@family(quick=150, thorough=1500)
def plane_waves(ck, rng):
    """Bloch waves are eigenvectors of all the derivatives."""
    shape = _shape(ck, rng, 6)
    d = [rng.uniform(0.5, 2) for _ in range(3)]
    dx = [np.full(n, w) for n, w in zip(shape, d)]
    k = rng.uniform(-2, 2, 3)
    shear = np.zeros((3, 3))
    if rng.random() < 0.5:
        a = int(rng.integers(3))
        b = (a + int(rng.integers(1, 3))) % 3
        if shape[b] > 1:
            shear[a, b] = int(rng.integers(-shape[b] + 1, shape[b]))
    X = np.meshgrid(*[np.arange(n) * w for n, w in zip(shape, d)],
                    indexing="ij")
    # Any wave whose phase advance over a lattice vector equals that of the
    # Bloch wave; the Bloch wave itself is one.
    w = np.exp(-1j * sum(kk * x for kk, x in zip(k, X))).flatten(order="F")
    F = operators.deriv_forward_shift(dx, k, shear)
    B = operators.deriv_back_shift(dx, k, shear)
    for a in range(3):
        f = (np.exp(-1j * k[a] * d[a]) - 1) / d[a]
        g = (1 - np.exp(1j * k[a] * d[a])) / d[a]
        ck.close(F[a] @ w, f * w, "plane-wave-forward", rtol=1e-10, atol=1e-9,
                 detail={"shape": shape, "k": k, "shear": shear, "axis": a})
        ck.close(B[a] @ w, g * w, "plane-wave-backward", rtol=1e-10, atol=1e-9,
                 detail={"shape": shape, "k": k, "shear": shear, "axis": a})
    ck.event("plane_waves")
    ck.key("p", shape, k, shear)


@family(quick=200, thorough=2000)
def shifts(ck, rng):
    shape = _shape(ck, rng, 7)
    axis = int(rng.integers(3))
    f = _cplx(rng, shape)
    fv = f.flatten(order="F")
    s = int(rng.integers(-shape[axis], shape[axis] + 1))
    if s == 0:
        s = 1
    u = lambda x: np.asarray(x).reshape(shape, order="F")
    ck.event("shifts")
    ph = np.zeros(3)
    ph[axis] = rng.uniform(-3, 3) if rng.random() < 0.5 else 0
    got = u(operators.rotation_bloch_shift(axis, shape, s, ph) @ fv)
    want = np.roll(f, -s, axis=axis).astype(complex)
    sl = [slice(None)] * 3
    if s > 0:
        sl[axis] = slice(shape[axis] - s, None)
        want[tuple(sl)] *= np.exp(-1j * ph[axis])
    else:
        sl[axis] = slice(0, -s)
        want[tuple(sl)] *= np.exp(1j * ph[axis])
    ck.close(got, want, "shift", rtol=1e-12, detail={"s": s, "shape": shape})
    one = int(np.sign(s))
    ck.close(u(operators.rotation_bloch(axis, shape, ph[axis], one) @ fv),
             u(operators.rotation_bloch_shift(axis, shape, one, ph) @ fv),
             "shift-variants", rtol=1e-12)
    ck.close(u(operators.avgf(axis, shape) @ fv),
             (f + np.roll(f, -1, axis)) / 2, "forward-average", rtol=1e-12)
    ck.close(u(operators.avgb(axis, shape) @ fv),
             (f + np.roll(f, 1, axis)) / 2, "backward-average", rtol=1e-12)
    ck.raises(ValueError, lambda: operators.rotation_bloch_shift(
        axis, shape, 1, np.zeros(3), [1, 1, 1]), "shear-along-axis-accepted")
    # Mirrored shifts.
    s = int(rng.integers(-shape[axis] + 1, shape[axis]))
    pad = np.concatenate([np.flip(f, axis), f, np.flip(f, axis)], axis=axis)
    sl = [slice(None)] * 3
    sl[axis] = slice(shape[axis] + s, 2 * shape[axis] + s)
    ck.close(u(operators.shift_with_mirror(axis, shape, s) @ fv),
             pad[tuple(sl)], "mirror-shift", rtol=1e-12)
    ck.event("mirrors")
    ck.raises(Exception, lambda: operators.shift_with_mirror(
        axis, shape, shape[axis]), "mirror-shift-too-large")
    # Cross products and vectorization.
    a3 = [_cplx(rng, shape) for _ in range(3)]
    b3 = [_cplx(rng, shape) for _ in range(3)]
    ck.close(operators.vec_cross(fdfd_tools.vec(a3)) @ fdfd_tools.vec(b3),
             fdfd_tools.vec(np.moveaxis(np.cross(
                 np.moveaxis(a3, 0, -1), np.moveaxis(b3, 0, -1)), -1, 0)),
             "cross", rtol=1e-12)
    vv = fdfd_tools.vec(a3)
    n = int(np.prod(shape))
    i, j, l = [int(rng.integers(m)) for m in shape]
    c = int(rng.integers(3))
    ck.expect(vv.shape == (3 * n,) and vv[c * n + i + shape[0] *
                                          (j + shape[1] * l)] == a3[c][i, j, l],
              "vectorization-order")
    back = fdfd_tools.unvec(vv, shape)
    ck.expect(len(back) == 3 and all(np.array_equal(x, y) for x, y in zip(
        back, a3)), "vectorization-round-trip")
    ck.expect(fdfd_tools.vec(None) is None and
              fdfd_tools.unvec(None, shape) is None, "vectorization-none")
    ck.event("vectorization")
    ck.key("s", shape, axis, s)


@family(quick=120, thorough=1200)
def power_balance(ck, rng):
    """The flux out of every cell equals the power generated in it."""
    shape = [int(rng.integers(2, 6)) for _ in range(3)]
    d = [rng.uniform(0.5, 2) for _ in range(3)]
    dxes = [[np.full(n, w) for n, w in zip(shape, d)] for _ in range(2)]
    n = int(np.prod(shape))
    omega = rng.uniform(0.5, 2)
    eps = rng.uniform(1, 9, 3 * n) - 1j * rng.uniform(0, 1, 3 * n)
    E = _cplx(rng, 3 * n)
    H = operators.e2h(omega, dxes) @ E
    J = operators.curl_h(dxes) @ H - 1j * omega * eps * E
    S1 = operators.poynting_chew_e_cross(E, dxes) @ np.conj(H)
    S2 = -np.conj(operators.poynting_chew_h_cross(H, dxes)) @ E
    ck.close(S1, S2, "poynting-variants", rtol=1e-10)
    S = fdfd_tools.unvec(S1, shape)
    out = sum(S[a] - np.roll(S[a], 1, axis=a) for a in range(3))
    vol = np.prod(d)
    dens = [(-1j * omega * np.abs(h)**2 - e * np.conj(j + 1j * omega * p * e))
            for e, h, j, p in zip(fdfd_tools.unvec(E, shape),
                                  fdfd_tools.unvec(H, shape),
                                  fdfd_tools.unvec(J, shape),
                                  fdfd_tools.unvec(eps, shape))]
    ck.close(out, vol * sum(dens), "power-balance", rtol=1e-9)
    # Power through planes from both cross products (whole-plane totals of the
    # averaged variant are compared for fields that vary along one axis only).
    ck.event("power_balance")
    ck.key("b", shape, d)


@family(quick=150, thorough=1500)
def grids(ck, rng):
    """Grid generators: PML stretching and graded meshes."""
    # Stretched-coordinate PMLs.
    shape = [int(rng.integers(4, 14)) for _ in range(3)]
    d = [np.full(n, w) for n, w in zip(shape, rng.uniform(0.5, 40, 3))]
    if rng.random() < 0.4:
        d = [x * rng.uniform(0.5, 1.5, x.size) for x in d]
    dxes = [d, [(x + np.roll(x, 1)) / 2 for x in d]]
    keep = [[x.copy() for x in y] for y in dxes]
    omega = rng.uniform(0.01, 1)
    w = omega
    if rng.random() < 0.3:
        w = omega * (1 + 1j * rng.uniform(-1, 1))
    pml = [int(rng.integers(0, n // 2 + 1)) for n in shape for _ in range(2)]
    arg = pml
    kind = int(rng.integers(4))
    if kind == 0:
        arg = int(rng.integers(1, min(shape) // 2 + 1))
        pml = [arg] * 6
    elif kind == 1:
        arg, pml = None, [0] * 6
    elif kind == 2:  # some sides only
        on = rng.random(6) < rng.choice([0.17, 0.4])
        arg = pml = [p if o else 0 for p, o in zip(pml, on)]
        if rng.random() < 0.5:
            arg = tuple(pml)
        ck.event("pml_on_some_sides")
    out = grid.apply_scpml(dxes, arg, w)
    ck.event("pml_grids")
    for g in range(2):
        for a in range(3):
            x, y = out[g][a], keep[g][a]
            ck.expect(np.array_equal(dxes[g][a], y), "pml-changes-input")
            ck.close(np.real(x), y, "pml-real-part", rtol=1e-10)
            lo, hi = pml[2 * a], pml[2 * a + 1]
            n = shape[a]
            inner = slice(lo, n - hi)
            ck.close(np.imag(x[inner]), np.zeros(n - hi - lo),
                     "pml-inside-domain", atol=1e-12)
            # Absorbing for exp(+i omega t), growing towards the boundary.
            low, high = -np.imag(x[:lo]) / y[:lo], (-np.imag(x) / y)[n - hi:]
            ck.expect(np.all(low > 0) and np.all(np.diff(low) < 0),
                      "pml-profile-low", {"low": low, "pml": pml})
            if g == 0:
                ck.expect(np.all(high > 0) and np.all(np.diff(high) > 0),
                          "pml-profile-high", {"high": high, "pml": pml})
            else:
                ck.expect(np.all(high >= -1e-15) and
                          np.all(np.diff(high) > 0), "pml-profile-high",
                          {"high": high, "pml": pml})
    # Total absorption of the default profile: exp(-16) in amplitude^2 there
    # and back, within the accuracy of the midpoint rule.
    for a in range(3):
        for side, p in ((0, pml[2 * a]), (1, pml[2 * a + 1])):
            if p >= 4 and np.ptp(keep[0][a]) < 1e-9:
                im = np.imag(out[0][a])
                tot = im[:p].sum() if side == 0 else im[shape[a] - p:].sum()
                ck.close(tot * omega, -8.0, "pml-strength", rtol=0.1)
    # Custom profiles.
    a = int(rng.integers(3))
    side = [1, -1][int(rng.integers(2))]
    th = int(rng.integers(2, shape[a] // 2 + 1))
    ln_r, m, eps = -rng.uniform(5, 40), rng.uniform(1, 5), rng.uniform(1, 12)
    got = grid.stretch_with_scpml(
        [[x.copy() for x in y] for y in keep], axis=a, polarity=side,
        omega=w, epsilon_effective=eps, thickness=th,
        s_function=grid.prepare_s_function(ln_r, m))
    edge = np.hstack([0, np.cumsum(keep[0][a])])
    mid = (edge[1:] + edge[:-1]) / 2
    start, end = (edge[th], 0) if side > 0 else (edge[-1 - th], edge[-1])
    for g, pos in enumerate([mid, edge[:-1]]):
        depth = (pos - start) / (end - start)
        idx = np.arange(shape[a])
        depth = np.where(idx < th if side > 0 else idx >= shape[a] - th,
                         depth, 0)
        want = keep[g][a] * (1 + 1j * (m + 1) * ln_r / 2 * depth**m / abs(
            end - start) / np.sqrt(eps) / omega)
        ck.close(got[g][a], want, "pml-custom-profile", rtol=1e-9,
                 detail={"side": side, "thickness": th, "grid": g})
        for b in range(3):
            if b != a:
                ck.close(got[g][b], keep[g][b], "pml-on-another-axis")
    ck.event("pml_profiles")
    th3 = [int(rng.integers(0, n // 2 + 1)) for n in shape]
    uni = grid.uniform_grid_scpml(shape, th3, w, eps,
                                  grid.prepare_s_function(ln_r, m))
    for g in range(2):
        for b in range(3):
            x = np.asarray(uni[g][b])
            ck.expect(x.shape == (shape[b],), "uniform-grid-shape")
            ck.close(np.real(x), np.ones(shape[b]), "uniform-grid-real")
            pos = np.arange(shape[b]) + g / 2
            n, q = shape[b], th3[b]
            depth = np.zeros(n) if q == 0 else np.maximum(
                0, np.maximum(q - pos, pos - (n - q))) / q
            ck.close(np.imag(x), (m + 1) * ln_r / 2 * depth**m / np.sqrt(
                eps) / omega, "uniform-grid-pml", rtol=1e-9)
    # Periodic grids.
    edges = [np.cumsum(rng.uniform(0.5, 3, int(rng.integers(3, 9))))
             for _ in range(3)]
    pa, pb = grid.generate_periodic_dx(edges)
    for b in range(3):
        dd = np.diff(edges[b])
        ck.close(pa[b], dd, "periodic-grid-e")
        ck.close(pb[b], (dd + np.roll(dd, -1)) / 2, "periodic-grid-h")
    for g in range(2):
        for a in range(3):
            out[g][a][:] = -1
            ck.expect(np.array_equal(dxes[g][a], keep[g][a]),
                      "pml-returns-a-new-grid", {"pml": arg})
    # Graded meshes.
    lo = np.array([float(rng.integers(-300, 0)) for _ in range(3)])
    hi = np.array([float(rng.integers(50, 400)) for _ in range(3)])
    if rng.random() < 0.3:
        lo, hi = lo + 500, hi + 500
    elif rng.random() < 0.3:
        lo, hi = lo - 700, hi - 700
    default = [float(v) for v in rng.uniform(20, 50, 3)]
    boxes = []
    for _ in range(int(rng.integers(0, 3))):
        c = rng.uniform(lo, hi)
        boxes.append({"pos": c, "size": rng.uniform(20, 120, 3),
                      "meshsize": rng.uniform(6, 20, 3)})
    if rng.random() < 0.2:
        default[int(rng.integers(3))] = rng.uniform(300, 2000)
        ck.event("coarse_mesh")
    kw = {}
    if rng.random() < 0.4:
        kw["step"] = [0.5, 0.25, 2.0][int(rng.integers(3))]
        lo, hi = 2 * np.floor(lo / 2), 2 * np.floor(hi / 2)
        ck.event("mesh_step")
    borders = [v for pair in zip(lo, hi) for v in pair]
    mesh = grid.make_nonuniform_grid(borders, default, boxes, **kw)
    ck.event("nonuniform_grids")
    for a in range(3):
        x = np.asarray(mesh[a])
        ck.close([x[0], x[-1]], [lo[a], hi[a]], "mesh-spans-domain", rtol=1e-9,
                 detail={"borders": borders, "axis": a})
        w = np.diff(x)
        ck.expect(np.all(w > 0) and np.all(w <= default[a] * (1 + 1e-9)),
                  "mesh-coarser-than-default",
                  lambda: {"max": w.max(), "default": default, "axis": a})
        for b in boxes:
            p0 = b["pos"][a] - b["size"][a] / 2
            p1 = b["pos"][a] + b["size"][a] / 2
            m = max(b["meshsize"][a], 0)
            inside = (x[:-1] >= p0 + 2 * m) & (x[1:] <= p1 - 2 * m)
            ck.expect(np.all(w[inside] <= m * (1 + 1e-9)),
                      "mesh-coarser-than-box", {"box": b, "axis": a})
    ck.key("g", shape, pml, borders)
