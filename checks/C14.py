"""C14: the local field solvers return the solution of Maxwell's equations."""
import contextlib
import io
import logging
import warnings

import numpy as np
import scipy.sparse.linalg

from vlib.core import family
from vlib import em
from spins import fdfd_tools
from spins.fdfd_solvers import local_matrix_solvers, phc_mode_solver
from spins.fdfd_tools import grid, solvers

RULE = ("random grids (1 to 6 cells per axis, non-uniform), materials with "
        "loss and permeability, conductor masks, PML arrangements, Bloch "
        "vectors and sources; the returned field is put into explicitly "
        "written difference equations, and reciprocity, adjointness, "
        "linearity and outgoing radiation are verified; distinct by problem")
REQUIRED_EVENTS = ["direct", "pml", "bloch", "mu", "pec", "pmc", "adjoint",
                   "reciprocity", "linearity", "iterative", "converged",
                   "generic", "callback", "pool", "radiation", "modes",
                   "multiple_modes", "refused", "complex_omega",
                   "complex_bloch", "unsolvable"]

v = fdfd_tools.vec


def _mask(rng, shape):
    """Any nonzero value marks a conductor."""
    val = [1.0, 1.0, True, 2, -1.0, 0.25][int(rng.integers(6))]
    return [(rng.random(shape) < 0.3) * val for _ in range(3)]


def _problem(ck, rng, hi=6, bloch=True, masks=True):
    shape = [int(rng.integers(1, hi)) for _ in range(3)]
    if rng.random() < 0.3:
        shape[int(rng.integers(3))] = 1
    e = [rng.uniform(0.5, 2, n) for n in shape]
    h = [(d + np.roll(d, 1)) / 2 for d in e]
    p = {"omega": rng.uniform(0.4, 2.5), "dxes": [e, h]}
    cplx = rng.random() < 0.4
    p["epsilon"] = v([
        rng.uniform(1, 12, shape) + (-1j * rng.uniform(0, 1, shape)
                                     if cplx else 0) for _ in range(3)
    ])
    p["J"] = v([em.cplx(rng, shape) for _ in range(3)])
    if rng.random() < 0.15:
        p["omega"] = p["omega"] * (1 + 1j * rng.uniform(-0.3, 0.3))
        ck.event("complex_omega")
    if rng.random() < 0.5:
        p["mu"] = v([rng.uniform(0.5, 3, shape) for _ in range(3)])
        ck.event("mu")
    if rng.random() < 0.5:
        lay = []
        for n in shape:
            lay += [int(rng.integers(0, n // 2 + 1)),
                    int(rng.integers(0, n // 2 + 1))]
        if rng.random() < 0.3:  # on some sides only
            lay = [q if rng.random() < 0.3 else 0 for q in lay]
        if rng.random() < 0.2:
            lay = min(shape) // 2
        if np.any(lay):
            ck.event("pml")
        p["pml_layers"] = lay
    if bloch and rng.random() < 0.4:
        p["bloch_vec"] = rng.uniform(-1, 1, 3)
        ck.event("bloch")
        if rng.random() < 0.3:
            p["bloch_vec"] = p["bloch_vec"] + 0.2j * rng.uniform(-1, 1, 3)
            ck.event("complex_bloch")
    if masks and rng.random() < 0.4:
        p["pec"] = v(_mask(rng, shape))
        if np.any(p["pec"]):
            ck.event("pec")
    if masks and rng.random() < 0.3:
        p["pmc"] = v(_mask(rng, shape))
        ck.event("pmc")
    return shape, p


def _copy(p):
    return {k: ([[np.array(d) for d in g] for g in x] if k == "dxes" else
                (x.copy() if isinstance(x, np.ndarray) else x))
            for k, x in p.items()}


def _unchanged(ck, p, q):
    for k in p:
        same = all(np.array_equal(a, b) for g, f in zip(p[k], q[k])
                   for a, b in zip(g, f)) if k == "dxes" else np.array_equal(
                       p[k], q[k])
        ck.expect(same, "solve-changes-its-input", {"argument": k})


def _apply(shape, p, x):
    """The wave equation, written out; returns (A x, stretched grid)."""
    dx = grid.apply_scpml(p["dxes"], p.get("pml_layers"), p["omega"])
    k = p.get("bloch_vec", np.zeros(3))
    no = np.zeros((3, 3))
    u = lambda a: fdfd_tools.unvec(a, shape)
    n = int(np.prod(shape)) * 3
    pe = u(1.0 * (p.get("pec", np.zeros(n)) == 0))
    pm = u(1.0 * (p.get("pmc", np.zeros(n)) == 0))
    m = u(p.get("mu", np.ones(n)))
    eps = u(p["epsilon"])
    E = [a * b for a, b in zip(pe, u(x))]
    b = em.curl(E, dx[0], True, em.phase(dx[0], k, no), no)
    b = [a * c / d for a, c, d in zip(pm, b, m)]
    c = em.curl(b, dx[1], False, em.phase(dx[1], k, no), no)
    return v([q * (cc - p["omega"]**2 * ee * x)
              for q, cc, ee, x in zip(pe, c, eps, E)]), dx


def _well_posed(shape, p):
    """Random problems may be nearly resonant; then roundoff dominates."""
    n = int(np.prod(shape)) * 3
    cols = np.array([_apply(shape, p, e)[0] for e in np.eye(n)]).T
    free = p.get("pec", np.zeros(n)) == 0
    cols = cols[np.ix_(free, free)]
    return cols.size and np.linalg.cond(cols) < 1e8


def _residual(ck, shape, p, E, mech, tol=1e-7):
    Ax, _ = _apply(shape, p, E)
    b = -1j * p["omega"] * p["J"]
    pec = p.get("pec", np.zeros(b.size))
    b = np.where(pec, 0, b)
    scale = np.max(np.abs(Ax)) + np.max(np.abs(b)) + np.max(
        np.abs(E)) * (p["omega"]**2 * np.max(np.abs(p["epsilon"])) + 10)
    ck.close(Ax, b, mech, rtol=tol, scale=scale, detail={
        "shape": shape, "pml": p.get("pml_layers"),
        "bloch": p.get("bloch_vec"), "omega": p["omega"]})
    ck.expect(np.all(np.abs(E[pec != 0]) <= 1e-9 * (1 + np.max(np.abs(E)))),
              "field-inside-pec")


@family(quick=150, thorough=1500)
def direct(ck, rng):
    shape, p = _problem(ck, rng, 5)
    if not _well_posed(shape, p):
        return
    q = _copy(p)
    E = local_matrix_solvers.DirectSolver().solve(**p)
    _unchanged(ck, p, q)
    ck.event("direct")
    ck.key(shape, p["omega"])
    _residual(ck, shape, p, E, "direct-solve")
    ck.sample({"shape": shape, "omega": p["omega"],
               "pml": p.get("pml_layers")})
    # Linearity in the source.
    p2 = dict(p, J=v([em.cplx(rng, shape) for _ in range(3)]))
    E2 = local_matrix_solvers.DirectSolver().solve(**p2)
    a, b = em.cplx(rng, (2,))
    E3 = local_matrix_solvers.DirectSolver().solve(
        **dict(p, J=a * p["J"] + b * p2["J"]))
    ck.close(E3, a * E + b * E2, "linearity", rtol=1e-6)
    ck.event("linearity")
    # Adjoint: <G, A^-1 J> = <A^-H G, J>.
    F = local_matrix_solvers.DirectSolver().solve(**p2, adjoint=True)
    free = p.get("pec", np.zeros(F.size)) == 0
    left = np.vdot((p2["J"])[free], E[free] / (-1j * p["omega"]))
    right = np.vdot(F[free] / (-1j * p["omega"]), p["J"][free])
    ck.close(left, right, "adjoint-identity", rtol=1e-6,
             scale=np.linalg.norm(p["J"]) * np.linalg.norm(F))
    ck.event("adjoint")
    # Reciprocity (the Bloch vector is reversed for the reversed problem).
    rev = dict(p2)
    if "bloch_vec" in p:
        rev["bloch_vec"] = -p["bloch_vec"]
    E2r = local_matrix_solvers.DirectSolver().solve(**rev)
    dx = grid.apply_scpml(p["dxes"], p.get("pml_layers"), p["omega"])
    d, h = dx
    g = lambda x, y, z: x[:, None, None] * y[None, :, None] * z
    vol = v([g(d[0], h[1], h[2]), g(h[0], d[1], h[2]), g(h[0], h[1], d[2])])
    vol = np.where(free, vol, 0)
    if "bloch_vec" in p and np.any(p.get("pml_layers", 0)):
        return  # the Bloch phase of a stretched period is complex
    ck.close(np.sum(p["J"] * vol * E2r), np.sum(p2["J"] * vol * E),
             "reciprocity", rtol=1e-6,
             scale=np.linalg.norm(p["J"] * vol) * np.linalg.norm(E2r))
    ck.event("reciprocity")


class _Log(logging.Handler):

    def __init__(self):
        super().__init__(logging.ERROR)
        self.n = 0

    def emit(self, record):
        self.n += 1


@contextlib.contextmanager
def _errors():
    log = logging.getLogger("spins")
    hnd = _Log()
    old = log.level
    disabled = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    log.addHandler(hnd)
    try:
        yield hnd
    finally:
        log.removeHandler(hnd)
        log.setLevel(old)
        logging.disable(disabled)


@family(quick=120, thorough=1200)
def iterative(ck, rng):
    """Either the requested relative residual is reached or it is reported."""
    shape, p = _problem(ck, rng, 5, masks=rng.random() < 0.3)
    if rng.random() < 0.5:  # lossy problems converge quickly
        p["epsilon"] = p["epsilon"] - 3j
    p["J"] = p["J"] * 10.0**rng.uniform(-8, 8)
    tol = 10.0**rng.uniform(-9, -3)
    cls = [local_matrix_solvers.QmrSolver,
           local_matrix_solvers.BiCgSolver][int(rng.integers(2))]
    seen = []

    class Spy(cls):

        def solve_matrix_equation(self, A, b):
            x = super().solve_matrix_equation(A, b)
            seen.append((A, b, x))
            return x

    adj = bool(rng.random() < 0.3)
    with warnings.catch_warnings(), _errors() as err:
        warnings.simplefilter("ignore")
        s = Spy(relative_tol=tol) if rng.random() < 0.8 else Spy()
        if rng.random() < 0.1:
            tol = s.relative_tol
        s.solve(**p, adjoint=adj)
    tol = s.relative_tol
    ck.event("iterative")
    A, b, x = seen[0]
    ck.key(shape, p["omega"], tol)
    if err.n == 0:
        ck.event("converged")
        res = np.linalg.norm(A @ x - b) / np.linalg.norm(b)
        # The recursions of BiCG and QMR may drift; that is not the concern
        # of this library, so the same recursion is the reference.
        ref = scipy.sparse.linalg.qmr if cls.__name__ == "QmrSolver" else (
            scipy.sparse.linalg.bicg)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            y, _ = ref(A, b, tol=tol, atol=0)
        drift = np.linalg.norm(A @ y - b) / np.linalg.norm(b)
        ck.expect(res <= 2 * max(tol, drift) + 1e-9,
                  "unreported-large-residual",
                  {"solver": cls.__name__, "tol": tol, "residual": res,
                   "norm_b": float(np.linalg.norm(b))})
    # On a diagonal system of any scale the methods must converge.
    n = int(rng.integers(2, 30))
    A = scipy.sparse.diags(rng.uniform(1, 5, n) + 1j).tocsr()
    b = em.cplx(rng, (n,)) * 10.0**rng.uniform(-8, 8)
    with warnings.catch_warnings(), _errors() as err:
        warnings.simplefilter("ignore")
        x = cls(relative_tol=1e-6).solve_matrix_equation(A, b)
    ck.expect(err.n == 0, "no-convergence-on-a-diagonal-system")
    ck.close(x, b / A.diagonal(), "diagonal-system", rtol=1e-5, atol=0)
    # A system without a solution is reported.
    n = int(rng.integers(4, 20))
    M = em.cplx(rng, (n, n))
    M[-1] = M[0]
    b = em.cplx(rng, (n,))
    with warnings.catch_warnings(), _errors() as err:
        warnings.simplefilter("ignore")
        x = cls(relative_tol=tol).solve_matrix_equation(
            scipy.sparse.csr_matrix(M), b)
    ck.event("unsolvable")
    ck.expect(err.n > 0, "failure-not-reported",
              {"solver": cls.__name__, "n": n})


@family(quick=60, thorough=600)
def generic(ck, rng):
    shape, p = _problem(ck, rng, 5, bloch=False)
    p["dxes"] = grid.apply_scpml(p["dxes"], p.pop("pml_layers", None),
                                 p["omega"])
    if not _well_posed(shape, p):
        return
    q = _copy(p)
    E = solvers.generic(**p, matrix_solver=scipy.sparse.linalg.spsolve)
    _unchanged(ck, p, q)
    ck.event("generic")
    ck.key(shape, p["omega"])
    _residual(ck, shape, p, E, "generic-solve")
    for adj in [False, True]:
        ck.close(
            solvers.generic(**p, matrix_solver=scipy.sparse.linalg.spsolve,
                            adjoint=adj),
            local_matrix_solvers.DirectSolver().solve(**p, adjoint=adj),
            "generic-equals-direct", rtol=1e-6, detail={"adjoint": adj})
    # The default solver with and without a callback.
    p["epsilon"] = p["epsilon"] - 3j
    calls = []
    opts = {"atol": 0, "tol": 1e-8}
    if rng.random() < 0.5:
        opts["callback"] = lambda xk: calls.append(1)
        ck.event("callback")
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        x = solvers.generic(**p, matrix_solver_opts=opts)
    if "callback" in opts:
        ck.expect(len(calls) > 0, "callback-not-called")
    ck.expect(np.all(np.isfinite(x)), "generic-qmr-not-finite")


@family(quick=4, thorough=16)
def pool(ck, rng):
    """The pooled solver returns what the wrapped solver returns."""
    import multiprocessing
    multiprocessing.current_process()._config["daemon"] = False
    s = local_matrix_solvers.MultiprocessingSolver(
        local_matrix_solvers.DirectSolver(), num_processes=2)
    try:
        for _ in range(4):
            shape, p = _problem(ck, rng, 5)
            if not _well_posed(shape, p):
                continue
            adj = bool(rng.random() < 0.5)
            ck.close(
                s.solve(**p, adjoint=adj),
                local_matrix_solvers.DirectSolver().solve(**p, adjoint=adj),
                "pool-equals-direct", rtol=1e-8)
            ck.event("pool")
            ck.key(shape, p["omega"])
    finally:
        s.pool.terminate()
        s.pool.join()


@family(quick=20, thorough=200)
def radiation(ck, rng):
    """An absorbing boundary makes the field independent of the box size."""
    nd = int(rng.integers(1, 3))
    dx = rng.uniform(20, 50)
    wl = dx * rng.uniform(15, 25)
    eps = rng.uniform(1, 4)
    comp = 2
    fields = []
    core = 13
    for extra in [0, int(rng.integers(3, 8))]:
        pml = 12
        n = core + 2 * (pml + extra)
        shape = [n if a < nd else 1 for a in range(3)]
        d = [np.full(m, dx) for m in shape]
        J = [np.zeros(shape, complex) for _ in range(3)]
        c = tuple(m // 2 for m in shape)
        J[comp][c] = 1
        lay = [pml if a // 2 < nd else 0 for a in range(6)]
        E = local_matrix_solvers.DirectSolver().solve(
            omega=2 * np.pi / wl, dxes=[d, [x.copy() for x in d]], J=v(J),
            epsilon=np.full(3 * int(np.prod(shape)), eps, complex),
            pml_layers=lay)
        E = fdfd_tools.unvec(E, shape)[comp]
        sl = tuple(slice(m // 2 - core // 2, m // 2 + core // 2 + 1)
                   if a < nd else slice(None) for a, m in enumerate(shape))
        fields.append(E[sl])
    ck.event("radiation")
    ck.key(nd, dx, wl, eps)
    ck.close(fields[0], fields[1], "reflection-from-pml", rtol=0.02,
             detail={"nd": nd, "wl/dx": wl / dx, "eps": eps})
    if nd == 1:
        # Outgoing plane wave with the discrete dispersion relation.
        k = 2 * np.arcsin(np.pi * np.sqrt(eps) * dx / wl) / dx
        i = np.arange(core) - core // 2
        want = fields[0][core // 2] * np.exp(-1j * k * np.abs(i) * dx)
        ck.close(fields[0].ravel(), want.ravel(), "outgoing-wave", rtol=0.02,
                 detail={"wl/dx": wl / dx, "eps": eps})
        # The source supplies positive power.
        ck.expect(np.real(fields[0][core // 2]).max() < 0,
                  "source-absorbs-power")


@family(quick=60, thorough=600)
def refusals(ck, rng):
    """Unsupported boundary conditions are refused instead of ignored."""
    shape, p = _problem(ck, rng, 4)
    s = local_matrix_solvers.DirectSolver()
    sym = np.zeros(3)
    sym[int(rng.integers(3))] = int(rng.integers(1, 3))
    pemc = np.zeros(6)
    pemc[int(rng.integers(6))] = int(rng.integers(1, 3))
    ck.event("refused", 2)
    ck.key(sym, pemc)
    ck.raises(NotImplementedError, lambda: s.solve(**p, symmetry=sym),
              "symmetry-ignored")
    ck.raises(NotImplementedError, lambda: s.solve(**p, pemc=pemc),
              "pemc-ignored")
    if _well_posed(shape, p):
        ck.close(s.solve(**p, symmetry=np.zeros(3), pemc=np.zeros(6)),
                 s.solve(**p), "zero-symmetry")


@family(quick=40, thorough=400)
def crystal_modes(ck, rng):
    """Photonic crystal modes are eigenmodes next to the requested omega."""
    shape = [int(rng.integers(2, 5)) for _ in range(3)]
    if rng.random() < 0.5:
        shape[int(rng.integers(3))] = 1
    if np.prod(shape) < 8:
        return
    e = [rng.uniform(0.7, 1.4, n) for n in shape]
    h = [(d + np.roll(d, 1)) / 2 for d in e]
    if rng.random() < 0.5:
        e = [np.full(n, rng.uniform(0.7, 1.4)) for n in shape]
        h = [d.copy() for d in e]
    dxes = [e, h]
    k = rng.uniform(-1, 1, 3)
    eps = np.array([rng.uniform(1, 6, shape) for _ in range(3)])
    op = ["efield", "hfield"][int(rng.integers(2))]
    nm = int(rng.integers(1, 4))
    w0 = rng.uniform(0.8, 1.6)
    init = bool(rng.random() < 0.3)
    try:
        omega, modes = phc_mode_solver.mode_solver(
            k, w0, nm, dxes, eps, op, init)
    except scipy.sparse.linalg.ArpackNoConvergence:
        return
    ck.event("modes")
    if nm > 1:
        ck.event("multiple_modes")
    ck.key(shape, k, op, nm)
    modes = np.asarray(modes)
    ck.expect(modes.shape == (nm, eps.size) and np.shape(omega) == (nm,),
              "mode-shape", {"shape": modes.shape, "op": op})
    no = np.zeros((3, 3))
    ce = lambda f: em.curl(f, e, True, em.phase(e, k, no), no)
    ch = lambda f: em.curl(f, h, False, em.phase(h, k, no), no)

    def apply(x):
        f = fdfd_tools.unvec(x, shape)
        if op == "efield":
            return v([a / b for a, b in zip(ch(ce(f)), eps)])
        return v(ce([a / b for a, b in zip(ch(f), eps)]))

    for w, x in zip(omega, modes):
        x = x / np.max(np.abs(x))
        ck.close(apply(x), w**2 * x, "eigenmode", rtol=1e-5,
                 scale=5, detail={"op": op, "omega": w, "shape": shape})
    M = np.array([apply(x) for x in np.eye(eps.size)]).T
    ev = np.linalg.eigvals(M)
    want = np.sort(np.abs(ev - w0**2))[:nm]
    ck.close(np.sort(np.abs(np.asarray(omega)**2 - w0**2)), want,
             "modes-nearest-to-omega", rtol=1e-4, scale=1)
