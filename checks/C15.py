"""C15: the remote solver returns the local solution despite network faults."""
import os
import tempfile
import threading

import numpy as np

from vlib.core import family
from vlib import em
from vlib.maxserver import Fast as _Fast, Server, solve_uploaded
from spins import fdfd_tools
from spins.fdfd_solvers import local_matrix_solvers, maxwell

RULE = ("a stand-in Maxwell server on the loopback interface stores the "
        "uploads, solves the uploaded problem and serves the field, while "
        "dropping random connections (before or after storing), delaying the "
        "result and serving several clients at once; every solve is compared "
        "with the local direct solver and the server checks the order of the "
        "requests; distinct by problem and fault schedule")
REQUIRED_EVENTS = ["solves", "adjoint", "bloch", "pml", "mu", "faults",
                   "upload_faults", "download_faults", "poll_faults",
                   "concurrent", "symmetry", "requests", "polls",
                   "symmetric_adjoint", "modes", "solver_info", "cut_replies",
                   "complex_omega", "complex_mu", "initial_field",
                   "large_files", "bloch_solver"]

v = fdfd_tools.vec


def _problem(ck, rng):
    shape = [int(rng.integers(2, 6)) for _ in range(3)]
    e = [rng.uniform(0.5, 2, n) for n in shape]
    h = [(d + np.roll(d, 1)) / 2 for d in e]
    p = {"omega": rng.uniform(0.4, 2.5), "dxes": [e, h]}
    p["epsilon"] = v([rng.uniform(1, 12, shape) - 1j * rng.uniform(
        0.2, 1, shape) for _ in range(3)])
    if rng.random() < 0.3:
        p["epsilon"] = np.real(p["epsilon"]) + 0
    p["J"] = v([em.cplx(rng, shape) for _ in range(3)])
    if rng.random() < 0.4:
        p["mu"] = v([rng.uniform(0.5, 3, shape) for _ in range(3)])
        ck.event("mu")
        if rng.random() < 0.5:
            p["mu"] = p["mu"] - 1j * rng.uniform(0, 1, p["mu"].size)
            ck.event("complex_mu")
    if rng.random() < 0.25:
        p["omega"] = p["omega"] * (1 + 1j * rng.uniform(-0.2, 0.2))
        ck.event("complex_omega")
    if rng.random() < 0.5:
        p["pml_layers"] = [int(rng.integers(0, n // 2 + 1)) for n in shape
                           for _ in range(2)]
        ck.event("pml")
    if rng.random() < 0.3 and "pml_layers" not in p:
        L = np.array([np.sum(d) for d in e])
        p["bloch_vec"] = rng.uniform(-3, 3, 3) / L
        ck.event("bloch")
    return shape, p


def _well_posed(shape, p, ref):
    J2 = np.max(np.abs(ref)) if np.all(np.isfinite(ref)) else np.inf
    return J2 < 1e4


def _collect(ck, srv):
    with srv.lock:
        for k, n in srv.events.items():
            ck.event(k, n)
        ck.expect(not srv.violations, "protocol", srv.violations[:3])


def _tmp_files():
    d = tempfile.gettempdir()
    return {f for f in os.listdir(d)}


def _one(ck, rng, srv, shape, p, adjoint, opts, args, info):
    q = {k: (np.array(x) if k != "dxes" else [[np.array(d) for d in g]
                                              for g in x])
         for k, x in p.items()}
    kw = {}
    if args:
        kw = {"E0": em.cplx(rng, p["epsilon"].size), "symmetry": np.zeros(3),
              "pemc": np.zeros(6)}
    if info:
        kw["solver_info"] = True
    got = maxwell.MaxwellSolver(shape, srv.addr, **opts).solve(
        **p, adjoint=adjoint, **kw)
    if srv.problems:
        u = srv.problems[0]
        if args:
            ck.event("initial_field")
            ck.close(v(u["E0"]), kw["E0"], "uploaded-initial-field")
        if np.any(p.get("bloch_vec", 0)):
            # The conjugate gradient method cannot solve such problems.
            ck.event("bloch_solver")
            ck.expect(u["solver"] != 0, "solver-for-bloch-boundaries")
    if info:
        ck.event("solver_info")
        got, duration, err = got
        ck.close(duration, 1.5, "solve-time")
        ck.close(err, [0.5, 0.25, 1e-6], "residuals")
    for k in p:
        same = all(np.array_equal(a, b) for g, f in zip(p[k], q[k])
                   for a, b in zip(g, f)) if k == "dxes" else np.array_equal(
                       p[k], q[k])
        ck.expect(same, "remote-solve-changes-its-input", {"argument": k})
    return got


@family(quick=150, thorough=1000)
def solves(ck, rng):
    shape, p = _problem(ck, rng)
    adjoint = bool(rng.random() < 0.5)
    ref = local_matrix_solvers.DirectSolver().solve(**p, adjoint=adjoint)
    if not _well_posed(shape, p, ref):
        return
    pf = [0.0, 0.1, 0.3][int(rng.integers(3))]
    srv = Server(np.random.default_rng(int(rng.integers(2**31))),
                 solve_uploaded, pf)
    opts = {}
    if rng.random() < 0.3:
        opts = {"err_thresh": 10.0**-int(rng.integers(3, 9)),
                "max_iters": int(rng.integers(10, 10000))}
    tmp = tempfile.mkdtemp(prefix="verif-c15-")
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        with _Fast():
            got = _one(ck, rng, srv, shape, p, adjoint, opts,
                       rng.random() < 0.3, rng.random() < 0.2)
        ck.expect(os.listdir(tmp) == [], "temporary-files-left-behind",
                  os.listdir(tmp)[:5])
    finally:
        tempfile.tempdir = old
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
        srv.close()
        _collect(ck, srv)
    ck.event("solves")
    if adjoint:
        ck.event("adjoint")
    ck.key(shape, p["omega"], pf, adjoint)
    ck.sample({"shape": shape, "faults": pf, "adjoint": adjoint})
    ck.close(got, ref, "remote-equals-local", rtol=1e-6, detail={
        "adjoint": adjoint, "pml": p.get("pml_layers"), "faults": pf,
        "bloch": p.get("bloch_vec"), "shape": shape})
    if srv.problems and opts:
        u = srv.problems[0]
        ck.expect(u["max_iters"] == opts["max_iters"] and abs(
            u["err_thresh"] - opts["err_thresh"]) < 1e-15, "solver-options")


@family(quick=3, thorough=20)
def large(ck, rng):
    """Long (one dimensional) problems make files of several megabytes."""
    n = int(rng.integers(150000, 400000))
    shape = [1, 1, 1]
    axis = int(rng.integers(3))
    shape[axis] = n
    d = [np.full(m, 1.0) for m in shape]
    J = [np.zeros(shape, complex) for _ in range(3)]
    for _ in range(20):
        J[int(rng.integers(3))].ravel()[int(rng.integers(n))] = rng.normal()
    p = {"omega": 0.6, "dxes": [d, d], "J": v(J),
         "epsilon": v([rng.uniform(1, 5, shape) - 0.1j for _ in range(3)])}
    ref = local_matrix_solvers.DirectSolver().solve(**p)
    srv = Server(np.random.default_rng(int(rng.integers(2**31))),
                 solve_uploaded, 0.4)
    try:
        with _Fast():
            got = maxwell.MaxwellSolver(shape, srv.addr).solve(**p)
    finally:
        srv.close()
        _collect(ck, srv)
    ck.event("large_files")
    ck.key(shape)
    ck.close(got, ref, "large-problem", rtol=1e-6)


@family(quick=24, thorough=150)
def concurrent(ck, rng):
    """Simultaneous solves on one server do not mix."""
    srv = Server(np.random.default_rng(int(rng.integers(2**31))),
                 solve_uploaded, [0.0, 0.1][int(rng.integers(2))], (0, 6))
    jobs = []
    while len(jobs) < 6:
        shape, p = _problem(ck, rng)
        if jobs and rng.random() < 0.7:
            # Same shape as another job, so that mixing goes unnoticed.
            shape = jobs[0][0]
            p = dict(jobs[0][1], J=v([em.cplx(rng, shape) for _ in range(3)]))
        adj = bool(rng.random() < 0.5)
        ref = local_matrix_solvers.DirectSolver().solve(**p, adjoint=adj)
        if _well_posed(shape, p, ref):
            jobs.append((shape, p, adj, ref))
    out = [None] * len(jobs)
    errs = []
    shared = {}

    def work(i):
        shape, p, adj, _ = jobs[i]
        try:
            key = tuple(shape)
            s = shared.setdefault(key,
                                  maxwell.MaxwellSolver(shape, srv.addr))
            out[i] = s.solve(**p, adjoint=adj)
        except Exception as exc:
            errs.append(repr(exc))

    try:
        with _Fast():
            ts = [threading.Thread(target=work, args=(i,))
                  for i in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        srv.close()
        _collect(ck, srv)
    ck.expect(not errs, "concurrent-solve-failed", errs[:2])
    ck.event("concurrent", len(jobs))
    for (shape, p, adj, ref), got in zip(jobs, out):
        ck.key(shape, p["omega"], adj)
        if got is not None:
            ck.close(got, ref, "concurrent-solves-mixed", rtol=1e-6,
                     detail={"shape": shape, "adjoint": adj})


@family(quick=100, thorough=600)
def symmetry(ck, rng):
    """Half of a mirror-symmetric problem is solved and mirrored back."""
    shape = [2 * int(rng.integers(1, 4)) for _ in range(3)]
    sym = [int(rng.integers(0, 3)) for _ in range(3)]
    if not any(sym):
        sym[int(rng.integers(3))] = int(rng.integers(1, 3))
    F = [em.cplx(rng, shape) for _ in range(3)]
    known = [np.ones(shape, bool) for _ in range(3)]
    for a in range(3):
        if not sym[a]:
            continue
        n = shape[a]
        odd_t = sym[a] == 1  # tangential components change sign
        for c in range(3):
            f = np.moveaxis(F[c], a, 0)
            if c == a:
                sign = 1 if odd_t else -1
                f[:n // 2] = sign * f[n // 2:][::-1]
            else:
                sign = -1 if odd_t else 1
                f[1:n // 2] = sign * f[n // 2 + 1:][::-1]
                f[0] = 0
                np.moveaxis(known[c], a, 0)[0] = odd_t
    half = tuple(slice(n // 2, n) if s else slice(None)
                 for n, s in zip(shape, sym))
    e = [rng.uniform(0.5, 2, n) for n in shape]
    for a in range(3):
        if sym[a]:
            n = shape[a]
            e[a][:n // 2] = e[a][n // 2:][::-1]
    h = [(d + np.roll(d, 1)) / 2 for d in e]
    adjoint = bool(rng.random() < 0.4)
    g = lambda x, y, z: x[:, None, None] * y[None, :, None] * z
    # Adjoint fields are returned multiplied by the (real) cell volumes.
    vol = [g(e[0], h[1], h[2]), g(h[0], e[1], h[2]), g(h[0], h[1], e[2])]
    got_problem = []

    def solve(server, p):
        got_problem.append(p)
        E = [f[half] / (w[half] if adjoint else 1) for f, w in zip(F, vol)]
        return {"E_%s%s" % (c, q): fn(E[i]) for i, c in enumerate("xyz")
                for q, fn in [("r", np.real), ("i", np.imag)]}

    srv = Server(np.random.default_rng(int(rng.integers(2**31))), solve)
    eps = [rng.uniform(1, 12, shape) for _ in range(3)]
    pemc = np.zeros(6)
    J = [em.cplx(rng, shape) for _ in range(3)]
    kw = {"pemc": pemc} if rng.random() < 0.5 else {}
    try:
        with _Fast():
            got = maxwell.MaxwellSolver(shape, srv.addr).solve(
                1.0, [e, h], v(J), v(eps), symmetry=np.array(sym),
                adjoint=adjoint, **kw)
    finally:
        srv.close()
        _collect(ck, srv)
    ck.event("symmetry")
    if adjoint:
        ck.event("symmetric_adjoint")
    ck.key(shape, sym, adjoint)
    ck.expect(not np.any(pemc), "remote-solve-changes-its-input",
              {"argument": "pemc", "value": pemc})
    got = fdfd_tools.unvec(got, shape)
    for c in range(3):
        ck.close(np.where(known[c], got[c], 0), np.where(known[c], F[c], 0),
                 "mirrored-field", rtol=1e-9,
                 detail={"component": c, "symmetry": sym, "shape": shape})
    u = got_problem[0]
    for c in range(3):
        ck.close(u["epsilon"][c], eps[c][half] + 0j, "uploaded-epsilon")
        if not adjoint:
            ck.close(u["J"][c], J[c][half], "uploaded-current")
    want = [s for s in sym for _ in range(2)]
    ck.expect(list(u["pemc"]) == want, "uploaded-boundaries",
              {"got": u["pemc"], "want": want})
    for i in range(3):
        ck.close(u["dxes"][0][i], e[i][half[i]] + 0j, "uploaded-grid")


@family(quick=20, thorough=100)
def modes(ck, rng):
    """Eigenmode requests return all the requested modes in order."""
    shape = [int(rng.integers(2, 5)) for _ in range(3)]
    n = int(rng.integers(1, 4)) if rng.random() < 0.7 else int(
        rng.integers(9, 14))
    Q = [[em.cplx(rng, shape) for _ in range(3)] for _ in range(n)]
    q = em.cplx(rng, (n,))
    seen = []

    def solve(server, p):
        seen.append(p)
        out = {"qr": np.real(q), "qi": np.imag(q)}
        for i in range(n):
            for c, name in enumerate("xyz"):
                out["Q%d_%sr" % (i, name)] = np.real(Q[i][c])
                out["Q%d_%si" % (i, name)] = np.imag(Q[i][c])
        return out

    srv = Server(np.random.default_rng(int(rng.integers(2**31))), solve, 0.1)
    d = [np.ones(m) for m in shape]
    try:
        with _Fast():
            E, w = maxwell.MaxwellSolver(
                shape, srv.addr, solver="Jacobi-Davidson").solve(
                    1.0, [d, d], v(Q[0]), np.ones(3 * int(np.prod(shape))),
                    n_eig=n)
    finally:
        srv.close()
        _collect(ck, srv)
    ck.event("modes")
    ck.key(shape, n)
    ck.expect(seen[0]["n_eig"] == n, "number-of-modes")
    ck.close(np.array(w)**2, q, "mode-eigenvalues")
    ck.expect(len(E) == n, "number-of-modes")
    for got, want in zip(E, Q):
        ck.close(got, v(want), "mode-fields")
