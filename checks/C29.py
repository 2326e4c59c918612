"""C29: electromagnetic objectives of the problem layer and far fields."""
import logging
import threading

import numpy as np
import scipy.sparse

from vlib.core import family
from vlib import em
from spins import fdfd_tools, gridlock
from spins.fdfd_solvers import local_matrix_solvers, waveguide_mode
from spins.fdfd_tools import grid as fgrid
from spins.fdfd_tools import operators
from spins.invdes import parametrization
from spins.invdes import problem
from spins.invdes.problem import emobjective, farfield, ffobjective

RULE = ("random small simulations (non-uniform grids, PML, Bloch vectors, "
        "loss, permeability, selection matrices), overlap objectives and "
        "far-field objectives; values are compared with explicit formulas "
        "and the wave equation, gradients with finite differences, caches "
        "with a model over random histories and threads, far fields with "
        "those of analytic dipoles; distinct by set-up")
REQUIRED_EVENTS = ["overlap", "basic", "phase", "gradients", "pml", "bloch",
                   "mu", "loss", "odd_power", "several_modes", "nonlinear",
                   "wgmode", "histories", "inplace", "cache_hits",
                   "evictions", "threads", "adjoint_cache", "dipoles",
                   "spherical_axes", "planes", "selections", "half_turn",
                   "sphere", "half_sphere", "transforms", "directed",
                   "scatter", "background", "radiated", "complex_omega",
                   "complex_mu", "complex_design", "structure_terms",
                   "tiny_changes", "requests", "far_gradients"]

logging.getLogger("spins").setLevel(logging.ERROR)
vec, unvec = fdfd_tools.vec, fdfd_tools.unvec


class Quadratic(parametrization.Parametrization):
    """z = A p + B p^2"""

    def __init__(self, A, B, p):
        self.A, self.B, self.p = A, B, np.array(p, float)

    def get_structure(self):
        return self.A @ self.p + self.B @ self.p**2

    def calculate_gradient(self):
        return scipy.sparse.csr_matrix(self.A + self.B * (2 * self.p))

    def encode(self):
        return self.p

    def decode(self, p):
        self.p = np.array(p, float)

    def project(self):
        pass

    def get_param(self):
        return self.p


def _simulation(ck, rng, cache=None):
    for _ in range(40):
        shape = [int(rng.integers(1, 5)) for _ in range(3)]
        n = 3 * int(np.prod(shape))
        if n > 130 or n < 9:
            continue
        e = [rng.uniform(0.5, 2, m) for m in shape]
        h = [(d + np.roll(d, 1)) / 2 for d in e]
        omega = float(rng.uniform(0.4, 2.5))
        if rng.random() < 0.3:
            omega = omega * (1 + 1j * float(rng.uniform(-0.2, 0.2)))
            ck.event("complex_omega")
        pml = bool(rng.random() < 0.5)
        dxes = [e, h]
        if pml:
            lay = [int(rng.integers(0, m // 2 + 1)) for m in shape
                   for _ in range(2)]
            pml = bool(np.any(lay))
            dxes = fgrid.apply_scpml(dxes, lay, omega)
        eps = [rng.uniform(1, 8, shape) for _ in range(3)]
        loss = bool(rng.random() < 0.4)
        if loss:
            eps = [a - 1j * rng.uniform(0, 1, shape) for a in eps]
        mu = None
        if rng.random() < 0.4:
            mu = [rng.uniform(0.6, 2, shape) for _ in range(3)]
            if rng.random() < 0.5:
                mu = [a - 1j * rng.uniform(0, 0.5, shape) for a in mu]
                ck.event("complex_mu")
        k = rng.uniform(-1, 1, 3) if rng.random() < 0.4 else None
        if k is not None and pml:
            # Bloch boundaries do not apply to axes that end in a PML.
            k[[bool(lay[2 * a] + lay[2 * a + 1]) for a in range(3)]] = 0
        m = int(rng.integers(1, 7))
        S = scipy.sparse.random(n, m, 0.5, random_state=int(
            rng.integers(2**31)), format="csr")
        if rng.random() < 0.3:
            S = S * complex(1, rng.uniform(-0.5, 0.5))
            ck.event("complex_design")
        if rng.random() < 0.3:
            S = S.toarray()
        A = operators.e_full(
            omega, dxes, vec(eps), None if mu is None else vec(mu),
            bloch_vec=np.zeros(3) if k is None else k).toarray()
        if np.linalg.cond(A) > 1e5:
            continue
        J = [em.cplx(rng, shape) for _ in range(3)]
        for name, on in (("pml", pml), ("loss", loss), ("bloch", k is not
                         None), ("mu", mu is not None)):
            if on:
                ck.event(name)
        if k is None and rng.random() < 0.5:
            kw = {}
        else:
            kw = {"bloch_vec": k}
        if cache is None:
            cache = int(rng.integers(1, 4))
        sim = problem.FdfdSimulation(
            local_matrix_solvers.DirectSolver(), shape, omega, dxes, J, S,
            eps, mu, cache_size=cache, **kw)
        info = {"shape": shape, "omega": omega, "dxes": dxes, "eps": eps,
                "mu": mu, "k": np.zeros(3) if k is None else k, "S": S,
                "J": J, "m": m, "n": n, "pml": pml}
        ck.key(shape, omega, pml, loss, mu is not None, k is not None)
        return sim, info
    return None, None


def _residual(ck, q, z, x):
    """The field satisfies the wave equation of base + S z."""
    no = np.zeros((3, 3))
    d, h = q["dxes"]
    E = unvec(x, q["shape"])
    eps = unvec(vec(q["eps"]) + np.asarray(q["S"] @ z).ravel(), q["shape"])
    b = em.curl(E, d, True, em.phase(d, q["k"], no), no)
    if q["mu"] is not None:
        b = [a / m for a, m in zip(b, q["mu"])]
    c = em.curl(b, h, False, em.phase(h, q["k"], no), no)
    got = vec([cc - q["omega"]**2 * ee * x for cc, ee, x in zip(c, eps, E)])
    want = -1j * q["omega"] * vec(q["J"])
    ck.close(got, want, "field-solves-wave-equation", rtol=1e-7,
             scale=np.max(np.abs(want)) + 20 * np.max(np.abs(x)),
             detail={"shape": q["shape"], "bloch": q["k"]})


def _param(ck, rng, m):
    if rng.random() < 0.4:
        r = int(rng.integers(1, 5))
        A, B = rng.normal(size=(m, r)), rng.normal(size=(m, r)) * 0.3
        ck.event("nonlinear")
        return lambda p: Quadratic(A, B, p), rng.uniform(0.2, 0.8, r)
    return (lambda p: parametrization.DirectParam(np.array(p), bounds=[-9, 9]),
            rng.uniform(0.1, 0.9, m))


def _fd(f, p, d, h):
    return (8 * (f(p + h * d) - f(p - h * d)) -
            (f(p + 2 * h * d) - f(p - 2 * h * d))) / (12 * h)


def _gradient(ck, rng, objective, make, p, name):
    f = lambda p: float(objective.calculate_objective_function(make(p)))
    g = np.asarray(objective.calculate_gradient(make(p)))
    ck.expect(g.shape == p.shape, "gradient-shape", {"got": g.shape})
    ck.expect(np.isrealobj(g) or np.all(np.abs(g.imag) <= 1e-9 *
              (1e-12 + np.max(np.abs(g)))), "gradient-is-real")
    for _ in range(2):
        d = rng.normal(size=p.shape)
        d /= np.linalg.norm(d)
        want, other = _fd(f, p, d, 1e-4), _fd(f, p, d, 3e-4)
        scale = np.abs(f(p)) + np.linalg.norm(g) + np.abs(want)
        if abs(want - other) > 1e-6 * scale:
            continue  # Not smooth enough for finite differences.
        ck.event("gradients")
        ck.close(g.real @ d, want, name + "-gradient", rtol=2e-5, scale=scale,
                 detail={"value": f(p)})


@family(quick=80, thorough=600, timeout=240)
def overlaps(ck, rng):
    sim, q = _simulation(ck, rng)
    if sim is None:
        return
    make, p = _param(ck, rng, q["m"])
    z = make(p).get_structure()
    x = np.array(sim.simulate(z))
    _residual(ck, q, z, x)
    scale = float(np.max(np.abs(x)))
    new = lambda: [em.cplx(rng, q["shape"]) / scale for _ in range(3)]
    kind = int(rng.integers(3))
    T = emobjective.OverlapMode.ModeType.arbitrary
    if kind == 0:
        ov = new()
        out = {"type": T, "overlap": ov}
        t = 0
        if rng.random() < 0.7:
            t = complex(*rng.normal(size=2))
            out["transmission"] = t
        obj = emobjective.Overlap(out, sim)
        c = np.array([vec(ov) @ x])
        want = abs(c[0] - t)
        ck.event("overlap")
    elif kind == 1:
        num = int(rng.integers(1, 4))
        ovs = [new() for _ in range(num)]
        c = np.array([vec(o) @ x for o in ovs])
        power = int(rng.choice([1, 2, 2, 3, 4]))
        outs, want = [], 0.0
        for i, o in enumerate(ovs):
            a = abs(c[i])**2
            r = sorted(a * rng.uniform(0.3, 2, 2))
            if rng.random() < 0.3:
                r = sorted([a * 1.3, a * rng.uniform(1.5, 3)])
            pw = list(r) if rng.random() < 0.8 else r[::-1]
            if rng.random() < 0.2:
                pw = [r[1]] * 2
                r = pw
            outs.append({"type": T, "overlap": o, "power": pw})
            lo, hi, y = np.sqrt(r[0]), np.sqrt(r[1]), abs(c[i])
            want += max(lo - y, y - hi, 0)**power
        obj = emobjective.BasicOverlapObjective(outs, sim, power=power)
        ck.event("basic")
        if power % 2:
            ck.event("odd_power")
        if num > 1:
            ck.event("several_modes")
    else:
        num = int(rng.integers(1, 4))
        ovs = [new() for _ in range(num)]
        ts = [complex(*rng.normal(size=2)) for _ in range(num)]
        c = np.array([np.conj(vec(o)) @ x for o in ovs])
        obj = emobjective.PhaseOverlapObjective(
            [{"type": T, "overlap": o, "transmission": t}
             for o, t in zip(ovs, ts)], sim)
        want = np.sum(np.abs(c - ts)**2)
        ck.event("phase")
    ck.close(obj.calculate_objective_function(make(p)), want,
             "overlap-value", rtol=1e-9, scale=1e-9 + abs(want) + 1)
    ck.close(np.ravel(obj.get_overlap_norm2(make(p))), np.abs(c)**2,
             "overlap-norm", rtol=1e-9, scale=1)
    ck.close(np.exp(1j * np.ravel(obj.get_phase(make(p)))), c / np.abs(c),
             "overlap-phase", rtol=1e-7, scale=1)
    E = obj.get_electric_fields(make(p))
    for a in range(3):
        ck.close(E[a], unvec(x, q["shape"])[a], "electric-fields", rtol=1e-12,
                 scale=scale)
    _gradient(ck, rng, obj, make, p, type(obj).__name__)
    if rng.random() < 0.4:
        # An objective that also depends on the structure itself.
        w = rng.normal(size=q["m"])

        class Both(type(obj)):

            def calculate_f(self, x, z):
                return super().calculate_f(x, z) + np.sum(w * z**2)

            def calculate_partial_df_dz(self, x, z):
                return 2 * w * z

        obj.__class__ = Both
        ck.event("structure_terms")
        ck.close(obj.calculate_objective_function(make(p)), want +
                 np.sum(w * z**2), "value-with-structure", rtol=1e-9,
                 scale=1 + abs(want) + np.sum(np.abs(w) * z**2))
        _gradient(ck, rng, obj, make, p, "structure-and-field")
    ck.sample({"objective": type(obj).__name__, "shape": q["shape"],
               "omega": q["omega"], "value": float(want)})


@family(quick=6, thorough=40, timeout=240)
def waveguides(ck, rng):
    """Objectives of waveguide modes are those of the mode's overlap."""
    shape = [int(rng.integers(5, 8)), 12, 12]
    axis = int(rng.integers(3))
    shape = list(np.roll(shape, axis))
    dx = 40.0
    omega = 2 * np.pi / 1550
    dxes = [[np.full(n, dx) for n in shape] for _ in range(2)]
    sl = [slice(4, 8)] * 3
    sl[axis] = slice(0, None)
    eps = []
    for _ in range(3):
        a = np.full(shape, 2.1)
        a[tuple(sl)] = rng.uniform(10, 13)
        eps.append(a)
    mu = None
    if rng.random() < 0.5:
        mu = [np.full(shape, 1.0) for _ in range(3)]
        u = rng.uniform(1.1, 1.5)
        for a in mu:
            a[tuple(sl)] = u
        ck.event("magnetic_waveguides")
    S = scipy.sparse.identity(3 * int(np.prod(shape)), format="csr")
    rec = Recorder()
    field = em.cplx(rng, S.shape[0])
    rec.answer = lambda kw: field
    sim = problem.FdfdSimulation(rec, shape, omega, dxes,
                                 [np.zeros(shape)] * 3, S, eps, mu)
    lo, hi = [0, 0, 0], [n - 1 for n in shape]
    lo[axis] = hi[axis] = int(rng.integers(1, shape[axis] - 2))
    pol = int(rng.choice([-1, 1]))
    num = int(rng.integers(0, 2))
    A = gridlock.Direction(axis)
    out = {"type": emobjective.OverlapMode.ModeType.wgmode, "axis": A,
           "pos": (lo, hi), "polarity": pol, "mode_num": num,
           "power": [5, 7], "transmission": 0.3 + 0.1j}
    args = {"omega": omega, "dxes": dxes, "axis": axis,
            "slices": [slice(a, b + 1) for a, b in zip(lo, hi)],
            "polarity": pol}
    mode = waveguide_mode.solve_waveguide_mode(
        mode_number=num, epsilon=eps, mu=mu, **args)
    mode.update(args)
    ov = vec(waveguide_mode.compute_overlap_e(**mode))
    c = abs(ov @ field)
    z = parametrization.DirectParam(np.zeros(S.shape[0]))
    ck.event("wgmode")
    ck.key(axis, pol, num)
    one = emobjective.Overlap(dict(out, transmission=0), sim)
    ck.close(one.calculate_objective_function(z), c, "mode-overlap",
             rtol=1e-5, scale=c)
    two = emobjective.BasicOverlapObjective([out], sim, power=2)
    want = max(np.sqrt(5) - c, c - np.sqrt(7), 0)**2
    ck.close(two.calculate_objective_function(z), want, "mode-overlap-basic",
             rtol=1e-5, scale=want + c)
    three = emobjective.PhaseOverlapObjective([dict(out, transmission=0)],
                                              sim)
    mode = vec(waveguide_mode.build_overlap(
        mode_num=num, omega=omega, dxes=dxes, axis=axis,
        waveguide_slice=args["slices"], polarity=pol, power=1, eps=eps,
        mu=mu))
    want = abs(mode @ field)**2
    ck.close(three.calculate_objective_function(z), want,
             "mode-overlap-phase", rtol=1e-5, scale=want)


class Recorder:
    """Stands in for a solver; fields depend on everything it is given."""

    def __init__(self, delay=None):
        self.calls = []
        self.lock = threading.Lock()
        self.busy = 0
        self.delay = delay

    def answer(self, kw):
        return (1 + np.asarray(kw["epsilon"])) * (2 - 1j + np.asarray(kw["J"]))

    def solve(self, **kw):
        with self.lock:
            self.calls.append(np.array(kw["epsilon"]))
        if self.delay:
            self.delay.wait(0.002)
        return np.array(self.answer(kw))


def _stub(rng, cache, delay=None):
    shape = [2, 1, 2]
    n = 12
    rec = Recorder(delay)
    dxes = [[np.ones(m) for m in shape] for _ in range(2)]
    S = scipy.sparse.identity(n, format="csr")
    eps = [rng.uniform(1, 2, shape) for _ in range(3)]
    J = [em.cplx(rng, shape) for _ in range(3)]
    sim = problem.FdfdSimulation(rec, shape, 1.0, dxes, J, S, eps,
                                 cache_size=cache)
    want = lambda z: (1 + vec(eps) + z) * (2 - 1j + vec(J))
    adj = lambda z, j: (1 + vec(eps) + z) * (2 - 1j + j)
    return sim, rec, want, adj


@family(quick=60, thorough=600)
def histories(ck, rng):
    """Every answer is that of the structure asked for; LRU caching."""
    cache = int(rng.integers(1, 4))
    sim, rec, want, adj = _stub(rng, cache)
    adjoint = bool(rng.random() < 0.5)
    a = problem.AdjointFdfdSimulation(sim) if hasattr(
        problem, "AdjointFdfdSimulation") else None
    if a is None:
        from spins.invdes.problem import simulation
        a = simulation.AdjointFdfdSimulation(sim)
    pool = [rng.uniform(0, 1, 12) for _ in range(4)]
    js = [em.cplx(rng, 12) for _ in range(2)]
    if rng.random() < 0.5:
        # Structures and sources that are almost the same.
        ck.event("tiny_changes")
        tiny = 10.0**rng.integers(-13, -6)
        pool[1] = pool[0] * (1 + tiny)
        pool[2] = pool[0].copy()
        pool[2][int(rng.integers(12))] += tiny
        js[1] = js[0] * (1 + tiny)
    buf = np.array(pool[0])
    jbuf = np.array(js[0])
    model = []
    ck.event("histories")
    for step in range(25):
        z = pool[int(rng.integers(4))]
        j = js[int(rng.integers(2))]
        if rng.random() < 0.5:
            buf[:] = z
            z = buf
            ck.event("inplace")
        if rng.random() < 0.3:
            jbuf[:] = j
            j = jbuf
        key = (tuple(z), tuple(j) if adjoint else None)
        before = len(rec.calls)
        if adjoint:
            got, w = a.simulate(z, j), adj(z, j)
            ck.event("adjoint_cache")
        else:
            got, w = sim.simulate(z), want(z)
        ck.close(got, w, "field-of-another-structure", rtol=1e-14, scale=1,
                 detail={"step": step, "cache": cache, "adjoint": adjoint})
        solves = len(rec.calls) - before
        if key in model:
            ck.event("cache_hits")
            ck.expect(solves == 0, "solves-again-although-cached",
                      {"step": step, "cache": cache})
            model.remove(key)
        else:
            ck.expect(solves == 1, "number-of-solves",
                      {"solves": solves, "step": step})
            if len(model) == cache:
                model.pop(0)
                ck.event("evictions")
        model.append(key)
    ck.key(cache, adjoint, len(rec.calls))


@family(quick=60, thorough=600)
def requests(ck, rng):
    """The solver is asked for exactly the simulation that was described."""
    shape = [int(rng.integers(1, 4)) for _ in range(3)]
    n = 3 * int(np.prod(shape))
    new = lambda: [em.cplx(rng, shape) for _ in range(3)]
    maybe = lambda v: v if rng.random() < 0.6 else None
    want = {"mu": maybe(new()), "pec": maybe([rng.integers(0, 2, shape)
                                              for _ in range(3)]),
            "pmc": maybe([rng.integers(0, 2, shape) for _ in range(3)]),
            "pemc": maybe(rng.integers(0, 3, 6)),
            "symmetry": maybe(rng.integers(0, 3, 3)),
            "bloch_vec": maybe(rng.normal(size=3))}
    eps, J = new(), new()
    dxes = [[rng.uniform(1, 2, m) for m in shape] for _ in range(2)]
    omega = complex(rng.uniform(1, 2), rng.uniform(-1, 1))
    S = scipy.sparse.identity(n, format="csr")
    seen = []

    class Solver:

        def solve(self, **kw):
            seen.append({a: np.copy(b) if isinstance(b, np.ndarray) else b
                         for a, b in kw.items()})
            return np.zeros(n, complex)

    sim = problem.FdfdSimulation(
        Solver(), shape, omega, dxes, J, S, eps,
        **{a: b for a, b in want.items() if b is not None})
    z = rng.uniform(0, 1, n)
    sim.simulate(z)
    ck.event("requests")
    ck.key(shape, [b is None for b in want.values()])
    kw = seen[0]
    full = dict(want, omega=omega, J=J, epsilon=None)
    for name, v in full.items():
        got = kw.get(name)
        if name == "epsilon":
            w = vec(eps) + z
        elif name in ("mu", "pec", "pmc", "J"):
            w = None if v is None else vec(v)
        elif v is None:
            w = {"pemc": np.zeros(6), "symmetry": np.zeros(3),
                 "bloch_vec": np.zeros(3)}[name]
            if got is None:
                continue  # the solver's default
        else:
            w = v
        same = got is None if w is None else (
            got is not None and np.array_equal(np.asarray(got), w))
        ck.expect(same, "simulation-as-described", {
            "argument": name, "got": str(got)[:80], "want": str(w)[:80]})
    for g in range(2):
        for a in range(3):
            ck.expect(np.array_equal(kw["dxes"][g][a], dxes[g][a]),
                      "simulation-as-described", {"argument": "dxes"})


@family(quick=16, thorough=120)
def threads(ck, rng):
    """Concurrent requests: right answers, one solve per structure."""
    cache = int(rng.integers(1, 5))
    sim, rec, want, adj = _stub(rng, cache, threading.Event())
    run = sim.simulate
    if rng.random() < 0.5:
        from spins.invdes.problem import simulation
        back = simulation.AdjointFdfdSimulation(sim)
        j = em.cplx(rng, 12)
        run = lambda z: back.simulate(z, np.array(j))
        want = lambda z: adj(z, j)
        ck.event("adjoint_threads")
    pool = [rng.uniform(0, 1, 12) for _ in range(int(rng.integers(1, 5)))]
    wrong = []
    start = threading.Barrier(6)

    def work(seed):
        r = np.random.default_rng(seed)
        start.wait()
        for _ in range(12):
            z = pool[int(r.integers(len(pool)))]
            try:
                if not np.allclose(run(np.array(z)), want(z)):
                    wrong.append(seed)
            except Exception as e:
                wrong.append(repr(e))

    ts = [threading.Thread(target=work, args=(int(rng.integers(2**31)),))
          for _ in range(6)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ck.event("threads", 6)
    ck.expect(not wrong, "wrong-field-in-thread", {"threads": wrong})
    if len(pool) <= cache:
        ck.expect(len(rec.calls) <= len(pool), "concurrent-duplicate-solve",
                  {"solves": len(rec.calls), "structures": len(pool)})
    ck.key(cache, len(pool))


# Far fields.
def _dipole(p, r0, X, k):
    """Electric field of the current p delta(r - r0), time exp(i w t)."""
    R = [X[a] - r0[a] for a in range(3)]
    r = np.sqrt(sum(x**2 for x in R))
    n = [x / r for x in R]
    g = np.exp(-1j * k * r) / (4 * np.pi * r)
    a = 1 - 1j / (k * r) - 1 / (k * r)**2
    b = -1 + 3j / (k * r) + 3 / (k * r)**2
    pn = sum(p[i] * n[i] for i in range(3))
    return [-1j * k * g * (p[i] * a + n[i] * pn * b) for i in range(3)]


def _near(rng, box=14, margin=4, ppw=(28, 45), uneven=False):
    """Grid, near field of a few dipoles, and their strengths."""
    lam = float(10**rng.uniform(-1, 3))
    dx = lam / rng.uniform(*ppw, size=3)
    k = 2 * np.pi / lam
    N = [box + 2 * margin] * 3
    mid = rng.uniform(-0.5, 0.5, 3) * lam
    edges = [mid[a] + (np.arange(N[a] + 1) - N[a] / 2) * dx[a]
             for a in range(3)]
    if uneven:
        # Cells get wider along an axis.
        a = int(rng.integers(3))
        f = 1 + rng.choice([-1, 1]) * 0.02 * (np.arange(N[a]) - N[a] / 2)
        edges[a] = np.concatenate([[0], np.cumsum(dx[a] * f)])
        edges[a] += mid[a] - edges[a][N[a] // 2]
    g = gridlock.Grid(edges, num_grids=3, initial=1.0, periodic=True,
                      ext_dir=gridlock.Direction.z)
    src = [(em.cplx(rng, 3), mid + rng.uniform(-1, 1, 3) * dx)
           for _ in range(int(rng.integers(1, 3)))]
    E = []
    for c in range(3):
        pos = [g.xyz[a] if a != c else np.asarray(g.exyz[a])[1:]
               for a in range(3)]
        X = np.meshgrid(*pos, indexing="ij")
        E.append(sum(_dipole(p, r0, X, k)[c] for p, r0 in src))
    dxes = [g.dxyz, g.autoshifted_dxyz()]
    return g, dxes, k, mid, dx, src, E, np.array([box] * 3) * dx


def _unit(points, axis):
    """theta and phi unit vectors about an axis, by geometry."""
    n = points / np.linalg.norm(points, axis=1)[:, None]
    e = np.eye(3)[axis]
    ph = np.cross(e, n)
    norm = np.linalg.norm(ph, axis=1)
    ph[norm > 1e-9] /= norm[norm > 1e-9][:, None]
    return n, np.cross(ph, n), ph, norm > 1e-9


def _far(src, points, k):
    n = points / np.linalg.norm(points, axis=1)[:, None]
    out = 0
    for p, r0 in src:
        amp = -1j * k / (4 * np.pi) * np.exp(-1j * k) * np.exp(
            1j * k * (n @ r0))  # at the distance of one unit
        out = out + amp[:, None] * (p - n * (n @ p)[:, None])
    return out


@family(quick=16, thorough=60, timeout=240)
def far_fields(ck, rng):
    uneven = bool(rng.random() < 0.4)
    g, dxes, k, mid, dx, src, E, size = _near(rng, uneven=uneven)
    if uneven:
        ck.event("uneven_grids")
        e = [np.asarray(x) for x in g.exyz]
        lo, hi = [np.array([e[a][i] for a in range(3)]) for i in (4, 18)]
        mid, size = (lo + hi) / 2, hi - lo
    pts = rng.normal(size=(40, 3))
    pts /= np.linalg.norm(pts, axis=1)[:, None]
    axis = int(rng.integers(3))
    args = dict(points=pts, omegas=k, grid=g, dxes=dxes, eps_0=1,
                spherical_axis=axis)
    T = farfield.make_near2farfield_box_matrix(
        box_center=mid, box_size=size, **args)
    got = np.asarray(T @ vec(E)).reshape(3, -1)
    want = _far(src, pts, k)
    _, th, ph, ok = _unit(pts, axis)
    scale = np.max(np.abs(want))
    d = {"axis": axis, "cells_per_wavelength": 1 / dx, "sources": len(src)}
    ck.close(got[1], np.sum(th * want, axis=1), "far-field-theta", rtol=0.03,
             scale=scale, detail=d)
    ck.close(got[2], np.sum(ph * want, axis=1), "far-field-phi", rtol=0.03,
             scale=scale, detail=d)
    ck.close(got[0], 0 * got[0], "far-field-radial", rtol=1e-9, scale=scale)
    ck.event("dipoles", len(src))
    ck.event("spherical_axes")
    ck.key(axis, len(src), dx)
    # The box is the sum of its six faces, each projected outwards.
    total = 0
    for a in range(3):
        for s in (-1, 1):
            w = size.copy()
            w[a] = 0
            pos = mid.copy()
            pos[a] += s * size[a] / 2
            total = total + farfield.make_near2farfield_matrix(
                pos=pos, width=w, polarity=s, **args) @ vec(E)
    ck.close(np.asarray(total).ravel(), got.ravel(), "box-is-sum-of-faces",
             rtol=1e-9, scale=scale)
    ck.event("planes", 6)
    ck.sample(dict(d, error=float(np.max(np.abs(
        got[1] - np.sum(th * want, axis=1))) / scale)))


@family(quick=20, thorough=300)
def spheres(ck, rng):
    """Triangulations, areas, averages, selections, coordinates."""
    n = int(rng.integers(1, 4)) if rng.random() < 0.8 else 4
    half = int(rng.integers(-1, 2))
    if half:
        P, T = farfield.make_half_sphere_point(n, half)
        ck.event("half_sphere")
        ck.expect(np.all(P[:, 2] * half >= -1e-12), "half-sphere-side")
        total = 2 * np.pi
    else:
        P, T = farfield.make_sphere_point(n)
        ck.event("sphere")
        total = 4 * np.pi
    ck.close(np.linalg.norm(P, axis=1), np.ones(len(P)), "points-on-sphere",
             rtol=1e-12)
    gap = np.linalg.norm(P[:, None] - P[None], axis=2) + 9 * np.eye(len(P))
    ck.expect(np.min(gap) > 1e-6, "duplicate-points", {"n": n})
    ck.expect(len(T) == (4 if half else 8) * 4**n, "number-of-triangles")
    ck.expect(set(np.ravel(T)) == set(range(len(P))), "unused-points")
    a, b, c = P[T[:, 0]], P[T[:, 1]], P[T[:, 2]]
    det = np.abs(np.einsum("ij,ij->i", a, np.cross(b, c)))
    solid = 2 * np.arctan2(det, 1 + np.sum(a * b, 1) + np.sum(b * c, 1) +
                           np.sum(a * c, 1))
    ck.close(np.sum(solid), total, "triangles-cover-sphere", rtol=1e-9)
    area = farfield.triangle_area_vector(P, T)
    la, lb, lc = [np.linalg.norm(u - w, axis=1)
                  for u, w in ((a, b), (b, c), (c, a))]
    s = (la + lb + lc) / 2
    heron = np.sqrt(s * (s - la) * (s - lb) * (s - lc))
    ck.close(area, heron, "triangle-areas", rtol=1e-9)
    val = em.cplx(rng, len(P))
    av = farfield.points2triangles_averaging_matrix(P, T)
    ck.close(av @ val, (val[T[:, 0]] + val[T[:, 1]] + val[T[:, 2]]) / 3,
             "triangle-averages", rtol=1e-12)
    # Selections.
    cen = (a + b + c) / 3
    th = np.arctan2(np.hypot(cen[:, 0], cen[:, 1]), cen[:, 2])
    ph = np.arctan2(cen[:, 1], cen[:, 0])
    for _ in range(8):
        t = np.sort(rng.uniform(0, np.pi, 2))
        if rng.random() < 0.3:
            t = np.array([0, np.pi])
        p0 = rng.uniform(-7, 7)
        wd = rng.uniform(0.05, 2 * np.pi)
        r = rng.random()
        if r < 0.3:
            p0, wd = np.pi / 6 * rng.integers(-12, 12), np.pi
            ck.event("half_turn")
        elif r < 0.5:
            p0, wd = np.pi / 6 * rng.integers(-12, 12), np.pi / 6 * (
                rng.integers(1, 13))
        sel = np.asarray(farfield.triangle_selection_vector(
            P, T, list(t), [p0, p0 + wd]))
        q = np.mod(ph - p0, 2 * np.pi)
        want = (th > t[0]) & (th < t[1]) & (q < wd)
        edge = (np.abs(q) < 1e-9) | (np.abs(q - wd) < 1e-9) | (
            np.abs(q - 2 * np.pi) < 1e-9) | (np.abs(th - t[0]) < 1e-9) | (
                np.abs(th - t[1]) < 1e-9)
        edge &= wd < 2 * np.pi - 1e-9
        ck.event("selections")
        ck.expect(np.array_equal(sel[~edge] != 0, want[~edge]),
                  "selected-triangles", {"theta": t, "phi": [p0, p0 + wd],
                                         "selected": int(np.sum(sel != 0)),
                                         "wanted": int(np.sum(want))})
        w = farfield.area_selection_vector(P, T, list(t), [p0, p0 + wd])
        ck.close(np.asarray(w), area * sel, "selected-areas", rtol=1e-12)
    # Vectors in spherical coordinates.
    axis = int(rng.integers(3))
    pts = rng.normal(size=(12, 3))
    nn, te, pe, _ = _unit(pts, axis)
    F = em.cplx(rng, (12, 3))
    want = np.concatenate([np.sum(u * F, axis=1) for u in (nn, te, pe)])
    got = farfield.cart2spheric_matrix(pts[:, 0], pts[:, 1], pts[:, 2],
                                       axis) @ F.T.ravel()
    ck.close(np.asarray(got).ravel(), want, "spherical-components",
             rtol=1e-9, scale=1)
    r = np.linalg.norm(pts, axis=1)
    roll = np.roll(pts, 2 - axis, axis=1)
    back = farfield.spheric2cart_matrix(
        r, np.arccos(roll[:, 2] / r), np.arctan2(roll[:, 1], roll[:, 0]),
        axis) @ want
    ck.close(np.asarray(back).ravel(), F.T.ravel(), "cartesian-components",
             rtol=1e-9, scale=1)
    other = int(rng.integers(3))
    n2, t2, p2, _ = _unit(pts, other)
    moved = farfield.spheric2spheric_matrix(
        r, np.arccos(roll[:, 2] / r), np.arctan2(roll[:, 1], roll[:, 0]),
        axis, other) @ want
    ck.close(np.asarray(moved).ravel(), np.concatenate(
        [np.sum(u * F, axis=1) for u in (n2, t2, p2)]),
        "components-about-other-axis", rtol=1e-9, scale=1,
        detail={"from": axis, "to": other})
    ck.event("transforms")
    ck.key(n, half, axis)


def _radiated(src, k, th, ph):
    """Power radiated into a range of angles, by quadrature."""
    n = 60
    x, w = np.polynomial.legendre.leggauss(n)
    t = th[0] + (th[1] - th[0]) * (x + 1) / 2
    f = ph[0] + (ph[1] - ph[0]) * (x + 1) / 2
    tt, ff = np.meshgrid(t, f, indexing="ij")
    ww = np.outer(w, w) * (th[1] - th[0]) * (ph[1] - ph[0]) / 4
    pts = np.stack([np.sin(tt) * np.cos(ff), np.sin(tt) * np.sin(ff),
                    np.cos(tt)], axis=-1).reshape(-1, 3)
    E = _far(src, pts, k)
    return 0.5 * np.sum(ww.ravel() * np.sin(tt).ravel() *
                        np.sum(np.abs(E)**2, axis=1))


@family(quick=6, thorough=40, timeout=400)
def far_gradients(ck, rng):
    """Derivatives of far-field objectives with respect to the structure."""
    shape = [int(rng.integers(5, 7)) for _ in range(3)]
    lam = float(10**rng.uniform(-1, 3))
    k = 2 * np.pi / lam
    dx = lam / rng.uniform(8, 16, 3)
    edges = [(np.arange(m + 1) - m / 2) * dx[a] for a, m in enumerate(shape)]
    g = gridlock.Grid(edges, num_grids=3, initial=1.0, periodic=True,
                      ext_dir=gridlock.Direction.z)
    dxes = fgrid.apply_scpml([g.dxyz, g.autoshifted_dxyz()], [1] * 6, k)
    n = 3 * int(np.prod(shape))
    m = 3
    S = scipy.sparse.random(n, m, 0.3, random_state=int(
        rng.integers(2**31)), format="csr")
    J = [em.cplx(rng, shape) for _ in range(3)]
    eps = [rng.uniform(1, 3, shape) for _ in range(3)]
    sim = problem.FdfdSimulation(
        local_matrix_solvers.DirectSolver(), shape, k, dxes, J, S, eps,
        cache_size=2)
    cls = [ffobjective.DirectedPower, ffobjective.BasicScatter][
        int(rng.integers(2))]
    bg = em.cplx(rng, n) if rng.random() < 0.5 else None
    obj = cls(sim, g, {"th_bounds": [0.3, 1.2], "ph_bounds": [-1.0, 2.0],
                       "box_center": np.zeros(3),
                       "box_size": np.array([3 * d for d in dx])},
              E_background=bg)
    make, p = _param(ck, rng, m)
    ck.event("far_gradients")
    _gradient(ck, rng, obj, make, p, cls.__name__)
    ck.key(cls.__name__, shape, bg is not None)


@family(quick=8, thorough=40, timeout=400)
def far_objectives(ck, rng):
    g, dxes, k, mid, dx, src, E, size = _near(rng)
    x = vec(E)
    shape = list(E[0].shape)
    rec = Recorder()
    rec.answer = lambda kw: x
    S = scipy.sparse.csr_matrix(np.ones((x.size, 1)))
    sim = problem.FdfdSimulation(rec, shape, k, dxes, [np.zeros(shape)] * 3,
                                 S, [np.ones(shape)] * 3)
    # Regions bounded by edges of the triangulation.
    th = [(0, np.pi), (0, np.pi / 2), (np.pi / 2, np.pi)][
        int(rng.integers(3))]
    a = int(rng.integers(-4, 5))
    ph = (a * np.pi / 2, (a + int(rng.integers(1, 5))) * np.pi / 2)
    directed = bool(rng.random() < 0.5)
    if directed and rng.random() < 0.6:
        # Half spheres.
        d = 1e-6
        th = [(0, np.pi / 2 - d), (np.pi / 2 + d, np.pi)][
            int(rng.integers(2))]
    cond = {"th_bounds": list(th), "ph_bounds": list(ph)}
    plane = bool(rng.random() < 0.3)
    if plane:
        ck.event("plane_objectives")
        face = int(rng.integers(3))
        cond["pos"], cond["width"] = mid.copy(), size.copy()
        cond["pos"][face] += rng.choice([-1, 1]) * size[face] / 2
        cond["width"][face] = 0
    else:
        cond.update(box_center=mid, box_size=size)
    bg = None
    y = x
    if rng.random() < 0.5:
        bg = em.cplx(rng, x.size) * np.abs(x)
        y = x + bg
        ck.event("background")
    rec.answer = lambda kw: y
    cls = ffobjective.DirectedPower if directed else ffobjective.BasicScatter
    obj = cls(sim, g, cond, E_background=bg)
    par = parametrization.DirectParam(np.zeros(1))
    # Derivatives depend on nothing but the field they are asked for.
    D0 = np.asarray(obj.calculate_partial_df_dx(y, None)).ravel()
    f = float(np.ravel(obj.calculate_objective_function(par))[0])
    obj.calculate_f(em.cplx(rng, x.size) * np.abs(x), None)
    ck.close(np.asarray(obj.calculate_partial_df_dx(y, None)).ravel(), D0,
             "derivative-depends-on-history", rtol=1e-12,
             scale=np.max(np.abs(D0)))
    power = _radiated(src, k, th, ph)
    total = _radiated(src, k, (0, np.pi), (0, 2 * np.pi))
    ck.event("radiated")
    info = {"th": th, "ph": ph, "power": power, "total": total}
    if plane:
        # Only the light through that plane, projected upwards.
        P, tri = obj.points, obj.triangles
        far = np.asarray(farfield.make_near2farfield_matrix(
            points=P, omegas=k, grid=g, dxes=dxes, pos=cond["pos"],
            width=cond["width"], polarity=1, eps_0=1) @ x).reshape(3, -1)
        inten = np.sum(np.abs(far[1:])**2, axis=0)
        inten = np.mean(inten[tri], axis=1)
        area = farfield.triangle_area_vector(P, tri)
        sel = farfield.triangle_selection_vector(P, tri, list(th), list(ph))
        power = 0.5 * np.sum(inten * area * sel)
        total = 0.5 * np.sum(inten * area)
        ck.close(f, power if directed else (1 - power / total)**2,
                 "plane-objective", rtol=1e-6, scale=power if directed else 1,
                 detail=info)
    if directed:
        ck.event("directed")
        ck.close(f, power, "directed-power", rtol=0.05, scale=power +
                 0.02 * total, detail=info)
    else:
        ck.event("scatter")
        want = (1 - power / total)**2
        ck.close(f, want, "directivity", atol=0.05, rtol=0, detail=info)
    # Derivative with respect to the field.
    F = lambda u: float(np.ravel(obj.calculate_f(u, None))[0])
    D = np.asarray(obj.calculate_partial_df_dx(y, None)).ravel()
    ck.expect(D.shape == y.shape, "field-derivative-shape")
    for _ in range(2):
        d = em.cplx(rng, y.size) * np.abs(x)
        h = 1e-4
        w = _fd(F, y, d, h)
        ck.close(2 * np.real(D @ d), w, cls.__name__ + "-gradient",
                 rtol=1e-5, scale=abs(w) + abs(f) + 2 * np.linalg.norm(
                     D * d), detail=info)
        ck.event("gradients")
    ck.key(cls.__name__, th, ph, bg is not None)
    ck.sample(dict(info, objective=cls.__name__, value=f))
