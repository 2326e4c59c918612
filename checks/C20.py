"""C20: invdes optimizers solve the problem they are given."""
import copy
import random

import numpy as np
import scipy.optimize
from scipy.optimize import nnls

from vlib.core import family
from spins.invdes import optimization as optim
from spins.invdes import problem
from spins.invdes.parametrization import (CompositeParam, DirectParam,
                                          Parametrization)

RULE = ("random convex programs with several equality and inequality "
        "constraints and bounds, solved by every optimizer; random problems "
        "for the first-order methods; oracles: feasibility and "
        "Karush-Kuhn-Tucker residuals computed from the data of the program, "
        "textbook recursions of each method; distinct by method, size and "
        "constraint counts")
REQUIRED_EVENTS = ["slsqp", "several_equalities", "several_inequalities",
                   "active_inequalities", "inactive_inequalities",
                   "unconstrained", "override_bounds", "extra_constraints",
                   "cobyla", "active_bounds", "callbacks", "penalty",
                   "augmented", "trajectories", "continued", "stationary",
                   "early_stop", "zero_iterations", "composite_param",
                   "options_kept", "penalty_callbacks", "same_as_scipy",
                   "stopped_by_maxiter", "stopped_by_tol", "reused",
                   "penalty_terms", "penalty_multipliers", "inner_optimizers"]


class Quad(problem.OptimizationFunction):
    """0.5 x'Qx + c'x + d as a user-defined function."""

    def __init__(self, Q, c, d=0.0):
        super().__init__(problem.Variable(len(c)))
        self.Q, self.c, self.d = Q, c, d

    def eval(self, x):
        x = x[0]
        return float(0.5 * x @ self.Q @ x + self.c @ x + self.d)

    def grad(self, x, g):
        return [g * (self.Q @ x[0] + self.c)]


def linear(rnd, a, b):
    """a.x - b, as a user-defined or a built-in expression."""
    n = len(a)
    if rnd.random() < 0.5:
        return Quad(np.zeros((n, n)), a, -b)
    var = problem.Variable(n)
    f = problem.Constant(-float(b))
    for i in range(n):
        f = f + float(a[i]) * var[i]
    return f


def vector_param(ck, rnd, v, bounds):
    """A direct or a composite parametrization with these values."""
    if len(v) > 1 and rnd.random() < 0.3:
        k = rnd.randint(1, len(v) - 1)
        ck.event("composite_param")
        if bounds is None:
            return CompositeParam([DirectParam(v[:k], bounds=None),
                                   DirectParam(v[k:], bounds=None)])
        lo, hi = bounds
        return CompositeParam([DirectParam(v[:k], bounds=[lo[:k], hi[:k]]),
                               DirectParam(v[k:], bounds=[lo[k:], hi[k:]])])
    return DirectParam(v.copy(), bounds=None if bounds is None else
                       [list(bounds[0]), list(bounds[1])])


class Program:
    """A strictly convex program with a known strictly feasible point."""

    def __init__(self, rnd, rng, bounded):
        self.n = n = rnd.randint(1, 4)
        M = rng.normal(size=(n, n))
        self.Q = M @ M.T + np.eye(n) * rnd.choice([0.5, 1.0, 3.0])
        self.c = rng.normal(size=n) * 2
        self.x_in = rng.uniform(-0.5, 0.5, n)
        self.lo, self.hi = ([-1.0] * n, [1.0] * n) if bounded else (None, None)
        if bounded and rnd.random() < 0.3:
            self.lo = [-0.7 if rnd.random() < 0.5 else None for _ in range(n)]
        m_eq = rnd.randint(0, max(0, n - 1))
        m_in = rnd.randint(0, 3)
        self.A = rng.normal(size=(m_eq, n))
        self.b = self.A @ self.x_in
        self.G = rng.normal(size=(m_in, n))
        self.h = self.G @ self.x_in + rng.uniform(0.05, 1.0, m_in)
        self.obj = Quad(self.Q, self.c)
        self.eqs = [linear(rnd, a, b) for a, b in zip(self.A, self.b)]
        self.ins = [linear(rnd, a, b) for a, b in zip(self.G, self.h)]

    @property
    def bounds(self):
        return None if self.lo is None else (self.lo, self.hi)

    def f(self, x):
        return 0.5 * x @ self.Q @ x + self.c @ x

    def infeasible(self, x):
        v = 0.0
        if len(self.A):
            v = max(v, np.max(np.abs(self.A @ x - self.b)))
        if len(self.G):
            v = max(v, np.max(self.G @ x - self.h))
        if self.lo is not None:
            for xi, a, b in zip(x, self.lo, self.hi):
                v = max(v, (a - xi) if a is not None else 0,
                        (xi - b) if b is not None else 0)
        return v

    def kkt(self, x, tol):
        """Smallest |grad f + multipliers| over the allowed multipliers."""
        cols = []
        for a in self.A:
            cols += [a, -a]
        active = 0
        for a, b in zip(self.G, self.h):
            if a @ x - b > -tol:
                cols.append(a)
                active += 1
        at_bound = 0
        if self.lo is not None:
            for i, (a, b) in enumerate(zip(self.lo, self.hi)):
                e = np.zeros(self.n)
                e[i] = 1
                if a is not None and x[i] - a < tol:
                    cols.append(-e)
                    at_bound += 1
                if b is not None and b - x[i] < tol:
                    cols.append(e)
                    at_bound += 1
        g = self.Q @ x + self.c
        if not cols:
            return float(np.linalg.norm(g)), active, at_bound
        return float(nnls(np.array(cols).T, -g)[1]), active, at_bound

    def judge(self, ck, x, mech, feas, kkt, detail):
        x = np.asarray(x, float)
        ck.expect(self.infeasible(x) <= feas, mech + ": infeasible result",
                  lambda: "violation {} at {} ({})".format(
                      self.infeasible(x), x, detail))
        r, active, at_bound = self.kkt(x, max(10 * feas, 1e-5))
        ck.expect(r <= kkt * (1 + np.linalg.norm(self.c)),
                  mech + ": result is not optimal",
                  lambda: "residual {} at {} ({})".format(r, x, detail))
        if active:
            ck.event("active_inequalities")
        if len(self.G) > active:
            ck.event("inactive_inequalities")
        if at_bound:
            ck.event("active_bounds")

    def describe(self):
        return "n={} eq={} ineq={} bounds={}".format(
            self.n, len(self.A), len(self.G), self.bounds)


@family(quick=900, thorough=5000, timeout=120)
def slsqp(ck, gen):
    seed = int(gen.integers(0, 2**31))
    rnd, rng = random.Random(seed), np.random.RandomState(seed)
    prog = Program(rnd, rng, rnd.random() < 0.6)
    start = rng.uniform(-0.6, 0.6, prog.n)
    param = vector_param(ck, rnd, start, prog.bounds)
    options = {"maxiter": 300, "ftol": 1e-12}
    if rnd.random() < 0.4:
        del options["ftol"]
        options["tol"] = 1e-12
    given = dict(options)
    seen = []
    kw = {}
    eqs, ins = prog.eqs, prog.ins
    if ins and rnd.random() < 0.25:
        # The last inequality is handed over in scipy's form instead.
        a, b = prog.G[-1], prog.h[-1]
        extra = {"type": "ineq", "fun": lambda x: b - a @ x,
                 "jac": lambda x: -a}
        kw["constraints"] = [extra] if rnd.random() < 0.5 else (extra, )
        ins = ins[:-1]
        ck.event("extra_constraints")
    if prog.bounds is not None and rnd.random() < 0.25:
        kw["bounds"] = list(zip(prog.lo, prog.hi))
        param = vector_param(ck, rnd, start, ([-50.0] * prog.n,
                                              [50.0] * prog.n))
        ck.event("override_bounds")
    opt = optim.ScipyOptimizer(method="SLSQP", options=options, **kw)
    prob = problem.OptimizationProblem(
        prog.obj, cons_eq=eqs or None, cons_ineq=ins or None)

    def callback(x):
        seen.append((np.array(x, float), np.array(param.to_vector(), float)))

    for _ in range(rnd.randint(1, 2)):
        result = opt(prob, param, callback=callback)
    detail = prog.describe()
    ck.expect(options == given, "the options of the caller were changed",
              "{} became {}".format(given, options))
    ck.event("options_kept")
    ck.expect(result is param, "optimizer returns the parametrization", detail)
    ck.key("slsqp", prog.n, len(eqs), len(ins), prog.bounds is None)
    if not opt.get_results()["success"]:
        ck.event("not_converged")
        return
    ck.event("slsqp")
    if len(eqs) > 1:
        ck.event("several_equalities")
    if len(ins) > 1:
        ck.event("several_inequalities")
    if not eqs and not ins:
        ck.event("unconstrained")
    prog.judge(ck, param.to_vector(), "SLSQP", 1e-6, 2e-3, detail)
    for x, v in seen:
        ck.close(v, x, "parametrization at a callback", rtol=1e-9, atol=1e-12,
                 detail=detail)
        ck.event("callbacks")


@family(quick=500, thorough=4000, timeout=120)
def unconstrained(ck, gen):
    seed = int(gen.integers(0, 2**31))
    rnd, rng = random.Random(seed), np.random.RandomState(seed)
    method = rnd.choice(["L-BFGS-B", "TNC", "CG", "BFGS", "Nelder-Mead",
                         None, "L-BFGS-B", "SLSQP"])
    bounded = method in ("L-BFGS-B", "TNC", "SLSQP") and rnd.random() < 0.7
    prog = Program(rnd, rng, bounded)
    prog.A, prog.G = prog.A[:0], prog.G[:0]
    prog.b, prog.h = prog.b[:0], prog.h[:0]
    start = rng.uniform(-0.6, 0.6, prog.n)
    param = vector_param(ck, rnd, start, prog.bounds)
    options = {"maxiter": 2000}
    if method == "TNC":
        options = {"maxfun": 2000}
    objective = prog.obj
    if rnd.random() < 0.5:
        objective = problem.OptimizationProblem(objective)
    if rnd.random() < 0.5:
        opt = optim.ScipyOptimizer(method=method, options=options, tol=1e-10)
        opt(objective, param)
    else:
        options["tol"] = 1e-10
        opt = optim.ScipyOptimizer(objective, param, method=method,
                                   options=options)
        opt.optimize()
    ck.key("unconstrained", method, prog.n, bounded)
    if not opt.get_results()["success"]:
        ck.event("not_converged")
        return
    ck.event("unconstrained")
    x = np.asarray(param.to_vector(), float)
    prog.judge(ck, x, str(method), 1e-9,
               1e-2 if method in ("Nelder-Mead", ) else 1e-3,
               prog.describe())
    ck.close(x, np.asarray(opt.get_results()["x"], float),
             "parametrization after the optimization", rtol=1e-9, atol=1e-9)


@family(quick=30, thorough=600, timeout=120)
def cobyla(ck, gen):
    seed = int(gen.integers(0, 2**31))
    rnd, rng = random.Random(seed), np.random.RandomState(seed)
    prog = Program(rnd, rng, False)
    prog.A, prog.b, prog.eqs = prog.A[:0], prog.b[:0], []
    param = vector_param(ck, rnd, prog.x_in.copy(), None)
    opt = optim.ScipyOptimizer(method="COBYLA",
                               options={"maxiter": 4000, "tol": 1e-7})
    opt(problem.OptimizationProblem(prog.obj, cons_ineq=prog.ins or None),
        param)
    ck.key("cobyla", prog.n, len(prog.ins))
    if not opt.get_results()["success"]:
        ck.event("not_converged")
        return
    ck.event("cobyla")
    prog.judge(ck, param.to_vector(), "COBYLA", 1e-4, 2e-2, prog.describe())


@family(quick=150, thorough=1200, timeout=120)
def penalty(ck, gen):
    """Slack based constrained optimizers."""
    seed = int(gen.integers(0, 2**31))
    rnd, rng = random.Random(seed), np.random.RandomState(seed)
    prog = Program(rnd, rng, rnd.random() < 0.6)
    if not prog.eqs and not prog.ins:
        return
    start = rng.uniform(-0.6, 0.6, prog.n)
    param = vector_param(ck, rnd, start, prog.bounds)
    prob = problem.OptimizationProblem(prog.obj, cons_eq=prog.eqs or None,
                                       cons_ineq=prog.ins or None)
    seen, cycles = [], []
    which = rnd.choice(["penalty", "augmented"])
    kw = {"callback": lambda p: seen.append(
        np.array(p.to_vector(), float)),
          "cycle_callback": lambda p: cycles.append(
              np.array(p.to_vector(), float))}
    if rnd.random() < 0.3:
        kw = {}
    if which == "penalty":
        opts = {"maxiter": 500, "num_cycles": 7, "tau": 1.6, "ftol": 1e-15,
                "gtol": 1e-10}
        opt = optim.PenaltyOptimizer(options=opts)
        if rnd.random() < 0.3:
            opt(prob, vector_param(ck, rnd, start, prog.bounds))
            ck.event("reused")
        out = opt(prob, param, **kw)
        feas, kkt = 2e-2, 5e-2
    else:
        opts = {"maxiter": 500, "num_cycles": 12}
        out = optim.AugmentedLagrangianOptimizer(options=opts)(
            prob, param, **kw)
        feas, kkt = 1e-3, 5e-2
    ck.event(which)
    ck.key(which, prog.n, len(prog.eqs), len(prog.ins), prog.bounds is None)
    detail = prog.describe()
    ck.expect(out is param, which + " returns the parametrization", detail)
    prog.judge(ck, out.to_vector(), which, feas, kkt, detail)
    for x in seen + cycles:
        ck.expect(x.shape == (prog.n, ), "callback parametrization", detail)
        if prog.bounds is not None:
            for xi, a, b in zip(x, prog.lo, prog.hi):
                ck.expect((a is None or xi >= a) and (b is None or xi <= b),
                          "callback parametrization is within bounds", detail)
        ck.event("penalty_callbacks")
    if cycles and which == "penalty":
        ck.expect(len(cycles) == 7, "number of cycles", str(len(cycles)))


@family(quick=400, thorough=4000, timeout=120)
def settings(ck, gen):
    """Options, tolerances and iteration limits are those that were given:
    the run is the one of scipy.optimize.minimize on the same function."""
    seed = int(gen.integers(0, 2**31))
    rnd, rng = random.Random(seed), np.random.RandomState(seed)
    n = rnd.randint(2, 6)
    method = rnd.choice(["L-BFGS-B", "TNC", "CG", "BFGS", "Nelder-Mead",
                         "SLSQP", "COBYLA"])
    M = rng.normal(size=(n, n))
    Q = M @ M.T + np.diag(rng.uniform(0.1, 30, n))
    c = rng.normal(size=n) * 3
    bounds = None
    if method in ("L-BFGS-B", "TNC", "SLSQP") and rnd.random() < 0.5:
        bounds = ([-0.6] * n, [0.4] * n)
    start = rng.uniform(-0.5, 0.3, n)
    limit = "maxfun" if method == "TNC" else "maxiter"
    options, tol, how = {}, None, rnd.choice(["limit", "tol", "both", "none"])
    if how in ("limit", "both"):
        options[limit] = rnd.choice([1, 2, 3, 5, 40])
        if method == "COBYLA":
            options[limit] += n + 2
    if how in ("tol", "both"):
        tol = rnd.choice([1e-1, 1e-3, 10.0])
    if rnd.random() < 0.3 and method == "L-BFGS-B":
        options["maxcor"] = 2
    given = dict(options)
    where = rnd.choice(["argument", "options"])
    kw = {}
    if tol is not None:
        if where == "options":
            given["tol"] = tol
        else:
            kw["tol"] = tol
    param = vector_param(ck, rnd, start, bounds)
    opt = optim.ScipyOptimizer(method=method, options=given or None, **kw)
    obj = Quad(Q, c)
    opt(obj, param)
    got = opt.get_results()
    f = lambda x: float(0.5 * x @ Q @ x + c @ x)
    clip = (lambda x: np.clip(x, *bounds)) if bounds else (lambda x: x)
    more = {}
    if method not in ("Nelder-Mead", "COBYLA"):
        more["jac"] = lambda x: Q @ clip(x) + c
    if bounds:
        more["bounds"] = list(zip(*bounds))
    want = scipy.optimize.minimize(lambda x: f(clip(x)), start, method=method,
                                   tol=tol, options=options or None, **more)
    detail = {"method": method, "n": n, "options": str(given), "tol": tol,
              "bounds": bounds is not None}
    ck.event("same_as_scipy")
    ck.key("settings", method, how, where, n, bounds is None)
    if not want.success:
        ck.event("stopped_by_maxiter")
    elif tol is not None:
        ck.event("stopped_by_tol")
    ck.close(got["x"], want.x, "run with the given settings", rtol=1e-5,
             atol=1e-7, scale=1.0, detail=detail)
    ck.close(param.to_vector(), clip(want.x), "result of the run", rtol=1e-5,
             atol=1e-7, scale=1.0, detail=detail)
    if "nit" in want:
        ck.expect(got["nit"] == want.nit, "iterations of the run",
                  {"got": got["nit"], "want": want.nit, **detail})


class Spy:
    """Inner optimizer that records the problems it is given."""

    def __init__(self, ck, prog, inner, limit):
        self.ck, self.prog, self.inner = ck, prog, inner
        self.limit = limit
        self.rows = []

    def __call__(self, opt, param, callback=None):
        rng = np.random.RandomState(len(self.rows))
        keep = np.array(param.to_vector(), float)
        prog = self.prog
        n, m = prog.n, len(prog.G)
        rows = []
        for _ in range(6):
            v = rng.uniform(-0.5, 0.5, n + m)
            v[n:] = np.abs(v[n:])
            param.from_vector(v)
            cons = np.concatenate([prog.A @ v[:n] - prog.b,
                                   prog.G @ v[:n] - prog.h + v[n:]])
            rows.append((float(opt.calculate_objective_function(param)),
                         float(prog.f(v[:n])), cons))
        param.from_vector(keep)
        self.rows.append(rows)
        return self.inner(opt, param, callback=callback)

    def get_results(self):
        return self.inner.get_results()


@family(quick=60, thorough=800, timeout=120)
def penalty_terms(ck, gen):
    """Every cycle minimizes the objective plus the stated penalty."""
    seed = int(gen.integers(0, 2**31))
    rnd, rng = random.Random(seed), np.random.RandomState(seed)
    while True:
        prog = Program(rnd, rng, rnd.random() < 0.5)
        if prog.eqs or prog.ins:
            break
    start = rng.uniform(-0.6, 0.6, prog.n)
    mu0 = rnd.choice([2, 1.5, 3.0, 10])
    tau = rnd.choice([1.5, 1.2, 1.1])
    pf = rnd.choice([2, 4])
    cycles = rnd.randint(1, 4)
    options = {"mu0": mu0, "tau": tau, "pf": pf, "num_cycles": cycles}
    for k in rnd.sample(sorted(options), rnd.randint(0, 2)):
        del options[k]
    mu0, tau = options.get("mu0", 2), options.get("tau", 1.5)
    pf, cycles = options.get("pf", 2), options.get("num_cycles", 10)
    spy = Spy(ck, prog, optim.ScipyOptimizer(
        method="L-BFGS-B", options={"maxiter": rnd.choice([0, 3, 50])}), None)
    opt = optim.PenaltyOptimizer(optimizer=spy, options=dict(options))
    ck.event("inner_optimizers")
    ck.key("penalty_terms", len(prog.A), len(prog.G), cycles, mu0, tau, pf)
    for run in range(rnd.randint(1, 2)):
        if run:
            ck.event("reused")
        del spy.rows[:]
        prob = problem.OptimizationProblem(
            prog.obj, cons_eq=prog.eqs or None, cons_ineq=prog.ins or None)
        param = vector_param(ck, rnd, start, prog.bounds)
        out = opt(prob, param)
        ck.expect(out is param, "penalty returns the parametrization", "")
        ck.expect(len(spy.rows) == cycles, "number of cycles",
                  {"got": len(spy.rows), "want": cycles, "run": run})
        mu = mu0
        for k, rows in enumerate(spy.rows):
            for got, f, cons in rows:
                ck.close(got, f + mu * np.sum(cons**pf), "penalty function",
                         rtol=1e-9, atol=1e-12,
                         detail={"cycle": k, "mu": mu, "pf": pf, "run": run})
            mu = mu**tau
            ck.event("penalty_terms")


@family(quick=60, thorough=800, timeout=120)
def multipliers(ck, gen):
    """The augmented Lagrangian method minimizes f - y.c + mu/2 |c|^2, and
    updates y by -mu c or raises mu, as in its reference."""
    seed = int(gen.integers(0, 2**31))
    rnd, rng = random.Random(seed), np.random.RandomState(seed)
    while True:
        prog = Program(rnd, rng, rnd.random() < 0.5)
        if prog.eqs or prog.ins:
            break
    start = rng.uniform(-0.6, 0.6, prog.n)
    mu0 = rnd.choice([10, 3.0, 25])
    ncycles = rnd.randint(2, 5)
    runs = []
    real = optim.ScipyOptimizer.__call__

    def call(self, opt, param, callback=None):
        r = np.random.RandomState(len(runs))
        keep = np.array(param.to_vector(), float)
        n, m = prog.n, len(prog.G)

        def cons(v):
            return np.concatenate([prog.A @ v[:n] - prog.b,
                                   prog.G @ v[:n] - prog.h + v[n:]])

        lhs, rhs = [], []
        for _ in range(3 * (n + m) + 4):
            v = r.uniform(-0.5, 0.5, n + m)
            v[n:] = np.abs(v[n:])
            param.from_vector(v)
            c = cons(v)
            lhs.append(np.append(-c, 0.5 * np.sum(c**2)))
            rhs.append(float(opt.calculate_objective_function(param)) -
                       prog.f(v[:n]))
        param.from_vector(keep)
        out = real(self, opt, param, callback=callback)
        runs.append((np.array(lhs), np.array(rhs),
                     cons(np.array(out.to_vector(), float))))
        return out

    optim.ScipyOptimizer.__call__ = call
    try:
        opt = optim.AugmentedLagrangianOptimizer(
            options={"mu0": mu0, "num_cycles": ncycles, "maxiter": 200})
        prob = problem.OptimizationProblem(
            prog.obj, cons_eq=prog.eqs or None, cons_ineq=prog.ins or None)
        opt(prob, vector_param(ck, rnd, start, prog.bounds))
    finally:
        optim.ScipyOptimizer.__call__ = real
    ck.key("multipliers", len(prog.A), len(prog.G), mu0, ncycles)
    last = None
    for k, (lhs, rhs, c) in enumerate(runs):
        sol = np.linalg.lstsq(lhs, rhs, rcond=None)[0]
        err = np.max(np.abs(lhs @ sol - rhs))
        ck.expect(err <= 1e-8 * (1 + np.max(np.abs(rhs))),
                  "augmented Lagrangian",
                  {"cycle": k, "error": err, "size": float(np.max(np.abs(rhs)))})
        y, mu = sol[:-1], sol[-1]
        if k == 0:
            ck.close(mu, mu0, "initial penalty factor", rtol=1e-6)
        else:
            y0, m0, c0 = last
            stay = np.allclose(y, y0, rtol=1e-5, atol=1e-5 * (1 + mu)) and \
                mu > 1.5 * m0
            move = np.allclose(y, y0 - m0 * c0, rtol=1e-5,
                               atol=1e-5 * (1 + mu)) and \
                np.allclose(mu, m0, rtol=1e-5)
            ck.expect(stay or move, "multiplier update",
                      {"cycle": k, "before": (y0.tolist(), m0),
                       "after": (y.tolist(), mu), "constraints": c0.tolist()})
            ck.event("penalty_multipliers")
        last = (y, mu, c)


# ------------------------------------------------------------- first order
class Smooth(Parametrization):
    """Vector with bounds; structure = A x."""

    def __init__(self, x, A, lo, hi):
        self.x, self.A, self.lo, self.hi = np.array(x, float), A, lo, hi

    def get_structure(self):
        return self.A @ self.x

    def calculate_gradient(self):
        return self.A

    def encode(self):
        return self.x.copy()

    def decode(self, v):
        self.x = np.array(v, float)

    def project(self):
        self.x = np.clip(self.x, self.lo, self.hi)


@family(quick=1200, thorough=5000, timeout=90)
def first_order(ck, gen):
    """Every step of the first-order methods."""
    seed = int(gen.integers(0, 2**31))
    rnd, rng = random.Random(seed), np.random.RandomState(seed)
    n = rnd.randint(1, 4)
    m = rnd.randint(n, n + 2)
    A = rng.normal(size=(m, n))
    target = rng.normal(size=m)
    w = rng.uniform(0.1, 1.0, m)

    class Obj(problem.OptimizationFunction):

        def __init__(self):
            super().__init__(problem.Variable(m))

        def eval(self, x):
            return float(np.sum(w * (x[0] - target)**2))

        def grad(self, x, g):
            return [g * 2 * w * (x[0] - target)]

    lo, hi = (-0.5, 0.5) if rnd.random() < 0.5 else (-1e9, 1e9)

    def clip(x):
        return np.clip(x, lo, hi)

    def F(x):
        return float(np.sum(w * (A @ x - target)**2))

    def dF(x):
        return 2 * (w * (A @ x - target)) @ A

    x0 = rng.uniform(-0.5, 0.5, n)
    stationary = rnd.random() < 0.15
    if stationary:
        target = A @ x0
        ck.event("stationary")
    param = Smooth(x0, A, lo, hi)
    method = rnd.choice(["gd", "gd_norm", "adaptive", "adagrad", "rmsprop",
                         "adam", "nag"])
    rate = rnd.choice([0.01, 0.05, 0.2])
    if method == "adaptive":
        rate = rnd.choice([0.01, 1.0, 30.0])
    obj = Obj()
    tol = 1e-8
    if method == "gd":
        opt = optim.GradientDescent(obj, param, rate)
    elif method == "gd_norm":
        opt = optim.GradientDescent(obj, param, rate, normalize_gradient=True)
    elif method == "adaptive":
        tol = rnd.choice([1e-8, 1e-2])
        opt = optim.AdaptiveGradientDescent(obj, param, rate,
                                            stop_tolerance=tol)
    elif method == "adagrad":
        opt = optim.Adagrad(obj, param, rate)
    elif method == "rmsprop":
        opt = optim.RmsProp(obj, param, rate, gamma=0.8)
    elif method == "adam":
        opt = optim.Adam(obj, param, rate, beta1=0.8, beta2=0.95)
    else:
        opt = optim.Nag(obj, param, rate, gamma=0.7)

    state = {"x": x0.copy(), "v": np.zeros(n), "s": np.zeros(n), "t": 0,
             "alpha": rate, "f": F(x0)}

    def step():
        """One step of the textbook method; True when it has to stop."""
        s = state
        x = s["x"]
        g = dF(x)
        if method == "gd":
            s["x"] = clip(x - rate * g)
        elif method == "gd_norm":
            norm = np.sqrt(np.sum(g**2))
            s["x"] = clip(x - rate * (g / norm if norm > 0 else g))
        elif method == "adaptive":
            if np.sqrt(np.sum(g**2)) < tol:
                return True
            while True:
                y = clip(x - s["alpha"] * g)
                if F(y) <= s["f"]:
                    s["f"], s["x"] = F(y), y
                    s["alpha"] *= 1.3
                    break
                s["alpha"] *= 0.3
        elif method == "adagrad":
            s["s"] = s["s"] + g**2
            s["x"] = clip(x - rate * g / np.sqrt(s["s"] + 1e-6))
        elif method == "rmsprop":
            s["s"] = 0.8 * s["s"] + 0.2 * g**2
            s["x"] = clip(x - rate * g / np.sqrt(s["s"] + 1e-6))
        elif method == "adam":
            s["t"] += 1
            s["v"] = 0.8 * s["v"] + 0.2 * g
            s["s"] = 0.95 * s["s"] + 0.05 * g**2
            s["x"] = clip(x - rate * (s["v"] / (1 - 0.8**s["t"])) / (
                np.sqrt(s["s"] / (1 - 0.95**s["t"])) + 1e-8))
        else:
            g = dF(clip(x - 0.7 * s["v"]))
            s["v"] = 0.7 * s["v"] + rate * g
            s["x"] = clip(x - s["v"])
        return False

    done, stopped = 0, False
    max_iters = rnd.choice([None, None, 4, 9, 0])
    opt.max_iters = max_iters
    detail = "{} n={} rate={} bounds={} stationary={} max_iters={}".format(
        method, n, rate, (lo, hi), stationary, max_iters)
    ck.key("first_order", method, n, lo > -1, stationary, max_iters)
    rtol = 1e-7
    for run in range(rnd.randint(1, 3)):
        iters = rnd.choice([1, 3, 6, 0, None if max_iters is not None else 2])
        budget = min([iters if iters is not None else 10**9,
                      (max_iters - done) if max_iters is not None else 10**9])
        budget = max(budget, 0)
        if budget == 0:
            ck.event("zero_iterations")
        if run:
            ck.event("continued")
        seen = []
        opt.optimize(iters=iters, callback=lambda p: seen.append(
            np.array(p.encode(), float)))
        count = 0
        for i in range(budget):
            stop = step()
            count += 1
            if i < len(seen):
                ok = ck.close(seen[i], state["x"], "step of " + method,
                              rtol=rtol, atol=1e-9, scale=1.0,
                              detail=detail + " step {}".format(done + i))
                if not ok:
                    return
            if stop:
                ck.event("early_stop")
                break
        ck.expect(len(seen) == count, "number of iterations",
                  "{} callbacks, {} expected with iters={} ({})".format(
                      len(seen), count, iters, detail))
        done += count
        ck.expect(opt.iter == done, "iteration counter",
                  "{} != {} ({})".format(opt.iter, done, detail))
        ck.close(param.encode(), state["x"], "result of " + method, rtol=rtol,
                 atol=1e-9, scale=1.0, detail=detail)
        ck.event("trajectories")
