"""C07: goos optimizations respect their problem statement."""
import os
import pickle
import shutil

import numpy as np

from vlib.core import family
from spins import goos

RULE = ("random convex problems over several variables whose constrained "
        "optimum is known by construction (KKT point chosen first) are "
        "minimized or maximized through a plan; the oracle checks that the "
        "final state is feasible for every constraint and bound, equals the "
        "known optimum, leaves frozen variables alone, and that the logged "
        "history is consistent; distinct by problem data")
REQUIRED_EVENTS = ["optimizations", "active_eq", "active_ineq",
                   "inactive_ineq", "active_bounds", "frozen_vars",
                   "logged_iterations", "maximizations", "sequential",
                   "iterates", "tolerances"]


def _problem(ck, rng, ncons_eq, ncons_ineq, use_bounds, nvars=None):
    """Chooses the optimum first, then data for which it is the optimum."""
    nvars = nvars or int(rng.integers(1, 4))
    shapes = [[(2,), (3,), (1,), (2, 2)][int(rng.integers(4))]
              for _ in range(nvars)]
    sizes = [int(np.prod(s)) for s in shapes]
    n = sum(sizes)
    xs = np.round(rng.uniform(-1, 1, n), 3)
    # Special values (zero above all) are common in practice.
    special = rng.random(n) < 0.4
    xs[special] = rng.choice([0.0, 0.0, 1.0, -1.0], int(np.sum(special)))
    ck.event("zero_optimum", int(np.sum(xs == 0)))
    ncons_eq = min(ncons_eq, max(0, n - 1))
    # Total multiplier force.
    force = np.zeros(n)
    eqs, ineqs = [], []
    for _ in range(ncons_eq):
        a = np.round(rng.normal(size=n), 3)
        eqs.append((a, float(a @ xs)))
        force += a * rng.normal()
        ck.event("active_eq")
    for _ in range(ncons_ineq):
        a = np.round(rng.normal(size=n), 3)
        if rng.random() < 0.6:
            ineqs.append((a, float(a @ xs)))
            force += a * rng.uniform(0.3, 1.5)
            ck.event("active_ineq")
        else:
            ineqs.append((a, float(a @ xs) + rng.uniform(0.3, 1)))
            ck.event("inactive_ineq")
    lo = np.full(n, -np.inf)
    up = np.full(n, np.inf)
    if use_bounds:
        for i in range(n):
            k = int(rng.integers(5))
            if k == 0:
                lo[i] = xs[i]
                force[i] -= rng.uniform(0.2, 1)
                ck.event("active_bounds")
            elif k == 1:
                up[i] = xs[i]
                force[i] += rng.uniform(0.2, 1)
                ck.event("active_bounds")
            elif k == 2:
                lo[i] = xs[i] - rng.uniform(0.5, 1)
                up[i] = xs[i] + rng.uniform(0.5, 1)
    # Objective sum_i w_i (x_i - c_i)^2 with gradient -force at xs.
    w = rng.uniform(0.5, 2, n)
    c = xs + force / (2 * w)
    return shapes, sizes, xs, w, c, eqs, ineqs, lo, up


def _split(vec, shapes, sizes):
    out, off = [], 0
    for s, k in zip(shapes, sizes):
        out.append(vec[off:off + k].reshape(s))
        off += k
    return out


def _linear(variables, a, b, shapes, sizes, name=None):
    terms = [
        goos.dot(goos.Constant(part), v)
        for part, v in zip(_split(a, shapes, sizes), variables)
    ]
    return goos.Sum(terms + [goos.Constant(-b)], name=name)


def _make(rng, prob, sign=1):
    shapes, sizes, xs, w, c, eqs, ineqs, lo, up = prob
    start = xs + rng.uniform(-0.8, 0.8, xs.size)
    start[rng.random(xs.size) < 0.15] = 0
    start = np.clip(start, lo, up)
    variables = []
    for s, x0, l, u in zip(shapes, _split(start, shapes, sizes),
                           _split(lo, shapes, sizes),
                           _split(up, shapes, sizes)):
        kw = {}
        if np.any(np.isfinite(l)):
            kw["lower_bounds"] = l
        if np.any(np.isfinite(u)):
            kw["upper_bounds"] = u
        variables.append(goos.Variable(x0, **kw))
    terms = [
        goos.dot(goos.Constant(ww), (v - cc)**2)
        for v, ww, cc in zip(variables, _split(w, shapes, sizes),
                             _split(c, shapes, sizes))
    ]
    obj = goos.Sum(terms)
    if sign < 0:
        obj = -obj
    ce = [_linear(variables, a, b, shapes, sizes) for a, b in eqs]
    ci = [_linear(variables, a, b, shapes, sizes) for a, b in ineqs]
    return variables, obj, ce, ci, start


def _verify(ck, plan, variables, prob, tol, tag):
    shapes, sizes, xs, w, c, eqs, ineqs, lo, up = prob
    x = np.concatenate([np.ravel(plan.get_var_value(v)) for v in variables])
    for s, v in zip(shapes, variables):
        ck.expect(tuple(plan.get_var_value(v).shape) == tuple(s),
                  tag + "-shape")
    for a, b in eqs:
        ck.expect(abs(a @ x - b) < tol, tag + "-equality-constraint",
                  {"violation": a @ x - b})
    for a, b in ineqs:
        ck.expect(a @ x - b < tol, tag + "-inequality-constraint",
                  {"violation": a @ x - b})
    ck.expect(np.all(x >= lo - 1e-9) and np.all(x <= up + 1e-9),
              tag + "-bounds", {"x": x, "lo": lo, "up": up})
    ck.close(x, xs, tag + "-optimum", rtol=0, atol=tol)
    return x


@family(quick=300, thorough=3000)
def constrained(ck, rng):
    prob = _problem(ck, rng, int(rng.integers(0, 3)), int(rng.integers(0, 4)),
                    rng.random() < 0.6)
    shapes, sizes, xs, w, c, eqs, ineqs, lo, up = prob
    maximize = rng.random() < 0.4
    with goos.OptimizationPlan() as plan:
        variables, obj, ce, ci, start = _make(rng, prob,
                                              -1 if maximize else 1)
        fro = None
        if rng.random() < 0.4:
            fro = goos.Variable(rng.normal(size=2))
            fro_val = fro.get().array.copy()
            fro.freeze()
            ck.event("frozen_vars")
        if rng.random() < 0.3:
            # An unrelated thawed variable does not disturb the optimization.
            goos.Variable(rng.normal(size=2))
        fun = goos.opt.scipy_maximize if maximize else goos.opt.scipy_minimize
        kw = {}
        if ce or rng.random() < 0.5:
            kw["constraints_eq"] = ce
        if ci or rng.random() < 0.5:
            kw["constraints_ineq"] = ci
        method = "SLSQP" if (ce or ci) else ["SLSQP", "L-BFGS-B", "TNC"][int(
            rng.integers(3))]
        fun(obj, method, max_iters=500, ftol=1e-13, **kw)
        plan.run()
        if maximize:
            ck.event("maximizations")
        ck.event("optimizations")
        _verify(ck, plan, variables, prob, 2e-4, "constrained")
        if fro is not None:
            ck.close(plan.get_var_value(fro), fro_val, "frozen-changed",
                     rtol=1e-14)
        val = (1 if not maximize else -1) * np.ravel(obj.get().array)[0]
        ck.close(val, np.sum(w * (xs - c)**2), "optimal-value", rtol=1e-3,
                 atol=1e-4)
    ck.key(xs.tolist(), c.tolist(), len(eqs), len(ineqs))
    ck.sample({"optimum": xs, "eqs": len(eqs), "ineqs": len(ineqs),
               "method": method})


@family(quick=60, thorough=500)
def cobyla(ck, rng):
    """A derivative-free method with inequality constraints."""
    prob = _problem(ck, rng, 0, int(rng.integers(1, 3)), False, nvars=2)
    with goos.OptimizationPlan() as plan:
        flip = bool(rng.random() < 0.4)
        variables, obj, ce, ci, start = _make(rng, prob, -1 if flip else 1)
        (goos.opt.scipy_maximize if flip else goos.opt.scipy_minimize)(
            obj, method="COBYLA", max_iters=4000, constraints_ineq=ci)
        plan.run()
        x = np.concatenate(
            [np.ravel(plan.get_var_value(v)) for v in variables])
        for a, b in prob[6]:
            ck.expect(a @ x - b < 2e-3, "cobyla-inequality")
        ck.close(x, prob[2], "cobyla-optimum", rtol=0, atol=2e-2)
    ck.event("optimizations")
    ck.key(prob[2].tolist())


@family(quick=120, thorough=1200)
def logged_history(ck, rng):
    """Every iteration is logged with consistent monitors."""
    shutil.rmtree("log", ignore_errors=True)
    os.makedirs("log")
    with goos.OptimizationPlan(save_path="log") as plan:
        n = int(rng.integers(2, 5))
        x = goos.Variable(rng.uniform(-1, 1, n), name="x", lower_bounds=-2,
                          upper_bounds=2)
        t = np.round(rng.uniform(-3, 3, n), 2)
        q = np.round(rng.uniform(0.3, 4, n), 2)
        it = goos.Variable(0, parameter=True, name="it")
        obj = goos.dot(goos.Constant(q), (x - t)**2)
        obj = goos.rename(obj + 0.1 * goos.norm(x, 4)**4, "obj")
        k = int(rng.integers(1, 9))
        method = ["L-BFGS-B", "SLSQP", "TNC"][int(rng.integers(3))]
        use_it = rng.random() < 0.6
        nopt = int(rng.integers(1, 3))
        for _ in range(nopt):
            goos.opt.scipy_minimize(obj, method, max_iters=k,
                                    monitor_list=[obj, x, it],
                                    iteration=it if use_it else None)
            if nopt > 1:
                ck.event("sequential")
        plan.run()

        def f(v):
            return np.sum(q * (v - t)**2) + 0.1 * np.sum(v**4)

        steps = sorted(int(s[4:-4]) for s in os.listdir("log")
                       if s.startswith("step"))
        ck.expect(steps == list(range(1, len(steps) + 1)), "log-numbering",
                  steps)
        per_action = {}
        last = None
        for s in steps:
            with open("log/step%d.pkl" % s, "rb") as fp:
                d = pickle.load(fp)
            ck.event("logged_iterations")
            ck.expect(d["log_counter"] == s, "log-counter")
            per_action.setdefault(d["action_ptr"], []).append(
                d["event"]["iteration"])
            mx = d["monitor_data"]["x"]
            ck.close(d["variable_data"]["x"]["value"], mx,
                     "logged-variable-vs-monitor", rtol=1e-12)
            ck.close(np.ravel(d["monitor_data"]["obj"]), [f(mx)],
                     "logged-objective", rtol=1e-9)
            ck.expect(np.all(mx >= -2 - 1e-9) and np.all(mx <= 2 + 1e-9),
                      "logged-out-of-bounds")
            if use_it:
                ck.close(np.ravel(d["monitor_data"]["it"]),
                         [d["event"]["iteration"]], "iteration-variable")
            last = mx
        if len(steps) and "obj" in d["monitor_data"]:
            first = f(np.asarray(pickle.load(open("log/step1.pkl", "rb"))[
                "monitor_data"]["x"]))
            ck.expect(f(plan.get_var_value(x)) <= first + 1e-9,
                      "final-worse-than-first")
        for a, its in per_action.items():
            ck.expect(its == list(range(1, len(its) + 1)), "iteration-numbers",
                      its)
            if method != "TNC":
                ck.expect(len(its) <= k, "too-many-iterations", its)
        if last is not None:
            # The state after the run is the result of the optimization.
            ck.expect(f(plan.get_var_value(x)) <= f(last) + 1e-9,
                      "final-state-not-result",
                      {"final": plan.get_var_value(x), "last": last})
        ck.expect(f(plan.get_var_value(x)) <= f(x._value) + 1e-9
                  if hasattr(x, "_value") else True, "objective-increased")
    ck.event("optimizations", nopt)
    ck.key(n, t.tolist(), method, k, nopt)
    shutil.rmtree("log", ignore_errors=True)


@family(quick=60, thorough=600)
def sequential(ck, rng):
    """Optimizations in sequence start from the previous result and respect
    what was frozen in between."""
    with goos.OptimizationPlan() as plan:
        x = goos.Variable(rng.uniform(-1, 1, 2))
        y = goos.Variable(rng.uniform(-1, 1, 2))
        a, b, c = (np.round(rng.uniform(-1, 1, 2), 2) for _ in range(3))
        # First optimize both, then only y with x frozen, then only x.
        goos.opt.scipy_minimize(
            goos.norm(x - a)**2 + goos.norm(y - b)**2, "L-BFGS-B",
            max_iters=200, ftol=1e-14)
        x.freeze()
        goos.opt.scipy_minimize(goos.norm(x - y)**2 + goos.norm(x - c)**2,
                                "L-BFGS-B", max_iters=200, ftol=1e-14)
        plan.run()
        ck.close(plan.get_var_value(x), a, "first-x", rtol=0, atol=1e-4)
        ck.close(plan.get_var_value(y), a, "second-y", rtol=0, atol=1e-3)
        y.freeze()
        x.thaw()
        y_before = plan.get_var_value(y)
        goos.opt.scipy_minimize(
            goos.norm(x - y)**2 + goos.norm(x - c)**2, "BFGS", max_iters=200)
        plan.run()
        ck.close(plan.get_var_value(y), y_before, "frozen-changed", rtol=0)
        ck.close(plan.get_var_value(x), (y_before + c) / 2, "third-x", rtol=0,
                 atol=1e-4)
        ck.event("sequential")
        ck.event("optimizations", 3)
    ck.key(a.tolist(), b.tolist(), c.tolist())


class Watch(goos.Function):
    """Identity that remembers what it was evaluated at."""
    node_type = "verif.c07.watch"

    def __init__(self, fun: goos.Function) -> None:
        super().__init__(fun)

    def eval(self, inputs):
        SEEN.append(np.array(inputs[0].array))
        return goos.NumericFlow(np.array(inputs[0].array))

    def grad(self, inputs, grad_val):
        return [grad_val]


SEEN = []
METHODS = ["L-BFGS-B", "SLSQP", "TNC", "CG", "BFGS", "Nelder-Mead", "Powell",
           "COBYLA"]


@family(quick=150, thorough=1500)
def iterates(ck, rng):
    """What the method is given, reports and returns is what the plan holds.

    `scipy.optimize.minimize` is wrapped to record its callbacks and result.
    """
    import scipy.optimize
    shutil.rmtree("it", ignore_errors=True)
    os.makedirs("it")
    method = METHODS[int(rng.integers(len(METHODS)))]
    shape = [(2,), (3,), (2, 2), (1, 3), (3, 2)][int(rng.integers(5))]
    n = int(np.prod(shape))
    x0 = np.round(rng.uniform(-1, 1, shape), 3)
    t = np.round(rng.uniform(-2, 2, shape), 3)
    q = np.round(rng.uniform(0.3, 4, shape), 3)
    records, ends = [], []
    real = scipy.optimize.minimize

    def minimize(fun, start, *args, callback=None, **kwargs):

        def cb(x, *a):
            records.append(np.array(x))
            return callback(x, *a)

        starts.append(np.array(start))
        res = real(fun, start, *args, callback=cb, **kwargs)
        ends.append(np.array(res["x"]))
        if late:
            # Methods are free to evaluate elsewhere before they return.
            fun(np.array(start) + 0.25)
        return res

    starts = []
    late = bool(rng.random() < 0.5)
    del SEEN[:]
    scipy.optimize.minimize = minimize
    try:
        with goos.OptimizationPlan(save_path="it") as plan:
            x = goos.Variable(x0, name="x")
            it = goos.Variable(0, parameter=True, name="it")
            d = Watch(x) - t
            obj = goos.rename(goos.dot(goos.Constant(q), d**2), "obj")
            mons = [None, [], [obj], [x, obj]][int(rng.integers(4))]
            use_it = rng.random() < 0.6
            k = int(rng.integers(2, 30))
            goos.opt.scipy_minimize(obj, method, max_iters=k,
                                    monitor_list=mons,
                                    iteration=it if use_it else None)
            plan.run()
            final = plan.get_var_value(x)
            count = float(np.ravel(it.get().array)[0])
    finally:
        scipy.optimize.minimize = real
    ck.close(SEEN[0], x0, "starts-elsewhere", rtol=1e-12,
             detail={"method": method})
    steps = sorted(int(s[4:-4]) for s in os.listdir("it")
                   if s.startswith("step"))
    ck.expect(steps == list(range(1, len(steps) + 1)), "iterate-numbering")
    if ends:
        # As many records as iterations, each with the iterate of the method.
        ck.expect(len(steps) == len(records), "iterate-count",
                  {"logs": len(steps), "iterations": len(records)})
        ck.close(final, ends[-1].reshape(shape), "result-not-kept",
                 rtol=1e-12, detail={"method": method})
    for s, want in zip(steps, records or [None] * len(steps)):
        with open("it/step%d.pkl" % s, "rb") as fp:
            data = pickle.load(fp)
        val = data["variable_data"]["x"]["value"]
        if want is not None:
            ck.close(val, want.reshape(shape), "iterate-value", rtol=1e-12,
                     detail={"method": method, "step": s})
        ck.expect(set(data["monitor_data"]) == {
            m._goos_name for m in (mons or [])}, "monitor-names",
                  list(data["monitor_data"]))
        if "obj" in data["monitor_data"]:
            ck.close(np.ravel(data["monitor_data"]["obj"]),
                     [np.sum(q * (val - t)**2)], "iterate-objective",
                     rtol=1e-9)
        if "x" in data["monitor_data"]:
            ck.close(data["monitor_data"]["x"], val, "iterate-monitor",
                     rtol=1e-12)
        if use_it:
            ck.close(np.ravel(data["variable_data"]["it"]["value"]), [s],
                     "iterate-counter")
        ck.event("iterates")
    ck.close([count], [len(steps) if use_it else 0], "counter-variable")
    ck.key(method, shape, x0.tolist(), k, use_it)
    shutil.rmtree("it", ignore_errors=True)


@family(quick=60, thorough=600)
def tolerances(ck, rng):
    """The tolerances and limits asked for are those that are used: where the
    method itself gets to a gradient below `gtol`, so does the plan."""
    import scipy.optimize
    method = ["BFGS", "CG", "L-BFGS-B"][int(rng.integers(3))]
    n = int(rng.integers(2, 6))
    q = rng.uniform(0.5, 4, n)
    t = rng.uniform(-1, 1, n)
    x0 = rng.uniform(-2, 2, n)
    gtol = float(10.0**rng.uniform(-9, -2))
    flip = bool(rng.random() < 0.4)

    def fun(x):
        return np.sum(q * (x - t)**2) + 0.1 * np.sum(x**4)

    def jac(x):
        return 2 * q * (x - t) + 0.4 * x**3

    kw = {"max_iters": 2000, "gtol": gtol}
    opts = {"maxiter": 2000, "gtol": gtol}
    if method == "L-BFGS-B":
        kw["ftol"] = opts["ftol"] = 1e-18
        kw["maxls"] = opts["maxls"] = 40
    ref = scipy.optimize.minimize(fun, x0, jac=jac, method=method,
                                  options=opts)
    with goos.OptimizationPlan() as plan:
        x = goos.Variable(x0)
        obj = goos.dot(q, (x - t)**2) + 0.1 * goos.dot(np.ones(n), x**4)
        if flip:
            goos.opt.scipy_maximize(-obj, method=method, **kw)
        else:
            goos.opt.scipy_minimize(obj, method=method, **kw)
        plan.run()
        end = np.ravel(plan.get_var_value(x))
    gref, got = [np.max(np.abs(jac(p))) for p in (ref["x"], end)]
    if gref <= gtol:
        ck.expect(got <= 1.5 * gtol + 1e-11, "tolerance-ignored",
                  {"method": method, "gtol": gtol, "gradient": got})
        ck.event("tolerances")
    # A loose tolerance ends the run as early as the method itself does.
    if gtol > 1e-5:
        ck.close(end, ref["x"], "other-end-point", rtol=1e-6, atol=1e-8,
                 detail={"method": method, "gtol": gtol})
    ck.key(method, gtol, n, flip)
