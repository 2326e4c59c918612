"""C18: invdes objectives have the value and gradient they denote."""
import random
import threading
import time

import numpy as np
import scipy.sparse as sparse

from vlib.core import family
from spins.invdes import problem
from spins.invdes.parametrization import DirectParam, Parametrization
from spins.invdes.problem import graph_executor

RULE = ("random objective expressions with shared sub-expressions, constants, "
        "parameters, old-style functions and slow parallel nodes over random "
        "parametrizations, evaluated through every public entry point in long "
        "histories; oracle: forward-mode derivatives of an independent "
        "evaluator; distinct by expression")
REQUIRED_EVENTS = ["expressions", "penalties", "gradients", "shared", "parallel_nodes",
                   "chained_parallel", "old_style", "parameters", "vectors",
                   "problems", "slack_problems", "histories", "fits",
                   "constant_only", "complex_values", "errors", "lists",
                   "zero_values", "at_threshold", "array_operands",
                   "weighted_sums", "large_values", "fractional_powers",
                   "layers", "heavy_levels", "real_parts"]


class Map(Parametrization):
    """z = A tanh(B x): a parametrization with an arbitrary Jacobian."""

    def __init__(self, x, A):
        self.x, self.A = np.array(x, float), A

    def get_structure(self):
        return self.A @ np.tanh(self.x)

    def calculate_gradient(self):
        return self.A * (1 - np.tanh(self.x)**2)

    def encode(self):
        return self.x.copy()

    def decode(self, v):
        self.x = np.array(v, float)


class Old(problem.OptimizationFunction):
    """Old-style function: sum(w * z**2) + c, without listed inputs."""

    def __init__(self, w, c):
        self.w, self.c = w, c

    def calculate_objective_function(self, param):
        return float(np.sum(self.w * param.get_structure()**2) + self.c)

    def calculate_gradient(self, param):
        return (2 * self.w * param.get_structure()) @ param.calculate_gradient()


class Slow(problem.OptimizationFunction):
    """sin(sum of inputs), counted, in parallel with others."""

    def __init__(self, inputs, delay, log, heavy=True):
        super().__init__(inputs, heavy_compute=heavy)
        self.delay, self.log = delay, log

    def eval(self, v):
        self.log.append(("eval+", id(self)))
        time.sleep(self.delay)
        self.log.append(("eval-", id(self)))
        return np.sin(sum(v))

    def grad(self, v, g):
        self.log.append(("grad+", id(self)))
        time.sleep(self.delay)
        self.log.append(("grad-", id(self)))
        return [g * np.cos(sum(v))] * len(v)


class Dot(problem.OptimizationFunction):
    """Weighted sum of a vector."""

    def __init__(self, fun, w):
        super().__init__(fun)
        self.w = w

    def eval(self, v):
        return np.sum(self.w * v[0])

    def grad(self, v, g):
        return [g * self.w * np.ones(np.shape(v[0]))]


# -- reference: values with their derivatives with respect to z -------------
class D:

    def __init__(self, v, d):
        self.v, self.d = v, d


def _pick(rng, a):
    return a[int(rng.integers(len(a)))]


class Gen:

    def __init__(self, rng, n, ck, slow=False):
        self.rng, self.n, self.ck = rng, n, ck
        self.var = problem.Variable(n)
        self.pool = []  # (function, reference z -> D)
        self.params = []
        self.log = []
        self.slow_nodes = []
        self.slow = slow
        self.olds = []

    def leaf(self):
        r, n = self.rng, self.n
        k = int(r.integers(10))
        if k < 6:
            i = int(r.integers(-n, n))
            f = self.var[i] if r.random() < 0.5 else problem.ValueSlice(
                self.var, i)
            e = np.zeros(n)
            e[i] = 1
            return f, lambda z: D(z[i], e)
        if k < 8:
            c = float(_pick(r, [0, 1, -1, r.normal(), 2.0]))
            return problem.Constant(c), lambda z: D(c, np.zeros(n))
        if k == 8:
            box = [float(r.normal())]
            p = problem.Parameter(box[0])
            self.params.append((p, box))
            self.ck.event("parameters")
            return p, lambda z: D(box[0], np.zeros(n))
        w, c = r.normal(size=n), float(r.normal())
        self.ck.event("old_style")
        return Old(w, c), lambda z: D(np.sum(w * z**2) + c, 2 * w * z)

    def any(self):
        r = self.rng
        if self.pool and r.random() < 0.6:
            self.ck.event("shared")
            return _pick(r, self.pool)
        x = self.leaf()
        self.pool.append(x)
        return x

    def step(self):
        r, n = self.rng, self.n
        k = int(r.integers(15))
        f, a = self.any()
        g, b = self.any()
        c = _pick(r, [0, 1, 2, -1, 0.5, float(r.normal())])
        if k == 0:
            out = (f + g, lambda z: D(a(z).v + b(z).v, a(z).d + b(z).d))
        elif k == 1:
            out = (f * g, lambda z: D(a(z).v * b(z).v,
                                      a(z).d * b(z).v + a(z).v * b(z).d))
        elif k == 2:
            out = (f - g, lambda z: D(a(z).v - b(z).v, a(z).d - b(z).d))
        elif k == 3:
            h = _pick(r, [lambda: f * c, lambda: c * f,
                          lambda: f * problem.Constant(c),
                          lambda: f * np.array(c)])()
            out = (h, lambda z: D(a(z).v * c, a(z).d * c))
            self.ck.event("array_operands")
        elif k == 4:
            h, s, t = _pick(r, [(f + c, 1, 1), (c + f, 1, 1), (f - c, 1, -1),
                                (c - f, -1, 1), (f + np.array(c), 1, 1),
                                (f - problem.Constant(c), 1, -1),
                                (-f + c, -1, 1)])
            out = (h, lambda z: D(s * a(z).v + t * c, s * a(z).d))
        elif k == 5:
            p = _pick(r, [1, 2, 3, 2.0])
            h = f**(problem.Constant(p) if r.random() < 0.3 else p)
            out = (h, lambda z: D(a(z).v**p, p * a(z).v**(p - 1) * a(z).d))
        elif k == 6:
            out = (problem.AbsoluteValue(f),
                   lambda z: D(abs(a(z).v), (
                       np.sign(a(z).v) if a(z).v else np.nan) * a(z).d))
        elif k in (7, 8, 9):
            p = _pick(r, [1, 2, 3, 2])
            t = float(_pick(r, [0, r.normal(), 1.0]))
            w = float(abs(r.normal()))

            def pen(z):
                v, d = a(z).v, a(z).d
                hi = t if k == 7 else t + w
                up, dn = v - hi, t - v
                val, der = 0.0, 0.0
                if k != 8 and up > 0:
                    val, der = up**p, p * up**(p - 1)
                if k != 7 and dn > 0:
                    val, der = dn**p, -p * dn**(p - 1)
                return D(val, der * d)

            h = [problem.IndicatorPlus(f, alpha=t, power=p),
                 problem.IndicatorMin(f, beta=t, power=p),
                 problem.PowerComparison(f, [t, t + w], p)][k - 7]
            out = (h, pen)
        elif k in (10, 11):
            items = [self.any() for _ in range(int(r.integers(1, 5)))]

            def soft(z):
                x = np.array([i[1](z).v for i in items])
                J = np.array([i[1](z).d for i in items])
                e = np.exp(x - x.max())
                p = e / e.sum()
                if k == 10:
                    return D(x.max() + np.log(e.sum()), p @ J)
                m = p @ x
                return D(m, (p * (1 + x - m)) @ J)

            h = [problem.LogSumExp, problem.SoftmaxAverage][k - 10](
                [i[0] for i in items])
            out = (h, soft)
        elif k == 12:
            items = [self.any() for _ in range(int(r.integers(1, 5)))]
            ws = [float(_pick(r, [0, 1, r.normal()])) for _ in items]
            use = r.random() < 0.5
            h = problem.Sum([i[0] for i in items], **(
                {"weights": _pick(r, [ws, np.array(ws)])} if use else {}))
            if use:
                self.ck.event("weighted_sums")

            def tot(z):
                q = [i[1](z) for i in items]
                s = ws if use else [1] * len(q)
                return D(sum(m * x.v for m, x in zip(s, q)),
                         sum(m * x.d for m, x in zip(s, q)))

            out = (h, tot)
        elif k == 13:
            items = [self.any() for _ in range(int(r.integers(1, 5)))]

            def prod(z):
                q = [i[1](z) for i in items]
                v = np.prod([x.v for x in q])
                d = sum(x.d * np.prod([y.v for j, y in enumerate(q) if j != i])
                        for i, x in enumerate(q))
                return D(v, d)

            out = (problem.Product([i[0] for i in items]), prod)
        else:
            # Vectors: elementwise arithmetic on the whole variable.
            w, u = r.normal(size=n), r.normal(size=n)
            m = int(r.integers(3))
            q = float(r.normal())
            v = self.var
            h = [lambda: v * v * q + u, lambda: (v + u) * w * q,
                 lambda: problem.Product([v, problem.Constant(w),
                                          problem.Constant(q), v])][m]()
            ref = [lambda z: (z * z * q + u, 2 * z * q),
                   lambda z: ((z + u) * w * q, w * q),
                   lambda z: (z * z * w * q, 2 * z * w * q)][m]
            self.ck.event("vectors")
            s = r.normal(size=n)
            out = (Dot(h, s), lambda z: D(np.sum(s * ref(z)[0]),
                                          s * ref(z)[1]))
        self.pool.append(out)
        if self.slow and r.random() < 0.3:
            sitems = [_pick(r, self.pool)
                     for _ in range(int(r.integers(1, 3)))]
            if any(i[0] in self.slow_nodes for i in sitems):
                self.ck.event("chained_parallel")
            h = Slow([i[0] for i in sitems], float(_pick(
                r, [0, 0.001, 0.004])), self.log, bool(r.random() < 0.8))
            self.slow_nodes.append(h)
            self.ck.event("parallel_nodes")

            def sl(z):
                q = [i[1](z) for i in sitems]
                t = sum(x.v for x in q)
                return D(np.sin(t), np.cos(t) * sum(x.d for x in q))

            out = (h, sl)
            self.pool.append(out)
        return out


def _param(rng, n, ck):
    z = rng.normal(size=n)
    if rng.random() < 0.3:
        z[int(rng.integers(n))] = 0
        ck.event("zero_values")
    if rng.random() < 0.5:
        return DirectParam(z, bounds=None)
    m = int(rng.integers(1, 5))
    return Map(rng.normal(size=m), rng.normal(size=(n, m)))


def _tame(d):
    return np.isfinite(d.v) and abs(d.v) < 1e6 and np.all(
        np.isfinite(d.d)) and np.max(np.abs(d.d)) < 1e8


def _compare(ck, f, ref, param, info, smooth=True):
    z = np.array(param.get_structure())
    want = ref(z)
    if not _tame(want):
        return
    ck.event("expressions")
    got = f.calculate_objective_function(param)
    ck.close(np.real(got), want.v, "objective-value", rtol=1e-9, detail=info)
    # Only where no kink is near is the gradient defined.
    eps = 1e-6
    near = [ref(z + eps * s) for s in (np.ones(len(z)), -np.ones(len(z)))]
    rs = random.Random(1)
    for _ in range(2):
        near.append(ref(z + eps * np.array([rs.uniform(-1, 1) for _ in z])))
    if any(np.max(np.abs(q.d - want.d)) > 1e-2 * (1 + np.max(np.abs(want.d)))
           for q in near):
        return
    if not smooth:
        return
    g = f.calculate_gradient(param)
    J = param.calculate_gradient()
    wg = want.d @ (J.toarray() if sparse.issparse(J) else J)
    ck.event("gradients")
    ck.expect(np.shape(g) == np.shape(param.to_vector()), "gradient-shape",
              {"shape": np.shape(g), **info})
    ck.close(np.real(g), wg, "objective-gradient", rtol=1e-7, detail=info)


def _kinky(ref, z):
    """Whether the reference has an exact kink at z (abs or threshold at 0)."""
    d0 = ref(z).d
    for s in (1e-9, -1e-9):
        for e in np.eye(len(z)):
            if np.max(np.abs(ref(z + s * e).d - d0)) > 1e-4 * (
                    1 + np.max(np.abs(d0))):
                return True
    return False


@family(quick=4000, thorough=40000)
def expressions(ck, rng):
    n = int(rng.integers(1, 6))
    g = Gen(rng, n, ck)
    for _ in range(int(rng.integers(1, 12))):
        f, ref = g.step()
    param = _param(rng, n, ck)
    ck.key(str(type(f)), n, len(g.pool), float(np.real(
        ref(np.linspace(0.1, 0.9, n)).v)))
    ck.sample({"expression": str(type(f).__name__), "nodes": len(g.pool)})
    info = {"nodes": len(g.pool), "type": type(f).__name__}
    with np.errstate(all="ignore"):
        z = np.array(param.get_structure())
        if not _tame(ref(z)) or _kinky(ref, z):
            return
        _compare(ck, f, ref, param, info)
        # Histories: change the parametrization and the parameters; the same
        # function object must follow.
        for _ in range(int(rng.integers(0, 4))):
            ck.event("histories")
            if g.params and rng.random() < 0.5:
                p, box = _pick(rng, g.params)
                box[0] = float(_pick(rng, [rng.normal(), 0, 1]))
                p.set_parameter_value(box[0])
            else:
                param.from_vector(rng.normal(size=len(param.to_vector())))
            z = np.array(param.get_structure())
            if _tame(ref(z)) and not _kinky(ref, z):
                _compare(ck, f, ref, param, info)
        # Several functions at once.
        sel = [_pick(rng, g.pool) for _ in range(int(rng.integers(1, 5)))]
        z = np.array(param.get_structure())
        want = [s[1](z) for s in sel]
        if all(_tame(w) for w in want):
            ck.event("lists")
            vals = graph_executor.eval_fun([s[0] for s in sel], param)
            ck.close(np.real(np.array(vals)), [w.v for w in want],
                     "list-of-objectives", detail=info)


@family(quick=600, thorough=6000, timeout=60)
def parallel(ck, rng):
    """Slow nodes, alone, chained and mixed, run once and after their inputs."""
    n = int(rng.integers(1, 5))
    g = Gen(rng, n, ck, slow=True)
    for _ in range(int(rng.integers(3, 9))):
        f, ref = g.step()
    # Sum of everything that is slow, so that it all is evaluated.
    if g.slow_nodes:
        slow = [p for p in g.pool if p[0] in g.slow_nodes]
        f = problem.Sum([s[0] for s in slow])
        ref = lambda z: D(sum(s[1](z).v for s in slow),
                          sum(s[1](z).d for s in slow))
    param = _param(rng, n, ck)
    z = np.array(param.get_structure())
    info = {"nodes": len(g.pool), "slow": len(g.slow_nodes)}
    ck.key(n, len(g.pool), len(g.slow_nodes))
    with np.errstate(all="ignore"):
        if not _tame(ref(z)) or _kinky(ref, z):
            return
        for what in ("eval", "grad"):
            del g.log[:]
            if what == "eval":
                got = f.calculate_objective_function(param)
                ck.close(np.real(got), ref(z).v, "objective-value",
                         detail=info)
            else:
                got = f.calculate_gradient(param)
                J = param.calculate_gradient()
                ck.close(np.real(got), ref(z).d @ (
                    J.toarray() if sparse.issparse(J) else J),
                    "objective-gradient", rtol=1e-7, detail=info)
            ev = [e for e in list(g.log) if e[0] == "eval+"]
            ck.expect(len(ev) == len(set(ev)), "evaluated-twice", info)
            gr = [e for e in list(g.log) if e[0] == "grad+"]
            ck.expect(len(gr) == len(set(gr)), "gradient-twice", info)
            ck.event("expressions")


@family(quick=400, thorough=6000, timeout=60)
def layers(ck, rng):
    """Slow nodes that feed slow nodes, with nothing in between."""
    n = int(rng.integers(1, 4))
    v = problem.Variable(n)
    log, every, level = [], [], []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1
        every.append((v[i], lambda z, i=i, e=e: D(z[i], e)))
    depth = int(rng.integers(2, 5))
    ck.event("heavy_levels", depth)
    for d in range(depth):
        new = []
        for _ in range(int(rng.integers(1, 5))):
            src = level if level and rng.random() < 0.8 else every
            items = [_pick(rng, src) for _ in range(int(rng.integers(1, 4)))]
            h = Slow([i[0] for i in items],
                     float(_pick(rng, [0, 0, 0.001, 0.003])), log,
                     bool(rng.random() < 0.95))

            def ref(z, items=items):
                q = [i[1](z) for i in items]
                t = sum(x.v for x in q)
                return D(np.sin(t), np.cos(t) * sum(x.d for x in q))

            new.append((h, ref))
        every += new
        level = new
    # Every result, wherever it is in the layers, is asked for.
    sel = [s for s in every[n:] if rng.random() < 0.7] or [every[-1]]
    ws = rng.normal(size=len(sel))
    order = rng.permutation(len(sel))
    sel = [sel[i] for i in order]
    f = problem.Sum([s[0] for s in sel], weights=ws) if len(
        sel) > 1 or rng.random() < 0.5 else sel[0][0]
    if f is sel[0][0]:
        ws = np.ones(1)
    param = _param(rng, n, ck)
    z = np.array(param.get_structure())
    want = [s[1](z) for s in sel]
    ck.event("layers")
    ck.key("layers", n, depth, len(every), len(sel))
    info = {"depth": depth, "nodes": len(every), "outputs": len(sel)}
    ck.close(f.calculate_objective_function(param),
             sum(w * q.v for w, q in zip(ws, want)), "objective-value",
             detail=info)
    J = param.calculate_gradient()
    J = J.toarray() if sparse.issparse(J) else J
    del log[:]
    ck.close(f.calculate_gradient(param),
             sum(w * q.d for w, q in zip(ws, want)) @ J,
             "objective-gradient", rtol=1e-7, detail=info)
    for what in ("eval+", "grad+"):
        ev = [e for e in list(log) if e[0] == what]
        ck.expect(len(ev) == len(set(ev)), "evaluated-twice", info)
    vals = graph_executor.eval_fun([s[0] for s in sel], param)
    ck.close(np.array(vals), [q.v for q in want], "list-of-objectives",
             detail=info)


@family(quick=300, thorough=4000)
def stress(ck, rng):
    """Values far from one: large, tiny, fractional powers, negative parts."""
    n = int(rng.integers(2, 5))
    v = problem.Variable(n)
    mag = float(_pick(rng, [1e-3, 1, 50, 400, 800, 2e3, 1e5]))
    z = rng.normal(size=n) * mag
    if rng.random() < 0.3:
        z[1] = z[0]
    param = DirectParam(z, bounds=None)
    x = z
    e = np.exp(x - x.max())
    p = e / e.sum()
    m = p @ x
    ck.event("large_values")
    ck.key("stress", mag, n)
    info = {"z": z.tolist()}
    fs = [v[i] for i in range(n)]
    soft = [(problem.LogSumExp(fs), x.max() + np.log(e.sum()), p),
            (problem.SoftmaxAverage(fs), m, p * (1 + x - m))]
    for f, val, grad in soft:
        ck.close(f.calculate_objective_function(param), val, "soft-maximum",
                 rtol=1e-9, atol=1e-9, detail=info)
        ck.close(f.calculate_gradient(param), grad, "soft-maximum-gradient",
                 rtol=1e-7, atol=1e-7 * max(1, mag), detail=info)
    q = float(_pick(rng, [0.5, 1.5, -1, -0.5, 2.5, 0, 3, -2]))
    y = np.abs(z) + 0.1
    param = DirectParam(y, bounds=None)
    ck.event("fractional_powers")
    f = v[0]**q * v[1]**(-q) + 2 * v[1]**0.5
    ck.close(f.calculate_objective_function(param),
             (y[0] / y[1])**q + 2 * y[1]**0.5, "power-value", rtol=1e-9,
             detail={"power": q, **info})
    want = np.zeros(n)
    want[0] = q * (y[0] / y[1])**q / y[0]
    want[1] = -q * (y[0] / y[1])**q / y[1] + y[1]**-0.5
    ck.close(f.calculate_gradient(param), want, "power-gradient", rtol=1e-8,
             atol=1e-12, detail={"power": q, **info})
    # Real parts may be negative.
    c = complex(rng.normal(), rng.normal())
    param = DirectParam(z, bounds=None)
    f = problem.RealPart(v[0] * problem.Constant(abs(c.real)) +
                         problem.Constant(c))
    ck.event("real_parts")
    ck.close(f.calculate_objective_function(param), z[0] * abs(c.real) +
             c.real, "real-part", rtol=1e-12, detail=info)


@family(quick=60, thorough=1000)
def constants(ck, rng):
    """Objectives that do not depend on the parametrization at all."""
    n = int(rng.integers(1, 5))
    a, b = (float(_pick(rng, [0, 1, -2, rng.normal()])) for _ in range(2))
    p = int(rng.integers(1, 4))
    A, B = problem.Constant(a), problem.Constant(b)
    k = int(rng.integers(7))
    f, want = [(A + B, a + b), (A * B, a * b), (A - B, a - b), (-A, -a),
               (A**p, a**p), (A**problem.Constant(p), a**p),
               (problem.Sum([A, problem.Parameter(b)]) * 2, 2 * (a + b))][k]
    param = _param(rng, n, ck)
    ck.event("constant_only")
    ck.key(k, a, b)
    ck.close(f.calculate_objective_function(param), want, "objective-value")
    gr = np.asarray(f.calculate_gradient(param))
    m = len(param.to_vector())
    ck.expect(gr.shape == (m,) and not np.any(gr), "constant-gradient",
              {"shape": gr.shape, "case": k})
    # A constant does not follow later changes of the array it was given.
    arr = rng.normal(size=n)
    keep = arr.copy()
    C = problem.Constant(arr)
    f = Dot(problem.Variable(n) * C, np.ones(n))
    arr += 1
    z = rng.normal(size=n)
    q = DirectParam(z, bounds=None)
    ck.close(f.calculate_objective_function(q), np.sum(keep * z),
             "constant-follows-its-argument")
    ck.close(f.calculate_gradient(q), keep, "objective-gradient")


@family(quick=80, thorough=1500)
def complexes(ck, rng):
    """|sum of complex multiples|: real gradients of complex functions."""
    n = int(rng.integers(1, 5))
    v = problem.Variable(n)
    cs = rng.normal(size=n) + 1j * rng.normal(size=n)
    c0 = complex(rng.normal(), rng.normal())
    s = problem.Constant(c0)
    for i in range(n):
        s = s + v[i] * problem.Constant(cs[i])
    kind = int(rng.integers(3))
    x = problem.AbsoluteValue(s)
    f = [x, x**2, problem.RealPart(x**2 + problem.Constant(1 + 0j)) +
         v[0]**2][kind]
    z = rng.normal(size=n)
    param = DirectParam(z, bounds=None)
    val = lambda z: [lambda m: m, lambda m: m**2,
                     lambda m: m**2 + 1 + z[0]**2][kind](abs(c0 + cs @ z))
    ck.event("complex_values")
    ck.key(kind, n, c0)
    ck.close(f.calculate_objective_function(param), val(z),
             "objective-value", detail={"kind": kind})
    g = np.real(f.calculate_gradient(param))
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1e-5
        ck.close(g[i], (val(z + e) - val(z - e)) / 2e-5,
                 "objective-gradient", rtol=1e-5, atol=1e-6,
                 detail={"kind": kind})


@family(quick=150, thorough=3000)
def thresholds(ck, rng):
    """Penalties: zero inside, the stated power outside, exactly at the edge."""
    v = problem.Variable(1)
    t = float(_pick(rng, [0, 1, -1, rng.normal()]))
    w = float(_pick(rng, [0, 1, abs(rng.normal())]))
    p = float(_pick(rng, [1, 2, 3, 1.5]))
    x = float(_pick(rng, [t, t + w, t - 0.5, t + w + 0.5, t + w / 2,
                          rng.normal()]))
    if x in (t, t + w):
        ck.event("at_threshold")
    param = DirectParam([x], bounds=None)
    f = [problem.IndicatorPlus(v[0], alpha=t, power=p),
         problem.IndicatorMin(v[0], beta=t, power=p),
         problem.PowerComparison(v[0], np.array([t, t + w]), p)]
    up, dn = max(x - t, 0), max(t - x, 0)
    up2 = max(x - (t + w), 0)
    want = [up**p, dn**p, up2**p + dn**p]
    der = [p * up**(p - 1) if up else 0, -p * dn**(p - 1) if dn else 0,
           (p * up2**(p - 1) if up2 else 0) - (p * dn**(p - 1) if dn else 0)]
    ck.key(t, w, p, x)
    for k in range(3):
        info = {"kind": k, "threshold": t, "width": w, "power": p, "x": x}
        ck.close(f[k].calculate_objective_function(param), want[k],
                 "penalty-value", rtol=1e-12, detail=info)
        ck.close(f[k].calculate_gradient(param), [der[k]],
                 "penalty-gradient", rtol=1e-12, detail=info)


@family(quick=1000, thorough=8000)
def problems(ck, rng):
    """Problems and their slack form report the same functions."""
    n = int(rng.integers(1, 5))
    g = Gen(rng, n, ck)
    for _ in range(int(rng.integers(2, 8))):
        g.step()
    ne, ni = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    obj = _pick(rng, g.pool)
    eq = [_pick(rng, g.pool) for _ in range(ne)]
    iq = [_pick(rng, g.pool) for _ in range(ni)]
    lists = [[e[0] for e in eq], [e[0] for e in iq]]
    opt = problem.OptimizationProblem(
        obj[0], **({"cons_eq": lists[0]} if eq or rng.random() < .5 else {}),
        **({"cons_ineq": lists[1]} if iq or rng.random() < .5 else {}))
    param = _param(rng, n, ck)
    if rng.random() < 0.5 and isinstance(param, DirectParam):
        lo, hi = _pick(rng, [(0, 1), (-5, None), (None, 5),
                             ([-9.0] * n, [9.0] * n),
                             (np.full(n, -9.0), np.full(n, 9.0))])
        param = DirectParam(param.to_vector(), bounds=[lo, hi])
        param.project()
    m = len(param.to_vector())
    z = np.array(param.get_structure())
    J = param.calculate_gradient()
    J = J.toarray() if sparse.issparse(J) else np.asarray(J)
    with np.errstate(all="ignore"):
        every = [q[1](z) for q in [obj] + eq + iq]
        if not all(_tame(q) for q in every) or any(
                _kinky(q[1], z) for q in [obj] + eq + iq):
            return
        ck.event("problems")
        ck.key(n, ne, ni)
        info = {"eq": ne, "ineq": ni}
        ck.close(opt.calculate_objective_function(param), every[0].v,
                 "objective-value", detail=info)
        ck.close(opt.calculate_gradient(param), every[0].d @ J,
                 "objective-gradient", rtol=1e-7, detail=info)
        ce, ci = opt.calculate_constraints(param)
        ge, gi = opt.calculate_constraint_gradients(param)
        we, wi = every[1:1 + ne], every[1 + ne:]
        ck.expect(len(ce) == ne and len(ci) == ni and len(ge) == ne and
                  len(gi) == ni, "number-of-constraints", info)
        ck.close(np.real(ce), [q.v for q in we], "constraint-value",
                 detail=info)
        ck.close(np.real(ci), [q.v for q in wi], "constraint-value",
                 detail=info)
        for got, want in zip(list(ge) + list(gi), we + wi):
            ck.close(got, want.d @ J, "constraint-gradient", rtol=1e-7,
                     detail=info)
        # Slack form.
        sl = problem.SlackOptimizationProblem(opt)
        sp = sl.build_param(param)
        ck.event("slack_problems")
        x = np.array(sp.to_vector())
        ck.expect(len(x) == m + ni and not np.any(x[m:]), "slack-vector", info)
        s = np.abs(rng.normal(size=ni))
        x[m:] = s
        sp.from_vector(x)
        given = x.copy()
        sp.from_vector(given)
        given += 1  # the caller goes on using its vector
        ck.close(sp.to_vector(), x, "slack-vector", detail=info)
        ck.close(sp.get_structure(), param.get_structure(), "slack-structure")
        b = sp.get_bounds()
        pb = param.get_bounds()
        if pb is None:
            pb = ([None] * m, [None] * m)
        same = lambda a, c: len(a) == len(c) and all(
            (p is None) == (q is None) and (p is None or p == q)
            for p, q in zip(a, c))
        ck.expect(same(b[0], list(pb[0]) + [0] * ni) and
                  same(b[1], list(pb[1]) + [None] * ni), "slack-bounds",
                  {"got": str(b), "bounds": str(pb), "slack": ni})
        ck.close(sl.calculate_objective_function(sp), every[0].v,
                 "slack-objective", detail=info)
        ck.close(sl.calculate_gradient(sp), np.append(
            every[0].d @ J, np.zeros(ni)), "slack-gradient", rtol=1e-7,
            detail=info)
        ce, ci = sl.calculate_constraints(sp)
        ge, gi = sl.calculate_constraint_gradients(sp)
        ck.expect(len(ci) == 0 and len(gi) == 0, "slack-inequalities", info)
        ck.close(np.real(ce), [q.v for q in we] + [
            q.v + t for q, t in zip(wi, s)], "slack-constraint", detail=info)
        for i, got in enumerate(ge):
            e = np.zeros(ni)
            if i >= ne:
                e[i - ne] = 1
            ck.close(got, np.append((we + wi)[i].d @ J, e),
                     "slack-constraint-gradient", rtol=1e-7, detail=info)
        d = sp.serialize()
        sp.from_vector(np.zeros(m + ni))
        sp.deserialize(d)
        ck.close(sp.to_vector(), x, "slack-serialization", detail=info)


@family(quick=60, thorough=800)
def fits(ck, rng):
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 10))
    S = sparse.random(k, n, 0.6, random_state=int(rng.integers(2**31)))
    cplx = rng.random() < 0.4
    mk = lambda: rng.normal(size=k) + (1j * rng.normal(size=k) if cplx else 0)
    if cplx:
        S = S * (1 + 0.5j)
    bg, eps = mk(), mk()
    f = problem.Fit2Eps(bg, S, eps)
    param = _param(rng, n, ck)
    x = param.to_vector().copy()

    def val(y):
        param.from_vector(y)
        return np.sum(np.abs(bg + S @ param.get_structure() - eps)**2)

    ck.event("fits")
    ck.key(n, k, cplx)
    ck.close(f.calculate_objective_function(param), val(x), "fit-value")
    g = np.array(f.calculate_gradient(param))
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = 1e-5
        ck.close(g[i], (val(x + e) - val(x - e)) / 2e-5, "fit-gradient",
                 rtol=1e-5, atol=1e-6)
    param.from_vector(x)


class _Levelset:
    """A stand-in for a level set: penalties that depend on the size they are
    asked for, and their derivatives."""

    def __init__(self, x):
        self.x = x

    def calculate_gap_penalty(self, d):
        return np.sum(np.sin(d * self.x))

    def calculate_gap_penalty_gradient(self, d):
        return d * np.cos(d * self.x)

    def calculate_curv_penalty(self, d):
        return np.sum(np.exp(d * self.x) / d)

    def calculate_curv_penalty_gradient(self, d):
        return np.exp(d * self.x)


@family(quick=80, thorough=1000)
def penalties(ck, rng):
    """Penalties on the parametrization: discreteness and feature sizes."""
    import types
    from spins.invdes.problem import structure_objectives
    from spins.invdes.problem_graph import creator_param, optplan, workspace
    n = int(rng.integers(1, 6))
    ck.event("penalties")
    ck.key(n)

    # z (1 - z), alone and inside larger expressions.
    z = rng.uniform(-0.2, 1.2, n)
    if rng.random() < 0.4:
        z[int(rng.integers(n))] = float(rng.choice([0., 1., 0.5]))
    param = DirectParam(z.copy(), bounds=None)
    pen = creator_param.DiscretePenaltyFun(problem.Variable(n))
    w, p, off = rng.normal(), int(rng.integers(1, 4)), rng.normal()
    f = w * pen**p + off
    v = np.sum(z * (1 - z))
    ck.close(pen.calculate_objective_function(param), v, "discrete-value")
    ck.close(pen.calculate_gradient(param), 1 - 2 * z, "discrete-gradient")
    ck.close(f.calculate_objective_function(param), w * v**p + off,
             "discrete-value")
    ck.close(f.calculate_gradient(param),
             w * p * v**(p - 1) * (1 - 2 * z), "discrete-gradient")

    # Gap and curvature.
    x = rng.uniform(-1, 1, n)
    ls = _Levelset(x)
    gap, curv = rng.uniform(2, 9, 2)
    for method in (0, 1, 2):
        for factors in (False, True):
            f = creator_param.FabricationPenalty(gap, curv, method, factors)
            dg = np.pi / gap / (1.2 if factors else 1)
            dc = np.pi / curv / (1.1 if factors else 1)
            val, grad = 0, 0
            if method in (0, 2):
                val += ls.calculate_gap_penalty(dg)
                grad += ls.calculate_gap_penalty_gradient(dg)
            if method in (1, 2):
                val += ls.calculate_curv_penalty(dc)
                grad += ls.calculate_curv_penalty_gradient(dc)
            info = dict(method=method, factors=factors, gap=gap, curv=curv)
            ck.close(f.calculate_objective_function(ls), val,
                     "fabrication-value", detail=info)
            ck.close(f.calculate_gradient(ls), grad, "fabrication-gradient",
                     detail=info)
        f = structure_objectives.FabricationConstraint(gap, method)
        for weight in (1, rng.uniform(0.1, 3), np.array([2.5])):
            f.set_weight_factor(weight)
            dg, dc = np.pi / 1.2 / gap, np.pi / 1.15 / gap
            val = ls.calculate_gap_penalty(dg)
            grad = ls.calculate_gap_penalty_gradient(dg)
            if method == 2:
                val += ls.calculate_curv_penalty(dc)
                grad = grad + ls.calculate_curv_penalty_gradient(dc)
            q = float(np.squeeze(weight))
            ck.close(f.calculate_objective_function(ls), q * val,
                     "fabrication-value", detail=dict(method=method))
            ck.close(f.calculate_gradient(ls), q * grad,
                     "fabrication-gradient", detail=dict(method=method))
    # As a plan asks for them: sizes in nm, on a grid of half the mesh size.
    dx = rng.uniform(10, 60)
    space = types.SimpleNamespace(dx=dx)
    work = types.SimpleNamespace(
        get_object=lambda o: var if o == workspace.VARIABLE_NODE else space)
    var = problem.Variable(n)
    ck.close(creator_param.create_discrete_penalty(
        optplan.DiscretePenalty(), work).calculate_objective_function(param),
        v, "discrete-value")
    for method in ("gap", "curv", "gap_and_curve"):
        factors = bool(rng.random() < 0.5)
        f = creator_param.create_fabrication_constraint(
            optplan.FabricationConstraint(
                minimum_curvature_diameter=curv * dx / 2,
                minimum_gap=gap * dx / 2, method=method,
                simulation_space=optplan.SimulationSpace(),
                apply_factors=factors), work)
        dg = np.pi / gap / (1.2 if factors else 1)
        dc = np.pi / curv / (1.1 if factors else 1)
        ck.close(f.calculate_objective_function(ls),
                 (method != "curv") * ls.calculate_gap_penalty(dg) +
                 (method != "gap") * ls.calculate_curv_penalty(dc),
                 "fabrication-value", detail=dict(method=method, dx=dx))
    bad = creator_param.FabricationPenalty(gap, curv, 3)
    ck.raises(ValueError, lambda: bad.calculate_objective_function(ls),
              "fabrication-method")
    ck.raises(ValueError, lambda: bad.calculate_gradient(ls),
              "fabrication-method")


@family(quick=40, thorough=300)
def errors(ck, rng):
    n = int(rng.integers(1, 4))
    a, b = problem.Variable(n), problem.Variable(n)
    param = DirectParam(rng.normal(size=n), bounds=None)
    ck.event("errors")
    ck.key(n)
    f = a[0] + b[0]
    ck.raises(ValueError, lambda: f.calculate_objective_function(param),
              "two-variables")
    ck.raises(ValueError, lambda: f.calculate_gradient(param),
              "two-variables")
    for op in (lambda: a[0] + "x", lambda: a[0] * "x", lambda: a[0]**"x",
               lambda: a[0]**b[0], lambda: (a[0] + a[0]) + "x",
               lambda: (a[0] * a[0]) * None):
        ck.raises(TypeError, op, "unknown-operand")

    class Broken(Exception):
        pass

    class Fails(Slow):

        def __init__(self, inputs, where, heavy):
            super().__init__(inputs, 0, [], heavy)
            self.where = where

        def eval(self, v):
            if self.where == "eval":
                raise Broken()
            return super().eval(v)

        def grad(self, v, g):
            if self.where == "grad":
                raise Broken()
            return super().grad(v, g)

    for heavy in (False, True):
        h = Fails([a[0]], "eval", heavy) + Slow([a[0]], 0.001, [])
        ck.raises(Broken, lambda: h.calculate_objective_function(param),
                  "lost-exception")
        h = Fails([a[0]], "grad", heavy) + Slow([a[0]], 0.001, [])
        ck.raises(Broken, lambda: h.calculate_gradient(param),
                  "lost-exception")
    bad = problem.OptimizationProblem(a[0], [h, a[0]], [a[0]])
    ck.raises(Broken, lambda: bad.calculate_constraint_gradients(param),
              "lost-exception")
