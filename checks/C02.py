"""C02: goos gradients equal the derivative for every graph shape."""
import numpy as np

from vlib.core import family
from vlib import goosgen
from spins import goos

RULE = ("random real-valued goos DAGs with a scalar objective; the gradient "
        "returned by the real executor is compared with an independent "
        "forward-mode derivative; non-trivial if at least 3 operation kinds "
        "feed the objective; distinct by expression text and values")
REQUIRED_EVENTS = ["gradients_compared", "shared_subexpression", "frozen_zero",
                   "parallel_gradients", "unrelated_zero", "small_changes",
                   "repeated_inputs"]


def _flat(e):
    """Number of uses of each node below `e` (to observe sharing)."""
    uses = {}
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        for d in x.deps:
            uses[id(d)] = uses.get(id(d), 0) + 1
            if id(d) not in seen:
                seen.add(id(d))
                stack.append(d)
    return uses


def _compare(ck, obj, exprs, grads, frozen=()):
    for v, g in zip(exprs, grads):
        want = obj.jac[v.var_slice].reshape(v.shape)
        if any(v is f for f in frozen):
            want = np.zeros(v.shape)
            ck.event("frozen_zero")
        got = np.asarray(g.array_grad)
        ck.event("gradients_compared")
        if got.size == 1 and want.size == 1:
            got = got.reshape(want.shape)
        ck.close(got, want, "gradient", rtol=1e-8,
                 scale=np.max(np.abs(obj.jac), initial=0),
                 detail=lambda: obj.text)


def _objective(rng, n, **kwargs):
    gen = goosgen.GraphGen(rng, **kwargs)
    gen.grow(n)
    return gen, gen.scalar_objective()


def _note(ck, gen, obj):
    uses = _flat(obj)
    ck.event("shared_subexpression", sum(1 for u in uses.values() if u > 1))
    for k, v in gen.count.items():
        ck.event("op_" + k, v)
    if len(gen.count) >= 3 and len(uses) >= 3:
        ck.key(obj.text, [v.val.tolist() for v in gen.variables])


@family(quick=1200, thorough=15000)
def gradient(ck, rng):
    with goos.OptimizationPlan() as plan:
        gen, obj = _objective(rng, int(rng.integers(3, 14)))
        ck.close(np.ravel(obj.node.get().array), [obj.val],
                 "objective-value", rtol=1e-9, detail=obj.text)
        grads = obj.node.get_grad([v.node for v in gen.variables])
        _compare(ck, obj, gen.variables, grads)
        # Permuted and partial requests, after the first one.
        order = rng.permutation(len(gen.variables))
        order = order[:int(rng.integers(1, len(order) + 1))]
        sub = [gen.variables[i] for i in order]
        _compare(ck, obj, sub, obj.node.get_grad([v.node for v in sub]))
        _note(ck, gen, obj)
        ck.sample({"objective": obj.text, "vars": [v.val
                                                   for v in gen.variables],
                   "grad": obj.jac})


@family(quick=350, thorough=4000)
def gradient_parallel(ck, rng):
    """Random nodes are marked for parallel execution."""
    with goos.OptimizationPlan() as plan:
        gen, obj = _objective(rng, int(rng.integers(4, 12)))
        frac = rng.choice([0.2, 0.5, 1.0])
        marked = 0
        for e in gen.pool:
            if hasattr(e, "var_slice"):
                continue
            if rng.random() < frac:
                e.node.parallelize()
                marked += 1
        if rng.random() < 0.5:
            obj.node.parallelize()
        grads = obj.node.get_grad([v.node for v in gen.variables])
        _compare(ck, obj, gen.variables, grads)
        ck.event("parallel_gradients", marked)
        _note(ck, gen, obj)


@family(quick=350, thorough=4000)
def gradient_state(ck, rng):
    """Frozen variables, parameters, unrelated variables and moved states."""
    with goos.OptimizationPlan() as plan:
        gen, obj = _objective(rng, int(rng.integers(3, 10)), nvars=3)
        other = goos.Variable(rng.normal(size=3))
        target = [v.val.copy() for v in gen.variables]
        for v in gen.variables:
            v.node.set(rng.uniform(0.4, 1.6, v.shape))
        plan.run()
        obj.node.get_grad([v.node for v in gen.variables])
        for v, t in zip(gen.variables, target):
            v.node.set(np.array(t))
        frozen = [v for v in gen.variables if rng.random() < 0.4]
        for v in frozen:
            v.node.freeze()
        plan.run()
        ask = [v.node for v in gen.variables] + [other]
        grads = obj.node.get_grad(ask)
        _compare(ck, obj, gen.variables, grads, frozen)
        ck.close(grads[-1].array_grad, np.zeros(3), "unrelated-gradient")
        ck.event("unrelated_zero")
        for v in frozen:
            v.node.thaw()
        plan.run()
        _compare(ck, obj, gen.variables,
                 obj.node.get_grad([v.node for v in gen.variables]))
        for v, t in zip(gen.variables, target):
            ck.close(plan.get_var_value(v.node), t, "state-changed-by-grad")
        _note(ck, gen, obj)


@family(quick=250, thorough=3000)
def gradient_wrt_node(ck, rng):
    """Gradient with respect to an intermediate node of the graph."""
    with goos.OptimizationPlan() as plan:
        gen = goosgen.GraphGen(rng)
        gen.grow(int(rng.integers(2, 6)))
        # Sums and products are merged into their users, so a user of such a
        # node does not necessarily refer to it.
        mid = gen.pick(lambda e: e.deps and not isinstance(
            e.node, (goos.Sum, goos.Product, goos.Variable)))
        if mid is None:
            return
        gen2 = goosgen.GraphGen.__new__(goosgen.GraphGen)
        gen2.rng, gen2.count = rng, {}
        gen2.nx = mid.val.size
        leaf = goosgen.Expr(
            mid.node, mid.val,
            np.eye(mid.val.size).reshape(mid.shape + (mid.val.size,)), "m")
        leaf.var_slice = slice(0, mid.val.size)
        gen2.pool, gen2.variables = [leaf], [leaf]
        gen2.grow(int(rng.integers(2, 7)))
        obj = gen2.scalar_objective()
        _compare(ck, obj, [leaf], obj.node.get_grad([mid.node]))
        ck.event("wrt_intermediate")
        if len(gen2.count) >= 2:
            ck.key(mid.text, obj.text)


@family(quick=40, thorough=200)
def zero_norm(ck, rng):
    """The norm of a zero vector is documented to have zero gradient."""
    with goos.OptimizationPlan() as plan:
        n = int(rng.integers(1, 5))
        x = goos.Variable(np.zeros(n))
        y = goos.Variable(rng.normal(size=n))
        order = int(rng.integers(1, 4))
        c = float(rng.normal())
        obj = c * goos.norm(x, order) + goos.dot(y, y)
        gx, gy = obj.get_grad([x, y])
        ck.close(gx.array_grad, np.zeros(n), "zero-norm-gradient")
        ck.close(gy.array_grad, 2 * y.get().array, "zero-norm-other")
        ck.key(n, order, c)
        ck.event("zero_norm")


@family(quick=200, thorough=2000)
def extremes(ck, rng):
    """Tiny, huge, mixed and saturated values: elementwise accuracy."""
    n = int(rng.integers(2, 6))
    with goos.OptimizationPlan():
        s = 10.0**rng.uniform(-10, 6)
        v = rng.uniform(0.5, 2, n) * rng.choice([-1, 1], n) * s
        if rng.random() < 0.7:
            v = v * 10.0**rng.uniform(-5, 5, n)
        w = rng.uniform(0.5, 2, n) * rng.choice([-1, 1], n)
        x = goos.Variable(v)
        order = int(rng.integers(1, 5))
        nv = np.sum(np.abs(v)**order)**(1.0 / order)
        z = rng.uniform(-60, 60, n)
        zz = goos.Variable(z)
        sg = 1 / (1 + np.exp(-z))
        cases = [
            ("norm", goos.norm(x, order), x,
             np.sign(v) * (np.abs(v) / nv)**(order - 1)),
            ("abs", goos.dot(w, goos.abs(x)), x, w * np.sign(v)),
            ("inv", goos.dot(w, x**-1), x, -w / v**2),
            ("sqr", goos.dot(w, x**2), x, 2 * w * v),
            ("sigmoid", goos.dot(w, goos.Sigmoid(zz)), zz,
             w * sg * (1 / (1 + np.exp(z)))),
            ("max-self", goos.dot(w, goos.max(x, x, x - 1e-3 * np.abs(v))), x,
             w),
        ]
        for name, obj, var, want in cases:
            got = np.asarray(obj.get_grad([var])[0].array_grad)
            tol = 1e-9 * np.abs(want)
            if name == "sigmoid":
                tol = tol + 1e-15
            if name == "norm":
                tol = tol + 1e-12
                # Elements far below the others must still get their share.
            ck.expect(got.shape == want.shape and bool(
                np.all(np.abs(got - want) <= tol)), "extreme-gradient",
                      {"op": name, "order": order, "x": v, "z": z,
                       "got": got, "want": want})
            ck.event("extreme_gradients")
        ck.key(order, v.tolist())


@family(quick=200, thorough=2000)
def wirtinger(ck, rng):
    """Real objectives of complex nodes have the derivative d/dz."""
    n = int(rng.integers(2, 6))

    def rc(shape):
        return rng.normal(size=shape) + 1j * rng.normal(size=shape)

    with goos.OptimizationPlan():
        z0 = rc(n)
        k = int(rng.integers(4))
        if k == 0:
            z0 = z0.real + 0j
        elif k == 1:
            z0 = 1j * z0.imag
        z = goos.cast(goos.Constant(z0), goos.Function)
        c, d, p = rc(n), complex(rc(())), int(rng.integers(2, 4))
        i = int(rng.integers(n))
        j = int(rng.integers(i + 1, n + 1))
        ops = [str(o) for o in rng.choice(
            ["mul", "add", "conj", "pow", "slice", "scale", "sq"], 3)]

        def build(u):
            for o in ops:
                if o == "mul":
                    u = u * c[:np.shape(u)[0]] if isinstance(
                        u, np.ndarray) else u * goos.Constant(c[:size(u)])
                elif o == "add":
                    u = u + (c[:len(u)] if isinstance(u, np.ndarray) else
                             goos.Constant(c[:size(u)]))
                elif o == "conj":
                    u = np.conj(u) if isinstance(
                        u, np.ndarray) else goos.Conjugate(u)
                elif o == "pow":
                    u = u**p
                elif o == "scale":
                    u = d * u
                elif o == "sq":
                    u = u * u
                elif o == "slice":
                    m = size(u)
                    if m < j:
                        continue
                    u = u[i:j] if isinstance(u, np.ndarray) else goos.Slice(
                        u, [[i, j]])
            return u

        def size(u):
            return len(u) if isinstance(u, np.ndarray) else u.get().array.size

        u = build(z)
        w = rng.normal(size=size(u))
        kind = int(rng.integers(5))
        c2 = rc(size(u))
        if kind > 2 and abs(np.sum(build(z0) * (c2 if kind == 3 else
                                                build(z0)))) < 0.1:
            return
        if kind == 3:
            obj, f = goos.abs(goos.dot(u, goos.Constant(c2))), lambda a: abs(
                np.sum(build(a) * c2))
        elif kind == 4:
            obj, f = goos.abs(goos.dot(u, u))**2, lambda a: abs(
                np.sum(build(a)**2))**2
        elif kind == 0:
            obj, f = goos.dot(w, goos.abs(u)**2), lambda a: np.sum(
                w * np.abs(build(a))**2)
        elif kind == 1:
            obj, f = goos.norm(u), lambda a: np.linalg.norm(build(a))
        else:
            obj, f = goos.dot(w, goos.abs(u)), lambda a: np.sum(
                w * np.abs(build(a)))
        if np.min(np.abs(build(z0))) < 0.05:
            return
        got = np.asarray(obj.get_grad([z])[0].array_grad)
        want = np.zeros(n, complex)
        h = 1e-6
        for q in range(n):
            e = np.zeros(n)
            e[q] = h
            dr = (f(z0 + e) - f(z0 - e)) / (2 * h)
            di = (f(z0 + 1j * e) - f(z0 - 1j * e)) / (2 * h)
            want[q] = (dr - 1j * di) / 2
        ck.close(got, want, "complex-gradient", rtol=1e-6, atol=1e-6,
                 detail={"ops": ops, "kind": kind, "z": z0})
        ck.event("complex_gradients")
        ck.key(ops, kind, k, n)


@family(quick=60, thorough=600)
def broadcast(ck, rng):
    """Shapes are combined with right gradients or refused, never guessed."""
    with goos.OptimizationPlan():
        n, m = int(rng.integers(2, 4)), int(rng.integers(2, 4))
        s1, s2 = [((n, 1), (1, m)), ((n,), (m, n)), ((n, m), (1, m)),
                  ((n, m), (n, 1)), ((n,), (n, 1)),
                  ((1, 1), (n,))][int(rng.integers(6))]
        a, b = rng.uniform(1, 2, s1), rng.uniform(1, 2, s2)
        x, y = goos.Variable(a), goos.Variable(b)
        if rng.random() < 0.5:
            x, y, a, b = y, x, b, a
        mul = rng.random() < 0.5
        node = x * y if mul else x + y
        try:
            val = node.get().array
        except Exception:
            ck.event("broadcast_refused")
            ck.key(s1, s2, mul)
            return
        want = a * b if mul else a + b
        ck.close(val, want, "broadcast-value")
        w = rng.normal(size=want.shape)
        try:
            gx, gy = goos.dot(w, node).get_grad([x, y])
        except Exception:
            ck.event("broadcast_refused")
            return
        one = np.ones(want.shape)

        def undo(g, shape):
            g = g.sum(axis=tuple(range(g.ndim - len(shape))))
            ax = tuple(i for i, d in enumerate(shape) if d == 1)
            return g.sum(axis=ax, keepdims=True)

        ck.close(gx.array_grad, undo(w * (b * one if mul else one), a.shape),
                 "broadcast-gradient", detail=[a.shape, b.shape, mul])
        ck.close(gy.array_grad, undo(w * (a * one if mul else one), b.shape),
                 "broadcast-gradient", detail=[a.shape, b.shape, mul])
        ck.event("broadcast_gradient")
        ck.key(s1, s2, mul)


@family(quick=150, thorough=1500)
def small_changes(ck, rng):
    """A change of the variables too small for a tolerance still counts."""
    with goos.OptimizationPlan() as plan:
        gen, _ = _objective(rng, int(rng.integers(3, 10)))
        for e in gen.pool:
            e.node.get()
        base = [np.asarray(v).copy() for v in plan.eval_nodes(
            [e.node for e in gen.pool]) for v in [v.array]]
        dx = np.zeros(gen.nx)
        for v in gen.variables:
            d = rng.uniform(0.5, 1, v.shape) * 3e-7 * np.maximum(
                np.abs(v.val), 0.1)
            dx[v.var_slice] = d.ravel()
            v.node.set(v.val + d)
        plan.run()
        order = rng.permutation(len(gen.pool))
        for i in order:
            e = gen.pool[i]
            want = np.asarray(e.jac) @ dx
            size = np.abs(np.asarray(e.jac)) @ np.abs(dx)
            got = np.asarray(e.node.get().array) - base[i]
            got = np.reshape(got, np.shape(want))
            bad = np.abs(got - want) > 0.05 * size + 1e-9 * (
                1e-3 + np.max(np.abs(base[i])))
            ck.expect(not np.any(bad), "small-change",
                      {"expr": e.text[:300], "got": got, "want": want})
            if np.any(size > 1e-7 * (1 + np.max(np.abs(base[i])))):
                ck.event("small_changes")
    ck.key(len(gen.pool), dx.tolist())


@family(quick=80, thorough=800)
def repeated_inputs(ck, rng):
    """The same node given several times to one operation."""
    n = int(rng.integers(1, 5))
    k = int(rng.integers(2, 6))
    with goos.OptimizationPlan():
        xs = [goos.Variable(rng.uniform(0.5, 2, n)) for _ in range(2)]
        vals = [v.get().array for v in xs]
        pick = [int(rng.integers(2)) for _ in range(k)]
        w = rng.normal(size=n)
        kind = str(rng.choice(["max", "sum", "product"]))
        nodes = [xs[i] for i in pick]
        if kind == "max":
            f = goos.max(*nodes)
            top = np.max([vals[i] for i in pick], axis=0)
            want = [w * (np.any([i == j for i in pick]) *
                         (vals[j] == top)) for j in range(2)]
        elif kind == "sum":
            f = goos.Sum(nodes)
            want = [w * pick.count(j) for j in range(2)]
        else:
            f = goos.Product(nodes)
            prod = np.prod([vals[i] for i in pick], axis=0)
            want = [w * pick.count(j) * prod / vals[j] for j in range(2)]
        got = goos.dot(w, f).get_grad(xs)
        for g, t in zip(got, want):
            ck.close(np.asarray(g.array_grad) * np.ones(n), t,
                     "repeated-input-gradient", rtol=1e-9,
                     detail={"op": kind, "inputs": pick})
        ck.event("repeated_inputs")
        ck.key(kind, pick, n)
