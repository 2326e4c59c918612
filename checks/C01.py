"""C01: evaluating goos expression graphs yields the mathematical value."""
import numpy as np

from vlib.core import family
from vlib import goosgen
from spins import goos
from spins.goos import flows

RULE = ("random goos expression DAGs (operators, functions, array nodes, "
        "scalar/vector broadcasting, shared subexpressions, complex values) "
        "evaluated by the real executor against an independent numpy "
        "reference; a case is non-trivial if it has at least 3 operation kinds;"
        " distinct by expression text and values")
REQUIRED_EVENTS = ["node_values_compared", "vector_scalar_broadcast",
                   "after_set", "complex_values", "flows"]
ASSUMPTIONS = ["numpy elementwise arithmetic is the reference"]


def _build(rng, n):
    gen = goosgen.GraphGen(rng)
    gen.grow(n)
    return gen


def _note(ck, gen):
    for k, v in gen.count.items():
        ck.event("op_" + k, v)
    if len(gen.count) >= 3:
        ck.key([e.text for e in gen.pool], [e.val.tolist() for e in
                                            gen.variables])


@family(quick=900, thorough=12000)
def values(ck, rng):
    """Every node of the pool, one at a time and in one joint evaluation."""
    with goos.OptimizationPlan() as plan:
        gen = _build(rng, int(rng.integers(3, 14)))
        for e in gen.pool:
            if any(d.val.size == 1 for d in e.deps) and any(
                    d.val.size > 1 for d in e.deps):
                ck.event("vector_scalar_broadcast")
        before = [plan.get_var_value(v.node) for v in gen.variables]
        joint = plan.eval_nodes([e.node for e in gen.pool])
        for e, f in zip(gen.pool, joint):
            ck.event("node_values_compared")
            ck.close(f.array, e.val, "joint-value", rtol=1e-9,
                     detail=lambda: e.text)
            ck.expect(type(f) == goos.NumericFlow, "flow-type", e.text)
        picks = rng.choice(len(gen.pool), size=min(6, len(gen.pool)),
                           replace=False)
        for i in picks:
            e = gen.pool[i]
            f = e.node.get()
            ck.close(f.array, e.val, "single-value", rtol=1e-9,
                     detail=lambda: e.text)
            ck.event("node_values_compared")
            # What a user does with a returned value must not leak back.
            try:
                f.array += 7.5
            except (TypeError, ValueError):
                pass
            again = e.node.get()
            ck.close(again.array, e.val, "value-after-mutating-result",
                     rtol=1e-9, detail=lambda: e.text)
        # Duplicated and shuffled outputs.
        idx = rng.integers(0, len(gen.pool), size=5)
        res = plan.eval_nodes([gen.pool[i].node for i in idx])
        for i, f in zip(idx, res):
            ck.close(f.array, gen.pool[i].val, "shuffled-value", rtol=1e-9,
                     detail=lambda: gen.pool[i].text)
        for v, b in zip(gen.variables, before):
            ck.close(plan.get_var_value(v.node), b, "state-changed-by-eval")
        arr = rng.normal(size=3)
        c = gen.const(arr.copy())
        node, used = goos.Constant(arr), gen.variables[0].node * arr[0]
        summed = goos.Variable(np.ones(3)) + arr
        arr0 = arr.copy()
        arr += 3.0
        ck.close(node.get().array, arr0, "constant-aliases-argument")
        ck.close(summed.get().array, arr0 + 1, "operand-aliases-argument")
        for node in (c.node, goos.cast(c.node, goos.Function)):
            node.get().array[0] += 1.0
            ck.close(node.get().array, c.val, "constant-changed-by-user")
        _note(ck, gen)
        ck.sample({"exprs": [e.text for e in gen.pool],
                   "vars": [e.val for e in gen.variables]})


@family(quick=250, thorough=3000)
def values_after_set(ck, rng):
    """The same graph evaluated at one state and then, after actions, another."""
    with goos.OptimizationPlan() as plan:
        gen = _build(rng, int(rng.integers(3, 10)))
        target = [v.val.copy() for v in gen.variables]
        # Move the variables away, evaluate there, and come back.
        for v in gen.variables:
            mid = rng.uniform(0.4, 1.6, v.shape)
            v.node.set(mid)
            plan.run()
            ck.close(v.node.get().array, mid, "set-value", rtol=1e-12)
        for e in gen.pool[:4]:
            e.node.get()
        for v, t in zip(gen.variables, target):
            v.node.set(np.array(t))
        plan.run()
        for e in gen.pool:
            ck.close(e.node.get().array, e.val, "value-after-set", rtol=1e-9,
                     detail=lambda: e.text)
            ck.event("after_set")
        # A set from another node uses that node's value at that time.
        e = gen.pick()
        v = goos.Variable(np.zeros(e.shape or (1,)))
        v.set(e.node)
        ck.close(v.get(run=True).array, e.val, "set-from-node", rtol=1e-9,
                 detail=e.text)
        _note(ck, gen)


@family(quick=250, thorough=3000)
def complex_values(ck, rng):
    """Complex constants flowing through the same operations."""
    n = int(rng.integers(1, 5))

    def rc(shape):
        return np.round(rng.normal(size=shape) + 1j * rng.normal(size=shape),
                        3)

    with goos.OptimizationPlan() as plan:
        x0 = np.round(rng.normal(size=n), 3) + 0.1
        x = goos.Variable(x0)
        pool = [(x, x0 + 0j, "x")]
        for i in range(2):
            c = rc(n)
            pool.append((goos.Constant(c), c, "c%d" % i))
        kinds = set()
        for _ in range(int(rng.integers(4, 10))):
            a, av, at = pool[int(rng.integers(len(pool)))]
            b, bv, bt = pool[int(rng.integers(len(pool)))]
            k = str(
                rng.choice([
                    "add", "sub", "mul", "div", "conj", "pow", "abs", "dot",
                    "norm", "num", "slice"
                ]))
            same = av.shape == bv.shape or av.size == 1 or bv.size == 1
            if k in ("add", "sub", "mul", "div") and not same:
                continue
            if k == "add":
                r = (a + b, av + bv)
            elif k == "sub":
                r = (a - b, av - bv)
            elif k == "mul":
                r = (a * b, av * bv)
            elif k == "div":
                if np.min(np.abs(bv)) < 0.05:
                    continue
                r = (a / b, av / bv)
            elif k == "conj":
                r = (goos.Conjugate(a), np.conj(av))
            elif k == "pow":
                p = int(rng.integers(2, 4))
                r = (a**p, av**p)
            elif k == "abs":
                r = (goos.abs(a), np.abs(av) + 0j)
            elif k == "dot":
                if av.shape != bv.shape:
                    continue
                r = (goos.dot(a, b), np.sum(av * bv))
            elif k == "norm":
                o = int(rng.integers(1, 4))
                r = (goos.norm(a, o),
                     np.sum(np.abs(av)**o)**(1.0 / o) + 0j)
            elif k == "slice":
                if av.ndim != 1:
                    continue
                i = int(rng.integers(av.size))
                r = (goos.Slice(a, [i]), av[i:i + 1])
            else:
                z = complex(rc(()))
                r = (z * a, z * av)
            val = np.asarray(r[1])
            if np.max(np.abs(val)) > 1e4 or not np.all(np.isfinite(val)):
                continue
            kinds.add(k)
            pool.append((r[0], val, "%s(%s,%s)" % (k, at, bt)))
        for node, val, t in pool:
            ck.close(node.get().array + 0j, val, "complex-value", rtol=1e-9,
                     detail=t)
            ck.event("complex_values")
        if len(kinds) >= 3:
            ck.key([t for _, _, t in pool], x0.tolist())


@family(quick=250, thorough=3000)
def magnitudes(ck, rng):
    """Tiny, huge and mixed magnitudes keep their relative accuracy."""
    n = int(rng.integers(1, 5))
    s = 10.0**rng.uniform(-12, 8)
    mixed = rng.random() < 0.5

    def draw():
        v = rng.uniform(0.5, 2, n) * rng.choice([-1, 1], n) * s
        if mixed:
            v = v * 10.0**rng.uniform(-6, 6, n)
        return v

    with goos.OptimizationPlan():
        xv, yv = draw(), draw()
        x, y = goos.Variable(xv), goos.Variable(yv)
        c = float(s * rng.uniform(0.5, 2))
        near1 = 1 + float(10.0**rng.uniform(-9, -2))
        cases = [
            ("x+c", x + c, xv + c), ("c+x", c + x, xv + c),
            ("c-x", c - x, c - xv), ("x-c", x - c, xv - c),
            ("x*n-x", x * near1 - x, xv * near1 - xv),
            ("x/n", x / near1, xv / near1), ("x*c", x * c, xv * c),
            ("x/c", x / c, xv / c), ("c/x", c / x, c / xv),
            ("x+y", x + y, xv + yv), ("x*y", x * y, xv * yv),
            ("x/y", x / y, xv / yv), ("abs", goos.abs(x), np.abs(xv)),
            ("max", goos.max(x, y), np.maximum(xv, yv)),
            ("pow", x**2, xv**2), ("inv", x**-1, 1 / xv),
            ("root", goos.abs(x)**0.5, np.sqrt(np.abs(xv))),
            ("norm1", goos.norm(x, 1), np.sum(np.abs(xv))),
            ("norm2", goos.norm(x), np.sqrt(np.sum(xv**2))),
            ("dot", goos.dot(x, y), np.sum(xv * yv)),
            ("sum3", x + y + c, xv + yv + c),
            ("prod3", x * y * c, xv * yv * c),
        ]
        ref = {"x*n-x": np.abs(xv), "dot": np.sum(np.abs(xv * yv))}
        for name, node, want in cases:
            got = np.asarray(node.get().array)
            mag = ref.get(name, np.abs(want))
            if name in ("x+c", "c+x", "c-x", "x-c", "x+y", "sum3"):
                mag = np.abs(xv) + np.abs(yv) + c
            ck.expect(got.shape == np.shape(want) and bool(
                np.all(np.abs(got - want) <= 1e-11 * mag)), "magnitude-value",
                      {"op": name, "got": got, "want": want, "x": xv, "y": yv,
                       "c": c, "near1": near1})
            ck.event("magnitudes")
        z = rng.uniform(-800, 800, n)
        with np.errstate(over="ignore"):
            got = goos.Sigmoid(goos.Variable(z)).get().array
            want = 1 / (1 + np.exp(-z))
        ck.expect(bool(np.all(np.abs(got - want) <= 1e-12 * want)),
                  "sigmoid-extreme", {"z": z, "got": got, "want": want})
        # A real power of a negative number is not a number, or refused.
        try:
            with np.errstate(invalid="ignore"):
                got = (goos.Variable(-np.abs(xv))**0.5).get().array
        except (ValueError, TypeError):
            got = np.nan
        ck.expect(bool(np.all(np.isnan(got))), "root-of-negative",
                  {"x": -np.abs(xv), "got": got})
        ck.key(n, mixed, s, xv.tolist())


@family(quick=120, thorough=1000)
def operators_refuse(ck, rng):
    """Combinations that have no meaning are refused, not computed."""
    with goos.OptimizationPlan() as plan:
        n = int(rng.integers(2, 5))
        m = n + int(rng.integers(1, 3))
        x = goos.Variable(rng.normal(size=n))
        y = goos.Variable(rng.normal(size=m))
        k = int(rng.integers(8))
        if k == 0:
            ck.raises(Exception, lambda: (x + y).get(), "add-mismatch")
        elif k == 1:
            ck.raises(Exception, lambda: (x * y).get(), "mul-mismatch")
        elif k == 2:
            ck.raises(TypeError, lambda: x + "a", "add-str")
        elif k == 3:
            ck.raises(TypeError, lambda: x * [1, 2], "mul-list")
        elif k == 4:
            ck.raises(TypeError, lambda: x**y, "pow-node")
        elif k == 5:
            ind = int(rng.choice([n, n + 1, -n - 1]))
            ck.raises(Exception, lambda: goos.Slice(x, [ind]).get(),
                      "slice-out-of-range")
        elif k == 6:
            ck.raises(Exception, lambda: goos.Slice(x, ["x"]).get(),
                      "slice-bad")
        else:
            ck.raises(Exception, lambda: goos.max(x, y).get(), "max-mismatch")
        ck.event("refusals")
        ck.key(k, n, m)


class _TwoFlow(goos.Flow):
    first: np.ndarray = flows.np_zero_field(2)
    second: np.ndarray = flows.np_zero_field(2)
    tag: str = flows.constant_field(default="")


class _ThreeFlow(_TwoFlow):
    third: np.ndarray = flows.np_zero_field(1)


@family(quick=150, thorough=2000)
def flow_values(ck, rng):
    """Flows are equal when all that they hold is; their gradients add up."""
    n = int(rng.integers(1, 4))
    ck.event("flows")
    cls = [_TwoFlow, _ThreeFlow][int(rng.integers(2))]
    names = ["first", "second", "third"][:2 if cls is _TwoFlow else 3]
    vals = {k: rng.integers(-2, 3, n).astype(float) for k in names}
    mk = lambda **kw: cls(**{**{k: v.copy() for k, v in vals.items()}, **kw})
    a = mk(tag="t")
    ck.expect(a == a and a == mk(tag="t") and not a != mk(tag="t"),
              "equal-flows", vals)
    k = str(rng.choice(names))
    other = vals[k].copy()
    other[int(rng.integers(n))] += float(rng.choice([1e-9, -1, 7]))
    for b in (mk(**{k: other, "tag": "t"}), mk(tag="u"),
              mk(**{k: np.append(vals[k], vals[k][0]), "tag": "t"})):
        ck.expect(not a == b and a != b and not b == a, "unequal-flows",
                  {"a": str(a), "b": str(b)})
    wrap = lambda *f: goos.ArrayFlow(list(f))
    num = goos.NumericFlow(vals["first"])
    ck.expect(wrap(a, num) == wrap(mk(tag="t"), goos.NumericFlow(
        vals["first"].copy())), "equal-arrays")
    ck.expect(not wrap(a, num) == wrap(mk(tag="u"), num), "unequal-arrays")
    ck.expect(not wrap(a, num) == wrap(mk(tag="t"), goos.NumericFlow(
        vals["first"] + 1)), "unequal-arrays")
    ck.expect(bool(num == vals["first"]) and not bool(num == other + 1 - 1e-3),
              "numeric-equal")

    # The shapes of one design compare as the numbers that define them.
    with goos.OptimizationPlan():
        mat = goos.material.Material(index=2)
        pos = rng.integers(-3, 4, 3).astype(float)
        ext = rng.integers(1, 4, 3).astype(float)
        rot = rng.normal(size=3)

        def box(p=pos, e=ext, r=rot, m=mat):
            return goos.Cuboid(pos=goos.Constant(p), extents=goos.Constant(e),
                               rot=goos.Constant(r), material=m).get()

        step = np.eye(3)[int(rng.integers(3))]
        ck.expect(box() == box(), "equal-shapes")
        for b in (box(p=pos + step), box(e=ext + step), box(r=rot + step)):
            ck.expect(not box() == b, "unequal-shapes", str(b))

    # Constant flags: constant as a whole only when every part is.
    flags = cls.ConstFlags()
    ck.expect(not flags, "flags-start")
    order = list(rng.permutation(names))
    for i, k in enumerate(order):
        setattr(flags, k, True)
        ck.expect(bool(flags) == (i == len(order) - 1), "flags-all", order)
    flags.set_all(False)
    ck.expect(not any(getattr(flags, k) for k in names), "flags-set-all")
    flags.set_all(True)
    ck.expect(bool(flags) and all(getattr(flags, k) for k in names),
              "flags-set-all")
    ck.expect(not hasattr(flags, "tag"), "flags-constant-field")

    # Gradients.
    total = cls.Grad()
    want = {k: 0 for k in names}
    kept = []
    for _ in range(int(rng.integers(1, 4))):
        part = {k: rng.normal(size=n) for k in names}
        g = cls.Grad(**{k + "_grad": v.copy() for k, v in part.items()})
        kept.append((g, part))
        total += g
        want = {k: want[k] + part[k] for k in names}
    for k in names:
        ck.close(getattr(total, k + "_grad"), want[k], "grad-sum")
        for g, part in kept:
            ck.close(getattr(g, k + "_grad"), part[k], "grad-sum-input",
                     rtol=0)
    ck.key(n, cls.__name__, str(vals))
