"""Random goos expression graphs with an independent forward-mode reference.

`Expr` couples a real goos node with the value and the Jacobian (with respect
to the concatenation of all variables) that mathematics assigns to it.
"""
import numpy as np

from spins import goos


class Expr:

    def __init__(self, node, val, jac, text, deps=()):
        self.node = node
        self.val = np.asarray(val)
        self.jac = np.asarray(jac)  # val.shape + (nvar,)
        self.text = text
        self.deps = tuple(deps)

    @property
    def shape(self):
        return self.val.shape


def ok(val, jac):
    return (np.all(np.isfinite(val)) and np.all(np.isfinite(jac)) and
            np.max(np.abs(val), initial=0) < 1e3 and
            np.max(np.abs(jac), initial=0) < 1e4)


def scalar_ok(a, e):
    """`e` can be combined with `a` without changing the shape of `a`."""
    return e.shape == a.shape or (e.val.size == 1 and e.val.ndim <= a.val.ndim)


class ArrayNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
    """A two-output custom node: (a * b, a + 2 b)."""
    node_type = "verif.array_node"

    def __init__(self, in1: goos.Function, in2: goos.Function) -> None:
        super().__init__([in1, in2], flow_types=[goos.Function, goos.Function],
                         flow_names=["first", "second"])

    def eval(self, inputs):
        a, b = inputs[0].array, inputs[1].array
        return goos.ArrayFlow(
            [goos.NumericFlow(a * b), goos.NumericFlow(a + 2 * b)])

    def grad(self, inputs, grad_val):
        a, b = inputs[0].array, inputs[1].array
        ga = np.zeros(a.shape)
        gb = np.zeros(b.shape)
        if grad_val[0] is not None:
            ga = ga + grad_val[0].array_grad * b
            gb = gb + grad_val[0].array_grad * a
        if grad_val[1] is not None:
            ga = ga + grad_val[1].array_grad
            gb = gb + 2 * grad_val[1].array_grad
        return [goos.NumericFlow.Grad(ga), goos.NumericFlow.Grad(gb)]


class GraphGen:
    """Builds a random pool of expressions inside the current plan."""

    def __init__(self, rng, nvars=None, shapes=None, allow_int=True,
                 params=True, serializable=False, bounds=False):
        self.rng = rng
        self.serializable = serializable
        self.pool = []
        self.variables = []
        self.count = {}
        nvars = nvars or int(rng.integers(1, 5))
        n = int(rng.integers(2, 5))
        m = int(rng.integers(2, 4))
        base = [(n,), (n,), (1,), (m, n), (n, 1, m)]
        shapes = shapes or [
            base[int(rng.integers(len(base)))] for _ in range(nvars)
        ]
        total = sum(int(np.prod(s)) for s in shapes)
        self.nx = total
        off = 0
        for s in shapes:
            size = int(np.prod(s))
            is_int = allow_int and rng.random() < 0.12
            if is_int:
                init = rng.integers(1, 4, size=s) * rng.choice([-1, 1], size=s)
            else:
                init = rng.uniform(0.3, 2.0, s) * rng.choice([-1, 1], size=s)
            arg = init
            if s == (1,) and rng.random() < 0.5:
                arg = init[0].item()
            kw = {}
            if bounds:
                k = int(rng.integers(4))
                if k & 1:
                    kw["lower_bounds"] = -60 if rng.random() < 0.5 else (
                        -60 - rng.uniform(0, 2, s))
                if k & 2:
                    kw["upper_bounds"] = 60.5 if rng.random() < 0.5 else (
                        60 + rng.uniform(0, 2, s))
                if rng.random() < 0.15:
                    kw["parameter"] = True
                if rng.random() < 0.5:
                    kw["name"] = "var_%d" % len(self.variables)
            var = goos.Variable(arg, **kw)
            jac = np.zeros((size, total))
            jac[:, off:off + size] = np.eye(size)
            e = Expr(var, np.array(init, dtype=float),
                     jac.reshape(tuple(s) + (total,)), "v%d" % len(
                         self.variables))
            e.var_slice = slice(off, off + size)
            e.is_param = bool(kw.get("parameter"))
            self.variables.append(e)
            self.pool.append(e)
            off += size

    # -- helpers -----------------------------------------------------------
    def pick(self, pred=None):
        cand = [e for e in self.pool if pred is None or pred(e)]
        if not cand:
            return None
        # Favor recent expressions so that graphs become deep, while sharing.
        k = len(cand)
        w = np.linspace(1, 3, k)
        return cand[int(self.rng.choice(k, p=w / w.sum()))]

    def const(self, val):
        val = np.asarray(val)
        return Expr(goos.Constant(val), val.astype(float),
                    np.zeros(val.shape + (self.nx,)), "c")

    def add(self, e, kind):
        if e is None or not ok(e.val, e.jac):
            return None
        self.count[kind] = self.count.get(kind, 0) + 1
        self.pool.append(e)
        return e

    @staticmethod
    def bjac(e, shape):
        return np.broadcast_to(e.jac.reshape(
            (1,) * (len(shape) - e.val.ndim) + e.jac.shape), shape +
                               (e.jac.shape[-1],))

    def compatible(self, a):
        """An expression that may be combined elementwise with `a`."""
        return self.pick(lambda e: scalar_ok(a, e) or scalar_ok(e, a))

    def grow(self, n):
        kinds = [
            "add", "sub", "mul", "div", "neg", "pow", "abs", "dot", "norm",
            "max", "sigmoid", "slice", "conj", "cast", "rename", "numop",
            "arrop", "sum_many", "prod_many", "array"
        ]
        tries = 0
        made = 0
        while made < n and tries < 12 * n:
            tries += 1
            kind = kinds[int(self.rng.integers(len(kinds)))]
            if getattr(self, "op_" + kind)() is not None:
                made += 1

    # -- operations --------------------------------------------------------
    def op_add(self):
        a = self.pick()
        b = self.compatible(a)
        val = a.val + b.val
        jac = self.bjac(a, val.shape) + self.bjac(b, val.shape)
        return self.add(
            Expr(a.node + b.node, val, jac,
                 "(%s+%s)" % (a.text, b.text), (a, b)), "add")

    def op_sub(self):
        a = self.pick()
        b = self.compatible(a)
        val = a.val - b.val
        jac = self.bjac(a, val.shape) - self.bjac(b, val.shape)
        return self.add(
            Expr(a.node - b.node, val, jac,
                 "(%s-%s)" % (a.text, b.text), (a, b)), "sub")

    def op_mul(self):
        a = self.pick()
        b = self.compatible(a)
        val = a.val * b.val
        jac = (self.bjac(a, val.shape) * np.broadcast_to(b.val, val.shape)[
            ..., None] + self.bjac(b, val.shape) *
               np.broadcast_to(a.val, val.shape)[..., None])
        return self.add(
            Expr(a.node * b.node, val, jac,
                 "(%s*%s)" % (a.text, b.text), (a, b)), "mul")

    def op_div(self):
        a = self.pick()
        b = self.compatible(a)
        if np.min(np.abs(b.val)) < 0.05:
            return None
        val = a.val / b.val
        bb = np.broadcast_to(b.val, val.shape)[..., None]
        aa = np.broadcast_to(a.val, val.shape)[..., None]
        jac = self.bjac(a, val.shape) / bb - aa / bb**2 * self.bjac(
            b, val.shape)
        return self.add(
            Expr(a.node / b.node, val, jac,
                 "(%s/%s)" % (a.text, b.text), (a, b)), "div")

    def op_neg(self):
        a = self.pick()
        return self.add(
            Expr(-a.node, -a.val, -a.jac, "(-%s)" % a.text, (a,)), "neg")

    def op_pow(self):
        a = self.pick()
        if np.min(a.val) > 0.05 and self.rng.random() < 0.5:
            p = float(np.round(self.rng.uniform(-2, 3), 2))
        elif np.min(np.abs(a.val)) > 0.05:
            p = int(self.rng.choice([-2, -1, 2, 3, 1]))
        else:
            p = int(self.rng.choice([2, 3, 1]))
        if p == 0:
            return None
        val = a.val**p
        jac = (p * a.val**(p - 1))[..., None] * a.jac
        return self.add(
            Expr(a.node**p, val, jac, "(%s**%s)" % (a.text, p), (a,)), "pow")

    def op_abs(self):
        a = self.pick(lambda e: np.min(np.abs(e.val)) > 0.02)
        if a is None:
            return None
        return self.add(
            Expr(goos.abs(a.node), np.abs(a.val),
                 np.sign(a.val)[..., None] * a.jac, "abs(%s)" % a.text, (a,)),
            "abs")

    def op_dot(self):
        a = self.pick(lambda e: e.val.size > 1)
        if a is None:
            return None
        b = self.pick(lambda e: e.shape == a.shape)
        if self.rng.random() < 0.2:
            b = self.const(np.round(self.rng.normal(size=a.shape), 2))
        val = np.sum(a.val * b.val)
        ax = tuple(range(a.val.ndim))
        jac = np.sum(a.val[..., None] * b.jac + b.val[..., None] * a.jac,
                     axis=ax)
        return self.add(
            Expr(goos.dot(a.node, b.node), val, jac,
                 "dot(%s,%s)" % (a.text, b.text), (a, b)), "dot")

    def op_norm(self):
        a = self.pick(lambda e: np.min(np.abs(e.val)) > 0.02)
        if a is None:
            return None
        order = int(self.rng.choice([1, 2, 2, 3, 4]))
        x = a.val.flatten()
        val = np.sum(np.abs(x)**order)**(1.0 / order)
        d = np.sign(x) * np.abs(x)**(order - 1) * val**(1 - order)
        jac = d @ a.jac.reshape(x.size, -1)
        if order == 2 and self.rng.random() < 0.5:
            node = goos.norm(a.node)
        else:
            node = goos.norm(a.node, order)
        return self.add(
            Expr(node, val, jac, "norm%d(%s)" % (order, a.text), (a,)), "norm")

    def op_max(self):
        a = self.pick()
        b = self.pick(lambda e: e.shape == a.shape)
        c = self.pick(lambda e: e.shape == a.shape)
        es = [a, b, c][:int(self.rng.integers(2, 4))]
        st = np.stack([e.val for e in es])
        if self.rng.random() < 0.2:
            # The same function twice is the function itself.
            es = [a, a]
            st = np.stack([e.val for e in es])
        else:
            srt = np.sort(st, axis=0)
            if np.min(srt[-1] - srt[-2]) < 1e-3:
                return None
        ind = np.argmax(st, axis=0)
        val = np.max(st, axis=0)
        jac = np.zeros_like(a.jac)
        for i, e in enumerate(es):
            jac = np.where((ind == i)[..., None], e.jac, jac)
        return self.add(
            Expr(goos.max(*[e.node for e in es]), val, jac,
                 "max(%s)" % ",".join(e.text for e in es), es), "max")

    def op_sigmoid(self):
        a = self.pick(lambda e: np.max(np.abs(e.val)) < 20)
        if a is None:
            return None
        s = 1 / (1 + np.exp(-a.val))
        return self.add(
            Expr(goos.Sigmoid(a.node), s, (s * (1 - s))[..., None] * a.jac,
                 "sig(%s)" % a.text, (a,)), "sigmoid")

    def op_slice(self):
        a = self.pick(lambda e: e.val.size > 1)
        if a is None:
            return None
        spec, sl = [], []
        for d in a.shape:
            k = int(self.rng.integers(4))
            if k == 0:
                i = int(self.rng.integers(d))
                spec.append(i if self.rng.random() < 0.7 else i - d)
                sl.append(slice(i, i + 1))
            elif k == 1:
                i = int(self.rng.integers(d))
                j = int(self.rng.integers(i + 1, d + 1))
                spec.append([i, j])
                sl.append(slice(i, j))
            elif k == 2:
                spec.append(["c", "center"][int(self.rng.integers(2))])
                sl.append(slice(d // 2, d // 2 + 1))
            elif getattr(self, "serializable", False):
                spec.append([0, d])
                sl.append(slice(None))
            else:
                spec.append(None)
                sl.append(slice(None))
        sl = tuple(sl)
        return self.add(
            Expr(goos.Slice(a.node, spec), a.val[sl], a.jac[sl],
                 "slice(%s,%s)" % (a.text, spec), (a,)), "slice")

    def op_conj(self):
        a = self.pick()
        return self.add(
            Expr(goos.Conjugate(a.node), a.val, a.jac, "conj(%s)" % a.text,
                 (a,)), "conj")

    def op_cast(self):
        a = self.pick()
        return self.add(
            Expr(goos.cast(a.node, goos.Function), a.val, a.jac,
                 "cast(%s)" % a.text, (a,)), "cast")

    def op_rename(self):
        # `rename` keeps the type; only sensible for non-variables.
        a = self.pick(lambda e: not isinstance(e.node, goos.Variable))
        if a is None or not isinstance(a.node, goos.Function):
            return None
        if (getattr(self, "serializable", False) and
                a.node.node_type == "goos.cast"):
            return None
        self._rn = getattr(self, "_rn", 0) + 1
        node = goos.rename(a.node, "renamed%d" % self._rn)
        return self.add(
            Expr(node, a.val, a.jac, "ren(%s)" % a.text, (a,)), "rename")

    def op_numop(self):
        a = self.pick()
        c = [2, -1, 0, 1, 0.5, -1.75, 3][int(self.rng.integers(7))]
        k = int(self.rng.integers(7))
        if k == 0:
            node, val, jac, t = a.node + c, a.val + c, a.jac, "%s+c"
        elif k == 1:
            node, val, jac, t = c + a.node, a.val + c, a.jac, "c+%s"
        elif k == 2:
            node, val, jac, t = a.node - c, a.val - c, a.jac, "%s-c"
        elif k == 3:
            node, val, jac, t = c - a.node, c - a.val, -a.jac, "c-%s"
        elif k == 4:
            node, val, jac, t = c * a.node, c * a.val, c * a.jac, "c*%s"
        elif k == 5:
            if c == 0:
                return None
            node, val, jac, t = a.node / c, a.val / c, a.jac / c, "%s/c"
        else:
            if np.min(np.abs(a.val)) < 0.05:
                return None
            node, val = c / a.node, c / a.val
            jac, t = -(c / a.val**2)[..., None] * a.jac, "c/%s"
        return self.add(
            Expr(node, val, jac, "(" + t.replace("c", str(c)) % a.text + ")",
                 (a,)), "numop")

    def op_arrop(self):
        a = self.pick()
        arr = np.round(self.rng.uniform(0.5, 2, a.shape or (1,)), 2)
        if not a.shape:
            arr = arr[0]
            return None
        k = int(self.rng.integers(4))
        if k == 0:
            return self.add(
                Expr(a.node + arr, a.val + arr, a.jac, "(%s+arr)" % a.text,
                     (a,)), "arrop")
        if k == 1:
            return self.add(
                Expr(a.node * arr, a.val * arr, a.jac * arr[..., None],
                     "(%s*arr)" % a.text, (a,)), "arrop")
        if k == 2:
            return self.add(
                Expr(a.node - arr, a.val - arr, a.jac, "(%s-arr)" % a.text,
                     (a,)), "arrop")
        return self.add(
            Expr(a.node / arr, a.val / arr, a.jac / arr[..., None],
                 "(%s/arr)" % a.text, (a,)), "arrop")

    def _many(self):
        a = self.pick()
        es = [a]
        for _ in range(int(self.rng.integers(2, 5))):
            es.append(
                self.pick(lambda e: scalar_ok(a, e)))
        order = self.rng.permutation(len(es))
        return [es[i] for i in order]

    def op_sum_many(self):
        es = self._many()
        val = sum(e.val for e in es)
        jac = sum(self.bjac(e, val.shape) for e in es)
        return self.add(
            Expr(goos.Sum([e.node for e in es]), val, jac,
                 "sum(%s)" % ",".join(e.text for e in es), es), "sum_many")

    def op_prod_many(self):
        es = self._many()
        val = 1.0
        for e in es:
            val = val * e.val
        jac = 0
        for i, e in enumerate(es):
            others = np.ones(val.shape)
            for j, f in enumerate(es):
                if j != i:
                    others = others * f.val
            jac = jac + others[..., None] * self.bjac(e, val.shape)
        return self.add(
            Expr(goos.Product([e.node for e in es]), val, jac,
                 "prod(%s)" % ",".join(e.text for e in es), es), "prod_many")

    def op_array(self):
        a = self.pick(lambda e: e.shape)
        if a is None:
            return None
        b = self.pick(lambda e: e.shape == a.shape)
        node = ArrayNode(a.node, b.node)
        first = Expr(node[0], a.val * b.val,
                     a.val[..., None] * b.jac + b.val[..., None] * a.jac,
                     "fst(%s,%s)" % (a.text, b.text), (a, b))
        second = Expr(node["second"], a.val + 2 * b.val, a.jac + 2 * b.jac,
                      "snd(%s,%s)" % (a.text, b.text), (a, b))
        k = int(self.rng.integers(3))
        if k != 1:
            r = self.add(first, "array")
        if k != 0:
            r = self.add(second, "array")
        return r

    def scalar_objective(self):
        """Combines several expressions of the pool into one scalar."""
        es = []
        for _ in range(int(self.rng.integers(1, 4))):
            e = self.pick()
            w = np.round(self.rng.normal(size=e.shape), 3)
            if e.val.size > 1:
                c = self.const(w)
                val = np.sum(e.val * w)
                jac = np.sum(w[..., None] * e.jac,
                             axis=tuple(range(e.val.ndim)))
                es.append(
                    Expr(goos.dot(c.node, e.node), val, jac,
                         "w.%s" % e.text, (e,)))
            else:
                es.append(
                    Expr(e.node, e.val.reshape(()),
                         e.jac.reshape(-1), e.text, (e,)))
        node, val, jac = es[0].node, es[0].val, es[0].jac
        for e in es[1:]:
            node, val, jac = node + e.node, val + e.val, jac + e.jac
        return Expr(node, val, jac, "+".join(e.text for e in es), es)
