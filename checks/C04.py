"""C04: the state of a goos plan changes only through its executed actions."""
import logging
import re

import numpy as np

from vlib.core import family
from spins import goos
from typing import List

RULE = ("random histories of plan operations (declare, set, freeze, thaw, "
        "custom actions, run, autorun, get, gradient, forbidden direct "
        "modification, failing actions, temporary plans, optimizations) "
        "replayed against a reference state machine; the full state of every "
        "variable is compared after every step; distinct by history")
REQUIRED_EVENTS = ["steps", "runs", "refused_outside_action",
                   "failed_actions", "temp_plans", "actions_executed",
                   "optimizations", "plan_switches", "nodes_from_outside",
                   "printed"]

TRACE = []


class Tick(goos.Action):
    """Records its execution and adds `delta` to a variable."""
    node_type = "verif.tick"

    def __init__(self, var: goos.Variable, ident: int,
                 delta: float) -> None:
        super().__init__(var)
        self._var, self._ident, self._delta = var, ident, delta

    def run(self, plan):
        TRACE.append(self._ident)
        plan.set_var_value(self._var,
                           plan.get_var_value(self._var) + self._delta,
                           check_frozen=False)


class SetBounds(goos.Action):
    node_type = "verif.set_bounds"

    def __init__(self, var: goos.Variable, lower: float, upper: float) -> None:
        super().__init__(var)
        self._var, self._b = var, (lower, upper)

    def run(self, plan):
        shape = plan.get_var_value(self._var).shape
        plan.set_var_bounds(
            self._var,
            [np.full(shape, self._b[0]),
             np.full(shape, self._b[1])])


class Lend(goos.Action):
    """Hands arrays to the plan and changes them afterwards."""
    node_type = "verif.lend"

    def __init__(self, var: goos.Variable, value: float) -> None:
        super().__init__(var)
        self._var, self._v = var, value

    def run(self, plan):
        shape = plan.get_var_value(self._var).shape
        arr = np.full(shape, self._v)
        lo, hi = np.full(shape, -50.0), np.full(shape, 50.0)
        plan.set_var_value(self._var, arr, check_frozen=False)
        plan.set_var_bounds(self._var, [lo, hi])
        arr += 1e3
        lo -= 5
        hi += 5


class Boom(goos.Action):
    node_type = "verif.boom"

    def __init__(self, var: goos.Variable) -> None:
        super().__init__(var)
        self._var = var

    def run(self, plan):
        raise KeyError("injected")


class Model:
    """Reference state machine."""

    def __init__(self):
        self.val, self.frozen, self.bounds, self.param = [], [], [], []
        self.pending = []
        self.executed = []

    def run(self, upto=None):
        """Executes the pending actions. Returns True if one fails."""
        while self.pending:
            kind, i, arg = self.pending[0]
            if kind == "set":
                if self.frozen[i] and not self.param[i]:
                    return True
                self.val[i] = np.array(arg(self) if callable(arg) else arg,
                                       dtype=float)
            elif kind == "freeze":
                self.frozen[i] = True
            elif kind == "thaw":
                self.frozen[i] = False
            elif kind == "tick":
                self.executed.append(arg[0])
                self.val[i] = self.val[i] + arg[1]
            elif kind == "lend":
                self.val[i] = np.full(self.val[i].shape, arg)
                self.bounds[i] = [np.full(self.val[i].shape, -50.0),
                                  np.full(self.val[i].shape, 50.0)]
            elif kind == "bounds":
                self.bounds[i] = [
                    np.full(self.val[i].shape, arg[0]),
                    np.full(self.val[i].shape, arg[1])
                ]
            elif kind == "boom":
                return True
            self.pending.pop(0)
        return False


def _compare(ck, plan, model, variables, tag):
    for i, v in enumerate(variables):
        want = model.val[i]
        got = plan.get_var_value(v)
        ck.close(np.ravel(got), np.ravel(want), tag + "value", rtol=1e-12)
        ck.close(np.ravel(v.get().array), np.ravel(want), tag + "node-value",
                 rtol=1e-12)
        b = plan.get_var_bounds(v)
        for k in range(2):
            gb, wb = np.ravel(b[k]), np.ravel(model.bounds[i][k])
            ck.expect(gb.shape == wb.shape and np.all(gb == wb),
                      tag + "bounds", {"got": gb, "want": wb})
        # A thawed variable has gradient one, a frozen one zero.
        one = np.ones(want.shape)
        g = goos.dot(goos.Constant(np.ones(got.shape)), v).get_grad([v])[0]
        ck.close(np.ravel(g.array_grad),
                 np.zeros(want.size) if model.frozen[i] else np.ones(want.size),
                 tag + "frozen-flag")


def _declare(rng, model):
    shape = [(1,), (1,), (2,), (3,), (2, 2)][int(rng.integers(5))]
    init = np.round(rng.uniform(-2, 2, shape), 3)
    param = bool(rng.random() < 0.25)
    kw = {}
    lo, hi = np.full(shape, -np.inf), np.full(shape, np.inf)
    k = int(rng.integers(7))
    if k == 1:
        b = float(rng.choice([-3.0, 0.0, 1.0, -0.5]))
        kw["lower_bounds"] = b
        lo = np.full(shape, b)
    elif k == 2:
        lo = np.round(rng.uniform(-4, -3, shape), 2)
        kw["lower_bounds"] = lo.copy()
    elif k == 3:
        hi = np.round(rng.uniform(3, 4, shape), 2)
        kw["upper_bounds"] = hi.tolist() if len(shape) == 1 else hi.copy()
        kw["lower_bounds"] = -5
        lo = np.full(shape, -5.0)
    elif k == 4:
        b = float(rng.choice([6.0, 0.0, -1.0, 0.25]))
        kw["upper_bounds"] = b
        hi = np.full(shape, b)
    elif k == 5:
        # Different bounds for every entry, some entries unbounded.
        lo = np.where(rng.random(shape) < 0.3, -np.inf,
                      np.round(rng.uniform(-3, 0, shape), 2))
        hi = np.where(rng.random(shape) < 0.3, np.inf,
                      np.round(rng.uniform(0, 3, shape), 2))
        kw["lower_bounds"], kw["upper_bounds"] = lo.copy(), hi.copy()
    if rng.random() < 0.2:
        # Integers that are later set to fractions.
        init = rng.integers(-2, 3, shape)
    arg = init.copy()
    if shape == (1,) and rng.random() < 0.5:
        arg = init[0].item()
    var = goos.Variable(arg, parameter=param, **kw)
    if isinstance(arg, np.ndarray):
        arg[...] = 77.0  # the plan must have taken a copy
    if isinstance(kw.get("lower_bounds"), np.ndarray):
        kw["lower_bounds"][...] = -99.0
    model.val.append(init.astype(float))
    model.frozen.append(param)
    model.param.append(param)
    model.bounds.append([lo, hi])
    return var


@family(quick=700, thorough=8000)
def histories(ck, rng):
    del TRACE[:]
    autorun = bool(rng.random() < 0.25)
    hist = []
    ident = 0
    with goos.OptimizationPlan(autorun=autorun) as plan:
        model = Model()
        variables = [_declare(rng, model)
                     for _ in range(int(rng.integers(1, 4)))]
        for step in range(int(rng.integers(4, 16))):
            ck.event("steps")
            i = int(rng.integers(len(variables)))
            v = variables[i]
            op = str(
                rng.choice([
                    "set", "set", "setexpr", "freeze", "thaw", "run", "run",
                    "tick", "bounds", "declare", "forbid", "get", "temp",
                    "mutate", "getrun", "lend"
                ]))
            hist.append((op, i))
            failed = False
            if op in ("set", "setexpr"):
                # Setting a frozen variable is tested in its own family.
                frozen = model.frozen[i]
                for k, j, _ in model.pending:
                    if j == i and k in ("freeze", "thaw"):
                        frozen = k == "freeze"
                if frozen and not model.param[i]:
                    continue
                shape = model.val[i].shape
                if op == "set":
                    new = np.round(rng.uniform(-2, 2, shape), 3)
                    if shape == (1,) and rng.random() < 0.5:
                        v.set(float(new[0]))
                    else:
                        arr = new.copy()
                        v.set(arr)
                        arr[...] = 55.0  # the caller may reuse his array
                    model.pending.append(("set", i, new))
                else:
                    j = int(rng.integers(len(variables)))
                    c = float(np.round(rng.normal(), 2))
                    if model.val[j].shape != shape:
                        j = i
                    v.set(c * variables[j] + 1)
                    model.pending.append(
                        ("set", i,
                         lambda m, j=j, c=c, shape=shape: c * m.val[j].reshape(
                             shape) + 1))
            elif op == "freeze":
                v.freeze()
                model.pending.append(("freeze", i, None))
            elif op == "thaw":
                if model.param[i]:
                    ck.raises(ValueError, v.thaw, "thaw-param")
                    ck.event("refused_thaw_param")
                    continue
                v.thaw()
                model.pending.append(("thaw", i, None))
            elif op == "tick":
                ident += 1
                d = float(np.round(rng.normal(), 2))
                plan.add_action(Tick(v, ident, d))
                model.pending.append(("tick", i, (ident, d)))
            elif op == "bounds":
                plan.add_action(SetBounds(v, -9.0, 9.0 + step))
                model.pending.append(("bounds", i, (-9.0, 9.0 + step)))
            elif op == "lend":
                x = float(np.round(rng.normal(), 2))
                plan.add_action(Lend(v, x))
                model.pending.append(("lend", i, x))
            elif op == "declare":
                variables.append(_declare(rng, model))
            elif op == "run":
                plan.run()
                model.run()
                ck.event("runs")
            elif op == "getrun":
                got = v.get(run=True).array
                model.run()
                ck.close(np.ravel(got), np.ravel(model.val[i]), "get-run",
                         rtol=1e-12)
                ck.event("runs")
            elif op == "forbid":
                k = int(rng.integers(4))
                calls = [
                    lambda: plan.set_var_value(v, np.zeros(2)),
                    lambda: plan.freeze_var(v), lambda: plan.thaw_var(v),
                    lambda: plan.set_var_bounds(
                        v, [np.zeros(1), np.ones(1)])
                ]
                if ck.raises(ValueError, calls[k], "outside-action-allowed",
                             {"call": k}):
                    ck.event("refused_outside_action")
            elif op == "get":
                ((v * 2) + 1).get()
            elif op == "mutate":
                # Whatever the caller does with returned values is his own.
                a = plan.get_var_value(v)
                a += 5
                b = plan.get_var_bounds(v)
                b[0][...] = 1e3
                b[1] = None
                v.get().array[...] = -123.0
                st = plan.get_state_dict()["variable_data"]
                for d in st.values():
                    d["value"][...] = -321.0
                    d["bounds"][0][...] = 17.0
                    d["frozen"] = not d["frozen"]
                g = goos.dot(np.ones(model.val[i].shape), v).get_grad([v])[0]
                g.array_grad[...] = 999.0
            elif op == "temp":
                with goos.OptimizationPlan() as temp:
                    v.set(np.full(model.val[i].shape, 4.25))
                    got = v.get(run=True).array
                    ck.close(np.ravel(got), np.full(model.val[i].size, 4.25),
                             "temp-plan-value")
                ck.event("temp_plans")
            if autorun:
                model.run()
            _compare(ck, plan, model, variables, op + "-")
        plan.run()
        model.run()
        _compare(ck, plan, model, variables, "end-")
        ck.expect(TRACE == model.executed, "action-order",
                  {"got": TRACE, "want": model.executed})
        ck.event("actions_executed", len(TRACE))
        n = len(TRACE)
        plan.run()
        ck.expect(len(TRACE) == n, "action-rerun", TRACE)
        ck.key(hist, [v.tolist() for v in model.val])
        ck.sample({"history": hist, "final": model.val})


@family(quick=300, thorough=3000)
def failing_actions(ck, rng):
    """A failing action stops the plan there; nothing else is touched."""
    del TRACE[:]
    with goos.OptimizationPlan() as plan:
        model = Model()
        variables = [_declare(rng, model) for _ in range(3)]
        victim = int(rng.integers(3))
        n1, n2 = int(rng.integers(0, 4)), int(rng.integers(0, 4))
        ident = 0

        def ticks(n):
            nonlocal ident
            for _ in range(n):
                ident += 1
                j = int(rng.integers(3))
                d = float(np.round(rng.normal(), 2))
                plan.add_action(Tick(variables[j], ident, d))
                model.pending.append(("tick", j, (ident, d)))

        ticks(n1)
        kind = int(rng.integers(2))
        if kind == 0 and not model.param[victim]:
            variables[victim].freeze()
            model.pending.append(("freeze", victim, None))
            variables[victim].set(np.full(model.val[victim].shape, 3.5))
            model.pending.append(("set", victim, 3.5))
            exc = ValueError
        else:
            plan.add_action(Boom(variables[victim]))
            model.pending.append(("boom", victim, None))
            exc = KeyError
        ticks(n2)
        for attempt in range(2):
            ck.raises(exc, plan.run, "failure-hidden")
            model.run()
            _compare(ck, plan, model, variables, "failed-")
            ck.raises(ValueError,
                      lambda: plan.set_var_value(variables[0], np.zeros(1)),
                      "modifiable-after-failure")
            ck.raises(ValueError, lambda: plan.freeze_var(variables[0]),
                      "freezable-after-failure")
        ck.expect(TRACE == model.executed, "actions-after-failure",
                  {"got": TRACE, "want": model.executed})
        ck.event("failed_actions")
        ck.event("refused_outside_action")
        ck.key(n1, n2, victim, kind)


@family(quick=200, thorough=2000)
def optimization_respects_state(ck, rng):
    """Optimizations change thawed variables only and stay within bounds."""
    with goos.OptimizationPlan() as plan:
        model = Model()
        variables = [_declare(rng, model) for _ in range(3)]
        obj = 0
        for v, x in zip(variables, model.val):
            t = rng.uniform(-8, 8, x.shape)
            obj = goos.dot(v - t, v - t) + obj
        for i, v in enumerate(variables):
            if not model.param[i] and rng.random() < 0.4:
                v.freeze()
                model.frozen[i] = True
        if all(model.frozen):
            return
        method = ["L-BFGS-B", "SLSQP", "TNC"][int(rng.integers(3))]
        goos.opt.scipy_minimize(obj, method=method,
                                max_iters=int(rng.integers(1, 20)))
        before = [x.copy() for x in model.val]
        plan.run()
        ck.event("optimizations")
        for i, v in enumerate(variables):
            got = plan.get_var_value(v)
            if model.frozen[i]:
                ck.close(np.ravel(got), np.ravel(before[i]),
                         "frozen-changed-by-optimizer")
            lo, hi = model.bounds[i]
            if not model.frozen[i]:
                ck.expect(np.all(np.ravel(got) >= np.ravel(lo) - 1e-9) and
                          np.all(np.ravel(got) <= np.ravel(hi) + 1e-9),
                          "bounds-violated-by-optimizer",
                          {"got": got, "lo": lo, "hi": hi})
        ck.key(method, model.frozen, [b.tolist() for b in before])


@family(quick=150, thorough=1500)
def several_plans(ck, rng):
    """The state of a plan is its own, whichever plan is the default one."""
    n = int(rng.integers(1, 4))
    init = rng.normal(size=n)
    with goos.OptimizationPlan() as a:
        x = goos.Variable(init)
        expr = 2 * x + 1
        plans = [a, goos.OptimizationPlan(), goos.OptimizationPlan()]
        want = [init.copy() for _ in plans]
        frozen = [False] * 3
        early = rng.random() < 0.5
        if early:
            for p in plans[1:]:
                p.add_node(x)
        hist = []
        for _ in range(int(rng.integers(3, 9))):
            k = int(rng.integers(3))
            d = int(rng.integers(3))
            op = str(rng.choice(["set", "expr", "freeze", "thaw", "tick"]))
            hist.append((k, d, op))
            p = plans[k]
            if op in ("set", "expr") and frozen[k]:
                continue
            if op == "set":
                v = rng.normal(size=n)
                p.add_action(goos.SetVariable(x, goos.Constant(v)))
                want[k] = v
            elif op == "expr":
                p.add_action(goos.SetVariable(x, expr))
                want[k] = 2 * want[k] + 1
            elif op == "freeze":
                p.add_action(goos.FreezeVariable(x))
                frozen[k] = True
            elif op == "thaw":
                p.add_action(goos.ThawVariable(x))
                frozen[k] = False
            else:
                p.add_action(Tick(x, 0, 0.5))
                want[k] = want[k] + 0.5
            with plans[d]:
                p.run()
            for q, w, f in zip(plans, want, frozen):
                if not early:
                    q.add_node(x)
                ck.close(q.get_var_value(x), w, "plan-value", rtol=1e-12,
                         detail=hist)
                ck.close(q.eval_node(expr).array, 2 * w + 1,
                         "plan-expression", rtol=1e-12, detail=hist)
                g = q.eval_grad(goos.dot(np.ones(n), expr), [x])[0]
                ck.close(g.array_grad, np.full(n, 0.0 if f else 2.0),
                         "plan-gradient", detail=hist)
            with plans[d]:
                ck.close(x.get().array, want[d], "default-plan-value",
                         rtol=1e-12, detail=hist)
            ck.event("plan_switches")
        ck.close(x.get().array, want[0], "outer-plan-value", rtol=1e-12)
        ck.key(hist, n)


@family(quick=100, thorough=1000)
def outside_nodes(ck, rng):
    """Nodes made outside of any plan join the plan that evaluates them."""
    n = int(rng.integers(1, 4))
    a, b, c = [np.round(rng.uniform(0.5, 2, n), 3) for _ in range(3)]
    x = goos.Variable(a)
    y = goos.Variable(b, parameter=bool(rng.random() < 0.3))
    f = goos.Sum([x * y, goos.Constant(c)])
    g = goos.dot(np.ones(n), f**2)
    plan = goos.OptimizationPlan()
    other = goos.OptimizationPlan()
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(3))
        hist.append(k)
        if k == 0:
            got = plan.eval_node(f).array
            ck.close(got, a * b + c, "outside-value", rtol=1e-12, detail=hist)
        elif k == 1:
            with plan:
                got = f.get().array
            ck.close(got, a * b + c, "outside-value", rtol=1e-12, detail=hist)
        else:
            with plan:
                got = g.get_grad([x])[0].array_grad
            ck.close(got, 2 * (a * b + c) * b, "outside-gradient", rtol=1e-9,
                     detail=hist)
    plan.add_action(goos.SetVariable(x, goos.Constant(a + 0.5)))
    plan.run()
    ck.close(plan.eval_node(f).array, (a + 0.5) * b + c, "outside-set",
             rtol=1e-12, detail=hist)
    ck.close(other.eval_node(f).array, a * b + c, "outside-other-plan",
             rtol=1e-12, detail=hist)
    ck.event("nodes_from_outside")
    ck.key(hist, n, a.tolist())


class _Capture(logging.Handler):

    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


@family(quick=100, thorough=1000)
def printed(ck, rng):
    """`log_print` logs the values of its turn in the plan, changing none."""
    n = int(rng.integers(1, 4))
    cap = _Capture()
    with goos.OptimizationPlan() as plan:
        logger = plan.logger
        level = logger.level
        logger.addHandler(cap)
        logger.setLevel(logging.INFO)
        propagate, logger.propagate = logger.propagate, False
        disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        try:
            val = np.round(rng.normal(size=n), 3)
            x = goos.Variable(val, name="the_x")
            y = goos.rename(3 * x + 1, name="the_y")
            box = goos.Cuboid(pos=goos.Constant([1, 2, 3]),
                              extents=goos.Constant([4, 5, 6]),
                              material=goos.material.Material(index=2),
                              name="the_box")
            # Text of one run of the plan's actions, in order.
            want = []
            for k in range(int(rng.integers(3, 9))):
                op = str(rng.choice(["set", "text", "x", "y", "both", "box"]))
                if op == "set":
                    val = np.round(rng.normal(size=n), 3)
                    x.set(val)
                elif op == "text":
                    goos.log_print("message %d" % k)
                    want.append(["message %d" % k])
                elif op == "box":
                    goos.log_print(box)
                    want.append(["the_box", str(np.array([4, 5, 6]))])
                else:
                    goos.log_print({"x": x, "y": y, "both": [x, y]}[op])
                    if op != "y":
                        want.append(["the_x", repr(val)])
                    if op != "x":
                        want.append(["the_y", repr(3 * val + 1)])
                if rng.random() < 0.3:
                    plan.run()
            plan.run()
            plan.run()
        finally:
            logger.removeHandler(cap)
            logger.setLevel(level)
            logger.propagate = propagate
            logging.disable(disabled)
        lines = [l for l in cap.lines if "Running action" not in l]
        i = 0
        for parts in want:
            squeeze = lambda t: re.sub(r"[\s,]+", " ", t)
            while i < len(lines) and not all(
                    squeeze(p).strip("[]") in squeeze(lines[i])
                    for p in parts):
                i += 1
            if not ck.expect(i < len(lines), "log-print-missing",
                             {"want": want, "got": lines}):
                break
            i += 1
        for word in ("the_x", "the_y", "the_box", "message"):
            ck.expect(sum(word in l for l in lines) ==
                      sum(w[0].startswith(word) for w in want),
                      "log-print-count", {"want": want, "got": lines})
        ck.close(plan.get_var_value(x), val, "log-print-changes-value")
        ck.event("printed", len(want))
        ck.key(n, want)
