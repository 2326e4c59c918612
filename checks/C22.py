"""C22: executing, crashing and resuming optimization plans."""
import builtins
import io
import json
import os
import pickle
import random
import shutil
import sys
import tempfile
import traceback

import numpy as np
import scipy.optimize
from schematics import types

from vlib.core import family
from spins.invdes import parametrization as prm
from spins.invdes import problem
from spins.invdes.problem import graph_executor
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import creator  # registers the creators
from spins.invdes.problem_graph import schema_utils
from spins.invdes.problem_graph import solver
from spins.invdes.problem_graph import workspace

RULE = ("random plans (scripted, scipy and penalty transformations, "
        "parameters set from functions, several parametrizations, monitors) "
        "executed in their own process, killed at a chosen point (function "
        "evaluation, opening, partial write, close or rename of a log or "
        "checkpoint file) and resumed, up to three crashes in a row; oracle: "
        "the record of the uninterrupted run and direct recomputation of the "
        "logged values; distinct by plan shape and crash point")
REQUIRED_EVENTS = ["uninterrupted", "crash_eval", "crash_write_partial",
                   "crash_open", "crash_close", "crash_rename", "crash_step",
                   "resumed", "resumed_mid_transformation",
                   "resumed_at_boundary", "resumed_after_completion",
                   "double_crash", "parameter_set", "inverse_parameter",
                   "second_parametrization", "random_initial_value",
                   "files_kept", "scipy_resumed", "scipy_maxiter",
                   "scipy_iterates", "penalty_runs", "monitor_values",
                   "no_log_transformation", "default_options",
                   "method_BFGS", "method_CG", "method_SLSQP",
                   "zero_parameter", "negative_parameter", "many_logs",
                   "many_parametrizations", "many_monitors",
                   "no_iterations_allowed", "constrained_scipy",
                   "several_constraints"]
ASSUMPTIONS = ["a crash ends the process: data handed to the operating system "
               "stays, data in buffers of the process is lost"]

CRASH = 77


# ---------------------------------------------------------------- node types

class VParam(optplan.Parametrization):
    type = schema_utils.polymorphic_model_type("parametrization.v_direct")
    init = types.ListType(types.FloatType())
    bounds = types.ListType(types.FloatType())
    random_init = types.BooleanType(default=False)


class VQuad(optplan.Function):
    """sum_i w_i (x_i - t_i)^2"""
    type = schema_utils.polymorphic_model_type("function.v_quad")
    weights = types.ListType(types.FloatType())
    targets = types.ListType(types.FloatType())


class VLin(optplan.Function):
    """sum_i a_i x_i"""
    type = schema_utils.polymorphic_model_type("function.v_lin")
    coeffs = types.ListType(types.FloatType())


class VScript(optplan.TransformationBase):
    """x <- decay * x + shift + gain * fun(x), several logged times."""
    type = schema_utils.polymorphic_model_type("v_script")
    steps = types.IntType()
    decay = types.FloatType()
    shift = types.FloatType()
    gain = types.FloatType()
    function = optplan.ReferenceType(optplan.Function)
    monitors = types.ListType(optplan.ReferenceType(optplan.Monitor))
    log = types.BooleanType(default=True)


class Faults:
    """Counts crash points and ends the process at the chosen one."""
    armed = None       # index of the crash point, None: only count
    count = 0
    kinds = []
    folder = None

    @classmethod
    def reset(cls, armed, folder):
        cls.armed, cls.count, cls.kinds = armed, 0, []
        cls.folder = os.path.abspath(folder)

    @classmethod
    def point(cls, kind, before=None):
        """One possible crash point; `before` runs just before the crash."""
        if cls.folder is None:
            return
        cls.kinds.append(kind)
        if cls.armed is not None and cls.count == cls.armed:
            if before:
                before()
            os._exit(CRASH)
        cls.count += 1


class FaultyFile:

    def __init__(self, handle):
        self._h = handle

    def write(self, data):
        def partial():
            self._h.write(data[:len(data) // 2])
            self._h.flush()
        Faults.point("write_partial", partial)
        r = self._h.write(data)
        Faults.point("write_buffered")
        return r

    def close(self):
        Faults.point("close")
        self._h.close()
        Faults.point("closed")

    def __enter__(self):
        self._h.__enter__()
        return self

    def __exit__(self, *a):
        Faults.point("close")
        r = self._h.__exit__(*a)
        Faults.point("closed")
        return r

    def __getattr__(self, name):
        return getattr(self._h, name)


def install_faults():
    """Wraps file access below the watched folder (only in child processes)."""
    real_open = builtins.open
    real_replace, real_rename = os.replace, os.rename

    def watched(path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(Faults.folder + os.sep) and not p.endswith(".log")

    def faulty_open(file, mode="r", *args, **kwargs):
        if (isinstance(file, int) or not set(mode) & set("wax+") or
                not watched(file)):
            return real_open(file, mode, *args, **kwargs)
        Faults.point("open")
        h = real_open(file, mode, *args, **kwargs)
        Faults.point("opened")
        return FaultyFile(h)

    def mover(real):
        def move(src, dst, *args, **kwargs):
            if not watched(dst):
                return real(src, dst, *args, **kwargs)
            Faults.point("rename")
            real(src, dst, *args, **kwargs)
            Faults.point("renamed")
        return move

    builtins.open = faulty_open
    io.open = faulty_open
    os.replace = mover(real_replace)
    os.rename = mover(real_rename)


class Quad(problem.OptimizationFunction):

    def __init__(self, var, w, t):
        super().__init__(var)
        self.w, self.t = np.array(w), np.array(t)

    def eval(self, vals):
        Faults.point("eval")
        return float(np.sum(self.w * (vals[0] - self.t)**2))

    def grad(self, vals, g):
        return [g * 2 * self.w * (vals[0] - self.t)]


class Lin(problem.OptimizationFunction):

    def __init__(self, var, a):
        super().__init__(var)
        self.a = np.array(a)

    def eval(self, vals):
        Faults.point("eval")
        return float(self.a @ vals[0])

    def grad(self, vals, g):
        return [g * self.a]


class Script:

    def __init__(self, params, work):
        self.p = params
        self.work = work
        self.fun = (work.get_object(params.function)
                    if params.function is not None else None)

    def __call__(self, param, event_data=None):
        start = event_data["iteration"] if event_data else 0
        for i in range(start, self.p.steps):
            Faults.point("step")
            x = param.to_vector()
            add = self.p.shift
            if self.fun is not None:
                add = add + self.p.gain * np.tanh(np.real(
                    self.fun.calculate_objective_function(param)))
            param.from_vector(self.p.decay * x + add)
            if self.p.log:
                self.work.logger.write(
                    event={"state": "optimizing", "iteration": i + 1},
                    param=param, monitor_list=self.p.monitors)


optplan.GLOBAL_CONTEXT_STACK.push(optplan.OptplanContext())


@optplan.register_node(VParam)
def make_param(params, work):
    init = np.array(params.init)
    if params.random_init:
        init = init + np.random.uniform(-0.2, 0.2, len(init))
    b = params.bounds
    return prm.DirectParam(init, bounds=list(b) if b else None)


@optplan.register_node(VQuad)
def make_quad(params, work):
    return Quad(work.get_object(workspace.VARIABLE_NODE), params.weights, params.targets)


@optplan.register_node(VLin)
def make_lin(params, work):
    return Lin(work.get_object(workspace.VARIABLE_NODE), params.coeffs)


@optplan.register_transformation(VScript)
def make_script(params, work):
    return Script(params, work)


# --------------------------------------------------------- running processes

def in_child(fn, out):
    """Runs fn() in a forked process; returns (exit code, result or None)."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            res = fn()
            with io.FileIO(out, "w") as h:
                h.write(pickle.dumps(res))
            code = 0
        except BaseException:
            with io.FileIO(out, "w") as h:
                h.write(pickle.dumps({"error": traceback.format_exc()}))
            code = 4
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    res = None
    if os.path.exists(out):
        with open(out, "rb") as h:
            data = h.read()
        res = pickle.loads(data) if data else None
        os.remove(out)
    return code, res


TRACE = []


def watch_scipy():
    """Records the iterates that scipy reports (only in child processes)."""
    real = scipy.optimize.minimize

    def minimize(fun, x0, *args, **kwargs):
        entry = {"x0": np.array(x0), "xs": [], "x": None}
        TRACE.append(entry)
        cb = kwargs.get("callback")
        if cb is not None:
            def callback(xk):
                entry["xs"].append(np.array(xk))
                return cb(xk)
            kwargs["callback"] = callback
        r = real(fun, x0, *args, **kwargs)
        entry["x"] = np.array(r.x)
        return r

    scipy.optimize.minimize = minimize


def execute(text, scratch, folder, crash, resume, seed):
    """Runs a stored plan in a process of its own."""

    def run():
        watch_scipy()
        Faults.reset(crash, folder)
        install_faults()
        np.random.seed(seed)
        plan = optplan.loads(text)
        before = optplan.dumps(plan)
        solver.run_plan(plan, scratch, save_folder=folder, resume=resume)
        Faults.folder = None
        return {"points": list(Faults.kinds), "trace": TRACE,
                "plan_kept": json.loads(before) ==
                json.loads(optplan.dumps(plan))}

    return in_child(run, os.path.join(scratch, "result.bin"))


def read_folder(folder):
    """Record of a run: {step: log}, {name: checkpoint}, raw bytes."""
    logs, chk, raw = {}, {}, {}
    for name in sorted(os.listdir(folder)):
        path = os.path.join(folder, name)
        if not name.endswith(".pkl"):
            continue
        with open(path, "rb") as h:
            raw[name] = h.read()
        try:
            data = pickle.loads(raw[name])
        except Exception:
            continue
        if name.endswith(".chkpt.pkl"):
            chk[name[:-len(".chkpt.pkl")]] = data
        elif name.startswith("step"):
            logs[int(name[4:-4])] = data
    return logs, chk, raw


def strip(d):
    return {k: plain(v) for k, v in d.items() if k != "time"}


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    return v


def vector(data, n):
    p = prm.DirectParam(np.zeros(n), bounds=None)
    p.deserialize(data)
    return np.array(p.to_vector())


# -------------------------------------------------------------- random plans

class PlanGen:
    """A random plan together with what is needed to predict it."""

    def __init__(self, ck, rnd, mode):
        self.ck, self.rnd, self.mode = ck, rnd, mode
        optplan.reset_graph()
        self.n = n = rnd.randint(1, 3)
        self.fresh = 0
        self.random = mode == "random"
        self.params = []
        self.any_sign = mode == "script" and rnd.random() < 0.6
        num = rnd.randint(1, 2)
        if mode == "script" and rnd.random() < 0.4:
            num = rnd.randint(3, 4)
            ck.event("many_parametrizations")
        for i in range(2 if self.random else num):
            self.params.append(VParam(
                name="par%d" % i, init=[rnd.uniform(0.2, 0.8)
                                        for _ in range(n)],
                bounds=None if mode == "script" or self.random else
                rnd.choice([None, [-2.0, 2.0]]),
                random_init=self.random))
        self.consts = [optplan.Parameter(name="c%d" % i,
                                         initial_value=rnd.uniform(0.5, 2)
                                         if not self.any_sign else
                                         rnd.choice([0.0, -1.0, 1.5,
                                                     rnd.uniform(-2, 2)]))
                       for i in range(rnd.randint(1, 3))]
        self.quads = [VQuad(name="q%d" % i,
                            weights=[rnd.uniform(0.5, 3) for _ in range(n)],
                            targets=[rnd.uniform(-1, 1) for _ in range(n)])
                      for i in range(2)]
        self.monitors = {}
        # Sometimes more than nine or ninety-nine log files.
        self.long = None
        if mode == "script" and rnd.random() < 0.12:
            self.long = rnd.choice([(9, 14), (95, 112)])

    def objective(self):
        """Sum of quadratics with parameters as weights (strictly convex)."""
        rnd = self.rnd
        q = rnd.choice(self.quads)
        c = rnd.choice(self.consts)
        kind = rnd.randrange(5)
        if kind == 0:
            return q
        if kind == 1:
            return c * q
        if kind == 2:
            return q + c
        if kind == 3:
            return c * self.quads[0] + self.quads[1] + 0.5
        return c**2 * q + 1.0

    def monitor(self, f):
        # Names in no particular order.
        name = "%s%d" % (self.rnd.choice("zmka"), len(self.monitors))
        m = optplan.SimpleMonitor(name=name, function=f)
        self.monitors[name] = f
        return m

    def set_params(self):
        rnd = self.rnd
        if rnd.random() < 0.4:
            return None
        out = []
        for _ in range(rnd.randint(1, 2)):
            inv = rnd.random() < 0.5
            fun = rnd.choice(self.quads) + 0.3
            if self.any_sign:
                kind = rnd.randrange(3)
                if kind == 0:
                    fun = -1 * fun
                    self.ck.event("negative_parameter")
                elif kind == 1:
                    q = rnd.choice(self.quads)
                    fun, inv = 0 * q, False
                    self.ck.event("zero_parameter")
            out.append(optplan.SetParam(
                parameter=rnd.choice(self.consts),
                function=fun,
                parametrization=rnd.choice(self.params), inverse=inv))
            self.ck.event("parameter_set")
            if inv:
                self.ck.event("inverse_parameter")
        return out

    def script(self):
        rnd = self.rnd
        f = self.objective() if rnd.random() < 0.8 else None
        mons = [self.monitor(self.objective())
                for _ in range(rnd.choice([0, 1, 2, 2, 3, 4]))]
        if len(mons) > 2:
            self.ck.event("many_monitors")
        log = rnd.random() < 0.85
        if not log:
            self.ck.event("no_log_transformation")
        steps = rnd.randint(1, 4)
        if self.long and log:
            steps = rnd.randint(*self.long)
            self.long = None
            self.ck.event("many_logs")
        return VScript(steps=steps, decay=rnd.uniform(0.5, 0.95),
                       shift=rnd.uniform(-0.3, 0.3),
                       gain=rnd.uniform(-0.5, 0.5), function=f,
                       monitors=mons or None, log=log)

    def scipy(self):
        rnd = self.rnd
        kind = rnd.choice(["converge", "converge", "converge", "maxiter",
                           "maxiter", "default", "none"])
        kw = {}
        if kind == "converge":
            kw["optimization_options"] = optplan.ScipyOptimizerOptions(
                maxiter=500, ftol=0.0 if rnd.random() < 0.3 else 1e-14,
                gtol=1e-9)
        elif kind == "maxiter":
            kw["optimization_options"] = optplan.ScipyOptimizerOptions(
                maxiter=rnd.randint(1, 4), gtol=0.0, ftol=0.0)
        elif kind == "none":
            kw["optimization_options"] = optplan.ScipyOptimizerOptions(
                maxiter=0)
            self.ck.event("no_iterations_allowed")
        else:
            self.ck.event("default_options")
        obj = self.objective()
        mons = None
        if rnd.random() < 0.85:
            mons = optplan.ScipyOptimizerMonitorList(
                callback_monitors=[self.monitor(obj)] + [
                    self.monitor(self.objective())
                    for _ in range(rnd.choice([0, 0, 1, 2]))],
                start_monitors=[self.monitor(obj)]
                if rnd.random() < 0.5 else None,
                end_monitors=[self.monitor(obj)]
                if rnd.random() < 0.5 else None)
        t = optplan.ScipyOptimizerTransformation(
            optimizer=rnd.choice(["L-BFGS-B", "L-BFGS-B", "BFGS", "CG",
                                  "SLSQP"]),
            objective=obj, **kw)
        self.ck.event("method_" + t.optimizer)
        if mons:
            t.monitor_lists = mons
        self.kinds.append(kind)
        return t

    def build(self):
        rnd = self.rnd
        trs = []
        self.kinds = []
        for i in range(rnd.randint(1, 3)):
            if self.mode in ("script", "random"):
                t = self.script()
                self.kinds.append("script")
            else:
                t = self.scipy()
            k = 0 if i == 0 else rnd.randrange(len(self.params))
            if k:
                self.ck.event("second_parametrization")
            tr = optplan.Transformation(name="t%d" % i,
                                        parametrization=self.params[k],
                                        transformation=t)
            sp = self.set_params()
            if self.random and i == 0:
                # Creates every parametrization in the first transformation.
                sp = (sp or []) + [optplan.SetParam(
                    parameter=self.consts[0], function=self.quads[0] + 0.3,
                    parametrization=p, inverse=False) for p in self.params]
            if sp:
                tr.parameter_list = sp
            trs.append(tr)
        self.plan = optplan.OptimizationPlan(transformations=trs)
        return optplan.dumps(self.plan)


class Scratch:

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="vc22_")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def check_sequence(ck, plan, logs):
    """Steps are contiguous, numbered, and follow the plan."""
    ck.expect(sorted(logs) == list(range(1, len(logs) + 1)),
              "steps_contiguous", {"steps": sorted(logs)})
    names = [t.name for t in plan.transformations]
    last, counts = -1, {}
    for k in sorted(logs):
        d = logs[k]
        ck.expect(d["log_counter"] == k, "step_number",
                  {"file": k, "counter": d["log_counter"]})
        ck.require(d["transformation"] in names, "step_transformation",
                   {"got": d["transformation"]})
        i = names.index(d["transformation"])
        ck.expect(i >= last, "transformation_order",
                  {"step": k, "got": i, "after": last})
        last = max(last, i)
        ev = d["event"]
        counts.setdefault(i, []).append((ev.get("state"),
                                         ev.get("iteration")))
    for i, evs in counts.items():
        its = [it for _, it in evs if it is not None]
        ck.expect(its == list(range(1, len(its) + 1)), "iterations_contiguous",
                  {"transformation": i, "events": evs})
    return counts


@family(quick=60, thorough=500)
def plain_runs(ck, rng):
    """Uninterrupted runs against direct recomputation."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    mode = rnd.choice(["script", "scipy"])
    gen = PlanGen(ck, rnd, mode)
    text = gen.build()
    with Scratch() as scratch:
        folder = os.path.join(scratch, "save")
        os.mkdir(folder)
        code, res = execute(text, scratch, folder, None, False, 1)
        ck.require(code == 0, "plan_runs", {"code": code, "result": res})
        ck.expect(res["plan_kept"], "plan_unchanged", {})
        logs, chk, raw = read_folder(folder)
    ck.event("uninterrupted")
    plan = gen.plan
    check_sequence(ck, plan, logs)
    ck.expect(sorted(chk) == [t.name for t in plan.transformations],
              "checkpoints_written", {"got": sorted(chk)})
    # Predict the whole run.
    n = gen.n
    x = {p.name: np.array(p.init) for p in gen.params}
    pv = {c.name: c.initial_value for c in gen.consts}
    step = 0

    def value(f, v):
        t = f.type
        if t == "function.v_quad":
            return float(np.sum(np.array(f.weights) *
                                (v - np.array(f.targets))**2))
        if t == "function.parameter":
            return pv[f.name]
        if t == "function.constant":
            return complex(f.value.real, f.value.imag)
        if t == "function.sum":
            return sum(value(g, v) for g in f.functions)
        if t == "function.product":
            r = 1
            for g in f.functions:
                r = r * value(g, v)
            return r
        if t == "function.power":
            return value(f.function, v)**f.exp
        raise AssertionError(t)

    def slope(f, v):
        t = f.type
        if t == "function.v_quad":
            return 2 * np.array(f.weights) * (v - np.array(f.targets))
        if t in ("function.parameter", "function.constant"):
            return np.zeros(n)
        if t == "function.sum":
            return sum(slope(g, v) for g in f.functions)
        if t == "function.product":
            vals = [value(g, v) for g in f.functions]
            return sum(slope(g, v) * np.prod(vals[:i] + vals[i + 1:])
                       for i, g in enumerate(f.functions))
        if t == "function.power":
            return f.exp * value(f.function, v)**(f.exp - 1) * slope(
                f.function, v)
        raise AssertionError(t)

    def check_log(name, ev, vec, mons, tol):
        nonlocal step
        step += 1
        ck.require(step in logs, "step_logged", {"step": step, "event": ev})
        d = logs[step]
        ck.expect(d["transformation"] == name and d["event"] == ev,
                  "event_logged", {"got": [d["transformation"], d["event"]],
                                   "want": [name, ev]})
        got = vector(d["parametrization"], n)
        ck.close(got, vec, "structure_logged", rtol=tol, atol=tol,
                 detail={"step": step, "event": ev})
        for c, v in d["parameters"].items():
            ck.close(complex(v), complex(pv[c]), "parameters_logged",
                     rtol=1e-9, atol=1e-12, detail={"parameter": c})
        ck.expect(set(d["monitor_data"]) == {m.name for m in mons or []},
                  "monitors_logged", {"got": sorted(d["monitor_data"])})
        for m in mons or []:
            if m.name in d["monitor_data"]:
                ck.close(complex(d["monitor_data"][m.name]),
                         complex(value(m.function, got)), "monitor_value",
                         rtol=1e-9, atol=1e-12, detail={"monitor": m.name})
                ck.event("monitor_values")
        return got

    for tr in plan.transformations:
        for sp in tr.parameter_list or []:
            v = value(sp.function, x[sp.parametrization.name])
            pv[sp.parameter.name] = 1 / v if sp.inverse else v
        t = tr.transformation
        pn = tr.parametrization.name
        if isinstance(t, VScript):
            for i in range(t.steps):
                add = t.shift
                if t.function is not None:
                    add = add + t.gain * np.tanh(np.real(value(t.function,
                                                               x[pn])))
                x[pn] = t.decay * x[pn] + add
                if t.log:
                    check_log(tr.name, {"state": "optimizing",
                                        "iteration": i + 1}, x[pn],
                              t.monitors, 1e-9)
        else:
            ml = t.monitor_lists
            check_log(tr.name, {"state": "start"}, x[pn],
                      ml.start_monitors if ml else None, 1e-9)
            opts = ({k: v for k, v in t.optimization_options.items()
                     if v is not None} if t.optimization_options else {})
            run = None
            active = [u for u, kd in zip(plan.transformations, gen.kinds)
                      if kd != "none"]
            if opts.get("maxiter") == 0:
                run = {"xs": [], "x": x[pn]}
            elif len(res["trace"]) == len(active):
                run = res["trace"][active.index(tr)]
            b = tr.parametrization.bounds
            if ml and ml.callback_monitors:
                its = [k for k in sorted(logs)
                       if logs[k]["transformation"] == tr.name and
                       logs[k]["event"].get("state") == "optimizing"]
                if run is not None:
                    ck.expect(len(its) == len(run["xs"]),
                              "every_iteration_logged",
                              {"got": len(its), "want": len(run["xs"])})
                for i in range(len(its)):
                    got = check_log(tr.name, {"state": "optimizing",
                                              "iteration": i + 1},
                                    vector(logs[its[i]]["parametrization"], n),
                                    ml.callback_monitors, 1e-9)
                    if run is not None and i < len(run["xs"]):
                        ck.close(got, run["xs"][i], "iterate_logged",
                                 rtol=1e-9, atol=1e-9,
                                 detail={"iteration": i + 1,
                                         "method": t.optimizer})
                        ck.event("scipy_iterates")
                if "maxiter" in opts:
                    ck.expect(len(its) <= opts["maxiter"], "iteration_limit",
                              {"iterations": len(its), "limit":
                               opts["maxiter"]})
                    if opts["maxiter"] < 10:
                        ck.event("scipy_maxiter")
            final = vector(logs[step + 1]["parametrization"], n) if (
                step + 1 in logs) else x[pn]
            x[pn] = check_log(tr.name, {"state": "end"},
                              final if run is None or run["x"] is None
                              else run["x"],
                              ml.end_monitors if ml else None, 1e-9)
            if not opts or opts.get("maxiter", 1000) > 10:
                # Optimum of a strictly convex problem.
                g = np.real(slope(t.objective, x[pn]))
                if b and t.optimizer in ("L-BFGS-B", "SLSQP"):
                    g = x[pn] - np.clip(x[pn] - g, b[0], b[1])
                ok = np.max(np.abs(g)) < 2e-3
                if not ok and not opts:
                    # Default tolerances are on the value of the objective.
                    h = np.real(slope(t.objective, x[pn] + 1) -
                                slope(t.objective, x[pn]))
                    ok = np.sum(g**2 / (2 * h)) < 1e-4 * max(
                        1, abs(value(t.objective, x[pn])))
                ck.expect(ok, "optimum_reached",
                          {"residual": g.tolist(), "method": t.optimizer})
        d = chk.get(tr.name)
        if d is not None:
            ck.close(vector(d["parametrizations"][pn], n), x[pn],
                     "checkpoint_structure", rtol=1e-9, atol=1e-9)
            for c, v in d["parameters"].items():
                ck.close(complex(v), complex(pv[c]), "checkpoint_parameters",
                         rtol=1e-9, atol=1e-12)
            # Every parameter that has been set is part of the state.
            used = {sp.parameter.name for q in plan.transformations[
                :plan.transformations.index(tr) + 1]
                    for sp in q.parameter_list or []}
            ck.expect(used <= set(d["parameters"]), "checkpoint_complete",
                      {"missing": sorted(used - set(d["parameters"]))})
    ck.expect(step == len(logs), "no_other_steps",
              {"want": step, "got": len(logs)})
    ck.key(mode, tuple(gen.kinds), len(logs))
    ck.sample({"mode": mode, "kinds": gen.kinds, "steps": len(logs)})


def crash_once(ck, text, scratch, folder, rnd, points, resume, seed):
    """One run that is killed at a random point; returns the kind or None."""
    kinds = sorted(set(points))
    kind = rnd.choice(kinds)
    k = rnd.choice([i for i, p in enumerate(points) if p == kind])
    code, res = execute(text, scratch, folder, k, resume, seed)
    if code == CRASH:
        ck.event("crash_" + {"eval": "eval", "step": "step", "open": "open",
                             "opened": "open", "write_partial":
                             "write_partial", "write_buffered": "close",
                             "close": "close", "closed": "close",
                             "rename": "rename",
                             "renamed": "rename"}[kind])
        return kind, k
    ck.require(code == 0, "run_or_resume_fails",
               {"code": code, "result": res, "resume": resume})
    return None, k


@family(quick=150, thorough=1500, timeout=300)
def exact_resume(ck, rng):
    """Scripted plans: the resumed record equals the uninterrupted one."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    mode = rnd.choice(["script", "script", "random"])
    gen = PlanGen(ck, rnd, mode)
    text = gen.build()
    with Scratch() as scratch:
        ref = os.path.join(scratch, "ref")
        os.mkdir(ref)
        code, res = execute(text, scratch, ref, None, False, 1)
        ck.require(code == 0, "plan_runs", {"code": code, "result": res})
        rlogs, rchk, _ = read_folder(ref)
        points = res["points"]
        folder = os.path.join(scratch, "save")
        os.mkdir(folder)
        crashes = rnd.choice([1, 1, 2, 3])
        history = []
        kept = {}
        first_chk = None
        for i in range(crashes):
            kind, k = crash_once(ck, text, scratch, folder, rnd, points,
                                 i > 0, 1 + i)
            history.append([kind, k])
            logs, chk, raw = read_folder(folder)
            if i == 0:
                first_chk = bool(chk)
            ck.expect(all(raw.get(n) == v for n, v in kept.items()),
                      "earlier_files_kept", {"history": history})
            # Every log and checkpoint file is complete at all times.
            for n in raw:
                ok = n in {"step%d.pkl" % s for s in logs} | {
                    c + ".chkpt.pkl" for c in chk}
                ck.expect(ok, "files_complete",
                          {"file": n, "history": history})
            kept = raw
            if kind is None:
                break
        if i:
            ck.event("double_crash")
        mid = bool(logs) and not chk or (
            chk and logs and logs[max(logs)]["transformation"] not in chk)
        done = len(chk) == len(gen.plan.transformations)
        code, res = execute(text, scratch, folder, None, True, 99)
        ck.require(code == 0, "resume_completes",
                   {"code": code, "result": res, "history": history})
        logs, chk, raw = read_folder(folder)
        ck.event("resumed")
        ck.event("resumed_after_completion" if done else
                 "resumed_mid_transformation" if mid else
                 "resumed_at_boundary")
        ck.expect(all(raw.get(n) == v for n, v in kept.items()),
                  "files_kept", {"history": history,
                                 "changed": [n for n, v in kept.items()
                                             if raw.get(n) != v]})
        ck.event("files_kept", len(kept))
        if mode == "random":
            ck.event("random_initial_value")
            if not first_chk:
                check_sequence(ck, gen.plan, logs)
                ck.expect(len(logs) == len(rlogs) and set(chk) == set(rchk),
                          "same_number_of_steps", {"history": history})
                return
        # Parameters that have never been set may be listed or not.
        initial = {c.name: c.initial_value for c in gen.consts}
        for mine, other in ((logs, rlogs), (chk, rchk)):
            for k in set(mine) & set(other):
                a, b = mine[k]["parameters"], other[k]["parameters"]
                for c in set(a) - set(b):
                    if a[c] == initial[c]:
                        del a[c]
                for c in set(b) - set(a):
                    if b[c] == initial[c]:
                        del b[c]
        diff = [k for k in set(logs) | set(rlogs)
                if strip(logs.get(k, {})) != strip(rlogs.get(k, {}))]
        ck.expect(not diff, "same_logs", {
            "history": history, "step": diff[:1],
            "got": [strip(logs[k]) if k in logs else None for k in diff[:1]],
            "want": [strip(rlogs[k]) if k in rlogs else None
                     for k in diff[:1]]})
        diff = [k for k in set(chk) | set(rchk)
                if strip(chk.get(k, {})) != strip(rchk.get(k, {}))]
        ck.expect(not diff, "same_checkpoints", {
            "history": history, "name": diff[:1],
            "got": [strip(chk[k]) if k in chk else None for k in diff[:1]],
            "want": [strip(rchk[k]) if k in rchk else None
                     for k in diff[:1]]})
        # A run that is complete stays as it is when it is resumed again.
        code, res = execute(text, scratch, folder, None, True, 100)
        ck.require(code == 0, "resume_complete_plan", {"result": res})
        _, chk2, raw2 = read_folder(folder)
        ck.expect(raw2 == raw,
                  "complete_plan_kept", {"history": history})
        ck.event("resumed_after_completion")
        ck.key(mode, tuple(gen.kinds), tuple(h[0] for h in history),
               history[-1][1], len(rlogs))
        ck.sample({"mode": mode, "kinds": gen.kinds, "history": history,
                   "points": len(points), "steps": len(rlogs)})


@family(quick=100, thorough=1000, timeout=300)
def optimizer_resume(ck, rng):
    """L-BFGS-B plans: same optimum, same parameters, limits respected."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    gen = PlanGen(ck, rnd, "scipy")
    text = gen.build()
    with Scratch() as scratch:
        ref = os.path.join(scratch, "ref")
        os.mkdir(ref)
        code, res = execute(text, scratch, ref, None, False, 1)
        ck.require(code == 0, "plan_runs", {"code": code, "result": res})
        rlogs, rchk, _ = read_folder(ref)
        folder = os.path.join(scratch, "save")
        os.mkdir(folder)
        history, kept, logs, chk = [], {}, {}, {}
        cut = set()    # transformations that were interrupted in the middle
        for i in range(rnd.choice([1, 1, 2])):
            kind, k = crash_once(ck, text, scratch, folder, rnd,
                                 res["points"], i > 0, 1)
            history.append([kind, k])
            logs, chk, raw = read_folder(folder)
            ck.expect(all(raw.get(n) == v for n, v in kept.items()),
                      "earlier_files_kept", {"history": history})
            kept = raw
            if kind is None:
                break
            cut |= {d["transformation"] for d in logs.values()} - set(chk)
        code, res2 = execute(text, scratch, folder, None, True, 99)
        ck.require(code == 0, "resume_completes",
                   {"code": code, "result": res2, "history": history})
        logs, chk, raw = read_folder(folder)
        ck.event("resumed")
        ck.event("scipy_resumed")
        ck.expect(all(raw.get(n) == v for n, v in kept.items()),
                  "files_kept", {"history": history})
        counts = check_sequence(ck, gen.plan, logs)
        exact = True   # no limit has made the trajectories differ so far
        for i, tr in enumerate(gen.plan.transformations):
            t = tr.transformation
            evs = counts.get(i, [])
            states = [s for s, _ in evs]
            ck.expect(states[:1] == ["start"] and states[-1:] == ["end"] and
                      all(s == "optimizing" for s in states[1:-1]),
                      "event_order", {"events": evs, "history": history})
            limit = (t.optimization_options.maxiter
                     if t.optimization_options else None)
            its = len(states) - 2
            if limit is not None and limit < 10:
                if t.monitor_lists:
                    ck.expect(its <= limit, "iteration_limit",
                              {"iterations": its, "limit": limit,
                               "history": history})
                ck.event("scipy_maxiter")
                # A few iterations amplify the rounding differences that
                # an interruption, here or earlier, has left.
                if cut & {x.name for x in gen.plan.transformations[:i + 1]}:
                    exact = False
            ck.require(tr.name in chk, "checkpoint_written",
                       {"name": tr.name})
            if exact:
                tol = 3e-3 if limit is None else 1e-3
                got, want = chk[tr.name], rchk[tr.name]
                ck.expect(set(got["parameters"]) >= set(want["parameters"]),
                          "same_parameters", {"history": history})
                for c in set(want["parameters"]) & set(got["parameters"]):
                    ck.close(complex(got["parameters"][c]),
                             complex(want["parameters"][c]),
                             "parameter_after_resume", rtol=tol, atol=tol,
                             detail={"history": history, "parameter": c})
                for p in want["parametrizations"]:
                    ck.require(p in got["parametrizations"],
                               "same_parametrizations", {"name": p})
                    ck.close(vector(got["parametrizations"][p], gen.n),
                             vector(want["parametrizations"][p], gen.n),
                             "structure_after_resume", rtol=tol, atol=tol,
                             detail={"history": history})
        ck.key(tuple(gen.kinds), tuple(h[0] for h in history),
               history[-1][1])


def _constrained(w, t, eqs, ineqs):
    """min sum w (x-t)^2 with a.x = b (eqs) and a.x <= b (ineqs), by trying
    all sets of active inequalities; None if it is not well conditioned."""
    best = None
    for mask in range(1 << len(ineqs)):
        act = list(eqs) + [c for i, c in enumerate(ineqs) if mask >> i & 1]
        if act:
            A = np.array([c[0] for c in act])
            b = np.array([c[1] for c in act])
            M = A @ np.diag(1 / w) @ A.T
            if len(act) > len(w) or np.linalg.cond(M) > 50:
                continue
            x = t - np.diag(1 / w) @ A.T @ np.linalg.solve(M, A @ t - b)
        else:
            x = t
        if all(np.dot(a, x) <= b + 1e-9 for a, b in ineqs):
            f = np.sum(w * (x - t)**2)
            if best is None or f < best[0]:
                best = (f, x)
    return best and best[1]


@family(quick=40, thorough=300, timeout=300)
def constrained_plans(ck, rng):
    """Several constraints in a plan: all of them hold at the optimum."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    optplan.reset_graph()
    n = rnd.randint(2, 4)
    w = np.array([rnd.uniform(0.5, 2) for _ in range(n)])
    t = np.array([rnd.uniform(-1, 1) for _ in range(n)])
    con = lambda: (np.array([rnd.choice([-1.0, 1.0, 2.0, 0.0])
                             for _ in range(n)]), rnd.uniform(-1, 1))
    eqs = [con() for _ in range(rnd.randint(0, min(2, n - 1)))]
    ineqs = [con() for _ in range(rnd.randint(0 if eqs else 1, 2))]
    if any(not np.any(a) for a, _ in eqs + ineqs):
        return
    if len(eqs) + len(ineqs) > n:
        return
    A = np.array([a for a, _ in eqs + ineqs])
    if np.linalg.cond(A @ A.T) > 30:
        return
    want = _constrained(w, t, eqs, ineqs)
    if want is None:
        return
    penalty = rnd.random() < 0.5
    q = VQuad(name="q", weights=w.tolist(), targets=t.tolist())
    fun = lambda c: VLin(coeffs=c[0].tolist()) - c[1] if c[1] else VLin(
        coeffs=c[0].tolist())
    kw = {}
    if eqs:
        kw["constraints_eq"] = [fun(c) for c in eqs]
    if ineqs:
        kw["constraints_ineq"] = [fun(c) for c in ineqs]
    if len(eqs) > 1 or len(ineqs) > 1:
        ck.event("several_constraints")
    mons = [optplan.SimpleMonitor(name="z", function=q)]
    if penalty:
        kw["optimization_options"] = optplan.PenaltyOptimizerOptions(
            mu0=4.0, tau=1.5, pf=2.0, num_cycles=9, maxiter=300, ftol=1e-13,
            gtol=1e-9)
        tr = optplan.PenaltyTransformation
    else:
        kw["optimization_options"] = optplan.ScipyOptimizerOptions(
            maxiter=300, ftol=1e-12)
        tr = optplan.ScipyOptimizerTransformation
        ck.event("constrained_scipy")
    plan = optplan.OptimizationPlan(transformations=[optplan.Transformation(
        name="t", parametrization=VParam(
            name="par", init=[rnd.uniform(-0.5, 0.5) for _ in range(n)],
            bounds=None),
        transformation=tr(optimizer="L-BFGS-B" if penalty else "SLSQP",
                          objective=q + 0.25,
                          monitor_lists=optplan.ScipyOptimizerMonitorList(
                              callback_monitors=mons), **kw))])
    with Scratch() as scratch:
        folder = os.path.join(scratch, "save")
        os.mkdir(folder)
        code, res = execute(optplan.dumps(plan), scratch, folder, None, False,
                            1)
        ck.require(code == 0, "plan_runs", {"code": code, "result": res})
        logs, chk, _ = read_folder(folder)
    check_sequence(ck, plan, logs)
    x = vector(chk["t"]["parametrizations"]["par"], n)
    tol = 3e-2 if penalty else 1e-4
    ck.close(x, want, "optimum_with_all_constraints", rtol=tol, atol=tol,
             detail={"eq": len(eqs), "ineq": len(ineqs), "penalty": penalty})
    ck.key(n, len(eqs), len(ineqs), penalty)


@family(quick=40, thorough=300, timeout=300)
def penalty_plans(ck, rng):
    """Penalty transformations end at the constrained optimum, also resumed."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    optplan.reset_graph()
    n = rnd.randint(2, 3)
    par = VParam(name="par", init=[rnd.uniform(-0.5, 0.5) for _ in range(n)],
                 bounds=None)
    w = [rnd.uniform(0.5, 2) for _ in range(n)]
    tg = [rnd.uniform(-1, 1) for _ in range(n)]
    a = [rnd.choice([-1.0, 1.0, 2.0]) for _ in range(n)]
    b = rnd.uniform(-1, 1)
    q = VQuad(name="q", weights=w, targets=tg)
    con = VLin(name="l", coeffs=a) - b
    eq = rnd.random() < 0.5
    kw = {"constraints_eq": [con]} if eq else {"constraints_ineq": [con]}
    mons = optplan.ScipyOptimizerMonitorList(
        callback_monitors=[optplan.SimpleMonitor(name="m", function=q)])
    if rnd.random() < 0.5:
        kw["optimization_options"] = optplan.PenaltyOptimizerOptions(
            mu0=rnd.choice([2.0, 5.0]), tau=1.5, pf=2.0, num_cycles=8,
            maxiter=200, ftol=1e-12, gtol=1e-9)
    plan = optplan.OptimizationPlan(transformations=[optplan.Transformation(
        name="t", parametrization=par,
        transformation=optplan.PenaltyTransformation(
            optimizer="L-BFGS-B", objective=q + 0.25, monitor_lists=mons,
            **kw))])
    text = optplan.dumps(plan)
    # Optimum of min sum w (x-t)^2 s.t. a.x - b (= or <=) 0.
    w_, t_, a_ = np.array(w), np.array(tg), np.array(a)
    lam = 2 * (a_ @ t_ - b) / np.sum(a_**2 / w_)
    if not eq:
        lam = max(lam, 0.0)
    want = t_ - lam * a_ / (2 * w_)

    with Scratch() as scratch:
        folder = os.path.join(scratch, "save")
        os.mkdir(folder)
        code, res = execute(text, scratch, folder, None, False, 1)
        ck.require(code == 0, "plan_runs", {"code": code, "result": res})
        logs, chk, _ = read_folder(folder)
        ck.event("penalty_runs")
        check_sequence(ck, plan, logs)
        x = vector(chk["t"]["parametrizations"]["par"], n)
        ck.close(x, want, "constrained_optimum", rtol=2e-2, atol=2e-2,
                 detail={"equality": eq})
        if rnd.random() < 0.5:
            folder = os.path.join(scratch, "save2")
            os.mkdir(folder)
            kind, k = crash_once(ck, text, scratch, folder, rnd,
                                 res["points"], False, 1)
            code, res = execute(text, scratch, folder, None, True, 2)
            ck.require(code == 0, "resume_completes",
                       {"code": code, "result": res, "crash": [kind, k]})
            logs, chk, _ = read_folder(folder)
            check_sequence(ck, plan, logs)
            x = vector(chk["t"]["parametrizations"]["par"], n)
            ck.close(x, want, "constrained_optimum_after_resume", rtol=3e-2,
                     atol=3e-2, detail={"equality": eq, "crash": [kind, k]})
            ck.event("resumed")
    ck.key(n, eq, "optimization_options" in kw)
