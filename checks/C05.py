"""C05: crash/resume equivalence of goos plans (fault enumeration)."""
import os
import pickle
import shutil

import numpy as np

from vlib import faults
from vlib.core import family
from spins import goos

LEVEL = "fault_enumeration"
RULE = ("random plans of deterministic actions (set, freeze/thaw, custom "
        "increments with per-step events, convex optimizations) are run to "
        "completion with logging; then the plan is reloaded and resumed from "
        "every log step and every checkpoint written on the way (every "
        "recorded crash point), and from runs that really failed in the middle "
        "of an action; processes are killed at file operations and at "
        "partial writes; the oracle compares the final state and the trace of "
        "executed work with the uninterrupted run; distinct by plan and crash "
        "point")
REQUIRED_EVENTS = ["resumed_from_step", "resumed_from_checkpoint",
                   "real_crashes", "iteration_budget_checks",
                   "log_files_checked", "kills", "kill_write",
                   "kill_open", "kill_close", "kill_step",
                   "manual_checkpoints", "resumed_in_place"]

TRACE = []
FAIL = {"at": None}


class Tick(goos.Action):
    node_type = "verif.c05.tick"

    def __init__(self, var: goos.Variable, ident: int, factor: float,
                 delta: float) -> None:
        super().__init__(var)
        self._a = (var, ident, factor, delta)

    def run(self, plan):
        var, ident, factor, delta = self._a
        TRACE.append(("tick", ident))
        if FAIL["at"] == ("tick", ident):
            raise RuntimeError("crash")
        plan.set_var_value(var,
                           plan.get_var_value(var) * factor + delta,
                           check_frozen=False)


class Count(goos.Action):
    """`n` increments with one event each; knows how to resume."""
    node_type = "verif.c05.count"

    def __init__(self, var: goos.Variable, ident: int, n: int) -> None:
        super().__init__(var)
        self._a = (var, ident, n)

    def _go(self, plan, start):
        var, ident, n = self._a
        for k in range(start, n):
            TRACE.append(("count", ident, k))
            if FAIL["at"] == ("count", ident, k):
                raise RuntimeError("crash")
            plan.set_var_value(var,
                               plan.get_var_value(var) * 1.25 + k,
                               check_frozen=False)
            plan.write_event({"state": "counting", "k": k, "iteration": k},
                             [var])

    def run(self, plan):
        self._go(plan, 0)

    def resume(self, plan, event):
        self._go(plan, event["k"] + 1)


class Limit(goos.Action):
    """Changes the bounds of a variable."""
    node_type = "verif.c05.limit"

    def __init__(self, var: goos.Variable, lower: float,
                 upper: float) -> None:
        super().__init__(var)
        self._a = (var, lower, upper)

    def run(self, plan):
        var, lower, upper = self._a
        shape = plan.get_var_value(var).shape
        plan.set_var_bounds(
            var, [np.full(shape, lower), np.full(shape, upper)])


NAMES = ("x", "y", "z", "p")


def _bounds(plan):
    return {n: [np.ravel(b).tolist() for b in
                plan.get_var_bounds(plan.get_node(n))] for n in NAMES}


def _steps(path):
    return sorted(
        (int(f[4:-4]) for f in os.listdir(path)
         if f.startswith("step") and f.endswith(".pkl")))


def _build(rng, with_opt=True):
    """Returns a list of functions that each add one action."""
    names = ["x", "y", "z"]
    vs = {}
    for n in names:
        vs[n] = goos.Variable(np.round(rng.uniform(-1, 1, 2), 2), name=n,
                              lower_bounds=-40, upper_bounds=40)
    vs["p"] = goos.Variable(np.round(rng.uniform(-1, 1, 2), 2), name="p",
                            parameter=True)
    adders = []
    ident = [0]
    kinds = ["tick", "count", "count", "set", "setexpr", "freeze", "opt",
             "param", "limit"]
    frozen = {n: False for n in names}
    for _ in range(int(rng.integers(3, 7))):
        kind = str(rng.choice(kinds))
        n = names[int(rng.integers(3))]
        ident[0] += 1
        i = ident[0]
        if kind == "tick":
            f, d = float(np.round(rng.uniform(0.5, 1.5), 2)), float(
                np.round(rng.normal(), 2))
            adders.append((kind, lambda p, n=n, i=i, f=f, d=d: p.add_action(
                Tick(vs[n], i, f, d))))
        elif kind == "count":
            k = int(rng.integers(1, 4))
            adders.append((kind, lambda p, n=n, i=i, k=k: p.add_action(
                Count(vs[n], i, k))))
        elif kind == "param":
            v = np.round(rng.normal(size=2), 2)
            adders.append((kind, lambda p, v=v: vs["p"].set(v)))
        elif kind == "limit":
            lim = float(np.round(rng.uniform(50, 90), 1))
            adders.append((kind, lambda p, n=n, lim=lim: p.add_action(
                Limit(vs[n], -lim, lim + 1))))
        elif kind in ("set", "setexpr"):
            if frozen[n]:
                continue
            m = names[int(rng.integers(3))]
            if kind == "set":
                v = np.round(rng.normal(size=2), 2)
                adders.append((kind, lambda p, n=n, v=v: vs[n].set(v)))
            else:
                adders.append((kind, lambda p, n=n, m=m: vs[n].set(
                    vs[m] * 0.5 + vs[n] + 1)))
        elif kind == "freeze":
            if frozen[n]:
                adders.append(("thaw", lambda p, n=n: vs[n].thaw()))
            else:
                adders.append(("freeze", lambda p, n=n: vs[n].freeze()))
            frozen[n] = not frozen[n]
        elif with_opt:
            if all(frozen.values()):
                continue
            t = np.round(rng.uniform(-2, 2, 2), 2)
            w = np.round(rng.uniform(0.5, 2, 2), 2)

            def opt(p, t=t, w=w):
                obj = 0
                for m in names:
                    d = vs[m] - t
                    obj = goos.dot(goos.Constant(w) * d, d) + obj
                goos.opt.scipy_minimize(obj, method="L-BFGS-B", ftol=1e-14,
                                        gtol=1e-9)

            adders.append(("opt", opt))
    return vs, adders


def _state(plan):
    out = {}
    for n in NAMES:
        node = plan.get_node(n)
        out[n] = np.array(plan.get_var_value(node))
    return out


def _frozen(plan):
    out = {}
    for n in NAMES:
        node = plan.get_node(n)
        g = goos.dot(goos.Constant(np.ones(2)), node).get_grad([node])[0]
        out[n] = bool(np.all(g.array_grad == 0))
    return out


def _reference_run(ck, rng, path, with_opt=True):
    """Runs the plan action by action; returns everything observed."""
    info = {"kinds": [], "files_after": [], "trace_after": []}
    with goos.OptimizationPlan(save_path=path) as plan:
        vs, adders = _build(rng, with_opt)
        for kind, add in adders:
            add(plan)
            plan.run()
            info["kinds"].append(kind)
            info["files_after"].append(len(_steps(path)))
            info["trace_after"].append(len(TRACE))
        info["final"] = _state(plan)
        info["frozen"] = _frozen(plan)
        info["bounds"] = _bounds(plan)
        plan.save(path)
    info["trace"] = list(TRACE)
    return info


def _tol(kinds, start):
    return 2e-4 if "opt" in kinds[start:] else 1e-12


def _resume(ck, path, ckpt, info, tag, start, want_trace, log=None):
    """Loads the plan in a new plan object and resumes it."""
    del TRACE[:]
    with goos.OptimizationPlan(save_path=log) as plan:
        plan.load(path)
        if ck.verdicts % 2:
            plan.resume(ckpt)
        else:
            plan.read_checkpoint(ckpt)
            plan.resume()
        got = _state(plan)
        for n in got:
            ck.close(got[n], info["final"][n], tag + "final-state",
                     rtol=_tol(info["kinds"], start),
                     atol=_tol(info["kinds"], start),
                     detail={"from": os.path.basename(str(ckpt)),
                             "kinds": info["kinds"]})
        bo = _bounds(plan)
        ck.expect(bo == info["bounds"], tag + "bounds",
                  {"got": bo, "want": info["bounds"]})
        fr = _frozen(plan)
        ck.expect(fr == info["frozen"], tag + "frozen-state",
                  {"got": fr, "want": info["frozen"]})
        ck.expect(TRACE == want_trace, tag + "work-redone-or-lost",
                  {"got": list(TRACE), "want": want_trace,
                   "kinds": info["kinds"], "from": os.path.basename(
                       str(ckpt))})
        n = len(TRACE)
        plan.run()
        ck.expect(len(TRACE) == n, tag + "rerun-after-resume", None)


@family(quick=70, thorough=700)
def all_crash_points(ck, rng):
    path = "run"
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    try:
        FAIL["at"] = None
        del TRACE[:]
        info = _reference_run(ck, rng, path)
        n_actions = len(info["kinds"])
        for a in range(n_actions):
            ck.event("resumed_from_checkpoint")
            _resume(ck, path, os.path.join(path, "action%d.chkpt" % a), info,
                    "chkpt-", a + 1, info["trace"][info["trace_after"][a]:])
        prev = 0
        for a in range(n_actions):
            for m in range(prev + 1, info["files_after"][a] + 1):
                # Work of this action that was done after log step m.
                lo = info["trace_after"][a - 1] if a else 0
                if info["kinds"][a] == "count":
                    rest = info["trace"][lo + (m - prev):]
                else:
                    rest = info["trace"][info["trace_after"][a]:]
                ck.event("resumed_from_step")
                _resume(ck, path, os.path.join(path, "step%d.pkl" % m), info,
                        "step-", a, rest)
                ck.key(info["kinds"], info["trace"], "step", m)
            prev = info["files_after"][a]
            ck.key(info["kinds"], info["trace"], "chkpt", a)
        ck.sample({"kinds": info["kinds"], "steps": info["files_after"],
                   "trace": info["trace"][:30]})
    finally:
        shutil.rmtree(path, ignore_errors=True)


@family(quick=120, thorough=1200)
def real_crashes(ck, rng):
    """An action really fails; what is on disk is used to continue."""
    for d in ("ref", "crash"):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    try:
        FAIL["at"] = None
        del TRACE[:]
        state = rng.bit_generator.state
        info = _reference_run(ck, rng, "ref", with_opt=False)
        points = [t for t in info["trace"]]
        if not points:
            return
        victim = points[int(rng.integers(len(points)))]
        # The same plan again, with the fault.
        rng2 = np.random.default_rng()
        rng2.bit_generator.state = state
        del TRACE[:]
        with goos.OptimizationPlan(save_path="crash") as plan:
            vs, adders = _build(rng2, False)
            for _, add in adders:
                add(plan)
            plan.save("crash")
            FAIL["at"] = victim
            ck.raises(RuntimeError, plan.run, "crash-hidden")
            FAIL["at"] = None
        before = list(TRACE)
        pos = info["trace"].index(victim)
        ck.expect(before == info["trace"][:pos + 1], "trace-before-crash",
                  {"got": before, "want": info["trace"][:pos + 1]})
        ck.event("real_crashes")
        # The latest file on disk is where a user resumes.
        steps = _steps("crash")
        chk = sorted(int(f[6:-6]) for f in os.listdir("crash")
                     if f.startswith("action"))
        done_actions = len(chk)
        files_before = info["files_after"][chk[-1]] if chk else 0
        if steps and steps[-1] > files_before:
            ckpt = os.path.join("crash", "step%d.pkl" % steps[-1])
        elif chk:
            ckpt = os.path.join("crash", "action%d.chkpt" % chk[-1])
        else:
            return
        frozen_files = {f: open(os.path.join("crash", f), "rb").read()
                        for f in os.listdir("crash") if f.startswith("step")}
        _resume(ck, "crash", ckpt, info, "crash-", 0, info["trace"][pos:],
                log="crash")
        # Logs written before the crash survive and numbering continues.
        for f, data in frozen_files.items():
            ck.expect(open(os.path.join("crash", f), "rb").read() == data,
                      "log-overwritten", {"file": f})
            ck.event("log_files_checked")
        ck.expect(_steps("crash") == list(range(1, len(_steps("ref")) + 1)),
                  "log-numbering", {"got": _steps("crash"),
                                    "want": len(_steps("ref"))})
        for m in _steps("crash"):
            got = pickle.load(open(os.path.join("crash", "step%d.pkl" % m),
                                   "rb"))
            want = pickle.load(open(os.path.join("ref", "step%d.pkl" % m),
                                    "rb"))
            ck.expect(got["log_counter"] == m, "log-counter", m)
            ck.expect(got["event"] == want["event"], "log-event",
                      {"got": got["event"], "want": want["event"]})
            for n, mv in want["monitor_data"].items():
                ck.close(got["monitor_data"].get(n, np.nan), mv,
                         "log-monitor", rtol=1e-12)
            for n, vd in want["variable_data"].items():
                ck.close(got["variable_data"][n]["value"], vd["value"],
                         "log-variable", rtol=1e-12)
            ck.event("log_files_checked")
        ck.key(info["kinds"], victim, info["trace"])
    finally:
        FAIL["at"] = None
        for d in ("ref", "crash"):
            shutil.rmtree(d, ignore_errors=True)


@family(quick=120, thorough=1200)
def resume_in_place(ck, rng):
    """An action fails and the same plan is resumed, with or without logs."""
    for d in ("ref", "crash"):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    try:
        FAIL["at"] = None
        del TRACE[:]
        state = rng.bit_generator.state
        info = _reference_run(ck, rng, "ref", with_opt=False)
        points = list(info["trace"])
        if not points:
            return
        victims = sorted(int(i) for i in rng.choice(
            len(points), size=min(len(points), 2), replace=False))
        log = "crash" if rng.random() < 0.5 else None
        rng2 = np.random.default_rng()
        rng2.bit_generator.state = state
        del TRACE[:]
        with goos.OptimizationPlan(save_path=log) as plan:
            vs, adders = _build(rng2, False)
            for _, add in adders:
                add(plan)
            first = True
            for pos in victims:
                FAIL["at"] = points[pos]
                del TRACE[:]
                ck.raises(RuntimeError, plan.run if first else plan.resume,
                          "in-place-crash-hidden")
                lo = 0 if first else last
                ck.expect(TRACE == points[lo:pos + 1], "in-place-trace",
                          {"got": list(TRACE), "want": points[lo:pos + 1]})
                first, last = False, pos
            FAIL["at"] = None
            del TRACE[:]
            plan.resume()
            ck.expect(TRACE == points[last:], "in-place-redone-or-lost",
                      {"got": list(TRACE), "want": points[last:],
                       "kinds": info["kinds"]})
            for n, v in _state(plan).items():
                ck.close(v, info["final"][n], "in-place-state", rtol=1e-12)
            ck.expect(_frozen(plan) == info["frozen"] and
                      _bounds(plan) == info["bounds"], "in-place-frozen")
        if log:
            ck.expect(_steps(log) == _steps("ref"), "in-place-logs",
                      {"got": _steps(log), "want": _steps("ref")})
        ck.event("resumed_in_place")
        ck.key(info["kinds"], victims, info["trace"], log)
    finally:
        FAIL["at"] = None
        for d in ("ref", "crash"):
            shutil.rmtree(d, ignore_errors=True)


class Keep(goos.Action):
    """Overwrites one checkpoint file again and again."""
    node_type = "verif.c05.keep"

    def __init__(self, var: goos.Variable, path: str) -> None:
        super().__init__(var)
        self._a = (var, path)

    def run(self, plan):
        var, path = self._a
        for k in range(3):
            faults.Faults.point("step")
            plan.set_var_value(var, plan.get_var_value(var) + 1.0,
                               check_frozen=False)
            plan.write_checkpoint(path)


@family(quick=160, thorough=2500)
def killed_anywhere(ck, rng):
    """The process is ended at any file operation, also in mid-write."""
    for d in ("ref", "kill"):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    try:
        FAIL["at"] = None
        del TRACE[:]
        state = rng.bit_generator.state
        info = _reference_run(ck, rng, "ref", with_opt=False)
        n_acts = len(info["kinds"])
        if not n_acts:
            return

        def run(armed):
            rng2 = np.random.default_rng()
            rng2.bit_generator.state = state
            del TRACE[:]
            with goos.OptimizationPlan(save_path="kill") as plan:
                vs, adders = _build(rng2, False)
                for _, add in adders:
                    add(plan)
                plan.save("kill")
                faults.Faults.reset(armed, "kill")
                faults.install()
                plan.run()
                return {"kinds": list(faults.Faults.kinds)}

        code, res = faults.in_child(lambda: run(None), "out.pkl")
        if not ck.expect(code == 0 and "kinds" in (res or {}), "plan-runs",
                         {"code": code, "res": str(res)[-500:]}):
            return
        total = len(res["kinds"])
        armed = int(rng.integers(total))
        kind = res["kinds"][armed]
        shutil.rmtree("kill")
        os.makedirs("kill")
        code, _ = faults.in_child(lambda: run(armed), "out.pkl")
        if not ck.expect(code == faults.CRASH, "killed", {"code": code}):
            return
        ck.event("kills")
        ck.event("kill_" + kind.split("_")[0].replace("opened", "open").replace(
            "closed", "close").replace("renamed", "rename"))
        # Work that is recorded by every file of the uninterrupted run.
        done = {}
        prev = 0
        for a in range(n_acts):
            lo = info["trace_after"][a - 1] if a else 0
            for m in range(prev + 1, info["files_after"][a] + 1):
                done["step%d.pkl" % m] = (
                    lo + (m - prev) if info["kinds"][a] == "count" else
                    info["trace_after"][a])
            prev = info["files_after"][a]
            done["action%d.chkpt" % a] = info["trace_after"][a]
        found = [f for f in done if os.path.exists(os.path.join("kill", f))]
        for f in os.listdir("kill"):
            if f.endswith(".pkl") or f.endswith(".chkpt"):
                ck.expect(f in done, "unknown-file", {"file": f})
        for f in found:
            try:
                with open(os.path.join("kill", f), "rb") as h:
                    pickle.load(h)
            except Exception as e:
                ck.fail("incomplete-file-left-by-crash",
                        {"file": f, "error": repr(e), "kind": kind})
                return
        ck.event("log_files_checked", len(found))
        if found:
            # The files of the finished part, in order, without gaps.
            order = list(done)
            ck.expect(found == order[:len(found)], "files-of-finished-work",
                      {"found": found, "order": order})
            last = found[-1]
            _resume(ck, "kill", os.path.join("kill", last), info, "kill-", 0,
                    info["trace"][done[last]:], log="kill")
            ck.expect(_steps("kill") == _steps("ref"), "kill-log-numbering",
                      {"got": _steps("kill"), "want": _steps("ref")})
        ck.key(info["kinds"], info["trace"], armed)
    finally:
        for d in ("ref", "kill"):
            shutil.rmtree(d, ignore_errors=True)


@family(quick=60, thorough=600)
def killed_while_overwriting(ck, rng):
    """A checkpoint file holds the old or the new state, never neither."""
    shutil.rmtree("keep", ignore_errors=True)
    os.makedirs("keep")
    path = os.path.join("keep", "manual.chkpt")
    try:
        x0 = float(np.round(rng.normal(), 3))
        size = int(rng.integers(1, 4000))

        def run(armed):
            with goos.OptimizationPlan() as plan:
                x = goos.Variable(np.full(size, x0), name="x")
                plan.add_action(Keep(x, path))
                plan.write_checkpoint(path)
                faults.Faults.reset(armed, "keep")
                faults.install()
                plan.run()
                return {"kinds": list(faults.Faults.kinds)}

        code, res = faults.in_child(lambda: run(None), "out.pkl")
        if not ck.expect(code == 0 and "kinds" in (res or {}), "plan-runs",
                         {"code": code, "res": str(res)[-500:]}):
            return
        armed = int(rng.integers(len(res["kinds"])))
        kind = res["kinds"][armed]
        code, _ = faults.in_child(lambda: run(armed), "out.pkl")
        ck.expect(code == faults.CRASH, "killed", {"code": code})
        ck.event("manual_checkpoints")
        ck.event("kill_" + kind.split("_")[0])
        n = res["kinds"][:armed].count("step")
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(np.full(size, x0), name="x")
            plan.add_action(Keep(x, path))
            try:
                plan.read_checkpoint(path)
            except Exception as e:
                ck.fail("checkpoint-lost-by-crash",
                        {"error": repr(e), "kind": kind})
                return
            got = plan.get_var_value(x)
        ck.expect(got.shape == (size,) and any(
            np.allclose(got, x0 + k, rtol=0, atol=1e-12)
            for k in (n - 1, n) if k >= 0), "checkpoint-state",
            {"got": got[:3].tolist(), "x0": x0, "n": n, "kind": kind})
        ck.key(x0, size, armed)
    finally:
        shutil.rmtree("keep", ignore_errors=True)


@family(quick=60, thorough=500)
def iteration_budget(ck, rng):
    """Iterations before and after the resume add up to the budget."""
    path = "iters"
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    try:
        n = int(rng.integers(2, 5))
        x0 = rng.uniform(-1.5, -0.5, n)
        budget = int(rng.integers(3, 9))
        method = ["L-BFGS-B", "SLSQP", "CG", "BFGS"][int(rng.integers(4))]
        with goos.OptimizationPlan(save_path=path) as plan:
            x = goos.Variable(x0, name="x")
            count = goos.Variable(0, parameter=True, name="count")
            a = goos.Slice(x, [[0, n - 1]])
            b = goos.Slice(x, [[1, n]])
            d = b - a**2
            obj = 100 * goos.dot(d, d) + goos.dot(a - 1.0, a - 1.0)
            goos.opt.scipy_minimize(obj, method=method, max_iters=budget,
                                    monitor_list=[x], iteration=count)
            plan.run()
            plan.save(path)
            total = len(_steps(path))
            ck.expect(total <= budget, "budget-exceeded",
                      {"events": total, "budget": budget, "method": method})
            ck.close(np.ravel(count.get().array), [total], "counter-variable")
        for m in _steps(path):
            data = pickle.load(open(os.path.join(path, "step%d.pkl" % m),
                                    "rb"))
            ck.expect(data["event"]["iteration"] == m, "event-iteration",
                      data["event"])
            ck.close(data["monitor_data"]["x"],
                     data["variable_data"]["x"]["value"], "monitor-vs-state")
        m = int(rng.integers(1, total + 1))
        log = "iters2"
        shutil.rmtree(log, ignore_errors=True)
        os.makedirs(log)
        with goos.OptimizationPlan(save_path=log) as plan:
            plan.load(path)
            start = pickle.load(
                open(os.path.join(path, "step%d.pkl" % m), "rb"))
            plan.read_checkpoint(os.path.join(path, "step%d.pkl" % m))
            ck.close(plan.get_var_value(plan.get_node("x")),
                     start["variable_data"]["x"]["value"], "restored-value")
            f0 = float(np.ravel(plan.eval_node(
                plan.get_node(obj._goos_name)).array)[0])
            plan.resume()
            f1 = float(np.ravel(plan.eval_node(
                plan.get_node(obj._goos_name)).array)[0])
            ck.expect(f1 <= f0 + 1e-9 * (1 + abs(f0)), "resume-went-uphill",
                      {"before": f0, "after": f1, "method": method})
        steps = _steps(log)
        its = [pickle.load(open(os.path.join(log, "step%d.pkl" % s),
                                "rb"))["event"]["iteration"] for s in steps]
        ck.expect(its == list(range(m + 1, m + 1 + len(its))),
                  "iteration-numbering", {"got": its, "from": m})
        ck.expect(len(its) <= budget - m, "resumed-budget-exceeded",
                  {"resumed_at": m, "budget": budget, "more": len(its),
                   "method": method})
        ck.event("iteration_budget_checks")
        ck.key(method, budget, m, n)
    finally:
        for d in (path, "iters2"):
            shutil.rmtree(d, ignore_errors=True)


@family(quick=60, thorough=500)
def checkpoint_any_time(ck, rng):
    """Explicit checkpoints capture the state and restore it exactly."""
    with goos.OptimizationPlan() as plan:
        vs, adders = _build(rng, False)
        cut = int(rng.integers(0, len(adders) + 1))
        for _, add in adders[:cut]:
            add(plan)
        plan.run()
        want = _state(plan)
        fr = _frozen(plan)
        bo = _bounds(plan)
        plan.write_checkpoint("manual.chkpt")
        for _, add in adders[cut:]:
            add(plan)
        plan.run()
        final = _state(plan)
        plan.save(".")
        plan.read_checkpoint("manual.chkpt")
        for n in want:
            ck.close(_state(plan)[n], want[n], "restore-same-plan", rtol=1e-12)
        ck.expect(_frozen(plan) == fr, "restore-frozen")
        ck.expect(_bounds(plan) == bo, "restore-bounds")
    with goos.OptimizationPlan() as plan:
        plan.load(".")
        plan.read_checkpoint("manual.chkpt")
        for n in want:
            ck.close(_state(plan)[n], want[n], "restore-loaded-plan",
                     rtol=1e-12)
        ck.expect(_frozen(plan) == fr, "restore-loaded-frozen")
        ck.expect(_bounds(plan) == bo, "restore-loaded-bounds")
        if cut < len(adders):
            plan.resume()
            for n in want:
                ck.close(_state(plan)[n], final[n], "resume-from-manual",
                         rtol=1e-12)
    ck.event("manual_checkpoints")
    ck.key([k for k, _ in adders], cut, [v.tolist() for v in want.values()])
