"""C03: graph execution order, exactly-once and schedule independence (goos)."""
import threading
import time

import numpy as np

from vlib.core import family
from spins import goos
from typing import List

RULE = ("random DAGs of instrumented nodes, randomly marked for parallel "
        "execution and slowed down by injected delays; the recorded event log "
        "(start/end of every evaluation and gradient call with thread and "
        "values) is checked offline for ordering, exactly-once and values; "
        "distinct by graph, marks and observed order of events")
REQUIRED_EVENTS = ["eval_calls", "grad_calls", "overlapping_pairs",
                   "parallel_chain", "faults_propagated", "joined_gradients",
                   "overrides", "flags_seen"]

CURRENT = {}


class SlowGrad(goos.NumericFlow.Grad):
    """Gradient whose accumulation takes a while."""

    def __iadd__(self, other):
        total = np.array(self.array_grad) + np.array(other.array_grad)
        time.sleep(0.0015)
        self.array_grad = total
        return self


class Probe(goos.Function):
    """sum_i coef_i * tanh(x_i) with logging, delays and optional failure."""
    node_type = "verif.probe"

    def __init__(self, funs: List[goos.Function], coefs: List[float],
                 ident: int) -> None:
        super().__init__(funs)
        self._coefs = coefs
        self._ident = ident

    def _log(self, what, **kw):
        st = CURRENT["state"]
        with st["lock"]:
            st["log"].append(
                dict(what=what, node=self._ident,
                     thread=threading.get_ident(), t=time.perf_counter(),
                     **kw))

    def eval(self, inputs):
        st = CURRENT["state"]
        arrs = [np.array(i.array) for i in inputs]
        self._log("eval_start", inputs=[a.tolist() for a in arrs])
        time.sleep(st["delay"].get(("e", self._ident), 0))
        if st["fail"] == ("e", self._ident):
            self._log("eval_fail")
            raise RuntimeError("injected eval fault %d" % self._ident)
        val = sum(c * np.tanh(a) for c, a in zip(self._coefs, arrs))
        self._log("eval_end", value=np.asarray(val).tolist())
        return goos.NumericFlow(np.array(val))

    def grad(self, inputs, grad_val):
        st = CURRENT["state"]
        g = np.array(grad_val.array_grad)
        arrs = [np.array(i.array) for i in inputs]
        self._log("grad_start", inputs=[a.tolist() for a in arrs],
                  grad=g.tolist())
        time.sleep(st["delay"].get(("g", self._ident), 0))
        if st["fail"] == ("g", self._ident):
            self._log("grad_fail")
            raise RuntimeError("injected grad fault %d" % self._ident)
        cls = SlowGrad if st.get("slow_add") else goos.NumericFlow.Grad
        # Inputs without influence have no gradient, which may be `None`.
        out = [
            cls(c * (1 - np.tanh(a)**2) * g) if c else None
            for c, a in zip(self._coefs, arrs)
        ]
        self._log("grad_end")
        return out


class Dag:

    def __init__(self, rng, nvar, nnode, chainy=False, collect=False):
        self.rng = rng
        n = int(rng.integers(1, 4))
        self.vals = [rng.uniform(-1, 1, n) for _ in range(nvar)]
        self.vars = [goos.Variable(v) for v in self.vals]
        self.nodes = list(self.vars)
        self.inputs = [[] for _ in range(nvar)]
        self.coefs = [[] for _ in range(nvar)]
        self.nvar = nvar
        for k in range(nnode):
            width = int(rng.integers(1, 4))
            hi = len(self.nodes)
            if chainy:
                idx = [hi - 1] + list(rng.integers(0, hi, size=width - 1))
            else:
                idx = list(rng.integers(0, hi, size=width))
            idx = [int(i) for i in idx]
            if k and rng.random() < 0.25:
                # Same inputs as an earlier node.
                idx = list(self.inputs[int(rng.integers(nvar, hi))])
            if collect and k == nnode - 1:
                used = {i for ins in self.inputs for i in ins}
                idx = [i for i in range(hi) if i not in used] or [hi - 1]
            coef = [float(np.round(c, 2)) for c in rng.normal(size=len(idx))]
            if len(coef) > 1 and rng.random() < 0.15:
                coef[int(rng.integers(len(coef)))] = 0.0
            self.inputs.append(idx)
            self.coefs.append(coef)
            self.nodes.append(
                Probe([self.nodes[i] for i in idx], coef, nvar + k))

    def reference(self):
        vals = list(self.vals)
        for k in range(self.nvar, len(self.nodes)):
            vals.append(
                sum(c * np.tanh(vals[i])
                    for c, i in zip(self.coefs[k], self.inputs[k])))
        return vals

    def ref_grads(self, out, vals):
        grads = [np.zeros_like(v) for v in vals]
        grads[out] = np.ones_like(vals[out])
        for k in range(len(self.nodes) - 1, self.nvar - 1, -1):
            for c, i in zip(self.coefs[k], self.inputs[k]):
                grads[i] = grads[i] + c * (1 - np.tanh(vals[i])**2) * grads[k]
        return grads

    def ancestors(self, outs):
        need, stack = set(), list(outs)
        while stack:
            k = stack.pop()
            if k in need:
                continue
            need.add(k)
            stack += self.inputs[k]
        return need


def _state(rng, dag, slow):
    delay = {}
    for k in range(dag.nvar, len(dag.nodes)):
        if rng.random() < slow:
            delay[("e", k)] = float(rng.uniform(0.0005, 0.004))
            delay[("g", k)] = float(rng.uniform(0.0005, 0.004))
    CURRENT["state"] = {"lock": threading.Lock(), "log": [], "delay": delay,
                        "fail": None}
    return CURRENT["state"]


def _check_forward(ck, dag, log, outs, vals, tag):
    need = dag.ancestors(outs)
    spans = {}
    for i, ev in enumerate(log):
        if ev["what"] == "eval_start":
            ck.event("eval_calls")
            ck.expect(ev["node"] not in spans, tag + "evaluated-twice",
                      {"node": ev["node"]})
            spans[ev["node"]] = [i, None]
            want = [vals[j].tolist() for j in dag.inputs[ev["node"]]]
            ck.expect(len(ev["inputs"]) == len(want) and all(
                np.allclose(a, b, rtol=1e-12, atol=1e-12)
                for a, b in zip(ev["inputs"], want)), tag + "wrong-inputs",
                      {"node": ev["node"], "got": ev["inputs"], "want": want})
        elif ev["what"] == "eval_end":
            spans[ev["node"]][1] = i
    expected = {k for k in need if k >= dag.nvar}
    ck.expect(set(spans) == expected, tag + "evaluated-set",
              {"got": sorted(spans), "want": sorted(expected)})
    for k, (s, e) in spans.items():
        for i in dag.inputs[k]:
            if i >= dag.nvar:
                ck.expect(i in spans and spans[i][1] is not None and
                          spans[i][1] < s, tag + "input-not-ready",
                          {"node": k, "input": i})
    ks = sorted(spans)
    for a in ks:
        for b in ks:
            if a < b and spans[a][1] is not None and spans[b][1] is not None:
                if spans[a][0] < spans[b][1] and spans[b][0] < spans[a][1]:
                    ck.event("overlapping_pairs")
    return spans


def _mark(ck, rng, dag):
    frac = rng.choice([0.0, 0.3, 0.6, 1.0])
    heavy = set()
    for k in range(dag.nvar, len(dag.nodes)):
        h = bool(rng.random() < frac)
        dag.nodes[k].parallelize(h)
        if h:
            heavy.add(k)
    for k in heavy:
        if any(i in heavy for i in dag.inputs[k]):
            ck.event("parallel_chain")
    return heavy


@family(quick=800, thorough=8000)
def forward(ck, rng):
    with goos.OptimizationPlan() as plan:
        dag = Dag(rng, int(rng.integers(1, 4)), int(rng.integers(2, 12)),
                  chainy=rng.random() < 0.3)
        heavy = _mark(ck, rng, dag)
        st = _state(rng, dag, 0.6)
        n_out = int(rng.integers(1, 4))
        outs = [
            int(i) for i in rng.integers(dag.nvar, len(dag.nodes), size=n_out)
        ]
        res = plan.eval_nodes([dag.nodes[i] for i in outs])
        vals = dag.reference()
        for i, f in zip(outs, res):
            ck.close(f.array, vals[i], "value", rtol=1e-10)
        _check_forward(ck, dag, st["log"], outs, vals, "fwd-")
        if len(heavy) > 1:
            ck.key(dag.inputs, sorted(heavy),
                   [(e["what"], e["node"]) for e in st["log"]])
        ck.sample({"inputs": dag.inputs, "parallel": sorted(heavy),
                   "order": [(e["what"], e["node"]) for e in st["log"]][:40]})


@family(quick=800, thorough=8000)
def backward(ck, rng):
    with goos.OptimizationPlan() as plan:
        dag = Dag(rng, int(rng.integers(1, 4)), int(rng.integers(2, 10)),
                  chainy=rng.random() < 0.3, collect=rng.random() < 0.7)
        out = len(dag.nodes) - 1
        size = dag.vals[0].size
        heavy = _mark(ck, rng, dag)
        st = _state(rng, dag, 0.5)
        st["slow_add"] = bool(rng.random() < 0.3)
        w = rng.normal(size=size)
        obj = goos.dot(goos.Constant(w), dag.nodes[out])
        grads = obj.get_grad(dag.vars)
        vals = dag.reference()
        # Reference gradients of w . out.
        ref = [np.zeros_like(v) for v in vals]
        ref[out] = w
        for k in range(len(dag.nodes) - 1, dag.nvar - 1, -1):
            for c, i in zip(dag.coefs[k], dag.inputs[k]):
                ref[i] = ref[i] + c * (1 - np.tanh(vals[i])**2) * ref[k]
        for i, g in enumerate(grads):
            ck.close(g.array_grad, ref[i], "gradient", rtol=1e-10)
        fwd = [e for e in st["log"] if e["what"].startswith("eval")]
        _check_forward(ck, dag, fwd, [out], vals, "bwd-")
        need = {k for k in dag.ancestors([out]) if k >= dag.nvar}
        spans = {}
        for i, ev in enumerate(st["log"]):
            if ev["what"] == "grad_start":
                ck.event("grad_calls")
                ck.expect(ev["node"] not in spans, "grad-twice", ev["node"])
                spans[ev["node"]] = [i, None]
                ck.close(np.broadcast_to(ev["grad"], ref[ev["node"]].shape),
                         ref[ev["node"]], "grad-incomplete", rtol=1e-10,
                         detail={"node": ev["node"]})
            elif ev["what"] == "grad_end":
                spans[ev["node"]][1] = i
        ck.expect(set(spans) == need, "grad-set",
                  {"got": sorted(spans), "want": sorted(need)})
        for k in spans:
            for i in dag.inputs[k]:
                if i in spans:
                    ck.expect(spans[k][1] is not None and
                              spans[k][1] < spans[i][0],
                              "grad-before-consumer", {"node": i, "user": k})
        if len(heavy) > 1:
            ck.key(dag.inputs, sorted(heavy),
                   [(e["what"], e["node"]) for e in st["log"]])


@family(quick=400, thorough=4000)
def schedule_independence(ck, rng):
    """The same graph under several parallel markings and delay patterns."""
    with goos.OptimizationPlan() as plan:
        dag = Dag(rng, 2, int(rng.integers(3, 10)), collect=True)
        out = len(dag.nodes) - 1
        w = rng.normal(size=dag.vals[0].size)
        obj = goos.dot(goos.Constant(w), dag.nodes[out])
        first = None
        for trial in range(4):
            _mark(ck, rng, dag)
            st = _state(rng, dag, 0.5)
            val = np.array(obj.get().array)
            grads = [np.array(g.array_grad) for g in obj.get_grad(dag.vars)]
            cur = [val] + grads
            if first is None:
                first = cur
            for a, b in zip(cur, first):
                ck.close(a, b, "schedule-dependent", rtol=1e-11)
            ck.event("schedules")
            ck.key(dag.inputs, [(e["what"], e["node"]) for e in st["log"]])


@family(quick=400, thorough=4000)
def faults(ck, rng):
    """A failing node must surface, and the next evaluation must be clean."""
    with goos.OptimizationPlan() as plan:
        dag = Dag(rng, 2, int(rng.integers(2, 9)))
        out = len(dag.nodes) - 1
        heavy = _mark(ck, rng, dag)
        st = _state(rng, dag, 0.3)
        need = sorted(k for k in dag.ancestors([out]) if k >= dag.nvar)
        victim = need[int(rng.integers(len(need)))]
        kind = ["e", "g"][int(rng.integers(2))]
        st["fail"] = (kind, victim)
        w = rng.normal(size=dag.vals[0].size)
        obj = goos.dot(goos.Constant(w), dag.nodes[out])

        def call():
            if kind == "e":
                obj.get()
            else:
                obj.get_grad(dag.vars)

        if ck.raises(RuntimeError, call, "fault-swallowed",
                     {"victim": victim, "heavy": sorted(heavy)}):
            ck.event("faults_propagated")
        st["fail"] = None
        vals = dag.reference()
        ck.close(np.ravel(obj.get().array), [np.sum(w * vals[out])],
                 "value-after-fault", rtol=1e-10)
        for v, x in zip(dag.vars, dag.vals):
            ck.close(plan.get_var_value(v), x, "state-after-fault")
        ck.key(dag.inputs, victim, kind, sorted(heavy))


@family(quick=60, thorough=600)
def fan_in(ck, rng):
    """Many parallel nodes finish together and add to the same gradients."""
    with goos.OptimizationPlan():
        n = int(rng.integers(3, 9))
        x0 = rng.uniform(-1, 1, 3)
        x = goos.Variable(x0)
        mid = goos.Sigmoid(x) if rng.random() < 0.5 else x
        m0 = 1 / (1 + np.exp(-x0)) if mid is not x else x0
        coefs = [float(c) for c in np.round(rng.uniform(0.5, 2, n), 2)]
        nodes = [Probe([mid], [c], i) for i, c in enumerate(coefs)]
        for node in nodes:
            node.parallelize()
        d = float(rng.uniform(0.001, 0.003))
        CURRENT["state"] = {
            "lock": threading.Lock(), "log": [], "fail": None,
            "delay": {("g", i): d for i in range(n)}, "slow_add": True}
        obj = goos.dot(np.ones(3), goos.Sum(nodes))
        got = obj.get_grad([x])[0].array_grad
        want = sum(coefs) * (1 - np.tanh(m0)**2)
        if mid is not x:
            want = want * m0 * (1 - m0)
        ck.close(got, want, "joined-gradient", rtol=1e-10)
        ck.event("joined_gradients", n)
        ck.key(n, coefs)


@family(quick=150, thorough=1500)
def overrides(ck, rng):
    """Values handed to the executor are used instead of being computed."""
    from spins.goos import graph_executor, optplan
    with goos.OptimizationPlan():
        dag = Dag(rng, 2, int(rng.integers(3, 9)), chainy=rng.random() < 0.5)
        _mark(ck, rng, dag)
        st = _state(rng, dag, 0.2)
        known = {i: dag.vals[i] for i in range(dag.nvar)}
        for k in range(dag.nvar, len(dag.nodes) - 1):
            if rng.random() < 0.3:
                known[k] = rng.uniform(-1, 1, dag.vals[0].size)
        flags = lambda: goos.NodeFlags(
            const_flags=goos.NumericFlow.ConstFlags(False),
            frozen_flags=goos.NumericFlow.ConstFlags(False))
        omap = {dag.nodes[k]: (goos.NumericFlow(v.copy()), flags())
                for k, v in known.items()}
        outs = [len(dag.nodes) - 1, int(rng.integers(len(dag.nodes)))]
        res = graph_executor.eval_fun([dag.nodes[i] for i in outs], omap)
        vals = []
        for k in range(len(dag.nodes)):
            vals.append(known[k] if k in known else sum(
                c * np.tanh(vals[i])
                for c, i in zip(dag.coefs[k], dag.inputs[k])))
        for i, f in zip(outs, res):
            ck.close(f.array, vals[i], "override-value", rtol=1e-10)
        ran = [e["node"] for e in st["log"] if e["what"] == "eval_start"]
        ck.expect(not set(ran) & set(known), "override-recomputed",
                  {"ran": ran, "known": sorted(known)})
        ck.expect(len(ran) == len(set(ran)), "override-twice", ran)
        ck.event("overrides", len(known) - dag.nvar)
        ck.key(dag.inputs, sorted(known))


class FlagProbe(goos.Function):
    node_type = "verif.flag_probe"

    def __init__(self, funs: List[goos.Function], ident: int) -> None:
        super().__init__(funs)
        self._ident = ident

    def _see(self, what, context):
        CURRENT["flags"].append((what, self._ident, [
            (bool(f.const_flags), bool(f.frozen_flags))
            for f in context.input_flags]))

    def eval(self, inputs, context):
        self._see("eval", context)
        return goos.NumericFlow(sum(np.sin(i.array) for i in inputs))

    def grad(self, inputs, grad_val, context):
        self._see("grad", context)
        return [goos.NumericFlow.Grad(np.cos(i.array) * grad_val.array_grad)
                for i in inputs]


@family(quick=120, thorough=1200)
def flags(ck, rng):
    """Nodes are told which inputs are constant or frozen, and no others."""
    with goos.OptimizationPlan() as plan:
        n = int(rng.integers(1, 4))
        nodes, const, frozen, ins, vals = [], [], [], [], []
        for _ in range(int(rng.integers(2, 5))):
            v = rng.normal(size=n)
            if rng.random() < 0.3:
                nodes.append(goos.Constant(v))
                const.append(True), frozen.append(True)
            else:
                var = goos.Variable(v, parameter=bool(rng.random() < 0.2))
                fr = var._is_param
                if not fr and rng.random() < 0.4:
                    var.freeze()
                    fr = True
                nodes.append(var)
                const.append(False), frozen.append(fr)
            ins.append([])
            vals.append(v)
        base = len(nodes)
        for k in range(int(rng.integers(2, 7))):
            idx = [int(i) for i in rng.integers(0, len(nodes),
                                                int(rng.integers(1, 4)))]
            nodes.append(FlagProbe([nodes[i] for i in idx], len(nodes)))
            nodes[-1].parallelize(bool(rng.random() < 0.3))
            ins.append(idx)
            const.append(all(const[i] for i in idx))
            frozen.append(all(frozen[i] for i in idx))
            vals.append(sum(np.sin(vals[i]) for i in idx))
        plan.run()
        CURRENT["flags"] = []
        out = goos.dot(np.ones(n), nodes[-1])
        ck.close(np.ravel(out.get().array), [vals[-1].sum()], "flag-value")
        free = [x for x in nodes[:base] if isinstance(x, goos.Variable)]
        if free:
            out.get_grad(free)
        for what, k, seen in CURRENT["flags"]:
            want = [(const[i], frozen[i]) for i in ins[k]]
            ck.expect(seen == want, "flags",
                      {"node": k, "call": what, "got": seen, "want": want})
            ck.event("flags_seen")
        ck.key(ins, const, frozen)
