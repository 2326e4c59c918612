"""C06: a saved goos plan loads back as the same plan."""
import json
import os
import shutil
import subprocess
import sys

import numpy as np

from vlib.core import family
from vlib import goosgen
from spins import goos
from spins.goos import schema_registry
from spins.goos_sim import maxwell

RULE = ("random plans (expression graphs with named and unnamed nodes, bounds, "
        "parameters, complex constants, shapes, rendered permittivities, "
        "actions and optimizations) are saved and loaded into a new plan, in "
        "the same and in a fresh process; the oracle compares every named "
        "node's value, gradients, bounds, freeze flags, the plan's behavior "
        "when its actions run, and the plan saved again; distinct by graph")
REQUIRED_EVENTS = ["plans_loaded", "nodes_compared", "gradients_compared",
                   "actions_compared", "fresh_process_loads", "shape_plans",
                   "refused_plans", "checkpoints_on_loaded", "complex_plans",
                   "registrations", "omitted_fields"]


def _canon(path):
    with open(os.path.join(path, "optplan.json")) as fp:
        d = json.load(fp)
    d["nodes"] = sorted(d["nodes"], key=lambda n: n["name"])
    return d


def _same_json(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_same_json(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            _same_json(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b)
    return a == b


def _add_actions(rng, gen, obj):
    """Adds actions that never fail. Returns the number of actions."""
    n = int(rng.integers(0, 5))
    frozen = [v.is_param for v in gen.variables]
    count = 0
    for _ in range(n):
        i = int(rng.integers(len(gen.variables)))
        v = gen.variables[i]
        k = int(rng.integers(5))
        if k == 0 and not (frozen[i] and not v.is_param):
            v.node.set(np.round(rng.uniform(0.4, 1.7, v.shape), 3))
        elif k == 1 and not (frozen[i] and not v.is_param):
            v.node.set(v.node * float(np.round(rng.uniform(0.8, 1.2), 2)))
        elif k == 2:
            v.node.freeze()
            frozen[i] = True
        elif k == 3 and not v.is_param:
            v.node.thaw()
            frozen[i] = False
        elif k == 4 and not all(frozen):
            goal = sum(
                (goos.norm(w.node - np.round(rng.uniform(-1, 1, w.shape), 2))**2
                 for w in gen.variables), 0)
            goos.opt.scipy_minimize(
                goal, ["L-BFGS-B", "SLSQP"][int(rng.integers(2))],
                max_iters=int(rng.integers(1, 6)), monitor_list=[goal],
                ftol=1e-6, name=None)
        else:
            continue
        count += 1
    return count


def _state(plan, variables):
    out = []
    for v in variables:
        out.append((plan.get_var_value(v), plan.get_var_bounds(v)))
    return out


def _compare_state(ck, p1, v1, p2, v2, tag):
    for (a, ab), (b, bb) in zip(_state(p1, v1), _state(p2, v2)):
        ck.close(b, a, tag + "-value", rtol=1e-12)
        for k in range(2):
            x, y = np.asarray(ab[k]), np.asarray(bb[k])
            ck.expect(x.shape == y.shape and np.all(x == y), tag + "-bounds",
                      {"want": x, "got": y})


def _frozen(plan, var):
    """Observes the freeze flag through the public gradient."""
    val = plan.get_var_value(var)
    with plan:
        g = goos.dot(goos.Constant(np.ones(val.shape)), var).get_grad([var])
    return not np.any(np.asarray(g[0].array_grad))


@family(quick=500, thorough=6000)
def roundtrip(ck, rng):
    os.makedirs("rt", exist_ok=True)
    with goos.OptimizationPlan(save_path="rt") as plan:
        gen = goosgen.GraphGen(rng, serializable=True, bounds=True)
        gen.grow(int(rng.integers(3, 12)))
        obj = gen.scalar_objective()
        obj.node = goos.rename(obj.node, "the_objective") if (
            not isinstance(obj.node, goos.Variable) and
            obj.node.node_type != "goos.cast") else obj.node
        nact = _add_actions(rng, gen, obj)
        names = [e.node._goos_name for e in gen.pool]
        vals = [e.node.get().array for e in gen.pool]
        grads = obj.node.get_grad([v.node for v in gen.variables])
        if rng.random() < 0.5:
            plan.save()
        else:
            plan.save("rt")
        first = _canon("rt")

        with goos.OptimizationPlan(save_path="rt") as other:
            other.load()
            ck.event("plans_loaded")
            vs = [other.get_node(v.node._goos_name) for v in gen.variables]
            for n, val, e in zip(names, vals, gen.pool):
                ck.event("nodes_compared")
                got = other.get_node(n).get().array
                ck.close(got, val, "loaded-value", rtol=1e-12, detail=e.text)
            for v1, v2 in zip(gen.variables, vs):
                ck.expect(_frozen(plan, v1.node) == _frozen(other, v2),
                          "loaded-frozen")
            _compare_state(ck, plan, [v.node for v in gen.variables], other,
                           vs, "loaded")
            g2 = other.get_node(obj.node._goos_name).get_grad(vs)
            for a, b in zip(grads, g2):
                ck.event("gradients_compared")
                ck.close(b.array_grad, a.array_grad, "loaded-gradient",
                         rtol=1e-12, detail=obj.text)
        # Saving the plan that was loaded gives the same plan.
        with goos.OptimizationPlan(save_path="rt") as again:
            again.load()
            os.makedirs("rt2", exist_ok=True)
            again.save("rt2")
            ck.expect(_same_json(first, _canon("rt2")), "resaved-differs",
                      lambda: {"first": first, "second": _canon("rt2")})
        # The actions have the same effect.
        plan.run(auto_checkpoint=False)
        with goos.OptimizationPlan() as other:
            other.load("rt2" if rng.random() < 0.5 else "rt")
            vs = [other.get_node(v.node._goos_name) for v in gen.variables]
            other.run(auto_checkpoint=False)
            ck.event("actions_compared", nact)
            _compare_state(ck, plan, [v.node for v in gen.variables], other,
                           vs, "after-actions")
            for v1, v2 in zip(gen.variables, vs):
                ck.expect(_frozen(plan, v1.node) == _frozen(other, v2),
                          "after-actions-frozen")
        # A checkpoint of the original restores the loaded plan.
        plan.write_checkpoint("rt.chkpt")
        with goos.OptimizationPlan() as other:
            other.load("rt")
            other.read_checkpoint("rt.chkpt")
            vs = [other.get_node(v.node._goos_name) for v in gen.variables]
            ck.event("checkpoints_on_loaded")
            _compare_state(ck, plan, [v.node for v in gen.variables], other,
                           vs, "checkpoint-on-loaded")
            before = [other.get_var_value(v) for v in vs]
            other.run(auto_checkpoint=False)
            for v, b in zip(vs, before):
                ck.close(other.get_var_value(v), b, "actions-repeated",
                         rtol=1e-14)
    if len(gen.count) >= 3:
        ck.key(obj.text, [v.val.tolist() for v in gen.variables], nact)
    ck.sample({"graph": [e.text for e in gen.pool], "actions": nact})
    shutil.rmtree("rt", ignore_errors=True)
    shutil.rmtree("rt2", ignore_errors=True)


@family(quick=60, thorough=600)
def complex_values(ck, rng):
    os.makedirs("cv", exist_ok=True)
    with goos.OptimizationPlan(save_path="cv") as plan:
        shape = [(3,), (2, 2), (1,), (2, 1, 2)][int(rng.integers(4))]
        z = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        c = goos.Constant(z, name="c")
        v = goos.Variable(rng.normal(size=shape), name="v")
        if rng.random() < 0.5:
            w = goos.Variable(rng.normal(size=shape) + 1j * rng.normal(
                size=shape), name="w")
        else:
            w = goos.Constant(2, name="w")
        f = goos.Sum([c * v, w * goos.Conjugate(c)], name="f")
        h = goos.norm(f, 2, name="h")
        want = [n.get().array for n in (c, v, w, f, h)]
        plan.save()
    with goos.OptimizationPlan(save_path="cv") as other:
        other.load()
        for n, val in zip("cvwfh", want):
            ck.close(other.get_node(n).get().array, val, "complex-value",
                     rtol=1e-13)
    ck.event("complex_plans")
    ck.key(shape, z.tolist())
    shutil.rmtree("cv", ignore_errors=True)


def _shape_plan(rng):
    i = [0]

    def const(v):
        i[0] += 1
        if rng.random() < 0.5:
            return goos.Constant(v)
        return goos.Constant(v, name='const%d' % i[0])

    mats = [goos.material.Material(index=float(np.round(x, 2)))
            for x in rng.uniform(1, 3.5, 3)]
    if rng.random() < 0.3:
        mats[0] = goos.material.Material(index=2.5 - 0.1j)
    shapes = []
    for k in range(int(rng.integers(1, 4))):
        shapes.append(
            goos.cuboid(pos=const(np.round(rng.uniform(-60, 60, 3), 1)),
                        extents=const(
                            np.round(rng.uniform(20, 120, 3), 1)),
                        material=mats[int(rng.integers(3))],
                        priority=int(rng.integers(-1, 3)),
                        name="box%d" % k))
    if rng.random() < 0.5:
        shapes.append(
            goos.Cylinder(pos=goos.Constant(rng.uniform(-40, 40, 3)),
                          radius=goos.Constant(rng.uniform(20, 50)),
                          height=goos.Constant(rng.uniform(40, 90)),
                          material=mats[1]))
    var, design = goos.pixelated_cont_shape(
        initializer=lambda size: rng.random(size), pos=goos.Constant(
            [5, -5, 0]), extents=[80, 60, 80], pixel_size=[20, 30, 80],
        material=mats[0], material2=mats[2], var_name="dv", name="design")
    shapes.append(design)
    group = goos.GroupShape(shapes, name="grp")
    eps = maxwell.RenderShape(
        group, region=goos.Box3d(center=[0, 0, 0], extents=[160, 160, 40]),
        mesh=maxwell.UniformMesh(dx=40), wavelength=1550,
        background=mats[int(rng.integers(3))], name="eps")
    obj = goos.norm(eps, name="obj")
    return var, eps


@family(quick=60, thorough=500)
def shapes_roundtrip(ck, rng):
    os.makedirs("sh", exist_ok=True)
    with goos.OptimizationPlan(save_path="sh") as plan:
        var, eps = _shape_plan(rng)
        want = eps.get().array
        plan.save()
    with goos.OptimizationPlan(save_path="sh") as other:
        other.load()
        got = other.get_node("eps").get().array
        ck.close(got, want, "rendered-permittivity", rtol=1e-12)
        ck.close(other.get_node("dv").get().array, var._value, "design-values",
                 rtol=1e-13)
        os.makedirs("sh2", exist_ok=True)
        other.save("sh2")
    with goos.OptimizationPlan() as other:
        other.load("sh2")
        ck.close(other.get_node("eps").get().array, want,
                 "resaved-permittivity", rtol=1e-12)
    ck.event("shape_plans")
    ck.key(np.round(want, 3).tolist())
    shutil.rmtree("sh", ignore_errors=True)
    shutil.rmtree("sh2", ignore_errors=True)


HEAD = r"""
import os, sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, {verif!r}); sys.path.insert(0, {repo!r})
import warnings; warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
from checks import C06
"""

BUILD = HEAD + r"""
C06.build_fresh({seed!r})
"""

CHILD = HEAD + r"""
C06.load_fresh()
"""


def build_fresh(seed):
    """Builds and saves a plan; runs in an interpreter of its own so that the
    automatic names start from zero."""
    rng = np.random.default_rng(seed)
    out = {}
    os.makedirs("fp", exist_ok=True)
    with goos.OptimizationPlan(save_path="fp") as plan:
        if rng.random() < 0.5:
            # Unnamed nodes whose numbers are not those of a fresh process.
            for _ in range(int(rng.integers(1, 4))):
                with goos.OptimizationPlan():
                    goos.Constant(np.ones(2)) * 2
        gen = goosgen.GraphGen(rng, serializable=True, bounds=True)
        gen.grow(int(rng.integers(4, 12)))
        obj = gen.scalar_objective()
        _add_actions(rng, gen, obj)
        out["shapes"] = bool(rng.random() < 0.6)
        if out["shapes"]:
            var, eps = _shape_plan(rng)
            out["eps"] = np.real(eps.get().array).tolist()
        extra = [goos.Constant(np.round(rng.normal(size=3), 3))
                 for _ in range(3)]
        out["text"] = [e.text for e in gen.pool]
        out["names"] = [e.node._goos_name for e in gen.pool]
        out["values"] = [np.asarray(e.node.get().array).tolist()
                         for e in gen.pool]
        out["vars"] = [v.node._goos_name for v in gen.variables]
        out["grads"] = [np.asarray(g.array_grad).tolist() for g in
                        obj.node.get_grad([v.node for v in gen.variables])]
        out["obj"] = obj.node._goos_name
        out["extra"] = [c._goos_name for c in extra]
        out["extra_values"] = [c.get().array.tolist() for c in extra]
        plan.save()
        plan.run(auto_checkpoint=False)
        out["final"] = [plan.get_var_value(v.node).tolist()
                        for v in gen.variables]
    with open("spec.json", "w") as fp:
        json.dump(out, fp)


def load_fresh():
    """Loads the plan in another interpreter and extends it there."""
    with open("spec.json") as fp:
        spec = json.load(fp)
    out = {}
    with goos.OptimizationPlan() as plan:
        plan.load("fp")
        out["values"] = [np.asarray(plan.get_node(n).get().array).tolist()
                         for n in spec["names"]]
        vs = [plan.get_node(n) for n in spec["vars"]]
        out["grads"] = [np.asarray(g.array_grad).tolist()
                        for g in plan.get_node(spec["obj"]).get_grad(vs)]
        # Nodes created after loading are new nodes.
        w = goos.Variable([7.5, -2.25], parameter=True)
        consts = [goos.Constant([1.5 + k, 3.0]) for k in range(8)]
        out["new"] = [(w * c + 2).get().array.tolist() for c in consts]
        if spec["shapes"]:
            out["eps"] = np.real(plan.get_node("eps").get().array).tolist()
        # So are actions, which run after the loaded ones.
        w.set(consts[3] * 2)
        w.set(w + 1)
        os.makedirs("fp2", exist_ok=True)
        plan.save("fp2")
        plan.run(auto_checkpoint=False)
        out["extra_values"] = [
            np.asarray(plan.get_node(n).get().array).tolist()
            for n in spec["extra"]]
        out["final"] = [plan.get_var_value(v).tolist() for v in vs]
        out["w"] = plan.get_var_value(w).tolist()
        name = w._goos_name
    with goos.OptimizationPlan() as plan:
        plan.load("fp2")
        plan.run(auto_checkpoint=False)
        out["final2"] = [plan.get_var_value(plan.get_node(n)).tolist()
                         for n in spec["vars"]]
        out["w2"] = plan.get_var_value(plan.get_node(name)).tolist()
    with open("out.json", "w") as fp:
        json.dump(out, fp)


@family(quick=20, thorough=150)
def fresh_process(ck, rng):
    """The plan is saved by one interpreter and loaded by another."""
    from vlib import run as vrun
    kw = {"verif": vrun.VERIF, "repo": vrun.REPO,
          "seed": int(rng.integers(2**31))}
    for code, tag in ((BUILD, "fresh-process-save"),
                      (CHILD, "fresh-process-load")):
        res = subprocess.run([sys.executable, "-c", code.format(**kw)],
                             timeout=120, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE)
        ck.require(res.returncode == 0, tag, res.stderr.decode()[-2000:])
    with open("spec.json") as fp:
        spec = json.load(fp)
    with open("out.json") as fp:
        out = json.load(fp)
    ck.event("fresh_process_loads")
    for a, b, t in zip(spec["values"], out["values"], spec["text"]):
        ck.close(np.asarray(b), np.asarray(a), "fresh-value", rtol=1e-12,
                 detail=t)
    for key, tag, tol in (("grads", "fresh-gradient", 1e-12),
                          ("final", "fresh-final-state", 1e-9),
                          ("extra_values", "fresh-constant", 1e-12)):
        for a, b in zip(spec[key], out[key]):
            ck.close(np.asarray(b), np.asarray(a), tag, rtol=tol)
    for a, b in zip(spec["final"], out["final2"]):
        ck.close(np.asarray(b), np.asarray(a), "extended-final-state",
                 rtol=1e-9)
    for k, got in enumerate(out["new"]):
        ck.close(np.asarray(got), [7.5 * (1.5 + k) + 2, -2.25 * 3 + 2],
                 "node-created-after-load")
    for key in ("w", "w2"):
        ck.close(np.asarray(out[key]), [10.0, 7.0],
                 "action-created-after-load")
    if spec["shapes"]:
        ck.close(np.asarray(out["eps"]), np.asarray(spec["eps"]),
                 "fresh-permittivity", rtol=1e-10)
    ck.key(spec["text"])
    for d in ("fp", "fp2"):
        shutil.rmtree(d, ignore_errors=True)


@family(quick=60, thorough=400)
def refuses_broken_plans(ck, rng):
    """Plans that are not consistent are refused, not misread."""
    os.makedirs("bp", exist_ok=True)
    with goos.OptimizationPlan(save_path="bp") as plan:
        gen = goosgen.GraphGen(rng, serializable=True, bounds=True)
        gen.grow(int(rng.integers(3, 8)))
        obj = gen.scalar_objective()
        plan.save()
    with open("bp/optplan.json") as fp:
        d = json.load(fp)
    kind = ["duplicate", "unknown_type", "dangling", "old_version",
            "missing_name", "wrong_type"][int(rng.integers(6))]
    nodes = d["nodes"]
    if kind == "duplicate":
        a, b = rng.choice(len(nodes), 2, replace=False)
        nodes[a]["name"] = nodes[b]["name"]
    elif kind == "unknown_type":
        nodes[int(rng.integers(len(nodes)))]["type"] = "goos.no_such_node"
    elif kind == "old_version":
        d["version"] = ["0.2.0", "0.1.9", "0.0.1"][int(rng.integers(3))]
    elif kind == "missing_name":
        # Remove a node that another node refers to.
        refs = [n for n in nodes if isinstance(n.get("fun"), str)]
        if not refs:
            return
        target = refs[int(rng.integers(len(refs)))]["fun"]
        d["nodes"] = [n for n in nodes if n["name"] != target]
    else:
        refs = [n for n in nodes if isinstance(n.get("fun"), str)]
        if not refs:
            return
        n = refs[int(rng.integers(len(refs)))]
        if kind == "dangling":
            n["fun"] = "no such node"
        else:
            # A reference to a node that is not numeric.
            d["nodes"].append({"name": "mat", "type": "goos.shape.translate",
                               "shape": "mat", "offset": [0, 0, 0]})
            n["fun"] = "mat"
    with open("bp/optplan.json", "w") as fp:
        json.dump(d, fp)

    def load():
        with goos.OptimizationPlan(save_path="bp") as other:
            other.load()

    ck.raises(Exception, load, "broken-plan-accepted:" + kind)
    ck.event("refused_plans")
    ck.event("refused_" + kind)
    ck.key(kind, obj.text)
    shutil.rmtree("bp", ignore_errors=True)


@family(quick=6, thorough=12)
def newer_versions(ck, rng):
    """At least version 0.3.0: later versions are accepted."""
    os.makedirs("nv", exist_ok=True)
    with goos.OptimizationPlan(save_path="nv") as plan:
        goos.Variable([1.5, 2], name="x")
        plan.save()
    with open("nv/optplan.json") as fp:
        d = json.load(fp)
    d["version"] = ["0.3.0", "0.3.7", "0.4.0", "1.0.0",
                    "1.2.3", "2.0.1"][int(rng.integers(6))]
    with open("nv/optplan.json", "w") as fp:
        json.dump(d, fp)
    with goos.OptimizationPlan(save_path="nv") as other:
        other.load()
        ck.close(other.get_node("x").get().array, [1.5, 2], "version-value")
    ck.key(d["version"])
    shutil.rmtree("nv", ignore_errors=True)


@family(quick=60, thorough=600)
def registries(ck, rng):
    """Stacked registries of stored types: nearest registration wins."""
    stack = schema_registry.SchemaRegistryStack()
    model = [{}]
    names = ["t%d" % i for i in range(5)]
    for step in range(int(rng.integers(5, 40))):
        op = rng.integers(5)
        name = str(rng.choice(names))
        if op == 0:
            stack.push()
            model.append({})
        elif op == 1 and len(model) > 1:
            stack.pop()
            model.pop()
        elif op <= 3:
            value = (object(), len, {"m": step})
            if name in model[-1]:
                ck.raises(ValueError, lambda: stack.register(name, *value),
                          "registered_twice")
            else:
                stack.register(name, *value)
                model[-1][name] = value
        for n in names:
            want = next((m[n] for m in reversed(model) if n in m), None)
            if want is None:
                ck.raises(ValueError, lambda: stack.get(n), "unknown_type")
                continue
            got = stack.get(n)
            ck.expect(got.schema is want[0] and got.creator is want[1] and
                      got.meta == want[2], "registration", {"name": n})
            ck.event("registrations")
        flat = {}
        for m in model:
            flat.update(m)
        got = stack.get_map()
        ck.expect(set(got) == set(flat) and all(
            got[n].schema is flat[n][0] for n in flat), "registered_types")
    ck.key(len(model), step)


DEFAULTS = [
    ("GaussianSource", {"normalize_by_sim": False}),
    ("DipoleSource", {"phase": 0, "power": 1}),
    ("WaveguideModeOverlap", {"normalize": True}),
    ("DirectSolver", {"multiprocessing": True}),
    ("MaxwellSolver", {"solver": "maxwell_cg", "err_thresh": 1e-5,
                       "max_iters": 20000}),
]


@family(quick=20, thorough=100)
def omitted_fields(ck, rng):
    """Fields that a stored simulation omits keep their meaning."""
    for name, want in DEFAULTS:
        obj = getattr(maxwell, name)()
        for k, v in want.items():
            ck.expect(obj[k] == v, "omitted_field",
                      {"class": name, "field": k, "got": repr(obj[k])})
            ck.event("omitted_fields")
        given = {k: (not v if isinstance(v, bool) else v) for k, v in
                 want.items()}
        obj = getattr(maxwell, name)(**given)
        ck.expect(all(obj[k] == v for k, v in given.items()), "given_field",
                  {"class": name})
    ck.key(len(DEFAULTS))
