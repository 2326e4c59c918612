"""C21: optimization plans describe, store and build the same problem graph."""
import copy
import json
import math
import random

import numpy as np
from schematics import models, types

from vlib.core import family
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import workspace
from spins.invdes.problem_graph import creator  # registers the creators
from spins.invdes.problem_graph import schema_utils

RULE = ("random problem graphs over every registered node type (fields, "
        "nested models, lists, dictionaries and references filled at random "
        "from the schema), random algebraic expressions, random context "
        "histories; oracles: graph isomorphism with sharing, direct complex "
        "arithmetic, a list-of-dictionaries model of the context stack; "
        "distinct by node types, sizes and sharing")
REQUIRED_EVENTS = ["round_trip", "shared_node", "nested_reference",
                   "list_reference", "dict_reference", "auto_named",
                   "plan_unchanged", "rejected_duplicate",
                   "rejected_wrong_type", "rejected_missing",
                   "rejected_version", "rejected_unknown_type",
                   "transformations", "expressions", "reloaded_expressions",
                   "divisions", "workspace_cached", "workspace_conflict",
                   "context_override", "context_pop", "deep_copies",
                   "stored_nodes", "stored_transformations",
                   "stored_details", "omitted_fields", "unnamed_nodes",
                   "any_wrong_reference", "complex_power_refused",
                   "interval_functions", "explicit_none", "equal_twins"]

OPT = optplan.NodeMetaType.OPTPLAN_NODE
TRF = optplan.NodeMetaType.TRANSFORMATION


class VInner(schema_utils.Model):
    """Nested model that holds references."""
    target = optplan.ReferenceType(optplan.Function)
    targets = types.ListType(optplan.ReferenceType(optplan.Function))
    weight = types.FloatType()


class VHolder(optplan.Function):
    """References in every kind of container."""
    type = schema_utils.polymorphic_model_type("function.v_holder")
    one = optplan.ReferenceType(optplan.Function)
    many = types.ListType(optplan.ReferenceType(optplan.Function))
    named = types.DictType(optplan.ReferenceType(optplan.Function))
    inner = types.ModelType(VInner)
    inners = types.ListType(types.ModelType(VInner))
    inner_map = types.DictType(types.ModelType(VInner))
    label = types.StringType()
    numbers = types.ListType(types.FloatType())


def subclasses(cls):
    out = []
    for sub in cls.__subclasses__():
        out.append(sub)
        out += subclasses(sub)
    return out


def poly_choices(field):
    """Models accepted by a PolyModelType."""
    out = []
    for m in field.model_classes:
        if "type" in m._schema.fields:
            out.append(m)
        out += [s for s in subclasses(m) if "type" in s._schema.fields]
        if not out:
            out.append(m)
    return out


def rand_float(rnd):
    return rnd.choice([0.0, -0.0, 1.0, -1.5, 1e-300, 1e300, 0.1, 3,
                       rnd.uniform(-1e3, 1e3), rnd.gauss(0, 1e-6)])


class Gen:
    """Generates random instances of any schema of the plan language."""

    def __init__(self, ck, rnd, extra=()):
        self.ck, self.rnd = ck, rnd
        self.pool = []
        self.count = 0
        self.models = list(extra) + [
            m for m in
            optplan.GLOBAL_CONTEXT_STACK.get_node_model_dict(OPT).values()]
        self.trans = list(
            optplan.GLOBAL_CONTEXT_STACK.get_node_model_dict(TRF).values())

    def name(self):
        self.count += 1
        rnd = self.rnd
        return rnd.choice(["n%d", "Node_%d", "x.%d", "ünï-%d", "a b %d",
                           "_u%d"]) % self.count

    def ref(self, cls):
        opts = [n for n in self.pool if isinstance(n, cls)]
        if not opts:
            return None
        return self.rnd.choice(opts)

    def value(self, field, depth=0):
        rnd = self.rnd
        if isinstance(field, optplan.ReferenceType):
            return self.ref(field.reference_type)
        if isinstance(field, types.PolyModelType):
            return self.model(rnd.choice(poly_choices(field)), depth + 1)
        if isinstance(field, types.ModelType):
            return self.model(field.model_class, depth + 1)
        if isinstance(field, types.ListType):
            lo = field.min_size or 0
            hi = field.max_size if field.max_size is not None else 4
            items = [self.value(field.field, depth + 1)
                     for _ in range(rnd.randint(lo, max(lo, hi)))]
            if any(i is None for i in items):
                return None
            return items
        if isinstance(field, types.DictType):
            items = {"k%d" % i: self.value(field.field, depth + 1)
                     for i in range(rnd.randint(0, 3))}
            if any(i is None for i in items.values()):
                return None
            return items
        if field.choices:
            return rnd.choice(list(field.choices))
        if isinstance(field, types.BooleanType):
            return rnd.random() < 0.5
        if isinstance(field, types.IntType):
            return rnd.randint(-5, 1000)
        if isinstance(field, types.FloatType):
            return rand_float(rnd)
        if isinstance(field, types.StringType):
            return rnd.choice(["", "abc", "x/y.gds", "quote\"'\\", "é"])
        return None

    def fill(self, cls, depth=0):
        kw = {}
        for fname, field in cls._schema.fields.items():
            if fname in ("type", "name"):
                continue
            if self.rnd.random() < 0.2:
                continue
            v = self.value(field, depth)
            if v is not None:
                kw[fname] = v
        return kw

    def model(self, cls, depth=0):
        kw = self.fill(cls, depth)
        return cls(**kw)

    def node(self, cls=None):
        rnd = self.rnd
        cls = cls or rnd.choice(self.models)
        kw = self.fill(cls)
        if rnd.random() < 0.7:
            kw["name"] = self.name()
        else:
            self.ck.event("auto_named")
        node = cls(**kw)
        self.pool.append(node)
        return node

    def transformation(self):
        rnd = self.rnd
        tf = optplan.Transformation(
            name=self.name(),
            transformation=self.model(rnd.choice(self.trans)))
        p = self.ref(optplan.Parametrization)
        if p is not None:
            tf.parametrization = p
        if rnd.random() < 0.6:
            lst = []
            for _ in range(rnd.randint(0, 2)):
                lst.append(self.model(optplan.SetParam))
            tf.parameter_list = lst
        self.ck.event("transformations")
        return tf

    def plan(self):
        rnd = self.rnd
        for _ in range(rnd.randint(2, 14)):
            self.node()
        trs = [self.transformation() for _ in range(rnd.randint(0, 3))]
        kw = {}
        if trs:
            kw["transformations"] = trs
        k = rnd.randint(0, len(self.pool))
        kw["nodes"] = rnd.sample(self.pool, k)
        return optplan.OptimizationPlan(**kw)


def canon(value, nodes, stats=None):
    """Structure of a plan value; references become names, nodes collected."""
    if isinstance(value, optplan.ProblemGraphNode):
        if value.name not in nodes:
            nodes[value.name] = None
            nodes[value.name] = (value, _fields(value, nodes, stats))
        elif stats is not None:
            stats["shared"] = stats.get("shared", 0) + 1
        # Identity is judged separately.
        return ("ref", value.name)
    if isinstance(value, models.Model):
        return (type(value).__name__, _fields(value, nodes, stats))
    # Models without any content mean nothing and are not stored.
    if isinstance(value, (list, tuple)):
        items = [canon(v, nodes, stats) for v in value]
        return [c for c in items if not empty(c)]
    if isinstance(value, dict):
        items = {k: canon(v, nodes, stats) for k, v in value.items()}
        return {k: c for k, c in items.items() if not empty(c)}
    return value


def empty(c):
    return isinstance(c, tuple) and c[0] != "ref" and not c[1]


def _fields(model, nodes, stats):
    out = {}
    for k in model._schema.fields:
        v = model[k]
        # Empty and missing containers are the same thing.
        if v is None or (isinstance(v, (list, dict)) and not v):
            continue
        c = canon(v, nodes, stats)
        # So is a nested model without any content.
        if empty(c) or (isinstance(c, (list, dict)) and not c):
            continue
        out[k] = c
    return out


def identities(value, seen, bad):
    """Checks that every name is represented by a single object."""
    if isinstance(value, optplan.ProblemGraphNode):
        if value.name in seen:
            if seen[value.name] is not value:
                bad.append(value.name)
            return
        seen[value.name] = value
    if isinstance(value, models.Model):
        for k in value._schema.fields:
            identities(value[k], seen, bad)
    elif isinstance(value, (list, tuple)):
        for v in value:
            identities(v, seen, bad)
    elif isinstance(value, dict):
        for v in value.values():
            identities(v, seen, bad)


def graph(plan):
    nodes, stats = {}, {}
    trs = [canon(t, nodes, stats) for t in plan.transformations or []]
    for n in plan.nodes or []:
        canon(n, nodes, stats)
    return {k: (type(v[0]).__name__, v[1]) for k, v in nodes.items()}, trs, stats


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and type(a) in (type(b), int, float, bool) or (
        isinstance(a, (int, float)) and isinstance(b, (int, float)) and
        a == b)


class Context:
    """Pushes a context with the extra node types; pops it on exit."""

    def __enter__(self):
        optplan.GLOBAL_CONTEXT_STACK.push(optplan.OptplanContext())
        optplan.register_node_type()(VHolder)
        return self

    def __exit__(self, *a):
        optplan.GLOBAL_CONTEXT_STACK.pop()


@family(quick=500, thorough=8000)
def round_trip(ck, rng):
    rnd = random.Random(int(rng.integers(1 << 30)))
    with Context():
        if rnd.random() < 0.5:
            optplan.reset_graph()
        g = Gen(ck, rnd, extra=[VHolder, VHolder])
        for _ in range(rnd.randint(0, 3)):
            g.node(optplan.Parameter)
        plan = g.plan()
        # With this many auto-named and user-named nodes, names may only
        # collide if the generator produced the same automatic name twice.
        names = [n.name for n in g.pool]
        ck.expect(len(set(names)) == len(names), "auto_names_distinct",
                  {"names": names})
        before = graph(plan)
        seen, bad = {}, []
        identities(plan, seen, bad)
        text = optplan.dumps(plan)
        after = graph(plan)
        seen2, bad2 = {}, []
        identities(plan, seen2, bad2)
        ck.expect(same(before[:2], after[:2]) and
                  all(seen[k] is seen2.get(k) for k in seen),
                  "dumps_leaves_plan", {"plan": text[:2000]})
        ck.event("plan_unchanged")
        data = json.loads(text)
        got_names = [n["name"] for n in data.get("nodes", [])]
        ck.expect(sorted(got_names) == sorted(before[0]), "every_node_once",
                  {"got": sorted(got_names), "want": sorted(before[0])})
        loaded = optplan.loads(text)
        now = graph(loaded)
        diff = [k for k in set(before[0]) | set(now[0])
                if not same(before[0].get(k), now[0].get(k))]
        ck.expect(not diff, "nodes_survive",
                  {"node": str(diff[:1]),
                   "want": str([before[0].get(k) for k in diff[:1]])[:1500],
                   "got": str([now[0].get(k) for k in diff[:1]])[:1500]})
        ck.expect(same(before[1], now[1]), "transformations_survive",
                  {"want": str(before[1])[:1500], "got": str(now[1])[:1500]})
        seen, bad = {}, []
        identities(loaded, seen, bad)
        ck.expect(not bad, "sharing_survives", {"nodes": bad})
        ck.expect(loaded.version == plan.version, "version_survives",
                  {"got": loaded.version})
        # A second trip is stable.
        again = json.loads(optplan.dumps(loaded))
        order = lambda d: (sorted(d.get("nodes", []), key=lambda n: n["name"]),
                           d.get("transformations"), d["version"])
        ck.expect(order(again) == order(data), "second_trip_stable",
                  {"first": text[:1500], "second": str(again)[:1500]})
        ck.event("round_trip")
        if before[2].get("shared"):
            ck.event("shared_node", before[2]["shared"])
        for n in g.pool:
            if isinstance(n, VHolder):
                if n.inner is not None and n.inner.target is not None:
                    ck.event("nested_reference")
                if n.many:
                    ck.event("list_reference")
                if n.named:
                    ck.event("dict_reference")
        ck.key(tuple(sorted(v[0] for v in before[0].values())),
               len(before[1]), before[2].get("shared", 0))
        ck.sample({"nodes": len(before[0]), "transformations": len(before[1]),
                   "text": text[:400]})


def _slots(cls):
    """(field, container kind, wanted class) of the references of a node."""
    out = []
    for f, t in cls._schema.fields.items():
        kind = "one"
        if isinstance(t, types.ListType):
            t, kind = t.field, "list"
        elif isinstance(t, types.DictType):
            t, kind = t.field, "dict"
        if isinstance(t, optplan.ReferenceType):
            out.append((f, kind, t.reference_type))
    return out


def _any_wrong_reference(ck, rnd, g):
    """Any reference of any node type to a node of another kind is refused."""
    cls = rnd.choice([c for c in g.models if _slots(c)])
    field, kind, want = rnd.choice(_slots(cls))
    other = [c for c in g.models if not issubclass(c, want)]
    if not other:
        return
    wrong = rnd.choice(other)(name="wrong")
    node = cls(name="holder")
    node[field] = {"one": wrong, "list": [wrong], "dict": {"k": wrong}}[kind]
    info = {"node": cls.__name__, "field": field, "given":
            type(wrong).__name__}
    plan = optplan.OptimizationPlan(nodes=[node])
    ck.raises(ValueError, lambda: optplan.dumps(plan),
              "any_wrong_reference_rejected", info)
    node[field] = {"one": "wrong", "list": ["wrong"], "dict": {"k": "wrong"}}[
        kind]
    nodes = [node.to_primitive(), wrong.to_primitive()]
    if rnd.random() < 0.5:
        nodes.reverse()
    data = {"version": "0.2.3", "nodes": nodes}
    ck.raises(ValueError, lambda: optplan.loads(json.dumps(data)),
              "any_wrong_reference_rejected_on_load", info)
    ck.event("any_wrong_reference")


def _unnamed(ck, rnd, plan, holder, a):
    """Nodes that lost their name are given one when the plan is stored."""
    which = rnd.choice(["leaf", "holder", "both", "new"])
    empty = rnd.choice([None, ""])
    b = optplan.Parameter(initial_value=42.5)
    if which in ("leaf", "both"):
        a.name = empty
    if which in ("holder", "both"):
        holder.name = empty
    if which == "new":
        b.name = empty
        holder.inner.targets = [a, b, b]
    loaded = optplan.loads(optplan.dumps(plan))
    names = [n.name for n in loaded.nodes]
    ck.expect(all(names) and len(set(names)) == len(names), "names_given",
              {"names": names, "unnamed": which})
    h = [n for n in loaded.nodes if isinstance(n, VHolder) and
         n.inner is not None and n.named and "k" in n.named and
         n.inner_map and "m" in n.inner_map and n.inner.targets and
         n.many and n.one is n.many[0] is n.named["k"] is n.inner.target and
         n.inner_map["m"].target is n.one is n.inner.targets[0]]
    h = [n for n in h if n.one.initial_value == a.initial_value and
         (n.name == holder.name or not holder.name)]
    ck.expect(len(h) >= 1, "unnamed_nodes_stored",
              {"unnamed": which, "names": names})
    if which == "new":
        ck.expect(any(len(n.inner.targets) == 3 and
                      n.inner.targets[1] is n.inner.targets[2] and
                      n.inner.targets[1].initial_value == 42.5 for n in h),
                  "unnamed_nodes_shared", {"names": names})
    ck.expect((a.name == empty) == (which in ("leaf", "both")) and
              (holder.name == empty) == (which in ("holder", "both")),
              "dumps_leaves_names", {"unnamed": which})
    ck.event("unnamed_nodes")


@family(quick=250, thorough=2500)
def rejections(ck, rng):
    rnd = random.Random(int(rng.integers(1 << 30)))
    with Context():
        g = Gen(ck, rnd, extra=[VHolder, VHolder])
        a = g.node(optplan.Parameter)
        b = g.node(optplan.UniformInitializer)
        for _ in range(rnd.randint(1, 8)):
            g.node()
        holder = VHolder(name=g.name(), one=a, many=[a],
                         named={"k": a}, inner=VInner(target=a, targets=[a]),
                         inners=[VInner(target=a)],
                         inner_map={"m": VInner(target=a)})
        plan = optplan.OptimizationPlan(nodes=g.pool + [holder])
        text = optplan.dumps(plan)
        kind = rnd.choice(["dup_build", "dup_json", "wrong_json", "wrong_build",
                           "missing", "version", "unknown", "any", "any",
                           "unnamed"])
        ck.key(kind, len(g.pool))
        if kind == "unnamed":
            _unnamed(ck, rnd, plan, holder, a)
            return
        if kind == "any":
            _any_wrong_reference(ck, rnd, g)
            return
        if kind == "dup_build":
            twin = optplan.Parameter(
                name=a.name,
                initial_value=7.25 if a.initial_value != 7.25 else 1.0)
            where = rnd.randrange(3)
            if where == 0:
                plan.nodes = plan.nodes + [twin]
            elif where == 1:
                holder.inners[0].target = twin
            else:
                holder.many = [a, twin]
            ck.raises(ValueError, lambda: optplan.dumps(plan),
                      "duplicate_rejected", {"where": where})
            ck.event("rejected_duplicate")
            return
        if kind == "wrong_build":
            where = rnd.randrange(6)
            if where == 0:
                holder.one = b
            elif where == 1:
                holder.many = [a, b]
            elif where == 2:
                holder.named = {"k": b}
            elif where == 3:
                holder.inner.target = b
            elif where == 4:
                holder.inners[0].target = b
            else:
                holder.inner_map["m"].targets = [b]
            ck.raises(ValueError, lambda: optplan.dumps(plan),
                      "wrong_reference_rejected", {"where": where})
            ck.raises(ValueError, lambda: VHolder(one=b),
                      "wrong_reference_rejected_early", {})
            ck.event("rejected_wrong_type")
            return
        data = json.loads(text)
        byname = {n["name"]: n for n in data["nodes"]}
        h = byname[holder.name]

        def put(v):
            w = rnd.randrange(6)
            if w == 0:
                h["one"] = v
            elif w == 1:
                h["many"] = h["many"] + [v]
            elif w == 2:
                h["named"]["k"] = v
            elif w == 3:
                h["inner"]["target"] = v
            elif w == 4:
                h["inners"][0]["target"] = v
            else:
                h["inner_map"]["m"]["target"] = v
            return w

        if kind == "dup_json":
            n = copy.deepcopy(rnd.choice(data["nodes"]))
            data["nodes"].append(n)
            ck.raises(ValueError, lambda: optplan.loads(json.dumps(data)),
                      "duplicate_rejected_on_load", {"node": n})
            ck.event("rejected_duplicate")
        elif kind == "wrong_json":
            w = put(b.name)
            ck.raises(ValueError, lambda: optplan.loads(json.dumps(data)),
                      "wrong_reference_rejected_on_load", {"where": w})
            ck.event("rejected_wrong_type")
        elif kind == "missing":
            w = put("no such node")
            ck.raises(Exception, lambda: optplan.loads(json.dumps(data)),
                      "missing_reference_rejected", {"where": w})
            ck.event("rejected_missing")
        elif kind == "version":
            v = rnd.choice(["0.2.2", "0.1.9", "0.0.30", "0.2"])
            data["version"] = v
            ck.raises(ValueError, lambda: optplan.loads(json.dumps(data)),
                      "old_version_rejected", {"version": v})
            for v in ("0.2.3", "0.2.10", "0.10.0", "1.0.0"):
                data["version"] = v
                ck.expect(optplan.loads(json.dumps(data)).version == v,
                          "newer_version_accepted", {"version": v})
            ck.event("rejected_version")
        else:
            n = rnd.choice(data["nodes"])
            n["type"] = "function.no_such_type"
            ck.raises(Exception, lambda: optplan.loads(json.dumps(data)),
                      "unknown_type_rejected", {})
            ck.event("rejected_unknown_type")


class Expr:
    """Random expression: optplan node and its value computed directly."""

    def __init__(self, ck, rnd):
        self.ck, self.rnd = ck, rnd
        self.leaves = []
        for _ in range(rnd.randint(1, 3)):
            v = rnd.choice([0.5, 2.0, -1.25, 3.0, rnd.uniform(0.2, 2)])
            self.leaves.append((optplan.Parameter(initial_value=v), v))
        for _ in range(rnd.randint(0, 2)):
            z = complex(rnd.choice([1, 0, -2.0]), rnd.choice([0, 0, 1.5, -1]))
            if z == 0:
                z = 1 + 0j
            form = rnd.randrange(3)
            if form == 0:
                node = optplan.make_constant(z)
            elif form == 1:
                node = optplan.make_constant(
                    optplan.ComplexNumber(real=z.real, imag=z.imag))
            else:
                node = optplan.Constant(
                    value=optplan.ComplexNumber(real=z.real, imag=z.imag))
            self.leaves.append((node, z))
        self.done = list(self.leaves)

    def number(self):
        rnd = self.rnd
        return rnd.choice([2, -3, 0.5, 1.0, 1 + 2j, -1j, np.float64(1.5),
                           np.int64(2), np.int64(-4), True])

    def step(self):
        rnd = self.rnd
        f, v = rnd.choice(self.done)
        g, w = rnd.choice(self.done)
        op = rnd.choice(["+", "-", "*", "/", "**", "neg", "abs", "+n", "n+",
                         "-n", "n-", "*n", "n*", "/n", "n/", "+c", "*c"])
        n = self.number()
        if op in ("n+", "n-", "n*", "n/"):
            n = complex(n) if isinstance(n, complex) else float(n)
        c = optplan.ComplexNumber(real=rnd.choice([1.0, -2.0]),
                                  imag=rnd.choice([0.0, 0.5]))
        cz = complex(c.real, c.imag)
        if op in ("/", "n/") and abs(w if op == "/" else v) < 1e-3:
            return
        if op == "+":
            r = (f + g, v + w)
        elif op == "-":
            r = (f - g, v - w)
        elif op == "*":
            r = (f * g, v * w)
        elif op == "/":
            r = (f / g, v / w)
            self.ck.event("divisions")
        elif op == "**":
            e = rnd.choice([2, 3, -1, 1, 0.5, 2.0, np.int64(2)])
            if abs(v) < 1e-3 or (e == 0.5 and (abs(complex(v).imag) > 0 or
                                               complex(v).real < 0)):
                return
            if e in (2, 3) and rnd.random() < 0.3:
                e2 = optplan.make_constant(e)
            else:
                e2 = e
            r = (f**e2, complex(v)**float(e))
        elif op == "neg":
            r = (-f, -v)
        elif op == "abs":
            r = (optplan.abs(f), abs(v))
        elif op == "+n":
            r = (f + n, v + complex(n))
        elif op == "n+":
            r = (n + f, v + complex(n))
        elif op == "-n":
            r = (f - (int(n) if n is True else n), v - complex(n))
        elif op == "n-":
            r = (n - f, complex(n) - v)
        elif op == "*n":
            r = (f * n, v * complex(n))
        elif op == "n*":
            r = (n * f, v * complex(n))
        elif op == "/n":
            r = (f / n, v / complex(n))
            self.ck.event("divisions")
        elif op == "n/":
            r = (n / f, complex(n) / v)
            self.ck.event("divisions")
        elif op == "+c":
            r = (f + c, v + cz)
        else:
            r = (f * c, v * cz)
        if not (abs(r[1]) < 1e6 and math.isfinite(abs(r[1]))):
            return
        self.done.append(r)
        self.ck.key(op, type(f).__name__, type(g).__name__)


@family(quick=300, thorough=4000)
def expressions(ck, rng):
    rnd = random.Random(int(rng.integers(1 << 30)))
    ex = Expr(ck, rnd)
    for _ in range(rnd.randint(2, 10)):
        ex.step()
    f = rnd.choice(ex.done)[0]
    z = complex(rnd.choice([0, 1, -2.5]), rnd.choice([1, -1]) *
                rnd.choice([1e-3, 1, 7]))
    for bad in (z, optplan.make_constant(z), ex.leaves[0][0]):
        try:
            f**bad
        except (TypeError, ValueError):
            ck.event("complex_power_refused")
        else:
            ck.fail("power_refused", {"exponent": str(z),
                                      "type": type(bad).__name__})
    work = workspace.Workspace(savepath=None)
    order = list(ex.done)
    rnd.shuffle(order)
    # Functions that keep a value in an interval.
    for _ in range(2):
        x = rnd.choice([0.0, 0.3, -1.5, rnd.uniform(-3, 3)])
        mid = rnd.choice([0.0, 1.0, -2.0, rnd.uniform(-3, 3)])
        width = rnd.choice([0.0, 1.0, rnd.uniform(0, 2)])
        e = rnd.choice([1, 2, 3, 1.5])
        node = optplan.PowerComp(function=optplan.Parameter(initial_value=x),
                                 value=mid, range=width, exp=e)
        want = (max(0.0, x - (mid + width / 2))**e +
                max(0.0, (mid - width / 2) - x)**e)
        got = work.get_object(node).calculate_objective_function(None)
        ck.close(float(got), want, "interval_function", rtol=1e-9, atol=1e-12,
                 detail={"x": x, "value": mid, "range": width, "exp": e})
        ck.event("interval_functions")
    for node, want in order:
        got = work.get_object(node).calculate_objective_function(None)
        ck.close(complex(got), complex(want), "expression_value", rtol=1e-8,
                 atol=1e-9, detail={"type": node.type})
        ck.event("expressions")
    # The stored plan describes the same functions.
    plan = optplan.OptimizationPlan(nodes=[n for n, _ in ex.done])
    loaded = optplan.loads(optplan.dumps(plan))
    byname = {n.name: n for n in loaded.nodes}
    work = workspace.Workspace(savepath=None, nodes=loaded.nodes)
    for node, want in order:
        ck.require(node.name in byname, "expression_stored",
                   {"name": node.name})
        key = node.name if rnd.random() < 0.5 else byname[node.name]
        got = work.get_object(key).calculate_objective_function(None)
        ck.close(complex(got), complex(want), "reloaded_expression_value",
                 rtol=1e-8, atol=1e-9, detail={"type": node.type})
        ck.event("reloaded_expressions")
    # Parameters of the two workspaces are independent state and feed into
    # everything built from them.
    p, v = ex.leaves[0]
    work.get_object(p.name).set_parameter_value(v + 1)
    ck.close(complex(work.get_object(
        byname[p.name]).calculate_objective_function(None)), complex(v + 1),
             "parameter_updated", rtol=1e-12, atol=0)


@family(quick=200, thorough=2000)
def workspaces(ck, rng):
    rnd = random.Random(int(rng.integers(1 << 30)))
    calls = {}

    class VLeaf(optplan.Function):
        type = schema_utils.polymorphic_model_type("function.v_leaf")
        value = types.FloatType()

    class VNode(optplan.Function):
        type = schema_utils.polymorphic_model_type("function.v_node")
        children = types.ListType(optplan.ReferenceType(optplan.Function))

    class Obj:
        def __init__(self, node, children):
            self.node, self.children = node, children

    optplan.GLOBAL_CONTEXT_STACK.push(optplan.OptplanContext())
    try:
        @optplan.register_node(VLeaf)
        def make_leaf(params, work):
            calls[params.name] = calls.get(params.name, 0) + 1
            return Obj(params, [])

        @optplan.register_node(VNode)
        def make_node(params, work):
            calls[params.name] = calls.get(params.name, 0) + 1
            return Obj(params, [work.get_object(c) for c in
                                params.children or []])

        nodes = [VLeaf(name="l%d" % i, value=float(i))
                 for i in range(rnd.randint(1, 3))]
        for i in range(rnd.randint(1, 6)):
            nodes.append(VNode(name="n%d" % i, children=[
                rnd.choice(nodes) for _ in range(rnd.randint(1, 3))]))
        start = rnd.sample(nodes, rnd.randint(0, len(nodes)))
        work = workspace.Workspace(savepath=None, nodes=start)
        objs = {}
        reach = {}

        def reachable(n):
            out = {n.name: n}
            for c in getattr(n, "children", None) or []:
                out.update(reachable(c))
            return out

        known = {}
        for n in start:
            known.update(reachable(n))
        for _ in range(rnd.randint(3, 15)):
            op = rnd.randrange(5)
            n = rnd.choice(nodes)
            if op == 0:
                o = work.get_object(n)
                known.update(reachable(n))
            elif op == 1:
                if n.name not in known:
                    ck.raises(Exception, lambda: work.get_object(n.name),
                              "unknown_name_rejected", {})
                    continue
                o = work.get_object(n.name)
            elif op == 2:
                o, n2 = work.get_object(n, return_graph_node=True)
                known.update(reachable(n))
                ck.expect(n2 is n, "graph_node_returned", {"name": n.name})
            elif op == 3:
                cls = rnd.choice([VLeaf, VNode, optplan.Function])
                found = work.get_objects_by_type(cls)
                want = {k for k, v in known.items() if isinstance(v, cls)}
                ck.expect(set(found) == want, "objects_by_type",
                          {"got": sorted(found), "want": sorted(want)})
                for k, o in found.items():
                    ck.expect(objs.setdefault(k, o) is o, "object_cached",
                              {"name": k})
                continue
            else:
                if n.name not in known:
                    continue
                twin = rnd.random() < 0.4
                if twin:  # an equal node is a second node all the same
                    other = copy.copy(n)
                    ck.event("equal_twins")
                else:
                    other = (VLeaf(name=n.name, value=-1.0)
                             if rnd.random() < 0.5
                             else VNode(name=n.name, children=[]))
                ck.raises(ValueError, lambda: work.get_object(other),
                          "name_conflict_rejected",
                          {"name": n.name, "created": n.name in objs})
                parent = VNode(name="fresh", children=[other])
                fresh = workspace.Workspace(savepath=None, nodes=[n])
                saved = dict(calls)
                ck.raises(ValueError, lambda: fresh.get_object(parent),
                          "nested_name_conflict_rejected", {"name": n.name})
                calls.clear()
                calls.update(saved)
                ck.event("workspace_conflict")
                continue
            ck.expect(objs.setdefault(n.name, o) is o, "object_cached",
                      {"name": n.name})
            ck.expect(o.node is n, "object_of_its_node", {"name": n.name})
            for c, oc in zip(getattr(n, "children", None) or [], o.children):
                ck.expect(objs.setdefault(c.name, oc) is oc, "child_shared",
                          {"name": n.name, "child": c.name})
                ck.expect(oc.node is c, "child_of_its_node",
                          {"name": n.name})
            ck.event("workspace_cached")
        ck.expect(all(v == 1 for v in calls.values()), "created_once",
                  {"calls": dict(calls)})
        ck.key(len(nodes), len(start), tuple(sorted(calls)))
    finally:
        optplan.GLOBAL_CONTEXT_STACK.pop()


@family(quick=200, thorough=2000)
def contexts(ck, rng):
    rnd = random.Random(int(rng.integers(1 << 30)))
    stack = optplan.OptplanContextStack()
    model = []
    metas, kinds = ["m0", "m1"], ["a", "b", "c"]
    ops = []
    for step in range(rnd.randint(5, 40)):
        op = rnd.choice(["push", "pop", "register", "register", "register",
                         "get", "get", "dict"])
        ops.append(op)
        m, k = rnd.choice(metas), rnd.choice(kinds)
        if op == "push" or not model:
            stack.push(optplan.OptplanContext())
            model.append({})
        elif op == "pop":
            stack.pop()
            model.pop()
            ck.event("context_pop")
        elif op == "register":
            cls = type("M%d" % step, (), {})
            fun = lambda params, work, s=step: s
            if (m, k) in model[-1]:
                ck.raises(ValueError,
                          lambda: stack.peek().register_node_type(m, k, cls,
                                                                  fun),
                          "double_registration_rejected", {})
            else:
                stack.peek().register_node_type(m, k, cls, fun)
                if any((m, k) in c for c in model):
                    ck.event("context_override")
                model[-1][(m, k)] = (cls, fun)
        # Look up everything after every step.
        for mm in metas:
            merged = {}
            for c in model:
                for (cm, ckd), v in c.items():
                    if cm == mm:
                        merged[ckd] = v
            for kk in kinds:
                want = merged.get(kk, (None, None))
                ck.expect(stack.get_node_model(mm, kk) is want[0],
                          "model_lookup", {"ops": ops})
                ck.expect(stack.get_node_creator(mm, kk) is want[1],
                          "creator_lookup", {"ops": ops})
            ck.expect(stack.get_node_model_dict(mm) ==
                      {k_: v[0] for k_, v in merged.items()},
                      "model_dict", {"ops": ops})
        ck.expect((stack.peek() is None) == (not model), "peek", {"ops": ops})
    ck.key(tuple(ops))


@family(quick=150, thorough=1500)
def copies(ck, rng):
    rnd = random.Random(int(rng.integers(1 << 30)))
    with Context():
        g = Gen(ck, rnd, extra=[VHolder] * 6)
        for _ in range(2):
            g.node(optplan.Parameter)
        plan = g.plan()
        # Fields that were emptied on purpose stay empty in the copies.
        cleared = []
        for n in g.pool:
            full = [f for f in n._schema.fields
                    if f not in ("name", "type") and n[f] is not None]
            if full and rnd.random() < 0.4:
                f = rnd.choice(full)
                n[f] = None
                cleared.append((n, f))
                c = copy.copy(n)
                d = copy.deepcopy(n)
                ck.expect(c[f] is None and d[f] is None, "empty_field_copied",
                          {"type": n.type, "field": f, "copy": str(c[f]),
                           "deepcopy": str(d[f])})
                ck.event("explicit_none")
        before = graph(plan)
        deep = copy.deepcopy(plan)
        ck.expect(same(graph(deep)[:2], before[:2]), "deep_copy_equal", {})
        seen, bad = {}, []
        identities(plan, seen, bad)
        seen2, bad2 = {}, []
        identities(deep, seen2, bad2)
        ck.expect(not bad2, "deep_copy_shares_alike", {"nodes": bad2})
        ck.expect(not any(seen2.get(k) is v for k, v in seen.items()),
                  "deep_copy_separate", {})
        # Changing one copy does not change the other.
        for n in seen2.values():
            if isinstance(n, optplan.Parameter):
                n.initial_value = 12345.0
            if isinstance(n, VHolder):
                n.label = "changed"
                if n.many is not None:
                    n.many.append(n)
                if n.inner is not None:
                    n.inner.weight = 777.0
        ck.expect(same(graph(plan)[:2], before[:2]), "original_kept", {})
        # Shallow copies: own fields, same referenced nodes.
        n = rnd.choice(g.pool)
        c = copy.copy(n)
        ck.expect(type(c) is type(n) and
                  all(c[f] is n[f] or c[f] == n[f]
                      for f in n._schema.fields), "shallow_copy_equal",
                  {"type": n.type})
        c.name = "renamed"
        ck.expect(n.name != "renamed", "shallow_copy_separate", {})
        ck.event("deep_copies")
        ck.key(tuple(sorted(type(x).__name__ for x in g.pool)))


# The stored format: type name, class, and the values of omitted fields that
# are not simply missing.
STORED_NODES = {
    "function.abs": ("Abs", {}),
    "parametrization.bicubic_levelset": (
        "BicubicLevelSetParametrization", {}),
    "parametrization.composite": ("CompositeParametrization", {}),
    "function.constant": ("Constant", {"value": {"real": 0.0, "imag": 0.0}}),
    "parametrization.cubic": ("CubicParametrization", {}),
    "function.diff_epsilon": ("DiffEpsilon", {}),
    "source.dipole_source": ("DipoleSource", {"normalize_by_sim": False}),
    "function.discrete_penalty": ("DiscretePenalty", {}),
    "function.epsilon": ("Epsilon", {}),
    "function.fabrication_constraint": ("FabricationConstraint", {}),
    "function.fdfd_simulation": ("FdfdSimulation", {}),
    "monitor.field": ("FieldMonitor", {}),
    "source.gaussian_beam": ("GaussianSource", {"normalize_by_sim": False}),
    "function.grating_feature_constraint": (
        "GratingFeatureConstraint", {"boundary_constraint_scale": 2.0}),
    "parametrization.grating": ("GratingParametrization",
                                {"inverted": False}),
    "parametrization.hermite_levelset": (
        "HermiteLevelSetParametrization", {}),
    "overlap.import_field_vector": ("ImportOverlap", {}),
    "initializer.normal": ("NormalInitializer", {}),
    "function.overlap": ("Overlap", {}),
    "function.parameter": ("Parameter", {}),
    "parametrization.direct": ("PixelParametrization", {}),
    "source.plane_wave": ("PlaneWaveSource", {"normalize_by_sim": False}),
    "function.power": ("Power", {}),
    "function.power_comp": ("PowerComp", {}),
    "function.product": ("Product", {}),
    "monitor.simple": ("SimpleMonitor", {}),
    "simulation_space": ("SimulationSpace",
                         {"selection_matrix_type": "direct_lattice"}),
    "function.sum": ("Sum", {"functions": []}),
    "initializer.uniform_random": ("UniformInitializer", {}),
    "em.waveguide_mode": ("WaveguideMode", {}),
    "overlap.waveguide_mode_eig": ("WaveguideModeEigOverlap", {}),
    "source.waveguide_mode_eig": ("WaveguideModeEigSource", {}),
    "overlap.waveguide_mode": ("WaveguideModeOverlap", {}),
    "source.waveguide_mode": ("WaveguideModeSource", {}),
}
STORED_TRANSFORMATIONS = {
    "cont_to_disc_thresholding": ("ContToDiscThresholding", {}),
    "cubic_param.sigmoid_strength": ("CubicParamSigmoidStrength",
                                     {"value": 4.0}),
    "grating_edge_fit_transformation": ("GratingEdgeFitTransformation", {}),
    "hermite_param.fix_borders": ("HermiteParamFixBorder", {}),
    "penalty_optimizer": ("PenaltyTransformation", {}),
    "scipy_optimizer": ("ScipyOptimizerTransformation", {}),
}
STORED_BOUNDARIES = {
    "bloch": ("BlochBoundary", {"bloch_vector": [0.0, 0.0, 0.0]}),
    "pec": ("PecBoundary", {}),
    "pmc": ("PmcBoundary", {}),
}
STORED_EPS = {"gds": ("GdsEps", {}), "gds_mesh": ("GdsMeshEps", {}),
              "parametrization": ("ParamEps", {})}


def _check_stored(ck, obj, want, given):
    name, defaults = want
    ck.expect(type(obj).__name__ == name, "stored_type_name",
              {"got": type(obj).__name__, "want": name})
    for field in type(obj)._fields:
        if field in ("name", "type") or field in given:
            continue
        v = getattr(obj, field)
        if isinstance(v, models.Model):
            v = v.to_native()
        if v == [] and field not in defaults:
            v = None
        w = defaults.get(field)
        ck.expect(v == w and (type(v) is bool) == (type(w) is bool),
                  "omitted_field", {"class": name, "field": field,
                                    "got": repr(v), "want": repr(w)})
        ck.event("omitted_fields")


@family(quick=40, thorough=300)
def stored_format(ck, rng):
    """Plans that were stored earlier keep their meaning."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    kinds = sorted(STORED_NODES)
    rnd.shuffle(kinds)
    nodes = [{"type": t, "name": "n%d" % i} for i, t in enumerate(kinds)]
    tr = sorted(STORED_TRANSFORMATIONS)
    rnd.shuffle(tr)
    par = nodes[kinds.index("parametrization.direct")]["name"]
    steps = [{"name": "t%d" % i, "parametrization": par,
              "transformation": {"type": t}} for i, t in enumerate(tr)]
    space = nodes[kinds.index("simulation_space")]
    bounds = [rnd.choice(sorted(STORED_BOUNDARIES)) for _ in range(6)]
    space["boundary_conditions"] = [{"type": b} for b in bounds]
    eps = [rnd.choice(["gds", "gds_mesh"]) for _ in range(2)]
    space["eps_fg"], space["eps_bg"] = {"type": eps[0]}, {"type": eps[1]}
    space["mesh"] = {"type": "uniform", "dx": 40}
    # A path through the plan, by name, in arbitrary order.
    x = nodes[kinds.index("function.parameter")]
    x["initial_value"] = round(rnd.uniform(-2, 2), 3)
    nodes[kinds.index("function.power")].update(function=x["name"], exp=2)
    nodes[kinds.index("function.sum")]["functions"] = [
        x["name"], nodes[kinds.index("function.power")]["name"]]
    data = {"version": "0.2.3", "nodes": nodes, "transformations": steps}
    with Context():
        plan = optplan.loads(json.dumps(data))
        for n, t in zip(plan.nodes, kinds):
            given = set(nodes[kinds.index(t)])
            ck.expect(n.name == nodes[kinds.index(t)]["name"] and n.type == t,
                      "stored_order", {"type": t})
            _check_stored(ck, n, STORED_NODES[t], given)
            ck.event("stored_nodes")
        for s, t in zip(plan.transformations, tr):
            _check_stored(ck, s.transformation, STORED_TRANSFORMATIONS[t], {})
            ck.expect(s.parametrization is plan.nodes[
                kinds.index("parametrization.direct")],
                "stored_reference", {"type": t})
            ck.event("stored_transformations")
        sp = plan.nodes[kinds.index("simulation_space")]
        for b, t in zip(sp.boundary_conditions, bounds):
            _check_stored(ck, b, STORED_BOUNDARIES[t], {})
            ck.event("stored_details")
        _check_stored(ck, sp.eps_fg, STORED_EPS[eps[0]], {})
        _check_stored(ck, sp.eps_bg, STORED_EPS[eps[1]], {})
        ck.expect(sp.mesh.dx == 40, "stored_mesh", {})
        f = plan.nodes[kinds.index("function.sum")]
        ck.expect(f.functions[1].function is f.functions[0] and
                  f.functions[0].initial_value == x["initial_value"] and
                  f.functions[1].exp == 2, "stored_values", {})
        ck.key(tuple(bounds), tuple(eps), x["initial_value"])
