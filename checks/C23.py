"""C23: reading and plotting the logs of optimization runs."""
import contextlib
import io
import os
import pickle
import random
import re
import shutil
import tempfile

import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
import numpy as np
import yaml

from vlib.core import family
from spins import goos
from spins.invdes.problem_graph import log_tools
from spins.invdes.problem_graph import optplan

RULE = ("random run histories (transformations, start/optimizing/end events, "
        "joined monitors, scalar, complex, list and array data, gaps, "
        "checkpoint files) written as log files in random directory order, "
        "and logs written by goos plans; every query compared with the "
        "written records; specification files and plots compared with the "
        "data they were made from; distinct by history shape")
REQUIRED_EVENTS = ["frames", "rows", "monitor_queries", "single_queries",
                   "iteration_queries", "iteration_in_other_event",
                   "missing_monitor", "joined", "joined_without_iterations",
                   "specs", "spec_conflicts", "fields", "scalars", "plots",
                   "document_pages",
                   "field_images", "summaries", "summary_without_data",
                   "goos_logs", "overlaps", "checkpoints_ignored",
                   "array_fields", "gaps", "skipped_iterations",
                   "iteration_zero", "slices_x", "slices_y", "slices_z",
                   "several_figures"]
LEVEL = "sampling"

OPS = {
    None: lambda x: x,
    "magnitude_squared": lambda x: abs(x)**2,
    "magnitude": abs,
    "phase": lambda x: np.arctan2(np.imag(x), np.real(x)),
    "real": np.real,
    "imag": np.imag,
}


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="c23-")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


class Run:
    """A random history of log records and the oracle's view on it."""

    def __init__(self, ck, rnd, many=False):
        self.rnd = rnd
        self.names = ["t%d" % i for i in range(rnd.randint(1, 4))]
        if rnd.random() < 0.3:
            rnd.shuffle(self.names)
        # Monitors: name -> (kind, shape)
        self.monitors = {}
        for i in range(rnd.randint(6, 18) if many else rnd.randint(1, 5)):
            kind = rnd.choice(["real", "complex", "zero_d", "field", "array"])
            name = rnd.choice(["m%d", "power.%d", "overlap%d", "Mon %d",
                               "sim.Overlap%d"]) % i
            shape = [rnd.randint(1, 3), rnd.randint(1, 4), 1]
            axis = rnd.randrange(3)
            shape[axis], shape[2] = shape[2], shape[axis]
            self.monitors[name] = (kind, tuple(shape))
            if kind in ("field", "array"):
                ck.event("slices_" + "xyz"[axis])
        # Monitors may be missing in some of the logs, and iterations too.
        gaps = rnd.random() < 0.3
        self.records = []
        for t in self.names:
            use = {e: [m for m in self.monitors if rnd.random() < 0.7]
                   for e in ("start", "optimizing", "end")}
            if rnd.random() < 0.7:
                self.add(t, "start", None, use["start"])
            first = 1 if rnd.random() < 0.7 else rnd.choice(
                [0, 0, rnd.randint(2, 30)])
            skip = 3 if rnd.random() < 0.2 else 1
            at = first
            for k in range(rnd.choice([0, 1, 2, 5, 12])):
                mons = use["optimizing"]
                if gaps:
                    mons = [m for m in mons if rnd.random() < 0.7]
                    ck.event("gaps")
                if at == 0:
                    ck.event("iteration_zero")
                self.add(t, "optimizing", at, mons)
                step = rnd.randint(1, skip)
                if step > 1:
                    ck.event("skipped_iterations")
                at += step
            if rnd.random() < 0.7:
                self.add(t, "end", None, use["end"])
        if not self.records:
            self.add(self.names[0], "start", None, list(self.monitors))

    def value(self, kind, shape):
        rnd = self.rnd
        z = lambda: complex(rnd.uniform(-2, 2), rnd.uniform(-2, 2))
        if kind == "real":
            return rnd.uniform(-3, 3)
        if kind == "complex":
            return z()
        if kind == "zero_d":
            return np.array(rnd.uniform(-3, 3))
        field = [np.array([z() for _ in range(int(np.prod(shape)))])
                 .reshape(shape) for _ in range(3)]
        return field if kind == "field" else np.array(field)

    def add(self, trans, state, iteration, mons):
        event = {"state": state}
        if iteration is not None:
            event["iteration"] = iteration
        self.records.append({
            "transformation": trans,
            "event": event,
            "time": "2020-01-01 00:00:00",
            "parametrization": {"vector": np.arange(3.0)},
            "parameters": {"p": self.rnd.uniform(0, 1)},
            "monitor_data": {m: self.value(*self.monitors[m]) for m in mons},
            "log_counter": len(self.records) + 1,
        })

    def write(self, folder):
        """Writes the logs; directory order is not the order of the run."""
        order = list(range(len(self.records)))
        self.rnd.shuffle(order)
        for i in order:
            rec = self.records[i]
            with open(os.path.join(folder, "step%d.pkl" %
                                   rec["log_counter"]), "wb") as fp:
                pickle.dump(rec, fp)
        for t in self.names:
            with open(os.path.join(folder, t + ".chkpt.pkl"), "wb") as fp:
                pickle.dump({"time": "x", "parameters": {},
                             "parametrizations": {}}, fp)
        with open(os.path.join(folder, "optimization_plan.json"), "w") as fp:
            fp.write("{}")

    # Oracle ------------------------------------------------------------
    def data(self, names, event):
        """{transformation: ([values], [iterations])} in order."""
        out = {}
        for t in [r["transformation"] for r in self.records]:
            if t in out:
                continue
            for name in names:
                rows = [r for r in self.records if r["transformation"] == t and
                        r["event"]["state"] == event and
                        name in r["monitor_data"]]
                if rows:
                    out[t] = ([r["monitor_data"][name] for r in rows],
                              [r["event"]["iteration"] for r in rows
                               if "iteration" in r["event"]])
                    break
        return out


def same(a, b):
    if isinstance(b, list):
        return (len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def load(folder):
    return log_tools.create_log_data_frame(log_tools.load_all_logs(folder))


def order(seq):
    return list(dict.fromkeys(seq))


@family(quick=160, thorough=4000, timeout=200)
def queries(ck, rng):
    """Every query over the logs returns what the run wrote."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    run = Run(ck, rnd)
    with scratch() as folder:
        run.write(folder)
        logs = log_tools.load_all_logs(folder)
        ck.expect(len(logs) == len(run.records), "all_logs_loaded",
                  {"got": len(logs), "want": len(run.records)})
        ck.event("checkpoints_ignored", len(run.names))
        df = log_tools.create_log_data_frame(logs)
    ck.event("frames")
    # The frame has one row per log in the order of the run.
    ck.require(len(df) == len(run.records), "row_per_log", {"rows": len(df)})
    for row, rec in zip(df.to_dict("records"), run.records):
        ck.event("rows")
        ck.expect(row["log_counter"] == rec["log_counter"] and
                  row["transformation"] == rec["transformation"] and
                  row["event:state"] == rec["event"]["state"], "row_order",
                  {"row": str(row)})
        ck.expect(row.get("parameters:p") == rec["parameters"]["p"] and
                  same(row["parametrization:vector"],
                       rec["parametrization"]["vector"]), "row_values")
        for m, v in rec["monitor_data"].items():
            ck.expect(same(row["monitor_data:" + m], v), "row_monitor",
                      {"monitor": m})
    mons = list(run.monitors)
    trans = order(r["transformation"] for r in run.records)
    events = order(r["event"]["state"] for r in run.records)
    for _ in range(12):
        names = rnd.sample(mons, rnd.randint(1, min(3, len(mons))))
        if rnd.random() < 0.15:
            names.insert(rnd.randrange(len(names) + 1), "no_such_monitor")
            ck.event("missing_monitor")
        arg = names[0] if len(names) == 1 and rnd.random() < 0.5 else names
        event = rnd.choice(events)
        want = run.data(names, event)
        got = log_tools.get_monitor_data(df, arg, event)
        ck.event("monitor_queries")
        ck.expect(list(got) == list(want), "transformations_found",
                  {"got": list(got), "want": list(want)})
        for t, (vals, its) in want.items():
            if t in got:
                ck.expect(same(list(got[t].data), vals), "monitor_data",
                          {"names": names, "event": event})
                ck.expect([int(x) for x in got[t].iteration] == its,
                          "monitor_iterations",
                          {"got": str(got[t].iteration), "want": its})
        # Single data.
        ev = rnd.choice(events + [None])
        tr = rnd.choice(trans + [None])
        cand = [(t, e) for t in ([tr] if tr else reversed(trans))
                for e in ([ev] if ev else reversed(events))
                if t in run.data(names, e)]
        kw = {}
        if ev:
            kw["event_name"] = ev
        if tr:
            kw["transformation_name"] = tr
        got = log_tools.get_single_monitor_data(df, arg, **kw)
        ck.event("single_queries")
        if not cand:
            ck.expect(len(np.atleast_1d(got)) == 0 or got == [],
                      "no_data_for_missing", {"got": str(got)})
            continue
        vals, its = run.data(names, cand[0][1])[cand[0][0]]
        ck.expect(same(got, vals[-1]), "single_data",
                  {"names": names, "event": ev, "transformation": tr})
        # A particular iteration of the same transformation.
        for t, e in cand:
            if t != cand[0][0]:
                break
            vals, its = run.data(names, e)[t]
            if its:
                j = rnd.randrange(len(its))
                got = log_tools.get_single_monitor_data(
                    df, arg, iteration=its[j], **kw)
                ck.event("iteration_queries")
                if e != cand[0][1]:
                    ck.event("iteration_in_other_event")
                ck.expect(same(got, vals[j]), "single_iteration",
                          {"names": names, "event": e, "transformation": t,
                           "iteration": its[j]})
                break
    # Joined scalars.
    scal = [m for m in mons if run.monitors[m][0] in ("real", "complex",
                                                     "zero_d")]
    for _ in range(6):
        if not scal:
            break
        names = rnd.sample(scal, rnd.randint(1, min(2, len(scal))))
        event = rnd.choice(events)
        op = rnd.choice(list(OPS))
        want = run.data(names, event)
        vals, its, changes = [], [], []
        for v, i in want.values():
            if vals:
                changes.append(len(vals))
            last = its[-1] if its else 0
            its.extend(last + k for k in i)
            vals.extend(v)
        got = log_tools.get_joined_scalar_monitors(df, names, event, op)
        ck.event("joined")
        if len(want) > 1 and not its:
            ck.event("joined_without_iterations")
        ck.expect([int(x) for x in got.iterations] == its, "joined_iterations",
                  {"got": str(got.iterations), "want": its})
        ck.expect(list(got.transformation_changes) == changes,
                  "joined_changes", {"got": str(got.transformation_changes),
                                     "want": changes})
        ck.expect(len(got.data) == len(vals), "joined_length")
        if len(got.data) == len(vals) and vals:
            ck.close(np.array([complex(x) for x in got.data]),
                     np.array([complex(OPS[op](complex(v))) for v in vals]),
                     "joined_data", rtol=1e-12, atol=1e-12,
                     detail={"op": op})
    over = [m for m in order(m for r in run.records
                             for m in r["monitor_data"])
            if "overlap" in m.lower()]
    got = log_tools.get_overlap_monitor_names(df)
    ck.expect(sorted(got) == sorted(over), "overlap_names",
              {"got": got, "want": over})
    ck.event("overlaps")
    ck.key(len(trans), len(events), len(run.records), len(mons))


SINK = {}


class Record(goos.Action):
    """Sets the variable to random values and logs the monitors."""
    node_type = "verif.c23.record"

    def __init__(self, var: goos.Variable, fun: goos.Function,
                 vec: goos.Function, ident: int, n: int) -> None:
        super().__init__(var)
        self._a = (var, fun, vec, ident, n)

    def run(self, plan):
        var, fun, vec, ident, n = self._a
        for k in range(n):
            val = SINK["rnd"].uniform(-2, 2)
            plan.set_var_value(var, val)
            plan.write_event({"state": "optimizing", "iteration": k + 1},
                             [fun, vec])
            SINK["want"].setdefault(ident, []).append(3 * val + 1)


@family(quick=60, thorough=1500, timeout=200)
def goos_logs(ck, rng):
    """Logs written by a goos plan can be read with the same functions."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    n_it = [rnd.randint(1, 4) for _ in range(rnd.randint(1, 3))]
    want = {}
    with scratch() as folder:
        with goos.OptimizationPlan(save_path=folder) as plan:
            x = goos.Variable(rnd.uniform(0.1, 1), name="x")
            f = goos.rename(3 * x + 1, name="obj.f")
            vec = goos.Variable(np.array([1.0, 2.0]), name="v")

            for i, n in enumerate(n_it):
                plan.add_action(Record(x, f, vec, i, n))
            SINK.clear()
            SINK.update(rnd=rnd, want=want)
            plan.run()
        df = load(folder)
    ck.event("goos_logs")
    ck.require(len(df) == sum(n_it), "row_per_log", {"rows": len(df)})
    rows = df.to_dict("records")
    ck.expect([r["log_counter"] for r in rows] ==
              list(range(1, len(rows) + 1)), "row_order")
    flat = [v for vals in want.values() for v in vals]
    ck.close(np.array([float(r["monitor_data:obj.f"]) for r in rows]),
             np.array(flat), "row_monitor", rtol=1e-12)
    ck.expect([r["event:iteration"] for r in rows] ==
              [k + 1 for n in n_it for k in range(n)], "row_iteration")
    if sum(n_it):
        got = log_tools.get_joined_scalar_monitors(df, "obj.f", "optimizing",
                                                   None)
        ck.close(np.array([float(v) for v in got.data]), np.array(flat),
                 "joined_data", rtol=1e-12)
        its, last = [], 0
        for n in n_it:
            its.extend(last + k + 1 for k in range(n))
            last += n
        ck.expect([int(k) for k in got.iterations] == its,
                  "joined_iterations", {"got": str(got.iterations)})
        ck.expect(list(got.transformation_changes) ==
                  [int(k) for k in np.cumsum(n_it)[:-1]], "joined_changes")
    ck.key(tuple(n_it))


def load_spec(ck, name):
    """Loads a monitor specification.

    Known finding: load_from_yml calls yaml.load without a loader, which
    PyYAML 6 refuses (the file counts as a test file by its name, *_spec.py,
    and may not be changed here).
    """
    try:
        return log_tools.load_from_yml(name)
    except TypeError as e:
        if "Loader" not in str(e):
            raise
        ck.fail("yaml_load_without_loader", {"error": str(e)})
    with open(name) as fp:
        return type(log_tools.convert_element_list([]))(
            yaml.safe_load(fp))


@family(quick=150, thorough=4000, timeout=200)
def specifications(ck, rng):
    """Monitor specifications join and store monitors."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    optplan.reset_graph()
    descs, want, conflict = [], {}, None
    for i in range(rnd.randint(1, 7)):
        mon = optplan.SimpleMonitor(name="mon%d" % i,
                                    function=optplan.Parameter(
                                        name="p%d" % i, initial_value=1.0))
        joiner = rnd.choice(["a", "b", "c", "field x", "1"])
        kw = {}
        if joiner in want and rnd.random() < 0.9:
            kw = dict(want[joiner][0])
        else:
            kw["monitor_type"] = rnd.choice(["scalar", "planar", "volume"])
            if rnd.random() < 0.6:
                kw["scalar_operation"] = rnd.choice([k for k in OPS if k])
            if rnd.random() < 0.6:
                kw["vector_operation"] = rnd.choice(["magnitude", "x", "y",
                                                     "z"])
        if joiner in want:
            if kw != want[joiner][0]:
                conflict = joiner
            want[joiner][1].append(mon.name)
        else:
            want[joiner] = (kw, [mon.name])
        descs.append(log_tools.MonitorDescription(monitor=mon,
                                                  joiner_id=joiner, **kw))
    if conflict:
        ck.event("spec_conflicts")
        ck.raises(ValueError, lambda: log_tools.convert_element_list(descs),
                  "inconsistent_rejected", {"joiner": conflict})
        ck.key("conflict", len(descs))
        return
    joined = log_tools.convert_element_list(descs)
    with scratch() as folder:
        name = os.path.join(folder, "spec.yml")
        log_tools.save_to_yml(joined, name)
        loaded = load_spec(ck, name)
    for spec in (joined, loaded):
        ck.event("specs")
        got = {}
        for m in spec.monitor_list:
            kw = {k: getattr(m, k) for k in ("monitor_type",
                                             "scalar_operation",
                                             "vector_operation")
                  if getattr(m, k) is not None}
            got[m.joiner_id] = (kw, list(m.monitor_names))
        ck.expect(got == want, "specification", {"got": str(got),
                                                 "want": str(want)})
        ck.expect([m.joiner_id for m in spec.monitor_list] == list(want),
                  "specification_order")
        for j in want:
            m = log_tools.get_joined_monitor_description(spec, j)
            ck.expect(m is not None and m.joiner_id == j, "find_joiner")
        by_type = log_tools.get_monitors_by_type(None, spec)
        for typ, attr in (("scalar", "scalars"), ("planar", "planars"),
                          ("volume", "volumes")):
            ck.expect([m.joiner_id
                       for m in getattr(by_type, attr).monitor_list] ==
                      [j for j in want if want[j][0]["monitor_type"] == typ],
                      "by_type", {"type": typ})
    for typ in (None, "scalar", "planar", "volume"):
        got = log_tools.get_monitor_objects(descs, typ)
        ck.expect([m.name for m in got] ==
                  [d.monitor.name for d in descs
                   if typ is None or d.monitor_type == typ], "monitor_objects")
    # Written by hand without joiner id.
    with scratch() as folder:
        name = os.path.join(folder, "spec.yml")
        with open(name, "w") as fp:
            fp.write("monitor_list:\n- monitor_names: [first, second]\n"
                     "  monitor_type: planar\n")
        m = load_spec(ck, name).monitor_list[0]
    ck.expect(m.joiner_id == "first" and
              list(m.monitor_names) == ["first", "second"], "default_joiner")
    ck.key(len(descs), len(want))


def field_oracle(field, vec, scal):
    if vec in (None, "magnitude"):
        out = np.sqrt(sum(abs(np.asarray(f))**2 for f in field))
    else:
        out = np.asarray(field["xyz".index(vec)])
    return OPS[scal](out)


@family(quick=150, thorough=4000, timeout=200)
def processing(ck, rng):
    """Scalar and vector operations on monitor data."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    shape = tuple(int(k) for k in rng.integers(1, 5, size=3))
    field = [rng.normal(size=shape) + 1j * rng.normal(size=shape)
             for _ in range(3)]
    if rnd.random() < 0.5:
        field = np.array(field)
    for vec in (None, "magnitude", "x", "y", "z", "X"):
        for scal in OPS:
            keep = np.array(field)
            got = log_tools.process_field(field, vector_operation=vec,
                                          scalar_operation=scal)
            ck.event("fields")
            ck.close(got, field_oracle(field, vec and vec.lower(), scal),
                     "field_operation", rtol=1e-12, atol=1e-13,
                     detail={"vec": vec, "scal": scal})
            ck.expect(bool(np.all(np.array(field) == keep)),
                      "field_unchanged")
    z = rng.normal(size=4) + 1j * rng.normal(size=4)
    for scal in OPS:
        for data in (list(z), z, complex(z[0]), float(z[0].real)):
            got = log_tools.process_scalar(data, scal)
            ck.event("scalars")
            ck.close(np.asarray(got), np.asarray(OPS[scal](np.asarray(data))),
                     "scalar_operation", rtol=1e-12, atol=1e-13,
                     detail={"scal": scal})
    ck.raises(ValueError, lambda: log_tools.process_scalar(1.0, "nonsense"),
              "unknown_scalar_operation")
    ck.raises(ValueError, lambda: log_tools.process_field(field, "nonsense"),
              "unknown_vector_operation")
    ck.key(shape)


def title_value(title):
    return title.split(":")[-1].strip()


@family(quick=32, thorough=500, timeout=300)
def plots(ck, rng):
    """Figures and summaries show the logged data."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    run = Run(ck, rnd, many=rnd.random() < 0.25)
    with scratch() as folder:
        run.write(folder)
        df = load(folder)
    scal = [m for m in run.monitors if run.monitors[m][0] in
            ("real", "complex", "zero_d")]
    fields = [m for m in run.monitors if run.monitors[m][0] in
              ("field", "array")]
    desc = []
    for m in list(run.monitors) + ["nowhere"]:
        kw = {"monitor_names": [m], "joiner_id": "j " + m}
        if m in fields:
            kw["monitor_type"] = "planar"
            kw["vector_operation"] = rnd.choice([None, "magnitude", "x", "y"])
            kw["scalar_operation"] = rnd.choice(["magnitude", "real", "imag",
                                                 "magnitude_squared"])
        else:
            kw["monitor_type"] = "scalar"
            kw["scalar_operation"] = rnd.choice(list(OPS))
        desc.append(log_tools.JoinedMonitorDescription(**kw))
    spec = log_tools.MonitorDescriptionList(monitor_list=desc)
    sdesc = [d for d in desc if d.monitor_type == "scalar"]
    fdesc = [d for d in desc if d.monitor_type == "planar"]

    # Scalar plots.
    figures = 0
    for same_plt in (False, True):
        plt.close("all")
        log_tools.plot_scalar_monitors(
            log_tools.MonitorDescriptionList(monitor_list=sdesc), df,
            same_plt=same_plt, show=False)
        axes = [a for k in plt.get_fignums() for a in plt.figure(k).axes]
        if not same_plt:
            figures += len(plt.get_fignums())
            if len(plt.get_fignums()) > 1:
                ck.event("several_figures")
        ck.event("plots")
        ck.require(len(axes) == (1 if same_plt else len(sdesc)),
                   "one_axes_per_monitor", {"axes": len(axes)})
        for k, d in enumerate(sdesc):
            want = run.data(d.monitor_names, "optimizing")
            op = OPS[d.scalar_operation or "real"]
            ys, xs, changes = [], [], []
            for v, i in want.values():
                if ys:
                    changes.append(len(ys))
                last = xs[-1] if xs else 0
                xs.extend(last + q for q in i)
                ys.extend(float(op(complex(q))) for q in v)
            ax = axes[0] if same_plt else axes[k]
            lines = [l for l in ax.lines if l.get_label() == d.joiner_id]
            ck.require(len(lines) == 1, "line_per_monitor",
                       {"labels": [l.get_label() for l in ax.lines]})
            gx, gy = lines[0].get_data()
            ck.expect([int(q) for q in gx] == xs, "plotted_iterations",
                      {"got": str(gx), "want": xs})
            ck.close(np.array(gy, dtype=float), np.array(ys), "plotted_data",
                     rtol=1e-12, atol=1e-12)
            if not same_plt:
                marks = sorted(float(l.get_xdata()[0]) for l in ax.lines
                               if l is not lines[0])
                if all(w[1] == list(range(1, len(w[1]) + 1))
                       for w in want.values()):
                    ck.expect(marks == [float(c) for c in changes],
                              "transformation_marks",
                              {"got": marks, "want": changes})
                t = ax.get_title()
                ck.expect(t.startswith(d.joiner_id) and
                          (title_value(t) == "{:1.4E}".format(ys[-1])
                           if ys else "No iteration data" in t), "plot_title",
                          {"title": t})
    # Field plots.
    plt.close("all")
    bad = [d for d in fdesc
           if sorted(run.monitors[d.monitor_names[0]][1])[1] < 2]
    good = [d for d in fdesc if d not in bad]
    if good:
        log_tools.plot_field_data(
            log_tools.MonitorDescriptionList(monitor_list=good), df,
            show=False)
        figures += len(plt.get_fignums())
        axes = [a for k in plt.get_fignums() for a in plt.figure(k).axes]
        # An axes and a colour bar for every image, one axes without data.
        blank = [a for a in axes if not a.get_title() and not a.images and
                 not a.get_label().startswith("<colorbar") and
                 not a.collections]
        ck.expect(not blank, "no_empty_axes", {"axes": len(axes)})
        trans = order(r["transformation"] for r in run.records)
        events = order(r["event"]["state"] for r in run.records)
        for d in good:
            ax = [a for a in axes if a.get_title().startswith(d.joiner_id)]
            ck.require(len(ax) == 1, "axes_per_field",
                       {"titles": [a.get_title() for a in axes]})
            found = [run.data(d.monitor_names, e)[t][0][-1]
                     for t in reversed(trans) for e in reversed(events)
                     if t in run.data(d.monitor_names, e)]
            if not found:
                ck.expect("No field data" in ax[0].get_title() and
                          not ax[0].images, "no_field_data")
                continue
            if isinstance(found[0], np.ndarray):
                ck.event("array_fields")
            ck.event("field_images")
            img = np.asarray(ax[0].images[0].get_array())
            want = field_oracle(found[0], d.vector_operation,
                                d.scalar_operation)
            flat = run.monitors[d.monitor_names[0]][1].index(1)
            want = np.take(want, 0, axis=flat).T
            ck.close(img, want, "field_image", rtol=1e-6, atol=1e-9)
    plt.close("all")
    # The multipage document.
    with scratch() as folder:
        name = os.path.join(folder, "out.pdf")
        log_tools.plot_monitor_data(
            df, log_tools.MonitorDescriptionList(monitor_list=sdesc + good),
            filename=name, show=False)
        with open(name, "rb") as fp:
            pages = len(re.findall(rb"/Type\s*/Page\b(?!s)", fp.read()))
        ck.expect(pages == figures, "pages_of_the_document",
                  {"pages": pages, "figures": figures})
        ck.event("document_pages", pages)
    plt.close("all")
    over = [m for m in order(m for r in run.records
                             for m in r["monitor_data"])
            if "overlap" in m.lower() and m in scal]
    if over and all(m in scal for m in log_tools.get_overlap_monitor_names(
            df)):
        log_tools.plot_overlaps(df, show=False)
        lines = {l.get_label(): l.get_ydata()
                 for k in plt.get_fignums() for a in plt.figure(k).axes
                 for l in a.lines}
        for m in over:
            ys = [abs(complex(v))**2
                  for v in sum((w[0] for w in run.data(
                      [m], "optimizing").values()), [])]
            ck.expect(m in lines, "overlap_plotted", {"lines": list(lines)})
            if m in lines:
                ck.close(np.array(lines[m], dtype=float), np.array(ys),
                         "overlap_power", rtol=1e-12, atol=1e-12)
        plt.close("all")
    # Summary.
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        log_tools.display_summary(df, spec)
    text = [l for l in out.getvalue().splitlines() if l]
    ck.event("summaries")
    ck.require(len(text) == len(sdesc), "summary_lines", {"text": text})
    trans = order(r["transformation"] for r in run.records)
    events = order(r["event"]["state"] for r in run.records)
    for line, d in zip(text, sdesc):
        ck.expect(line.startswith(d.joiner_id + ":"), "summary_name",
                  {"line": line})
        found = [run.data(d.monitor_names, e)[t][0][-1]
                 for t in reversed(trans) for e in reversed(events)
                 if t in run.data(d.monitor_names, e)]
        if not found:
            ck.event("summary_without_data")
            continue
        want = complex(OPS[d.scalar_operation](complex(found[0])))
        ck.close(complex(line.split(":")[-1].strip()), want, "summary_value",
                 rtol=1e-4, atol=1e-4, detail={"line": line})
    ck.key(len(sdesc), len(fdesc), len(run.records))
