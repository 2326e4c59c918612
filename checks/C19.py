"""C19: parametrizations describe the structures, derivatives and bounds they
are documented to describe, and their state survives being moved."""
import random

import numpy as np
from scipy.interpolate import CubicHermiteSpline
from scipy.optimize import lsq_linear

from vlib.core import family
from spins.invdes import parametrization as par
from spins.invdes import problem
from spins.invdes.problem_graph import creator_param
from spins.invdes.problem_graph import optplan

RULE = ("random direct, grating, composite (nested), cubic and Hermite "
        "parametrizations: symmetric, periodic, tiled, non-uniform grids, "
        "bounds of every form, driven through long histories of public calls; "
        "oracles: exact interval coverage, scipy Hermite splines on "
        "explicitly mirrored and tiled grids, interval projection, "
        "finite differences; distinct by kind, shape and options")
REQUIRED_EVENTS = ["direct", "direct_bounds", "grating", "inverted",
                   "grating_on_pixel_border", "grating_outside",
                   "grating_empty_tooth", "grating_unsorted", "grating_errors",
                   "composite", "composite_nested", "composite_unbounded",
                   "composite_adjoint", "cubic", "cubic_sigmoid",
                   "cubic_saturated", "cubic_symmetric", "cubic_periodic",
                   "cubic_tiled", "cubic_nonuniform", "cubic_bounds",
                   "cubic_errors", "hermite", "hermite_symmetric",
                   "hermite_tiled", "transfers", "objectives", "initializers",
                   "created", "caller_vectors", "hermite_values",
                   "hermite_projection", "cubic_k_only", "fits",
                   "unprojected_vectors"]


def dense(op, n):
    """Columns of a Jacobian, whatever form it is given in."""
    cols = []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1
        cols.append(np.asarray(op @ e, float).flatten())
    return np.array(cols).T if cols else None


# ------------------------------------------------------------------ direct
def random_bounds(rnd, n):
    """(argument, lower list, upper list)."""
    kind = rnd.choice(["default", "scalar", "none", "lists", "half", "holes",
                       "zero", "equal", "tuple"])
    if kind == "default":
        return kind, "default", [0.0] * n, [1.0] * n
    if kind == "none":
        return kind, None, [None] * n, [None] * n
    if kind == "scalar":
        a, b = sorted([rnd.uniform(-2, 2), rnd.uniform(-2, 2)])
        return kind, [a, b], [a] * n, [b] * n
    if kind == "tuple":
        a, b = sorted([rnd.randint(-3, 3), rnd.randint(-3, 3)])
        return kind, (a, b), [a] * n, [b] * n
    if kind == "zero":
        return kind, [-1, 0], [-1] * n, [0] * n
    if kind == "equal":
        return kind, [0.25, 0.25], [0.25] * n, [0.25] * n
    if kind == "half":
        if rnd.random() < 0.5:
            return kind, [0, None], [0] * n, [None] * n
        return kind, [None, 0], [None] * n, [0] * n
    lo = [rnd.uniform(-2, 0) for _ in range(n)]
    hi = [rnd.uniform(0, 2) for _ in range(n)]
    if kind == "holes":
        lo = [None if rnd.random() < 0.4 else v for v in lo]
        hi = [None if rnd.random() < 0.4 else v for v in hi]
    return kind, [lo, hi], lo, hi


def clip(v, lo, hi):
    return np.array([
        min(max(x, -np.inf if a is None else a), np.inf if b is None else b)
        for x, a, b in zip(v, lo, hi)
    ])


def check_bounds(ck, got, lo, hi, mech, detail):
    ck.expect(len(got) == 2, mech, "get_bounds returned {!r} ({})".format(
        got, detail))
    for name, g, w in [("lower", got[0], lo), ("upper", got[1], hi)]:
        g = list(np.asarray(g, object))
        ok = len(g) == len(w) and all(
            (a is None and b is None) or
            (a is not None and b is not None and float(a) == float(b))
            for a, b in zip(g, w))
        ck.expect(ok, mech, "{} bounds {} expected {} ({})".format(
            name, g[:6], w[:6], detail))


@family(quick=500, thorough=4000, timeout=60)
def direct(ck, gen):
    seed = int(gen.integers(0, 2**31))
    rnd = random.Random(seed)
    rng = np.random.RandomState(seed % 2**32)
    n = rnd.choice([1, 2, 5, 12])
    v = rng.uniform(-2, 2, n)
    if rnd.random() < 0.3:
        v = rng.randint(-2, 3, n)
    kind, arg, lo, hi = random_bounds(rnd, n)
    detail = "n={} bounds={} {}".format(n, kind, arg)
    start = v.copy()
    given = v.tolist() if rnd.random() < 0.3 else v
    p = par.DirectParam(given) if kind == "default" else par.DirectParam(
        given, bounds=arg)
    ck.event("direct")
    if kind not in ("default", "none"):
        ck.event("direct_bounds")
    ck.key(("direct", kind, n))
    ck.close(p.get_structure(), start, "direct structure", rtol=0, atol=0,
             detail=detail)
    check_bounds(ck, p.get_bounds(), lo, hi, "direct bounds", detail)
    ck.close(dense(p.calculate_gradient(), n), np.eye(n), "direct jacobian",
             rtol=0, atol=0, detail=detail)
    cur = start.astype(float)
    for _ in range(8):
        op = rnd.choice(["decode", "project", "from_vector", "roundtrip",
                         "move"])
        if op == "decode":
            w = rng.uniform(-3, 3, n)
            p.decode(w.copy())
            cur = w
        elif op == "project":
            p.project()
            cur = clip(cur, lo, hi)
        elif op == "from_vector":
            w = rng.uniform(-3, 3, n)
            p.from_vector(w.copy())
            cur = clip(w, lo, hi)
        elif op == "roundtrip":
            p.decode(np.array(p.encode()))
        else:
            q = par.DirectParam(np.zeros(n)) if kind == "default" else \
                par.DirectParam(np.zeros(n), bounds=arg)
            p.project()
            cur = clip(cur, lo, hi)
            q.deserialize(p.serialize())
            p = q
            ck.event("transfers")
        ck.close(p.get_structure(), cur, "direct structure", rtol=1e-15,
                 atol=0, detail=detail + " after " + op)
        ck.close(p.to_vector(), cur, "direct vector", rtol=1e-15, atol=0,
                 detail=detail + " after " + op)
    ck.close(start, v, "the initial value was modified", rtol=0, atol=0)


# ----------------------------------------------------------------- grating
def coverage(edges, n, inverted):
    edges = np.sort(np.asarray(edges, float))
    z = np.zeros(n)
    for a, b in zip(edges[0::2], edges[1::2]):
        for i in range(n):
            z[i] += max(0.0, min(b, i + 1) - max(a, i))
    return 1 - z if inverted else z


@family(quick=800, thorough=6000, timeout=60)
def grating(ck, gen):
    seed = int(gen.integers(0, 2**31))
    rnd = random.Random(seed)
    n = rnd.choice([1, 2, 4, 9, 30])
    inverted = rnd.random() < 0.5
    m = 2 * rnd.choice([0, 1, 2, 3, 5])

    def edges():
        mode = rnd.random()
        e = [rnd.uniform(0, n) for _ in range(m)]
        if mode < 0.25:
            e = [float(rnd.randint(0, n)) for _ in range(m)]
            ck.event("grating_on_pixel_border")
        elif mode < 0.45:
            e = [rnd.uniform(-2, n + 2) for _ in range(m)]
            ck.event("grating_outside")
        elif mode < 0.6 and m:
            e = sorted(e)
            k = 2 * rnd.randrange(m // 2)
            e[k + 1] = e[k]
            ck.event("grating_empty_tooth")
        elif mode < 0.7 and n > 1:
            c = rnd.randrange(n)   # everything inside one pixel
            e = [c + rnd.random() for _ in range(m)]
        elif mode < 0.8:
            e = [rnd.choice([-3.0, -1.0, 0.0, float(n), n + 2.5, 0.5])
                 for _ in range(m)]
        if rnd.random() < 0.7:
            e = sorted(e)
        elif e != sorted(e):
            ck.event("grating_unsorted")
        return np.array(e)

    if rnd.random() < 0.1:
        ck.raises(ValueError, lambda: par.GratingParam(
            [rnd.uniform(0, n) for _ in range(m + 1)], num_pixels=n),
                  "odd number of edges accepted")
        ck.event("grating_errors")
    p = par.GratingParam([] if rnd.random() < 0.5 else edges(), num_pixels=n,
                         inverted=inverted)
    ck.event("grating")
    ck.key(("grating", n, m, inverted))
    if inverted:
        ck.event("inverted")
    for _ in range(4):
        e = edges()
        given = e.copy()
        (p.decode if rnd.random() < 0.5 else p.from_vector)(given)
        ck.expect(np.array_equal(given, e), "the vector of the caller changed",
                  "{} became {}".format(e, given))
        ck.event("caller_vectors")
        e = np.sort(e)
        detail = "edges {} pixels {} inverted {}".format(e, n, inverted)
        ck.close(p.get_structure(), coverage(e, n, inverted),
                 "grating structure", rtol=0, atol=1e-9, detail=detail)
        ck.close(p.encode(), e, "grating vector", rtol=0, atol=0,
                 detail=detail)
        # Documented convention: forward derivative, with respect to each edge.
        if m:
            want = np.zeros((n, m))
            for j, x in enumerate(e):
                if 0 <= x < n:
                    want[int(np.floor(x)), j] = (-1 if j % 2 == 0 else 1) * (
                        -1 if inverted else 1)
            J = p.calculate_gradient()
            ck.close(dense(J, m), want, "grating jacobian", rtol=0, atol=0,
                     detail=detail)
            u = np.random.RandomState(seed % 2**32).uniform(-1, 1, n)
            ck.close(u @ J, u @ want, "grating jacobian", rtol=1e-12,
                     atol=1e-12, detail=detail)
        if rnd.random() < 0.5:
            q = par.GratingParam([], num_pixels=n, inverted=not inverted)
            q.deserialize(p.serialize())
            ck.event("transfers")
            p = q
            ck.close(p.get_structure(), coverage(e, n, inverted),
                     "grating structure after moving its state", rtol=0,
                     atol=1e-9, detail=detail)


# --------------------------------------------------------------- composite
def make_composite(ck, rnd, rng, depth):
    """(parametrization, oracle) where the oracle maps a flat vector to
    (z, projected vector, lower, upper, number of entries)."""
    r = rnd.random()
    if depth > 0 and r < 0.6:
        parts = [make_composite(ck, rnd, rng, depth - 1)
                 for _ in range(rnd.randint(1, 3))]
        sizes = [o["n"] for _, o in parts]

        def split(v):
            return np.split(np.asarray(v, float), np.cumsum(sizes)[:-1])

        oracle = {
            "n": sum(sizes),
            "z": lambda v: np.concatenate(
                [o["z"](s) for (_, o), s in zip(parts, split(v))]),
            "project": lambda v: np.concatenate(
                [o["project"](s) for (_, o), s in zip(parts, split(v))]),
            "canon": lambda v: np.concatenate(
                [o["canon"](s) for (_, o), s in zip(parts, split(v))]),
            "lo": sum([o["lo"] for _, o in parts], []),
            "hi": sum([o["hi"] for _, o in parts], []),
            "draw": lambda: np.concatenate([o["draw"]() for _, o in parts]),
            "jac": lambda v: block(
                [o["jac"](s) for (_, o), s in zip(parts, split(v))]),
            "make": lambda: par.CompositeParam(
                [o["make"]() for _, o in parts]),
            "nested": any("nested" in o for _, o in parts),
        }
        oracle["depth"] = 1 + max(o.get("depth", 0) for _, o in parts)
        return par.CompositeParam([p for p, _ in parts]), oracle
    if r < 0.8:
        n = rnd.randint(1, 5)
        kind, arg, lo, hi = random_bounds(rnd, n)
        if rnd.random() < 0.3:
            arg, lo, hi, kind = None, [None] * n, [None] * n, "none"

        def make():
            return par.DirectParam(np.zeros(n)) if kind == "default" else \
                par.DirectParam(np.zeros(n), bounds=arg)

        return make(), {
            "n": n, "z": lambda v: np.array(v, float),
            "project": lambda v: clip(v, lo, hi), "canon": lambda v: v,
            "lo": lo, "hi": hi, "draw": lambda: rng.uniform(-3, 3, n),
            "jac": lambda v: np.eye(n), "make": make}
    n = rnd.randint(2, 8)
    m = 2 * rnd.randint(1, 3)
    inv = rnd.random() < 0.5

    def jac(v):
        v = np.sort(v)
        want = np.zeros((n, m))
        for j, x in enumerate(v):
            if 0 <= x < n:
                want[int(np.floor(x)), j] = (-1 if j % 2 == 0 else 1) * (
                    -1 if inv else 1)
        return want

    def make():
        return par.GratingParam(np.arange(m) * 0.5, num_pixels=n, inverted=inv)

    ck.event("composite_unbounded")
    return make(), {
        "n": m, "z": lambda v: coverage(v, n, inv), "project": np.sort,
        "canon": np.sort, "lo": [None] * m, "hi": [None] * m,
        "draw": lambda: np.sort(rng.uniform(-0.5, n + 0.5, m)),
        "jac": jac, "make": make}


def block(mats):
    out = np.zeros((sum(m.shape[0] for m in mats),
                    sum(m.shape[1] for m in mats)))
    r = c = 0
    for m in mats:
        out[r:r + m.shape[0], c:c + m.shape[1]] = m
        r += m.shape[0]
        c += m.shape[1]
    return out


@family(quick=500, thorough=4000, timeout=60)
def composite(ck, gen):
    seed = int(gen.integers(0, 2**31))
    rnd = random.Random(seed)
    rng = np.random.RandomState(seed % 2**32)
    while True:
        p, o = make_composite(ck, rnd, rng, rnd.randint(1, 3))
        if "depth" in o:
            break
    ck.event("composite")
    if o["depth"] > 1:
        ck.event("composite_nested")
    ck.key(("composite", o["n"], o["depth"]))
    detail = "composite of {} entries, depth {}".format(o["n"], o["depth"])
    check_bounds(ck, p.get_bounds(), o["lo"], o["hi"], "composite bounds",
                 detail)
    cur = o["draw"]()
    p.decode(cur.copy())
    for _ in range(5):
        op = rnd.choice(["decode", "project", "from_vector", "move"])
        if op == "decode":
            cur = o["draw"]()
            p.decode(cur.copy())
        elif op == "project":
            p.project()
            cur = o["project"](cur)
        elif op == "from_vector":
            raw = o["draw"]()
            given = raw.copy()
            p.from_vector(given)
            cur = o["project"](raw)
            ck.expect(np.array_equal(given, raw),
                      "the vector of the caller changed", detail)
            ck.event("unprojected_vectors")
        else:
            p.project()
            cur = o["project"](cur)
            q = o["make"]()
            data = p.serialize()
            # Restored dictionaries need not keep the order of the entries.
            if rnd.random() < 0.5:
                keys = list(data)
                rnd.shuffle(keys)
                data = {k: data[k] for k in keys}
            q.deserialize(data)
            p = q
            ck.event("transfers")
        ck.close(p.encode(), o["canon"](cur), "composite vector", rtol=1e-15,
                 atol=0, detail=detail + " after " + op)
        ck.close(p.get_structure(), o["z"](cur), "composite structure",
                 rtol=0, atol=1e-9, detail=detail + " after " + op)
        want = o["jac"](cur)
        J = p.calculate_gradient()
        ck.close(dense(J, o["n"]), want, "composite jacobian", rtol=0,
                 atol=1e-12, detail=detail)
        u = rng.uniform(-1, 1, want.shape[0])
        ck.close(u @ J, u @ want, "composite adjoint", rtol=1e-12, atol=1e-12,
                 detail=detail)
        ck.event("composite_adjoint")
        # What an optimizer asks for.
        w = rng.uniform(-1, 1, want.shape[0])
        f = Quadratic(w)
        z = o["z"](cur)
        obj = problem.OptimizationProblem(f)
        ck.close(obj.calculate_objective_function(p), float(np.sum(w * z**2)),
                 "objective on a composite", rtol=1e-9, atol=1e-9)
        ck.close(obj.calculate_gradient(p), (2 * w * z) @ want,
                 "objective gradient on a composite", rtol=1e-9, atol=1e-7,
                 detail=detail)
        ck.event("objectives")


class Quadratic(problem.OptimizationFunction):

    def __init__(self, w):
        super().__init__(problem.Variable(len(w)))
        self.w = w

    def eval(self, x):
        return float(np.sum(self.w * x[0]**2))

    def grad(self, x, g):
        return [g * 2 * self.w * x[0]]


# ------------------------------------------------------------- cubic grids
def axis_map(n, sym, periodic, periods):
    """For one axis: (number of free values, index of the free value at each
    of the n grid points, sign of the derivative there)."""
    N = n - 1 if periodic else n
    unit = N // periods if periods else N
    if sym and periods:
        L = unit + 1              # both ends of a unit cell are the same point
    else:
        L = unit
    idx = list(range(L))
    sgn = [1.0] * L
    if sym:
        half = (L + 1) // 2
        for i in range(L):
            if i >= half:
                idx[i] = L - 1 - i
                sgn[i] = -1.0
        if L % 2:
            sgn[L // 2] = 0.0
        free = half
    else:
        free = L
    idx, sgn = idx[:unit], sgn[:unit]
    if periods:
        idx, sgn = idx * periods, sgn * periods
    if periodic:
        idx, sgn = idx + idx[:1], sgn + sgn[:1]
    return free, np.array(idx), np.array(sgn)


def derivative(x, f, periodic):
    """Three point derivative along the first axis."""
    x = np.asarray(x, float)
    if periodic:
        L = x[-1] - x[0]
        xe = np.concatenate([[x[-2] - L], x, [x[1] + L]])
        fe = np.concatenate([f[-2:-1], f, f[1:2]])
        return np.gradient(fe, xe, axis=0, edge_order=2)[1:-1]
    return np.gradient(f, x, axis=0, edge_order=2)


def interp(xc, xf, f, periodic):
    """Cubic Hermite interpolation along the first axis."""
    return CubicHermiteSpline(xc, f, derivative(xc, f, periodic), axis=0)(xf)


def spline2(cx, cy, fx, fy, f, per):
    g = interp(cx, fx, f, per[0])
    return interp(cy, fy, g.T, per[1]).T


def random_axis(ck, rnd, allow_nonuniform=True):
    """(coarse, fine, sym, periodic, periods)"""
    sym = rnd.random() < 0.4
    periods = rnd.choice([0, 0, 0, 1, 2, 3])
    periodic = bool(periods) or (not sym and rnd.random() < 0.25)
    if periods:
        unit = rnd.randint(2, 5)
        if sym:
            unit = rnd.choice([2, 3, 4, 5])
        n = unit * periods + 1
        if n < 4:
            n = periods * 4 + 1
    else:
        n = rnd.randint(4, 8)
    h = rnd.choice([1.0, 2.0, 3.5, 40.0])
    coarse = (np.arange(n) - (n - 1) / 2) * h
    uniform = True
    if allow_nonuniform and not periods and rnd.random() < 0.35:
        d = np.array([rnd.uniform(0.5, 1.5) for _ in range(n - 1)]) * h
        if sym:
            d = (d + d[::-1]) / 2
        coarse = np.concatenate([[0], np.cumsum(d)])
        coarse -= coarse[-1] / 2
        uniform = False
        ck.event("cubic_nonuniform")
    m = rnd.randint(3, 14)
    mode = rnd.random()
    a, b = coarse[0], coarse[-1]
    if mode < 0.3:
        fine = np.linspace(a, b, m)
    elif mode < 0.4:
        fine = coarse.copy()
    elif mode < 0.7:
        fine = np.linspace(a * 0.8, b * 0.8, m)
    else:
        fine = np.sort([rnd.uniform(a, b) for _ in range(m)])
        if sym:
            fine = (fine - fine[::-1]) / 2
        fine = np.unique(fine)
    fine = np.clip(fine, a, b)
    return coarse, fine, sym, periodic, periods, uniform


def flags(kind, values):
    return {"array": lambda: np.array(values), "list": lambda: list(values),
            "int": lambda: np.array([int(v) for v in values])}[kind]()


@family(quick=500, thorough=3000, timeout=90)
def cubic(ck, gen):
    seed = int(gen.integers(0, 2**31))
    rnd = random.Random(seed)
    rng = np.random.RandomState(seed % 2**32)
    cx, fx, sx, qx, px, _ = random_axis(ck, rnd)
    cy, fy, sy, qy, py, _ = random_axis(ck, rnd)
    ax, ay = axis_map(len(cx), sx, qx, px), axis_map(len(cy), sy, qy, py)
    nfree = ax[0] * ay[0]
    detail = "coarse {}x{} fine {}x{} sym {} per {} periods {}".format(
        len(cx), len(cy), len(fx), len(fy), (sx, sy), (qx, qy), (px, py))
    ck.key(("cubic", len(cx), len(cy), sx, sy, qx, qy, px, py))
    kw = dict(symmetry=flags("int", [sx, sy]),
              periodicity=flags(rnd.choice(["int", "list"]), [qx, qy]),
              periods=flags("int", [px, py]))
    if not (sx or sy) and rnd.random() < 0.5:
        del kw["symmetry"]
    if not (qx or qy) and not (px or py) and rnd.random() < 0.5:
        del kw["periodicity"], kw["periods"]

    def expand(v):
        return np.asarray(v).reshape((ax[0], ay[0]), order="F")[np.ix_(
            ax[1], ay[1])]

    def smooth(v):
        return spline2(cx, cy, fx, fy, expand(v), (qx, qy)).flatten(order="F")

    cur = rng.uniform(0, 1, nfree)
    how = rnd.choice(["scalar", "free", "full"])
    if how == "scalar":
        c = rnd.choice([0.5, 1, 0, 0.3])
        p = par.CubicParam(c, cx, cy, fx, fy, **kw)
        cur = np.full(nfree, float(c))
    elif how == "free":
        p = par.CubicParam(cur.copy(), cx, cy, fx, fy, **kw)
    else:
        p = par.CubicParam(expand(cur).flatten(order="F"), cx, cy, fx, fy,
                           **kw)
    ck.event("cubic")
    if sx or sy:
        ck.event("cubic_symmetric")
    if qx or qy:
        ck.event("cubic_periodic")
    if px > 1 or py > 1:
        ck.event("cubic_tiled")
    ck.close(p.encode(), cur, "cubic initial value", rtol=1e-12, atol=1e-12,
             detail=detail + " given as " + how)
    # The interpolation, without and with the sigmoid.
    for _ in range(3):
        cur = rng.uniform(-0.2, 1.2, nfree)
        k = rnd.choice([0, 4, 1, 25, 4000.0, 0.5])
        p.set_k(k)
        p.decode(cur.copy())
        s = smooth(cur)
        z = s if k == 0 else 0.5 * (1 + np.tanh(k * (2 * s - 1) / 2))
        ck.close(p.get_structure(), z, "cubic structure", rtol=1e-7,
                 atol=1e-9 * max(1, k), detail=detail + " k={}".format(k))
        u = rng.uniform(-1, 1, len(s))
        J = p.calculate_gradient()
        # s is linear in the values.
        e = rng.uniform(-1, 1, nfree)
        lin = smooth(e)
        slope = 1.0 if k == 0 else 2 * k * z * (1 - z)
        ck.close(J @ e, slope * lin, "cubic derivative", rtol=1e-6,
                 atol=1e-7 * max(1, k)**2, detail=detail + " k={}".format(k))
        ck.close(u @ (J @ e), (u @ J) @ e, "cubic derivative", rtol=1e-8,
                 atol=1e-9 * max(1, k), detail=detail)
        if k:
            ck.event("cubic_sigmoid")
        if k > 1000:
            ck.event("cubic_saturated")
        # The slope of the sigmoid alone changes.
        k2 = rnd.choice([2.0, 8, 4])
        p.set_k(k2)
        z2 = 0.5 * (1 + np.tanh(k2 * (2 * s - 1) / 2))
        ck.close(p.get_structure(), z2, "cubic structure", rtol=1e-7,
                 atol=1e-9 * k2, detail=detail + " new slope")
        ck.close(p.calculate_gradient() @ e, 2 * k2 * z2 * (1 - z2) * lin,
                 "cubic derivative", rtol=1e-6, atol=1e-7 * k2**2,
                 detail=detail + " new slope")
        p.set_k(k)
        ck.event("cubic_k_only")
        Z = p.get_structure().reshape((len(fx), len(fy)), order="F")
        if sx and np.allclose(fx, -fx[::-1], atol=1e-12) and not px and \
                np.allclose(cx, -cx[::-1], atol=1e-12):
            ck.close(Z, Z[::-1], "reflection symmetry", rtol=0,
                     atol=1e-8 * max(1, k), detail=detail)
        if sy and np.allclose(fy, -fy[::-1], atol=1e-12) and not py and \
                np.allclose(cy, -cy[::-1], atol=1e-12):
            ck.close(Z, Z[:, ::-1], "reflection symmetry", rtol=0,
                     atol=1e-8 * max(1, k), detail=detail)
    # State moves to a fresh parametrization.
    p.project()
    q = par.CubicParam(0.5, cx, cy, fx, fy, **kw)
    q.deserialize(p.serialize())
    ck.event("transfers")
    ck.close(q.get_structure(), p.get_structure(), "moved state", rtol=0,
             atol=0, detail=detail)
    ck.close(q.encode(), p.encode(), "moved state", rtol=0, atol=0,
             detail=detail)
    # Bounds.
    kind, arg, lo, hi = random_bounds(rnd, nfree)
    if kind == "default":
        p = par.CubicParam(cur.copy(), cx, cy, fx, fy, **kw)
    elif kind == "none":
        p = par.CubicParam(cur.copy(), cx, cy, fx, fy, lower_bound=None,
                           upper_bound=None, **kw)
    elif rnd.random() < 0.5:
        p = par.CubicParam(cur.copy(), cx, cy, fx, fy, bounds=arg, **kw)
    else:
        p = par.CubicParam(cur.copy(), cx, cy, fx, fy, lower_bound=arg[0],
                           upper_bound=arg[1], **kw)
    ck.event("cubic_bounds")
    check_bounds(ck, p.get_bounds(), lo, hi, "cubic bounds",
                 detail + " bounds " + kind)
    w = rng.uniform(-3, 3, nfree)
    p.from_vector(w.copy())
    ck.close(p.to_vector(), clip(w, lo, hi), "cubic projection", rtol=1e-15,
             atol=0, detail=detail + " bounds " + kind)
    p.project()
    ck.close(p.to_vector(), clip(w, lo, hi), "cubic projection", rtol=1e-15,
             atol=0, detail=detail + " bounds " + kind)
    # Errors.
    if rnd.random() < 0.3:
        ck.event("cubic_errors")
        bad = nfree + len(cx) * len(cy) + 1
        ck.raises(ValueError, lambda: par.CubicParam(
            np.zeros(bad), cx, cy, fx, fy, **kw), "wrong number of values")
        ck.raises(ValueError, lambda: par.CubicParam(
            0.5, cx, cy, np.concatenate([fx, [cx[-1] * 1.1 + 1]]), fy, **kw),
                  "fine grid outside the coarse grid")


@family(quick=250, thorough=1500, timeout=90)
def hermite(ck, gen):
    seed = int(gen.integers(0, 2**31))
    rnd = random.Random(seed)
    rng = np.random.RandomState(seed % 2**32)

    def axis():
        while True:
            a = random_axis(ck, rnd)
            sym, periodic, periods = a[2:5]
            # A periodic grid without repetitions, and a symmetric cell that
            # is not repeated, have no documented derivative convention.
            if periodic and not periods:
                continue
            if sym and periods:
                continue
            if len(a[1]) < 2:
                continue
            return a

    cx, fx, sx, qx, px, _ = axis()
    cy, fy, sy, qy, py, _ = axis()
    ax, ay = axis_map(len(cx), sx, qx, px), axis_map(len(cy), sy, qy, py)
    nfree = ax[0] * ay[0]
    scale = rnd.choice([1.75, 1.0, 3.0])
    detail = "hermite {}x{} sym {} per {} periods {}".format(
        len(cx), len(cy), (sx, sy), (qx, qy), (px, py))
    ck.key(("hermite", len(cx), len(cy), sx, sy, px, py))
    kw = dict(symmetry=np.array([int(sx), int(sy)]),
              periodicity=np.array([int(qx), int(qy)]),
              periods=np.array([px, py]), scale=scale)
    p = par.HermiteParam(rng.uniform(0, 1, 4 * nfree), cx, cy, fx, fy, **kw)
    ck.event("hermite")
    if sx or sy:
        ck.event("hermite_symmetric")
    if px or py:
        ck.event("hermite_tiled")
    d1 = scale * np.diff(fx).mean()

    def smooth(v):
        parts = np.asarray(v).reshape((4, -1))
        full = []
        for c, part in enumerate(parts):
            g = part.reshape((ax[0], ay[0]), order="F")[np.ix_(ax[1], ay[1])]
            if c in (1, 3):
                g = g * ax[2][:, None]
            if c in (2, 3):
                g = g * ay[2][None, :]
            full.append(g)
        f, gx, gy, gxy = (full[0], full[1] / d1, full[2] / d1,
                          full[3] / d1**2)
        a = CubicHermiteSpline(cx, f, gx, axis=0)(fx)
        b = CubicHermiteSpline(cx, gy, gxy, axis=0)(fx)
        return CubicHermiteSpline(cy, a.T, b.T, axis=0)(fy).T.flatten(
            order="F")

    for _ in range(3):
        k = rnd.choice([4, 1, 25, 4000.0])
        cur = rng.uniform(-0.2, 1.2, 4 * nfree)
        p.set_k(k)
        p.decode(cur.copy())
        s = smooth(cur)
        z = 0.5 * (1 + np.tanh(k * (2 * s - 1) / 2))
        size = np.max(np.abs(s)) + 1
        ck.close(p.get_structure(), z, "hermite structure", rtol=1e-7,
                 atol=1e-9 * k * size, detail=detail)
        e = rng.uniform(-1, 1, 4 * nfree)
        lin = smooth(e)
        J = p.calculate_gradient()
        ck.close(J @ e, 2 * k * z * (1 - z) * lin, "hermite derivative",
                 rtol=1e-6, atol=1e-7 * k**2 * size * (np.max(np.abs(lin)) +
                                                       1), detail=detail)
        if k > 1000:
            ck.event("cubic_saturated")
    q = par.HermiteParam(0.5, cx, cy, fx, fy, **kw)
    q.deserialize(p.serialize())
    ck.event("transfers")
    ck.close(q.get_structure(), p.get_structure(), "moved state", rtol=0,
             atol=0, detail=detail)
    # Bounds hold for every entry.
    lo, hi = sorted([rnd.uniform(-1, 1), rnd.uniform(-1, 1)])
    b = par.HermiteParam(0.5, cx, cy, fx, fy, bounds=[lo, hi], **kw) if (
        rnd.random() < 0.5) else par.HermiteParam(
            0.5, cx, cy, fx, fy, lower_bound=lo, upper_bound=hi, **kw)
    w = rng.uniform(-2, 2, 4 * nfree)
    b.from_vector(w.copy())
    ck.event("hermite_projection")
    ck.close(b.to_vector(), np.clip(w, lo, hi), "hermite projection",
             rtol=1e-15, atol=0, detail=detail)
    # All values of the grid, with their symmetric and repeated copies.
    full = []
    for c, part in enumerate(cur.reshape((4, -1))):
        g = part.reshape((ax[0], ay[0]), order="F")[np.ix_(ax[1], ay[1])]
        if c in (1, 3):
            g = g * ax[2][:, None]
        if c in (2, 3):
            g = g * ay[2][None, :]
        full.append(g.flatten(order="F"))
    for how in ("decode", "init"):
        if how == "decode":
            q.decode(np.concatenate(full))
        else:
            q = par.HermiteParam(np.concatenate(full), cx, cy, fx, fy, **kw)
        q.set_k(k)
        ck.event("hermite_values")
        ck.close(q.get_structure(), z, "hermite structure from all values",
                 rtol=1e-7, atol=1e-9 * k * size, detail=detail + " " + how)
    # Values on the coarse grid alone: derivatives follow from them.
    if not (sx or sy or qx or qy):
        vals = rng.uniform(0, 1, len(cx) * len(cy))
        q = par.HermiteParam(vals, cx, cy, fx, fy, **kw)
        s = spline2(cx, cy, fx, fy, vals.reshape((len(cx), len(cy)),
                                                 order="F"), (qx, qy))
        s = s.flatten(order="F")
        ck.close(q.get_structure(), 0.5 * (1 + np.tanh(4 * (2 * s - 1) / 2)),
                 "hermite structure from coarse values", rtol=1e-6,
                 atol=1e-8, detail=detail)


@family(quick=40, thorough=400, timeout=120)
def fitted(ck, gen):
    """Fitting to a permittivity ends at the best fit within the bounds."""
    seed = int(gen.integers(0, 2**31))
    rnd = random.Random(seed)
    rng = np.random.RandomState(seed % 2**32)
    nx, ny = rnd.randint(4, 5), rnd.randint(4, 5)
    cx, cy = np.arange(nx) * 2.0, np.arange(ny) * 2.0
    fx, fy = np.arange(2 * nx - 1.0), np.arange(2 * ny - 1.0)
    p = par.CubicParam(0.5, cx, cy, fx, fy)
    p.set_k(0)
    n, m = len(fx) * len(fy), nx * ny
    S = np.diag(rng.uniform(0.5, 3, n))
    bg = rng.uniform(1, 2, n)
    truth = rng.uniform(-0.3, 1.3, m)
    p.decode(truth.copy())
    eps = bg + S @ p.get_structure()
    J = np.array([np.asarray(p.calculate_gradient() @ e).flatten()
                  for e in np.eye(m)]).T
    p.from_vector(np.full(m, 0.5))
    first = np.sum((bg + S @ p.get_structure() - eps)**2)
    p.fit2eps(bg, S, eps)
    got = np.sum((bg + S @ p.get_structure() - eps)**2)
    best = 2 * lsq_linear(S @ J, eps - bg, (0, 1), tol=1e-12,
                          max_iter=500).cost
    x = p.to_vector()
    ck.event("fits")
    ck.key("fit", nx, ny, seed)
    ck.expect(np.all(x >= 0) and np.all(x <= 1), "fit leaves the bounds", x)
    ck.expect(got <= best + 1e-4 * first, "fit is not the best one",
              "error {} best {} at the start {}".format(got, best, first))


# ---------------------------------------------------------------- creators
@family(quick=150, thorough=600, timeout=90)
def created(ck, gen):
    """Parametrizations made from plan nodes."""
    seed = int(gen.integers(0, 2**31))
    rnd = random.Random(seed)

    class Space:
        dx = rnd.choice([10.0, 40.0])

    space = Space()
    d = [rnd.randint(4, 24), rnd.randint(4, 24)]
    which = rnd.choice(["pixel", "cubic", "cubic", "grating"])
    if which == "grating":
        d[rnd.randrange(2)] = 1
    space.design_dims = tuple(d)

    lo, hi = sorted([rnd.uniform(-1, 1), rnd.uniform(-1, 1)])
    if rnd.random() < 0.5:
        init = optplan.UniformInitializer(min_val=lo, max_val=hi)
    else:
        init = optplan.NormalInitializer(mean=lo, std=0.0)
        hi = lo

    class Work:

        def get_object(self, node):
            if node is init:
                cls = {"initializer.uniform_random":
                       creator_param.UniformDistribution,
                       "initializer.normal": creator_param.NormalDistribution}
                return cls[node.type](node, self)
            return space

    work = Work()
    sampled = work.get_object(init)([500, 2])
    ck.expect(sampled.shape == (500, 2) and sampled.min() >= lo and
              sampled.max() <= hi, "initializer range",
              "{} not within [{}, {}]".format(
                  (sampled.min(), sampled.max()), lo, hi))
    if hi > lo:
        ck.expect(sampled.max() - sampled.min() > 0.9 * (hi - lo),
                  "initializer range", "values do not fill the range")
    ck.event("initializers")
    spec = optplan.SimulationSpace()
    detail = "{} design {}".format(which, d)
    ck.event("created")
    ck.key(("created", which, tuple(d)))
    if which == "pixel":
        p = creator_param.create_pixel_param(
            optplan.PixelParametrization(simulation_space=spec,
                                         init_method=init), work)
        ck.expect(p.get_structure().shape == (d[0] * d[1], ),
                  "created pixel parametrization", detail)
        return
    if which == "grating":
        inv = rnd.random() < 0.5
        p = creator_param.create_grating_param(
            optplan.GratingParametrization(simulation_space=spec,
                                           inverted=inv), work)
        n = max(d)
        ck.close(p.get_structure(), np.full(n, 1.0 if inv else 0.0),
                 "created grating", rtol=0, atol=0, detail=detail)
        e = np.sort([rnd.uniform(0, n) for _ in range(4)])
        p.decode(e)
        ck.close(p.get_structure(), coverage(e, n, inv), "created grating",
                 rtol=0, atol=1e-9, detail=detail)
        return
    und = rnd.choice([1, 2, 3, 3.5, 4])
    sym = [rnd.randint(0, 1), rnd.randint(0, 1)]
    kw = {}
    if rnd.random() < 0.7:
        kw["reflection_symmetry"] = sym
    else:
        sym = [0, 0]
    periods = [0, 0]
    if rnd.random() < 0.4:
        for a in range(2):
            n = int(np.round((d[a] - 1) / und) + 1) - 1
            ok = [q for q in (1, 2, 3) if n % q == 0 and n // q >= 3]
            if ok and rnd.random() < 0.6:
                periods[a] = rnd.choice(ok)
        kw["periods"] = periods
    p = creator_param.create_cubic_or_hermite_levelset(
        optplan.CubicParametrization(simulation_space=spec, init_method=init,
                                     undersample=und, **kw), work)
    detail += " undersample {} {}".format(und, kw)
    v = np.random.RandomState(seed % 2**32).uniform(0, 1, p.encode().size)
    p.decode(v)
    Z = p.get_structure()
    ck.expect(Z.shape == (d[0] * d[1], ), "created cubic size",
              "{}: {}".format(detail, Z.shape))
    Z = Z.reshape(d, order="F")
    for a in range(2):
        if sym[a] and not periods[a]:
            ck.close(Z, np.flip(Z, a), "created symmetry", rtol=0, atol=1e-8,
                     detail=detail)
        if periods[a]:
            if d[a] % periods[a] == 0:
                ck.close(Z, np.roll(Z, d[a] // periods[a], axis=a),
                         "created period", rtol=0, atol=1e-8, detail=detail)
    p.decode(np.full(v.size, 1.0))
    p.set_k(0)
    ck.close(p.get_structure(), np.ones(d[0] * d[1]), "created cubic full",
             rtol=0, atol=1e-9, detail=detail)
