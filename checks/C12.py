"""C12: selection matrices map structure vectors to permittivities."""
import numpy as np

from vlib.core import family
from spins import fdfd_tools, gridlock
from spins.gridlock import selection_matrix as sm
from spins.invdes.problem import selection_matrix as sm_problem

RULE = ("random grids with background and foreground permittivities that "
        "differ over a random (aligned or partial-cell, interior or touching) "
        "rectangle in random layers; the matrix is compared entry by entry "
        "with the definition (average of the quarter-cell samples inside each "
        "staggered cell times the contrast); distinct by grid and region")
REQUIRED_EVENTS = ["matrices", "reduced", "partial_cells", "touches_border",
                   "full_area", "ones_give_foreground", "far_edge",
                   "empty_region_refused", "thin_region",
                   "quadrant_maps", "one_cell_axis", "lossy_contrast",
                   "opposite_layers"]


def _cells(n, comp, axis, i):
    """Direct-lattice indices (half cells) inside cell i along an axis."""
    if comp == axis:
        return [2 * i, 2 * i + 1]
    return [2 * i - 1, 2 * i]


def _overlap(lo, hi, a, b):
    return max(0.0, min(hi, b) - max(lo, a))


def _scene(ck, rng):
    shape = [int(rng.integers(3, 9)), int(rng.integers(3, 9)),
             int(rng.integers(1, 4))]
    kind = int(rng.integers(5))
    if rng.random() < 0.15:
        shape[int(rng.integers(2))] = 1
        kind = 3
        ck.event("one_cell_axis")
    reg = []
    for n in shape[:2]:
        if kind == 0:  # aligned
            a, b = sorted(rng.choice(n + 1, 2, replace=False))
            a, b = float(a), float(b)
        elif kind == 1:  # half cells
            a, b = sorted(rng.choice(2 * n - 3, 2, replace=False) + 1)
            a, b = a / 2 + 0.5, b / 2 + 0.5
        elif kind == 2:  # anything, away from the border
            a = rng.uniform(0.6, n - 1.6)
            b = rng.uniform(a + 0.3, n - 0.6) if a + 0.3 < n - 0.6 else n - 0.6
            ck.event("partial_cells")
        elif kind == 3:  # everything
            a, b = -5.0, n + 5.0
            ck.event("full_area")
        else:  # thin
            a = rng.uniform(0.7, n - 1.3)
            b = a + 0.2
            ck.event("thin_region")
        reg.append((a, b))
        if a <= 0 or b >= n:
            ck.event("touches_border")
    layers = np.sort(rng.choice(shape[2], int(rng.integers(1, shape[2] + 1)),
                                replace=False))
    bg = [rng.uniform(1, 4, shape) for _ in range(3)]
    if rng.random() < 0.3:
        bg = [b + 0j for b in bg]
    contrast = rng.uniform(2, 9)
    if rng.random() < 0.4:
        contrast = complex(rng.choice([0.0, contrast]),
                           float(rng.uniform(-3, 3)))
        ck.event("lossy_contrast")
    sign = np.ones(len(layers))
    if len(layers) == 2 and rng.random() < 0.5:
        sign[1] = -1
        ck.event("opposite_layers")
    periodic = rng.random() < 0.5
    fg = []
    for c in range(3):
        w = []
        for ax in range(2):
            n = shape[ax]
            a, b = reg[ax]
            row = np.zeros(n)
            for i in range(n):
                lo = i if c == ax else i - 0.5
                row[i] = _overlap(lo, lo + 1, a, b)
                if c != ax and i == 0 and periodic:
                    row[i] += _overlap(n - 0.5, n + 0.5, a, min(b, n))
            # Contributions that are too small do not count as design.
            w.append(np.minimum(row, 1))
        diff = contrast * w[0][:, None, None] * w[1][None, :, None]
        full = np.zeros(shape, dtype=np.asarray(diff).dtype)
        full[:, :, layers] = diff * sign
        fg.append(bg[c] + full)
    return shape, reg, bg, fg, w


def _bounds_oracle(shape, bg, fg):
    """Quarter cells that lie in cells of all components that change."""
    diff = [np.abs(f - b).sum(axis=2) for f, b in zip(fg, bg)]
    thr = 1e-3 * max(d.max() for d in diff)
    ok = np.ones((2 * shape[0], 2 * shape[1]), bool)
    for c in range(3):
        m = np.zeros_like(ok)
        for i in range(shape[0]):
            for j in range(shape[1]):
                if diff[c][i, j] > thr:
                    for a in _cells(shape[0], c, 0, i):
                        for b in _cells(shape[1], c, 1, j):
                            m[a % ok.shape[0], b % ok.shape[1]] = True
        ok &= m
    return ok


@family(quick=250, thorough=2500)
def direct(ck, rng):
    shape, reg, bg, fg, _ = _scene(ck, rng)
    ok = _bounds_oracle(shape, bg, fg)
    if not ok.any():
        ck.raises(ValueError, lambda: sm.create_selection_matrix(bg, fg),
                  "empty-design-accepted")
        ck.event("empty_region_refused")
        return
    S, dims = sm.create_selection_matrix(bg, fg, return_param_dims=True)
    S2 = sm.create_selection_matrix(bg, fg)
    S = np.asarray(S.todense())
    ck.event("matrices")
    ck.close(np.asarray(S2.todense()), S, "with-and-without-dims")
    ix = np.nonzero(ok.any(axis=1))[0]
    iy = np.nonzero(ok.any(axis=0))[0]
    x0, x1, y0, y1 = ix[0], ix[-1], iy[0], iy[-1]
    want_dims = [x1 - x0 + 1, y1 - y0 + 1]
    ck.require(list(dims) == want_dims, "design-dims",
               {"got": list(dims), "want": want_dims, "region": reg})
    nx, ny, nz = shape
    want = np.zeros((3 * nx * ny * nz, want_dims[0] * want_dims[1]),
                    dtype=S.dtype)
    row = 0
    for c in range(3):
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    cols = []
                    for a in _cells(nx, c, 0, i):
                        for b in _cells(ny, c, 1, j):
                            a_, b_ = a % (2 * nx), b % (2 * ny)
                            if x0 <= a_ <= x1 and y0 <= b_ <= y1:
                                cols.append((a_ - x0) +
                                            (b_ - y0) * want_dims[0])
                    for col in cols:
                        want[row, col] += (fg[c][i, j, k] -
                                           bg[c][i, j, k]) / len(cols)
                    row += 1
    ck.close(S, want, "matrix", rtol=1e-12)
    got_fg = fdfd_tools.vec(bg) + S @ np.ones(S.shape[1])
    ck.close(got_fg, fdfd_tools.vec(fg), "ones-give-foreground", rtol=2e-3)
    ck.event("ones_give_foreground")
    ck.key("d", shape, reg)
    ck.sample({"shape": shape, "region": reg, "dims": want_dims})


@family(quick=150, thorough=1500)
def reduced(ck, rng):
    shape, reg, bg, fg, _ = _scene(ck, rng)
    diff = sum(np.abs(f - b) for f, b in zip(fg, bg)) > 1e-6
    flat = diff.any(axis=2)
    ix = np.nonzero(flat.any(axis=1))[0]
    iy = np.nonzero(flat.any(axis=0))[0]
    S, dims = sm.create_selection_matrix(bg, fg, reduced=True,
                                         return_param_dims=True)
    S = np.asarray(S.todense())
    want_dims = [ix[-1] - ix[0] + 1, iy[-1] - iy[0] + 1]
    ck.require(list(dims) == want_dims, "reduced-dims",
               {"got": list(dims), "want": want_dims})
    # One variable per pixel of the out-of-plane component: every cell takes
    # the average of the pixels that it overlaps, weighted by the overlap.
    nx, ny, nz = shape
    want = np.zeros((3 * nx * ny * nz, want_dims[0] * want_dims[1]),
                    dtype=complex)
    row = 0
    for c in range(3):
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    xs = [i, i + 1] if c == 0 else [i, i]
                    ys = [j, j + 1] if c == 1 else [j, j]
                    cols = []
                    for a in xs:
                        for b in ys:
                            a_ = a % nx if c == 0 else a
                            b_ = b % ny if c == 1 else b
                            if ix[0] <= a_ <= ix[-1] and iy[0] <= b_ <= iy[-1]:
                                cols.append((a_ - ix[0]) +
                                            (b_ - iy[0]) * want_dims[0])
                    for col in cols:
                        want[row, col] += (
                            fg[c][i, j, k] - bg[c][i, j, k]) / len(cols)
                    row += 1
    ck.event("reduced")
    ck.close(S, want, "reduced-matrix", rtol=1e-12)
    ck.close(fdfd_tools.vec(bg) + S @ np.ones(S.shape[1]), fdfd_tools.vec(fg),
             "reduced-ones-give-foreground", rtol=1e-9)
    ck.key("r", shape, reg)


@family(quick=120, thorough=1000)
def far_edge(ck, rng):
    nx, ny, nz = [int(rng.integers(1, 7)) for _ in range(3)]
    b = np.array([[rng.integers(0, nx), rng.integers(0, ny)], [0, 0]])
    b[1] = [rng.integers(b[0, 0], nx), rng.integers(b[0, 1], ny)]
    keep = b.copy()
    mod = [sm, sm_problem][int(rng.integers(2))]
    S = np.asarray(mod.average_2xFarEdge((nx, ny, nz), b).todense())
    ck.expect(np.array_equal(b, keep), "bounds-changed")
    dx, dy = b[1] - b[0] + 1
    z = rng.uniform(0, 1, (dx, dy))
    got = fdfd_tools.unvec(S @ z.flatten(order="F"), (nx, ny, nz))
    sx = np.vstack([z[1:], z[-1:]])
    sy = np.hstack([z[:, 1:], z[:, -1:]])
    for c, v in enumerate([(z + sx) / 2, (z + sy) / 2, z]):
        want = np.zeros((nx, ny, nz))
        want[b[0, 0]:b[1, 0] + 1, b[0, 1]:b[1, 1] + 1, :] = v[:, :, None]
        ck.close(got[c], want, "far-edge-average", rtol=1e-12,
                 detail={"shape": (nx, ny, nz), "bounds": b.tolist()})
    ck.event("far_edge")
    ck.key("f", nx, ny, nz, b.tolist())


@family(quick=40, thorough=300)
def empty(ck, rng):
    shape = [int(rng.integers(2, 6)) for _ in range(3)]
    bg = [rng.uniform(1, 3, shape) for _ in range(3)]
    fg = [b.copy() for b in bg]
    for red in (False, True):
        ck.raises(ValueError,
                  lambda: sm.create_selection_matrix(bg, fg, reduced=red),
                  "empty-design-accepted")
    ck.event("empty_region_refused")
    ck.key("e", shape)


@family(quick=60, thorough=500)
def from_drawing(ck, rng):
    """The structure of all ones reproduces what is drawn on a real grid."""
    n = [int(rng.integers(4, 9)), int(rng.integers(4, 9)),
         int(rng.integers(1, 4))]
    d = 40.0
    edges = [d * (np.arange(k + 1) - k / 2) for k in n]
    c = [float(rng.uniform(-d, d)) for _ in range(2)] + [0.0]
    ext = [float(rng.uniform(1.2, n[a] - 3.2)) * d if n[a] > 5 else 1.5 * d
           for a in range(2)] + [d * float(rng.integers(1, 5))]
    if rng.random() < 0.5:
        c[:2] = [round(v / d) * d + (0 if k % 2 else d / 2)
                 for v, k in zip(c[:2], n)]
        ext[:2] = [max(1, round(e / d)) * d for e in ext[:2]]

    def draw(eps):
        g = gridlock.Grid(edges, initial=1.0, ext_dir=gridlock.Direction.z)
        g.draw_slab(gridlock.Direction.z, 0, d * n[2] / 2, 2.25)
        if eps:
            g.draw_cuboid(c, ext, eps)
        g.render()
        return [np.array(x) for x in g.grids]

    bg, fg = draw(None), draw(12.0)
    diff = [np.abs(f - b) for f, b in zip(fg, bg)]
    top = max(x.max() for x in diff)
    if top == 0 or min(x[x > 1e-9].min() for x in diff) < 5e-3 * top:
        return
    S = sm.create_selection_matrix(bg, fg)
    ck.event("ones_give_foreground")
    ck.close(fdfd_tools.vec(bg) + S @ np.ones(S.shape[1]), fdfd_tools.vec(fg),
             "drawn-ones-give-foreground", rtol=1e-9,
             detail={"center": c, "extent": ext, "n": n})
    ck.key("w", n, c, ext)


@family(quick=120, thorough=1000)
def quadrants(ck, rng):
    """Every quadrant of an out-of-plane voxel drives the cells it lies in."""
    nx, ny, nz = [int(rng.integers(2, 7)) for _ in range(3)]
    b = [[int(rng.integers(0, nx)), int(rng.integers(0, ny))], None]
    b[1] = [int(rng.integers(b[0][0], nx)), int(rng.integers(b[0][1], ny))]
    fun = [sm.direct_lattice_deprecated,
           sm_problem.direct_lattice][int(rng.integers(2))]
    S, dims = fun((nx, ny, nz), np.array(b), get_design_area=True)
    S = np.asarray(S.todense())
    dx, dy = 2 * (b[1][0] - b[0][0] + 1), 2 * (b[1][1] - b[0][1] + 1)
    ck.require(list(dims) == [dx, dy] and S.shape == (3 * nx * ny * nz,
                                                      dx * dy),
               "quadrant-dims", {"dims": list(dims), "shape": S.shape})
    z = rng.uniform(0, 1, (dx, dy))
    tot = np.zeros((3, nx, ny))
    cnt = np.zeros((3, nx, ny))
    for a in range(dx):
        for q in range(dy):
            # Position of the quadrant in units of cells, voxel i around i.
            x = b[0][0] + a / 2 - 0.25
            y = b[0][1] + q / 2 - 0.25
            near = (int(np.floor(x + 0.5)), int(np.floor(y + 0.5)))
            cell = [(int(np.floor(x)) % nx, near[1]),
                    (near[0], int(np.floor(y)) % ny), near]
            for c in range(3):
                tot[(c,) + cell[c]] += z[a, q]
                cnt[(c,) + cell[c]] += 1
    want = np.where(cnt > 0, tot / np.maximum(cnt, 1), 0)
    got = fdfd_tools.unvec(S @ z.flatten(order="F"), (nx, ny, nz))
    for c in range(3):
        ck.close(got[c], np.repeat(want[c][:, :, None], nz, axis=2),
                 "quadrants", rtol=1e-12, detail={"bounds": b})
    ck.event("quadrant_maps")
    ck.key("q", nx, ny, nz, b)
