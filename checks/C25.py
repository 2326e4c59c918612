"""C25: exporting polygons to and importing them from GDS files."""
import os
import random
import shutil
import tempfile

import gdspy
import numpy as np

from vlib.core import family
from spins import gds

RULE = ("random nested and neighbouring polygons (contours of random "
        "functions, nested regular polygons) exported and read back, the "
        "covered region compared with the even-odd rule at sample points; "
        "random cell hierarchies written in different units and imported, "
        "compared with an independent transformation of the polygons; "
        "distinct by structure")
REQUIRED_EVENTS = ["exported", "nested", "deep_nesting", "neighbours",
                   "points_inside", "points_outside", "points_in_hole",
                   "without_deembedding", "extra_structures", "imported",
                   "references", "arrays", "rotated", "reflected",
                   "other_units", "hidden_cells", "ambiguous_cells",
                   "empty_cells", "named_cell", "missing_cell",
                   "missing_layer", "bounding_boxes"]


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c25-")
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------------ geometry

def inside(poly, pts):
    """Ray casting for many points; vectorized over the edges."""
    a = np.asarray(poly, dtype=float)
    b = np.roll(a, -1, axis=0)
    x, y = pts[:, 0][:, None], pts[:, 1][:, None]
    cross = (a[:, 1] > y) != (b[:, 1] > y)
    with np.errstate(divide="ignore", invalid="ignore"):
        xi = a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) / (b[:, 1] -
                                                            a[:, 1])
    return (np.sum(cross & (x < xi), axis=1) % 2).astype(bool)


def distance(polys, pts):
    """Distance of every point from the nearest polygon edge."""
    out = np.full(len(pts), np.inf)
    for p in polys:
        a = np.asarray(p, dtype=float)
        d = np.roll(a, -1, axis=0) - a
        rel = pts[:, None, :] - a[None, :, :]
        t = np.clip(np.sum(rel * d, axis=2) /
                    np.maximum(np.sum(d * d, axis=1), 1e-30), 0, 1)
        dist = np.linalg.norm(rel - t[:, :, None] * d, axis=2)
        out = np.minimum(out, dist.min(axis=1))
    return out


def contour_polygons(rng):
    """Closed contours of a random function that is low at the border."""
    import contourpy
    n = int(rng.integers(4, 14))
    f = np.full((n + 2, n + 2), -1.0)
    f[1:-1, 1:-1] = rng.normal(size=(n, n)) + rng.uniform(-0.3, 1.0)
    x = np.arange(n + 2) * float(rng.choice([10, 20, 13, 50]))
    x -= rng.choice([0.0, x[-1] / 2])
    lines = contourpy.contour_generator(x, x, f).lines(0.0)
    polys = [p[:-1] if np.allclose(p[0], p[-1]) else p for p in lines]
    return [p for p in polys if len(p) > 2], x[0], x[-1]


def nested_polygons(rng):
    """Groups of regular polygons in each other, next to each other."""
    polys = []
    groups = int(rng.integers(1, 4))
    for g in range(groups):
        center = np.array([g * 1000.0, float(rng.uniform(-50, 50))])
        r = float(rng.uniform(200, 450))
        for _ in range(int(rng.integers(1, 7))):
            k = int(rng.integers(3, 9))
            # The inscribed circle of one contains the next one.
            ang = 2 * np.pi * (np.arange(k) + rng.uniform()) / k
            polys.append(center + r * np.stack([np.cos(ang), np.sin(ang)],
                                               axis=1))
            r *= np.cos(np.pi / k) * rng.uniform(0.7, 0.95)
            if r < 8:
                break
    order = rng.permutation(len(polys))
    return [polys[i] for i in order], -500.0, 1000.0 * groups


def read(path, *args):
    with open(path, "rb") as fp:
        return gds.GDSImport(fp, *args)


@family(quick=1500, thorough=20000, timeout=60)
def export(ck, rng):
    """The exported file covers the region given by the contours."""
    kind = int(rng.integers(2))
    polys, low, high = (contour_polygons if kind else nested_polygons)(rng)
    if not polys:
        return
    keep = [p.copy() for p in polys]
    extra = None
    if rng.uniform() < 0.3:
        extra = [np.array([[100, 100], [101, 100], [101, 102 + k]],
                          dtype=float) for k in range(int(rng.integers(1,
                                                                       3)))]
        ck.event("extra_structures")
    deembed = rng.uniform() < 0.85
    with Scratch() as folder:
        path = os.path.join(folder, "out.gds")
        kw = {} if deembed and rng.uniform() < 0.5 else {"deembed": deembed}
        gds.gen_gds(polys, path, extra_structures=extra, **kw)
        out = read(path).get_polygons((0, 0))
    ck.event("exported")
    ck.expect(all(np.array_equal(a, b) for a, b in zip(polys, keep)),
              "input_unchanged")
    out = [np.asarray(p, dtype=float) * 1000 for p in out]
    if extra:
        for e in extra:
            ck.expect(any(len(p) == len(e) and
                          np.allclose(np.sort(p, axis=0),
                                      np.sort(e * 1000, axis=0), atol=1)
                          for p in out), "extra_structure_written")
        out = [p for p in out if np.min(p) < 90000]
    pts = rng.uniform(low, high, size=(600, 2))
    # Look closely at the neighbourhood of the edges as well.
    some = np.concatenate(polys)
    some = some[rng.integers(0, len(some), size=300)]
    pts = np.concatenate([pts, some + rng.normal(size=some.shape) * 6])
    pts = pts[distance(polys, pts) > 1.5]
    count = np.sum([inside(p, pts) for p in polys], axis=0)
    got = np.sum([inside(p, pts) for p in out], axis=0) if out else 0 * count
    if not deembed:
        ck.event("without_deembedding")
        bad = got != count
        ck.expect(not np.any(bad), "polygons_written_as_given",
                  {"point": pts[bad][0].tolist() if np.any(bad) else None})
        ck.key("plain", len(polys))
        return
    depth = int(np.max(count)) if len(count) else 0
    if depth > 1:
        ck.event("nested")
    if depth > 2:
        ck.event("deep_nesting")
    if len(polys) > 2:
        ck.event("neighbours")
    ck.event("points_inside", int(np.sum(count % 2 == 1)))
    ck.event("points_outside", int(np.sum(count == 0)))
    ck.event("points_in_hole", int(np.sum((count % 2 == 0) & (count > 0))))
    bad = (count % 2 == 1) != (got > 0)
    ck.expect(not np.any(bad), "covered_region",
              {"wrong": int(np.sum(bad)), "of": len(pts),
               "polygons": len(polys),
               "point": pts[bad][0].tolist() if np.any(bad) else None,
               "nesting": int(count[bad][0]) if np.any(bad) else None})
    ck.expect(not np.any(got > 1), "no_double_coverage")
    ck.key(kind, len(polys), depth)


# ------------------------------------------------------------------ import

class Lib:
    """A random library of cells and its polygons by independent means."""

    def __init__(self, ck, rng):
        rnd = self.rnd = random.Random(int(rng.integers(1 << 30)))
        self.unit, self.prec = rnd.choice([(1e-6, 1e-9), (1e-6, 1e-9),
                                           (1e-9, 1e-9), (1e-3, 1e-8),
                                           (1e-6, 5e-9)])
        if (self.unit, self.prec) != (1e-6, 1e-9):
            ck.event("other_units")
        self.scale = self.unit / 1e-6          # to microns
        self.lib = gdspy.GdsLibrary(unit=self.unit, precision=self.prec)
        self.cells = {}                        # name -> gdspy cell
        self.polys = {}                        # name -> [(layer key, array)]
        self.used = set()
        self.ck = ck
        for i in range(rnd.randint(1, 5)):
            name = "C%d" % i
            r = rnd.random()
            if r < 0.15:
                name = "$$$C%d" % i
            elif r < 0.4:
                # Names like those of the hidden cells are not hidden.
                name = rnd.choice(["$C%d", "$$C%d", "C%d$$$", "c%d"]) % i
            elif r < 0.6:
                name = rnd.choice(["TOP", "top", "Top", "MAIN", "c0", "C0"])
            if name not in self.cells:
                self.cell(name)
        for _ in range(rnd.choice([0, 0, 1])):
            self.cell("EMPTY%d" % len(self.cells), empty=True)

    def coord(self):
        # Multiples of the precision that stay exact.
        return self.rnd.randint(-2000, 2000) * self.prec / self.unit

    def cell(self, name, empty=False):
        rnd = self.rnd
        cell = gdspy.Cell(name, exclude_from_current=True)
        self.lib.add(cell)
        polys = []
        for _ in range(0 if empty else rnd.randint(0, 4)):
            key = (rnd.choice([0, 3, 100, 255]),
                   rnd.choice([0, 0, 1, 16, 17, 255]))
            group = []
            for _ in range(rnd.choice([1, 1, 2])):
                x, y = self.coord(), self.coord()
                s = rnd.randint(20, 500) * self.prec / self.unit
                shape = rnd.choice([
                    [(0, 0), (1, 0), (1, 1), (0, 1)], [(0, 0), (1, 0), (0, 1)],
                    [(0, 0), (2, 0), (2, 1), (1, 1), (1, 3), (0, 3)]])
                group.append(np.array([(x + s * a, y + s * b)
                                       for a, b in shape]))
            cell.add(gdspy.PolygonSet([p.copy() for p in group],
                                      layer=key[0], datatype=key[1]))
            polys += [(key, p) for p in group]
        for other in list(self.cells):
            for _ in range(0 if empty or rnd.random() > 0.35 else
                           rnd.choice([1, 1, 1, 2, 4])):
                polys += self.reference(cell, other)
                self.used.add(other)
        if rnd.random() < 0.2 and not empty:
            cell.add(gdspy.Label("text", (0, 0), layer=3))
        self.cells[name] = cell
        self.polys[name] = polys

    def reference(self, cell, other):
        rnd = self.rnd
        origin = (self.coord(), self.coord())
        rot = rnd.choice([None, None, 90, 180, 37.5])
        mag = rnd.choice([None, None, 2, 0.5])
        ref = rnd.random() < 0.3
        if rot:
            self.ck.event("rotated")
        if ref:
            self.ck.event("reflected")
        offs = [(0.0, 0.0)]
        if rnd.random() < 0.3:
            nc, nr = rnd.randint(1, 3), rnd.randint(1, 2)
            sp = (rnd.randint(100, 900) * self.prec / self.unit,
                  rnd.randint(100, 900) * self.prec / self.unit)
            # Arrays are transformed as a whole; keep them plain.
            rot, mag, ref = None, None, False
            cell.add(gdspy.CellArray(self.cells[other], nc, nr, sp, origin))
            offs = [(i * sp[0], j * sp[1]) for i in range(nc)
                    for j in range(nr)]
            self.ck.event("arrays")
        else:
            cell.add(gdspy.CellReference(self.cells[other], origin,
                                         rotation=rot, magnification=mag,
                                         x_reflection=ref))
            self.ck.event("references")
        out = []
        for key, p in self.polys[other]:
            q = p * np.array([1, -1]) if ref else p
            q = q * (mag or 1)
            t = np.deg2rad(rot or 0)
            q = q @ np.array([[np.cos(t), np.sin(t)],
                              [-np.sin(t), np.cos(t)]])
            for o in offs:
                out.append((key, q + np.array(origin) + np.array(o)))
        return out


def canonical(poly):
    """Vertices as a set; the polygons here are given by their vertices."""
    p = np.asarray(poly, dtype=float)
    return p[np.lexsort((np.round(p[:, 1], 5), np.round(p[:, 0], 5)))]


def same_polygons(got, want, tol):
    got, left = [canonical(p) for p in got], [canonical(p) for p in want]
    if len(got) != len(left):
        return False
    for p in got:
        # The closest one, compared vertex by vertex in both directions.
        best, where = np.inf, None
        for k, q in enumerate(left):
            if p.shape == q.shape:
                d = np.linalg.norm(p[:, None] - q[None], axis=2)
                d = max(d.min(axis=0).max(), d.min(axis=1).max())
                if d < best:
                    best, where = d, k
        if best > tol:
            return False
        del left[where]
    return True


@family(quick=3000, thorough=60000, timeout=60)
def imports(ck, rng):
    """The imported layers are those of the chosen cell."""
    lib = Lib(ck, rng)
    rnd = lib.rnd
    tops = [c for c in lib.cells if c not in lib.used]
    if not any(lib.polys.values()) and rnd.random() < 0.9:
        return
    with Scratch() as folder:
        path = os.path.join(folder, "in.gds")
        lib.lib.write_gds(path)
        cand = {c: len(lib.polys[c]) for c in tops
                if not c.startswith("$$$")}
        best = max(cand.values(), default=0)
        if len(cand) < len(tops):
            ck.event("hidden_cells")
        if any(v == 0 for v in cand.values()):
            ck.event("empty_cells")
        winners = [c for c, v in cand.items() if v == best]
        ck.raises(ValueError, lambda: read(path, "no such cell"),
                  "missing_cell")
        swapped = rnd.choice(tops).swapcase()
        if swapped not in tops:
            # Names differ by their case.
            ck.raises(ValueError, lambda: read(path, swapped),
                      "missing_cell")
        ck.event("missing_cell")
        checks = []
        if best == 0:
            ck.raises(ValueError, lambda: read(path), "no_valid_cell")
        elif len(winners) > 1:
            ck.event("ambiguous_cells")
            ck.raises(ValueError, lambda: read(path), "ambiguous_cell")
        else:
            checks.append((winners[0], read(path)))
        named = rnd.choice(tops)
        checks.append((named, read(path, named)))
        ck.event("named_cell")
    # Less than one database unit: the coordinates written are multiples.
    tol = 0.3 * lib.prec / 1e-6
    for name, imp in checks:
        ck.event("imported")
        ck.expect(imp.top_level_cell.name == name, "top_level_cell",
                  {"got": imp.top_level_cell.name, "want": name,
                   "polygons": {c: len(lib.polys[c]) for c in tops}})
        keys = {k for k, _ in lib.polys[name]}
        ck.expect(set(tuple(k) for k in imp.layers) == keys, "layers",
                  {"got": sorted(imp.layers), "want": sorted(keys)})
        for key in keys | {(77, 0)}:
            want = [p * lib.scale for k, p in lib.polys[name] if k == key]
            got = imp.get_polygons(key)
            if not want:
                ck.event("missing_layer")
                ck.expect(len(got) == 0 and
                          len(imp.get_bounding_boxes(key)) == 0,
                          "missing_layer_is_empty")
                continue
            ck.expect(same_polygons(got, want, tol), "layer_polygons",
                      {"layer": key, "got": len(got), "want": len(want),
                       "unit": lib.unit, "cell": name})
            boxes = imp.get_bounding_boxes(key)
            ck.event("bounding_boxes", len(boxes))
            if len(boxes) == len(got):
                for b, p in zip(boxes, got):
                    p = np.asarray(p) * 1000
                    lo, hi = p.min(axis=0), p.max(axis=0)
                    ck.close(np.array([b.x_minmax, b.y_minmax]),
                             np.array([[lo[0], hi[0]], [lo[1], hi[1]]]),
                             "bounding_box", rtol=1e-9, atol=1e-6)
                    ck.close(np.array(b.center), (lo + hi) / 2,
                             "box_center", rtol=1e-9, atol=1e-6)
                    ck.close(np.array(b.extents), hi - lo, "box_extents",
                             rtol=1e-9, atol=1e-6)
            else:
                ck.fail("box_per_polygon", {"boxes": len(boxes)})
    ck.key(len(lib.cells), len(tops), best, lib.unit, lib.prec)
