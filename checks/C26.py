"""C26: simulation spaces hold the permittivity that they describe."""
import json
import os
import random
import shutil
import tempfile
import warnings

import gdspy
import numpy as np

from vlib import geom
from vlib.core import family
from spins import fdfd_tools, material
from spins.material.material import interpolate_using_energy as energy
from spins.invdes import parametrization, problem
from spins.invdes.problem_graph import creator_em, creator_monitor
from spins.invdes.problem_graph import optplan, simspace, workspace

RULE = ("random GDS files with convex polygons, stacks and mesh lists of "
        "materials given by index, by name and by file, in random regions; "
        "every cell of every component is compared with the exact volume "
        "average, at several wavelengths asked in random histories; "
        "permittivities and their gradients of random structures against "
        "finite differences; distinct by scene")
REQUIRED_EVENTS = ["cells_compared", "stacks", "mesh_lists", "slab_meshes",
                   "polygons", "missing_layers", "index_materials",
                   "named_materials", "file_materials", "dispersive",
                   "edge_coords", "partial_cells", "direct", "full_direct",
                   "reduced", "wavelength_histories", "repeated_wavelengths",
                   "epsilon_values", "epsilon_gradients", "diff_epsilon",
                   "field_slices", "full_fields", "interpolated_materials",
                   "table_points", "wide_tables", "energy_tables",
                   "fractional_extents", "lossy_designs",
                   "dispersive_designs", "earlier_wavelengths",
                   "parametrized_reference", "files_without_k", "files_refused",
                   "tabulated_materials", "table_values", "unknown_material"]

vec = fdfd_tools.vec


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c26-")
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------- materials

def csv_file(ck, rnd, folder, wl=(0.9, 2.2)):
    """A table; returns the name of the file and its columns in nm."""
    m = rnd.randint(3, 8)
    if rnd.random() < 0.3:
        # Ranges from the ultraviolet to the far infrared.
        wl = (rnd.choice([0.2, 0.5, 0.9]), rnd.choice([5.0, 15.0, 120.0]))
        ck.event("wide_tables")
    lam = np.linspace(wl[0], wl[1], m) + np.array(
        [rnd.uniform(-0.05, 0.05) for _ in range(m)])
    lam = np.round(lam, 4)
    n = np.array([round(rnd.uniform(1.2, 4), 3) for _ in range(m)])
    k = np.array([rnd.uniform(0, 0.5) for _ in range(m)])
    k = np.round(k * rnd.choice([1, 1, 1e-2, 1e-4]), 9)
    cols = {"wl": lam, "n": n}
    if rnd.random() < 0.75:
        cols["k"] = k
    else:
        k = 0 * k
        ck.event("files_without_k")
    if rnd.random() < 0.15:
        cols["other"] = np.ones(m)
    names = list(cols)
    rnd.shuffle(names)
    path = os.path.join(folder, "mat%d.csv" % rnd.randint(0, 10**9))
    with open(path, "w") as fp:
        fp.write(",".join(names) + "\n")
        for i in range(m):
            fp.write(",".join(repr(float(cols[c][i])) for c in names) + "\n")
    return path, lam * 1000, n, k


def some_material(ck, rnd, folder):
    """A material and a function of the wavelength giving its permittivity."""
    r = rnd.random()
    if r < 0.55:
        re, im = round(rnd.uniform(1, 3.6), 3), rnd.choice([0, 0, -0.1, 0.2])
        ck.event("index_materials")
        return optplan.Material(index=optplan.ComplexNumber(
            real=re, imag=im)), lambda w: (re + 1j * im)**2
    if r < 0.8:
        names = {"Air": material.Air, "air": material.Air,
                 "SiO2": material.SiO2, "sio2": material.SiO2,
                 "sio": material.SiO2, "Si": material.Si, "si": material.Si,
                 "Si3N4": material.Si3N4, "sin": material.Si3N4,
                 "si3n4": material.Si3N4, "SiN": material.Si3N4}
        name = rnd.choice(sorted(names))
        ck.event("named_materials")
        cls = names[name]
        return optplan.Material(mat_name=name), lambda w: float(
            cls().refractive_index(np.array([w]))[0][0])**2
    path, lam, n, k = csv_file(ck, rnd, folder)
    ck.event("file_materials")
    ck.event("dispersive")
    mat = material.CustomMaterial(lam, n, k)

    def eps(w):
        a, b = mat.refractive_index(np.array([w]))
        return (a[0] - 1j * b[0])**2

    return optplan.Material(mat_file=path), eps


@family(quick=300, thorough=5000, timeout=60)
def tables(ck, rng):
    """Tabulated refractive indices are interpolated, never mixed up."""
    rnd = random.Random(int(rng.integers(1 << 30)))
    with Scratch() as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path, lam, n, k = csv_file(ck, rnd, folder)
        spec = optplan.Material(mat_file=path)
        mats = [lambda w: simspace._get_mat_index(spec, w)]
        cm = material.CustomMaterial(list(lam), list(n), list(k))
        mats.append(lambda w: np.subtract(
            cm.refractive_index(w)[0], 1j * cm.refractive_index(w)[1]))
        for f in mats:
            for i, w in enumerate(lam):
                ck.close(np.squeeze(f(w)), n[i] - 1j * k[i], "at_the_points",
                         rtol=1e-9)
            ck.event("table_points", len(lam))
            for _ in range(12):
                i = rnd.randrange(len(lam) - 1)
                t = rnd.random()
                w = lam[i] * (1 - t) + lam[i + 1] * t
                got = complex(np.squeeze(f(w)))
                ck.event("interpolated_materials")
                for v, tab in ((got.real, n), (-got.imag, k)):
                    lo, hi = sorted([tab[i], tab[i + 1]])
                    ck.expect(lo - 1e-9 <= v <= hi + 1e-9, "between_points",
                              {"value": v, "from": lo, "to": hi})
        ws = np.array([rnd.uniform(lam[0], lam[-1]) for _ in range(5)])
        a, b = cm.refractive_index(ws)
        ck.close(np.array([cm.refractive_index(np.array(w)) for w in ws]).T,
                 np.array([a, b]), "vectorized", rtol=1e-12)
        ck.close(cm.eps(ws), (a - 1j * b)**2, "permittivity", rtol=1e-12)
        ck.close(cm.eps_real(ws), np.real((a - 1j * b)**2), "real_part",
                 rtol=1e-9, scale=10)
        # Tables over the photon energy, each with its own points.
        m1 = rnd.randint(3, 7)
        m2 = rnd.choice([m1, rnd.randint(3, 7)])
        hc = 4.135667516e-15 * 299792458 * 1e9
        en, ek = (sorted((rnd.uniform(0.2, 6) for _ in range(q)),
                         reverse=True) for q in (m1, m2))
        tn = [rnd.uniform(1, 4) for _ in en]
        tk = [rnd.uniform(0, 1) for _ in ek]
        at_n = energy(
            hc / np.array(en), tn, tk, en, ek)[0]
        at_k = energy(
            hc / np.array(ek), tn, tk, en, ek)[1]
        ck.close(at_n, np.array(tn), "energy_table", rtol=1e-9)
        ck.close(at_k, np.array(tk), "energy_table", rtol=1e-9)
        ck.event("energy_tables")
        # Files that cannot be used are refused.
        bad = os.path.join(folder, "bad.csv")
        drop = rnd.choice(["wl", "n"])
        with open(bad, "w") as fp:
            fp.write(",".join(c for c in ("wl", "n", "k") if c != drop))
            fp.write("\n1,0\n2,0\n")
        ck.raises(ValueError, lambda: simspace._get_mat_index(
            optplan.Material(mat_file=bad), 1500), "incomplete_file")
        ck.raises(ValueError, lambda: simspace._get_mat_index(
            optplan.Material(mat_file=os.path.join(folder, "none.csv")),
            1500), "missing_file")
        ck.event("files_refused", 2)
        ck.raises(ValueError, lambda: simspace._get_mat_index(
            optplan.Material(mat_name="unobtainium"), 1500),
            "unknown_material")
        ck.raises(ValueError, lambda: simspace._get_mat_index(
            optplan.Material(), 1500), "no_material")
        ck.event("unknown_material")
    ck.key(len(lam), lam[0], n[0])


# From the literature: Palik (Si), Malitson (SiO2), Philipp (Si3N4).
with open(os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), "data", "materials.json")) as _fp:
    TABLES = json.load(_fp)
SI = [(1120.0, 3.5361), (1200.2, 3.5193), (1400.0, 3.4876), (1532.0, 3.4784),
      (1600.0, 3.4710), (1800.0, 3.4578), (2000.1, 3.4490)]


def malitson(w):
    x = (w / 1000)**2
    return np.sqrt(1 + 0.6961663 * x / (x - 0.0684043**2) + 0.4079426 * x /
                   (x - 0.1162414**2) + 0.8974794 * x / (x - 9.896161**2))


def philipp(w):
    x = (w / 1000)**2
    return np.sqrt(1 + 2.8939 * x / (x - 0.13967**2))


@family(quick=60, thorough=1000, timeout=60)
def tabulated(ck, rng):
    """The materials known by name have their refractive index."""
    for w, n in SI:
        got = material.Si().refractive_index(np.array([w]))[0][0]
        ck.close(got, n, "silicon", rtol=3e-4)
    w = rng.uniform(1120, 2000, 20)
    n = material.Si().refractive_index(w)[0]
    ck.close(n, np.interp(w, *zip(*SI)), "silicon", rtol=1e-2)
    w = rng.uniform(400, 2000, 20)
    n, k = material.SiO2().refractive_index(w)
    ck.close(n, malitson(w), "silica", rtol=1e-3)
    w = rng.uniform(400, 1200, 20)
    n, k = material.Si3N4().refractive_index(w)
    ck.close(n, philipp(w), "nitride", rtol=1e-2)
    for name, (wl, n0, k0) in TABLES.items():
        i = np.sort(rng.choice(len(wl), 60, replace=False))
        wl, n0, k0 = (np.array(q)[i] for q in (wl, n0, k0))
        n, k = getattr(material, name)().refractive_index(wl)
        # The table of silicon has gaps, which are not judged.
        good = (wl < 245) | (wl > (1125 if name == "Si" else 0))
        ck.close(n[good], n0[good], "stored_table", rtol=1e-4)
        good = (wl < 245) | (wl > (2800 if name == "Si" else 0))
        ck.close(k[good], k0[good], "stored_table", rtol=1e-4, atol=1e-9)
        ck.event("table_values", len(i))
    n, k = material.Air().refractive_index(w)
    ck.close(n, np.ones(20), "air", rtol=0, atol=0)
    ck.close(k, np.zeros(20), "air", rtol=0, atol=0)
    for cls in (material.Si, material.SiO2, material.Si3N4, material.Air):
        n, k = cls().refractive_index(w)
        ck.close(cls().eps(w), (n - 1j * k)**2, "permittivity", rtol=1e-12)
        one = cls().refractive_index(float(w[3]))
        ck.close(np.squeeze(one[0]), n[3], "vectorized", rtol=1e-12)
        ck.close(np.squeeze(one[1]), k[3], "vectorized", rtol=1e-12)
    ck.event("tabulated_materials")
    ck.key(float(w[0]))


# ------------------------------------------------------------------ scenes

BIG = 1e5


class Scene:
    """A region with a GDS file and what is drawn from it."""

    def __init__(self, ck, rng, folder, small=False):
        rnd = self.rnd = random.Random(int(rng.integers(1 << 30)))
        self.ck, self.folder = ck, folder
        self.dx = rnd.choice([20, 25, 40, 50.0, 12.5])
        self.n = [rnd.randint(2, 5 if small else 8) for _ in range(2)]
        self.n.append(rnd.choice([1, 1, 2, 3, 4]))
        part = [rnd.choice([0, 0, rnd.uniform(0.15, 0.85)]) for _ in range(3)]
        if any(part):
            ck.event("partial_cells")
        ext = [(m - p) * self.dx for m, p in zip(self.n, part)]
        self.center = [rnd.choice([0, 100, -35, 17.5]) for _ in range(3)]
        self.region = optplan.Box3d(center=self.center, extents=ext)
        low = np.array(self.center) - np.array(ext) / 2 - self.dx / 2
        self.edges = [low[a] + self.dx * np.arange(self.n[a] + 1)
                      for a in range(3)]
        self.layers = {}
        for _ in range(rnd.randint(1, 3)):
            key = (rnd.choice([0, 1, 100, 101]), rnd.choice([0, 1]))
            self.layers[key] = [self.polygon()
                                for _ in range(rnd.randint(1, 2))]
        self.gds = self.write("scene", self.layers)

    def write(self, name, layers):
        lib = gdspy.GdsLibrary(unit=1e-6, precision=1e-9)
        cell = gdspy.Cell("TOP", exclude_from_current=True)
        lib.add(cell)
        for key, polys in layers.items():
            for p in polys:
                cell.add(gdspy.Polygon(np.array(p) / 1000, layer=key[0],
                                       datatype=key[1]))
        fname = "%s%d.gds" % (name, self.rnd.randint(0, 10**9))
        lib.write_gds(os.path.join(self.folder, fname))
        return fname

    def polygon(self):
        rnd = self.rnd
        e = self.edges
        span = [e[a][-1] - e[a][0] for a in range(2)]
        c = [rnd.uniform(e[a][0], e[a][-1]) for a in range(2)]
        r = [max(rnd.uniform(0.2, 0.7) * s, 20) for s in span]
        if rnd.random() < 0.5:
            pts = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
        else:
            k = rnd.randint(3, 6)
            a0 = rnd.uniform(0, 6.3)
            pts = [(np.cos(a0 + 2 * np.pi * i / k),
                    np.sin(a0 + 2 * np.pi * i / k)) for i in range(k)]
        return [(float(round(c[0] + r[0] * x)), float(round(c[1] + r[1] * y)))
                for x, y in pts]

    def extents(self):
        rnd, e = self.rnd, self.edges[2]
        lo = rnd.uniform(e[0] - 30, e[-1])
        hi = lo + rnd.uniform(0.3, 1.2) * (e[-1] - e[0] + 30)
        if rnd.random() < 0.4:
            lo, hi = rnd.choice(list(e[:-1])), e[-1] + 7
        if rnd.random() < 0.4:
            self.ck.event("fractional_extents")
            return [round(lo, 2), round(hi, 2)]
        return [float(round(lo)), float(round(hi))]

    def slab(self, ext, eps):
        return ([(-BIG, -BIG), (BIG, -BIG), (BIG, BIG), (-BIG, BIG)],
                ext[0], ext[1], eps)

    def layer(self):
        rnd = self.rnd
        if rnd.random() < 0.1:
            self.ck.event("missing_layers")
            return (55, 0)
        return rnd.choice(sorted(self.layers))

    def spec(self, gds=None, plan=None):
        """An epsilon spec and its objects for the oracle.

        A plan draws the same things from another file.
        """
        rnd = self.rnd
        if plan is None:
            kind = rnd.choice(["gds", "gds_mesh"])
            bg = some_material(self.ck, rnd, self.folder)
            items = []
            for _ in range(rnd.randint(1, 3)):
                items.append((rnd.choice(["slab", "poly", "poly"]),
                              self.extents(), self.layer(),
                              some_material(self.ck, rnd, self.folder),
                              some_material(self.ck, rnd, self.folder)))
            plan = (kind, bg, items)
        self.plan = plan
        kind, bg, items = plan
        gds = gds or self.gds
        if kind == "gds":
            self.ck.event("stacks")
            return optplan.GdsEps(
                gds=gds, mat_stack=optplan.GdsMaterialStack(
                    background=bg[0], stack=[optplan.GdsMaterialStackLayer(
                        foreground=m1[0], background=m2[0], extents=ext,
                        gds_layer=list(key))
                        for _, ext, key, m1, m2 in items]))
        self.ck.event("mesh_lists")
        meshes = []
        for what, ext, key, m1, _ in items:
            if what == "slab":
                self.ck.event("slab_meshes")
                meshes.append(optplan.SlabMesh(material=m1[0], extents=ext))
            else:
                meshes.append(optplan.GdsMesh(material=m1[0], extents=ext,
                                              gds_layer=list(key)))
        return optplan.GdsMeshEps(gds=gds, background=bg[0],
                                  mesh_list=meshes)

    def oracle(self, wlen, layers=None, plan=None):
        """The three averaged components."""
        kind, bg, items = plan or self.plan
        layers = self.layers if layers is None else layers
        objs = []
        for what, ext, key, m1, m2 in items:
            if kind == "gds":
                objs.append(self.slab(ext, m2[1](wlen)))
                what = "poly"
            if what == "slab":
                objs.append(self.slab(ext, m1[1](wlen)))
            else:
                for p in layers.get(tuple(key), []):
                    objs.append((p, ext[0], ext[1], m1[1](wlen)))
                    self.ck.event("polygons")
        return np.array([geom.scene_average(objs, bg[1](wlen),
                                            geom.yee_cells(self.edges, c))
                         for c in range(3)])

    def tol(self):
        # The boolean operations of the drawing have a precision of 1e-3 nm.
        return 13 * 3e-3 * 8 / self.dx


def compare(ck, got, want, mech, sc, detail=None):
    got = np.array(got)
    ck.event("cells_compared", want.size)
    ck.close(got, want, mech, rtol=0, atol=sc.tol(), scale=1.0,
             detail=dict(detail or {}, shape=sc.n, dx=sc.dx))


@family(quick=220, thorough=4000, timeout=120)
def scenes(ck, rng):
    """Background permittivities are the volume average of the scene."""
    with Scratch() as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sc = Scene(ck, rng, folder)
        rnd = sc.rnd
        spec = sc.spec()
        # The foreground adds a polygon in the first layer drawn.
        fg_layers = {k: list(v) for k, v in sc.layers.items()}
        drawn = [it for it in sc.plan[2]
                 if sc.plan[0] == "gds" or it[0] == "poly"]
        if drawn:
            fg_layers.setdefault(tuple(drawn[0][2]), []).append(sc.polygon())
        fg_gds = sc.write("fg", fg_layers)
        fg = sc.spec(gds=fg_gds, plan=sc.plan)
        kind = optplan.SelectionMatrixType.FULL_DIRECT
        pml = [rnd.randint(0, 3) for _ in range(6)]
        params = optplan.SimulationSpace(
            name="space", mesh=optplan.UniformMesh(dx=sc.dx), eps_fg=fg,
            eps_bg=spec, sim_region=sc.region, pml_thickness=pml,
            selection_matrix_type=kind.value)
        space = simspace.SimulationSpace(params, folder)
        ck.event("edge_coords")
        for a in range(3):
            ck.close(space.edge_coords[a], sc.edges[a], "edge_coords",
                     rtol=0, atol=1e-6 * sc.dx, detail={"axis": a})
        ck.expect(list(space.dims) == sc.n, "dims",
                  {"got": list(space.dims), "want": sc.n})
        ck.expect(list(space.pml_layers) == pml, "pml")
        ck.expect(space.dx == sc.dx, "dx")
        for d in space.dxes:
            for a in range(3):
                ck.close(d[a], np.full(sc.n[a], float(sc.dx)), "cell_sizes",
                         rtol=1e-9)
        # A history of wavelengths: each gets the answer of a new space.
        hist = [rnd.choice([1000, 1310.0, 1550, 1500, 2000.5, 1550, 1550.4,
                            1549.6, 1550.0049, 1310.26])
                for _ in range(rnd.randint(1, 4))]
        if len(set(hist)) < len(hist):
            ck.event("repeated_wavelengths")
        for w in hist:
            inst = space(w)
            compare(ck, inst.eps_bg.grids, sc.oracle(w), "background", sc,
                    {"wavelength": w, "history": hist})
        if len(hist) > 1:
            ck.event("wavelength_histories")
        w = hist[-1]
        ck.event("full_direct")
        want = sc.oracle(w, fg_layers)
        e_fg, e_bg = simspace.get_fg_and_bg(space, w)
        compare(ck, e_fg, want, "foreground", sc)
        compare(ck, e_bg, sc.oracle(w), "background", sc)
        z = rng.uniform(0, 1, 3 * int(np.prod(sc.n)))
        got = vec(space(w).eps_bg.grids) + space(w).selection_matrix @ z
        b = vec(list(sc.oracle(w)))
        compare(ck, got, b + z * (vec(list(want)) - b), "full_direct", sc)
        ck.expect(list(space.design_dims) == [3] + sc.n,
                  "design_dims", {"got": list(space.design_dims)})
    ck.key(sc.n, sc.dx, str(kind), hist)
    ck.sample({"shape": sc.n, "dx": sc.dx, "kind": str(kind)})


@family(quick=120, thorough=2000, timeout=120)
def designs(ck, rng):
    """A rectangular design area: all ones give the foreground."""
    with Scratch() as folder:
        rnd = random.Random(int(rng.integers(1 << 30)))
        dx = rnd.choice([20, 40, 50])
        n = [rnd.randint(7, 12), rnd.randint(7, 12), rnd.choice([1, 3, 5])]
        ext = [m * dx for m in n]
        lo = [-e / 2 - dx / 2 for e in ext]
        i0 = [rnd.randint(1, 2) for _ in range(2)]
        i1 = [n[a] - rnd.randint(1, 2) for a in range(2)]
        rect = [(lo[0] + i0[0] * dx, lo[1] + i0[1] * dx),
                (lo[0] + i1[0] * dx, lo[1] + i0[1] * dx),
                (lo[0] + i1[0] * dx, lo[1] + i1[1] * dx),
                (lo[0] + i0[0] * dx, lo[1] + i1[1] * dx)]
        mats, perm = [], []
        for low, high in ((1, 2), (2.4, 3.5)):
            if rnd.random() < 0.25:
                name, cls = (("SiO2", material.SiO2) if low == 1 else
                             ("Si", material.Si))
                mats.append(optplan.Material(mat_name=name))
                perm.append(lambda q, c=cls: float(
                    c().refractive_index(np.array([q]))[0][0])**2)
                ck.event("dispersive_designs")
            else:
                re, im = round(rnd.uniform(low, high), 2), 0
                if low > 2 and rnd.random() < 0.4:
                    im = rnd.choice([-0.2, -0.05, 0.1])
                    ck.event("lossy_designs")
                mats.append(optplan.Material(index=optplan.ComplexNumber(
                    real=re, imag=im)))
                perm.append(lambda q, v=re + 1j * im: v**2)
        z0, z1 = (-1000, 1000) if n[2] == 1 or rnd.random() < 0.5 else (
            -dx, dx)
        stack = optplan.GdsMaterialStack(
            background=mats[0],
            stack=[optplan.GdsMaterialStackLayer(
                foreground=mats[1], background=mats[0], gds_layer=[100, 0],
                extents=[z0, z1])])

        def gds(name, layers):
            lib = gdspy.GdsLibrary(unit=1e-6, precision=1e-9)
            cell = gdspy.Cell("T", exclude_from_current=True)
            lib.add(cell)
            for k, p in layers:
                cell.add(gdspy.Polygon(np.array(p) / 1000, layer=k))
            lib.write_gds(os.path.join(folder, name))
            return optplan.GdsEps(gds=name, mat_stack=stack)

        far = [(x - 10000, y) for x, y in rect]
        kind = rnd.choice([optplan.SelectionMatrixType.DIRECT,
                           optplan.SelectionMatrixType.REDUCED])
        ck.event("direct" if kind == optplan.SelectionMatrixType.DIRECT else
                 "reduced")
        params = optplan.SimulationSpace(
            name="s", mesh=optplan.UniformMesh(dx=dx),
            eps_fg=gds("fg.gds", [(100, rect)]),
            eps_bg=gds("bg.gds", [(100, far)]),
            sim_region=optplan.Box3d(center=[0, 0, 0], extents=ext),
            pml_thickness=[0] * 6, selection_matrix_type=kind.value)
        space = simspace.SimulationSpace(params, folder)
        # Other wavelengths may have been asked for before.
        m = int(np.prod(space.design_dims))
        # Half cells of the direct lattice, whole ones of the reduced one.
        ck.expect(m >= (i1[0] - i0[0]) * (i1[1] - i0[1]) * (
            4 if kind == optplan.SelectionMatrixType.DIRECT else 1),
            "design_size", {"got": m, "kind": str(kind), "i0": i0, "i1": i1})
        if kind == optplan.SelectionMatrixType.REDUCED:
            ck.expect(m <= (i1[0] - i0[0] + 1) * (i1[1] - i0[1] + 1),
                      "design_size", {"got": m, "i0": i0, "i1": i1})
        wlens = [1300, 1550, 1550.4, 1620.3, 1300.0049]
        for _ in range(rnd.choice([0, 1, 2])):
            q = rnd.choice(wlens)
            ck.expect(space(q).selection_matrix.shape ==
                      (3 * int(np.prod(n)), m),
                      "selection_shape", {"wavelength": q,
                                          "kind": str(kind)})
            ck.event("earlier_wavelengths")
        w = rnd.choice(wlens)
        inst = space(w)
        edges = [lo[a] + dx * np.arange(n[a] + 1) for a in range(3)]

        def ends(q):
            e1, e2 = perm[0](q), perm[1](q)
            # The cells of the drawing are exact: mix by the filled volume.
            fill = np.array([np.real(geom.scene_average(
                [(rect, z0, z1, 1.0)], 0.0, geom.yee_cells(edges, c)))
                for c in range(3)])
            return e1 + 0 * fill, e1 + (e2 - e1) * fill

        bg, fg = ends(w)
        ck.expect(inst.selection_matrix.shape == (3 * int(np.prod(n)), m),
                  "selection_shape", {"got": inst.selection_matrix.shape})
        tol = 0.02
        e_fg, e_bg = simspace.get_fg_and_bg(space, w)
        ck.event("cells_compared", fg.size)
        ck.close(np.array(e_bg), bg, "background", rtol=0, atol=tol)
        ck.close(np.array(e_fg), fg, "foreground", rtol=0, atol=tol,
                 detail={"kind": str(kind), "shape": n,
                         "design": list(space.design_dims)})
        # The permittivity as a function of the structure.
        eps = creator_em.Epsilon(problem.Variable(m), w, space)
        z = rng.uniform(0, 1, m)
        par = parametrization.DirectParam(z, bounds=[0, 1])
        got = eps.calculate_objective_function(par)
        ck.event("epsilon_values")
        ck.close(got, vec(inst.eps_bg.grids) + inst.selection_matrix @ z,
                 "epsilon", rtol=1e-12)
        g3 = np.array(fdfd_tools.unvec(got, n))
        for part in (np.real, np.imag):
            lo_ = np.minimum(part(bg), part(fg)) - tol
            hi_ = np.maximum(part(bg), part(fg)) + tol
            ck.expect(np.all((part(g3) >= lo_) & (part(g3) <= hi_)),
                      "between_bg_and_fg")
        # At another wavelength than the one the grid was first made for.
        far_w = 1310.7
        dif = np.array(simspace.get_fg_and_bg(space, far_w))
        two = np.array(ends(far_w))[::-1]
        ck.close(dif, two, "other_wavelength", rtol=0, atol=tol)
        inner = np.abs(fg - bg) < 1e-12
        ck.close(dif[0][inner], two[0][inner], "other_wavelength",
                 rtol=1e-7)
        ck.close(g3[inner], fg[inner], "exact_outside", rtol=1e-7)
        # The distance from another permittivity and its gradient.
        work = workspace.Workspace(folder)
        zr = rng.uniform(0, 1, m)
        ref_kind = rnd.choice(["gds", "param", "callable"])
        if ref_kind == "callable":
            ref = vec(inst.eps_bg.grids) + inst.selection_matrix @ zr
            diff = creator_em.DiffEpsilon(eps, lambda: ref)
        p_eps = optplan.Epsilon(name="eps", simulation_space=params,
                                wavelength=w)
        if ref_kind == "param":
            # The structure of another parametrization, at a wavelength of
            # its own; it may change afterwards.
            w2 = rnd.choice(wlens)
            p_par = optplan.PixelParametrization(
                name="p", simulation_space=params,
                init_method=optplan.UniformInitializer(min_val=0, max_val=1))
            diff = work.get_object(optplan.DiffEpsilon(
                name="d", epsilon=p_eps, epsilon_ref=optplan.ParamEps(
                    parametrization=p_par, simulation_space=params,
                    wavelength=w2)))
            other = work.get_object(p_par)
            diff.calculate_objective_function(par)
            other.from_vector(zr)
            ref = (vec(space(w2).eps_bg.grids) +
                   space(w2).selection_matrix @ zr)
            ck.event("parametrized_reference")
        if ref_kind == "gds":
            ref = vec(list(fg))
            node = optplan.DiffEpsilon(name="d", epsilon=p_eps,
                                       epsilon_ref=params.eps_fg)
            diff = work.get_object(node)
        want = np.sum(np.abs(got - ref)**2)
        ck.event("diff_epsilon")
        ck.close(diff.calculate_objective_function(par), want,
                 "diff_epsilon", rtol=1e-6, scale=abs(want) + tol)
        grad = np.array(diff.calculate_gradient(par))
        dz = rng.normal(size=m)
        h = 1e-5
        num = []
        for s in (1, -1):
            q = parametrization.DirectParam(z + s * h * dz, bounds=[-1, 2])
            num.append(diff.calculate_objective_function(q))
        fd = (num[0] - num[1]) / (2 * h)
        ck.event("epsilon_gradients")
        ck.close(grad @ dz, fd, "diff_epsilon_gradient", rtol=1e-4,
                 scale=np.sum(np.abs(grad * dz)))
        # Slices of fields.
        if rnd.random() < 0.8:
            a = rnd.randrange(3)
            idx = [rnd.randrange(n[b]) for b in range(3)]
            pt = [edges[b][idx[b]] + dx * rnd.uniform(0.05, 0.95)
                  for b in range(3)]
            normal = [0, 0, 0]
            normal[a] = rnd.choice([1, -1])
            mon = creator_monitor.FieldMonitor(eps, space, pt, normal)
            sl = [slice(None)] * 3
            sl[a] = slice(idx[a], idx[a] + 1)
            ck.event("field_slices")
            ck.close(np.array(mon.get_data(par)), g3[(slice(None),) +
                                                    tuple(sl)],
                     "field_slice", rtol=1e-12, detail={"axis": a,
                                                        "index": idx})
        else:
            mon = creator_monitor.FieldMonitor(eps, space)
            ck.event("full_fields")
            ck.close(np.array(mon.get_data(par)), g3, "full_field",
                     rtol=1e-12)
        sm = creator_monitor.SimpleMonitor(diff)
        ck.close(sm.get_data(par), want, "simple_monitor", rtol=1e-6)
    ck.key(n, dx, str(kind), i0, i1)
