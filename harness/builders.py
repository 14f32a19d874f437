"""Base meshes of stacks and extrusions, and the reference model of what they produce."""
from __future__ import annotations

from hypothesis import strategies as st

from . import gen, geo
from .boot import np, pv, pvg
from .core import Violation, require

DTYPES = ["float64", "int64", "int32", "float32", "uint8", "bool"]


# --------------------------------------------------------------- strategies
@st.composite
def base(draw, kinds=("s", "u", "l"), n_max=3, axis=None, wobble=True):
    kind = draw(st.sampled_from(list(kinds)))
    f32 = draw(st.sampled_from([False, False, True]))

    def precise(out):
        """Double precision far from the origin."""
        return {**out, "f32": out["f32"] and max(map(abs, out["xs"])) < 1.0e5}

    if kind == "s":
        rect = draw(st.sampled_from([False, False, False, True]))
        out = precise({"kind": "s", "f32": f32, **draw(gen.ssurf(n_max, axis=axis, wobble=wobble))})
        if rect:
            # Axis-aligned base given as a rectilinear grid
            out.update(rect=True, wob=None, shear=0.0, f32=False)
        return out
    if kind == "u":
        return precise({"kind": "u", "f32": f32, **draw(gen.usurf(n_max, axis=axis))})
    xs = draw(gen.increasing(2, n_max + 2))
    return {
        "kind": "l",
        "f32": f32,
        "xs": xs,
        "axis": draw(st.sampled_from([2, 2, 0, 1])) if axis is None else axis,
        "w": draw(gen.offset),
        "lat": draw(st.lists(gen.num(-3, 3), min_size=len(xs), max_size=len(xs))),
    }


@st.composite
def large(draw, kinds=("s", "u", "l"), n_min=105, n_max=330):
    """A base of more than a hundred cells, drawn from a few numbers."""
    from random import Random

    kind = draw(st.sampled_from(list(kinds)))
    n = draw(st.integers(n_min, n_max))
    rng = Random(draw(st.integers(0, 10**6)))

    def coords(k):
        x = [float(rng.randint(-20, 20))]
        for _ in range(k - 1):
            x.append(x[-1] + 0.25 * rng.randint(1, 8))
        return x

    out = {"kind": kind, "f32": False, "axis": draw(st.sampled_from([2, 2, 0, 1])), "w": draw(gen.offset)}
    if kind == "l":
        out.update(xs=coords(n + 1), lat=[0.5 * rng.randint(-6, 6) for _ in range(n + 1)])
        return out
    ny = draw(st.sampled_from([1, 3, 8, 15]))
    nx = -(-n // ny)
    out.update(xs=coords(nx + 1), ys=coords(ny + 1))
    if kind == "s":
        out.update(wob=None, shear=0.0)
    else:
        k = nx * ny
        mix = draw(st.sampled_from([[0], [1, 2], [4], [0, 1, 2, 4, 5]]))
        out.update(
            kinds=[rng.choice(mix) for _ in range(k)],
            flip=[rng.random() < 0.3 for _ in range(k)],
            roll=rng.randint(0, 3),
            perm=rng.randint(0, 50),
            jit=None,
        )
    return out


@st.composite
def data(draw, n_max=3, where=("cell",)):
    n = draw(st.integers(1, n_max))
    return [
        {
            "name": f"d{i}",
            "where": draw(st.sampled_from(list(where))),
            "comp": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
            "dtype": draw(st.sampled_from(DTYPES)),
            "seed": draw(st.integers(0, 5)),
        }
        for i in range(n)
    ]


# --------------------------------------------------------------- base meshes
class Base:
    """A base mesh with what the oracle needs to know about it."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.axis = spec["axis"]
        if self.kind == "s":
            p = geo.ssurf_points(spec)
            self.mesh = geo.build_ssurf(spec, p)
            n, m = p.shape[:2]
            if spec.get("rect"):
                c = [spec["xs"], spec["ys"]]
                c.insert(self.axis, [spec["w"]])
                self.mesh = pv.RectilinearGrid(*[np.array(x, dtype=float) for x in c])
            self.pts = p.transpose(1, 0, 2).reshape(-1, 3)  # VTK (Fortran) order
            ids = np.arange(n * m).reshape(m, n).T
            self.cells = [
                [int(ids[i, j]), int(ids[i + 1, j]), int(ids[i + 1, j + 1]), int(ids[i, j + 1])]
                for j in range(m - 1)
                for i in range(n - 1)
            ]
        elif self.kind == "u":
            self.pts, cells = geo.usurf_arrays(spec)
            self.mesh = geo.make_ugrid(self.pts, cells)
            self.types = [t for t, _ in cells]
            self.cells = [geo.ring(t, c) for t, c in cells]
        else:
            n = len(spec["xs"])
            p = np.full((n, 3), spec["w"])
            a = self.axis
            p[:, (a + 1) % 3] = spec["xs"]
            p[:, (a + 2) % 3] = spec["lat"]
            self.pts = p
            self.mesh = pv.PolyData(p.copy(), lines=[n, *range(n)])
            self.cells = [[i, i + 1] for i in range(n - 1)]
        if spec.get("f32"):
            # Single precision coordinates, as made by most sources of pyvista
            self.mesh.points = np.asarray(self.mesh.points).astype(np.float32)
            self.pts = np.asarray(self.mesh.points).astype(float)
        self.lat = [i for i in range(3) if i != self.axis]

    def stack(self, **kw):
        cls = pvg.MeshStack2D if self.kind == "l" else pvg.MeshStack3D
        return cls(self.mesh, axis=self.axis, **kw)

    def cell_centers(self):
        return np.array([self.pts[c].mean(axis=0) for c in self.cells])


def data_array(d, n):
    """Distinguishable values of a data spec."""
    k = max(1, d["comp"])
    v = np.arange(n * k).reshape(n, k) * 3 + 1 + 7 * d["seed"]
    v = v % 251 if d["dtype"] == "uint8" else v
    v = v * v % 7 < 3 if d["dtype"] == "bool" else v
    v = v.astype(d["dtype"])
    if d["dtype"].startswith("float"):
        v = v / 4 - 10
        v = v.astype(d["dtype"])
    return v if d["comp"] else v[:, 0]


def attach(mesh, specs):
    out = {}
    for d in specs:
        n = mesh.n_cells if d["where"] == "cell" else mesh.n_points
        arr = data_array(d, n)
        getattr(mesh, f"{d['where']}_data")[d["name"]] = arr
        out[d["name"]] = arr
    return out


def same_data(actual, expected, msg):
    """Values and kind of a data array; single-component arrays may be flattened."""
    a, e = np.asarray(actual), np.asarray(expected)
    if e.ndim == 2 and e.shape[1] == 1:
        e = e[:, 0]
    if a.ndim == 2 and a.shape[1] == 1:
        a = a[:, 0]
    # VTK has no booleans: filters may leave them as integers
    require(a.dtype.kind == e.dtype.kind or (e.dtype.kind == "b" and a.dtype.kind == "u") or {a.dtype.kind, e.dtype.kind} <= set("iu"), f"{msg}: dtype {a.dtype}, expected {e.dtype}")
    geo.array_equal(a, e, msg)


# --------------------------------------------------------------- generated meshes
def vertex_ids(mesh):
    """Point IDs of every cell (hidden ones included), structured or not."""
    if isinstance(mesh, pv.StructuredGrid):
        dims = mesh.dimensions
        ids = np.arange(mesh.n_points).reshape(dims, order="F")
        out = []
        rng = [range(max(1, n - 1)) for n in dims]
        for k in rng[2]:
            for j in rng[1]:
                for i in rng[0]:
                    out.append(ids[i : i + 2, j : j + 2, k : k + 2].ravel().tolist())
        return out
    return [
        sorted({i for f in c for i in f}) if t == geo.CT.POLYHEDRON else list(c)
        for t, c in geo.ugrid_cells(mesh)
    ]


def centers(mesh):
    pts = np.asarray(mesh.points, dtype=float)
    return np.array([pts[ids].mean(axis=0) for ids in vertex_ids(mesh)])


def column_of(mesh, b, tol=1e-6):
    """Base cell below every cell of a mesh obtained by moving points along the axis."""
    c = centers(mesh)
    ref = b.cell_centers()
    c[:, b.axis] = 0.0
    ref[:, b.axis] = 0.0
    return geo.match(c, ref, "lateral position of cells", tol=tol)


def levels(interfaces, res):
    """Positions of all the layer boundaries and the item of each layer."""
    out, item = [np.asarray(interfaces[0], dtype=float)], []
    for i, (a, b, r) in enumerate(zip(interfaces, interfaces[1:], res)):
        t = geo.perc(r)
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        out += [a + x * (b - a) for x in t[1:]]
        item += [i] * (len(t) - 1)
    return out, item


def expected_cells(b, lev):
    """[(column, layer, center)] of every expected cell, from 3D levels (n_levels, n_points, 3)."""
    out = []
    for k, (p, q) in enumerate(zip(lev, lev[1:])):
        for c, ids in enumerate(b.cells):
            out.append((c, k, 0.5 * (p[ids].mean(axis=0) + q[ids].mean(axis=0))))
    return out


def assign(mesh, b, lev, msg, tol=1e-6):
    """(column, layer) of every cell of a mesh without collapsed cells."""
    exp = expected_cells(b, lev)
    geo.same(mesh.n_cells, len(exp), f"{msg}: number of cells")
    if isinstance(mesh, pv.UnstructuredGrid):
        # Consecutive layers share the nodes of their interface
        geo.same(mesh.n_points, len(lev) * len(b.pts), f"{msg}: number of nodes")
    idx = geo.match(centers(mesh), np.array([e[2] for e in exp]), f"{msg}: cells", tol=tol)
    geo.same(sorted(idx.tolist()), list(range(len(exp))), f"{msg}: cells")
    return np.array([exp[i][0] for i in idx]), np.array([exp[i][1] for i in idx])


def shift(b, z):
    """Base points with the stacking coordinate replaced."""
    p = b.pts.copy()
    p[:, b.axis] = z
    return p
