"""C19: extraction of cells."""
from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

CT = geo.CT
RULE = (
    "Meshes of every kind with hidden and empty cells and data, and selections by indices, masks, inversion and dimension; "
    "every extracted cell (type, coordinates of its vertices, data, hidden flag) against the selection. "
    "Non-trivial: some cells are extracted and some are not."
)


@st.composite
def s_cells(draw):
    return {
        "m": draw(meshes.mesh(n_max=3)),
        "sel": draw(st.lists(st.integers(0, 60), max_size=12)),
        "form": draw(st.sampled_from(["list", "array", "mask", "mask_list", "int32"])),
        "invert": draw(st.sampled_from([None, True, False])),
        "data": draw(B.data(2, where=("cell", "point"))),
    }


@st.composite
def s_many(draw):
    s = draw(s_cells())
    s["sel"] = [draw(st.integers(0, 10**6)) for _ in range(draw(st.integers(0, 30)))]
    return s


def attach(m, data):
    out = {}
    for d in data:
        cell = d["where"] == "cell"
        v = B.data_array(d, len(m.cells) if cell else len(m.points))
        (m.mesh.cell_data if cell else m.mesh.point_data)[d["name"]] = v
        out[d["name"]] = (d["where"], v)
    return out


def check(out, m, keep, data, msg, hidden=True):
    require(isinstance(out, pv.UnstructuredGrid), f"{msg}: type of the result")
    geo.same(out.n_cells, len(keep), f"{msg}: number of cells")
    if not keep:
        return
    pts = np.asarray(out.points, dtype=float)
    used = sorted({q for i in keep for q in m.vertices(i)})
    geo.same(out.n_points, len(used), f"{msg}: number of points")
    seen = {}
    for i, (t, c) in zip(keep, geo.ugrid_cells(out)):
        T, C = m.cells[i]
        if T == CT.POLYHEDRON:
            geo.same(int(t), int(T), f"{msg}: type of cell {i}")
            geo.same(len(c), len(C), f"{msg}: faces of cell {i}")
            pairs = list(zip(c, C))
            for f, F in pairs:
                geo.close(pts[f], m.points[F], f"{msg}: face of cell {i}", tol=1e-6)
            flat = [(a, b) for f, F in pairs for a, b in zip(f, F)]
        else:
            # Pixels and voxels may become quads and hexahedra, and the other way round
            a, b = sorted(map(int, c)), list(C)
            geo.same(len(a), len(b), f"{msg}: vertices of cell {i}")
            geo.same(dim_of(int(t)), dim_of(T), f"{msg}: dimension of cell {i}")
            x, y = pts[list(c)], m.points[b]
            ring_x = x[[0, 1, 3, 2]] if t == CT.PIXEL else x
            ring_y = y[[0, 1, 3, 2]] if T == CT.PIXEL else y
            if len(b) and dim_of(T) == 2:
                geo.close(np.abs(geo.polygon_normal_area(ring_x)), np.abs(geo.polygon_normal_area(ring_y)), f"{msg}: area of cell {i}", tol=1e-6)
            ax, ay = x[np.lexsort(x.T)], y[np.lexsort(y.T)]
            if len(b):
                geo.close(ax, ay, f"{msg}: vertices of cell {i}", tol=1e-6)
            flat = []
            if (int(t) == T) and len(b):
                geo.close(x, y, f"{msg}: vertices of cell {i}", tol=1e-6)
                flat = list(zip(c, b))
        for a, b in flat:
            require(seen.setdefault(int(a), b) == b, f"{msg}: a point of the result stands for several points")
    for name, (where, v) in data.items():
        if where == "cell":
            require(name in out.cell_data, f"{msg}: cell data is lost")
            B.same_data(out.cell_data[name], v[keep], f"{msg}: cell data")
        else:
            require(name in out.point_data, f"{msg}: point data is lost")
            w = np.asarray(out.point_data[name])
            k = sorted(seen)
            if k:
                B.same_data(w[k], v[[seen[q] for q in k]], f"{msg}: point data")


def dim_of(t):
    if t == CT.EMPTY_CELL:
        return -1
    if t in (CT.VERTEX, CT.POLY_VERTEX):
        return 0
    if t in (CT.LINE, CT.POLY_LINE):
        return 1
    if t in (CT.TRIANGLE, CT.TRIANGLE_STRIP, CT.POLYGON, CT.PIXEL, CT.QUAD):
        return 2
    return 3


def c_cells(s, rec):
    m = meshes.Mesh(s["m"])
    n = len(m.cells)
    sel = sorted({k % n for k in s["sel"]})
    data = attach(m, s["data"])
    if s["form"].startswith("mask"):
        ind = np.zeros(n, dtype=bool)
        ind[sel] = True
        ind = ind.tolist() if s["form"] == "mask_list" else ind
    elif s["form"] == "list":
        sel = sel or [n // 2]  # an empty list is refused
        ind = list(sel)
    else:
        ind = np.array(sel, dtype=np.int32 if s["form"] == "int32" else int)
    kw = {} if s["invert"] is None else {"invert": s["invert"]}
    before = geo.snapshot(m.mesh)
    out = pvg.extract_cells(m.mesh, ind, **kw)
    geo.unchanged(before, geo.snapshot(m.mesh), "input of extract_cells")
    keep = [k for k in range(n) if (k in sel) != bool(s["invert"])]
    check(out, m, keep, data, "extract_cells")
    if keep:
        geo.array_equal(out.cell_data["vtkOriginalCellIds"], keep, "original cell IDs")
        if s["m"]["hidden"]:
            require("vtkGhostType" in out.cell_data, "hidden flags are lost")
            geo.array_equal(out.cell_data["vtkGhostType"], before["cell_data/vtkGhostType"][keep], "hidden flags")
    rec.label(s["m"]["kind"], s["form"], f"invert:{s['invert']}", "hidden" if m.hidden.any() else "visible")
    rec.nontrivial(0 < len(keep) < n)


# ------------------------------------------------------------------ by dimension
SHAPES = {
    int(CT.VERTEX): 1,
    int(CT.POLY_VERTEX): 3,
    int(CT.LINE): 2,
    int(CT.POLY_LINE): 4,
    int(CT.TRIANGLE): 3,
    int(CT.TRIANGLE_STRIP): 4,
    int(CT.POLYGON): 5,
    int(CT.PIXEL): 4,
    int(CT.QUAD): 4,
    int(CT.TETRA): 4,
    int(CT.VOXEL): 8,
    int(CT.HEXAHEDRON): 8,
    int(CT.WEDGE): 6,
    int(CT.PYRAMID): 5,
    int(CT.PENTAGONAL_PRISM): 10,
    int(CT.HEXAGONAL_PRISM): 12,
    int(CT.QUADRATIC_EDGE): 3,
    int(CT.QUADRATIC_TRIANGLE): 6,
    int(CT.QUADRATIC_QUAD): 8,
    int(CT.QUADRATIC_TETRA): 10,
    int(CT.QUADRATIC_HEXAHEDRON): 20,
    int(CT.QUADRATIC_WEDGE): 15,
    int(CT.QUADRATIC_PYRAMID): 13,
    int(CT.EMPTY_CELL): 0,
}
DIM = {
    -1: {0},
    0: {1, 2},
    1: {3, 4, 21},
    2: {5, 6, 7, 8, 9, 22, 23},
    3: {10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27},
}
DIM = {t: d for d, ts in DIM.items() for t in ts}


@st.composite
def s_dim(draw):
    return {
        "types": draw(st.lists(st.sampled_from(sorted(SHAPES)), min_size=1, max_size=7)),
        "ndim": draw(st.sampled_from([None, 0, 1, 2, 3])),
        "method": draw(st.sampled_from([None, "upper", "lower", "both"])),
        "empty": draw(st.sampled_from([None, True, False])),
        "data": draw(B.data(2)),
        "hidden": draw(st.lists(st.integers(0, 6), max_size=3)),
    }


def c_dim(s, rec):
    pts, cells = [], []
    rng = np.random.default_rng(7)
    for k, t in enumerate(s["types"]):
        n = SHAPES[t]
        cells.append((t, list(range(len(pts), len(pts) + n))))
        pts += (rng.random((n, 3)) + 10.0 * k).tolist()
    if not pts:
        pts = [[0.0, 0.0, 0.0]]
    u = meshes.ugrid(pts, cells)
    n = len(cells)
    dims = [DIM[t] for t, _ in cells]
    if s["hidden"]:
        g = np.zeros(n, dtype=np.uint8)
        g[[h % n for h in s["hidden"]]] = 32
        u.cell_data["vtkGhostType"] = g
    data = {}
    for d in s["data"]:
        data[d["name"]] = B.data_array(d, n)
        u.cell_data[d["name"]] = data[d["name"]]
    geo.same(int(pvg.get_dimension(u)), max(dims), "dimension of the mesh")
    kw = {}
    if s["ndim"] is not None:
        kw["ndim"] = s["ndim"]
    if s["method"] is not None:
        kw["method"] = s["method"]
    if s["empty"] is not None:
        kw["keep_empty_cells"] = s["empty"]
    if s["method"] == "both":
        geo.raises(ValueError, lambda: pvg.extract_cells_by_dimension(u, **kw), "unknown method")
        return
    before = geo.snapshot(u)
    nd = max(dims) if s["ndim"] is None else s["ndim"]
    if s["ndim"] is None and nd < 0:
        return
    lower = s["method"] == "lower"
    keep = [i for i, d in enumerate(dims) if (d <= nd if lower else d >= nd) and d >= 0 or (d < 0 and bool(s["empty"]))]
    if not keep:
        rec.label("nothing")
    out = pvg.extract_cells_by_dimension(u, **kw)
    geo.unchanged(before, geo.snapshot(u), "input of extract_cells_by_dimension")
    geo.same(out.n_cells, len(keep), "number of extracted cells")
    if not keep:
        return
    geo.same([int(t) for t in out.celltypes], [cells[i][0] for i in keep], "types of the extracted cells")
    p = np.asarray(out.points, dtype=float)
    for i, (t, c) in zip(keep, geo.ugrid_cells(out)):
        if c:
            geo.close(p[c], np.array(pts)[cells[i][1]], f"points of cell {i}")
    for name, v in data.items():
        B.same_data(out.cell_data[name], v[keep], "data of the extracted cells")
    if s["hidden"]:
        geo.array_equal(out.cell_data["vtkGhostType"], g[keep], "hidden flags of the extracted cells")
    rec.label(f"ndim:{s['ndim']}", f"method:{s['method']}", f"empty:{s['empty']}")
    rec.nontrivial(0 < len(keep) < n)


FACETS = [
    Facet("cells", s_cells(), c_cells, 1500, 15000),
    Facet("large", meshes.large(s_many()), c_cells, 60, 600),
    Facet("dimension", s_dim(), c_dim, 1500, 15000),
]
