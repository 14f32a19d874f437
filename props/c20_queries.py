"""C20: connectivity, centres, dimension and groups of a mesh."""
from hypothesis import strategies as st

from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

CT = geo.CT
RULE = (
    "Meshes of every kind (structured, image, rectilinear, polygonal, unstructured mixing all cell types including polyhedra and "
    "empty cells) with hidden cells; connectivity, centres, dimension and group names against the generator's own tables. "
    "Non-trivial: >= 2 cells."
)


@st.composite
def s_mesh(draw):
    return {
        "m": draw(meshes.mesh(n_max=3, scaled=True)),
        "method": draw(st.sampled_from([None, "box", "geometric", "tetra"])),
        "wob": draw(st.integers(0, 1000)),
        "nums": draw(st.lists(st.integers(-3, 9), min_size=1, max_size=4, unique=True)),
        "key": draw(st.sampled_from([None, "CellGroup", "Other"])),
        "dict": draw(st.booleans()),
        "pre": draw(st.sampled_from(["g", "", "Lower Carboniferous (shale and sandstone), unit no. ", "grès à "])),
    }


@st.composite
def s_wide(draw):
    s = draw(s_mesh())
    a = draw(st.integers(-200, 40000))
    s["nums"] = [a + i * draw(st.integers(1, 3)) for i in range(draw(st.integers(1, 3)))] if draw(st.booleans()) else list(range(a, a + draw(st.integers(10, 300))))
    return s


def canonical(t, c, T):
    """Connectivity in the VTK order of type t."""
    c = list(c)
    if t == CT.PIXEL and T == CT.QUAD:
        return [c[0], c[1], c[3], c[2]]
    if t == CT.VOXEL and T == CT.HEXAHEDRON:
        return [c[i] for i in (0, 1, 3, 2, 4, 5, 7, 6)]
    return c


def c_conn(s, rec):
    spec = dict(s["m"])
    if spec["kind"][0] in "sir":
        # The connectivity of hidden structured cells is VTK's
        spec.update(hidden=[], other=[])
    m = meshes.Mesh(spec)
    before = geo.snapshot(m.mesh)
    out = pvg.get_cell_connectivity(m.mesh)
    flat = pvg.get_cell_connectivity(m.mesh, flatten=True)
    geo.unchanged(before, geo.snapshot(m.mesh), "input of get_cell_connectivity")
    require(isinstance(out, tuple), "connectivity is not a tuple")
    geo.same(len(out), len(m.cells), "number of cells in the connectivity")
    types = m.mesh.cast_to_unstructured_grid().celltypes
    for i, (c, (T, C)) in enumerate(zip(out, m.cells)):
        if T == CT.POLYHEDRON:
            geo.same([list(map(int, f)) for f in c], [list(f) for f in C], f"faces of cell {i}")
        else:
            t = int(types[i])
            if spec["kind"][0] in "sir":
                got = canonical(t, c, T)
                require(meshes.same_ring(got[:4], C[:4]) and len(got) == len(C), f"connectivity of cell {i}: {got}, expected {C}")
                if len(C) == 8:
                    up = {a: b for a, b in zip(C[:4], C[4:])}
                    geo.same([up[a] for a in got[:4]], got[4:], f"connectivity of cell {i}")
            else:
                geo.same(list(map(int, c)), list(C), f"connectivity of cell {i}")
    # Enough to build the mesh again
    u = pv.UnstructuredGrid(np.asarray(flat), types, m.points)
    geo.same(u.n_cells, len(m.cells), "number of cells of the mesh built again")
    a, b = geo.ugrid_cells(u), geo.ugrid_cells(m.mesh)
    require(a == b, "mesh built again from its flat connectivity")
    rec.label(spec["kind"], *{pv.CellType(t).name for t, _ in m.cells})
    rec.nontrivial(len(m.cells) > 1)


def volume_centroid(faces, p):
    o = p.mean(axis=0)
    v, c = 0.0, np.zeros(3)
    for f in faces:
        for a, b in zip(f[1:], f[2:]):
            t = np.array([p[f[0]], p[a], p[b]]) - o
            w = np.linalg.det(t) / 6.0
            v += w
            c += w * t.sum(axis=0) / 4.0
    return o + c / v


def c_centers(s, rec):
    m = meshes.Mesh(s["m"])
    if s["m"]["kind"][0] == "u" and s["m"].get("jit"):
        # Asymmetric cells, so that all definitions of a centre differ
        q = np.random.default_rng(s["wob"]).integers(-2, 3, m.points.shape) / 32.0
        m.points = m.points + q * m.unit
        m.mesh.points = m.points
    method = s["method"]
    kw = {} if method is None else {"polyhedron_method": method}
    before = geo.snapshot(m.mesh)
    out = pvg.get_cell_centers(m.mesh, **kw)
    geo.unchanged(before, geo.snapshot(m.mesh), "input of get_cell_centers")
    out = np.asarray(out)
    geo.same(out.shape, (len(m.cells), 3), "shape of the centres")
    out = out / m.unit
    for i, (t, c) in enumerate(m.cells):
        if t == CT.EMPTY_CELL:
            require(np.isnan(out[i]).all(), f"centre {out[i]} of an empty cell")
            continue
        ids = m.vertices(i)
        p = m.points[ids] / m.unit
        if t == CT.POLYHEDRON:
            if method in (None, "box"):
                ref = 0.5 * (p.min(axis=0) + p.max(axis=0))
                if method is None and pv.vtk_version_info >= (9, 5, 0):
                    continue
            elif method == "geometric":
                ref = p.mean(axis=0)
            else:
                k = {q: j for j, q in enumerate(ids)}
                ref = volume_centroid([[k[q] for q in f] for f in c], p)
        elif t == CT.PYRAMID:
            # VTK's parametric centre
            continue
        elif t == CT.POLYGON:
            require((out[i] > p.min(axis=0) - 1e-6).all() and (out[i] < p.max(axis=0) + 1e-6).all(), f"centre of polygon {i} out of its bounds")
            continue
        else:
            ref = p.mean(axis=0)
        geo.close(out[i], ref, f"centre of cell {i} ({pv.CellType(t).name}, method {method})", tol=1e-5)
    rec.label(s["m"]["kind"], f"method:{method}", "hidden" if m.hidden.any() else "visible")
    rec.nontrivial(len(m.cells) > 1)


# Dimension and smallest number of nodes of the types of cells
TYPES = {
    "EMPTY_CELL": (-1, 0),
    "VERTEX": (0, 1),
    "POLY_VERTEX": (0, 3),
    "LINE": (1, 2),
    "POLY_LINE": (1, 3),
    "TRIANGLE": (2, 3),
    "TRIANGLE_STRIP": (2, 4),
    "POLYGON": (2, 5),
    "PIXEL": (2, 4),
    "QUAD": (2, 4),
    "TETRA": (3, 4),
    "VOXEL": (3, 8),
    "HEXAHEDRON": (3, 8),
    "WEDGE": (3, 6),
    "PYRAMID": (3, 5),
    "PENTAGONAL_PRISM": (3, 10),
    "HEXAGONAL_PRISM": (3, 12),
    "QUADRATIC_EDGE": (1, 3),
    "QUADRATIC_TRIANGLE": (2, 6),
    "QUADRATIC_QUAD": (2, 8),
    "QUADRATIC_POLYGON": (2, 10),
    "QUADRATIC_TETRA": (3, 10),
    "QUADRATIC_HEXAHEDRON": (3, 20),
    "QUADRATIC_WEDGE": (3, 15),
    "QUADRATIC_PYRAMID": (3, 13),
    "BIQUADRATIC_QUAD": (2, 9),
    "TRIQUADRATIC_HEXAHEDRON": (3, 27),
    "QUADRATIC_LINEAR_QUAD": (2, 6),
    "QUADRATIC_LINEAR_WEDGE": (3, 12),
    "BIQUADRATIC_QUADRATIC_WEDGE": (3, 18),
    "BIQUADRATIC_QUADRATIC_HEXAHEDRON": (3, 24),
    "BIQUADRATIC_TRIANGLE": (2, 7),
    "CUBIC_LINE": (1, 4),
}


def c_types(s, rec):
    """The dimension of a mesh is the highest of those of its cells."""
    kinds = [s["types"][0]] if s["same"] else s["types"]
    cells = []
    for k in kinds:
        n = TYPES[k][1]
        cells += [n, *range(n)]
    pts = np.random.default_rng(len(kinds)).random((30, 3))
    m = pv.UnstructuredGrid(np.array(cells), [int(CT[k]) for k in kinds], pts)
    geo.same(int(pvg.get_dimension(m)), max(TYPES[k][0] for k in kinds), f"dimension of a mesh of {kinds}")
    rec.label(*kinds)
    rec.nontrivial()


def c_group(s, rec):
    m = meshes.Mesh(s["m"])
    geo.same(int(pvg.get_dimension(m.mesh)), m.dim, f"dimension of a mesh of kind {s['m']['kind']}")
    n = m.mesh.n_cells
    key = s["key"] or "CellGroup"
    kw = {} if s["key"] is None else {"key": s["key"]}
    require(pvg.get_cell_group(m.mesh, **kw) is None, "group of a mesh without group")
    rng = np.random.default_rng(s["wob"])
    nums = s["nums"]
    v = np.array(nums)[rng.integers(0, len(nums), n)]
    m.mesh.cell_data[key] = v
    other = "Other" if key == "CellGroup" else "CellGroup"
    require(pvg.get_cell_group(m.mesh, other) is None, "group of another array")
    if s["dict"]:
        m.mesh.user_dict[key] = {f"{s['pre']}{k}": int(k) for k in nums}
        m.mesh.user_dict[other] = {"wrong": int(nums[0])}
    _ = m.mesh.user_dict  # created on first access
    before = geo.snapshot(m.mesh)
    got = pvg.get_cell_group(m.mesh, **kw)
    geo.unchanged(before, geo.snapshot(m.mesh), "input of get_cell_group")
    exp = [f"{s['pre']}{k}" for k in v] if s["dict"] else v.tolist()
    geo.same([str(x) if s["dict"] else int(x) for x in got], exp, "groups of the cells")
    rec.label(f"dict:{s['dict']}", f"key:{s['key']}")
    rec.nontrivial(n > 1)


FACETS = [
    Facet("connectivity", s_mesh(), c_conn, 1200, 12000),
    Facet("centers", s_mesh(), c_centers, 1500, 12000),
    Facet("group", s_mesh(), c_group, 600, 6000),
    Facet("connectivity_large", meshes.large(s_mesh()), c_conn, 40, 400),
    Facet("centers_large", meshes.large(s_mesh()), c_centers, 60, 600),
    Facet("group_large", meshes.large(s_wide()), c_group, 60, 600),
    Facet("dimension", st.fixed_dictionaries({"types": st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=3), "same": st.booleans()}), c_types, 500, 2000),
]
