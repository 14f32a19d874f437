"""C30: quadratic cells from linear ones."""
from hypothesis import strategies as st

from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

CT = pv.CellType
RULE = (
    "Unstructured surfaces of triangles and quads in any order, orientation and plane, with duplicated and unused points; any other cell "
    "anywhere in the mesh. Non-trivial: both kinds of cells, or more than two cells."
)


@st.composite
def s_quad(draw):
    return {
        "u": draw(gen.usurf(3, kinds=(0, 0, 1, 2))),
        "bend": draw(st.sampled_from([0.0, 0.5])),
        "explode": draw(st.booleans()),
        "seed": draw(st.integers(0, 999)),
        "unused": draw(st.booleans()),
        "f32": draw(st.booleans()),
    }


def c_quad(s, rec):
    pts, cells = geo.usurf_arrays(s["u"])
    rng = np.random.default_rng(s["seed"])
    pts = pts + s["bend"] * rng.random(pts.shape)
    if s["explode"]:
        pts, cells, old = [], [], (pts, cells)
        for t, c in old[1]:
            cells.append((t, list(range(len(pts), len(pts) + len(c)))))
            pts += [old[0][i] for i in c]
        pts = np.array(pts)
    if s["unused"]:
        pts = np.vstack([pts[:1] + 100.0, pts])
        cells = [(t, [i + 1 for i in c]) for t, c in cells]
    m = meshes.ugrid(pts, cells)
    if s["f32"]:
        m.points = m.points.astype(np.float32)
    p = np.asarray(m.points, dtype=float)
    before = geo.snapshot(m)
    out = pvg.quadraticize(m)
    geo.unchanged(before, geo.snapshot(m), "input of quadraticize")
    require(isinstance(out, pv.UnstructuredGrid), f"type of the result: {type(out).__name__}")
    geo.same(out.n_cells, len(cells), "number of cells")
    x = np.asarray(out.points, dtype=float)
    tol = 1e-6 if s["f32"] else 1e-12
    for (t, c), (rt, rc) in zip(geo.ugrid_cells(out), cells):
        n = len(rc)
        geo.same(t, int(CT.QUADRATIC_TRIANGLE if n == 3 else CT.QUADRATIC_QUAD), "type of a cell")
        geo.same(c[:n], rc, "corners of a cell")
        geo.same(len(c), 2 * n, "number of vertices of a cell")
        geo.close(x[c[:n]], p[rc], "corners of a cell", tol)
        geo.close(x[c[n:]], [(p[a] + p[b]) / 2.0 for a, b in zip(rc, rc[1:] + rc[:1])], "nodes along edges", tol)
    geo.close(x[: len(p)], p, "original points", tol)
    geo.same(len(x), len({i for _, c in geo.ugrid_cells(out) for i in c} | set(range(len(p)))), "points")
    rec.label(f"cells:{min(len(cells), 6)}")
    rec.nontrivial(len({t for t, _ in cells}) > 1 or len(cells) > 2)


@st.composite
def s_bad(draw):
    return {"m": draw(meshes.mesh(kinds=("u2", "u3"), n_max=2, hidden=False, empty=True))}


def c_bad(s, rec):
    M = meshes.Mesh(s["m"])
    ok = all(t in (CT.TRIANGLE, CT.QUAD) for t, _ in M.cells)
    if ok:
        rec.label("supported")
        geo.same(pvg.quadraticize(M.mesh).n_cells, len(M.cells), "number of cells")
        return
    geo.raises(NotImplementedError, lambda: pvg.quadraticize(M.mesh), "other cells")
    rec.nontrivial(any(t in (CT.TRIANGLE, CT.QUAD) for t, _ in M.cells))


FACETS = [Facet("quadratic", s_quad(), c_quad, 600, 6000), Facet("large", meshes.large(s_quad(), "u"), c_quad, 60, 600), Facet("reject", s_bad(), c_bad, 240, 1000)]
