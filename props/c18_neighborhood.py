"""C18: edges, faces, neighbours and connections of cells."""
from collections import Counter
from itertools import combinations

from hypothesis import strategies as st

from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Meshes of every kind (structured, image, rectilinear, polygonal, unstructured mixing all supported 2D or 3D cell types "
    "with empty cells), with hidden cells and collapsed faces; edges/faces, neighbours and connections against cell tables "
    "and shared vertex sets of the oracle. Non-trivial: >= 2 cells share an edge or a face."
)


@st.composite
def s_geom(draw):
    return {"m": draw(meshes.mesh(scaled=True, lines=True)), "ghost": draw(st.sampled_from([None, True, False])), "form": draw(st.sampled_from([None, "array", "list"])), "seed": draw(st.integers(0, 9))}


def setup(s, rec):
    m = meshes.Mesh(s["m"])
    if (m.hidden | np.array([t == 0 for t, _ in m.cells])).all():
        # Nothing is left
        rec.label("all hidden")
        return None
    ghost = s["ghost"] is not False
    kw = {} if s["ghost"] is None else {"remove_ghost_cells": s["ghost"]}
    exp = m.shared(ghost)
    if not exp:
        rec.label("no edge left")
        return None
    rec.label(s["m"]["kind"], f"ghost:{s['ghost']}", "hidden" if m.hidden.any() else "visible", *{pv.CellType(t).name for t, _ in m.cells})
    rec.nontrivial(any(len(c) > 1 for _, c in exp.values()))
    return m, exp, kw


def c_geom(s, rec):
    got = setup(s, rec)
    if got is None:
        return
    m, exp, kw = got
    before = geo.snapshot(m.mesh)
    poly = pvg.extract_cell_geometry(m.mesh, **kw)
    geo.unchanged(before, geo.snapshot(m.mesh), "input of extract_cell_geometry")
    require(isinstance(poly, pv.PolyData), "type of the geometry")
    geo.close(poly.points / m.unit, m.points / m.unit, "points of the geometry")
    ids = np.asarray(poly.cell_data["vtkOriginalCellIds"])
    if m.dim == 2:
        cells = np.asarray(poly.lines).reshape(-1, 3)[:, 1:].tolist()
    else:
        cells = [list(f) for f in poly.irregular_faces] if poly.n_cells else []
    geo.same(len(cells), len(exp), "number of edges or faces")
    n = max([2, *(len(c) for _, c in exp.values())])
    geo.same(ids.shape, (len(exp), n), "shape of vtkOriginalCellIds")
    seen = set()
    for c, row in zip(cells, ids.tolist()):
        key = frozenset(c)
        require(key in exp and key not in seen, f"unexpected edge or face {c}")
        seen.add(key)
        require(meshes.same_ring(c, exp[key][0]), f"vertices of face {c}, expected {exp[key][0]}")
        k = [i for i in row if i != -1]
        geo.same(sorted(k), sorted(exp[key][1]), f"cells of the edge or face {c}")
        require(row[: len(k)] == k, f"padding of vtkOriginalCellIds {row}")


def c_neigh(s, rec):
    s["m"].pop("alone", None)
    got = setup(s, rec)
    if got is None:
        return
    m, exp, kw = got
    before = geo.snapshot(m.mesh)
    out = pvg.get_neighborhood(m.mesh, **kw)
    geo.unchanged(before, geo.snapshot(m.mesh), "input of get_neighborhood")
    geo.same(len(out), len(m.cells), "number of neighborhoods")
    ref = [[] for _ in m.cells]
    for _, c in exp.values():
        for a, b in combinations(c, 2):
            ref[a].append(b)
            ref[b].append(a)
    for i, (a, b) in enumerate(zip(out, ref)):
        geo.same(sorted(int(x) for x in a), sorted(b), f"neighbours of cell {i}")


def c_conn(s, rec):
    s["m"].pop("alone", None)
    got = setup(s, rec)
    if got is None:
        return
    m, exp, kw = got
    centers = None
    if s["form"]:
        centers = np.random.default_rng(s["seed"]).random((len(m.cells), 3))
        kw["cell_centers"] = centers if s["form"] == "array" else centers.tolist()
    elif any(t == 0 for t, _ in m.cells):
        centers = np.zeros((len(m.cells), 3))
        kw["cell_centers"] = centers
    before = geo.snapshot(m.mesh)
    out = pvg.get_connectivity(m.mesh, **kw)
    geo.unchanged(before, geo.snapshot(m.mesh), "input of get_connectivity")
    geo.close(out.points, pvg.get_cell_centers(m.mesh) if centers is None else centers, "points of the connections", tol=1e-6)
    ref = Counter(tuple(sorted(p)) for _, c in exp.values() for p in combinations(c, 2))
    lines = np.asarray(out.lines).reshape(-1, 3)
    require((lines[:, 0] == 2).all(), "connections are not lines")
    got = Counter(tuple(sorted(p)) for p in lines[:, 1:].tolist())
    require(got == ref, f"connections {sorted((got - ref).items())} too many, {sorted((ref - got).items())} missing")
    n = len(m.cells)
    for bad in (np.zeros((n + 1, 3)), np.zeros((n, 2)), np.zeros(3 * n)):
        geo.raises(ValueError, lambda b=bad: pvg.get_connectivity(m.mesh, cell_centers=b), f"centres of shape {bad.shape} for {n} cells")


FACETS = [
    Facet("geometry", s_geom(), c_geom, 1500, 15000),
    Facet("neighbors", s_geom(), c_neigh, 1200, 12000),
    Facet("connections", s_geom(), c_conn, 700, 8000),
    Facet("geometry_large", meshes.large(s_geom()), c_geom, 60, 600),
    Facet("neighbors_large", meshes.large(s_geom()), c_neigh, 60, 600),
    Facet("connections_large", meshes.large(s_geom()), c_conn, 40, 400),
]
