"""C03: volume between two surfaces."""
from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Volume is called with two generated surfaces (structured, image, rectilinear, polydata, "
    "unstructured with triangles/quads/pixels/polygons in any order and orientation; thickness of "
    "either sign, zero on some points; ending surfaces shrunk to a line or a position) and cell types, cell vertices, face closure and orientation of "
    "polyhedra and hidden-cell flags are compared with a reference. Non-trivial: mixed cell types, a "
    "flipped polygon, or some but not all cells collapsed."
)
CT = geo.CT
EXTRUDED = {
    int(CT.TRIANGLE): int(CT.WEDGE),
    int(CT.QUAD): int(CT.HEXAHEDRON),
    int(CT.PIXEL): int(CT.HEXAHEDRON),
    int(CT.POLYGON): int(CT.POLYHEDRON),
}


def outward(cell, pts, k):
    edges = {}
    for f in cell:
        for x, y in zip(f, f[1:] + f[:1]):
            edges[(x, y)] = edges.get((x, y), 0) + 1
    require(
        all(v == 1 and (y, x) in edges for (x, y), v in edges.items()),
        f"faces of polyhedron {k} are not consistently oriented",
    )
    require(geo.faces_volume(cell, pts) > 0.0, f"faces of polyhedron {k} point inwards")


def taper(pts, axis, how):
    """Shrink a surface to half its size, to a line or to a single position."""
    for k, i in enumerate(x for x in range(3) if x != axis):
        if how and not (how == "edge" and k):
            f = 0.5 if how == "half" else 0.0
            c = float(np.floor(pts[..., i].mean()))
            pts[..., i] = c + f * (pts[..., i] - c)


@st.composite
def s_unstructured(draw):
    u = draw(gen.usurf(3))
    n = len(u["xs"]) * len(u["ys"])
    flat = draw(st.sampled_from(["no", "no", "same", "some", "some", "patch"]))
    h = draw(st.lists(st.sampled_from([0.001953125, 0.25, 0.5, 1.0, 3.0]), min_size=n, max_size=n))
    if flat == "same":
        h = [h[0]] * n
    elif flat == "some":
        z = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        h = [0.0 if b else a for a, b in zip(h, z)]
    elif flat == "patch":
        k = draw(st.integers(1, n))
        h = [0.0] * k + h[k:]
    return {
        "u": u,
        "h": h,
        "up": draw(st.booleans()),
        "shift": draw(st.sampled_from([0.0, 0.0, 0.5, -0.75])),
        "res": draw(gen.resolution(3)),
        "poly": draw(st.booleans()),
        "taper": draw(st.sampled_from([None, None, "half", "edge", "apex"])),
    }


def c_unstructured(s, rec):
    u = s["u"]
    pa, cells = geo.usurf_arrays(u)
    h = np.array(s["h"]) * (1.0 if s["up"] else -1.0)
    pb = pa.copy()
    pb[:, u["axis"]] += h
    # Oblique prisms: between parallel surfaces only, or steep cells may be tangled
    lateral = s["shift"] if len(set(s["h"])) == 1 and s["h"][0] > 0 else 0.0
    pb[:, (u["axis"] + 1) % 3] += lateral
    if len(set(s["h"])) == 1 and s["h"][0] > 0:
        taper(pb, u["axis"], s.get("taper"))
    a, b = geo.make_ugrid(pa, cells), geo.make_ugrid(pb, cells)
    if s["poly"] and all(t != CT.PIXEL for t, _ in cells):
        faces = [x for _, c in cells for x in (len(c), *c)]
        a, b = pv.PolyData(pa, faces=faces), pv.PolyData(pb, faces=faces)
        cells = [(int(t), c) for t, c in zip(a.cast_to_unstructured_grid().celltypes, [c for _, c in cells])]
        rec.label("polydata")
    m = pvg.Volume(a, b, geo.res_arg(s["res"]), s["res"]["m"])
    require(type(m) is pv.UnstructuredGrid, "volume of unstructured surfaces is not an unstructured grid")
    t = geo.perc(s["res"])
    n, nl = len(pa), len(t) - 1
    geo.close(m.points, np.vstack([pa + x * (pb - pa) for x in t]), "nodes", tol=1e-6)
    geo.same(m.n_cells, nl * len(cells), "number of cells")
    ghost = m.cell_data["vtkGhostType"]
    got = geo.ugrid_cells(m)
    pts = np.asarray(m.points, dtype=float)
    collapsed = 0
    for k, (ct, cell) in enumerate(got):
        layer, ic = divmod(k, len(cells))
        t0, ids = cells[ic]
        geo.same(ct, EXTRUDED[t0], f"type of cell {k} above a cell of type {t0}")
        r = geo.ring(t0, ids)
        lo, hi = [i + layer * n for i in r], [i + (layer + 1) * n for i in r]
        flat = all(s["h"][i] == 0.0 for i in ids) and lateral == 0.0
        collapsed += flat
        geo.same(int(ghost[k]), 32 if flat else 0, f"hidden flag of cell {k}")
        if ct != CT.POLYHEDRON:
            # Bottom and top rings of the prism in matching order
            geo.same(cell, lo + hi, f"vertices of cell {k}")
            continue
        faces = [frozenset(f) for f in cell]
        exp = [frozenset(lo), frozenset(hi)] + [
            frozenset([r[i] + layer * n, r[(i + 1) % len(r)] + layer * n, r[i] + (layer + 1) * n, r[(i + 1) % len(r)] + (layer + 1) * n])
            for i in range(len(r))
        ]
        geo.same(sorted(map(sorted, faces)), sorted(map(sorted, exp)), f"faces of polyhedron {k}")
        if not flat:
            outward(cell, pts, k)
    types = {t for t, _ in cells}
    rec.label(*(f"cell:{t}" for t in types), f"axis:{u['axis']}", f"up:{s['up']}")
    if collapsed:
        rec.label("collapsed")
    rec.nontrivial(len(types) > 1 or (int(CT.POLYGON) in types) or 0 < collapsed < len(got))


@st.composite
def s_structured(draw):
    sp = draw(gen.ssurf(3))
    n = len(sp["xs"]) * len(sp["ys"])
    z = draw(st.lists(st.sampled_from([0.0, 0.0, 0.25, 1.0, 2.5]), min_size=n, max_size=n))
    if draw(st.booleans()):
        z = [x + 0.5 for x in z]
    return {
        "s": sp,
        "h": z,
        "up": draw(st.booleans()),
        "kind": draw(st.sampled_from(["structured", "structured", "rectilinear", "image"])),
        "res": draw(gen.resolution(3)),
        "thick": draw(gen.pos(3.0, 0.25)),
        "dup": draw(st.sampled_from([None, None, 0, 1])),
        "taper": draw(st.sampled_from([None, None, "half", "edge", "apex"])),
    }


def c_structured(s, rec):
    sp = s["s"]
    sgn = 1.0 if s["up"] else -1.0
    ax = sp["axis"]
    if s["kind"] == "structured":
        pa = geo.ssurf_points(sp)
        h = np.array(s["h"]).reshape(pa.shape[:2])
        dup = s.get("dup")
        if dup is not None:
            # Two rows of points are the same: cells without area
            dup %= len(pa) - 1
            pa[dup + 1], h[dup + 1] = pa[dup], h[dup]
        pb = pa.copy()
        pb[..., ax] += sgn * h
        if dup is None and h.min() > 0.0:
            taper(pb, ax, s.get("taper"))
        a, b = geo.build_ssurf(sp, pa), geo.build_ssurf(sp, pb)
    else:
        h = np.full((len(sp["xs"]), len(sp["ys"])), s["thick"])
        xs, ys = sp["xs"], sp["ys"]
        if s["kind"] == "image":
            dx, dy = xs[1] - xs[0], ys[1] - ys[0]
            xs = [xs[0] + i * dx for i in range(len(xs))]
            ys = [ys[0] + i * dy for i in range(len(ys))]
        sp = {**sp, "xs": xs, "ys": ys, "wob": None, "shear": 0.0}
        pa = geo.ssurf_points(sp)
        pb = pa.copy()
        pb[..., ax] += sgn * h
        idx = [i for i in range(3) if i != ax]

        def make(w):
            c = [None] * 3
            c[idx[0]], c[idx[1]], c[ax] = np.array(xs), np.array(ys), np.array([w])
            if s["kind"] == "rectilinear":
                return pv.RectilinearGrid(*c)
            return pv.ImageData(
                dimensions=[len(v) for v in c],
                spacing=[v[1] - v[0] if len(v) > 1 else 1.0 for v in c],
                origin=[v[0] for v in c],
            )

        a, b = make(sp["w"]), make(sp["w"] + sgn * s["thick"])
    m = pvg.Volume(a, b, geo.res_arg(s["res"]), s["res"]["m"])
    require(type(m) is pv.StructuredGrid, "volume of structured surfaces is not a structured grid")
    t = geo.perc(s["res"])
    exp = np.stack([pa + x * (pb - pa) for x in t], axis=ax)
    geo.same(tuple(m.dimensions), exp.shape[:3], "dimensions")
    geo.close(geo.structured_index(m), exp, "nodes", tol=1e-6)
    cols = (h[:-1, :-1] == 0) & (h[1:, :-1] == 0) & (h[:-1, 1:] == 0) & (h[1:, 1:] == 0)
    if s["kind"] == "structured" and dup is not None:
        cols[dup] = True
    ghost = geo.structured_cell_index(m, m.cell_data["vtkGhostType"])
    e = np.stack([np.where(cols, 32, 0)] * (len(t) - 1), axis=ax)
    geo.array_equal(ghost, e, "hidden-cell flags")
    rec.label(s["kind"], f"axis:{ax}")
    if cols.any():
        rec.label("collapsed")
    rec.nontrivial(bool(cols.any() and not cols.all()) or s["kind"] != "structured")


@st.composite
def s_bad(draw):
    return {"case": draw(st.sampled_from(["npoints", "dims", "mixed", "types", "3d", "unsupported"])), "t": draw(st.integers(0, 5)), "at": draw(st.integers(0, 9)), "s": draw(gen.ssurf(3)), "u": draw(gen.usurf(2, kinds=(0,)))}


def c_bad(s, rec):
    sp = s["s"]
    a = geo.build_ssurf(sp)
    u = geo.build_usurf({**s["u"], "axis": 2})
    if s["case"] == "npoints":
        b = geo.build_ssurf({**sp, "xs": sp["xs"] + [sp["xs"][-1] + 1.0], "wob": None})
    elif s["case"] == "dims":
        sp = {**sp, "xs": [0.0, 1.0], "ys": [0.0, 1.0, 2.0], "wob": None}
        a, b = geo.build_ssurf(sp), geo.build_ssurf({**sp, "xs": sp["ys"], "ys": sp["xs"]})
    elif s["case"] == "mixed":
        b = a.cast_to_unstructured_grid()
    elif s["case"] == "types":
        pts, cells = geo.usurf_arrays({**s["u"], "axis": 2})
        a = geo.make_ugrid(pts, cells)
        b = geo.make_ugrid(pts, [(int(CT.POLYGON), c) for _, c in cells])
    elif s["case"] == "3d":
        a = pvg.Volume(a, a.translate(np.eye(3)[sp["axis"]]))
        b = a.copy()
    else:
        # Anywhere among quads
        pts, cells = geo.usurf_arrays({**s["u"], "axis": 2})
        t, n = [(CT.LINE, 2), (CT.VERTEX, 1), (CT.TRIANGLE_STRIP, 4), (CT.POLY_LINE, 3), (CT.QUADRATIC_EDGE, 3), (CT.TETRA, 4)][s.get("t", 0)]
        cells.insert(s.get("at", 0) % (len(cells) + 1), (int(t), list(range(n))))
        a = geo.make_ugrid(pts, cells)
        b = a.translate([0.0, 0.0, 1.0])
    geo.raises(ValueError, lambda: pvg.Volume(a, b), f"inhomogeneous or unsupported surfaces ({s['case']})")
    rec.label(s["case"])
    rec.nontrivial()


@st.composite
def s_built(draw):
    n = draw(st.integers(1, 3))
    return {
        "u": draw(gen.usurf(3, kinds=(4, 5, 5, 0, 1))),
        "fn": draw(st.sampled_from(["stack", "extrude"])),
        "up": draw(st.booleans()),
        "invert": draw(st.sampled_from([None, True])),
        "h": draw(st.lists(gen.pos(3.0, 0.25), min_size=n, max_size=n)),
        "res": draw(st.lists(gen.resolution(3, ends=True), min_size=n, max_size=n)),
    }


def c_built(s, rec):
    u = {**s["u"], "axis": 2} if s["fn"] == "stack" else s["u"]
    pa, cells = geo.usurf_arrays(u)
    sgn = 1.0 if s["up"] else -1.0
    if s["fn"] == "stack":
        b = pvg.MeshStack3D(geo.make_ugrid(pa, cells), bottom_up=s["up"]).add(u["w"])
        for h, r in zip(s["h"], s["res"]):
            b.add(h, geo.res_arg(r), r["m"])
        m = b.generate_mesh() if s["invert"] is None else b.generate_mesh(invert_polyhedron_faces=True)
    else:
        b = pvg.MeshExtrude(geo.make_ugrid(pa, cells))
        for h, r in zip(s["h"], s["res"]):
            b.add(np.eye(3)[u["axis"]] * h * sgn, geo.res_arg(r), r["m"])
        m = b.generate_mesh()
    nl = sum(len(geo.perc(r)) - 1 for r in s["res"])
    geo.same(m.n_cells, nl * len(cells), "number of cells")
    pts = np.asarray(m.points, dtype=float)
    got = geo.ugrid_cells(m)
    total = 0.0
    for k, (ct, cell) in enumerate(got):
        if ct == CT.POLYHEDRON:
            outward(cell, pts, k)
        total += abs(geo.faces_volume(geo.cell_faces(ct, cell), pts))
    counts = {}
    for t, _ in cells:
        counts[EXTRUDED[t]] = counts.get(EXTRUDED[t], 0) + nl
    types = [ct for ct, _ in got]
    geo.same({t: types.count(t) for t in set(types)}, counts, "cell types")
    idx = [i for i in range(3) if i != u["axis"]]
    area = sum(abs(geo.signed_area2(pa[geo.ring(t, c)][:, idx])) for t, c in cells)
    geo.close(total, area * sum(s["h"]), "total volume", tol=1e-6)
    require("vtkGhostType" not in m.cell_data or not np.any(m.cell_data["vtkGhostType"]), "no cell is collapsed")
    rec.label(s["fn"], f"up:{s['up']}")
    rec.nontrivial(int(CT.POLYHEDRON) in counts)


FINE = {"built": (s_built(), c_built), "unstructured": (s_unstructured(), c_unstructured), "structured": (s_structured(), c_structured)}

FACETS = [
    Facet("fine", gen.either(FINE, gen.fine), gen.check_either(FINE), 80, 800),
    Facet("built", s_built(), c_built, 500, 8000),
    Facet("unstructured", s_unstructured(), c_unstructured, 1200, 15000),
    Facet("structured", s_structured(), c_structured, 1000, 15000),
    Facet("reject", s_bad(), c_bad, 120, 600),
]
