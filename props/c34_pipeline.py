"""C34: meshes built by chaining the parts of the library."""
from collections import Counter, deque

from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Chains of the kind of the examples: sectors, rings and the square around them, in named groups, merged, turned and merged again, "
    "optionally re-meshed as Voronoi cells, extruded or stacked in layers, and filtered by group. Areas and volumes per group against "
    "closed formulas, conformity (edges and faces of one or two cells, boundary loops enclosing the same area), neighbours against the "
    "product of the plan and of the layers, and the length of a well. Non-trivial: at least two pieces and two layers."
)
NAMES = ["a", "b", "c"]


@st.composite
def s_pipe(draw):
    k = draw(st.integers(1, 3))
    r, radii = draw(gen.pos(2.0, 0.5)), []
    for _ in range(k + 1):
        radii.append(r)
        r += draw(gen.pos(2.0, 0.5))
    n = draw(st.integers(1, 3))
    return {
        "radii": radii,
        "core": draw(st.sampled_from([True, True, False])),
        "n": draw(st.integers(2, 5)),
        "rres": draw(st.lists(st.integers(1, 2), min_size=k, max_size=k)),
        "box": draw(st.sampled_from([None, 1.5, 2.5])),
        "g": draw(st.lists(st.sampled_from(NAMES), min_size=k + 2, max_size=k + 2)),
        "order": draw(st.integers(0, 50)),
        "turns": draw(st.sampled_from([1, 2, 4])),
        "voronoi": draw(st.sampled_from([False, False, True])),
        "ml": draw(st.sampled_from([None, 1e-3])),
        "fn": draw(st.sampled_from(["extrude", "stack", "stack"])),
        "wave": draw(st.booleans()),
        "h": draw(st.lists(gen.pos(3.0, 0.25), min_size=n, max_size=n)),
        "res": draw(st.lists(st.sampled_from([None, 1, 2, 3]), min_size=n, max_size=n)),
        "lg": draw(st.lists(st.sampled_from([None, None, "a", "L"]), min_size=n, max_size=n)),
        "drop": draw(st.sampled_from([None, "a", "b", "L"])),
        "at": draw(st.integers(0, 1000)),
        # Far from the origin, as geographic coordinates are
        "far": draw(st.sampled_from([0, 0, 1])),
    }


def plan(s):
    """Merged surface and the expected area of every group."""
    import random

    radii = s["radii"]
    n = 2 * (s["n"] // 2) if s["box"] else s["n"]
    unit = 0.5 * np.sin(np.pi / 2 / n) * n  # Quarter of a circle, as a polygon
    pieces = []
    if s["core"]:
        pieces.append((pvg.Sector(radii[0], 0.0, 90.0, n), s["g"][0], unit * radii[0] ** 2))
    for a, b, r, g in zip(radii, radii[1:], s["rres"], s["g"][1:]):
        pieces.append((pvg.AnnularSector(a, b, 0.0, 90.0, r, n), g, unit * (b * b - a * a)))
    if s["box"]:
        w = s["box"] * radii[-1]
        m = pvg.SectorRectangle(radii[-1], w, w, s["rres"][0], n // 2)
        pieces.append((m, s["g"][-1], w * w - unit * radii[-1] ** 2))
    random.Random(s["order"]).shuffle(pieces)
    e = pvg.MeshMerge()
    for m, g, _ in pieces:
        e.add(m, group=g)
    quarter = e.generate_mesh(tolerance=1e-5 * radii[0])
    out = quarter
    if s["turns"] > 1:
        e = pvg.MeshMerge()
        for k in range(s["turns"]):
            e.add(quarter.rotate_z(90.0 * k))
        out = e.generate_mesh(tolerance=1e-5 * radii[0])
    area = {}
    for _, g, a in pieces:
        area[g] = area.get(g, 0.0) + a * s["turns"]
    return out, area, len(pieces)


def c_pipe(s, rec):
    m2, area, n_pieces = plan(s)
    turns, radii = s["turns"], s["radii"]
    size = radii[-1] * (s["box"] or 1.0)
    total = sum(area.values())
    voronoi = s["voronoi"] and s["core"] and m2.n_cells > 4
    far = np.array([2.0**19, 2.0**22, 0.0]) * s.get("far", 0)
    m2.points = np.asarray(m2.points, dtype=float) + far
    tol = 1e-5
    if voronoi:
        m2 = pvg.VoronoiMesh2D(m2).generate_mesh(**({} if s.get("ml") is None else {"min_length": s["ml"] * radii[0]}))
        tol = 5e-3
    # ---- the plan
    pts = np.asarray(m2.points, dtype=float) - far
    rings = [geo.ring(t, list(c)) for t, c in geo.ugrid_cells(m2)]
    a2 = np.array([geo.signed_area2(pts[r]) for r in rings])
    require((a2 > 0).all() or (a2 < 0).all() or not voronoi, "orientation of Voronoi cells")
    require((np.abs(a2) > 1e-9 * size**2).all(), "flat cell in the plan")
    a2 = np.abs(a2)
    names = np.asarray(pvg.get_cell_group(m2)).tolist()
    geo.same(sorted(set(names)), sorted(area), "groups of the plan")
    geo.same(sorted(m2.user_dict["CellGroup"]), sorted(area), "group names of the plan")
    require(abs(a2.sum() - total) <= tol * total, f"area of the plan {a2.sum()}, expected {total}")
    if not voronoi:
        for g, a in area.items():
            got = a2[[x == g for x in names]].sum()
            require(abs(got - a) <= tol * total, f"area of group {g}: {got}, expected {a}")
    edges = {}
    for i, r in enumerate(rings):
        require(len(set(r)) == len(r) > 2, f"vertices of cell {i}: {r}")
        for e in zip(r, r[1:] + r[:1]):
            edges.setdefault(frozenset(e), []).append(i)
    require(max(len(c) for c in edges.values()) <= 2, "an edge of more than two cells")
    used = {i for r in rings for i in r}
    geo.same(len(used), m2.n_points, "points of the plan in cells")
    adj = [Counter() for _ in rings]
    for c in edges.values():
        if len(c) == 2:
            adj[c[0]][c[1]] += 1
            adj[c[1]][c[0]] += 1
    # One piece, the outline of which encloses the same area
    seen, todo = {0}, deque([0])
    while todo:
        for j in adj[todo.popleft()]:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    geo.same(len(seen), len(rings), "cells of the plan connected to one another")
    n_edge = sum(len(c) == 1 for c in edges.values())
    loops = pvg.extract_boundary_polygons(m2, fill=False, with_holes=True)
    geo.same(len(loops), 1, "pieces of the plan")
    geo.same(len(loops[0]), 1 if s["core"] or turns < 4 else 2, "loops of the plan")
    geo.same(sum(x.n_points for x in loops[0]), n_edge, "points of the outline")
    enc = [abs(geo.signed_area2((np.asarray(x.points, dtype=float) - far)[:, :2])) for x in loops[0]]
    require(abs(enc[0] - sum(enc[1:]) - a2.sum()) <= 1e-6 * enc[0], f"outline encloses {enc[0] - sum(enc[1:])}, cells {a2.sum()}")
    got = [Counter(int(j) for j in x) for x in pvg.get_neighborhood(m2)]
    require(got == adj, "neighbours in the plan")

    short = min(np.linalg.norm(pts[list(e)[0]] - pts[list(e)[1]]) for e in edges)
    if short < 1e-6 * size:
        rec.label("tiny edge")  # Points may be merged later
        return

    # ---- layers
    z0 = -1.5
    m2.points[:, 2] = z0
    res = [r or 1 for r in s["res"]]
    if s["fn"] == "extrude":
        e = pvg.MeshExtrude(m2)
        for h, r, g in zip(s["h"], s["res"], s["lg"]):
            e.add([0.0, 0.0, h], r, group=g)
    else:
        e = pvg.MeshStack3D(m2).add(z0)
        z = z0
        for i, (h, r, g) in enumerate(zip(s["h"], s["res"], s["lg"])):
            z += h
            if s["wave"] and i % 2 == 0:
                e.add(lambda x, y, _, z=z: np.full_like(x, z), r, group=g)
            else:
                e.add(h, r, group=g)
    m3 = e.generate_mesh()
    n2, nl = len(rings), sum(res)
    geo.same(m3.n_cells, n2 * nl, "number of cells")
    geo.same(m3.n_points, m2.n_points * (nl + 1), "number of points")
    col, lay = np.asarray(m3.cell_data["ColumnId"]), np.asarray(m3.cell_data["LayerId"])
    geo.same(sorted(zip(lay.tolist(), col.tolist())), [(k, j) for k in range(nl) for j in range(n2)], "columns and layers")
    th = np.concatenate([[h / r] * r for h, r in zip(s["h"], res)])
    item = np.concatenate([[i] * r for i, r in enumerate(res)]).tolist()
    p3 = np.asarray(m3.points, dtype=float) - far
    vol = np.array([abs(geo.faces_volume(geo.cell_faces(t, c), p3)) for t, c in geo.ugrid_cells(m3)])
    geo.close(vol / size**2, a2[col] * th[lay] / size**2, "volumes of the cells", tol=1e-5)
    exp = [s["lg"][item[k]] or names[j] for k, j in zip(lay, col)]
    geo.same(np.asarray(pvg.get_cell_group(m3)).tolist(), exp, "groups of the cells")
    where = {(k, j): i for i, (k, j) in enumerate(zip(lay.tolist(), col.tolist()))}
    ref = [
        Counter({where[k, q]: c for q, c in adj[j].items()} | {where[q, j]: 1 for q in (k - 1, k + 1) if 0 <= q < nl})
        for k, j in zip(lay.tolist(), col.tolist())
    ]
    got = [Counter(int(q) for q in x) for x in pvg.get_neighborhood(m3)]
    require(got == ref, "neighbours of the cells")

    # ---- a vertical well through a column
    j = s["at"] % n2
    x, y = geo.polygon_centroid2(pts[rings[j]][:, :2])
    inside = all(
        geo.signed_area2([pts[a][:2], pts[b][:2], [x, y]]) * geo.signed_area2(pts[rings[j]][:, :2]) > 1e-4 * a2[j] ** 2
        for a, b in zip(rings[j], rings[j][1:] + rings[j][:1])
    )
    if inside:
        top = z0 + sum(s["h"])
        well = pv.PolyData(np.array([[x, y, top + 1.0], [x, y, z0 - 0.5]]) + far, lines=[2, 0, 1])
        out = pvg.intersect_polyline(m3, well, ignore_points_before_entry=True, ignore_points_after_exit=True)
        geo.same(np.asarray(out.cell_data["IntersectedCellIds"]).tolist(), [where[k, j] for k in range(nl)][::-1], "cells along a well")
        geo.close(out.cell_data["Length"], th[::-1], "lengths along a well", tol=1e-4)
        rec.label("well")

    # ---- without a group
    if s["drop"]:
        keep = np.array([g != s["drop"] for g in exp])
        if keep.any():
            m4 = pvg.extract_cells(m3, keep)
            ids = np.flatnonzero(keep)
            geo.same(m4.n_cells, len(ids), "cells of the other groups")
            geo.same(np.asarray(pvg.get_cell_group(m4)).tolist(), [exp[i] for i in ids], "other groups")
            p4 = np.asarray(m4.points, dtype=float) - far
            v4 = np.array([abs(geo.faces_volume(geo.cell_faces(t, c), p4)) for t, c in geo.ugrid_cells(m4)])
            geo.close(v4 / size**2, vol[ids] / size**2, "volumes of the other groups", tol=1e-6)
            new = {int(o): i for i, o in enumerate(ids)}
            ref4 = [Counter({new[q]: c for q, c in ref[o].items() if q in new}) for o in ids.tolist()]
            got = [Counter(int(q) for q in x) for x in pvg.get_neighborhood(m4)]
            require(got == ref4, "neighbours of the other groups")
            rec.label("filtered")
    rec.label("far" if s.get("far") else "near", s["fn"], "voronoi" if voronoi else "plain", f"turns:{turns}", "box" if s["box"] else "round", "core" if s["core"] else "hollow")
    rec.nontrivial(n_pieces > 1 and nl > 1)


FACETS = [Facet("pipeline", s_pipe(), c_pipe, 200, 2000)]
