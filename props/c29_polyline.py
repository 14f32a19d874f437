"""C29: intersecting a polyline with a mesh."""
import re

from hypothesis import strategies as st
from scipy.spatial import Delaunay, Voronoi
from scipy.spatial.transform import Rotation

from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

CT = pv.CellType
RULE = (
    "Polylines of one to four segments through convex meshes (grids, hexahedra, wedges, pyramids, polyhedra, Voronoi polygons and prisms, Delaunay triangles and "
    "tetrahedra, jittered surfaces in three planes) that start and end in or out of the mesh, as a polyline or as segments with data. "
    "Pieces are found by intersecting segments with all faces and locating midpoints. Lines that graze an edge or enter twice are not judged. "
    "Non-trivial: at least two cells are crossed."
)


@st.composite
def s_line(draw):
    kind = draw(st.sampled_from(["u2", "s2", "i2", "r2", "tri", "tet", "mix", "mix", "i3", "r3", "s3", "vor2", "vor3", "vor3"]))
    out = {"kind": kind, "seed": draw(st.integers(0, 10**6))}
    if kind in ("tri", "tet"):
        out["n"] = draw(st.integers(4, 14))
        out["axis"] = draw(st.sampled_from([2, 2, 0, 1]))
    elif kind in ("vor2", "vor3"):
        out["n"] = draw(st.integers(3, 9))
        out["axis"] = draw(st.sampled_from([2, 2, 0, 1]))
        out["h"] = draw(st.lists(st.sampled_from([0.05, 0.25, 1.0]), min_size=1, max_size=3))
    elif kind == "mix":
        out["m"] = draw(meshes.mesh(kinds=("u3",), n_max=3, hidden=False, empty=False))
        out["m"]["jit"] = False
    else:
        out["m"] = draw(meshes.mesh(kinds=(kind,), n_max=4, hidden=False, empty=False))
        out["m"]["jit"] = False
        out["m"]["collapse"] = 0
    out["nv"] = draw(st.integers(2, 5))
    out["ends"] = draw(st.sampled_from(["oo", "ii", "oi", "io", "miss"]))
    out["before"] = draw(st.sampled_from([None, True, False]))
    out["after"] = draw(st.sampled_from([None, True, False]))
    out["pass"] = draw(st.sampled_from([None, True, False]))
    out["min"] = draw(st.sampled_from([None, 0.0, 1e-5]))
    out["form"] = draw(st.sampled_from(["polyline", "segments"]))
    out["more"] = draw(st.integers(0, 2))
    # The mesh and the line, turned together
    out["turn"] = draw(st.lists(st.integers(-9, 9), min_size=3, max_size=3)) if kind[0] not in "ir" and draw(st.booleans()) else None
    out["snap"] = draw(st.sampled_from([0, 1, 2, 3, 3])) if kind in ("i2", "r2", "i3", "r3") else 0
    return out


@st.composite
def s_large(draw):
    """Many cells, long lines."""
    s = draw(s_line())
    n = draw(st.integers(105, 250))
    if "m" in s:
        s["m"] = meshes.grow(s["m"], n, draw(st.integers(0, 10**6)))
    elif s["kind"] == "vor3":
        s["n"] = n // 4
    else:
        s["n"] = n // 2
    s["nv"] = draw(st.sampled_from([2, 3, 6, 12]))
    return s


def voronoi(s, rng):
    """Polygons nearest to random sites of a box, or layers of prisms upon them."""
    q = rng.random((s["n"], 2))
    # Mirror images make the outline of the box part of the diagram
    q = np.vstack([q, q * [-1, 1], q * [1, -1], [2, 0] + q * [-1, 1], [0, 2] + q * [1, -1]])
    v = Voronoi(q)
    rings = [v.regions[v.point_region[i]] for i in range(s["n"])]
    used = sorted({i for r in rings for i in r})
    xy = v.vertices[used] * [5.0, 3.0] + rng.integers(-20, 20, 2)
    rings = [[used.index(i) for i in r] for r in rings]

    def turn(r):
        k = rng.integers(len(r))
        r = r[k:] + r[:k]
        return r[::-1] if rng.random() < 0.5 else r

    el = {}
    if s["kind"] == "vor2":
        cells = [(int(CT.POLYGON), turn(r)) for r in rings]
        pts = geo.place(xy, s["axis"], 1.25)
        faces = [[[a, b] for a, b in zip(r, r[1:] + r[:1])] for r in rings]
    else:
        n = len(xy)
        z = np.concatenate([[0.0], np.cumsum(s["h"])]) - 1.5
        pts = np.vstack([np.column_stack([xy, np.full(n, h)]) for h in z])
        faces, cells = [], []
        for k in range(len(s["h"])):
            for r in rings:
                f = [[i + k * n for i in r], [i + (k + 1) * n for i in r]]
                f += [[a + k * n, b + k * n, b + (k + 1) * n, a + (k + 1) * n] for a, b in zip(r, r[1:] + r[:1])]
                faces.append(f)
                cells.append((int(CT.POLYHEDRON), [turn(x) for x in f]))
    for i, f in enumerate(faces):
        for r in f:
            el.setdefault(frozenset(r), (r, []))[1].append(i)
    return meshes.ugrid(pts, cells), pts, list(el.values()), 2 if s["kind"] == "vor2" else 3


def build(s):
    """mesh, points, [(ring, cells)], cell rings/faces, dimension, flat axis"""
    rng = np.random.default_rng(s["seed"])
    if s["kind"] in ("vor2", "vor3"):
        return voronoi(s, rng)
    if s["kind"] in ("tri", "tet"):
        d = 2 if s["kind"] == "tri" else 3
        q = rng.random((s["n"] + 2, d)) * [5.0, 3.0, 4.0][:d] + rng.integers(-20, 20, d)
        tri = Delaunay(q)
        cells = [list(map(int, c)) for c in tri.simplices]
        pts = geo.place(q, s["axis"], 1.25) if d == 2 else q
        mesh = meshes.ugrid(pts, [(int(CT.TRIANGLE if d == 2 else CT.TETRA), c) for c in cells])
        el = {}
        for i, c in enumerate(cells):
            rings = [[c[j], c[(j + 1) % 3]] for j in range(3)] if d == 2 else [[c[k] for k in range(4) if k != j] for j in range(4)]
            for r in rings:
                el.setdefault(frozenset(r), (r, []))[1].append(i)
        return mesh, pts, list(el.values()), d
    if s["kind"] == "mix":
        # Conforming: wedges fill whole columns
        m = dict(s["m"])
        nx, ny, nz = m["n"]
        split = [0] * max(27, nx * ny * nz)
        for j in range(ny):
            for i in range(nx):
                wedge = m["split"][(i + j * nx) % 27] in (1, 3)
                for k in range(nz):
                    n = i + nx * (j + ny * k)
                    split[n] = 1 if wedge else {1: 0, 3: 2, 6: 5, 7: 0}.get(m["split"][n % 27], m["split"][n % 27])
        m["split"] = split
    else:
        m = dict(s["m"])
        if s["kind"] == "u2":
            # Convex cells
            m["u"] = {**m["u"], "kinds": [k if k != 5 or not m["u"]["jit"] else 0 for k in m["u"]["kinds"]]}
    M = meshes.Mesh(m)
    return M.mesh, M.points, list(M.shared(False).values()), M.dim


def c_line(s, rec):
    mesh, pts, el, dim = build(s)
    rng = np.random.default_rng(s["seed"] + 1)
    lo, hi = pts.min(axis=0), pts.max(axis=0)
    size = hi - lo
    n_cells = mesh.n_cells
    rings = [[] for _ in range(n_cells)]
    for r, cells in el:
        for c in cells:
            rings[c].append(r)
    vert = [sorted({i for r in rs for i in r}) for rs in rings]
    center = [pts[v].mean(axis=0) for v in vert]

    flat = int(np.argmin(size)) if dim == 2 else None
    keep = [i for i in range(3) if i != flat]

    def normal(r):
        if dim == 2:
            w = pts[r[1]] - pts[r[0]]
            n = np.zeros(3)
            n[keep[0]], n[keep[1]] = w[keep[1]], -w[keep[0]]
        else:
            n = geo.polygon_normal_area(pts[r])
        return n / np.linalg.norm(n)

    planes = {}
    for k, (r, cells) in enumerate(el):
        planes[k] = (normal(r), pts[r].mean(axis=0))
    of_cell = [[] for _ in range(n_cells)]
    for k, (r, cells) in enumerate(el):
        for c in cells:
            n, o = planes[k]
            of_cell[c].append((n if (center[c] - o) @ n < 0 else -n, o))

    def locate(q):
        for c in range(n_cells):
            if all((q - o) @ n < 0.0 for n, o in of_cell[c]):
                return c
        return -1

    def inside():
        # In a random cell
        c = vert[rng.integers(n_cells)]
        w = rng.random(len(c)) + 0.05
        return (pts[c] * (w / w.sum())[:, None]).sum(axis=0)

    def outside():
        q = inside()
        k = keep[rng.integers(len(keep))]
        q[k] = hi[k] + 0.3 + rng.random() if rng.random() < 0.5 else lo[k] - 0.3 - rng.random()
        return q

    P = [inside() for _ in range(s["nv"])]
    if s["ends"] == "miss":
        k = keep[rng.integers(len(keep))]
        P = []
        for _ in range(s["nv"]):
            q = inside()
            q[k] = hi[k] + 0.5 + rng.random()
            P.append(q)
    else:
        if s["ends"][0] == "o":
            P[0] = outside()
        if s["ends"][1] == "o":
            P[-1] = outside()
            for _ in range(s["more"]):
                # Further away
                P.append(P[-1] + 0.4 * (P[-1] - (lo + hi) / 2.0))
        if s["ends"][0] == "o" and s["more"] == 2:
            P.insert(0, P[0] + 0.4 * (P[0] - (lo + hi) / 2.0))
    P = np.array(P)
    if dim == 2:
        # Exactly in the plane of the mesh
        P[:, flat] = lo[flat]
    if (np.linalg.norm(np.diff(P, axis=0), axis=1) < 0.05).any():
        rec.label("short")
        return

    snapped = set()
    for i in range(1, len(P) - 1):
        # Vertices on a face of two cells
        if s.get("snap", 0) >> (i % 2) & 1 and locate(P[i]) >= 0:
            k = keep[rng.integers(len(keep))]
            x = np.unique(pts[:, k])
            if len(x) > 2:
                y = x[1:-1][np.abs(x[1:-1] - P[i, k]).argmin()]
                # Unless the line touches the face and turns back
                if (P[i - 1, k] - y) * (P[i + 1, k] - y) < -1e-3:
                    P[i, k] = y
                    snapped.add(i)

    # VTK locates points with a tolerance relative to the size of cells
    for i, q in enumerate(P):
        for c in range(n_cells):
            if i in snapped:
                continue
            rel = max(float((q - o) @ n) / float(np.ptp(pts[vert[c]] @ n)) for n, o in of_cell[c])
            if abs(rel) < 6e-3:
                rec.label("vertex near a face")
                return

    # Reference pieces
    raw = []
    for lid, (a, b) in enumerate(zip(P[:-1], P[1:])):
        d = b - a
        length = np.linalg.norm(d)
        ts = [0.0, 1.0]
        for k, (r, _) in enumerate(el):
            n, o = planes[k]
            den = float(n @ d)
            if abs(den) < 1e-2 * length:
                if abs((o - a) @ n) < 2e-2 * max(1.0, float(size.max())):
                    rec.label("parallel")
                    return
                continue
            t = float((o - a) @ n) / den
            if not -0.01 <= t <= 1.01:
                continue
            q = a + t * d
            # Inside the face, by how much
            m = np.inf
            c = pts[r].mean(axis=0)
            if dim == 2:
                w = pts[r[1]] - pts[r[0]]
                x = float((q - pts[r[0]]) @ w) / float(w @ w)
                m = min(x, 1 - x) * np.linalg.norm(w)
            else:
                for u, v in zip(pts[r], np.roll(pts[r], -1, axis=0)):
                    e = np.cross(n, v - u)
                    e = e / np.linalg.norm(e)
                    e = e if (c - u) @ e > 0 else -e
                    m = min(m, float((q - u) @ e))
            if abs(m) < 4e-3:
                rec.label("grazing")
                return
            if m > 0:
                near = min(abs(t), abs(1 - t)) * length
                if near < 1e-9 and (lid if abs(t) < 0.5 else lid + 1) in snapped:
                    continue
                if near < 2e-3:
                    rec.label("vertex on a face")
                    return
                if 0.0 < t < 1.0:
                    ts.append(t)
        ts.sort()
        for t0, t1 in zip(ts, ts[1:]):
            if (t1 - t0) * length < 2e-3:
                rec.label("short piece")
                return
            raw.append((a + t0 * d, a + t1 * d, lid, locate(a + 0.5 * (t0 + t1) * d)))
    ref = []
    for p in raw:
        if ref and ref[-1][3] == p[3] and (p[3] >= 0 or ref[-1][2] == p[2]):
            ref[-1] = (ref[-1][0], *p[1:])
        else:
            ref.append(p)
    text = "".join("o" if p[3] < 0 else "i" for p in ref)
    if not re.fullmatch("o*i*o*", text):
        rec.label("enters twice")
        return
    if "i" not in text and (s["before"] or s["after"]):
        rec.label("no entry")
        return
    for p, q in zip(ref, ref[1:]):
        if p[3] >= 0 and q[3] >= 0 and np.linalg.norm(q[1] - q[0]) < 2e-3:
            rec.label("short piece")
            return
    if any(p[3] >= 0 and np.linalg.norm(p[1] - p[0]) < 2e-3 for p in ref):
        rec.label("short piece")
        return
    if s["before"]:
        while ref[0][3] < 0:
            ref.pop(0)
    if s["after"]:
        while ref[-1][3] < 0:
            ref.pop()

    # Pixels and voxels are along the axes
    if s.get("turn") and any(s["turn"]) and not (hasattr(mesh, "celltypes") and np.isin(mesh.celltypes, [CT.PIXEL, CT.VOXEL]).any()):
        R = Rotation.from_rotvec(np.array(s["turn"]) / 7.0)
        mesh = mesh.copy()
        mesh.points = R.apply(np.asarray(mesh.points, dtype=float))
        P = R.apply(P)
        ref = [(R.apply(p[0]), R.apply(p[1]), *p[2:]) for p in ref]
        rec.label("turned")
    n = len(P)
    lines = [n, *range(n)] if s["form"] == "polyline" else np.array([[2, i, i + 1] for i in range(n - 1)]).ravel()
    line = pv.PolyData(P, lines=lines)
    line.cell_data["a"] = np.arange(line.n_cells) * 3 + 7
    line.cell_data["v"] = np.arange(2.0 * line.n_cells).reshape(-1, 2)
    kw = {}
    for k, name in (("before", "ignore_points_before_entry"), ("after", "ignore_points_after_exit"), ("pass", "pass_cell_data"), ("min", "min_length")):
        if s[k] is not None:
            kw[name] = s[k]
    before = geo.snapshot(mesh), geo.snapshot(line)
    out = pvg.intersect_polyline(mesh, line, **kw)
    geo.unchanged(before[0], geo.snapshot(mesh), "mesh")
    geo.unchanged(before[1], geo.snapshot(line), "line")
    require(isinstance(out, pv.PolyData), f"type of the result: {type(out).__name__}")
    x = np.asarray(out.points, dtype=float)
    segs = np.asarray(out.lines).reshape(-1, 3)
    geo.same(len(segs), len(ref), f"number of pieces ({text})")
    got = np.stack([x[segs[:, 1]], x[segs[:, 2]]], axis=1)
    geo.close(got, [[p[0], p[1]] for p in ref], f"ends of the pieces ({text})", tol=2e-6)
    geo.same(np.asarray(out.cell_data["IntersectedCellIds"]).tolist(), [p[3] for p in ref], "crossed cells")
    lid = [p[2] for p in ref]
    geo.same(np.asarray(out.cell_data["vtkOriginalCellIds"]).tolist(), lid, "segments of the line")
    geo.close(out.cell_data["Length"], [np.linalg.norm(p[1] - p[0]) for p in ref], "length of pieces", tol=2e-5)
    if s["pass"] is False:
        require("a" not in out.cell_data, "data passed")
    else:
        i = np.array(lid, dtype=int) if s["form"] == "segments" else np.zeros(len(lid), dtype=int)
        geo.array_equal(out.cell_data["a"], np.asarray(line.cell_data["a"])[i], "data of the line")
        geo.array_equal(out.cell_data["v"], np.asarray(line.cell_data["v"])[i], "vectors of the line")
    rec.label(s["kind"], s["ends"], s["form"], f"before:{s['before']}", f"after:{s['after']}", "crossing" if "i" in text else "apart", "snapped" if snapped else "free")
    rec.nontrivial(len({p[3] for p in ref} - {-1}) > 1)


FACETS = [Facet("line", s_line(), c_line, 2000, 16000), Facet("large", s_large(), c_line, 60, 600)]
