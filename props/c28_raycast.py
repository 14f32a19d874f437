"""C28: casting a ray on a mesh."""
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, Violation, require

RULE = (
    "Meshes of every kind, surfaces and segments, rays between generated points inside and outside, all angles and maximum angles; "
    "hits are found by intersecting the segment with the plane of every face (or with every edge). Rays that graze an edge are not judged. "
    "Non-trivial: at least two hits, or hits filtered by the maximum angle."
)
MARGIN = 1e-3


# Relative positions that hardly ever meet those of points
coord = st.integers(-40, 140).map(lambda i: (i + 0.31) / 99.7)


@st.composite
def s_ray(draw):
    kinds = ("u2", "s2", "i2", "r2", "u3", "u3", "u3", "i3", "r3", "s3", "p2", "faces", "faces", "lines")
    kind = draw(st.sampled_from(kinds))
    m = draw(meshes.mesh(kinds=("u3",) if kind == "faces" else ("u2",) if kind == "lines" else (kind,), n_max=3, empty=False))
    if kind in ("faces", "u3", "s3", "s2"):
        # Planar faces only
        m["jit"] = False
        m["collapse"] = 0
    return {
        "kind": kind,
        "m": m,
        "a": [draw(coord) for _ in range(3)],
        "b": [draw(coord) for _ in range(3)],
        "far": draw(st.integers(0, 7)),
        "angle": draw(st.sampled_from([None, None, None, 90.0, 60.0, 45.0, 30.0, 10.0, 0.0])),
        "tol": draw(st.sampled_from([None, None, 1e-6])),
        "axis": draw(st.sampled_from([None, None, 0, 1, 2])),
        # The mesh and the ray turned together, the ray along the normal of a face
        "turn": draw(st.lists(st.integers(-9, 9), min_size=3, max_size=3)) if kind[0] not in "ir" and draw(st.booleans()) else None,
        "normal": draw(st.one_of(st.none(), st.integers(0, 60))),
    }


def hit_face(p, a, b):
    """('hit', point, angle) | 'miss' | None when too close to tell."""
    n = geo.polygon_normal_area(p)
    area = np.linalg.norm(n)
    if area < 1e-9:
        return None
    n = n / area
    d = b - a
    den = float(n @ d)
    length = np.linalg.norm(d)
    dist = (p - a) @ n
    if abs(den) < 1e-3 * length:
        # Parallel: decide only if clearly apart
        return "miss" if np.abs(dist).min() > 1e-2 or (np.sign(dist) == np.sign(dist[0])).all() and np.abs(dist).min() > 1e-3 and np.abs(dist).min() > abs(den) else None
    t = float(n @ (p.mean(axis=0) - a)) / den
    if t < -MARGIN / length or t > 1 + MARGIN / length:
        return "miss"
    q = a + t * d
    k = int(np.abs(n).argmax())
    keep = [i for i in range(3) if i != k]
    p2, q2 = p[:, keep], q[keep]
    for u, v in zip(p2, np.roll(p2, -1, axis=0)):
        w = v - u
        s = min(1.0, max(0.0, float((q2 - u) @ w) / float(w @ w)))
        if np.linalg.norm(u + s * w - q2) < MARGIN:
            return None
    c = False
    for (x0, y0), (x1, y1) in zip(p2, np.roll(p2, -1, axis=0)):
        if (y0 > q2[1]) != (y1 > q2[1]) and q2[0] < x0 + (q2[1] - y0) * (x1 - x0) / (y1 - y0):
            c = not c
    if not c:
        return "miss"
    if t < MARGIN / length or t > 1 - MARGIN / length:
        return None
    return ("hit", q, float(np.rad2deg(np.arccos(min(1.0, abs(den) / length)))))


def hit_edge(p, a, b, keep):
    u, v = p[0][keep], p[1][keep]
    a2, b2 = a[keep], b[keep]
    w, d = v - u, b2 - a2
    lw, ld = np.linalg.norm(w), np.linalg.norm(d)
    den = d[0] * w[1] - d[1] * w[0]
    if abs(den) < 1e-3 * lw * ld:
        # Nearly parallel
        off = abs((u - a2)[0] * d[1] - (u - a2)[1] * d[0]) / ld
        return "miss" if off > 2e-2 + 1e-3 * lw else None
    r = u - a2
    t = (r[0] * w[1] - r[1] * w[0]) / den
    s = (r[0] * d[1] - r[1] * d[0]) / den
    mt, ms = MARGIN / ld, MARGIN / lw
    if t < -mt or t > 1 + mt or s < -ms or s > 1 + ms:
        return "miss"
    if min(t, 1 - t) < mt or min(s, 1 - s) < ms:
        return None
    return ("hit", a + t * (b - a), 0.0)


def c_ray(s, rec):
    M = meshes.Mesh(s["m"])
    kind = s["kind"]
    if kind == "lines":
        el = [e for e, _ in M.shared(False).values()]
        mesh = pv.PolyData(M.points, lines=np.array([[2, *e] for e in el]).ravel())
        elements = [(e, i) for i, e in enumerate(el)]
    elif kind == "faces":
        el = [e for e, _ in M.shared(False).values()]
        mesh = pv.PolyData(M.points, faces=np.concatenate([[len(e), *e] for e in el]))
        elements = [(e, i) for i, e in enumerate(el)]
    elif kind == "p2":
        mesh = M.mesh
        elements = [(geo.ring(t, list(c)), i) for i, (t, c) in enumerate(M.cells)]
    else:
        mesh = M.mesh
        elements = [(e, frozenset(c)) for e, c in M.shared(False).values()]
    poly = kind in ("p2", "faces", "lines")
    pts = M.points
    lo, hi = pts.min(axis=0), pts.max(axis=0)
    size = np.where(hi > lo, hi - lo, 0.0)
    planar = M.dim == 2 and kind != "p2"
    flat = int(np.argmin(size)) if M.dim == 2 else None
    if kind == "p2":
        size = np.where(size == 0.0, 1.0, size)
    # Ends on both sides more often than not
    sa, sb = np.array(s["a"]), np.array(s["b"])
    for i in range(3):
        if s["far"] >> i & 1 and abs(sa[i] - sb[i]) < 0.5:
            sb[i] = sa[i] + (0.83 if sa[i] < 0.5 else -0.83)
    a, b = lo + size * sa, lo + size * sb
    if s["axis"] is not None:
        # Along an axis
        b = np.where(np.arange(3) == s["axis"], b, a)
    faces = not planar
    if faces and s.get("normal") is not None and s["axis"] is None:
        q = pts[elements[s["normal"] % len(elements)][0]]
        n = geo.polygon_normal_area(q)
        if np.linalg.norm(n) > 1e-6:
            n = n / np.linalg.norm(n) * (1.0 if s["far"] & 1 else -1.0)
            # Not far from the first corner: polygons may be concave
            w = [1.0 - 0.31 * sa[0] % 1.0] + [abs(sa[1]) + 0.1 * i for i in range(len(q) - 1)]
            c = (np.array(w) / sum(w)) @ q
            a, b = c - n * (abs(sa[2]) + 0.3) * 2.0, c + n * (abs(sb[2]) + 0.3) * 2.0
            rec.label("normal")
    if np.linalg.norm(b - a) < 0.05:
        rec.label("short")
        return
    keep = [i for i in range(3) if i != flat]
    hits = []
    for e, i in elements:
        h = hit_face(pts[e], a, b) if faces else hit_edge(pts[e], a, b, keep)
        if h is None:
            rec.label("grazing")
            return
        if h != "miss":
            hits.append((e, i, h[1], h[2]))
    lim = s["angle"]
    kw = {} if s["tol"] is None else {"tolerance": s["tol"]}
    if lim is not None:
        kw["max_angle"] = lim
        if faces:
            if any(abs(h[3] - lim) < 0.01 for h in hits):
                rec.label("angle at the limit")
                return
            n = len(hits)
            hits = [h for h in hits if h[3] < lim]
            rec.nontrivial(0 < len(hits) < n)
    if s.get("turn") and any(s["turn"]):
        mesh = mesh.copy()
        R = Rotation.from_rotvec(np.array(s["turn"]) / 7.0)
        mesh.points = R.apply(np.asarray(mesh.points, dtype=float))
        pts, a, b = R.apply(pts), R.apply(a), R.apply(b)
        hits = [(h[0], h[1], R.apply(h[2]), h[3]) for h in hits]
        rec.label("turned")
    before = geo.snapshot(mesh)
    out = pvg.ray_cast(mesh, a.tolist() if s["tol"] else a, b, **kw)
    geo.unchanged(before, geo.snapshot(mesh), "input of ray_cast")
    rec.label(kind, f"hits:{min(len(hits), 5)}", f"angle:{lim}", f"axis:{s['axis']}")
    if not hits:
        require(out is None, "a ray that hits nothing has intersections")
        return
    require(isinstance(out, pv.PolyData), f"a ray with {len(hits)} hits: {type(out).__name__}")
    geo.same(out.n_cells, len(hits), "number of hits")
    x = np.asarray(out.cell_data["IntersectionPoints"], dtype=float)
    ids = np.asarray(out.cell_data["vtkOriginalCellIds"])
    geo.same(len(x), len(hits), "number of intersection points")
    geo.same(set(out.cell_data.keys()), {"IntersectionPoints", "vtkOriginalCellIds"}, "arrays of the result")
    tol = 2e-5 * geo.scale_of(pts - pts[0])
    left = list(range(len(hits)))
    y = np.asarray(out.points, dtype=float)
    for k in range(out.n_cells):
        j = next((j for j in left if np.abs(hits[j][2] - x[k]).max() <= tol and (int(ids[k]) == hits[j][1] if poly else {int(q) for q in np.atleast_1d(ids[k])} - {-1} == hits[j][1])), None)
        if j is None:
            raise Violation(f"hit at {x[k].tolist()} of cells {ids[k].tolist()} is not one of {[(h[2].tolist(), h[1]) for h in hits]}")
        left.remove(j)
        ring = geo.match(y[list(out.get_cell(k).point_ids)] - pts[0], pts - pts[0], "vertices of a hit cell", tol=1e-6).tolist()
        require(meshes.same_ring(ring, hits[j][0]), f"vertices of a hit cell: {ring}, expected {hits[j][0]}")
    rec.nontrivial(len(hits) > 1)


def c_bad(s, rec):
    p = np.array([[0.0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]])
    m = pv.PolyData(p, faces=[4, 0, 1, 2, 3], lines=[2, 0, 1])
    geo.raises(ValueError, lambda: pvg.ray_cast(m, s["a"], [0.5, 0.5, -1.0]), "a surface with lines")
    rec.nontrivial()


FACETS = [
    Facet("ray", s_ray(), c_ray, 3000, 24000),
    Facet("large", meshes.large(s_ray()), c_ray, 100, 1000),
    Facet("reject", st.fixed_dictionaries({"a": st.sampled_from([[0.5, 0.5, 1.0], [5.0, 5.0, 5.0]])}), c_bad, 4, 4),
]
