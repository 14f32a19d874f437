"""C35: example meshes, crossed by generated wells."""
from collections import Counter

from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Example meshes (those that need no download) of every generated resolution or option, crossed by vertical wells at generated "
    "positions: number, length and group of the pieces against the closed formulas of the layers, rings and blocks. "
    "Non-trivial: the well goes through at least two groups, or the resolution is not the default one."
)
CACHE = {}


def load(name, *args):
    """Example mesh, built once (a copy of it is used)."""
    key = (name, *args)
    if key not in CACHE:
        CACHE[key] = getattr(pvg.examples, name)(*args)
    return CACHE[key].copy()


def volumes(mesh):
    pts = np.asarray(mesh.points, dtype=float)
    return np.array([abs(geo.faces_volume(geo.cell_faces(t, c), pts)) for t, c in geo.ugrid_cells(mesh)])


# ------------------------------------------------------------------ polyhedra
@st.composite
def s_poly(draw):
    return {"res": draw(st.sampled_from([None, *range(1, 41)])), "which": draw(st.sampled_from(["stadium"] * 9 + ["concave"]))}


def c_poly(s, rec):
    if s["which"] == "concave":
        mesh, ring = pvg.examples.load_concave_polyhedron(), [[0, 0], [5, 0], [5, 1], [1, 1], [1, 7], [0, 7]]
    else:
        n = s["res"] or 16
        mesh = pvg.examples.load_half_stadium() if s["res"] is None else pvg.examples.load_half_stadium(s["res"])
        a = np.pi * np.arange(n + 1) / n
        ring = [[1.0, -1.0], *np.column_stack([np.cos(a), np.sin(a)]).tolist(), [-1.0, -1.0]]
    k = len(ring)
    require(isinstance(mesh, pv.UnstructuredGrid), "type of the mesh")
    geo.same(mesh.n_cells, 1, "number of cells")
    geo.same(mesh.n_points, 2 * k, "number of points")
    ((t, faces),) = geo.ugrid_cells(mesh)
    pts = np.asarray(mesh.points, dtype=float)
    exp = np.vstack([np.column_stack([ring, np.full(k, z)]) for z in (0.0, 1.0)])
    to = geo.match(pts, exp, "points", tol=1e-6)
    geo.same(sorted(to.tolist()), list(range(2 * k)), "points of the polyhedron")
    if k > 6 or s["which"] == "concave":
        geo.same(int(t), int(pv.CellType.POLYHEDRON), "type of the cell")
        got = Counter(frozenset(int(to[i]) for i in f) for f in faces)
        ref = [frozenset(range(k)), frozenset(range(k, 2 * k))] + [frozenset([i, (i + 1) % k, i + k, (i + 1) % k + k]) for i in range(k)]
        require(got == Counter(ref), "faces of the polyhedron")
    area = abs(geo.signed_area2(np.array(ring, dtype=float)))
    vol = volumes(mesh)[0]
    require(abs(vol - area) <= 1e-5 * area, f"volume {vol}, expected {area}")
    rec.label(s["which"], f"res:{s['res']}" if s["res"] is None else "res")
    rec.nontrivial(s["res"] not in (None, 16))


# ------------------------------------------------------------------ anticline
def anticline(x):
    """Boundaries between the layers of the anticline, linear between its points."""
    g = np.linspace(-3.14, 3.14, 42)
    y = np.cos(g) + 1.0
    t = float(np.interp(x, g, y))
    z = [0.0, t, t + 0.5, t + 1.0, t + 1.5, 3.4]
    res = [4, 2, 2, 2, 4]
    return np.concatenate([[z[0]], *[np.linspace(a, b, r + 1)[1:] for a, b, r in zip(z, z[1:], res)]]), g, np.repeat(np.arange(5), res)


@st.composite
def s_anti(draw):
    return {
        "dim": draw(st.sampled_from([2, 3])),
        "x": draw(st.one_of(gen.num(0.7, 2.6), gen.num(-2.6, -0.7))),
        "y": draw(gen.dyadic(0.1, 6.1, 64)),
        "down": draw(st.booleans()),
        "cut": draw(st.booleans()),
    }


def c_anti(s, rec):
    x, y = s["x"] + 0.0031, s["y"] + 0.0047
    mesh = load("load_anticline_2d" if s["dim"] == 2 else "load_anticline_3d")
    z, g, lay = anticline(x)
    geo.same(mesh.n_cells, 41 * 14 * (1 if s["dim"] == 2 else 10), "number of cells")
    geo.same(sorted(mesh.user_dict["CellGroup"]), [f"Layer {i}" for i in range(1, 6)], "groups")
    if np.abs(g - x).min() < 1e-2 or (s["dim"] == 3 and abs((y / 0.628) % 1.0 - 0.5) > 0.49):
        rec.label("edge")
        return
    if np.diff(z).min() < 2e-2:
        rec.label("thin")
        return
    if s["dim"] == 2:
        line = pv.Line([x, 0.0, 4.0], [x, 0.0, -1.0]) if s["down"] else pv.Line([x, 0.0, -1.0], [x, 0.0, 4.0])
    else:
        line = pv.Line([x, y, 4.0], [x, y, -1.0]) if s["down"] else pv.Line([x, y, -1.0], [x, y, 4.0])
    out = pvg.intersect_polyline(mesh, line, ignore_points_before_entry=s["cut"], ignore_points_after_exit=s["cut"])
    ids = np.asarray(out.cell_data["IntersectedCellIds"])
    if not s["cut"]:
        geo.same([int(ids[0]), int(ids[-1])], [-1, -1], "parts outside the anticline")
    length = np.asarray(out.cell_data["Length"])[ids >= 0]
    ids = ids[ids >= 0]
    geo.same(len(ids), 14, "number of layers crossed")
    h = np.diff(z)
    geo.close(length, h[::-1] if s["down"] else h, "thickness of the layers", tol=1e-4)
    names = np.asarray(pvg.get_cell_group(mesh))[ids].tolist()
    ref = [f"Layer {i + 1}" for i in lay]
    geo.same(names, ref[::-1] if s["down"] else ref, "layers crossed")
    if s["dim"] == 2:
        # Structured: constant columns
        i = int(np.searchsorted(g, x) - 1)
        geo.same(sorted((ids % 41).tolist()), [i] * 14, "column of the cells")
    rec.label(f"dim:{s['dim']}", f"down:{s['down']}")
    rec.nontrivial(True)


# ------------------------------------------------------------------ well
@st.composite
def s_well(draw):
    return {
        "vor": draw(st.sampled_from([False, True])),
        "arg": draw(st.booleans()),
        "r": draw(st.one_of(gen.num(0.02, 1.3), gen.num(0.2, 9.4))),
        "a": draw(gen.num(0.0, 360.0)),
        "lean": draw(st.sampled_from([0.0, 0.0, 0.25])),
        "down": draw(st.booleans()),
    }


def group_at(x, y):
    """Group of a point of the well, None near the boundary between two groups."""
    r, a = np.hypot(x, y), np.degrees(np.arctan2(y, x)) % 90.0
    # Rings are polygons with 8 sides per quarter
    b = a % 11.25 - 5.625
    apothem = np.cos(np.radians(5.625)) / np.cos(np.radians(b))
    for radius, g in [(0.34, "Core"), (0.445, "Casing"), (1.0, "Cement")]:
        if abs(r - radius * apothem) < 5e-3:
            return None
        if r < radius * apothem:
            return g
    return "Matrix"


def c_well(s, rec):
    m2 = load("load_well_2d", *([s["vor"]] if s["vor"] or s["arg"] else []))
    m3 = load("load_well_3d", *([s["vor"]] if s["vor"] or s["arg"] else []))
    plan(m2, s["vor"])
    body(m2, m3, s["vor"])
    # A well
    x, y = s["r"] * np.cos(np.radians(s["a"])), s["r"] * np.sin(np.radians(s["a"]))
    if max(abs(x), abs(y)) > 9.5:
        rec.label("out")
        return
    x += 0.00131
    y += 0.00217
    top, bottom = [x, y, 4.0], [x + s["lean"] * 5.0, y, -31.0]
    if abs(bottom[0]) > 9.5:
        rec.label("out")
        return
    g = group_at(x, y)
    if g is None:
        rec.label("near a boundary")
        return
    if s["lean"]:
        c_leaning(s, m3, top, bottom, rec)
        return
    line = pv.Line(top, bottom) if s["down"] else pv.Line(bottom, top)
    pts2 = np.asarray(m2.points, dtype=float)[:, :2]
    margin = min(
        abs(geo.signed_area2([pts2[a], pts2[b], [x, y]])) * 2.0 / np.linalg.norm(pts2[a] - pts2[b])
        for t, c in geo.ugrid_cells(m2)
        for a, b in zip(geo.ring(t, list(c)), np.roll(geo.ring(t, list(c)), -1))
        if min(np.hypot(*(pts2[a] - [x, y])), np.hypot(*(pts2[b] - [x, y]))) <= np.linalg.norm(pts2[a] - pts2[b]) + 1e-2
    )
    if margin < 4e-3:
        rec.label("near an edge")
        return
    out = pvg.intersect_polyline(m3, line, ignore_points_before_entry=True, ignore_points_after_exit=True)
    ids = np.asarray(out.cell_data["IntersectedCellIds"])
    ref = [3.0] * 10 + ([1.0] * 3 if g in ("Core", "Casing") else [])
    geo.close(out.cell_data["Length"], ref[::-1] if s["down"] else ref, f"lengths along a well in {g}", tol=1e-4)
    geo.same(set(np.asarray(pvg.get_cell_group(m3))[ids].tolist()), {g}, "group of a well")
    rec.label(g, f"voronoi:{s['vor']}")
    rec.nontrivial(g != "Matrix")


def c_leaning(s, m3, top, bottom, rec):
    line = pv.Line(top, bottom) if s["down"] else pv.Line(bottom, top)
    try:
        out = pvg.intersect_polyline(m3, line, ignore_points_before_entry=True, ignore_points_after_exit=True)
    except ValueError:
        rec.label("corner")  # Lines through an edge are not judged
        return
    ids = np.asarray(out.cell_data["IntersectedCellIds"])
    pts = np.asarray(out.points, dtype=float)
    names = np.asarray(pvg.get_cell_group(m3)).tolist()
    n = 0
    for (_, a, b), i in zip(np.asarray(out.lines).reshape(-1, 3), ids.tolist()):
        p = 0.5 * (pts[a] + pts[b])
        if i < 0 or np.linalg.norm(pts[a] - pts[b]) < 2e-2:
            continue
        g = group_at(p[0], p[1])
        if g is not None:
            geo.same(names[i], g, f"group at {p.tolist()}")
            n += 1
    total = float(np.sum(out.cell_data["Length"]))
    lo = 30.0 * np.hypot(1.0, s["lean"] / 7.0)
    require(total >= lo * (1 - 1e-4), f"length of a well {total}, at least {lo}")
    rec.label("leaning")
    rec.nontrivial(n > 1)


def plan(m2, vor):
    key = ("plan", vor)
    if CACHE.get(key):
        return
    pts = np.asarray(m2.points, dtype=float)
    rings = [geo.ring(t, list(c)) for t, c in geo.ugrid_cells(m2)]
    names = np.asarray(pvg.get_cell_group(m2)).tolist()
    geo.same(sorted(set(names)), ["Casing", "Cement", "Core", "Matrix"], "groups")
    area = np.array([abs(geo.signed_area2(pts[r][:, :2])) for r in rings])
    require((area > 1e-6).all(), "flat cell")
    unit = 16.0 * np.sin(2.0 * np.pi / 32)
    ref = {"Core": 0.34**2 * unit, "Casing": (0.445**2 - 0.34**2) * unit, "Cement": (1.0 - 0.445**2) * unit, "Matrix": 400.0 - unit}
    require(abs(area.sum() - 400.0) < 1e-3, f"total area {area.sum()}")
    for g, a in ref.items():
        got = area[[x == g for x in names]].sum()
        # Edges of Voronoi cells are those of the rings but for the closed ends
        require(abs(got - a) <= (2e-3 if vor else 1e-5) * max(a, 1.0), f"area of {g}: {got}, expected {a}")
    edges = Counter(frozenset(e) for r in rings for e in zip(r, r[1:] + r[:1]))
    require(all(len(set(r)) == len(r) > 2 for r in rings), "repeated vertices")
    require(max(edges.values()) <= 2, "edge of more than two cells")
    for e, n in edges.items():
        if n == 1:
            a, b = e
            d = 10.0 - np.abs(0.5 * (pts[a] + pts[b])[:2]).max()
            require(abs(d) < 1e-3, f"edge of a single cell at {d:g} from the outline")
    CACHE[key] = True


def body(m2, m3, vor):
    key = ("body", vor)
    if CACHE.get(key):
        return
    names2 = np.asarray(pvg.get_cell_group(m2)).tolist()
    names = np.asarray(pvg.get_cell_group(m3)).tolist()
    inner = sum(g in ("Core", "Casing") for g in names2)
    geo.same(m3.n_cells, 10 * m2.n_cells + 3 * inner, "number of cells")
    require("Inactive" not in names, "inactive cells left")
    require("vtkOriginalCellIds" not in m3.cell_data and "vtkOriginalPointIds" not in m3.point_data, "indices left")
    z = np.asarray(m3.points, dtype=float)[:, 2]
    geo.close([z.min(), z.max()], [-30.0, 3.0], "depths")
    vol = volumes(m3)
    pts = np.asarray(m2.points, dtype=float)
    area = np.array([abs(geo.signed_area2(pts[geo.ring(t, list(c))][:, :2])) for t, c in geo.ugrid_cells(m2)])
    for g in sorted(set(names2)):
        a = area[[x == g for x in names2]].sum() * (33.0 if g in ("Core", "Casing") else 30.0)
        got = vol[[x == g for x in names]].sum()
        require(abs(got - a) <= 1e-5 * max(a, 1.0), f"volume of {g}: {got}, expected {a}")
    CACHE[key] = True


FACETS = [
    Facet("polyhedra", s_poly(), c_poly, 120, 400),
    Facet("anticline", s_anti(), c_anti, 100, 800),
    Facet("well", s_well(), c_well, 60, 600),
]
