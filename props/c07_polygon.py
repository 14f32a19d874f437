"""C07: meshed polygons cover their shell minus the holes."""
import math

from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Polygon is called with generated simple polygons (any orientation, closed or open rings, 2D/3D arrays, "
    "polylines, faces, meshes; XY, XZ and YZ planes), up to thirty holes, cell types, sizes, algorithms and engines; "
    "area, ring vertices, boundary edges, conformity, cell types and emptiness of holes are checked. "
    "Non-trivial: more than one cell, or a rejected call."
)


@st.composite
def star(draw, lo, hi, n_max=7):
    n = draw(st.integers(4, n_max))
    r = draw(st.lists(st.integers(0, 16), min_size=n, max_size=n))
    j = draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n))
    out = []
    for k in range(n):
        t = 2 * math.pi * (k + j[k] / 32.0) / n
        q = lo + (hi - lo) * r[k] / 16.0
        out.append([round(q * math.cos(t), 4), round(q * math.sin(t), 4)])
    return out


@st.composite
def s_poly(draw):
    nh = draw(st.sampled_from([0, 1, 2, 0, 1, 2, 4, 6]))
    return {
        "shell": draw(star(2.0, 4.0)),
        "holes": [draw(star(0.1, 0.25, 5) if nh > 2 else star(0.2, 0.4, 5)) for _ in range(nh)],
        "type": draw(st.sampled_from([None, "triangle", "triangle", "quad", "polygon"])),
        "size": draw(st.one_of(st.none(), st.sampled_from([0.5, 0.75, 1.0, 2.5]))),
        "alg": draw(st.sampled_from([None, 5, 6, 8])),
        "opt": draw(st.sampled_from([None, None, "Laplace2D", "Relocate2D"])),
        "engine": draw(st.sampled_from([None, "gmsh", "occ"])),
        "form": draw(st.sampled_from(["open", "closed", "2d", "list", "line", "face", "grid"])),
        "rev": draw(st.booleans()),
        "roll": draw(st.integers(0, 3)),
        "axis": draw(st.sampled_from([2, 2, 0, 1])),
        "w": draw(gen.num(-5, 5)),
        "o": draw(st.sampled_from([[0.0, 0.0], [0.0, 0.0], [10.5, -3.25], [500000.5, 4000000.25]])),
        "scale": draw(st.sampled_from([0, 0, 0, 0, -10, 8])),
        "short": draw(st.sampled_from([False, False, False, True])),
    }


@st.composite
def s_many(draw):
    """Many holes, and shells of many vertices."""
    from random import Random

    s = draw(s_poly())
    rng = Random(draw(st.integers(0, 10**6)))
    n = draw(st.sampled_from([0, 7, 12, 30]))
    at = rng.sample([(0.3 * i, 0.3 * j) for i in range(-3, 4) for j in range(-3, 4)], n)
    s["at"] = [list(p) for p in at]
    s["holes"] = [[[round(0.08 * math.cos(t), 4), round(0.08 * math.sin(t), 4)] for t in (0.1, 1.2, 2.5, 3.9, 5.0)] for _ in range(n)]
    k = draw(st.integers(20, 120))
    r = [3.0 + rng.random() for _ in range(k)]
    s["shell"] = [[round(r[i] * math.cos(2 * math.pi * i / k), 4), round(r[i] * math.sin(2 * math.pi * i / k), 4)] for i in range(k)]
    s["type"] = s["type"] if n == 0 or s["type"] != "polygon" else "triangle"
    return s


def as_input(p3, form):
    n = len(p3)
    if form == "closed":
        return np.vstack([p3, p3[:1]])
    if form == "list":
        return p3.tolist()
    if form == "line":
        return pv.PolyData(np.vstack([p3, p3[:1]]), lines=[n + 1, *range(n + 1)])
    if form == "face":
        return pv.PolyData(p3, faces=[n, *range(n)])
    if form == "grid":
        return pv.UnstructuredGrid(np.array([n, *range(n)]), [geo.CT.POLYGON], p3)
    return p3.copy()


def c_poly(s, rec):
    ax = s["axis"]
    rings = [np.array(s["shell"])]
    if s["short"]:
        # A vertex next to another one
        k = s["roll"] % len(rings[0])
        rings[0] = np.insert(rings[0], k, rings[0][k] + 0.01 * (rings[0][k - 1] - rings[0][k]), axis=0)
    offs = [(-0.6, 0.0), (0.6, 0.0), (0.0, 0.6), (0.0, -0.6), (0.6, 0.6), (-0.6, -0.6)]
    for h, o in zip(s["holes"], s.get("at", offs)):
        rings.append(np.array(h) + o)
    unit = 2.0 ** s["scale"]
    rings = [(np.roll(r[::-1] if s["rev"] else r, s["roll"], axis=0) + s["o"]) * unit for r in rings]
    origin = np.array(s["o"]) * unit
    form = s["form"]
    w = s["w"] * unit
    size = s["size"] * unit if s["size"] else None
    if form == "2d":
        ax, w = 2, 0.0
        args = [r.copy() for r in rings]
    else:
        args = [as_input(geo.place(r, ax, w), form) for r in rings]
    kw = {}
    for k, v in (("celltype", s["type"]), ("cellsize", size), ("algorithm", s["alg"]), ("optimization", s["opt"]), ("engine", s["engine"])):
        if v is not None:
            kw[k] = v
    if len(args) > 1:
        kw["holes"] = args[1:]
    if s["type"] == "polygon" and len(args) > 1:
        geo.raises(ValueError, lambda: pvg.Polygon(args[0], **kw), "single polygon with holes")
        rec.label("reject")
        rec.nontrivial()
        return
    m = pvg.Polygon(args[0], **kw)
    ct = s["type"] or ("triangle" if len(args) > 1 else "polygon")
    pts = np.asarray(m.points, dtype=float)
    require(np.abs(pts[:, ax] - w).max() <= 1e-6 * unit, "nodes out of the plane of the polygon")
    p2 = np.delete(pts, ax, axis=1) - origin
    rings = [r - origin for r in rings]
    cells = geo.ugrid_cells(m)
    types = {t for t, _ in cells}
    allowed = {"polygon": {int(geo.CT.POLYGON)}, "triangle": {int(geo.CT.TRIANGLE)}, "quad": {int(geo.CT.QUAD), int(geo.CT.TRIANGLE)}}[ct]
    require(types <= allowed, f"cell types {types} for {ct}")
    if ct == "polygon":
        geo.same(m.n_cells, 1, "number of cells")
        geo.same(m.n_points, len(rings[0]), "number of nodes")
    area = abs(geo.signed_area2(rings[0])) - sum(abs(geo.signed_area2(r)) for r in rings[1:])
    a = np.array([geo.signed_area2(p2[c]) for _, c in cells])
    # gmsh may recombine coarse triangles into folded quads: their signed areas still add up
    total = abs(a.sum()) if ct == "quad" else np.abs(a).sum()
    require(abs(total - area) <= 1e-6 * area, f"area {total}, expected {area}")
    # Every ring vertex is a node
    allr = np.vstack(rings)
    d = np.linalg.norm(allr[:, None] - p2[None], axis=2).min(axis=1)
    require(d.max() <= 1e-6 * unit, "a vertex of the shell or of a hole is not a node of the mesh")
    if ct == "quad" and a.min() * a.max() < 0.0:
        # A folded mesh of gmsh: its edges tell nothing
        rec.label("folded")
        return
    edges = {}
    for _, c in cells:
        for i, j in zip(c, c[1:] + c[:1]):
            edges[frozenset((i, j))] = edges.get(frozenset((i, j)), 0) + 1
    require(max(edges.values()) <= 2, "an edge is shared by more than two cells")
    bnd = [sorted(e) for e, n in edges.items() if n == 1]
    ln = np.array([np.linalg.norm(p2[i] - p2[j]) for i, j in bnd])
    per = sum(float(np.linalg.norm(np.diff(np.vstack([r, r[:1]]), axis=0), axis=1).sum()) for r in rings)
    require(abs(ln.sum() - per) <= 1e-6 * per, f"boundary length {ln.sum()}, expected {per}: mesh is not conforming")
    if ct != "polygon":
        if s["size"] is None:
            geo.same(len(bnd), len(allr), "number of boundary edges without cell size")
        else:
            require(ln.max() <= size * 1.02, f"boundary edge of length {ln.max()} for a cell size of {size}")
    rec.label(ct, form, f"holes:{len(args) - 1}", f"engine:{s['engine']}", f"size:{s['size']}", f"axis:{ax}")
    rec.nontrivial(m.n_cells > 1)


@st.composite
def s_bad(draw):
    return {
        "p": draw(star(2.0, 4.0)),
        "kw": draw(st.sampled_from([{"celltype": "hexagon"}, {"celltype": "triangle", "engine": "cgal"}, {"celltype": "quad", "engine": ""}, {"celltype": "Triangle"}])),
    }


def c_bad(s, rec):
    geo.raises(ValueError, lambda: pvg.Polygon(np.array(s["p"]), **s["kw"]), f"Polygon({s['kw']})")
    # A rejected call leaves the mesher usable
    m = pvg.Polygon(np.array(s["p"]), celltype="triangle")
    require(m.n_cells >= 2, "mesh after a rejected call")
    rec.label(str(s["kw"]))
    rec.nontrivial()


FACETS = [
    Facet("mesh", s_poly(), c_poly, 3000, 30000),
    Facet("many", s_many(), c_poly, 100, 400),
    Facet("reject", s_bad(), c_bad, 60, 300),
]
