"""Reference model of Voronoi meshes: clipped nearest-site cells."""
from __future__ import annotations

from hypothesis import strategies as st

from . import gen, geo
from .boot import np, pv
from .core import require


def shapely():
    import shapely

    return shapely


@st.composite
def domain(draw, n_min=2, n_max=4, kinds=(0, 0, 1, 2, 4)):
    """Background mesh: a grid of quads, triangles and polygons, possibly notched or holed."""
    shape = draw(st.sampled_from(["full", "full", "L", "U", "hole", "holes"]))
    few, many = (5, 6) if shape == "holes" else (n_min, n_max)
    xs = draw(gen.increasing(few + 1, many + 1, step=gen.pos(2.0, 0.5)))
    few, many = (3, 5) if shape == "holes" else (n_min, n_max)
    ys = draw(gen.increasing(few + 1, many + 1, step=gen.pos(2.0, 0.5)))
    nx, ny = len(xs) - 1, len(ys) - 1
    return {
        "xs": xs,
        "ys": ys,
        "shape": shape,
        "kind": draw(st.sampled_from(["s", "u", "u"])),
        "kinds": draw(st.lists(st.sampled_from(list(kinds)), min_size=nx * ny, max_size=nx * ny)),
        "jit": draw(st.lists(st.integers(-4, 4), min_size=2 * (nx + 1) * (ny + 1), max_size=2 * (nx + 1) * (ny + 1))),
        "shear": draw(st.sampled_from([0.0, 0.0, 0.3, -0.5])),
        "axis": draw(st.sampled_from([2, 2, 0, 1])),
        "w": draw(gen.offset),
        "perm": draw(st.integers(0, 20)),
        # Divisor of the displacements of the outline (0: straight)
        "bulge": draw(st.sampled_from([0, 0, 20, 100, 500, 2000])),
        # Far from the origin, as geographic coordinates are
        "far": draw(st.sampled_from([0, 0, 0, 1])),
    }


@st.composite
def large_domain(draw, kinds=(0, 0, 1, 2, 4)):
    """A background mesh of a hundred cells and more, drawn from a few numbers."""
    from random import Random

    d = draw(domain(kinds=kinds))
    rng = Random(draw(st.integers(0, 10**6)))

    def coords(x0, n):
        out = [x0]
        for _ in range(n):
            out.append(out[-1] + 0.25 * rng.randint(2, 6))
        return out

    nx, ny = rng.randint(6, 16), rng.randint(6, 16)
    d["xs"], d["ys"] = coords(d["xs"][0], nx), coords(d["ys"][0], ny)
    d["kinds"] = [rng.choice(list(kinds)) for _ in range(nx * ny)]
    d["jit"] = [rng.randint(-4, 4) for _ in range(2 * (nx + 1) * (ny + 1))]
    return d


class Domain:
    def __init__(self, s):
        import random

        xs, ys = s["xs"], s["ys"]
        nx, ny = len(xs) - 1, len(ys) - 1
        self.axis = s["axis"]
        self.lat = [i for i in range(3) if i != self.axis]
        hx = min(b - a for a, b in zip(xs, xs[1:]))
        hy = min(b - a for a, b in zip(ys, ys[1:]))
        removed = set()
        kind = s["kind"]
        shape = s["shape"] if kind == "u" else "full"
        if shape == "L":
            removed = {(nx - 1, ny - 1)}
        elif shape == "U" and nx > 2:
            removed = {(1, ny - 1)}
        elif shape == "hole" and nx > 2 and ny > 2:
            removed = {(1, 1)}
        elif shape == "holes" and nx > 4 and ny > 2:
            removed = {(1, 1), (3, 1)} | ({(1, 3), (3, 3)} if ny > 4 else set())
        near = {(i + a, j + b) for i, j in removed for a in (0, 1) for b in (0, 1)}
        xy = []
        for j in range(ny + 1):
            for i in range(nx + 1):
                k = 2 * (j * (nx + 1) + i)
                dx, dy = s["jit"][k] * hx / 20, s["jit"][k + 1] * hy / 20
                dx, dy = dx * s.get("js", 1.0), dy * s.get("js", 1.0)
                if i in (0, nx) or j in (0, ny) or (i, j) in near:
                    # the outline stays straight, or bulges more or less
                    f = 20 / s["bulge"] if s.get("bulge") else 0.0
                    dx, dy = dx * f, dy * f
                x, y = xs[i] + dx, ys[j] + dy
                xy.append((x + s["shear"] * y, y))
        self.xy = np.array(xy)
        if s.get("far"):
            self.xy += np.array([2.0**19, 2.0**22])
        cells = []
        for j in range(ny):
            for i in range(nx):
                if (i, j) in removed:
                    continue
                a = j * (nx + 1) + i
                q = [a, a + 1, a + nx + 2, a + nx + 1]
                k = s["kinds"][j * nx + i]
                if kind == "s" or k == 0:
                    cells.append((int(geo.CT.QUAD), q))
                elif k == 1:
                    cells += [(int(geo.CT.TRIANGLE), [q[0], q[1], q[2]]), (int(geo.CT.TRIANGLE), [q[0], q[2], q[3]])]
                elif k == 2:
                    cells += [(int(geo.CT.TRIANGLE), [q[0], q[1], q[3]]), (int(geo.CT.TRIANGLE), [q[1], q[2], q[3]])]
                else:
                    cells.append((int(geo.CT.POLYGON), q))
        if kind == "u" and s["perm"]:
            random.Random(s["perm"]).shuffle(cells)
        self.cells = cells
        p = geo.place(self.xy, self.axis, s["w"])
        if kind == "s":
            g = p.reshape(ny + 1, nx + 1, 3).transpose(1, 0, 2)
            g = np.expand_dims(g, self.axis)
            self.mesh = pv.StructuredGrid(*[g[..., i].copy() for i in range(3)])
            self.xy_points = np.asarray(self.mesh.points, dtype=float)[:, self.lat]
        else:
            used = sorted({i for _, c in cells for i in c})
            new = {o: n for n, o in enumerate(used)}
            self.mesh = geo.make_ugrid(p[used], [(t, [new[i] for i in c]) for t, c in cells])
            self.xy_points = self.xy[used]
        sh = shapely()
        self.region = sh.union_all([sh.Polygon(self.xy[c]) for _, c in cells])
        # straight outline
        self.region = self.region.simplify(1e-9)
        self.size = float(np.ptp(self.xy, axis=0).max())

    def centers(self):
        # Centres of polygons as defined by VTK
        vtk = np.asarray(self.mesh.cell_centers().points, dtype=float)[:, self.lat]
        return np.array(
            [
                vtk[i] if t == geo.CT.POLYGON else self.xy[c].mean(axis=0)
                for i, (t, c) in enumerate(self.cells)
            ]
        )


def halfplanes(sites, i, box):
    """Points of a box nearer to site i than to any other one (convex clipping)."""
    poly = box
    p = sites[i]
    order = np.argsort(((sites - p) ** 2).sum(axis=1))
    for j in order[1:]:
        n = sites[j] - p
        c = float(np.dot(n, 0.5 * (sites[j] + p)))
        out = []
        d = [float(np.dot(n, q)) - c for q in poly]
        for a, b, da, db in zip(poly, poly[1:] + poly[:1], d, d[1:] + d[:1]):
            if da <= 0:
                out.append(a)
            if (da < 0 < db) or (db < 0 < da):
                t = da / (da - db)
                out.append(a + t * (b - a))
        poly = out
        if len(poly) < 3:
            break
    return poly


def simple(poly, eps):
    a, b = poly.buffer(-eps), poly.buffer(eps)
    return a.geom_type == "Polygon" and not a.is_empty and not len(b.interiors)


def model(dom, sites):
    """Expected polygon of every site, or None where one is not simply connected."""
    sh = shapely()
    x0, y0, x1, y1 = dom.region.bounds
    d = 10.0 * max(x1 - x0, y1 - y0)
    box = [np.array(q, dtype=float) for q in ((x0 - d, y0 - d), (x1 + d, y0 - d), (x1 + d, y1 + d), (x0 - d, y1 + d))]
    out = []
    for i in range(len(sites)):
        ring = halfplanes(sites, i, box)
        ring = [q for k, q in enumerate(ring) if np.abs(q - ring[k - 1]).max() > 1e-10 * d]
        poly = sh.Polygon(ring).intersection(dom.region)
        if poly.geom_type != "Polygon" or len(poly.interiors):
            return None
        # Cells that hardly hold together, or that almost close on themselves
        if d and not simple(poly, 1e-7 * d):
            return None
        out.append(poly)
    area = dom.region.area
    if abs(sum(q.area for q in out) - area) > 1e-6 * area:
        return None  # Failed overlay
    return out


def separation(sites):
    d = np.linalg.norm(sites[:, None] - sites[None], axis=-1)
    np.fill_diagonal(d, np.inf)
    return float(d.min())


def area_between(a, b, size):
    """Area of the symmetric difference of two polygons.

    Overlays of almost identical polygons occasionally fail in floating-point arithmetic
    (the area is then that of both): the snapped overlay settles such cases.
    """
    sh = shapely()
    # Close to the origin for precision
    o = np.array(a.bounds[:2])
    a, b = sh.transform(a, lambda c: c - o), sh.transform(b, lambda c: c - o)
    return min(a.symmetric_difference(b).area, sh.symmetric_difference(a, b, grid_size=1e-9 * size).area)


def conforming(out, dom, p2, min_length):
    """Edges belong to two cells, or to one cell on the outline."""
    sh = shapely()
    edges = {}
    for i, (t, c) in enumerate(geo.ugrid_cells(out)):
        ring = geo.ring(t, list(c))
        require(len(set(ring)) == len(ring) > 2, f"vertices of cell {i}: {ring}")
        for e in zip(ring, ring[1:] + ring[:1]):
            edges.setdefault(frozenset(e), []).append(i)
    line = dom.region.boundary
    for e, c in edges.items():
        a, b = e
        require(len(c) <= 2, f"edge of cells {c}")
        if len(c) == 1:
            d = line.distance(sh.Point(0.5 * (p2[a] + p2[b])))
            require(d <= 2 * min_length + 1e-6 * dom.size, f"edge from {p2[a].tolist()} to {p2[b].tolist()} of a single cell at {d:g} from the outline")


def compare(out, dom, sites, min_length, orientation="CCW", groups=None, gone=()):
    """Checks a generated mesh against the model; returns the site of each cell.

    Sites that are listed as gone have cells smaller than the minimum length.
    """
    sh = shapely()
    exp = model(dom, sites)
    if exp is None:
        return None
    left = [i for i in range(len(sites)) if i not in set(gone)]
    geo.same(out.n_cells, len(left), "number of cells")
    xyz = np.column_stack([out.cell_data[k] for k in "XYZ"])
    geo.close(xyz[:, dom.axis], np.zeros(len(left)), "site coordinate along the axis")
    ref = geo.place(sites, dom.axis, 0.0)
    idx = geo.match(xyz, ref, "site of a cell", tol=1e-6)
    geo.same(sorted(idx.tolist()), left, "sites of the cells")
    pts = np.asarray(out.points, dtype=float)
    geo.close(pts[:, dom.axis], np.zeros(len(pts)), "plane of the mesh")
    p2 = pts[:, dom.lat]
    total = 0.0
    conforming(out, dom, p2, min_length)
    for (t, c), i in zip(geo.ugrid_cells(out), idx):
        ring = p2[geo.ring(t, list(c))]
        a = geo.signed_area2(ring)
        if groups is None:
            require((a > 0) == (orientation == "CCW"), f"orientation of a cell (signed area {a:g})")
        poly = sh.Polygon(ring)
        tol = 3.0 * exp[i].length * (min_length + 1e-6 * dom.size) + 1e-9
        if poly.is_valid:
            diff = area_between(poly, exp[i], dom.size)
        else:
            diff = abs(abs(a) - exp[i].area)
        require(diff <= tol, f"cell of site {sites[i].tolist()} differs from its nearest-site region by an area of {diff:g} (expected area {exp[i].area:g})")
        total += abs(a)
    area = dom.region.area
    require(abs(total - area) <= (1e-6 + 10 * min_length) * area, f"total area {total}, expected {area}")
    return idx


def mismatch(polys, target):
    """Area by which a set of disjoint polygons differs from a target."""
    sh = shapely()
    inside = outside = 0.0
    o = np.array(target.bounds[:2])
    target = sh.transform(target, lambda c: c - o)
    for q in polys:
        q = q if hasattr(q, "area") else sh.Polygon(q)
        q = sh.transform(q, lambda c: c - o)
        q = q if q.is_valid else q.buffer(0)
        a = max(q.intersection(target).area, sh.intersection(q, target, grid_size=1e-9 * target.length).area)
        inside += a
        outside += q.area - a
    return abs(target.area - inside) + abs(outside)
