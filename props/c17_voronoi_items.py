"""C17: items of Voronoi meshes: priorities, groups, circles, polylines."""
from hypothesis import strategies as st

from harness import gen, geo, vor
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Voronoi meshes with up to four items (points, surface patches, circles, straight and bent polylines) of any priority, "
    "group, axis and position; sites, groups and cells against an independent model of which sites survive. "
    "Non-trivial: an item covers a site of another item, or the item is a circle or polyline that fits in the domain."
)
sh = vor.shapely


def big(draw):
    d = draw(vor.domain(n_min=3, n_max=4))
    d["shape"] = "full"
    return d


# ------------------------------------------------------------------ points and patches
@st.composite
def s_items(draw):
    items = []
    near = draw(st.sampled_from([True, True, False]))
    c0 = draw(st.tuples(gen.num(0.3, 0.7), gen.num(0.3, 0.7)))
    prs = draw(st.sampled_from([[0], [0, 1], [0, 0, 1, -1], [1, -1], [-2, -1, 0, 1, 2], [3, 9, -10, 12, 40], [100, 250, -99]]))
    for _ in range(draw(st.integers(1, 4))):
        if near:
            # Overlapping items
            c = draw(st.tuples(gen.num(-0.2, 0.2), gen.num(-0.2, 0.2)).map(lambda d: [c0[0] + d[0], c0[1] + d[1]]))
        else:
            c = draw(st.tuples(gen.num(-0.1, 1.1), gen.num(-0.1, 1.1)).map(list))
        items.append(
            {
                "kind": draw(st.sampled_from(["points", "patch", "patch", "patch"])),
                "pr": draw(st.sampled_from(prs)),
                "g": draw(st.sampled_from([None, "a", "b", "dict", "own"])),
                "c": c,
                "near": near,
                "w": draw(st.sampled_from([0.2, 0.35, 0.5])),
                "n": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
                "seed": draw(st.integers(0, 1000)),
                "rot": draw(st.sampled_from([0.0, 0.3, 1.1])),
                "form": draw(st.sampled_from(["s", "u"])),
                "explicit": draw(st.booleans()),
            }
        )
    d = big(draw)
    return {
        "d": d,
        "pref": draw(st.sampled_from(["cell", "point"])),
        "items": items,
        "default": draw(st.sampled_from([None, "bg"])),
        "ignore": draw(st.booleans()),
        "orient": draw(st.sampled_from(["CCW", "CW"])),
        "groups": draw(st.booleans()),
    }


def grid_cells(n):
    """Quads (VTK order) of a grid of n[0] x n[1] cells with point i + j * (n[0] + 1)."""
    return [
        [j * (n[0] + 1) + i, j * (n[0] + 1) + i + 1, (j + 1) * (n[0] + 1) + i + 1, (j + 1) * (n[0] + 1) + i]
        for j in range(n[1])
        for i in range(n[0])
    ]


def patch(it, lo, hi):
    """xy points and cells of a rotated patch."""
    n = it["n"]
    size = it["w"] * (hi - lo)
    c = lo + np.array(it["c"]) * (hi - lo) + 0.0137
    g = np.array([[i / n[0] - 0.5, j / n[1] - 0.5] for j in range(n[1] + 1) for i in range(n[0] + 1)]) * size
    r = it["rot"]
    xy = g @ np.array([[np.cos(r), np.sin(r)], [-np.sin(r), np.cos(r)]]) + c
    return xy, grid_cells(n)


def inside_any(p, polys):
    """Index of the polygon containing p, -1 outside, None when too close to tell."""
    pt = sh().Point(p)
    for k, q in enumerate(polys):
        if q.boundary.distance(pt) < 5e-3 * q.length:
            return None
        if q.contains(pt):
            return k
    return -1


def c_items(s, rec):
    d = vor.Domain(s["d"])
    lo, hi = d.xy.min(axis=0), d.xy.max(axis=0)
    default = s["default"] or "default"
    ignore = ["x"] if s["ignore"] else None
    if s["pref"] == "cell":
        base = d.centers()
        names = [default] * len(base)
        if s["groups"]:
            k = np.arange(d.mesh.n_cells) % 3
            d.mesh.cell_data["CellGroup"] = np.array([5, 2, 9])[k]
            d.mesh.user_dict["CellGroup"] = {"x": 5, "y": 2}
            names = [["x", "y", default][i] for i in k]
            names = [default if ignore and x == "x" else x for x in names]
    else:
        base = d.xy_points
        names = [default] * len(base)
    e = pvg.VoronoiMesh2D(d.mesh, axis=d.axis, preference=s["pref"], default_group=s["default"], ignore_groups=ignore)
    model = []
    for it in s["items"]:
        kw = {"priority": it["pr"]} if it["pr"] or it["explicit"] else {}
        g = it["g"]
        if it["kind"] == "points":
            rng = np.random.default_rng(it["seed"])
            if it["near"]:
                xy = lo + (np.array(it["c"]) + (rng.random((3, 2)) - 0.5) * it["w"]) * (hi - lo)
            else:
                xy = lo + (rng.random((3, 2)) * 1.1 - 0.05) * (hi - lo)
            p = geo.place(xy, d.axis, 1.5)
            sites, polys = xy, []
            arg = p if it["form"] == "s" else pv.PolyData(p)
            g = g if g in (None, "a", "b") else "c"
            gr = [g or default] * len(xy)
        else:
            xy, cells = patch(it, lo, hi)
            p = geo.place(xy, d.axis, -2.0)
            n = it["n"]
            if it["form"] == "s":
                q = np.expand_dims(p.reshape(n[1] + 1, n[0] + 1, 3).transpose(1, 0, 2), d.axis)
                arg = pv.StructuredGrid(*[q[..., i].copy() for i in range(3)])
            else:
                arg = geo.make_ugrid(p, [(int(geo.CT.QUAD), c) for c in cells])
            sites = np.array([xy[c].mean(axis=0) for c in cells])
            polys = [sh().Polygon(xy[c]) for c in cells]
            gr = [(g or default)] * len(sites)
            if g == "dict":
                g = {"q": lambda m: np.asarray(m.cell_data["tag"]) % 2 == 0}
                arg.cell_data["tag"] = np.arange(len(cells))
                gr = ["q" if i % 2 == 0 else default for i in range(len(cells))]
            elif g == "own":
                g = None
                arg.cell_data["CellGroup"] = np.arange(len(cells)) % 2 + 3
                arg.user_dict["CellGroup"] = {"m": 3, "x": 4}
                gr = [["m", default if ignore else "x"][i % 2] for i in range(len(cells))]
        if g is not None:
            kw["group"] = g
        require(e.add(arg, **kw) is e, "add is not chainable")
        # Items of which no site is in the domain are ignored, as are their cells outside of it
        keep = []
        for k, x in enumerate(sites):
            pt = sh().Point(x)
            if d.region.boundary.distance(pt) < 1e-2:
                rec.label("ambiguous")
                return
            if d.region.contains(pt):
                keep.append(k)
        model.append((it, [sites[k] for k in keep], [polys[k] for k in keep] if polys else [], [gr[k] for k in keep]))
    cur = [(x, -np.inf, g) for x, g in zip(base, names)]
    removed = met = 0
    for it, sites, polys, gr in sorted(model, key=lambda t: abs(t[0]["pr"])):
        pr = abs(it["pr"])
        left = []
        for x, q, g in cur:
            k = inside_any(x, polys)
            if k is None:
                rec.label("ambiguous")
                return
            met += k >= 0 and q >= 0
            if k >= 0 and (q < pr or (q == pr and it["pr"] >= 0)):
                removed += 1
                continue
            left.append((x, q, g))
        cur = left + [(x, pr, g) for x, g in zip(sites, gr)]
    sites = np.array([c[0] for c in cur])
    if len(sites) < 4 or vor.separation(sites) < 0.02 or np.linalg.matrix_rank(sites - sites[0], tol=1e-2) < 2:
        rec.label("ambiguous")
        return
    out = e.generate_mesh(orientation=s["orient"])
    idx = vor.compare(out, d, sites, 1e-4, s["orient"])
    if idx is None:
        rec.label("split cell")
        return
    got = pvg.get_cell_group(out)
    for i, g in zip(idx, got):
        require(g == cur[i][2], f"group of site {sites[i].tolist()}: {str(g)!r}, expected {cur[i][2]!r}")
    geo.same(sorted(out.user_dict["CellGroup"]), sorted({c[2] for c in cur}), "group names")
    rec.label(f"axis:{d.axis}", s["pref"], *(f"{it['kind']}:{it['pr']}" for it in s["items"]))
    rec.nontrivial(met > 0)
    rec.label("discards" if removed else "keeps")


# ------------------------------------------------------------------ circles
@st.composite
def s_circle(draw, many=False):
    d = big(draw)
    return {
        "d": d,
        "pref": draw(st.sampled_from(["cell", "point"])),
        "c": draw(st.one_of(st.none(), st.tuples(gen.num(0.35, 0.65), gen.num(0.35, 0.65)).map(list))),
        "c3": draw(st.booleans()),
        "r": draw(st.sampled_from([0.1, 0.15, 0.2])),
        "k": draw(st.sampled_from([None, 1.0, 1.2, 1.5, 1.8, 0.9])),
        "n": draw(st.integers(13, 48) if many else st.integers(5, 12)),
        "plain": draw(st.booleans()),
        "pr": draw(st.sampled_from([0, 1, 2])),
        "g": draw(st.sampled_from([None, "w"])),
        "orient": draw(st.sampled_from(["CCW", "CW"])),
    }


def vtk_centers(polys, c):
    """Least and greatest distances from a point to the centres of polygons according to VTK."""
    pts, cells, own = [], [], []
    for i, q in enumerate(polys):
        p = np.array(q.exterior.coords[:-1])
        ids = list(range(len(pts), len(pts) + len(p)))
        pts += [[x, y, 0.0] for x, y in p - c]
        for ring in (ids, ids[::-1]):
            for k in range(len(ring)):
                cells.append((int(geo.CT.POLYGON), ring[k:] + ring[:k]))
                own.append(i)
    d = np.linalg.norm(np.asarray(geo.make_ugrid(np.array(pts), cells).cell_centers().points), axis=1)
    own = np.array(own)
    return [np.array([f(d[own == i]) for i in range(len(polys))]) for f in (np.min, np.max)]


def c_circle(s, rec):
    spec = dict(s["d"])
    if s["c"] is None:
        # Around the origin
        spec["xs"] = [x - 0.5 * (spec["xs"][0] + spec["xs"][-1]) + 0.011 for x in spec["xs"]]
        spec["ys"] = [y - 0.5 * (spec["ys"][0] + spec["ys"][-1]) - 0.007 for y in spec["ys"]]
    d = vor.Domain(spec)
    lo, hi = d.xy.min(axis=0), d.xy.max(axis=0)
    c = np.zeros(2) if s["c"] is None else lo + np.array(s["c"]) * (hi - lo)
    ptc = sh().Point(c)
    if not d.region.contains(ptc):
        rec.label("outside")
        return
    gap = d.region.boundary.distance(ptc)
    r = s["r"] * min(hi - lo)
    k = 1.5 if s["k"] is None else s["k"]
    r = min(r, 0.8 * gap / max(k, 1.0))
    e = pvg.VoronoiMesh2D(d.mesh, axis=d.axis, preference=s["pref"])
    kw = {} if s["k"] is None else {"constraint_radius": k * r if k != 1.0 else r}
    if s["c"] is not None:
        kw["center"] = geo.place([c], d.axis, 3.0)[0] if s["c3"] else c.tolist()
    if s["pr"]:
        kw["priority"] = s["pr"]
    if s["g"]:
        kw["group"] = s["g"]
    if k < 1.0:
        geo.raises(ValueError, lambda: e.add_circle(r, resolution=s["n"], **kw), "constraint radius below the radius")
        rec.label("reject")
        return
    plain = s["plain"] and k > 1.0
    require(e.add_circle(r, resolution=s["n"], plain=plain, **kw) is e, "add_circle is not chainable")
    n = s["n"]
    th = 2 * np.pi * np.arange(n + 1) / n

    def ngon(rad):
        return np.column_stack([rad * np.cos(th[:-1]), rad * np.sin(th[:-1])]) + c

    # Background sites away from the circle and its constraint survive
    base = d.centers() if s["pref"] == "cell" else d.xy_points
    outer = sh().Polygon(ngon(k * r))
    for x in base:
        if outer.boundary.distance(sh().Point(x)) < 1e-3 * r:
            rec.label("ambiguous")
            return
    kept = [x for x in base if not outer.contains(sh().Point(x))]
    h = np.pi / n
    mid = np.column_stack([np.cos(th[:-1] + h), np.sin(th[:-1] + h)]) * np.cos(h)
    dr = (k - 1.0) * r
    if k > 1.0:
        ring = [2 / 3 * (r - dr) * mid + c, (r - 0.5 * dr) * mid + c, (r + 0.5 * dr) * mid + c]
    else:
        ring = [2 / 3 * r * mid + c]
    sites = np.vstack([*ring, *[np.array(kept)]]) if kept else np.vstack(ring)
    if vor.separation(sites) < 0.02 * r:
        rec.label("ambiguous")
        return
    out = e.generate_mesh(orientation=s["orient"])
    pts = np.asarray(out.points, dtype=float)[:, d.lat]
    cells = [pts[geo.ring(t, list(q))] for t, q in geo.ugrid_cells(out)]
    area = np.array([geo.signed_area2(q) for q in cells])
    require(((area > 0) == (s["orient"] == "CCW")).all(), "orientation of the cells")
    area = np.abs(area)
    require(abs(area.sum() - d.region.area) <= 2e-3 * d.region.area, f"total area {area.sum()}, expected {d.region.area}")
    exp = vor.model(d, sites)
    if exp is None:
        rec.label("split cell")
        return
    if not plain:
        idx = vor.compare(out, d, sites, 1e-4, s["orient"])
        if idx is not None:
            # Sites in the circle, but those of its constraint
            mine = 2 * n if k > 1.0 else n
            grp = np.asarray(pvg.get_cell_group(out)).tolist()
            geo.same(grp, [(s["g"] or "default") if i < mine else "default" for i in idx], "groups of the cells of a circle")
    cen = np.array([geo.polygon_centroid2(q) for q in cells])
    inner = sh().Polygon(ngon(r))
    tol = 3 * inner.length * (1e-4 + 1e-5 * r)
    if plain:
        # Cells are fused from their centres: only circles the constraint of which is out of reach
        far = np.array([np.linalg.norm(np.array(q.centroid.coords[0]) - c) for q in exp])
        vc = np.array([np.linalg.norm(np.mean(q.exterior.coords[:-1], axis=0) - c) for q in exp])
        # VTK's centres of polygons depend on their first point
        low, high = vtk_centers(exp, c)
        if low[2 * n :].min() < 1.05 * r or high[: 2 * n].max() > 0.98 * r:
            rec.label("coarse")
            return
        if min(far[2 * n :].min(), vc[2 * n :].min()) < 1.05 * r or max(far[: 2 * n].max(), vc[: 2 * n].max()) > 0.98 * r:
            rec.label("coarse")
            return
    # Background sites may cut the corners of a coarse circle
    if k > 1.0 and vor.mismatch(exp[: 2 * n], inner) < 0.1 * tol:
        # The cells of the circle fill exactly the inscribed polygon
        a = inner.area
        isin = np.array([inner.contains(sh().Point(x)) for x in cen])
        diff = vor.mismatch([q for q, i in zip(cells, isin) if i], inner)
        require(diff <= tol, f"cells of the circle differ from the inscribed polygon by an area of {diff:g} (area {a:g})")
        geo.same(int(isin.sum()), 1 if plain else 2 * n, "number of cells in the circle")
        if s["g"]:
            grp = pvg.get_cell_group(out)
            for i, g in zip(isin, grp):
                require(g == (s["g"] if i else "default"), f"group of a cell {'inside' if i else 'outside'} the circle: {str(g)!r}")
        geo.same(out.n_cells - int(isin.sum()), len(kept) + n, "number of cells out of the circle")
        rec.label("inscribed")
    rec.label(f"axis:{d.axis}", f"k:{s['k']}", f"plain:{plain}")
    rec.nontrivial(k > 1.0)


# ------------------------------------------------------------------ polylines
@st.composite
def s_line(draw, many=False):
    m = draw(st.integers(8, 20) if many else st.integers(2, 5))
    return {
        "d": big(draw),
        "m": m,
        "straight": draw(st.booleans()),
        "bend": draw(st.lists(st.integers(-4, 4) if many else st.integers(-20, 20), min_size=m, max_size=m)),
        "dir": draw(st.integers(0, 11)),
        "start": draw(st.tuples(gen.num(0.4, 0.6), gen.num(0.4, 0.6)).map(list)),
        "wf": draw(st.sampled_from([0.75, 1.0, 1.5])),
        "pref": draw(st.sampled_from([None, "cell", "point"])),
        "pad": draw(st.sampled_from([None, None, 0.8])),
        "con": draw(st.sampled_from([None, 1, 2, [1, 2], [2, 1], [1, 0], [0, 2], 0, [0, 0]])),
        "n": draw(st.sampled_from([None, 1, 2, 3])),
        "form": draw(st.sampled_from(["poly", "array"])),
        "g": draw(st.sampled_from(["f", "g"])),
        "pr": draw(st.sampled_from([None, 0, 1])),
    }


def c_line(s, rec):
    d = vor.Domain(s["d"])
    lo, hi = d.xy.min(axis=0), d.xy.max(axis=0)
    size = min(hi - lo)
    m = s["m"]
    h = 0.3 * size / (m + 5)
    ang = s["dir"] * np.pi / 6 + 0.05
    p = [np.zeros(2)]
    for b in s["bend"][: m - 1]:
        if not s["straight"]:
            ang += np.deg2rad(b)
        p.append(p[-1] + h * np.array([np.cos(ang), np.sin(ang)]))
    p = np.array(p)
    p += lo + np.array(s["start"]) * (hi - lo) - p.mean(axis=0)
    w = s["wf"] * h
    p3 = geo.place(p, d.axis, 0.75)
    arg = p3 if s["form"] == "array" else pv.PolyData(p3, lines=[m, *range(m)])
    e = pvg.VoronoiMesh2D(d.mesh, axis=d.axis)
    kw = {}
    pref = s["pref"] or "cell"
    if s["pref"]:
        kw["preference"] = s["pref"]
    pad = 0.5 * w
    if s["pad"]:
        kw["padding"] = pad = s["pad"] * h
    if s["con"] is not None:
        kw["constraint"] = tuple(s["con"]) if isinstance(s["con"], list) else s["con"]
    if s["n"] is not None:
        kw["resolution"] = s["n"]
    if s["pr"] is not None:
        kw["priority"] = s["pr"]
    # Room for the constraint points
    if not d.region.buffer(-4.5 * h).contains(sh().LineString(p)):
        rec.label("outside")
        return
    require(e.add_polyline(arg, w, group=s["g"], **kw) is e, "add_polyline is not chainable")
    out = e.generate_mesh()
    pts = np.asarray(out.points, dtype=float)[:, d.lat]
    cells = [pts[geo.ring(t, list(q))] for t, q in geo.ugrid_cells(out)]
    area = np.array([geo.signed_area2(q) for q in cells])
    require((area > 0).all(), "orientation of the cells")
    require(abs(area.sum() - d.region.area) <= 2e-3 * d.region.area, f"total area {area.sum()}, expected {d.region.area}")
    grp = pvg.get_cell_group(out)
    mine = np.array([g == s["g"] for g in grp])
    require(all(g in (s["g"], "default") for g in grp), "group names")
    n = s["n"] or 1
    # Sites of the line
    if pref == "cell":
        u0, u1 = (p[0] - p[1]) / np.linalg.norm(p[0] - p[1]), (p[-1] - p[-2]) / np.linalg.norm(p[-1] - p[-2])
        q = np.vstack([p[0] + pad * u0, 0.5 * (p[:-1] + p[1:]), p[-1] + pad * u1])
    else:
        q = p
    mid = 0.5 * (q[:-1] + q[1:])
    geo.same(int(mine.sum()), n * len(mid), "number of cells of the polyline")
    xyz = np.column_stack([out.cell_data[k] for k in "XYZ"])[:, d.lat]
    if n == 1:
        i = geo.match(geo.place(xyz[mine], 2, 0.0), geo.place(mid, 2, 0.0), "sites of the polyline", tol=5e-6)
        geo.same(sorted(i.tolist()), list(range(len(mid))), "sites of the polyline")
    seg = np.linalg.norm(np.diff(q, axis=0), axis=1)
    con = s["con"] if isinstance(s["con"], list) else [1 if s["con"] is None else s["con"]] * 2
    if s["straight"] and min(con) == 0:
        # Its sides are constrained, not the ends without constraint points
        t = (q[-1] - q[0]) / np.linalg.norm(q[-1] - q[0])
        across = np.abs((np.vstack([c for c, k in zip(cells, mine) if k]) - q[0]) @ np.array([-t[1], t[0]]))
        require(across.max() >= 0.5 * w - 1e-3 * w, "width of the polyline")
    if s["straight"] and min(con) > 0 and seg.max() <= 1.2 * w / n and seg.max() <= w:
        # A straight polyline is a strip of the given width
        t = (q[-1] - q[0]) / np.linalg.norm(q[-1] - q[0])
        nn = np.array([-t[1], t[0]]) * w / 2
        strip = sh().Polygon([q[0] - nn, q[-1] - nn, q[-1] + nn, q[0] + nn])
        diff = vor.mismatch([c for c, k in zip(cells, mine) if k], strip)
        tol = 3 * strip.length * (1e-4 + 1e-5 * size)
        require(diff <= tol, f"cells of the polyline differ from the strip by an area of {diff:g} (area {strip.area:g})")
        rec.label("strip")
    rec.label(f"axis:{d.axis}", pref, f"n:{n}", f"con:{s['con']}")
    rec.nontrivial()


# ------------------------------------------------------------------ rows of polylines
@st.composite
def s_rows(draw):
    m = draw(st.integers(2, 4))
    lines = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        lines.append(
            {
                "len": draw(st.one_of(st.just([1.0] * (m - 1)), st.lists(st.sampled_from([1.0, 1.25, 1.5]), min_size=m - 1, max_size=m - 1))),
                "bend": draw(st.lists(st.integers(-30, 30), min_size=m - 1, max_size=m - 1)),
            }
        )
    return {
        "axis": draw(st.integers(0, 2)),
        "m": m,
        "lines": lines,
        "dir": draw(st.integers(0, 11)),
        "w": draw(st.sampled_from([0.5, 0.75, 1.0])),
        "pref": draw(st.sampled_from(["cell", "point"])),
        "pad": draw(st.sampled_from([None, 0.0, 0.3])),
        "con": draw(st.sampled_from([1, 2, [1, 2], [2, 1], [1, 0], [0, 2], 0])),
        "res": draw(st.sampled_from([None, 1, 2, 3, [0.0, 0.3, 1.0], [0.0, 0.6, 0.8, 1.0], [0.2, 0.5, 0.7]])),
    }


def c_rows(s, rec):
    ax = s["axis"]
    lat = [k for k in range(3) if k != ax]
    mesh = pv.ImageData(dimensions=[1 if k == ax else 9 for k in range(3)], spacing=[1.0 if k == ax else 4.0 for k in range(3)])
    m, w = s["m"], s["w"]
    con = s["con"] if isinstance(s["con"], list) else [s["con"]] * 2
    lines = []
    for i, q in enumerate(s["lines"]):
        ang = s["dir"] * np.pi / 6 + 0.05
        u = np.array([np.cos(ang), np.sin(ang)])
        p = [np.zeros(2)]
        for ln, b in zip(q["len"], q["bend"]):
            ang += np.deg2rad(b)
            p.append(p[-1] + ln * np.array([np.cos(ang), np.sin(ang)]))
        p = np.array(p)
        p += 16.0 - p.mean(axis=0) + (8.0 * i - 4.0 * (len(s["lines"]) - 1)) * np.array([-u[1], u[0]])
        lines.append(p)

    def build(lines, con, flip):
        e = pvg.VoronoiMesh2D(mesh, axis=ax)
        p3 = [geo.place(p, ax, 0.25) for p in lines]
        arg = pv.PolyData(np.vstack(p3), lines=np.ravel([[m, *range(k * m, (k + 1) * m)] for k in range(len(p3))]))
        kw = {} if s["pad"] is None else {"padding": s["pad"]}
        res = s["res"]
        if isinstance(res, list) and flip:
            res = [1.0 - x for x in res[::-1]]
        e.add_polyline(arg, w, preference=s["pref"], constraint=tuple(con), resolution=res, group="f", **kw)
        out = e.generate_mesh()
        xyz = np.column_stack([out.cell_data[k] for k in "XYZ"])[:, lat]
        return xyz, np.array([g == "f" for g in pvg.get_cell_group(out)])

    xyz, mine = build(lines, con, False)
    x2, m2 = build([p[::-1] for p in lines], con[::-1], True)
    geo.same(len(x2), len(xyz), "number of cells with the polyline reversed")
    i = geo.match(geo.place(x2, 2, 0.0), geo.place(xyz, 2, 0.0), "sites with the polyline reversed", tol=5e-6)
    geo.same(sorted(i.tolist()), list(range(len(xyz))), "sites with the polyline reversed")
    geo.array_equal(m2, mine[i], "groups with the polyline reversed")
    res = s["res"]
    perc = np.array(res) if isinstance(res, list) else np.linspace(0.0, 1.0, (res or 1) + 1)
    perc = np.array([2.0 * perc[0] - perc[1], *perc, 2.0 * perc[-1] - perc[-2]])
    row = 0.5 * (perc[:-1] + perc[1:]) - 0.5
    want, inner = [], []
    for q, p in zip(s["lines"], lines):
        if s["pref"] != "point" or len(set(q["len"])) > 1:
            continue
        t = np.diff(p, axis=0)
        p = np.vstack([p[0] - np.arange(con[0], 0, -1)[:, None] * t[0], p, p[-1] + np.arange(1, con[1] + 1)[:, None] * t[-1]])
        t = np.repeat(t, [1 + con[0] * (k == 0) + con[1] * (k == len(t) - 1) for k in range(len(t))], axis=0)
        nrm = np.column_stack([-t[:, 1], t[:, 0]])
        b = np.vstack([nrm[0], 0.5 * (nrm[:-1] + nrm[1:]), nrm[-1]])
        b /= np.linalg.norm(b, axis=1)[:, None]
        mid, across = 0.5 * (p[:-1] + p[1:]), 0.5 * (b[:-1] + b[1:])
        for k in range(len(mid)):
            for j, r in enumerate(row):
                want.append(mid[k] + r * w * across[k])
                inner.append(con[0] <= k < len(mid) - con[1] and 0 < j < len(row) - 1)
    if want:
        want = np.array(want)
        dist = np.linalg.norm(xyz[:, None] - want[None], axis=2)
        near = dist.argmin(axis=0)
        d = dist.min(axis=0)
        require(d.max() <= 5e-6, f"site of the polyline at {want[d.argmax()]} is missing by {d.max():g}")
        geo.array_equal(mine[near], np.array(inner), "groups of the sites of the polyline")
        rec.label("sites")
    rec.label(f"axis:{ax}", s["pref"], f"lines:{len(lines)}", f"con:{s['con']}", f"res:{s['res']}")
    rec.nontrivial(any(any(q["bend"][1:]) for q in s["lines"]))


# ------------------------------------------------------------------ circles and polylines against patches
s_over = st.fixed_dictionaries(
    {
        "axis": st.integers(0, 2),
        "what": st.sampled_from(["circle", "tight", "line"]),
        "n": st.integers(3, 9),
        "pr": st.sampled_from([None, 0, 1, 2, 3]),
        "pp": st.sampled_from([None, 0, 1, 2, 3]),
        "first": st.booleans(),
        "turn": st.integers(0, 5),
        "k": st.integers(3, 6),
    }
)


def c_over(s, rec):
    ax = s["axis"]
    lat = [k for k in range(3) if k != ax]
    mesh = pv.ImageData(dimensions=[1 if k == ax else 9 for k in range(3)], spacing=[1.0 if k == ax else 4.0 for k in range(3)])
    n, k, mid = s["n"], s["k"], np.array([16.03, 15.98])
    kw = {} if s["pr"] is None else {"priority": s["pr"]}
    pk = {} if s["pp"] is None else {"priority": s["pp"]}
    e = pvg.VoronoiMesh2D(mesh, axis=ax)

    def shape():
        if s["what"] == "line":
            t = s["turn"] * np.pi / 6 + 0.1
            u = np.array([np.cos(t), np.sin(t)])
            e.add_polyline(geo.place(mid + np.linspace(-1.5, 1.5, 4)[:, None] * u, ax, 0.0), 1.0, preference="point", group="c", **kw)
        else:
            e.add_circle(2.0, constraint_radius=None if s["what"] == "circle" else 2.0, resolution=n, center=geo.place(mid[None], ax, 0.0)[0], group="c", **kw)

    def cover():
        g = np.array([[i, j] for j in np.linspace(-5.0, 5.0, k + 1) for i in np.linspace(-5.0, 5.0, k + 1)]) + mid + 0.0137
        e.add(geo.make_ugrid(geo.place(g, ax, 0.0), [(int(pv.CellType.QUAD), c) for c in grid_cells([k, k])]), group="p", **pk)

    for f in (shape, cover) if s["first"] else (cover, shape):
        f()
    grp = pvg.get_cell_group(e.generate_mesh())
    got, left = int((grp == "c").sum()), int((grp == "p").sum())
    pr, pp = s["pr"] or 0, s["pp"] or 0
    if pr > pp or (pr == pp and not s["first"]):
        geo.same(got, {"circle": 2 * n, "tight": n, "line": 3}[s["what"]], "cells of the item that comes last")
        require(left < k * k or s["what"] == "line" or k % 2 == 0, "sites of the patch in the item that comes last")
        rec.label("over")
    else:
        geo.same(got, 0, "cells of the item below the patch")
        geo.same(left, k * k, "cells of the patch")
        rec.label("under")
    rec.label(s["what"], f"first:{s['first']}")
    rec.nontrivial(pr != pp)


FACETS = [
    Facet("items", s_items(), c_items, 1200, 12000),
    Facet("circle", s_circle(), c_circle, 400, 6000),
    Facet("polyline", s_line(), c_line, 500, 8000),
    Facet("circle_many", s_circle(True), c_circle, 60, 600),
    Facet("polyline_many", s_line(True), c_line, 80, 800),
    Facet("rows", s_rows(), c_rows, 250, 4000),
    Facet("over", s_over, c_over, 250, 4000),
]
