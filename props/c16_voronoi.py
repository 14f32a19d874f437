"""C16: Voronoi meshes partition their domain into nearest-site cells."""
from hypothesis import strategies as st

from harness import gen, geo, vor
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Background meshes (rectangles, parallelograms, notched and holed domains; quads, triangles, polygons; any axis) with "
    "cell centres or points as sites plus generated extra points; every generated cell against an independent half-plane "
    "clipping of the domain. Non-trivial: >= 5 sites and at least one unaligned with the grid (jitter, shear or extra point)."
)


@st.composite
def s_vor(draw, large=False):
    return {
        "d": draw(vor.large_domain() if large else vor.domain()),
        "pref": draw(st.sampled_from(["cell", "cell", "point", None])),
        "extra": draw(st.lists(st.tuples(gen.dyadic(0.02, 0.98, 64), gen.dyadic(0.02, 0.98, 64)).map(list), max_size=6)),
        "form": draw(st.sampled_from(["array3", "array2", "poly", "one"])),
        "w": draw(gen.offset),
        "orient": draw(st.sampled_from([None, "CCW", "CW"])),
        "min_length": draw(st.sampled_from([None, 0.0, 1e-3])),
        "infinity": draw(st.sampled_from([None, None, 1000.0])),
    }


def c_vor(s, rec):
    d = vor.Domain(s["d"])
    pref = s["pref"] or "cell"
    kw = {} if s["pref"] is None else {"preference": pref}
    before = geo.snapshot(d.mesh)
    e = pvg.VoronoiMesh2D(d.mesh, axis=d.axis, **kw)
    sites = d.centers() if pref == "cell" else d.xy_points
    sh = vor.shapely()
    lo, hi = d.xy.min(axis=0), d.xy.max(axis=0)
    extra = []
    for q in s["extra"]:
        p = lo + np.array(q) * (hi - lo)
        pt = sh.Point(p)
        far = min(np.linalg.norm(np.vstack([sites, *extra]) - p, axis=1))
        # Inside the domain, away from its outline and from other sites
        if d.region.contains(pt) and d.region.boundary.distance(pt) > 0.02 and far > 0.05:
            extra.append(p)
    if extra:
        p3 = geo.place(extra, d.axis, s["w"])
        if s["form"] == "array3":
            e.add(p3)
        elif s["form"] == "array2":
            e.add(np.array(extra))
        elif s["form"] == "poly":
            e.add(pv.PolyData(p3))
        else:
            for p in p3:
                e.add(p.tolist())
        sites = np.vstack([sites, extra])
    ok = len(sites) > 3 and np.linalg.matrix_rank(sites - sites[0], tol=1e-3) == 2
    if not ok:
        rec.label("degenerate")
        return
    args = {}
    if s["orient"]:
        args["orientation"] = s["orient"]
    ml = 1.0e-4
    if s["min_length"] is not None:
        args["min_length"] = ml = s["min_length"]
    if s["infinity"]:
        args["infinity"] = s["infinity"] * d.size
    out = e.generate_mesh(**args)
    require(isinstance(out, pv.UnstructuredGrid), "type of the mesh")
    idx = vor.compare(out, d, sites, ml, s["orient"] or "CCW")
    geo.unchanged(before, geo.snapshot(d.mesh), "background mesh")
    if idx is None:
        rec.label("split cell")
        return
    # Neighbouring cells share their nodes
    pts = np.asarray(out.points, dtype=float)
    require(vor.separation(pts) > 1e-8 * d.size, "duplicate nodes")
    grp = pvg.get_cell_group(out)
    require(all(g == "default" for g in grp), "default group")
    rec.label(s["d"]["shape"], s["d"]["kind"], pref, f"axis:{d.axis}", f"ml:{s['min_length']}", f"or:{s['orient']}", f"bulge:{s['d'].get('bulge', 0)}")
    rec.nontrivial(len(sites) > 4 and (bool(extra) or s["d"]["shear"] != 0.0 or any(s["d"]["jit"])))


# ------------------------------------------------------------------ short edges
@st.composite
def s_short(draw):
    d = draw(vor.domain(kinds=(0,)))
    d.update(shape="full", shear=0.0, bulge=0, js=draw(st.sampled_from([1e-4, 1e-3, 1e-2])))
    n = draw(st.integers(0, 2))
    return {
        "d": d,
        "ml": draw(st.sampled_from([None, 0.0, 1e-5, 1e-3, 1e-2])),
        # Crosses of five sites, the middle one having a cell of the size of the arms
        "cross": draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from([0.4, 0.7, 2.0, 4.0]), gen.num(0.0, 1.5)).map(list), min_size=n, max_size=n)),
        "groups": draw(st.booleans()),
        # A cell replacing one of the background mesh
        "patch": draw(st.sampled_from([None, 0, 3])),
        "orient": draw(st.sampled_from(["CCW", "CW"])),
    }


def c_short(s, rec):
    d = vor.Domain(s["d"])
    ml = 1e-4 if s["ml"] is None else s["ml"]
    e = pvg.VoronoiMesh2D(d.mesh, axis=d.axis)
    base = d.centers()
    sites, names, gone, small = list(base), ["default"] * len(base), [], []
    if s.get("patch") is not None:
        k = s["patch"] % len(sites)
        xy = sites.pop(k) + 0.01 + np.array([[-0.05, -0.05], [0.05, -0.05], [0.05, 0.05], [-0.05, 0.05]])
        e.add(geo.make_ugrid(geo.place(xy, d.axis, 0.0), [(int(geo.CT.QUAD), [0, 1, 2, 3])]), group="patch")
        sites.append(xy.mean(axis=0))
        names = names[1:] + ["patch"]
    for k, f, a in s["cross"]:
        # Around the corner of a cell inside the domain
        nx, ny = len(s["d"]["xs"]) - 1, len(s["d"]["ys"]) - 1
        i, j = 1 + k % (nx - 1), 1 + (k // (nx - 1)) % (ny - 1)
        c = np.array([s["d"]["xs"][i], s["d"]["ys"][j]]) + 0.0123
        arm = f * (ml or 1e-3)
        if any(np.linalg.norm(c - q) < 0.1 for q in sites):
            continue
        r = arm * np.array([[np.cos(a + q * np.pi / 2), np.sin(a + q * np.pi / 2)] for q in range(4)])
        new = np.vstack([c, c + r])
        if f < 1.0 and ml > 0.0:
            gone.append(len(sites))
        else:
            small.append(arm)
        g = {"group": f"g{len(names)}"} if s["groups"] else {}
        e.add(geo.place(new[:3], d.axis, 0.0), **g)
        e.add(geo.place(new[3:], d.axis, 0.0), group="rest")
        names += [g.get("group", "default")] * 3 + ["rest"] * 2
        sites += list(new)
    sites = np.array(sites)
    args = {} if s["ml"] is None else {"min_length": ml}
    out = e.generate_mesh(orientation=s["orient"], **args)
    idx = vor.compare(out, d, sites, 2.0 * ml, s["orient"], gone=gone)
    if idx is None:
        rec.label("split cell")
        return
    geo.same(np.asarray(pvg.get_cell_group(out)).tolist(), [names[i] for i in idx], "groups of the cells")
    p2 = np.asarray(out.points, dtype=float)[:, d.lat]
    short = np.inf
    line, sh = d.region.boundary, vor.shapely()
    inner = np.array([line.distance(sh.Point(q)) > 1e-6 * d.size for q in p2])
    for t, c in geo.ugrid_cells(out):
        ring = geo.ring(t, list(c))
        for a, b in zip(ring, ring[1:] + ring[:1]):
            if inner[a] and inner[b]:
                short = min(short, np.linalg.norm(p2[a] - p2[b]))
    require(short >= ml * (1 - 1e-3), f"shortest edge: {short:g}, min_length {ml:g}")
    rec.label(f"ml:{s['ml']}", f"gone:{len(gone)}", f"small:{len(small)}", "shorter than 1e-2" if short < 1e-2 else "long")
    rec.nontrivial(bool(gone) or ml > 0)


FACETS = [
    Facet("partition", s_vor(), c_vor, 900, 12000),
    Facet("short", s_short(), c_short, 300, 4000),
    Facet("large", s_vor(True), c_vor, 40, 500),
]
