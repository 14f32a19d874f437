"""C01: subdivision positions of every builder."""
from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet

RULE = (
    "Builders (surface, volume, primitives, stacks, extrusion) are called with generated "
    "resolutions (None, below one, integers with every method, explicit positions in any "
    "order/container); node positions are compared with closed-form references. Non-trivial: "
    "at least one direction has >= 3 nodes that are not equally spaced, or an explicit list."
)


# Arcs and lines are built by pyvista in single precision
TOL32 = 2.0e-6


def uneven(*res):
    return any(
        isinstance(r["r"], list) or (r["m"] in ("log", "log_r") and (r["r"] or 0) > 1)
        for r in res
    )


def tag(rec, *res):
    for r in res:
        k = "list" if isinstance(r["r"], list) else "none" if r["r"] is None else "int"
        rec.label(f"res:{k}", f"method:{r['m']}")
    rec.nontrivial(uneven(*res))


# ------------------------------------------------------------------ surface
@st.composite
def s_surface(draw):
    n = draw(st.integers(2, 4))
    return {
        "a": draw(st.lists(gen.point3(), min_size=n, max_size=n)),
        "b": draw(st.lists(gen.point3(), min_size=n, max_size=n)),
        "res": draw(gen.resolution(repeats=True)),
        "poly": draw(st.booleans()),
        "default_plane": draw(st.booleans()),
    }


def c_surface(s, rec):
    a, b = np.array(s["a"]), np.array(s["b"])
    t = np.array(geo.perc(s["res"]))
    m = pvg.StructuredSurface(a, b, "xy", geo.res_arg(s["res"]), s["res"]["m"])
    exp = a[:, None] + t[None, :, None] * (b - a)[:, None]
    got = geo.structured_index(m)
    geo.close(got, exp[:, :, None], "surface nodes")
    tag(rec, s["res"])


# ------------------------------------------------------------------ volume
@st.composite
def s_volume(draw):
    return {
        "kind": draw(st.sampled_from(["structured", "unstructured"])),
        "s": draw(gen.ssurf(3)),
        "u": draw(gen.usurf(2)),
        "vec": draw(gen.point3()),
        "fac": draw(st.sampled_from([1.0, 0.5, 1.25])),
        "res": draw(gen.resolution(repeats=True)),
    }


def c_volume(s, rec):
    t = geo.perc(s["res"])
    vec = np.array(s["vec"])
    if s["kind"] == "structured":
        ax = s["s"]["axis"]
        pa = geo.ssurf_points(s["s"])
        pb = pa * s["fac"] + vec
        a, b = geo.build_ssurf(s["s"], pa), geo.build_ssurf(s["s"], pb)
        m = pvg.Volume(a, b, geo.res_arg(s["res"]), s["res"]["m"])
        exp = np.stack([pa + x * (pb - pa) for x in t], axis=ax)
        geo.same(tuple(m.dimensions), exp.shape[:3], "volume dimensions")
        geo.close(geo.structured_index(m), exp, "volume nodes")
    else:
        pa, cells = geo.usurf_arrays(s["u"])
        pb = pa * s["fac"] + vec
        a, b = geo.make_ugrid(pa, cells), geo.make_ugrid(pb, cells)
        m = pvg.Volume(a, b, geo.res_arg(s["res"]), s["res"]["m"])
        exp = np.vstack([pa + x * (pb - pa) for x in t])
        geo.close(np.asarray(m.points), exp, "volume nodes")
        geo.same(m.n_cells, len(cells) * (len(t) - 1), "volume cells")
    rec.label(s["kind"])
    tag(rec, s["res"])


# ------------------------------------------------------------------ rectangles
@st.composite
def s_rect(draw):
    return {
        "fn": draw(st.sampled_from(["Rectangle", "Square", "Quadrilateral"])),
        "dx": draw(gen.pos()),
        "dy": draw(gen.pos()),
        "x": draw(gen.resolution(repeats=True)),
        "y": draw(gen.resolution(repeats=True)),
        "c": draw(st.one_of(st.none(), gen.point3(), st.tuples(gen.num(-5, 5), gen.num(-5, 5)).map(list))),
        "q": draw(st.lists(st.tuples(gen.num(0, 3), gen.num(0, 3)).map(list), min_size=4, max_size=4)),
    }


def c_rect(s, rec):
    x, y = s["x"], s["y"]
    c = np.zeros(3) if s["c"] is None else np.array((s["c"] + [0.0])[:3])
    if s["fn"] == "Rectangle":
        m = pvg.Rectangle(s["dx"], s["dy"], geo.res_arg(x), geo.res_arg(y), x["m"], y["m"], s["c"])
        q = np.array([[0, 0], [s["dx"], 0], [s["dx"], s["dy"]], [0, s["dy"]]], dtype=float)
    elif s["fn"] == "Square":
        y = x
        m = pvg.Square(s["dx"], geo.res_arg(x), x["m"], s["c"])
        q = np.array([[0, 0], [s["dx"], 0], [s["dx"], s["dx"]], [0, s["dx"]]], dtype=float)
    else:
        q = np.array(s["q"]) + 4.0 * np.array([[0, 0], [1, 0], [1, 1], [0, 1]])
        m = pvg.Quadrilateral(q, geo.res_arg(x), geo.res_arg(y), x["m"], y["m"], s["c"])
    tx, ty = np.array(geo.perc(x)), np.array(geo.perc(y))
    lo = q[0] + tx[:, None] * (q[1] - q[0])
    hi = q[3] + tx[:, None] * (q[2] - q[3])
    exp = lo[:, None] + ty[None, :, None] * (hi - lo)[:, None]
    exp = np.concatenate([exp, np.zeros((*exp.shape[:2], 1))], axis=2) + c
    geo.close(geo.structured_index(m), exp[:, :, None], f"{s['fn']} nodes", tol=TOL32)
    rec.label(s["fn"])
    tag(rec, x, y)


# ------------------------------------------------------------------ rings
@st.composite
def s_ring(draw):
    return {
        "fn": draw(
            st.sampled_from(
                ["AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector"]
            )
        ),
        "ri": draw(st.one_of(st.just(0.0), gen.pos(4.0))),
        "dr": draw(gen.pos(4.0)),
        "t0": draw(gen.num(-180, 180)),
        "dt": draw(gen.num(10, 360)),
        "h": draw(gen.pos()),
        "r": draw(gen.resolution(4, repeats=True)),
        "t": draw(gen.resolution(4, repeats=True)),
        "z": draw(gen.resolution(3, repeats=True)),
        "c": draw(st.one_of(st.none(), gen.point3())),
    }


def c_ring(s, rec):
    r, t, z, c = s["r"], s["t"], s["z"], s["c"]
    ri, ro = s["ri"], s["ri"] + s["dr"]
    full = s["fn"] in ("Annulus", "CylindricalShell")
    t0, t1 = (0.0, 360.0) if full else (s["t0"], s["t0"] + s["dt"])
    kw = dict(
        inner_radius=ri, outer_radius=ro, r_resolution=geo.res_arg(r), r_method=r["m"],
        theta_resolution=geo.res_arg(t), theta_method=t["m"], center=c,
    )
    if not full:
        kw.update(theta_min=t0, theta_max=t1)
    cyl = s["fn"].startswith("Cyl")
    if cyl:
        kw.update(height=s["h"], z_resolution=geo.res_arg(z), z_method=z["m"])
    m = getattr(pvg, s["fn"])(**kw)
    th = np.deg2rad(t0 + np.array(geo.perc(t)) * (t1 - t0))
    rr = ri + np.array(geo.perc(r)) * (ro - ri)
    zz = s["h"] * (np.array(geo.perc(z)) - 0.5) if cyl else np.zeros(1)
    T, R, Z = np.meshgrid(th, rr, zz, indexing="ij")
    exp = np.stack([R * np.cos(T), R * np.sin(T), Z], axis=-1)
    exp = exp + (np.zeros(3) if c is None else np.array(c))
    geo.close(geo.structured_index(m), exp, f"{s['fn']} nodes", tol=TOL32)
    rec.label(s["fn"])
    tag(rec, r, t, *([z] if cyl else []))


# ------------------------------------------------------------------ corner meshes
@st.composite
def s_corner(draw):
    return {
        "fn": draw(st.sampled_from(["SectorRectangle", "SectorSquare", "RectangleSector", "SquareSector"])),
        "dx": draw(gen.pos(4.0, 0.5)),
        "dy": draw(gen.pos(4.0, 0.5)),
        "f": draw(st.integers(1, 15)),
        "r": draw(gen.resolution(3, repeats=True)),
        "t": draw(gen.resolution(3, repeats=True)),
        "u": draw(gen.resolution(3, repeats=True)),
        "c": draw(st.one_of(st.none(), gen.point3())),
    }


def c_corner(s, rec):
    dx, dy = s["dx"], s["dx"] if "Square" in s["fn"] else s["dy"]
    r, t, u = s["r"], s["t"], s["u"]
    kw = dict(r_resolution=geo.res_arg(r), r_method=r["m"], center=s["c"])
    tr = np.array(geo.perc(r))
    corner, px, py = np.array([dx, dy]), np.array([0.0, dy]), np.array([dx, 0.0])
    if s["fn"].startswith("Sector"):
        rad = min(dx, dy) * s["f"] / 16.0
        kw.update(radius=rad, dx=dx, theta_resolution=geo.res_arg(t), theta_method=t["m"])
        tx = ty = np.array(geo.perc(t))
        if s["fn"] == "SectorRectangle":
            kw["dy"] = dy
        inner_is_arc = True
        used = (r, t)
    else:
        rad = (dx**2 + dy**2) ** 0.5 * (1.0 + s["f"] / 16.0)
        kw.update(radius=rad, dx=dx, x_resolution=geo.res_arg(t), x_method=t["m"])
        tx = np.array(geo.perc(t))
        ty = tx
        used = (r, t)
        if s["fn"] == "RectangleSector":
            kw.update(dy=dy, y_resolution=geo.res_arg(u), y_method=u["m"])
            ty = np.array(geo.perc(u))
            used = (r, t, u)
        inner_is_arc = False
    m = getattr(pvg, s["fn"])(**kw)
    quads, pts = [], []
    for tt, end, ang in ((ty, py, 0.0), (tx, px, 90.0)):
        line = corner + tt[:, None] * (end - corner)
        a = np.deg2rad(45.0 + tt * (ang - 45.0))
        arc = rad * np.column_stack([np.cos(a), np.sin(a)])
        p, q = (arc, line) if inner_is_arc else (line, arc)
        grid = p[:, None] + tr[None, :, None] * (q - p)[:, None]
        pts.append(grid)
        for i in range(len(tt) - 1):
            for j in range(len(tr) - 1):
                quads.append([grid[i, j], grid[i + 1, j], grid[i + 1, j + 1], grid[i, j + 1]])
    c = np.zeros(3) if s["c"] is None else np.array(s["c"])
    allpts = np.vstack([g.reshape(-1, 2) for g in pts])
    allpts = np.column_stack([allpts, np.zeros(len(allpts))]) + c
    quads = [np.column_stack([np.array(q), np.zeros(4)]) + c for q in quads]
    geo.same(m.n_cells, len(quads), f"{s['fn']} number of cells")
    # Both halves share the diagonal: compare unordered cells through expected point IDs
    _, inv = np.unique(np.round(allpts, 9), axis=0, return_inverse=True)
    inv = np.ravel(inv)
    idx = geo.match(m.points, allpts, f"{s['fn']} nodes", tol=TOL32)
    got = sorted(
        tuple(sorted(int(inv[idx[i]]) for i in cell)) for _, cell in geo.ugrid_cells(m)
    )
    exp = sorted(
        tuple(sorted(int(inv[k]) for k in geo.match(q, allpts, "model"))) for q in quads
    )
    geo.same(got, exp, f"{s['fn']} cells")
    rec.label(s["fn"])
    tag(rec, *used)


# ------------------------------------------------------------------ Sector / Circle
@st.composite
def s_sector(draw):
    return {
        "fn": draw(st.sampled_from(["Sector", "Circle"])),
        "rad": draw(gen.pos()),
        "t0": draw(gen.num(-180, 180)),
        "dt": draw(gen.num(10, 350)),
        "t": draw(gen.resolution(5)),
        "c": draw(st.one_of(st.none(), gen.point3())),
    }


def c_sector(s, rec):
    t, c = s["t"], s["c"]
    c3 = np.zeros(3) if c is None else np.array(c)
    t0, t1 = (s["t0"], s["t0"] + s["dt"]) if s["fn"] == "Sector" else (0.0, 360.0)
    p = geo.perc(t)
    if s["fn"] == "Circle" and len(p) < 4:
        t = {**t, "r": 3}
        p = geo.perc(t)
    if s["fn"] == "Sector":
        m = pvg.Sector(s["rad"], t0, t1, geo.res_arg(t), t["m"], c)
    else:
        m = pvg.Circle(s["rad"], geo.res_arg(t), t["m"], c)
    th = np.deg2rad(t0 + np.array(p) * (t1 - t0))
    rim = np.column_stack([s["rad"] * np.cos(th), s["rad"] * np.sin(th), 0 * th]) + c3
    tris = [np.array([c3, a, b]) for a, b in zip(rim, rim[1:])]
    geo.same(m.n_cells, len(tris), f"{s['fn']} cells")
    got = [np.asarray(m.points)[cell] for _, cell in geo.ugrid_cells(m)]
    cg = np.array([g.mean(axis=0) for g in got])
    ce = np.array([g.mean(axis=0) for g in tris])
    idx = geo.match(cg, ce, f"{s['fn']} triangles", tol=2e-6)
    geo.same(sorted(idx.tolist()), list(range(len(tris))), f"{s['fn']} triangles")
    for g, i in zip(got, idx):
        j = geo.match(g, tris[i], f"{s['fn']} triangle vertices", tol=2e-6)
        geo.same(sorted(j.tolist()), [0, 1, 2], f"{s['fn']} triangle vertices")
    rec.label(s["fn"])
    tag(rec, t)


# ------------------------------------------------------------------ stacks, extrusion
@st.composite
def s_layers(draw):
    n = draw(st.integers(1, 3))
    return {
        "fn": draw(st.sampled_from(["stack2", "stack3s", "stack3u", "extrude_s", "extrude_u"])),
        "xs": draw(gen.increasing(2, 4)),
        "s": draw(gen.ssurf(2, wobble=False)),
        "u": draw(gen.usurf(2, axis=2)),
        "bottom_up": draw(st.booleans()),
        "h": draw(st.lists(gen.pos(4.0, 0.25), min_size=n, max_size=n)),
        "res": draw(st.lists(gen.resolution(4, ends=True), min_size=n, max_size=n)),
    }


def c_layers(s, rec):
    sgn = 1.0 if s["bottom_up"] or s["fn"].startswith("extrude") else -1.0
    z, levels = 0.0, [0.0]
    for h, r in zip(s["h"], s["res"]):
        levels += [z + sgn * p * h for p in geo.perc(r)[1:]]
        z += sgn * h
    if s["fn"] == "stack2":
        b = pvg.MeshStack2D(np.array(s["xs"]), axis=1, bottom_up=s["bottom_up"])
        axis = 1
        b.add(0.0)
    elif s["fn"] == "stack3s":
        axis = s["s"]["axis"]
        b = pvg.MeshStack3D(geo.build_ssurf(s["s"]), axis=axis, bottom_up=s["bottom_up"])
        b.add(0.0)
    elif s["fn"] == "stack3u":
        axis = 2
        b = pvg.MeshStack3D(geo.build_usurf(s["u"]), bottom_up=s["bottom_up"])
        b.add(0.0)
    else:
        spec = {**(s["s"] if s["fn"] == "extrude_s" else s["u"]), "w": 0.0}
        axis = spec["axis"]
        b = pvg.MeshExtrude(
            geo.build_ssurf(spec) if s["fn"] == "extrude_s" else geo.build_usurf(spec)
        )
    for h, r in zip(s["h"], s["res"]):
        if s["fn"].startswith("extrude"):
            b.add(np.eye(3)[axis] * h, geo.res_arg(r), r["m"])
        else:
            b.add(h, geo.res_arg(r), r["m"])
    m = b.generate_mesh()
    # stack2D with axis=1 lays its line along (axis + 1) % 3
    w = np.asarray(m.points)[:, axis]
    if isinstance(m, pv.StructuredGrid):
        got = np.moveaxis(geo.structured_index(m)[..., axis], axis, -1)
        geo.same(got.shape[-1], len(levels), f"{s['fn']} number of levels")
        geo.close(got, np.broadcast_to(levels, got.shape), f"{s['fn']} levels", tol=TOL32)
    else:
        base = s["u"]
        n = len(base["xs"]) * len(base["ys"])
        geo.same(len(w), n * len(levels), f"{s['fn']} number of nodes")
        exp = np.sort(np.repeat(levels, n))
        geo.close(np.sort(w), exp, f"{s['fn']} levels")
    rec.label(s["fn"], f"up:{s['bottom_up']}")
    tag(rec, *s["res"])


# ------------------------------------------------------------------ large numbers of subdivisions
FINE = {
    "surface": (s_surface(), c_surface),
    "volume": (s_volume(), c_volume),
    "rectangle": (s_rect(), c_rect),
    "ring": (s_ring(), c_ring),
    "corner": (s_corner(), c_corner),
    "sector": (s_sector(), c_sector),
    "layers": (s_layers(), c_layers),
}

FACETS = [
    Facet("surface", s_surface(), c_surface, 900, 12000),
    Facet("volume", s_volume(), c_volume, 700, 10000),
    Facet("rectangle", s_rect(), c_rect, 800, 10000),
    Facet("ring", s_ring(), c_ring, 700, 10000),
    Facet("corner", s_corner(), c_corner, 600, 8000),
    Facet("sector", s_sector(), c_sector, 500, 8000),
    Facet("layers", s_layers(), c_layers, 600, 8000),
    Facet("fine", gen.either(FINE, gen.fine), gen.check_either(FINE), 150, 1500),
]
