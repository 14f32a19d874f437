"""C05: primitives tile exactly their region, wherever they are centred."""
import math

from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Every primitive is built with generated sizes, resolutions, centres (none, 2D, 3D) and omitted "
    "(default) arguments; the sum of its cell areas/volumes, the common orientation of its cells, its "
    "bounds and the absence of duplicate nodes are compared with closed forms. Invalid sizes and centres "
    "must be rejected. Non-trivial: at least two cells, or an invalid call."
)
TOL = 2.0e-6


def ring_area(pts):
    return geo.signed_area2(np.asarray(pts, dtype=float)[:, :2])


def areas(m):
    pts = np.asarray(m.points, dtype=float)
    o = pts.mean(axis=0)
    pts = pts - o
    if isinstance(m, pv.StructuredGrid):
        out = []
        for ids in B.vertex_ids(m):  # (i, j), (i, j + 1), (i + 1, j), (i + 1, j + 1)
            out.append(ring_area(pts[[ids[0], ids[2], ids[3], ids[1]]]))
        return np.array(out)
    return np.array([ring_area(pts[geo.ring(t, c)]) for t, c in geo.ugrid_cells(m)])


def volumes(m):
    pts = np.asarray(m.points, dtype=float)
    out = []
    for v in B.vertex_ids(m):
        # [i, j, k] block in C order -> hexahedron
        c = [v[0], v[4], v[6], v[2], v[1], v[5], v[7], v[3]]
        out.append(geo.faces_volume(geo.cell_faces(int(geo.CT.HEXAHEDRON), c), pts))
    return np.array(out)


def polygon_arc(rad, angles):
    d = np.diff(np.deg2rad(angles))
    return 0.5 * rad**2 * float(np.sin(d).sum())


@st.composite
def s_prim(draw):
    fn = draw(
        st.sampled_from(
            [
                "AnnularSector", "Annulus", "Sector", "Circle", "CylindricalShell", "CylindricalShellSector",
                "Rectangle", "Square", "Quadrilateral", "SectorRectangle", "SectorSquare",
                "RectangleSector", "SquareSector",
            ]
        )
    )
    center = st.one_of(st.none(), gen.point3(-50, 50), st.tuples(gen.num(-50, 50), gen.num(-50, 50)).map(list))
    return {
        "fn": fn,
        "a": draw(gen.pos(4)),
        "b": draw(gen.pos(4)),
        "f": draw(st.integers(1, 15)),
        "h": draw(gen.pos(5)),
        "t0": draw(gen.num(-180, 180)),
        "dt": draw(gen.num(10, 170)),
        "r": draw(gen.resolution(4, ends=True)),
        "t": draw(gen.resolution(4, ends=True)),
        "z": draw(gen.resolution(3, ends=True)),
        "n": draw(st.integers(3, 8)),
        "jit": draw(st.lists(gen.dyadic(-0.25, 0.25), min_size=8, max_size=8)),
        "c": draw(center),
        "cas": draw(st.sampled_from(["list", "tuple", "array"])),
        "omit": draw(st.lists(st.sampled_from(["size", "theta", "res", "c"]), max_size=3, unique=True)),
    }


def c_prim(s, rec):
    fn, omit = s["fn"], s["omit"]
    kw, n_th, exp_dim = {}, None, 2
    full = fn in ("Annulus", "Circle", "CylindricalShell")
    center = None if "c" in omit else s["c"]
    if center is not None and len(center) == 2 and fn.startswith("Cyl"):
        center = [*center, 0.5]
    if center is not None:
        kw["center"] = {"list": list, "tuple": tuple, "array": np.array}[s["cas"]](center)
    c3 = np.zeros(3) if center is None else np.array([*center, 0.0][:3])
    res = {} if "res" in omit and not full else s
    one = {"r": None, "m": None, "as": "list"}
    r, t, z = res.get("r", one), res.get("t", one), res.get("z", one)
    n_arcs = 2
    if full:
        t = {"r": s["n"], "m": None, "as": "list"}
        t0, t1 = 0.0, 360.0
    elif "theta" in omit:
        t0, t1 = 0.0, 90.0
    else:
        t0, t1 = s["t0"], s["t0"] + s["dt"]
        if fn in ("AnnularSector", "Sector", "CylindricalShellSector"):
            kw.update(theta_min=t0, theta_max=t1)
    ang = t0 + np.array(geo.perc(t)) * (t1 - t0)
    size = "size" not in omit
    lo = hi = None

    if fn in ("AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector"):
        ri, ro = (s["a"] * (s["f"] - 1) / 14, s["a"]) if size and s["f"] < 15 else (0.5, 1.0)
        if size and s["f"] < 15:
            kw.update(inner_radius=ri, outer_radius=ro)
        kw.update(r_resolution=geo.res_arg(r), r_method=r["m"], theta_resolution=geo.res_arg(t), theta_method=t["m"])
        area = polygon_arc(ro, ang) - polygon_arc(ri, ang)
        ncell = (len(ang) - 1) * (len(geo.perc(r)) - 1)
        if fn.startswith("Cyl"):
            h = s["h"] if size else 1.0
            if size:
                kw["height"] = h
            kw.update(z_resolution=geo.res_arg(z), z_method=z["m"])
            ncell *= len(geo.perc(z)) - 1
            area *= h
            exp_dim = 3
            lo, hi = c3[2] - h / 2, c3[2] + h / 2
    elif fn in ("Sector", "Circle"):
        rad = s["a"] if size else 1.0
        if size:
            kw["radius"] = rad
        kw.update(resolution=geo.res_arg(t), method=t["m"])
        area = polygon_arc(rad, ang)
        ncell = len(ang) - 1
    elif fn in ("Rectangle", "Square"):
        dx, dy = (s["a"], s["b"] if fn == "Rectangle" else s["a"]) if size else (1.0, 1.0)
        if size:
            kw["dx"] = dx
            if fn == "Rectangle":
                kw["dy"] = dy
        if fn == "Rectangle":
            kw.update(x_resolution=geo.res_arg(r), x_method=r["m"], y_resolution=geo.res_arg(t), y_method=t["m"])
            ncell = (len(geo.perc(r)) - 1) * (len(geo.perc(t)) - 1)
        else:
            kw.update(resolution=geo.res_arg(r), method=r["m"])
            ncell = (len(geo.perc(r)) - 1) ** 2
        area = dx * dy
    elif fn == "Quadrilateral":
        p = np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]])
        if size:
            p = p * [s["a"], s["b"]] + np.array(s["jit"]).reshape(4, 2) * min(s["a"], s["b"])
            kw["points"] = p
        kw.update(x_resolution=geo.res_arg(r), x_method=r["m"], y_resolution=geo.res_arg(t), y_method=t["m"])
        ncell = (len(geo.perc(r)) - 1) * (len(geo.perc(t)) - 1)
        area = ring_area(np.column_stack([p, np.zeros(4)]))
    else:
        dx = s["a"]
        dy = dx * (0.75 + 0.5 * (s["b"] / 4.0)) if fn in ("SectorRectangle", "RectangleSector") else dx
        if fn.startswith("Sector"):
            rad = min(dx, dy) * s["f"] / 16
            if not size:
                dx = dy = 1.0
                rad = 0.5
            else:
                kw.update(radius=rad, dx=dx)
                if fn == "SectorRectangle":
                    kw["dy"] = dy
            kw.update(r_resolution=geo.res_arg(r), r_method=r["m"], theta_resolution=geo.res_arg(t), theta_method=t["m"])
            q = 45.0 * np.array(geo.perc(t))
            area = dx * dy - 2 * polygon_arc(rad, q)
            nc = 2 * (len(q) - 1)
        else:
            rad = math.hypot(dx, dy) * (1 + s["f"] / 16)
            if not size:
                dx = dy = 0.5
                rad = 1.0
            else:
                kw.update(radius=rad, dx=dx)
                if fn == "RectangleSector":
                    kw["dy"] = dy
            kw.update(r_resolution=geo.res_arg(r), r_method=r["m"], x_resolution=geo.res_arg(t), x_method=t["m"])
            q1 = q2 = 45.0 * np.array(geo.perc(t))
            if fn == "RectangleSector":
                kw.update(y_resolution=geo.res_arg(z), y_method=z["m"])
                q2 = 45.0 * np.array(geo.perc(z))
            area = polygon_arc(rad, q1) + polygon_arc(rad, q2) - dx * dy
            nc = len(q1) + len(q2) - 2
        ncell = nc * (len(geo.perc(r)) - 1)
    if "res" in omit and not full:
        kw = {k: v for k, v in kw.items() if not k.endswith(("resolution", "method"))}
    m = getattr(pvg, fn)(**kw)
    geo.same(m.n_cells, ncell, f"{fn}: number of cells")
    a = areas(m) if exp_dim == 2 else volumes(m)
    big = abs(area)
    if fn not in ("SectorRectangle", "SectorSquare", "RectangleSector", "SquareSector"):
        require((a > -TOL * big).all() or (a < TOL * big).all(), f"{fn}: cells with opposite orientations overlap")
    tol = TOL * max(1.0, float(np.abs(np.asarray(m.points)).max())) ** 2
    require(abs(np.abs(a).sum() - area) <= tol * max(1.0, area), f"{fn}: measure {np.abs(a).sum()!r}, expected {area!r}")
    pts = np.asarray(m.points, dtype=float)
    if exp_dim == 2:
        require(np.abs(pts[:, 2] - c3[2]).max() <= tol, f"{fn}: not in the plane z={c3[2]}")
    else:
        require(abs(pts[:, 2].min() - lo) <= tol and abs(pts[:, 2].max() - hi) <= tol, f"{fn}: not centred along Z")
    if fn in ("Rectangle", "Square"):
        geo.close(pts.min(axis=0)[:2], c3[:2], f"{fn}: lower corner", tol=1e-6)
        geo.close(pts.max(axis=0)[:2], c3[:2] + [dx, dy], f"{fn}: upper corner", tol=1e-6)
    if fn in ("AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector"):
        rr = np.linalg.norm(pts[:, :2] - c3[:2], axis=1)
        require(abs(rr.max() - ro) <= tol and abs(rr.min() - ri) <= tol, f"{fn}: radii about the centre")
    if fn in ("Sector", "Circle"):
        rr = np.linalg.norm(pts[:, :2] - c3[:2], axis=1)
        require(abs(rr.max() - rad) <= tol and rr.min() <= tol, f"{fn}: radius about the centre")
    if isinstance(m, pv.UnstructuredGrid) and fn not in ("Circle",):
        step = 1e-4
        uni = len(np.unique(np.round((pts - pts.min(axis=0)) / step).astype(int), axis=0))
        if uni < len(pts):
            d = np.linalg.norm(pts[:, None] - pts[None], axis=2) + np.eye(len(pts))
            require(d.min() > 1e-9, f"{fn}: duplicate nodes")
    if "vtkGhostType" in m.cell_data:
        require(not np.any(m.cell_data["vtkGhostType"]), f"{fn}: hidden cells")
    require(isinstance(m, pv.UnstructuredGrid) == (fn in ("Sector", "Circle") or "Sector" in fn and fn.startswith(("SectorR", "SectorS", "RectangleS", "SquareS"))), f"{fn}: type {type(m).__name__}")
    rec.label(fn, *(f"omit:{o}" for o in omit), f"center:{None if center is None else len(center)}")
    rec.nontrivial(m.n_cells > 1)


# ------------------------------------------------------------------ rejection
@st.composite
def s_bad(draw):
    return {
        "fn": draw(st.sampled_from(["AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector", "Sector", "Circle", "SectorRectangle", "SectorSquare", "RectangleSector", "SquareSector", "center"])),
        "a": draw(gen.pos(4)),
        "b": draw(gen.pos(4)),
        "f": draw(gen.num(0, 2)),
        "kind": draw(st.integers(0, 2)),
        "n": draw(st.sampled_from([1, 4, 6])),
    }


def c_bad(s, rec):
    a, b, f, fn, k = s["a"], s["b"], s["f"], s["fn"], s["kind"]
    if fn == "center":
        fns = ["AnnularSector", "Annulus", "Sector", "Circle", "SectorRectangle", "SectorSquare", "RectangleSector", "SquareSector", "Rectangle", "Square", "Quadrilateral"]
        name = fns[int(a * 16) % len(fns)]
        geo.raises(ValueError, lambda: getattr(pvg, name)(center=[1.0] * s["n"]), f"{name} with an invalid centre")
        rec.label("center:" + name)
        rec.nontrivial()
        return
    if fn in ("AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector"):
        kw = [dict(inner_radius=-a, outer_radius=b), dict(inner_radius=a + f, outer_radius=a), dict(inner_radius=a, outer_radius=-b)][k]
    elif fn in ("Sector", "Circle"):
        kw = dict(radius=[-a, 0.0, -b][k])
    elif fn == "SectorRectangle":
        kw = [dict(radius=min(a, b) + f, dx=a, dy=b), dict(radius=0.0, dx=a, dy=b), dict(radius=-a, dx=a, dy=b)][k]
    elif fn == "SectorSquare":
        kw = [dict(radius=a + f, dx=a), dict(radius=0.0, dx=a), dict(radius=-a, dx=a)][k]
    elif fn == "RectangleSector":
        d = math.hypot(a, b)
        kw = [dict(dx=a, dy=b, radius=max(a, b) + (d - max(a, b)) * min(f, 1.9) / 2), dict(dx=a, dy=b, radius=0.0), dict(dx=a, dy=b, radius=-a)][k]
    else:
        kw = [dict(dx=a, radius=a * (1 + 0.2 * f)), dict(dx=a, radius=0.0), dict(dx=a, radius=-b)][k]
    geo.raises(ValueError, lambda: getattr(pvg, fn)(**kw), f"{fn}({kw})")
    rec.label(f"{fn}:{k}")
    rec.nontrivial()


FACETS = [
    Facet("shape", s_prim(), c_prim, 2400, 30000),
    Facet("fine", gen.fine(s_prim(), 33, 90), c_prim, 150, 1500),
    Facet("reject", s_bad(), c_bad, 500, 3000),
]
