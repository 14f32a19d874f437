"""C32: functions leave their arguments alone and give the same result again."""
from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Every public constructor and function, called with meshes (any data, group names, hidden cells), arrays, lists and dictionaries that are "
    "compared before and after; called again with the same arguments, and with equal ones. Non-trivial: the call returns something."
)


def snap(x):
    """Deep value of an argument or a result."""
    if isinstance(x, pv.DataSet):
        _ = x.user_dict  # created on first access
        d = geo.snapshot(x)
        d["active"] = (x.cell_data.active_scalars_name, x.point_data.active_scalars_name)
        return (type(x).__name__, d)
    if isinstance(x, np.ndarray):
        return ("array", {"v": np.array(x, copy=True)})
    if isinstance(x, dict):
        return ("dict", {"k": [(repr(k), snap(v)) for k, v in x.items()]})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, {"n": len(x), **{f"[{i}]": snap(v) for i, v in enumerate(x)}})
    if callable(x):
        return ("callable", {})
    return ("value", {"v": repr(x)})


def compare(a, b, msg, active=True):
    require(a[0] == b[0], f"{msg}: {b[0]} instead of {a[0]}")
    if a[0] == "dict":
        require(len(a[1]["k"]) == len(b[1]["k"]), f"{msg}: keys changed")
        for (k, v), (j, w) in zip(a[1]["k"], b[1]["k"]):
            require(k == j, f"{msg}: keys changed")
            compare(v, w, f"{msg}[{k}]", active)
        return
    da, db = dict(a[1]), dict(b[1])
    if not active:
        da.pop("active", None), db.pop("active", None)
    nested = [k for k in da if isinstance(da[k], tuple) and len(da[k]) == 2 and isinstance(da[k][1], dict)]
    if any(k not in db for k in nested):
        require(False, f"{msg}: length changed")
    for k in nested:
        compare(da.pop(k), db.pop(k), f"{msg}{k}", active)
    geo.unchanged(da, db, msg)


def dress(m, s, i=0):
    """Data and metadata that functions might use."""
    rng = np.random.default_rng(s["seed"] + i)
    if s["data"] & 1:
        m.cell_data["v"] = rng.random((m.n_cells, 3))
        m.cell_data["s"] = rng.integers(0, 9, m.n_cells)
    if s["data"] & 2:
        m.point_data["p"] = rng.random(m.n_points)
        m.point_data["w"] = rng.integers(0, 9, (m.n_points, 2))
    if s["data"] & 4:
        m.cell_data["CellGroup"] = rng.integers(0, 2, m.n_cells)
        m.user_dict["CellGroup"] = {"a": 0, "b": 1}
        m.user_dict["note"] = {"x": [1, 2]}
    if s["data"] & 8:
        m.field_data["f"] = np.arange(3.0)
    return m


def container(s, p, k=0):
    """Coordinates as an array, integers, float32, nested lists or tuples."""
    kind = (s["as"] + k) % 4
    p = np.asarray(p)
    if kind == 0:
        return p.copy()
    if kind == 1:
        return p.tolist()
    if kind == 2:
        return p.astype(np.float32)
    return tuple(map(tuple, p.tolist())) if p.ndim == 2 else tuple(p.tolist())


def line(s, i=0, as_poly=None):
    rng = np.random.default_rng(s["seed"] + 7 * i)
    n = s["n"] + 2
    p = np.zeros((n, 3))
    p[:, 0] = np.cumsum(rng.integers(1, 4, n))
    p[:, 1] = i * 10.0
    p[:, 2] = rng.integers(-3, 4, n) / 2.0
    if as_poly is False:
        return p
    return dress(pv.PolyData(p, lines=np.array([n, *range(n)])), s, i)


def surf(s):
    m = meshes.Mesh(s["m2"])
    return dress(m.mesh, s)


def vol(s):
    return dress(meshes.Mesh(s["m3"]).mesh, s)


def lift(m, z):
    o = m.cast_to_structured_grid() if isinstance(m, (pv.ImageData, pv.RectilinearGrid)) else m.copy()
    o.points = np.asarray(o.points) + np.array([0.0, 0.0, z])
    return o


def center(s):
    return container(s, np.array([3.0, -2.0, 1.0]), 1)


def methods(s, *names):
    return {k: s["meth"][i % 3] for i, k in enumerate(names) if s["meth"][i % 3]}


def t_primitive(name, resolutions, meths, **kw):
    def args(s):
        a = {**kw, "center": center(s)}
        for i, r in enumerate(resolutions):
            a[r] = s["perc"][i % 2].copy() if s["pk"] == 0 else [list, tuple, np.array][s["pk"] - 1](s["perc"][i % 2]) if s["pk"] < 4 else s["n"] + 1
        a.update(methods(s, *meths))
        return a

    return lambda s: (getattr(pvg, name), args(s))


def t_quad(s):
    p = [[0.0, 0.0], [3.0, 0.5], [2.5, 2.0], [-0.5, 1.5]]
    return pvg.Quadrilateral, {"points": container(s, p), "x_resolution": np.array(s["perc"][0]), "y_resolution": list(s["perc"][1]), "center": center(s)}


def t_regular(s):
    return pvg.RegularLine, {"points": container(s, line(s, as_poly=False)), "resolution": s["n"] + 1}


def t_curved(s):
    return pvg.CurvedLine, {"origin": container(s, np.array([1.0, 2.0, 3.0])), "length": 4.0, "start": container(s, np.array([1.0, 0.0, 0.0]), 1), "end": container(s, np.array([0.0, 1.0, -1.0]), 2), "resolution": s["n"] + 1}


def t_surface(s):
    s = {**s, "data": s["data"] & ~5}
    a, b = (line(s, i) if s["as"] < 2 else container(s, line(s, i, False), i) for i in (0, 1))
    return pvg.StructuredSurface, {"line_a": a, "line_b": b, "plane": ["xy", "yx"][s["k"] % 2], "resolution": np.array(s["perc"][0]) if s["pk"] else list(s["perc"][0])}


def t_volume(s):
    a = surf(s)
    return pvg.Volume, {"surface_a": a, "surface_b": dress(lift(a, 2.0), s, 1), "resolution": np.array(s["perc"][0]) if s["pk"] else list(s["perc"][0])}


def t_polygon(s):
    shell = [[0.0, 0.0, 1.0], [8.0, 0.0, 1.0], [9.0, 7.0, 1.0], [0.0, 6.0, 1.0]]
    hole = [[2.0, 2.0, 1.0], [4.0, 2.0, 1.0], [3.0, 4.0, 1.0]]
    hole2 = [[6.0, 2.0, 1.0], [7.0, 2.5, 1.0], [6.5, 4.0, 1.0]]
    if s["as"] == 3:
        f = [dress(pv.PolyData(np.array(q), faces=[len(q), *range(len(q))]), s, i) for i, q in enumerate([shell, hole, hole2])]
    else:
        f = [container(s, q) for q in (shell, hole, hole2)]
    return pvg.Polygon, {"shell": f[0], "holes": [f[1:], [f[1]], f[1:]][s["k"] % 3], "celltype": ["triangle", "quad", None][s["n"] % 3]}


def t_merge(s):
    ms = [surf(s)]
    w = np.ptp(np.asarray(ms[0].points), axis=0).max() + 5.0
    for i in range(s["n"]):
        ms.append(dress(lift(surf(s), (i + 1) * w), s, i + 1))
    ms = [m if isinstance(m, pv.UnstructuredGrid) else m.cast_to_unstructured_grid() for m in ms]
    return pvg.merge, {"dataset": ms, "merge_points": bool(s["k"] % 2)}


def t_merge_structured(s):
    rng = np.random.default_rng(s["seed"])
    x = np.cumsum(rng.integers(1, 3, s["n"] + 2)).astype(float)
    y = np.arange(3.0)
    ms = []
    for i in range(3):
        X, Y = np.meshgrid(x + i * (x[-1] - x[0]), y, indexing="ij")
        ms.append(dress(pv.StructuredGrid(X, Y, np.zeros_like(X)), s, i))
    return pvg.merge, {"dataset": ms, "axis": 0}


def t_merge_lines(s):
    return pvg.merge_lines, {"lines": [line(s, i) for i in range(s["n"] + 1)], "as_lines": bool(s["k"] % 2)}


def t_split(s):
    m = pvg.merge_lines([line({**s, "data": 0}, i) for i in range(s["n"] + 1)])
    return pvg.split_lines, {"mesh": dress(m, s), "as_lines": bool(s["k"] % 2)}


def t_decimate(s):
    return pvg.decimate_rdp, {"mesh": line(s), "tolerance": 0.25 * s["k"]}


def t_reconstruct(s):
    p = line(s, as_poly=False)[np.random.default_rng(s["seed"]).permutation(s["n"] + 2)]
    if s["n"] < 3:
        p = np.vstack([p, p + [1.0, 2.0, 0.5]])
    a = dress(pv.PolyData(p), s) if s["pk"] == 0 else container(s, p)
    return pvg.reconstruct_line, {"mesh_or_points": a, "start": s["k"] % len(p), "close": bool(s["n"] % 2)}


def t_offset(s):
    p = np.array([[1.0, 1.0, 2.0], [5.0, 0.0, 2.0], [6.0, 4.0, 2.0], [3.0, 5.0, 2.0], [0.0, 3.0, 2.0]])
    a = dress(pv.PolyData(p, faces=[5, *range(5)]), s) if s["pk"] % 2 else container(s, p)
    return pvg.offset_polygon, {"mesh_or_points": a, "distance": [0.25, -0.25, 0.0][s["k"] % 3]}


def t_average(s):
    m = surf(s).extract_surface()
    return pvg.average_points, {"mesh": m, "tolerance": [0.0, 0.5, 1.5][s["k"] % 3]}


def t_boundary(s):
    return pvg.extract_boundary_polygons, {"mesh": surf(s), "fill": bool(s["k"] & 1), "with_holes": bool(s["k"] & 2)}


def mesh23(s):
    return surf(s) if s["n"] % 2 else vol(s)


def t_geometry(s):
    return pvg.extract_cell_geometry, {"mesh": mesh23(s), "remove_ghost_cells": bool(s["k"] & 1)}


def t_cells(s):
    m = mesh23(s)
    ind = [i for i in range(m.n_cells) if (i * 7 + s["seed"]) % 3] or [0]
    if s["k"] & 1:
        ind = np.isin(np.arange(m.n_cells), ind)
    elif s["k"] & 2:
        ind = np.array(ind, dtype=int)
    return pvg.extract_cells, {"mesh": m, "ind": ind, "invert": bool(s["pk"] % 2)}


def t_dimension(s):
    return pvg.extract_cells_by_dimension, {"mesh": mesh23(s), "ndim": [None, 1, 2, 3][s["k"]], "method": ["upper", "lower"][s["pk"] % 2]}


def t_fuse(s):
    m = surf(s)
    # One or several groups of a single cell and its neighbour
    n = m.n_cells
    return pvg.fuse_cells, {"mesh": m, "ind": [[0, 1 % n], [[0], [n - 1]], np.array([0, min(1, n - 1)]), np.arange(n) < 2][s["k"]]}


def t_simple(name, **kw):
    return lambda s: (getattr(pvg, name), {"mesh": mesh23(s), **kw})


def t_connectivity(s):
    m = mesh23(s)
    c = [[float(i), float(i * i), 1.0] for i in range(m.n_cells)]
    return pvg.get_connectivity, {"mesh": m, **({"cell_centers": container(s, c)} if s["pk"] % 2 else {}), "remove_ghost_cells": bool(s["k"] & 1)}


def t_quadratic(s):
    m = pv.ImageData(dimensions=(s["n"] + 1, 2, 2)).cast_to_unstructured_grid() if s["k"] & 1 else pv.Plane(i_resolution=s["n"] + 1, j_resolution=1).cast_to_unstructured_grid()
    if s["k"] & 2:
        m = m.triangulate()
    return pvg.quadraticize, {"mesh": dress(m, s)}


def t_ray(s):
    m = vol(s)
    b = np.array(m.bounds).reshape(3, 2)
    a, c = b[:, 0] - 1.0, b[:, 1] + [1.0, 1.5, 1.25]
    return pvg.ray_cast, {"mesh": m, "pointa": container(s, a), "pointb": container(s, c, 1)}


def t_intersect(s):
    m = vol(s)
    b = np.array(m.bounds).reshape(3, 2)
    a, c = b[:, 0] - 1.0, b[:, 1] + [1.0, 1.5, 1.25]
    p = np.array([a, 0.5 * (a + c) + [0.01, 0.02, 0.03], c])
    ln = dress(pv.PolyData(p, lines=[3, 0, 1, 2]), s, 1)
    return pvg.intersect_polyline, {"mesh": m, "line": ln, "ignore_points_before_entry": bool(s["k"] & 1), "ignore_points_after_exit": bool(s["k"] & 2)}


def t_remap(s):
    m = dress(surf(s), {**s, "data": s["data"] | 4})
    return pvg.remap_categorical_data, {"mesh": m, "key": "CellGroup", "mapping": {"a": 1, 1: 0} if s["k"] & 1 else {0: 5}}


def t_stack2(s):
    x = np.asarray(line(s, as_poly=False))[:, 0]
    a = line(s) if s["as"] < 2 else container(s, x, s["k"])
    ax = 2 if s["as"] < 2 else 1
    up, down = line(s, as_poly=False), line(s, 1)
    up[:, 2] += 10.0
    up[:, 1] = 0.0
    q = np.asarray(down.points, dtype=float)
    q[:, 0] = x
    q[:, 1] = 0.0
    q[:, 2] += 20.0
    if ax == 1:
        # Bases given by coordinates lie along Z
        up, q = up[:, [1, 2, 0]], q[:, [1, 2, 0]]
    down.points = q
    items = [container(s, up, 1) if s["pk"] % 2 else up, down, np.float64(40.0)]

    def call(base, items, res, ignore):
        e = pvg.MeshStack2D(base, axis=ax, ignore_groups=ignore)
        for i, x in enumerate(items):
            e.add(x, res, group="g" if i == 1 else None)
        return e.generate_mesh()

    return call, {"base": a, "items": items, "res": list(s["perc"][0]) if s["k"] & 1 else np.array(s["perc"][0]), "ignore": ["a", "z"]}


def t_stack3(s):
    b = B.Base(s["b"])
    m = dress(b.mesh, s)
    top = lift(m, 0.0)
    ax = b.axis
    top.points = np.asarray(top.points) + np.eye(3)[ax] * 6.0
    lo, hi = np.array(m.bounds).reshape(3, 2).T
    group = {"x": lambda q: np.arange(q.n_cells) % 2 == 0, "y": [0]}

    def call(base, items, res, group, ignore, angles, point):
        e = pvg.MeshStack3D(base, axis=ax, ignore_groups=ignore)
        for i, x in enumerate(items):
            e.add(x, res, group=group if i == 1 else "x")
        e.add_plane(angles, point, res)
        return e.generate_mesh()

    pt = (lo + hi) / 2.0
    pt[ax] += 50.0
    return call, {
        "base": m,
        "items": [top, float(hi[ax]) + 20.0],
        "res": np.array(s["perc"][0]),
        "group": group,
        "ignore": ["b"],
        "angles": container(s, np.array([5.0, -10.0, 3.0])),
        "point": container(s, pt, 1),
    }


def t_extrude(s):
    b = B.Base(s["b"])
    m = dress(b.mesh, s)

    def call(base, vector, res, group, ignore):
        e = pvg.MeshExtrude(base, scale=0.5, angle=10.0, ignore_groups=ignore)
        e.add(vector, res, group=group).add(vector)
        return e.generate_mesh()

    return call, {
        "base": m,
        "vector": container(s, np.eye(3)[b.axis] * 3.0),
        "res": list(s["perc"][0]),
        "group": {"x": [0], "y": np.arange(m.n_cells) % 2 == 1},
        "ignore": ["b"],
    }


def t_meshmerge(s):
    b = B.Base(s["b"])
    m = dress(b.mesh, s)
    o = dress(lift(m, 0.0), s, 1)
    o.points = np.asarray(o.points) + np.eye(3)[b.lat[0]] * (np.ptp(b.pts[:, b.lat[0]]) + s["k"])

    def call(items, group, ignore):
        e = pvg.MeshMerge(default_group="none", ignore_groups=ignore)
        for x in items:
            e.add(x, group)
        return e.generate_mesh()

    return call, {"items": [m, o], "group": [None, "x"][s["k"] & 1], "ignore": ["b"]}


def t_voronoi(s):
    x = np.linspace(0.0, 6.0, s["n"] + 3)
    X, Y = np.meshgrid(x, np.linspace(0.0, 5.0, 4), indexing="ij")
    m = dress(pv.StructuredGrid(X, Y, np.zeros_like(X)), s)
    p = np.array([[2.1, 2.2, 0.0], [2.9, 2.2, 0.0], [2.5, 3.1, 0.0]])
    pts = dress(pv.PolyData(p), s, 1) if s["pk"] % 2 else container(s, p)
    ln = np.array([[1.0, 4.0, 0.0], [5.0, 4.2, 0.0]])
    ln = dress(pv.PolyData(ln, lines=[2, 0, 1]), s, 2) if s["pk"] // 2 % 2 else container(s, ln)

    def call(base, points, line, res, center, ignore):
        e = pvg.VoronoiMesh2D(base, preference=["cell", "point"][s["k"] & 1], ignore_groups=ignore)
        e.add(points, group="x")
        if s["k"] & 2:
            e.add_polyline(line, 0.3, resolution=res, group="y")
        else:
            e.add_circle(0.6, 0.9, s["n"] + 4, center=center, priority=1)
        return e.generate_mesh()

    return call, {"base": m, "points": pts, "line": ln, "res": container(s, np.array([0.0, 0.25, 1.0])), "center": container(s, np.array([4.4, 1.1, 0.0]), 1), "ignore": ["b"]}


P2 = ["r_resolution", "theta_resolution"]
M2 = ["r_method", "theta_method"]
CALLS = {
    "AnnularSector": t_primitive("AnnularSector", P2, M2),
    "Annulus": t_primitive("Annulus", P2, M2),
    "Circle": t_primitive("Circle", ["resolution"], ["method"]),
    "Sector": t_primitive("Sector", ["resolution"], ["method"]),
    "CylindricalShell": t_primitive("CylindricalShell", [*P2, "z_resolution"], [*M2, "z_method"]),
    "CylindricalShellSector": t_primitive("CylindricalShellSector", [*P2, "z_resolution"], [*M2, "z_method"]),
    "Rectangle": t_primitive("Rectangle", ["x_resolution", "y_resolution"], ["x_method", "y_method"]),
    "Square": t_primitive("Square", ["resolution"], ["method"]),
    "RectangleSector": t_primitive("RectangleSector", ["x_resolution", "y_resolution", "r_resolution"], ["x_method"]),
    "SquareSector": t_primitive("SquareSector", ["x_resolution", "r_resolution"], ["x_method"]),
    "SectorRectangle": t_primitive("SectorRectangle", P2, M2),
    "SectorSquare": t_primitive("SectorSquare", P2, M2),
    "Quadrilateral": t_quad,
    "RegularLine": t_regular,
    "CurvedLine": t_curved,
    "StructuredSurface": t_surface,
    "Volume": t_volume,
    "Polygon": t_polygon,
    "merge": t_merge,
    "merge structured": t_merge_structured,
    "merge_lines": t_merge_lines,
    "split_lines": t_split,
    "decimate_rdp": t_decimate,
    "reconstruct_line": t_reconstruct,
    "offset_polygon": t_offset,
    "average_points": t_average,
    "extract_boundary_polygons": t_boundary,
    "extract_cell_geometry": t_geometry,
    "extract_cells": t_cells,
    "extract_cells_by_dimension": t_dimension,
    "fuse_cells": t_fuse,
    "get_cell_centers": t_simple("get_cell_centers"),
    "get_cell_connectivity": t_simple("get_cell_connectivity"),
    "get_cell_group": t_simple("get_cell_group"),
    "get_dimension": t_simple("get_dimension"),
    "get_neighborhood": t_simple("get_neighborhood"),
    "get_connectivity": t_connectivity,
    "quadraticize": t_quadratic,
    "ray_cast": t_ray,
    "intersect_polyline": t_intersect,
    "remap_categorical_data": t_remap,
    "MeshStack2D": t_stack2,
    "MeshStack3D": t_stack3,
    "MeshExtrude": t_extrude,
    "MeshMerge": t_meshmerge,
    "VoronoiMesh2D": t_voronoi,
}
CORE = [k for k in CALLS if k[0].isupper()]
UTIL = [k for k in CALLS if not k[0].isupper()]


@st.composite
def s_call(draw, names):
    return {
        "f": draw(st.sampled_from(names)),
        "m2": draw(meshes.mesh(kinds=("u2", "s2", "r2", "i2", "p2"), n_max=2)),
        "m3": draw(meshes.mesh(kinds=("u3", "s3", "i3", "r3"), n_max=2)),
        "b": draw(B.base(("s", "u"), n_max=2, wobble=True)),
        "seed": draw(st.integers(0, 999)),
        "data": draw(st.integers(0, 15)),
        "as": draw(st.integers(0, 3)),
        "n": draw(st.integers(1, 4)),
        "k": draw(st.integers(0, 3)),
        "pk": draw(st.integers(0, 4)),
        "meth": draw(st.lists(st.sampled_from([None, "constant", "log", "log_r"]), min_size=3, max_size=3)),
        "perc": [draw(gen.perc_list(3, True)) for _ in range(2)],
    }


def attempt(f, a):
    try:
        return "ok", f(**a)
    except (ValueError, TypeError, NotImplementedError, AttributeError, KeyError, IndexError, RuntimeError) as e:
        return "error", type(e).__name__


def alter(x):
    """Change everything in a result."""
    if isinstance(x, (list, tuple)):
        for y in x:
            alter(y)
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "if":
            x += 1
    elif isinstance(x, pv.DataSet):
        if hasattr(x, "points") and not isinstance(x, (pv.ImageData, pv.RectilinearGrid)):
            x.points[...] += 1000.0
        for d in (x.cell_data, x.point_data):
            for k in list(d.keys()):
                if np.asarray(d[k]).dtype.kind in "iuf":
                    d[k][...] = d[k] + 1
                del d[k]
        x.user_dict["CellGroup"] = {"altered": 7}


def c_call(s, rec):
    build = CALLS[s["f"]]
    f, a = build(s)
    before = snap(a)
    st1, out = attempt(f, a)
    compare(before, snap(a), f"arguments of {s['f']}")
    first = snap(out)
    # Again, with the same arguments
    st2, again = attempt(f, a)
    compare(before, snap(a), f"arguments of {s['f']} called again")
    require(st1 == st2, f"{s['f']} called again: {st2} ({again}) instead of {st1} ({out})")
    compare(first, snap(again), f"result of {s['f']} called again with the same arguments", active=False)
    compare(first, snap(out), f"first result of {s['f']} after another call", active=False)
    # And with equal ones
    f, a2 = build(s)
    st3, other = attempt(f, a2)
    require(st1 == st3, f"{s['f']} with equal arguments: {st3} ({other}) instead of {st1} ({out})")
    compare(first, snap(other), f"result of {s['f']} with equal arguments", active=False)
    if st1 == "ok" and s["f"] in OWNED:
        alter(out)
        compare(before, snap(a), f"arguments of {s['f']} after altering its result")
        compare(first, snap(again), f"second result of {s['f']} after altering the first one", active=False)
    rec.label(f"{s['f']}: {st1}")
    rec.nontrivial(st1 == "ok" and out is not None)


# Extractions may share arrays with the mesh
OWNED = set(CALLS) - {"extract_cell_geometry", "extract_cells", "extract_cells_by_dimension", "get_cell_connectivity", "get_connectivity"}
FACETS = [Facet("core", s_call(CORE), c_call, 1000, 10000), Facet("utils", s_call(UTIL), c_call, 1500, 12000)]
