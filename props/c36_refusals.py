"""C36: unusable arguments are refused, and a refused call leaves no trace."""
import importlib

from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, Violation, require
from props.c13_history import BUILDERS, Session
from props.c13_history import s_hist as s_builder

RULE = (
    "Calls with one argument outside what is documented (subdivision method or array, point array, base mesh, axis, view "
    "of an unsupported kind), each next to the same call with a documented one; and histories of builders in which refused "
    "calls (bad arrays, callables that fail or return the wrong size, data that do not enclose the base, generation with "
    "too few items or with a failing selection) are interleaved with good ones, compared with the history without them. "
    "Non-trivial: refused argument, or at least one refused call before a generation."
)

BAD_METHODS = ["foo", "LOG", "log-r", "logr", "constant ", "linear", "r", "_r", "lo", "const_r", "log_R"]
GOOD_METHODS = ["constant", "log", "log_r", None]

# name -> (keywords of resolutions, keywords of methods)
SHAPES = {
    "AnnularSector": ("r", "theta"),
    "Annulus": ("r", "theta"),
    "CylindricalShell": ("r", "theta", "z"),
    "CylindricalShellSector": ("r", "theta", "z"),
    "Rectangle": ("x", "y"),
    "Quadrilateral": ("x", "y"),
    "RectangleSector": ("x", "y", "r"),
    "SectorRectangle": ("r", "theta"),
    "SectorSquare": ("r", "theta"),
    "Circle": ("",),
    "Sector": ("",),
    "StructuredSurface": ("",),
    "Volume": ("",),
}


def kw_name(prefix, what):
    return f"{prefix}_{what}" if prefix else what


def squares():
    a = pvg.Rectangle(2.0, 1.0, 2, 1)
    return a, a.translate((0.0, 0.0, 1.0))


def call_shape(name, kw):
    if name == "Volume":
        return pvg.Volume(*squares(), **kw)
    return getattr(pvg, name)(**kw)


@st.composite
def s_sub(draw):
    name = draw(st.sampled_from([*sorted(SHAPES), "stack2", "stack3", "extrude", "add_polyline"]))
    keys = SHAPES.get(name, ("",))
    return {
        "fn": name,
        "key": draw(st.sampled_from(list(keys))),
        "n": draw(st.integers(1, 4)),
        "m": draw(st.sampled_from(GOOD_METHODS)),
        "bad": draw(st.one_of(st.sampled_from(BAD_METHODS), st.text("logcnsta_r ", min_size=1, max_size=8).filter(lambda x: x not in GOOD_METHODS))),
        "what": draw(st.sampled_from(["method", "method", "2d", "scalar", "good"])),
    }


def c_sub(s, rec):
    res, meth = s["n"], s["m"]
    what = s["what"]
    if s["fn"] == "add_polyline" and what == "method":
        what = "2d"  # It has no method
    if what == "method":
        meth = s["bad"]
    elif what == "2d":
        res = [[0.0, 0.5], [0.5, 1.0]] if s["n"] % 2 else np.linspace(0.0, 1.0, s["n"] + 1)[None]
    elif what == "scalar":
        res = 0.5 * s["n"]  # Neither a number of subdivisions nor positions
    if s["fn"] in SHAPES:
        kw = {kw_name(s["key"], "resolution"): res, kw_name(s["key"], "method"): meth}
        fn = lambda: call_shape(s["fn"], kw)  # noqa: E731
    elif s["fn"] == "stack2":
        fn = lambda: pvg.MeshStack2D([0.0, 1.0, 3.0]).add(0.0).add(1.0, res, meth).generate_mesh()  # noqa: E731
    elif s["fn"] == "stack3":
        fn = lambda: pvg.MeshStack3D(squares()[0]).add(0.0).add(1.0, res, meth).generate_mesh()  # noqa: E731
    elif s["fn"] == "extrude":
        fn = lambda: pvg.MeshExtrude(squares()[0]).add([0.0, 0.0, 1.0], res, meth).generate_mesh()  # noqa: E731
    else:
        fn = lambda: pvg.VoronoiMesh2D(pvg.Rectangle(9.0, 9.0, 9, 9)).add_polyline(np.array([[2.0, 2.0, 0.0], [4.0, 2.0, 0.0], [6.0, 3.0, 0.0]]), 0.5, resolution=res)  # noqa: E731
    if what == "good":
        fn()
    else:
        geo.raises(ValueError, fn, f"{s['fn']} with {kw_name(s['key'], 'resolution')}={res} and method {meth!r}")
    rec.label(s["fn"], what)
    rec.nontrivial(what != "good")


# --------------------------------------------------------------- point arrays, base meshes
@st.composite
def s_arg(draw):
    return {
        "case": draw(st.sampled_from(["points", "points", "center", "axis", "base2", "base2", "base3", "base3", "geometry", "dimension", "surface", "polygon", "line"])),
        "shape": draw(st.sampled_from([[], [0], [1], [4], [5], [3, 1], [2, 4], [1, 1], [4, 5], [2, 3, 3], [1, 2, 2], [1, 1, 3]])),
        "good": draw(st.booleans()),
        "i": draw(st.integers(0, 7)),
        "axis": draw(st.integers(0, 2)),
        "n": draw(st.integers(2, 5)),
        "spec": draw(B.base(("s", "u"), n_max=2)),
        "pos": draw(st.integers(0, 9)),
    }


QUADRATIC = [(pv.CellType.QUADRATIC_TETRA, 10), (pv.CellType.QUADRATIC_HEXAHEDRON, 20)]


def c_arg(s, rec):
    case, i, n = s["case"], s["i"], s["n"]
    good = s["good"]
    rec.label(case, "good" if good else "bad")
    rec.nontrivial(not good)
    axis = s["axis"]
    flat = pvg.Rectangle(4.0, 4.0, 4, 4)
    b = B.Base(s["spec"])
    if case in ("points", "center"):
        e = pvg.VoronoiMesh2D(flat, axis=axis if case == "points" else 2)
        if good:
            shape = [[2], [3], [n, 2], [n, 3]][i % (4 if case == "points" else 2)]
        else:
            shape = s["shape"]
            if case == "center" and len(shape) > 1:
                shape = [4]
        arr = np.full(shape, 1.5)
        arr = arr.tolist() if i % 2 else arr
        fn = (lambda: e.add(arr)) if case == "points" else (lambda: e.add_circle(0.5, resolution=8, center=arr))
        if good:
            k = len(e.items)
            require(fn() is e, "add is not chainable")
            require(len(e.items) > k, "nothing was added")
        else:
            geo.raises(ValueError, fn, f"points of shape {shape}")
            geo.same(len(e.items), 0, f"items after refusing points of shape {shape}")
    elif case == "axis":
        axis = axis if good else [-1, -2, -3, 3, 4, 5, -4, 30][i]
        for cls, arg in ((pvg.MeshStack2D, np.arange(float(n))), (pvg.MeshStack3D, None)):
            if arg is None:
                arg = [pvg.Rectangle(1.0, 2.0, 1, n), pvg.Rectangle(1.0, 2.0, 1, n).cast_to_unstructured_grid()][s["pos"] % 2]
                if good and s["pos"] % 2 == 0:
                    axis = 2
            if good:
                geo.same(cls(arg, axis=axis).axis, axis, "axis of a stack")
            else:
                geo.raises(ValueError, lambda: cls(arg, axis=axis), f"{cls.__name__} along axis {axis}")
    elif case == "base2":
        x = np.cumsum(np.ones(n))
        if good:
            arg = [x, x.tolist(), tuple(x), pv.lines_from_points(np.eye(3)[(axis + 1) % 3] * x[:, None])][i % 4]
            pvg.MeshStack2D(arg, axis=axis)
        else:
            line = pv.lines_from_points(np.eye(3)[0] * x[:, None])
            arg = [
                b.mesh,
                b.mesh.extract_surface(),
                line.cast_to_unstructured_grid(),
                pv.PolyData(np.eye(3)[0] * x[:, None]),
                np.zeros((n, 3)),
                3.0,
                np.zeros((1, n)),
                pv.ImageData(dimensions=(n, 1, 1)),
            ][i]
            geo.raises(ValueError, lambda: pvg.MeshStack2D(arg, axis=axis), f"2D stack over {type(arg).__name__} ({i})")
    elif case == "base3":
        if good:
            pvg.MeshStack3D(b.mesh, axis=b.axis)
            pvg.MeshExtrude(b.mesh)
        else:
            cube = pv.ImageData(dimensions=(2, 3, n))
            arg = [
                b.mesh.extract_surface(),
                pv.lines_from_points(np.eye(3)[:2]),
                cube,
                cube.cast_to_unstructured_grid(),
                cube.cast_to_rectilinear_grid().cast_to_structured_grid(),
                pv.ImageData(dimensions=(n, 1, 1)),
                pv.lines_from_points(np.eye(3)[:2]).cast_to_unstructured_grid(),
                np.arange(4.0),
            ][i]
            geo.raises(ValueError, lambda: pvg.MeshStack3D(arg, axis=axis), f"3D stack over {type(arg).__name__} ({i})")
            if i in (1, 2, 3, 4, 5, 6):
                geo.raises(ValueError, lambda: pvg.MeshExtrude(arg), f"extrusion of {type(arg).__name__} ({i})")
    elif case == "geometry":
        # A cell of an unsupported type, anywhere among supported ones
        cells = [(pv.CellType.TETRA, 4)] * (s["pos"] % 4 + 1)
        if not good:
            cells.insert(s["pos"] % (len(cells) + 1), QUADRATIC[i % 2])
            if i > 5:
                cells = [QUADRATIC[i % 2]] * len(cells)
        m = soup(cells)
        fn = lambda: pvg.extract_cell_geometry(m)  # noqa: E731
        if good:
            fn()
        else:
            geo.raises(NotImplementedError, fn, f"geometry of {cells}")
    elif case == "dimension":
        if good:
            geo.same(pvg.get_dimension(b.mesh), 2, "dimension of a surface")
        else:
            arg = [np.zeros((3, 3)), None, "mesh", pv.MultiBlock(), 3, [1.0], pv.Table({"a": np.arange(3)}), b][i]
            geo.raises(TypeError, lambda: pvg.get_dimension(arg), f"dimension of {type(arg).__name__}")
    elif case == "surface":
        a = np.column_stack([np.arange(n + 1.0), np.zeros(n + 1), np.zeros(n + 1)])
        plane = ["xy", "yx", "xz", "zx", "yz", "zy"][i % 6]
        if good:
            pvg.StructuredSurface(a, a + 1.0, plane)
        else:
            bad = [plane[0], plane[0] * 2, plane + "z", plane.upper(), plane[::-1] + " ", "", "ab", plane[1] + "w"][i]
            geo.raises(ValueError, lambda: pvg.StructuredSurface(a, a + 1.0, bad), f"plane {bad!r}")
    elif case == "polygon":
        # A closed surface has no boundary edge to take as a shell
        arg = b.mesh if good else [pv.Sphere(theta_resolution=4, phi_resolution=4), pv.Cube().clean(), pv.Tetrahedron()][i % 3]
        if good:
            pvg.Polygon(arg)
        else:
            geo.raises(ValueError, lambda: pvg.Polygon(arg), "shell without boundary")
    else:
        pts = np.column_stack([np.arange(n + 0.0), np.ones(n)])
        if good:
            pvg.reconstruct_line(pts)
        else:
            bad = np.column_stack([pts] + [pts[:, :1]] * (2 + i % 3)) if i % 2 else pts[:, :1]
            geo.raises(ValueError, lambda: pvg.reconstruct_line(bad), f"points of shape {bad.shape}")


def soup(cells):
    pts, conn, types = [], [], []
    for k, (t, n) in enumerate(cells):
        conn += [n, *range(len(pts), len(pts) + n)]
        rng = np.random.default_rng(k)
        pts += (rng.random((n, 3)) + [2.0 * k, 0.0, 0.0]).tolist()
        types.append(t)
    return pv.UnstructuredGrid(np.array(conn), np.array(types, dtype=np.uint8), np.array(pts))


# --------------------------------------------------------------- histories
class Boom(Exception):
    """Raised by a callable given to a builder."""


def boom(*_):
    raise Boom


def refused(e, s, b, k):
    """A call that has to be refused: (exception, call)."""
    fn = s["fn"]
    n = b.mesh.n_points
    ax, lat = b.axis, b.lat
    if fn in ("stack2", "stack3"):
        inside = np.zeros((4, 3))
        inside[:, lat] = b.pts[:, lat].mean(axis=0) + 1e-3 * np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]])
        table = [
            (ValueError, lambda: e.add([1.0, 2.0], 2, priority=3, group="z")),
            (ValueError, lambda: e.add(np.zeros((n, 2)), group="z")),
            (ValueError, lambda: e.add(np.zeros((1, 2, 3)), group="z")),
            (Boom, lambda: e.add(boom, 2, priority=3, group="z")),
            (ValueError, lambda: e.add(lambda x, y, z: np.zeros(n + 2), group="z")),
            (ValueError, lambda: e.add(inside, group="z")),
            (ValueError, lambda: e.add(pv.PolyData(inside), group="z")),
        ]
        if fn == "stack3":
            table.append((ValueError, lambda: e.add(inside, extrapolation="foo")))
            table.append((Exception, lambda: e.add_plane([1.0, 2.0], [0.0, 0.0, 0.0])))
            table.append((TypeError, lambda: e.add_plane([0.0, 0.0, 0.0], [0.0, 0.0, 0.0], foo=1)))
        else:
            table.append((Exception, lambda: e.set_transition(pv.PolyData(np.zeros((2, 3))))))
            table.append((Exception, lambda: e.set_transition("foo")))
    elif fn == "extrude":
        table = [
            (ValueError, lambda: e.add([1.0, 2.0], 2, group="z")),
            (ValueError, lambda: e.add([[0.0, 0.0, 1.0]], 2, group="z")),
            (ValueError, lambda: e.add(3.0, group="z")),
            (Exception, lambda: e.add([0.0, 0.0, 1.0], scale="foo", group="z")),
            (Exception, lambda: e.add([0.0, 0.0, 1.0], angle="foo", group="z")),
        ]
    elif fn == "merge":
        table = [(Exception, lambda: e.add(5.0)), (Exception, lambda: e.add(None, group="z")), (Exception, lambda: e.add(np.zeros((3, 3)), "z"))]
    else:
        table = [
            (ValueError, lambda: e.add(np.zeros((3, 4)), group="z")),
            (ValueError, lambda: e.add(np.zeros((2, 2, 2)), group="z")),
            (ValueError, lambda: e.add([1.0], priority=3)),
            (ValueError, lambda: e.add_circle(1.0, 0.5, 6, plain=True, group="z")),
            (ValueError, lambda: e.add_circle(1.0, center=[1.0, 2.0, 3.0, 4.0], plain=True, group="z")),
            (ValueError, lambda: e.add_circle(1.0, resolution=[[0.0, 1.0]], plain=True, group="z")),
            (ValueError, lambda: e.add_polyline(np.array([[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]]), 0.1, resolution=[[0.0, 1.0]])),
            (Exception, lambda: e.add_polyline(np.array([[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]]), 0.1, constraint="foo")),
        ]
    return table[k % len(table)]


@st.composite
def s_hist(draw):
    s = draw(s_builder())
    ops = [op for op in s["ops"] if op["op"] in ("add", "gen")]
    out = []
    for op in ops:
        for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
            out.append({"op": "bad", "k": draw(st.integers(0, 11))})
        if op["op"] == "gen" and draw(st.booleans()):
            out.append({"op": "fail"})
        out.append(op)
    s["ops"] = out
    s["trans"] = draw(st.sampled_from([None, None, 0, 1, 2, 3])) if s["fn"] == "stack2" else None
    if s["trans"] is not None:
        # Layers of a transition are meshed by gmsh: planar and apart
        s["b"]["lat"] = [0.0] * len(s["b"]["lat"])
        s["ops"] = [{**op, "src": 0, "v": 1.0 + abs(op["v"])} if op["op"] == "add" else op for op in out]
    return s


def c_hist(s, rec):
    cur, fresh = Session(s), Session(s)
    n_bad = 0
    gens = 0
    n_add = 0
    trans = False
    for op in s["ops"]:
        k = op["op"]
        if k == "add":
            if s["trans"] is not None and n_add == s["trans"] + 1:
                # The mark set by a transition survives refused calls
                for x in (cur, fresh):
                    x.e.set_transition(len(x.e.mesh.points) + 2)
                geo.raises(*_swap(refused(cur.e, s, cur.spare, op["seed"] % 7), "a refused call after set_transition"))
                n_bad += 1
                trans = True
            for x in (cur, fresh):
                x.add(op)
            n_add += 1
        elif k == "bad":
            exc, fn = refused(cur.e, s, cur.spare, op["k"])
            count = len(cur.e.items)
            geo.raises(exc, fn, f"{s['fn']}: unusable argument {op['k']}")
            geo.same(len(cur.e.items), count, f"{s['fn']}: items after a refused call {op['k']}")
            n_bad += 1
        elif k == "fail" and s["fn"] in ("stack2", "stack3", "extrude"):
            # A generation that fails half-way can be resumed
            if len(cur.e.items) > 1 and not trans:
                it = cur.e.items[-1]
                keep = it.group
                it.group = {"y": boom}
                geo.raises(Boom, cur.e.generate_mesh, "a selection that fails")
                it.group = keep
                n_bad += 1
            elif len(cur.e.items) <= 1:
                geo.raises(ValueError, cur.e.generate_mesh, "too few items")
                n_bad += 1
        elif k == "gen":
            m, ref = cur.generate(), fresh.generate()
            require((m is None) == (ref is None), "refused calls decide whether a builder can generate")
            if m is None:
                continue
            geo.unchanged(geo.snapshot(ref), geo.snapshot(m), "mesh of a builder that refused calls")
            gens += 1
            rec.nontrivial(n_bad > 0)
    rec.label(s["fn"], f"gens:{min(gens, 3)}", f"bad:{min(n_bad, 3)}")
    if trans:
        rec.label("transition")


def _swap(pair, msg):
    return pair[0], pair[1], msg


# --------------------------------------------------------------- Polygon and gmsh
@st.composite
def s_gmsh(draw):
    return {
        "n": draw(st.integers(3, 7)),
        "type": draw(st.sampled_from(["triangle", "quad"])),
        "engine": draw(st.sampled_from(["occ", "gmsh"])),
        "bad": draw(st.lists(st.sampled_from([{"engine": "foo"}, {"engine": "Gmsh"}, {"celltype": "tri"}, {"celltype": "Quad"}, {"algorithm": "x"}, {"cellsize": "x"}, {"optimization": "foo"}]), min_size=1, max_size=3)),
    }


def c_gmsh(s, rec):
    t = np.linspace(0.0, 2.0 * np.pi, s["n"] + 1)[:-1]
    p = np.column_stack([np.cos(t), np.sin(t), np.zeros(s["n"])])
    kw = {"celltype": s["type"], "cellsize": 0.5, "engine": s["engine"]}
    area = 0.5 * s["n"] * np.sin(2.0 * np.pi / s["n"])
    for bad in s["bad"]:
        exc = ValueError if {"engine", "celltype"} & set(bad) else Exception
        if "optimization" in bad:
            try:
                pvg.Polygon(p, **{**kw, **bad})
            except Exception:
                pass
        else:
            geo.raises(exc, lambda: pvg.Polygon(p, **{**kw, **bad}), f"Polygon({bad})")
        import gmsh

        require(not gmsh.isInitialized(), f"gmsh is left running after a refused Polygon({bad})")
        m = pvg.Polygon(p, **kw)  # Quads made by gmsh may differ from one call to the next
        got = sum(abs(geo.signed_area2(np.asarray(m.points)[c][:, :2])) for _, c in geo.ugrid_cells(m))
        require(m.n_cells > 1 and abs(got - area) < 1e-6 * area, f"{m.n_cells} cells of area {got}, expected {area}, after a refused Polygon({bad})")
        rec.label(sorted(bad)[0])
    rec.label(s["type"], s["engine"])
    rec.nontrivial()


FACETS = [
    Facet("subdivision", s_sub(), c_sub, 800, 8000),
    Facet("argument", s_arg(), c_arg, 800, 8000),
    Facet("history", s_hist(), c_hist, 600, 8000),
    Facet("gmsh", s_gmsh(), c_gmsh, 48, 500),
]

# What the other properties refuse
for _name in (
    "c02_surface", "c03_volume", "c05_primitives", "c07_polygon", "c08_extrude", "c09_interfaces", "c12_groups", "c15_meshmerge",
    "c22_simplify", "c25_offset", "c26_fuse", "c27_remap", "c28_raycast", "c30_quadratic", "c31_interactive",
):
    for _f in importlib.import_module(f"props.{_name}").FACETS:
        if _f.name in ("reject", "view"):
            FACETS.append(Facet(f"{_name.split('_')[1]}-{_f.name}", _f.strategy, _f.check, min(_f.quick, 120), min(_f.thorough, 1000)))
