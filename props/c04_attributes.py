"""C04: point and cell data follow the geometry when lines, surfaces and bases are extruded."""
from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Surfaces from lines, volumes from surfaces, stacks and extrusions are generated from bases "
    "carrying scalar and multi-component point/cell arrays of several dtypes (and hidden cells); every "
    "output cell/point is traced back to its base cell/point by geometry and must hold its value. "
    "Non-trivial: an array with at least two different values over an output with >= 2 layers."
)
DIMS = {"xy": (0, 1), "yx": (1, 0), "xz": (0, 2), "zx": (2, 0), "yz": (1, 2), "zy": (2, 1)}


def mark(rec, arrays, layers):
    rec.nontrivial(layers > 1 and any(len(np.unique(a, axis=0)) > 1 for a in arrays.values()))


# ------------------------------------------------------------------ surface
@st.composite
def s_surface(draw):
    n = draw(st.integers(2, 5))
    return {
        "xs": draw(gen.increasing(n, n)),
        "plane": draw(st.sampled_from(sorted(DIMS))),
        "h": draw(st.lists(gen.pos(3, 0.25), min_size=n, max_size=n)),
        "res": draw(gen.resolution(4)),
        "data": draw(B.data(3, ("point", "cell"))),
        "other": draw(st.booleans()),
        "kind": draw(st.sampled_from(["segments", "segments", "polyline", "polygon"])),
        "perm": draw(st.sampled_from([0, 1, 2, 3])),
    }


def c_surface(s, rec):
    i, j = DIMS[s["plane"]]
    n = len(s["xs"])
    pa = np.zeros((n, 3))
    pa[:, i] = s["xs"]
    pb = pa.copy()
    pb[:, j] += s["h"]
    if s["kind"] == "polygon" and n > 2:
        pa[1:-1, 3 - i - j] += 1.0
        pb[1:-1, 3 - i - j] += 1.0
    kind = s["kind"] if n > 2 else "segments"
    # Points of the line may be stored in any order
    ids = np.random.default_rng(s["perm"]).permutation(n) if s["perm"] else np.arange(n)
    stored_a, stored_b = np.empty_like(pa), np.empty_like(pb)
    stored_a[ids], stored_b[ids] = pa, pb
    if kind == "segments":
        cells = {"lines": [x for k in range(n - 1) for x in (2, ids[k], ids[k + 1])]}
    else:
        cells = {"lines" if kind == "polyline" else "faces": [n, *ids]}
    a, b = pv.PolyData(stored_a, **cells), pv.PolyData(stored_b, **cells)
    arrays = B.attach(a, s["data"])
    if s["other"]:
        B.attach(b, [{**d, "seed": d["seed"] + 1} for d in s["data"]])
    m = pvg.StructuredSurface(a, b, s["plane"], geo.res_arg(s["res"]), s["res"]["m"])
    got = geo.structured_index(m)
    for d in s["data"]:
        v = arrays[d["name"]]
        v = v[:, 0] if d["comp"] == 1 else v
        if d["where"] == "point":
            require(d["name"] in m.point_data, "point data of the starting line is lost")
            out = np.asarray(m.point_data[d["name"]])
            col = ids[np.argmin(np.abs(np.asarray(m.points)[:, i][:, None] - np.array(s["xs"])[None]), axis=1)]
        else:
            require(d["name"] in m.cell_data, "cell data of the starting line is lost")
            out = np.asarray(m.cell_data[d["name"]])
            mid = (np.array(s["xs"])[1:] + np.array(s["xs"])[:-1]) / 2
            col = np.argmin(np.abs(B.centers(m)[:, i][:, None] - mid[None]), axis=1)
            if kind != "segments":
                # A single cell
                col = np.zeros_like(col)
        B.same_data(out, v[col], f"{d['where']} data of the surface in plane {s['plane']}")
    rec.label(f"plane:{s['plane']}", kind, *(f"{d['where']}:{d['comp']}" for d in s["data"]))
    mark(rec, arrays, len(geo.perc(s["res"])) - 1)
    require(got.size > 0, "empty surface")


# ------------------------------------------------------------------ volume
@st.composite
def s_volume(draw):
    return {
        "b": draw(B.base(("s", "u"))),
        "h": draw(gen.pos(3, 0.25)),
        "up": draw(st.booleans()),
        "res": draw(gen.resolution(4)),
        "data": draw(B.data(3, ("point", "cell"))),
        "other": draw(st.booleans()),
        "ghost": draw(st.lists(st.sampled_from([0, 0, 0, 32]), min_size=0, max_size=4)),
    }


def c_volume(s, rec):
    b = B.Base(s["b"])
    arrays = B.attach(b.mesh, s["data"])
    ghost = None
    if s["ghost"]:
        ghost = np.resize(np.array(s["ghost"], dtype=np.uint8), b.mesh.n_cells)
        if b.kind == "u" or not ghost.all():
            b.mesh.cell_data["vtkGhostType"] = ghost.copy()
        else:
            ghost = None
    other = b.mesh.copy()
    p = b.pts.copy()
    p[:, b.axis] += s["h"] * (1.0 if s["up"] else -1.0)
    if isinstance(other, pv.RectilinearGrid):
        other = other.cast_to_structured_grid()
    other.points = p
    if s["other"]:
        B.attach(other, [{**d, "seed": d["seed"] + 1} for d in s["data"]])
    else:
        other.clear_data()
    m = pvg.Volume(b.mesh, other, geo.res_arg(s["res"]), s["res"]["m"])
    col = B.column_of(m, b)
    q, r = np.asarray(m.points, dtype=float).copy(), b.pts.copy()
    q[:, b.axis] = r[:, b.axis] = 0.0
    pid = geo.match(q, r, "lateral position of points", tol=1e-6)
    for d in s["data"]:
        v = arrays[d["name"]]
        out = getattr(m, f"{d['where']}_data")
        require(d["name"] in out, f"{d['where']} data of the starting surface is lost")
        B.same_data(out[d["name"]], v[col if d["where"] == "cell" else pid], f"{d['where']} data of the volume")
    exp = ghost[col] if ghost is not None else np.zeros(m.n_cells)
    geo.array_equal(m.cell_data["vtkGhostType"], exp, "hidden cells of the volume")
    rec.label(b.kind, f"axis:{b.axis}", *(f"{d['where']}:{d['comp']}" for d in s["data"]))
    if ghost is not None and ghost.any():
        rec.label("hidden")
    mark(rec, arrays, len(geo.perc(s["res"])) - 1)


# ------------------------------------------------------------------ stack and extrude
@st.composite
def s_built(draw):
    n = draw(st.integers(1, 3))
    return {
        "fn": draw(st.sampled_from(["stack", "extrude"])),
        "b": draw(B.base()),
        "up": draw(st.booleans()),
        "h": draw(st.lists(gen.pos(3.0, 0.25), min_size=n, max_size=n)),
        "res": draw(st.lists(gen.resolution(3, ends=True), min_size=n, max_size=n)),
        "data": draw(B.data(3)),
    }


def c_built(s, rec):
    b = B.Base(s["b"])
    arrays = B.attach(b.mesh, s["data"])
    if s["fn"] == "stack" or b.kind == "l":
        st_ = b.stack(bottom_up=s["up"]).add(1.5)
        for h, r in zip(s["h"], s["res"]):
            st_.add(h, geo.res_arg(r), r["m"])
    else:
        st_ = pvg.MeshExtrude(b.mesh)
        sgn = 1.0 if s["up"] else -1.0
        for h, r in zip(s["h"], s["res"]):
            st_.add(np.eye(3)[b.axis] * h * sgn, geo.res_arg(r), r["m"])
    m = st_.generate_mesh()
    col = B.column_of(m, b)
    for d in s["data"]:
        v = arrays[d["name"]]
        require(d["name"] in m.cell_data, "cell data of the base mesh is lost")
        exp = v[np.zeros_like(col)] if b.kind == "l" else v[col]
        B.same_data(m.cell_data[d["name"]], exp, f"cell data of the {s['fn']}")
    rec.label(s["fn"], b.kind, f"axis:{b.axis}", *(f"comp:{d['comp']}" for d in s["data"]))
    rec.nontrivial(m.n_cells > len(b.cells) > 1)


FINE = {"surface": (s_surface(), c_surface), "volume": (s_volume(), c_volume), "built": (s_built(), c_built)}

FACETS = [
    Facet("fine", gen.either(FINE, gen.fine), gen.check_either(FINE), 80, 800),
    Facet("surface", s_surface(), c_surface, 900, 15000),
    Facet("volume", s_volume(), c_volume, 1000, 15000),
    Facet("built", s_built(), c_built, 900, 12000),
]
