"""C02: surface between two lines."""
from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "StructuredSurface is called with two generated lines (coordinate arrays, polylines, chains of "
    "segments or polygons; any plane keyword; lines that coincide on some points) and every node, "
    "dimension and hidden-cell flag is compared with a reference. Non-trivial: transposed or "
    "non-xy plane, or a collapsed cell, or PolyData input."
)

DIMS = {  # plane -> (axis of the line index, axis of the subdivision index)
    "xy": (0, 1), "yx": (1, 0), "xz": (0, 2), "zx": (2, 0), "yz": (1, 2), "zy": (2, 1),
}


def to_line(points, kind, seed=0):
    points = np.array(points, dtype=float)
    n = len(points)
    if kind == "array":
        return points
    if kind == "list":
        return points.tolist()
    # Points are stored in any order, after unused ones
    rng = np.random.default_rng(seed)
    ids = (rng.permutation(n) if seed else np.arange(n)) + (seed % 3)
    stored = np.full((n + seed % 3, 3), -7.0)
    stored[ids] = points
    if kind == "polyline":
        return pv.PolyData(stored, lines=[n, *ids])
    if kind == "segments":
        return pv.PolyData(stored, lines=np.column_stack([np.full(n - 1, 2), ids[:-1], ids[1:]]).ravel())
    return pv.PolyData(stored, faces=[n, *ids])


SCALE = st.sampled_from([0, 0, 0, -17, -10, 12])  # powers of two: units do not matter


@st.composite
def s_any(draw):
    n = draw(st.integers(3, 5))
    xs = draw(gen.increasing(n, n))
    return {
        "plane": draw(st.sampled_from(sorted(DIMS))),
        "xs": xs,
        "a": draw(st.lists(st.tuples(gen.num(-5, 5), gen.num(-5, 5)).map(list), min_size=n, max_size=n)),
        "b": draw(st.lists(st.tuples(gen.num(-5, 5), gen.num(-5, 5)).map(list), min_size=n, max_size=n)),
        "bx": draw(gen.num(-2, 2)),
        "ka": draw(st.sampled_from(["array", "list", "polyline", "segments", "polygon"])),
        "kb": draw(st.sampled_from(["array", "list", "polyline", "segments", "polygon"])),
        "res": draw(gen.resolution()),
        "perm": draw(st.sampled_from([0, 0, 1, 2, 3, 4])),
        "scale": draw(SCALE),
    }


def c_any(s, rec):
    pa = np.column_stack([s["xs"], s["a"]])
    pb = np.column_stack([np.array(s["xs"]) + s["bx"], s["b"]])
    pa, pb = pa * 2.0 ** s["scale"], pb * 2.0 ** s["scale"]
    ka, kb = s["ka"], s["kb"]
    if (ka == "polygon") != (kb == "polygon"):
        ka = kb = "polygon"
    m = pvg.StructuredSurface(to_line(pa, ka, s["perm"]), to_line(pb, kb, s["perm"]), s["plane"], geo.res_arg(s["res"]), s["res"]["m"])
    require(type(m) is pv.StructuredGrid, "surface is not a structured grid")
    if ka == "polygon":
        pa, pb = np.vstack([pa, pa[:1]]), np.vstack([pb, pb[:1]])
    t = geo.perc(s["res"])
    i, j = DIMS[s["plane"]]
    dims = [1, 1, 1]
    dims[i], dims[j] = len(pa), len(t)
    geo.same(tuple(m.dimensions), tuple(dims), f"dimensions in plane {s['plane']}")
    got = np.moveaxis(geo.structured_index(m), (i, j), (0, 1))[:, :, 0]
    exp = np.stack([pa + x * (pb - pa) for x in t], axis=1)
    tol = 1e-6 if {"polyline", "segments", "polygon"} & {ka, kb} else 1e-9
    geo.close(got / 2.0 ** s["scale"], exp / 2.0 ** s["scale"], f"nodes in plane {s['plane']}", tol=tol)
    rec.label(f"plane:{s['plane']}", f"a:{ka}", f"b:{kb}")
    rec.nontrivial(s["plane"] != "xy" or ka not in ("array", "list"))


@st.composite
def s_collapsed(draw):
    n = draw(st.integers(2, 6))
    return {
        "plane": draw(st.sampled_from(sorted(DIMS))),
        "xs": draw(gen.increasing(n, n)),
        "z": draw(st.lists(gen.num(-3, 3), min_size=n, max_size=n)),
        "h": draw(st.lists(st.sampled_from([0.0, 0.0, 0.25, 1.0, 2.5]), min_size=n, max_size=n)),
        "up": draw(st.booleans()),
        "off": draw(gen.offset),
        "scale": draw(SCALE),
        "kind": draw(st.sampled_from(["array", "polyline", "segments"])),
        "res": draw(gen.resolution(4)),
    }


def c_collapsed(s, rec):
    i, j = DIMS[s["plane"]]
    pa = np.full((len(s["xs"]), 3), s["off"])
    pa[:, i] = s["xs"]
    pa[:, j] = np.array(s["z"]) + s["off"]
    pb = pa.copy()
    pb[:, j] += (1.0 if s["up"] else -1.0) * np.array(s["h"])
    pa, pb = pa * 2.0 ** s["scale"], pb * 2.0 ** s["scale"]
    m = pvg.StructuredSurface(to_line(pa, s["kind"]), to_line(pb, s["kind"]), s["plane"], geo.res_arg(s["res"]), s["res"]["m"])
    t = geo.perc(s["res"])
    col = np.array([a == 0.0 and b == 0.0 for a, b in zip(s["h"], s["h"][1:])])
    exp = np.where(col, 32, 0)[:, None] * np.ones(len(t) - 1, dtype=int)[None]
    got = np.moveaxis(geo.structured_cell_index(m, m.cell_data["vtkGhostType"]), (i, j), (0, 1))[:, :, 0]
    geo.array_equal(got, exp, "hidden-cell flags")
    rec.label(f"plane:{s['plane']}", f"collapsed:{int(col.sum() > 0)}", f"scale:{s['scale']}")
    rec.nontrivial(bool(col.any()) and not bool(col.all()))


@st.composite
def s_bad(draw):
    n = draw(st.integers(2, 5))
    k = draw(st.integers(2, 5))
    return {"n": n, "k": k, "plane": draw(st.sampled_from(["xy", "zz", "x", "", "XY", "zy"])), "poly": draw(st.booleans())}


def c_bad(s, rec):
    a = np.column_stack([np.arange(s["n"]), np.zeros(s["n"]), np.zeros(s["n"])]).astype(float)
    b = np.column_stack([np.arange(s["k"]), np.ones(s["k"]), np.zeros(s["k"])]).astype(float)
    if s["poly"]:
        a, b = to_line(a, "polyline"), to_line(b, "polyline")
    bad = s["n"] != s["k"] or s["plane"] not in DIMS
    if bad:
        geo.raises(ValueError, lambda: pvg.StructuredSurface(a, b, s["plane"]), "inhomogeneous lines or invalid plane")
    else:
        pvg.StructuredSurface(a, b, s["plane"])
    rec.label(f"bad:{bad}")
    rec.nontrivial(bad)


@st.composite
def s_long(draw):
    return {"n": draw(st.integers(900, 3500)), "kind": draw(st.sampled_from(["polyline", "segments", "segments", "polygon"])), "plane": draw(st.sampled_from(sorted(DIMS))), "perm": draw(st.integers(0, 2))}


def c_long(s, rec):
    n = s["n"]
    x = np.arange(n, dtype=float)
    pa = np.column_stack([x, np.sqrt(x), np.zeros(n)])
    pb = pa + [0.5, 3.0, 1.0]
    m = pvg.StructuredSurface(to_line(pa, s["kind"], s["perm"]), to_line(pb, s["kind"], s["perm"]), s["plane"])
    if s["kind"] == "polygon":
        pa, pb = np.vstack([pa, pa[:1]]), np.vstack([pb, pb[:1]])
    i, j = DIMS[s["plane"]]
    dims = [1, 1, 1]
    dims[i], dims[j] = len(pa), 2
    geo.same(tuple(m.dimensions), tuple(dims), f"dimensions for {n} points ({s['kind']})")
    got = np.moveaxis(geo.structured_index(m), (i, j), (0, 1))[:, :, 0]
    geo.close(got, np.stack([pa, pb], axis=1), "nodes of a long surface", tol=1e-6)
    rec.label(s["kind"])
    rec.nontrivial(n > 1001)


@st.composite
def s_default(draw):
    return {
        "omit": draw(st.sampled_from(["a", "b", "ab"])),
        "plane": draw(st.sampled_from([None, *sorted(DIMS)])),
        "p": draw(st.lists(gen.point3(-5, 5), min_size=2, max_size=2)),
        "kind": draw(st.sampled_from(["array", "list", "polyline", "segments"])),
        "res": draw(st.one_of(st.none(), gen.resolution())),
    }


def c_default(s, rec):
    """Omitted lines are the sides of the unit square."""
    lines = {"a": np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]]), "b": np.array([[0.0, 1.0, 0.0], [1.0, 1.0, 0.0]])}
    kw = {}
    for k in "ab":
        if k not in s["omit"]:
            lines[k] = np.array(s["p"])
            kw[f"line_{k}"] = to_line(s["p"], s["kind"])
    if s["plane"]:
        kw["plane"] = s["plane"]
    t = [0.0, 1.0]
    if s["res"] is not None:
        kw.update(resolution=geo.res_arg(s["res"]), method=s["res"]["m"])
        t = geo.perc(s["res"])
    m = pvg.StructuredSurface(**kw)
    i, j = DIMS[s["plane"] or "xy"]
    dims = [1, 1, 1]
    dims[i], dims[j] = 2, len(t)
    geo.same(tuple(m.dimensions), tuple(dims), f"dimensions of StructuredSurface({sorted(kw)})")
    got = np.moveaxis(geo.structured_index(m), (i, j), (0, 1))[:, :, 0]
    exp = np.stack([lines["a"] + x * (lines["b"] - lines["a"]) for x in t], axis=1)
    geo.close(got, exp, f"nodes of StructuredSurface({sorted(kw)})", tol=1e-6)
    rec.label(s["omit"], f"plane:{s['plane']}")
    rec.nontrivial()


FINE = {"nodes": (s_any(), c_any), "collapsed": (s_collapsed(), c_collapsed)}

FACETS = [
    Facet("fine", gen.either(FINE, gen.fine), gen.check_either(FINE), 100, 1000),
    Facet("default", s_default(), c_default, 120, 1000),
    Facet("nodes", s_any(), c_any, 1500, 20000),
    Facet("collapsed", s_collapsed(), c_collapsed, 1500, 20000),
    Facet("reject", s_bad(), c_bad, 120, 200),
    Facet("long", s_long(), c_long, 48, 400),
]
