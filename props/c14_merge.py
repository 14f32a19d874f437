"""C14: merge()."""
import random
from collections import Counter

from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Structured grids (2D or 3D, curvilinear) and unstructured surfaces are cut into 2-4 pieces that are merged back; "
    "nodes, cells and data against the uncut mesh. Non-trivial: a piece has more than one cell, or carries "
    "multi-component data, or pieces are not merged in a trivial way (axis other than the last, mixed types)."
)


# ------------------------------------------------------------------ structured
@st.composite
def s_struct(draw, many=False):
    axis = draw(st.integers(0, 2))
    dims = [draw(st.integers(1, 3)) for _ in range(3)]
    if draw(st.booleans()):
        dims[draw(st.sampled_from([i for i in range(3) if i != axis]))] = 0
    n = draw(st.integers(8, 40) if many else st.integers(2, 4))
    dims[axis] = n + draw(st.integers(0, 9)) if many else max(dims[axis], n)
    cuts = sorted(draw(st.lists(st.integers(1, dims[axis] - 1), min_size=min(n - 1, dims[axis] - 1), max_size=min(n - 1, dims[axis] - 1), unique=True)))
    return {
        "axis": axis,
        "dims": dims,
        "cuts": cuts,
        "seed": draw(st.integers(0, 100)),
        "off": draw(gen.offset),
        "data": draw(B.data(3)),
        "partial": draw(st.sampled_from([None, None, 0, 1])),
        # Pieces whose integer data are given as real numbers
        "real": draw(st.sampled_from([[], [], [0], [1], [1, 3], [0, 2], [2]])),
        "bad": draw(st.sampled_from([None, None, None, "x", "y", "z", "axis"])),
    }


def points_of(s):
    rng = np.random.default_rng(s["seed"])
    n = [d + 1 if d else 1 for d in s["dims"]]
    g = np.stack(np.meshgrid(*[np.arange(k, dtype=float) for k in n], indexing="ij"), axis=-1)
    g += rng.integers(-3, 4, g.shape) / 10.0
    return g + s["off"]


def grid(p):
    return pv.StructuredGrid(*[p[..., i].copy() for i in range(3)])


def c_struct(s, rec):
    ax = s["axis"]
    p = points_of(s)
    edges = [0, *s["cuts"], s["dims"][ax]]
    shape = [max(1, d) for d in s["dims"]]
    data = {d["name"]: B.data_array(d, int(np.prod(shape))) for d in s["data"]}
    real = [k for k in s.get("real", []) if k < len(edges) - 1]
    if real:
        for name, v in data.items():
            if v.dtype.kind in "biu":
                data[name] = v.astype(float)
    ints = {d["name"] for d in s["data"] if real and not d["dtype"].startswith("float")}
    for name in ints:
        at = np.arange(len(data[name])).reshape(shape, order="F")
        for k in real:
            sl = [slice(None)] * 3
            sl[ax] = slice(edges[k], edges[k + 1])
            data[name][at[tuple(sl)].ravel()] += 0.25
    pieces = []
    for k, (a, b) in enumerate(zip(edges, edges[1:])):
        sl = [slice(None)] * 3
        sl[ax] = slice(a, b + 1)
        m = grid(p[tuple(sl)])
        sl[ax] = slice(a, b)
        for name, v in data.items():
            cut = v.reshape((*shape, *v.shape[1:]), order="F")[tuple(sl)]
            cut = cut.reshape((-1, *v.shape[1:]), order="F")
            m.cell_data[name] = cut.astype(int) if name in ints and k not in real else cut
        if s["partial"] == k:
            m.cell_data["only"] = np.arange(m.n_cells)
        pieces.append(m)
    before = [geo.snapshot(m) for m in pieces]
    if s["bad"] == "axis":
        geo.raises(ValueError, lambda: pvg.merge(pieces), "structured grids without axis")
        rec.label("bad:axis")
    elif s["bad"]:
        at = 1 + s["seed"] % (len(pieces) - 1)
        m = pieces[at]
        q = geo.structured_index(m).copy()
        sl = [slice(None)] * 3
        sl[ax] = 0
        i = "xyz".index(s["bad"])
        face = q[tuple(sl)]
        k = tuple(np.random.default_rng(s["seed"]).integers(0, n) for n in face.shape[:2])
        face[k][i] += 0.2 + 1e-4 * abs(s["off"])
        pieces[at] = grid(q)
        geo.raises(ValueError, lambda: pvg.merge(pieces, axis=ax), "structured grids with non-matching interfaces")
        rec.label("bad:interface")
    else:
        m = pvg.merge(pieces, axis=ax)
        require(type(m) is pv.StructuredGrid, f"merged structured grids: {type(m).__name__}")
        geo.same(tuple(m.dimensions), p.shape[:3], "dimensions of the merged grid")
        geo.close(geo.structured_index(m), p, "points of the merged grid")
        geo.same(sorted(m.cell_data.keys()), sorted(data), "arrays of the merged grid")
        for name, v in data.items():
            B.same_data(m.cell_data[name], v, "cell data of the merged grid")
        for a, x in zip(before, pieces):
            geo.unchanged(a, geo.snapshot(x), "input of merge")
    rec.label(f"axis:{ax}", f"pieces:{len(pieces)}", f"2d:{0 in s['dims']}")
    rec.nontrivial(ax != 2 or any(d["comp"] > 1 for d in s["data"]) or 0 in s["dims"])


# ------------------------------------------------------------------ unstructured
@st.composite
def s_unstr(draw):
    return {
        "u": draw(gen.usurf(3)),
        "n": draw(st.integers(2, 4)),
        "assign": draw(st.lists(st.integers(0, 3), min_size=20, max_size=20)),
        "data": draw(B.data(2, where=("cell", "point"))),
        "merge_points": draw(st.sampled_from([None, True, False])),
        "mixed": draw(st.booleans()),
        "axis": draw(st.sampled_from([None, 0, 2])),
    }


@st.composite
def s_many(draw):
    s = draw(meshes.large(s_unstr(), "u"))
    s["n"] = draw(st.integers(2, 40))
    rng = random.Random(draw(st.integers(0, 10**6)))
    s["assign"] = [rng.randint(0, 10**6) for _ in range(400)]
    return s


def c_unstr(s, rec):
    pts, cells = geo.usurf_arrays(s["u"])
    groups = {}
    for k, (c, g) in enumerate(zip(cells, s["assign"] * len(cells))):
        groups.setdefault(g % s["n"], []).append(k)
    data = {d["name"]: (d["where"], B.data_array(d, len(cells) if d["where"] == "cell" else len(pts))) for d in s["data"]}
    pieces, used = [], 0
    exp = Counter()
    allp = [pts]

    def put(m, ids=None, kids=None):
        for name, (where, v) in data.items():
            if where == "cell":
                m.cell_data[name] = v[kids]
            else:
                m.point_data[name] = v[ids]

    for g, ks in groups.items():
        ids = sorted({i for k in ks for i in cells[k][1]})
        new = {i: j for j, i in enumerate(ids)}
        m = geo.make_ugrid(pts[ids], [(cells[k][0], [new[i] for i in cells[k][1]]) for k in ks])
        put(m, ids, ks)
        pieces.append(m)
        used += len(ids)
        for k in ks:
            exp[(frozenset(cells[k][1]), k)] += 1
    extra = 0
    if s["mixed"] or len(pieces) < 2:
        # A structured patch away from the others
        q = np.zeros((2, 2, 1, 3))
        w = np.ptp(pts, axis=0).max() + 5.0
        q[..., 0], q[..., 1], q[..., 2] = np.meshgrid([w, w + 1.0], [0.0, 1.0], [0.0], indexing="ij")
        q += pts.max(axis=0)
        m = grid(q)
        put(m, [0] * 4, [0])
        pieces.append(m)
        extra = 4
        exp[(frozenset(range(len(pts), len(pts) + 4)), 0)] += 1
        allp.append(np.asarray(m.points, dtype=float))
    before = [geo.snapshot(m) for m in pieces]
    kw = {} if s["merge_points"] is None else {"merge_points": s["merge_points"]}
    out = pvg.merge(pieces, axis=s["axis"], **kw)
    require(isinstance(out, pv.UnstructuredGrid), f"merged unstructured grids: {type(out).__name__}")
    n = used + extra if s["merge_points"] is False else len({i for _, c in cells for i in c}) + extra
    geo.same(out.n_points, n, "number of points of the merged grid")
    idx = geo.match(out.points, np.vstack(allp), "points of the merged grid")
    cell_arrays = {k: v for k, (w, v) in data.items() if w == "cell"}
    # Cells keep the order of the pieces
    order = [k for ks in groups.values() for k in ks] + ([0] if extra else [])
    geo.same(out.n_cells, len(order), "number of cells of the merged grid")
    got = Counter()
    src = []
    for name in cell_arrays:
        require(name in out.cell_data, "cell data is lost")
    for name, (w, v) in data.items():
        if w == "point":
            require(name in out.point_data, "point data is lost")
            ref = np.concatenate([v, v[[0] * 4]]) if extra else v
            B.same_data(out.point_data[name], ref[idx], "point data of the merged grid")
    ids_of = {frozenset(c): k for k, (_, c) in enumerate(cells)}
    for i, (t, c) in enumerate(geo.ugrid_cells(out)):
        key = frozenset(int(idx[j]) for j in c)
        k = ids_of.get(key, 0)
        got[(key, k)] += 1
        if key in ids_of:
            geo.same(int(t), cells[k][0], "type of a cell of the merged grid")
        src.append(k)
    require(got == exp, "cells of the merged grid")
    for name, v in cell_arrays.items():
        B.same_data(out.cell_data[name], v[src], "cell data of the merged grid")
    for a, x in zip(before, pieces):
        geo.unchanged(a, geo.snapshot(x), "input of merge")
    rec.label(f"pieces:{len(pieces)}", f"merge_points:{s['merge_points']}", f"mixed:{bool(extra)}")
    rec.nontrivial(len(cells) > 2)


FACETS = [
    Facet("structured", s_struct(), c_struct, 1500, 20000),
    Facet("unstructured", s_unstr(), c_unstr, 1200, 12000),
    Facet("structured_many", s_struct(many=True), c_struct, 60, 600),
    Facet("unstructured_many", s_many(), c_unstr, 40, 400),
]
