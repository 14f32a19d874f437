"""C21: splitting and merging lines."""
import random

from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Polydata with several polylines and segments that share or revisit points, mixed with vertices and faces, with point and "
    "cell data (scalars, components, strings); lines and data of the split and merged results, in order, against the generated "
    "ones. Non-trivial: >= 2 lines."
)


@st.composite
def many_lines(draw, n):
    rng = random.Random(draw(st.integers(0, 10**6)))
    k = draw(st.sampled_from([1, 3, 20, 150]))
    return [rng.sample(range(n), rng.randint(2, n if k < 20 else 6)) for _ in range(k)]


@st.composite
def s_poly(draw, many=False):
    n = draw(st.integers(40, 160) if many else st.integers(3, 8))
    return {
        "n": n,
        "seed": draw(st.integers(0, 1000)),
        "off": draw(gen.offset),
        "lines": draw(many_lines(n)) if many else draw(st.lists(st.lists(st.integers(0, n - 1), min_size=2, max_size=5, unique=True), min_size=1, max_size=4)),
        "verts": draw(st.lists(st.integers(0, n - 1), max_size=2)),
        "faces": draw(st.integers(0, 2)),
        "data": draw(B.data(3, where=("cell", "point"))),
        "names": draw(st.booleans()),
        "f32": draw(st.sampled_from([False, False, True])),
        # Unit of length
        "unit": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-6, 1e5])),
    }


def build(s, k=0):
    """PolyData and [(ids, cell index)] of its lines; points are shared by all builds with the same seed."""
    rng = np.random.default_rng(s["seed"])
    k8 = max(8, s["n"])
    p = rng.permutation(5 * k8)[:k8, None] * np.array([[1.1, 0.0, 0.0]]) + rng.random((k8, 3))
    p = ((p + s["off"]) * s.get("unit", 1.0))[: s["n"]]
    if s["f32"]:
        p = p.astype(np.float32)
    kw = {"lines": [x for c in s["lines"] for x in (len(c), *c)]}
    if s["verts"]:
        kw["verts"] = [x for v in s["verts"] for x in (1, v)]
    if s["faces"]:
        kw["faces"] = [3, 0, 1, 2] * s["faces"]
    m = pv.PolyData(p, **kw)
    data = {}
    for d in s["data"]:
        if d["where"] == "cell":
            v = B.data_array({**d, "seed": d["seed"] + k}, m.n_cells)
            m.cell_data[d["name"]] = v
        else:
            v = B.data_array(d, k8)[: m.n_points]
            m.point_data[d["name"]] = v
        data[d["name"]] = (d["where"], v)
    if s["names"]:
        v = np.array([f"line {i + k}" * (1 + i % 2) for i in range(m.n_cells)])
        m.cell_data["names"] = v
        data["names"] = ("cell", v)
    return m, np.asarray(p, dtype=float), [(c, len(s["verts"]) + i) for i, c in enumerate(s["lines"])], data


def check_data(out, data, cells, points, msg):
    for name, (where, v) in data.items():
        if where == "cell":
            require(name in out.cell_data, f"{msg}: cell data is lost")
            got, exp = np.asarray(out.cell_data[name]), v[cells]
        else:
            require(name in out.point_data, f"{msg}: point data is lost")
            got, exp = np.asarray(out.point_data[name]), v[points]
        if exp.dtype.kind == "U":
            geo.same(got.tolist(), exp.tolist(), f"{msg}: {where} data")
        else:
            B.same_data(got, exp, f"{msg}: {where} data")


def segments(lines):
    """Lines array as a list of lists."""
    out, i = [], 0
    lines = list(map(int, lines))
    while i < len(lines):
        out.append(lines[i + 1 : i + 1 + lines[i]])
        i += 1 + lines[i]
    return out


def c_split(s, rec):
    m, p, lines, data = build(s)
    before = geo.snapshot(m)
    for as_lines in (None, True, False):
        kw = {} if as_lines is None else {"as_lines": as_lines}
        out = pvg.split_lines(m, **kw)
        geo.unchanged(before, geo.snapshot(m), "input of split_lines")
        geo.same(len(out), len(lines), "number of lines")
        for x, (ids, cid) in zip(out, lines):
            require(isinstance(x, pv.PolyData), "type of a line")
            geo.close(x.points, p[ids], "points of a line", tol=1e-12)
            n = len(ids)
            exp = [list(range(n))] if as_lines is False else [[i, i + 1] for i in range(n - 1)]
            geo.same(segments(x.lines), exp, "cells of a line")
            geo.same(x.n_cells, len(exp), "number of cells of a line")
            check_data(x, data, [cid] * len(exp), ids, "split line")
    rec.label(f"verts:{bool(s['verts'])}", f"faces:{bool(s['faces'])}")
    rec.nontrivial(len(lines) > 1)


@st.composite
def s_merge(draw, many=False):
    first = draw(s_poly(many))
    first["off"] = draw(st.sampled_from([0.0, 12.5, 1000.25]))
    out = [first]
    for _ in range(draw(st.integers(0, 2))):
        x = draw(s_poly(many))
        # Same points and arrays, other lines
        out.append({**first, "lines": [[q % first["n"] for q in c] for c in x["lines"]], "verts": x["verts"] and [0], "faces": x["faces"], "names": x["names"]})
    for x in out:
        x["lines"] = [c for c in x["lines"] if len(set(c)) == len(c)] or [[0, 1]]
    return {"polys": out, "as_lines": draw(st.sampled_from([None, True, False])), "drop": draw(st.booleans()), "real": draw(st.sampled_from([None, None, 0, 1, 2]))}


def c_merge(s, rec):
    built = [build(x, 10 * k) for k, x in enumerate(s["polys"])]
    keys = set(built[0][3])
    if len(built) > 1 and s.get("real") is not None:
        # Integers in some polydata, real numbers in others
        m, _, _, data = built[s["real"] % len(built)]
        for name, (where, v) in data.items():
            if where == "cell" and v.dtype.kind in "iu":
                data[name] = (where, v + 0.25)
                m.cell_data[name] = data[name][1]
    if s["drop"] and len(built) > 1 and "d0" in keys:
        # An array of a single polydata is not common
        m = built[1][0]
        (m.cell_data if built[1][3]["d0"][0] == "cell" else m.point_data).remove("d0")
        del built[1][3]["d0"]
    for b in built[1:]:
        keys &= set(b[3])
    before = [geo.snapshot(b[0]) for b in built]
    kw = {} if s["as_lines"] is None else {"as_lines": s["as_lines"]}
    out = pvg.merge_lines([b[0] for b in built], **kw)
    for a, b in zip(before, built):
        geo.unchanged(a, geo.snapshot(b[0]), "input of merge_lines")
    p = built[0][1]
    idx = geo.match(out.points, p, "points of merged lines", tol=1e-12 if not s["polys"][0]["f32"] else 1e-7)
    used = sorted({q for b in built for ids, _ in b[2] for q in ids})
    geo.same(sorted(idx.tolist()), used, "points of merged lines")
    got = [[int(idx[q]) for q in c] for c in segments(out.lines)]
    exp, src = [], []
    for k, b in enumerate(built):
        for ids, cid in b[2]:
            new = [ids] if s["as_lines"] is False else [list(q) for q in zip(ids, ids[1:])]
            exp += new
            src += [(k, cid)] * len(new)
    geo.same(got, exp, "cells of merged lines")
    geo.same(out.n_cells, len(exp), "number of cells of merged lines")
    geo.same(sorted(set(out.cell_data.keys()) | set(out.point_data.keys())), sorted(keys), "arrays of merged lines")
    for name in keys:
        where, v = built[0][3][name]
        if where == "point":
            B.same_data(out.point_data[name], v[idx], "merged lines: point data")
        else:
            v = [built[k][3][name][1][c] for k, c in src]
            if v and isinstance(v[0], str):
                geo.same(np.asarray(out.cell_data[name]).tolist(), [str(x) for x in v], "merged lines: cell data")
            else:
                B.same_data(out.cell_data[name], np.array(v), "merged lines: cell data")
    rec.label(f"polys:{len(built)}", f"as_lines:{s['as_lines']}")
    rec.nontrivial(len(exp) > 1)


FACETS = [
    Facet("split", s_poly(), c_split, 1200, 12000),
    Facet("merge", s_merge(), c_merge, 1200, 12000),
    Facet("split_many", s_poly(True), c_split, 60, 600),
    Facet("merge_many", s_merge(True), c_merge, 60, 600),
]
