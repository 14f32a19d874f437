"""C25: polygons offset by a distance."""
from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require
from props.c07_polygon import star

RULE = (
    "One to three simple polygons (convex, star-shaped, L-shaped, with aligned vertices), either orientation, in the three planes, "
    "given as points or faces, offset outwards and inwards. Non-trivial: concave corners, aligned vertices, several polygons or a plane other than XY."
)


@st.composite
def s_off(draw, n_min=1, n_max=3):
    polys = []
    for _ in range(draw(st.integers(n_min, n_max))):
        kind = draw(st.sampled_from(["star", "rect", "L"]))
        if kind == "star":
            p = draw(star(1.0, 4.0))
        else:
            a, b = draw(gen.pos(6.0, 1.0)), draw(gen.pos(6.0, 1.0))
            p = [[0.0, 0.0], [a, 0.0], [a, b], [0.0, b]] if kind == "rect" else [[0.0, 0.0], [2 * a, 0.0], [2 * a, b], [a, b], [a, 2 * b], [0.0, 2 * b]]
        for i in sorted(draw(st.lists(st.integers(0, len(p) - 1), max_size=2, unique=True)), reverse=True):
            # Vertex along an edge
            q = p[(i + 1) % len(p)]
            p.insert(i + 1, [(p[i][0] + q[0]) / 2.0, (p[i][1] + q[1]) / 2.0])
        k = draw(st.integers(0, len(p) - 1))
        p = p[k:] + p[:k]
        if draw(st.booleans()):
            p = p[::-1]
        o = [draw(gen.offset), draw(gen.offset)]
        polys.append({"p": [[x + o[0], y + o[1]] for x, y in p], "axis": draw(st.sampled_from([2, 2, 0, 1])), "w": draw(gen.num(-20, 20))})
    return {"polys": polys, "d": draw(st.sampled_from([0.5, -0.5, 0.125, -0.03, 2.0, -2.0, 1, 0.0, 0])), "form": draw(st.sampled_from(["array", "list", "face", "face"])), "far": draw(st.sampled_from([0, 0, 0, 1]))}


def cross(u, v):
    return float(u[0] * v[1] - u[1] * v[0])


def offset(p, d):
    """Vertices at the intersection of edges moved outwards by d."""
    p = np.asarray(p, dtype=float)
    n = len(p)
    s = 1.0 if geo.signed_area2(p) > 0.0 else -1.0
    out = []
    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]
        u, v = (b - a) / np.linalg.norm(b - a), (c - b) / np.linalg.norm(c - b)
        n1, n2 = s * np.array([u[1], -u[0]]), s * np.array([v[1], -v[0]])
        if abs(cross(u, v)) < 1e-7:
            if np.dot(u, v) < 0.0:
                return None
            out.append(b + d * n1)
        else:
            if abs(cross(u, v)) < 0.02 or np.dot(u, v) < -0.995:
                return None
            # n1.x = n1.b + d, n2.x = n2.b + d
            out.append(b + np.linalg.solve(np.array([n1, n2]), [d, d]))
    return np.array(out)


def c_off(s, rec):
    polys = s["polys"] if s["form"] == "face" else s["polys"][:1]
    ref = [offset(q["p"], s["d"]) for q in polys]
    if any(r is None for r in ref):
        rec.label("needle")
        return
    # Far from the origin, as geographic coordinates are
    o = np.array([2.0**19, 2.0**22]) * s.get("far", 0)
    p3 = [geo.place(np.array(q["p"]) + o, q["axis"], q["w"]) for q in polys]
    ref = [geo.place(r, q["axis"], q["w"]) for r, q in zip(ref, polys)]
    if s["form"] == "array":
        arg = p3[0].copy()
    elif s["form"] == "list":
        arg = p3[0].tolist()
    else:
        n = np.cumsum([0] + [len(p) for p in p3])
        arg = pv.PolyData(np.vstack(p3), faces=np.concatenate([[len(p), *range(a, a + len(p))] for p, a in zip(p3, n)]))
    before = geo.snapshot(arg) if s["form"] == "face" else np.array(arg)
    out = pvg.offset_polygon(arg, s["d"])
    if s["form"] == "face":
        geo.unchanged(before, geo.snapshot(arg), "input of offset_polygon")
        require(out is not arg, "the input itself is returned")
    else:
        geo.array_equal(arg, before, "input of offset_polygon")
    require(isinstance(out, pv.PolyData), f"type of the result: {type(out).__name__}")
    geo.same(out.n_faces_strict, len(ref), "number of polygons")
    x = np.asarray(out.points, dtype=float)
    big = max(1.0, max(np.abs(r).max() for r in ref))
    for f, r, q in zip(out.irregular_faces, ref, polys):
        geo.close(x[f] - geo.place([o], q["axis"], 0.0), r, "vertices of the offset polygon", tol=1e-6 if big < 100 else 1e-7)
    concave = any(len({np.sign(round(float(cross(b - a, c - b)), 9)) for a, b, c in zip(np.roll(p, 1, axis=0), p, np.roll(p, -1, axis=0))}) > 1 for p in [np.array(q["p"]) for q in polys])
    rec.label(f"d:{s['d']}", s["form"], "concave" if concave else "convex", *[f"axis:{q['axis']}" for q in polys])
    rec.nontrivial(s["d"] != 0 and (concave or len(polys) > 1 or polys[0]["axis"] != 2))


def c_bad(s, rec):
    if s["kind"] == "lines":
        m = pv.PolyData(np.array([[0.0, 0, 0], [1, 0, 0], [1, 1, 0]]), lines=[3, 0, 1, 2])
    elif s["kind"] == "cloud":
        m = pv.PolyData(np.array([[0.0, 0, 0], [1, 0, 0], [1, 1, 0]]))
    else:
        p = np.array([[0.0, 0, 0], [1, 0, 0], [1, 1, s["z"]], [0, 1, 0]])
        m = np.array(p) if s["kind"] == "array" else pv.PolyData(p, faces=[4, 0, 1, 2, 3])
    d = s["d"] if s["kind"] in ("lines", "cloud") else s["d"] or 1.0
    geo.raises(ValueError, lambda: pvg.offset_polygon(m, d), f"offset of {s['kind']}")
    rec.nontrivial()


FACETS = [
    Facet("offset", s_off(), c_off, 1600, 16000),
    Facet("many", s_off(8, 24), c_off, 40, 400),
    Facet("reject", st.fixed_dictionaries({"kind": st.sampled_from(["lines", "cloud", "array", "face"]), "z": st.sampled_from([0.5, -2.0]), "d": st.sampled_from([1.0, -1.0, 0.0])}), c_bad, 40, 40),
]
