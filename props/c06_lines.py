"""C06: curved and regular lines."""
import math
from random import Random

from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "CurvedLine with generated origin, length, unnormalised directions (parallel, planar, 3D) and "
    "resolution: node count, start, equal segment lengths adding up to the length, uniform turning in "
    "the plane of both directions. RegularLine over generated polylines: node count, both ends kept, every "
    "node at its exact fraction of the arc length. Non-trivial: resolution >= 2 with a bend."
)
TOL = 2.0e-6


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


@st.composite
def s_curved(draw, many=False):
    return {
        "o": draw(gen.point3(-20, 20)),
        "len": draw(gen.pos(20, 0.25)),
        "start": draw(gen.point3(-3, 3)),
        "end": draw(st.one_of(st.none(), gen.point3(-3, 3), gen.point3(-3, 3), gen.pos(3))),
        "n": draw(st.integers(20, 300) if many else st.integers(1, 9)),
        "dim": draw(st.sampled_from([3, 3, 3, 2])),
        "small": draw(st.sampled_from([0, 0, 0, 0.002, 0.005, 0.02, 0.05])),
        "far": draw(st.booleans()),
        # Far from the origin, as geographic coordinates are
        "geo": draw(st.sampled_from([0, 0, 0, 1])),
        "default_n": draw(st.booleans()),
        "as": draw(st.sampled_from(["list", "tuple", "array"])),
    }


def c_curved(s, rec):
    start = np.array(s["start"])
    if s["dim"] == 2:
        start[2] = 0.0
    if np.linalg.norm(start) < 0.1:
        start = np.array([1.0, 0.5, 0.0])
    end = s["end"]
    if isinstance(end, float):
        end = start * end
    elif end is not None:
        end = np.array(end)
        if s["dim"] == 2:
            end[2] = 0.0
        if np.linalg.norm(end) < 0.1 or unit(start) @ unit(end) < -0.99:
            end = start[[1, 0, 2]] + [0.25, 0.0, 0.0]
            if np.linalg.norm(end) < 0.1 or unit(start) @ unit(end) < -0.99:
                end = None
    n, o, length = s["n"], s["o"], s["len"]
    if s["small"]:
        # Slight turn of a long line
        start = unit(start)
        w = np.cross(start, np.eye(3)[np.argmin(np.abs(start))])
        end = np.cos(s["small"]) * start + np.sin(s["small"]) * unit(w)
        o, length = ([0.0, 0.0, 0.0], 20.0) if not s["far"] else (o, 20.0 * n)
    if s.get("geo"):
        o = [o[0] + 2.0**19, o[1] + 2.0**22, o[2] - 1000.0]
    cast = {"list": lambda v: np.asarray(v).tolist(), "tuple": lambda v: tuple(np.asarray(v).tolist()), "array": np.array}[s["as"]]
    kw = {}
    if s["default_n"] and n == 1:
        pass
    else:
        kw["resolution"] = n
    if end is not None:
        kw["end"] = cast(end)
    m = pvg.CurvedLine(cast(o), length, cast(start), **kw)
    p = np.asarray(m.points, dtype=float)
    geo.same(len(p), n + 1, "number of nodes")
    # Relative to the origin
    p = p - np.array(o)
    geo.close(p[0], np.zeros(3), "origin", tol=TOL)
    geo.same(m.lines.tolist(), [n + 1, *range(n + 1)], "polyline")
    d = np.diff(p, axis=0)
    tol = TOL * max(20.0, float(np.abs(p).max()))
    ln = np.linalg.norm(d, axis=1)
    require(np.abs(ln - length / n).max() <= tol, f"segment lengths {ln}, expected {length / n}")
    a = unit(start)
    b = a if end is None else unit(end)
    theta = math.acos(max(-1.0, min(1.0, float(a @ b))))
    # Segment k points at angle (k + 1/2) theta / n from the starting direction, towards the ending one
    w = b - (a @ b) * a
    w = w / np.linalg.norm(w) if np.linalg.norm(w) > 1e-7 else np.zeros(3)
    k = (np.arange(n) + 0.5) / n * theta
    exp = np.cos(k)[:, None] * a + np.sin(k)[:, None] * w
    require(np.abs(d / ln[:, None] - exp).max() <= 4 * tol / ln.min() + 1e-6, "turning of the directions is not uniform from start to end")
    require(len(m.point_data) == 0 and len(m.cell_data) == 0, "data arrays")
    rec.label(f"end:{end is not None}", f"n:{n}", f"small:{s['small']}")
    rec.nontrivial(n > 1 and theta > 0.001)


@st.composite
def s_regular(draw, many=False):
    n = draw(st.integers(9, 60) if many else st.integers(2, 7))
    dim = draw(st.sampled_from([3, 3, 2]))
    if many:
        rng = Random(draw(st.integers(0, 10**6)))
        pts = [[0.25 * rng.randint(-40, 40) for _ in range(dim)] for _ in range(n)]
    else:
        pts = [[draw(gen.num(-10, 10)) for _ in range(dim)] for _ in range(n)]
    return {
        "pts": pts,
        "res": draw(st.one_of(st.none(), st.integers(1, 400) if many else st.integers(1, 12))),
        "dup": draw(st.sampled_from([False, False, True])),
        "geo": draw(st.sampled_from([0, 0, 0, 1])),
        "as": draw(st.sampled_from(["list", "array"])),
    }


def c_regular(s, rec):
    pts = [s["pts"][0]]
    for q in s["pts"][1:]:
        if s["dup"] or np.abs(np.subtract(q, pts[-1])).max() > 1e-6:
            pts.append(q)
    if len(pts) < 2 or all(q == pts[0] for q in pts):
        pts = [s["pts"][0], [x + 1.0 for x in s["pts"][0]]]
    p3 = np.array([q if len(q) == 3 else [*q, 0.0] for q in pts])
    if s.get("geo"):
        p3 = p3 + [2.0**19, 2.0**22, -1000.0]
    if len(pts[0]) == 2 or s.get("geo"):
        pts = p3.tolist()
    arg = pts if s["as"] == "list" else np.array(pts)
    m = pvg.RegularLine(arg) if s["res"] is None else pvg.RegularLine(arg, resolution=s["res"])
    n = s["res"] if s["res"] is not None else len(pts)
    got = np.asarray(m.points, dtype=float)
    geo.same(len(got), n + 1, "number of nodes")
    seg = [float(np.linalg.norm(b - a)) for a, b in zip(p3, p3[1:])]
    cum = [0.0]
    for x in seg:
        cum.append(cum[-1] + x)
    exp = []
    for k in range(n + 1):
        d = cum[-1] * k / n
        i = 0
        while i < len(seg) - 1 and cum[i + 1] < d:
            i += 1
        f = (d - cum[i]) / seg[i] if seg[i] > 0 else 0.0
        exp.append(p3[i] + min(max(f, 0.0), 1.0) * (p3[i + 1] - p3[i]))
    geo.close(got - p3[0], np.array(exp) - p3[0], "nodes at equal arc-length spacing", tol=TOL)
    geo.same(m.lines.tolist(), [n + 1, *range(n + 1)], "polyline")
    rec.label(f"default:{s['res'] is None}", f"n:{len(pts)}")
    rec.nontrivial(n > 1 and len(pts) > 2)


FACETS = [
    Facet("curved", s_curved(), c_curved, 3000, 60000),
    Facet("regular", s_regular(), c_regular, 3000, 60000),
    Facet("curved_many", s_curved(True), c_curved, 150, 2000),
    Facet("regular_many", s_regular(True), c_regular, 150, 2000),
]
