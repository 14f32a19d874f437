"""C22: decimating and reconstructing lines."""
from itertools import combinations

from hypothesis import strategies as st

from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Polylines with aligned runs, noise, closed ends and several cells, decimated at tolerances from 0 to coarse, against a "
    "reference recursion; shuffled points on convex and arbitrary curves reconstructed from any start, open or closed, against "
    "2-opt optimality and the convex order. Non-trivial: at least one vertex is dropped, or the input order is not the shortest."
)


@st.composite
def s_rdp(draw):
    lines = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(2, 9))
        kind = draw(st.sampled_from(["free", "aligned", "noise"]))
        pts = []
        if kind == "free":
            pts = draw(st.lists(gen.point3(-4, 4), min_size=n, max_size=n))
        else:
            # Aligned points between corners
            cor = draw(st.lists(st.tuples(gen.num(-4, 4), gen.num(-4, 4)), min_size=2, max_size=4))
            for a, b in zip(cor, cor[1:]):
                k = draw(st.integers(1, 4))
                for i in range(k):
                    t = i / k
                    e = draw(st.sampled_from([0.0, 0.01, -0.02])) if kind == "noise" and i else 0.0
                    pts.append([a[0] + t * (b[0] - a[0]) + e, a[1] + t * (b[1] - a[1]), e])
            pts.append([*cor[-1], 0.0])
        if draw(st.sampled_from([False, False, True])) and len(pts) > 3:
            pts[-1] = list(pts[0])
        lines.append({"p": pts, "close": draw(st.sampled_from([False, False, True]))})
    return {"lines": lines, "tol": draw(st.sampled_from([None, 0.0, 1e-6, 0.05, 0.5, 2.0])), "off": draw(st.sampled_from([0.0, 0.0, 0.0, 500.0, 2.0**22])), "verts": draw(st.booleans())}


@st.composite
def s_long(draw):
    """Long lines."""
    rng = np.random.default_rng(draw(st.integers(0, 10**9)))
    lines = []
    for _ in range(rng.integers(1, 4)):
        n = int(rng.integers(20, 300))
        step = rng.normal(size=(n, 3)) * [1.0, 1.0, rng.choice([0.0, 0.3])]
        p = np.cumsum(step, axis=0) if rng.random() < 0.5 else np.column_stack([np.arange(n) * 0.2, np.sin(np.arange(n) * 0.2) * 3.0 + 0.05 * step[:, 1], step[:, 2]])
        lines.append({"p": p.tolist(), "close": bool(rng.random() < 0.3)})
    return {"lines": lines, "tol": float(rng.choice([0.05, 0.2, 0.5, 2.0])), "off": 0.0, "verts": bool(rng.random() < 0.5)}


def rdp(p, tol):
    """Indices kept; None when the farthest point is not unique or too close to the tolerance."""
    if len(p) == 2:
        return [0, 1]
    u = p[-1] - p[0]
    n = np.linalg.norm(u)
    if n > 0.0:
        d = np.array([np.linalg.norm(q - p[0] - np.dot(q - p[0], u) / n**2 * u) for q in p])
    else:
        d = np.linalg.norm(p - p[0], axis=1)
    if 0.0 < n < 1e-6:
        return None
    if np.abs(p).max() > 1e5 and (np.abs(d - tol) < 1e-7).any():
        return None
    k = int(d.argmax())
    if tol == 0.0 and d[k] < 1e-9:
        # Rounding decides
        return None
    if d[k] <= tol + 1e-10:
        if d[k] > tol - 1e-10 and tol > 1e-7:
            return None
        return [0, len(p) - 1]
    if d[k] < max(tol, 1e-7) + 1e-10:
        return None
    if (np.abs(np.delete(d, k) - d[k]) < (1e-9 if np.abs(p).max() < 1e5 else 1e-7)).any():
        return None
    a, b = rdp(p[: k + 1], tol), rdp(p[k:], tol)
    if a is None or b is None:
        return None
    return a[:-1] + [k + i for i in b]


def c_rdp(s, rec):
    pts, lines, ref = [], [], []
    dropped = 0
    tol = 1e-8 if s["tol"] is None else s["tol"]
    if s["off"] > 1e5 and tol < 1e-6:
        # Rounding decides
        rec.label("ambiguous")
        return
    for line in s["lines"]:
        p = [q for i, q in enumerate(line["p"]) if i == 0 or q != line["p"][i - 1]]
        if len(p) < 2:
            p = [p[0], [p[0][0] + 1.0, p[0][1], p[0][2]]]
        p = np.array(p) + s["off"]
        ids = list(range(len(pts), len(pts) + len(p)))
        if line["close"]:
            # Closed on the same point
            ids.append(ids[0])
        q = np.array([*p, p[0]]) if line["close"] else p
        k = [0, 1] if len(q) == 2 else rdp(q, tol)
        if k is None or (line["close"] and len(q) < 4):
            rec.label("ambiguous")
            return
        if len(k) == 2 and np.array_equal(q[0], q[-1]):
            # A closed line within the tolerance
            rec.label("collapsed")
            return
        lines += [len(ids), *ids]
        pts += p.tolist()
        ref.append(q[k])
        dropped += len(q) - len(k)
    kw = {"verts": [1, 0]} if s["verts"] else {}
    m = pv.PolyData(np.array(pts), lines=lines, **kw)
    before = geo.snapshot(m)
    out = pvg.decimate_rdp(m) if s["tol"] is None else pvg.decimate_rdp(m, s["tol"])
    geo.unchanged(before, geo.snapshot(m), "input of decimate_rdp")
    require(isinstance(out, pv.PolyData), "type of the decimated line")
    got = []
    x = np.asarray(out.points, dtype=float)
    a = list(map(int, out.lines))
    i = 0
    while i < len(a):
        got.append(x[a[i + 1 : i + 1 + a[i]]])
        i += 1 + a[i]
    geo.same(len(got), len(ref), "number of decimated lines")
    for g, r in zip(got, ref):
        geo.close(g, r, "vertices of a decimated line", tol=1e-12)
    rec.label(f"tol:{s['tol']}", f"lines:{len(ref)}")
    rec.nontrivial(dropped > 0)


# ------------------------------------------------------------------ reconstruction
@st.composite
def s_rec(draw, many=False):
    n = draw(st.integers(20, 40) if many else st.integers(3, 9))
    return {
        "n": n,
        "kind": draw(st.sampled_from(["convex", "free", "line", "free3", "dup"])),
        "perm": draw(st.permutations(range(n))),
        "seed": draw(st.integers(0, 1000)),
        "start": draw(st.one_of(st.none(), st.integers(0, n - 1))),
        "close": draw(st.sampled_from([None, True, False])),
        "form": draw(st.sampled_from(["array", "list", "poly", "2d", "ugrid", "single"])),
        "tol": draw(st.sampled_from([None, None, 0.0, 1e-3])),
        # Far from the origin, as geographic coordinates are
        "far": draw(st.sampled_from([0, 0, 0, 1])),
    }


def length(p, close):
    d = np.diff(np.vstack([p, p[:1]]) if close else p, axis=0)
    return float(np.linalg.norm(d, axis=1).sum())


def chain(m):
    """Points of a single line, whether made of one polyline or of consecutive segments."""
    a = list(map(int, m.lines))
    ids, i = [], 0
    while i < len(a):
        c = a[i + 1 : i + 1 + a[i]]
        if ids:
            require(c[0] == ids[-1], f"segment {c} does not start where the line ends ({ids[-1]})")
            c = c[1:]
        ids += c
        i += 1 + a[i]
    return ids


def c_rec(s, rec):
    n = s["n"]
    rng = np.random.default_rng(s["seed"])
    if s["kind"] == "convex":
        t = np.sort(2 * np.pi * (np.arange(n) + 0.6 * rng.random(n)) / n)
        p = np.column_stack([3 * np.cos(t), 2 * np.sin(t), np.zeros(n)])
    elif s["kind"] == "line":
        p = np.column_stack([np.cumsum(0.5 + rng.random(n)), np.zeros(n), np.zeros(n)])
    elif s["kind"] == "dup":
        p = rng.integers(0, rng.integers(1, 4), (n, 3)) * [2.0, 1.0, 0.5]
    else:
        p = rng.random((n, 3)) * [4.0, 3.0, 2.0 if s["kind"] == "free3" else 0.0]
    p = p[s["perm"]] + (np.array([2.0**19, 2.0**22, 0.0]) if s.get("far") and s["form"] != "single" else 0.0) + (0.0 if s["form"] == "2d" else 1.5)
    if s["form"] == "2d":
        p[:, 2] = 0.0
        arg = p[:, :2].copy()
    elif s["form"] == "list":
        arg = p.tolist()
    elif s["form"] == "poly":
        arg = pv.PolyData(p.copy())
    elif s["form"] == "ugrid":
        arg = pv.PolyData(p.copy()).cast_to_unstructured_grid()
    elif s["form"] == "single":
        arg = p.astype(np.float32)
        p = arg.astype(float)
    else:
        arg = p.copy()
    kw = {}
    if s.get("tol") is not None:
        kw["tolerance"] = s["tol"]
    eps = 1e-5 if s["form"] in ("single", "poly", "ugrid") else 1e-6
    if s["start"] is not None:
        kw["start"] = s["start"]
    if s["close"] is not None:
        kw["close"] = s["close"]
    close = bool(s["close"])
    start = s["start"] or 0
    out = pvg.reconstruct_line(arg, **kw)
    if isinstance(arg, np.ndarray):
        geo.array_equal(arg, p[:, : arg.shape[1]], "input of reconstruct_line")
    require(isinstance(out, pv.PolyData), "type of the line")
    x = np.asarray(out.points, dtype=float)
    path = x[chain(out)]
    if close:
        geo.close(path[0], path[-1], "end of a closed line", tol=1e-7)
        path = path[:-1]
    if s["kind"] == "dup":
        geo.close(np.array(sorted(path.tolist())), np.array(sorted(p.tolist())), "points of the line", tol=1e-6)
        geo.close(path[0], p[start], "start of the line", tol=1e-6)
        q = path
    else:
        idx = geo.match(path - p[0], p - p[0], "points of the line", tol=1e-6)
        geo.same(sorted(idx.tolist()), list(range(n)), "points of the line")
        geo.same(int(idx[0]), start, "start of the line")
        q = p[idx]
    cur = length(q, close)
    ini = length(np.roll(p, -start, axis=0), close)
    require(cur <= ini * (1 + eps), f"line is longer ({cur}) than its points in order ({ini})")
    for a, b in combinations(range(1, n + 1), 2):
        if b - a < 2:
            continue
        r = q.copy()
        r[a:b] = r[a:b][::-1]
        require(length(r, close) >= cur * (1 - eps - (s.get("tol") or 0.0)) - 1e-12, f"reversing points {a} to {b - 1} shortens the line from {cur} to {length(r, close)}")
    if s["kind"] == "convex" and close and not s.get("tol"):
        # Same cyclic order as the outline
        k = [s["perm"][i] for i in idx]
        k = k[k.index(0) :] + k[: k.index(0)]
        require(k in (list(range(n)), [0, *range(n - 1, 0, -1)]), f"order of points of a convex outline: {k}")
    if s["kind"] == "line" and not close and s["perm"][start] == 0 and not s.get("tol") and n < 10:
        geo.same([s["perm"][i] for i in idx], list(range(n)), "order of aligned points")
    rec.label(s["kind"], f"close:{s['close']}", s["form"], f"tol:{s.get('tol')}")
    rec.nontrivial(cur < ini * (1 - 1e-9))


def c_bad(s, rec):
    geo.raises(ValueError, lambda: pvg.reconstruct_line(np.zeros((4, s["c"]))), f"points with {s['c']} coordinates")
    rec.nontrivial()


FACETS = [
    Facet("decimate", s_rdp(), c_rdp, 1500, 15000),
    Facet("reconstruct", s_rec(), c_rec, 1000, 10000),
    Facet("decimate_long", s_long(), c_rdp, 60, 600),
    Facet("reconstruct_many", s_rec(True), c_rec, 60, 600),
    Facet("reject", st.fixed_dictionaries({"c": st.sampled_from([1, 4, 5])}), c_bad, 5, 5),
]
