"""C24: boundaries of surfaces as closed polygons."""
from hypothesis import strategies as st

from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, Violation, require

RULE = (
    "Surfaces of quads, triangles, pixels and polygons with cells removed (several pieces, holes), cells owning copies of their "
    "points, in three planes and as any dataset type; closed surfaces; chains of segments. Loops are rebuilt from edges used by a "
    "single cell. Non-trivial: several loops, or grouped holes."
)


@st.composite
def s_mesh(draw):
    n = draw(st.integers(1, 6)), draw(st.integers(1, 5))
    u = draw(gen.usurf(3, kinds=(0, 1, 2, 3, 4)))
    nx, ny = n
    k = nx * ny
    u["xs"] = draw(gen.increasing(nx + 1, nx + 1))
    u["ys"] = draw(gen.increasing(ny + 1, ny + 1))
    u["kinds"] = draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, 4, 5]), min_size=k, max_size=k))
    u["flip"] = draw(st.lists(st.booleans(), min_size=k, max_size=k))
    if u["jit"]:
        u["jit"] = draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(list), min_size=(nx + 1) * (ny + 1), max_size=(nx + 1) * (ny + 1)))
    return {
        "u": u,
        "drop": draw(st.lists(st.integers(0, 60), max_size=8)) if draw(st.booleans()) else [],
        "at": draw(st.lists(st.tuples(st.integers(1, max(1, nx - 2)), st.integers(1, max(1, ny - 2))).map(list), max_size=3)),
        "col": draw(st.sampled_from([None, None, None, 1, 2])),
        "explode": draw(st.sampled_from([False, False, True])),
        "form": draw(st.sampled_from(["ugrid", "poly"])),
        "fill": draw(st.booleans()),
        "holes": draw(st.booleans()),
        "unused": draw(st.booleans()),
        "defaults": draw(st.booleans()),
    }


def loops_of(rings):
    """Cyclic sequences of vertices along edges of a single cell; None if loops touch."""
    count = {}
    for r in rings:
        for a, b in zip(r, r[1:] + r[:1]):
            e = frozenset((a, b))
            count[e] = count.get(e, 0) + 1
    nei = {}
    for e, c in count.items():
        if c == 1:
            a, b = e
            nei.setdefault(a, []).append(b)
            nei.setdefault(b, []).append(a)
        elif c > 2:
            return None
    if any(len(v) != 2 for v in nei.values()):
        return None
    out, seen = [], set()
    for a in nei:
        if a in seen:
            continue
        loop = [a]
        seen.add(a)
        while True:
            nxt = [b for b in nei[loop[-1]] if b not in seen]
            if not nxt:
                break
            loop.append(nxt[0])
            seen.add(nxt[0])
        out.append(loop)
    return out


def line_ids(m):
    a = list(map(int, m.lines))
    out, i = [], 0
    while i < len(a):
        out.append(a[i + 1 : i + 1 + a[i]])
        i += 1 + a[i]
    return out


def which(path, pts, loops, msg, tol):
    """Index of the loop a closed sequence of coordinates follows."""
    idx = geo.match(path, pts, msg, tol=tol).tolist()
    for i, loop in enumerate(loops):
        if meshes.same_ring(idx, loop) if len(set(idx)) == len(idx) else False:
            return i
    raise Violation(f"{msg}: {idx} is not one of the loops {loops}")


def closed_line(edge, pts, loops, msg, tol):
    require(isinstance(edge, pv.PolyData), f"{msg}: type {type(edge).__name__}")
    lines = line_ids(edge)
    geo.same(len(lines), 1, f"{msg}: number of lines")
    ids = lines[0]
    x = np.asarray(edge.points, dtype=float)
    require(np.abs(x[ids[0]] - x[ids[-1]]).max() <= tol * geo.scale_of(pts), f"{msg}: line is not closed")
    geo.same(edge.n_points, len(ids) - 1, f"{msg}: number of points")
    return which(x[ids[:-1]], pts, loops, msg, tol)


def area(p):
    return float(np.linalg.norm(geo.polygon_normal_area(p)))


def inside(q, poly):
    """Point in polygon, 2D."""
    c = False
    for (x0, y0), (x1, y1) in zip(poly, np.roll(poly, -1, axis=0)):
        if (y0 > q[1]) != (y1 > q[1]) and q[0] < x0 + (q[1] - y0) * (x1 - x0) / (y1 - y0):
            c = not c
    return c


def check(m, pts, loops, axis, fill, holes, rec, defaults=False, fillable=True):
    tol = 1e-6
    before = geo.snapshot(m)
    kw = {"fill": fill, "with_holes": holes}
    if defaults:
        kw = {k: v for k, v in kw.items() if v}
    out = pvg.extract_boundary_polygons(m, **kw)
    geo.unchanged(before, geo.snapshot(m), "input of extract_boundary_polygons")
    if not loops:
        require(out is None, f"boundary of a closed surface: {out}")
        rec.label("closed")
        return
    require(isinstance(out, tuple), f"type of the boundary: {type(out).__name__}")
    keep = [i for i in range(3) if i != axis]
    p2 = [pts[loop][:, keep] for loop in loops]
    if not holes:
        geo.same(len(out), len(loops), "number of boundaries")
        got = []
        for poly in out:
            got.append(closed_line(poly, pts, loops, "boundary", tol))
            if fill:
                require(poly.n_faces_strict == 1, f"filled boundary has {poly.n_faces_strict} faces")
                x = np.asarray(poly.points, dtype=float)
                geo.same(which(x[np.asarray(poly.irregular_faces[0])], pts, loops, "filled boundary", tol), got[-1], "face of a boundary")
            else:
                require(poly.n_faces_strict == 0, "boundary has faces")
        geo.same(sorted(got), list(range(len(loops))), "boundaries")
        return
    # Holes: loops inside an odd number of other ones, the smallest of which owns it
    owner = {}
    depth = 0
    for i, a in enumerate(p2):
        best = [j for j, b in enumerate(p2) if j != i and inside(a.mean(axis=0) * 0 + a[0], b) and all(inside(q, b) or on_ring(q, b) for q in a)]
        depth = max(depth, len(best))
        if len(best) % 2:
            owner[i] = min(best, key=lambda j: area(pts[loops[j]]))
    outer = [i for i in range(len(loops)) if i not in owner]
    geo.same(len(out), len(outer), "number of polygons")
    if not fill:
        got = {}
        for group in out:
            require(isinstance(group, list), f"type of a polygon with holes: {type(group).__name__}")
            ids = [closed_line(e, pts, loops, "boundary", tol) for e in group]
            require(ids[0] not in got, "polygon listed twice")
            got[ids[0]] = sorted(ids[1:])
        geo.same(got, {i: sorted(k for k, v in owner.items() if v == i) for i in outer}, "holes of polygons")
    else:
        left = list(outer)
        for poly in out:
            require(isinstance(poly, pv.UnstructuredGrid), f"type of a filled polygon: {type(poly).__name__}")
            x = np.asarray(poly.points, dtype=float)
            a = sum(area(x[geo.ring(t, list(c))]) for t, c in geo.ugrid_cells(poly) if t != geo.CT.VERTEX)
            for i in left:
                ref = area(pts[loops[i]]) - sum(area(pts[loops[k]]) for k, v in owner.items() if v == i)
                lo, hi = pts[loops[i]].min(axis=0), pts[loops[i]].max(axis=0)
                t = tol * geo.scale_of(pts)
                if abs(a - ref) <= 10 * t * max(1.0, float((hi - lo).max())) and np.abs(x.min(axis=0) - lo).max() < t and np.abs(x.max(axis=0) - hi).max() < t:
                    left.remove(i)
                    break
            else:
                raise Violation(f"filled polygon of area {a} matches no boundary")
        rec.label("meshed")
    rec.label("holes" if owner else "no hole", f"depth:{depth}")
    if owner:
        rec.nontrivial()


def on_ring(q, ring):
    return any(np.abs(np.asarray(q) - r).max() < 1e-12 for r in ring)


def c_mesh(s, rec):
    pts, cells = geo.usurf_arrays(s["u"])
    drop = {d % len(cells) for d in s["drop"]}
    keep = [i for i in range(3) if i != s["u"]["axis"]]
    for i, (_, c) in enumerate(cells):
        q = pts[c].mean(axis=0)[keep]
        at = [int(np.searchsorted(s["u"]["xs"], q[0])) - 1, int(np.searchsorted(s["u"]["ys"], q[1])) - 1]
        if at in s["at"] or (s["col"] is not None and at[0] == s["col"]):
            drop.add(i)
    cells = [c for i, c in enumerate(cells) if i not in drop] or cells
    if s["form"] == "poly":
        cells = [(t, geo.ring(t, list(c))) for t, c in cells]
    # A wide polygon next to two cells has a vertex in the middle of its edge: same vertices on both sides
    rings = [geo.ring(t, list(c)) if s["form"] == "ugrid" else list(c) for t, c in cells]
    loops = loops_of(rings)
    if loops is None:
        rec.label("touching")
        return
    p, ids = pts, [list(c) for _, c in cells]
    if s["explode"]:
        p = np.vstack([pts[c] for c in ids])
        n = np.cumsum([0] + [len(c) for c in ids])
        ids = [list(range(a, b)) for a, b in zip(n, n[1:])]
    elif s["unused"]:
        p = np.vstack([p, p.max(axis=0) + 1.0])
    if s["form"] == "poly":
        m = pv.PolyData(p, faces=np.concatenate([[len(c), *c] for c in ids]).astype(int))
    else:
        m = meshes.ugrid(p, [(t, c) for (t, _), c in zip(cells, ids)])
    m.cell_data["a"] = np.arange(len(ids))
    check(m, pts, loops, s["u"]["axis"], s["fill"], s["holes"], rec, s["defaults"])
    rec.label(f"axis:{s['u']['axis']}", f"fill:{s['fill']}", f"with:{s['holes']}", f"loops:{min(len(loops), 4)}", f"explode:{s['explode']}")
    rec.nontrivial(len(loops) > 1)


PIECES = [
    # A piece in the notch of another one
    ["#####", "#....", "#.##.", "#.##.", "#...."],
    ["#####", "#...#", "#.#.#", "#.#.#", "#.#.#"],
    ["#..##", "#....", "#.##.", "#.##.", "###.."],
    # Pieces in holes of other ones
    ["#####", "#...#", "#.#.#", "#...#", "#####"],
    ["#######", "#.....#", "#.###.#", "#.#.#.#", "#.###.#", "#.....#", "#######"],
    ["#########", "#...#...#", "#.#.#.#.#", "#...#...#", "#########"],
    ["#########", "#.......#", "#.#####.#", "#.#...#.#", "#.#.#.#.#", "#.#...#.#", "#.#####.#", "#.......#", "#########"],
    ["#######..", "#.....#..", "#.###.#.#", "#.#.#.#.#", "#.###.#..", "#.....#.#", "#######.#"],
    # Holes of any shape, next to one another
    ["######", "#..#.#", "#.##.#", "####.#", "######"],
    ["######", "#.##.#", "######", "#..#.#", "######"],
    ["#######", "#.#...#", "#.###.#", "#.....#", "#######"],
]


@st.composite
def s_pieces(draw):
    return {
        "k": draw(st.integers(0, len(PIECES) - 1)),
        "turn": draw(st.integers(0, 7)),
        "xs": draw(gen.increasing(10, 10)),
        "ys": draw(gen.increasing(10, 10)),
        "axis": draw(st.integers(0, 2)),
        "perm": draw(st.integers(0, 1000)),
        "tri": draw(st.booleans()),
        "fill": draw(st.booleans()),
        "holes": draw(st.sampled_from([True, True, True, False])),
    }


def c_pieces(s, rec):
    """Pieces in the notches and holes of others."""
    import random

    a = np.array([[c == "#" for c in row] for row in PIECES[s["k"]]])
    a = np.rot90(a, s["turn"] % 4)
    a = a.T if s["turn"] > 3 else a
    nx, ny = a.shape
    pts = geo.place([[x, y] for x in s["xs"][: nx + 1] for y in s["ys"][: ny + 1]], s["axis"], 0.5)
    cells = []
    for i, j in zip(*np.nonzero(a)):
        k = int(i * (ny + 1) + j)
        q = [k, k + ny + 1, k + ny + 2, k + 1]
        if s["tri"] and (i + j) % 2:
            cells += [q[:3], [q[0], *q[2:]]]
        else:
            cells.append(q)
    random.Random(s["perm"]).shuffle(cells)
    loops = loops_of(cells)
    require(loops is not None, "template with touching loops")
    m = meshes.ugrid(pts, [(int(geo.CT.TRIANGLE if len(c) == 3 else geo.CT.QUAD), c) for c in cells])
    check(m, pts, loops, s["axis"], s["fill"], s["holes"], rec)
    rec.label(f"piece:{s['k']}", f"fill:{s['fill']}", f"with:{s['holes']}")
    rec.nontrivial()


@st.composite
def s_grid(draw):
    g = draw(gen.ssurf(5, wobble=False))
    # PyVista casts grids without explicit points in single precision: near the origin
    far = max(map(abs, g["xs"])) > 1.0e5
    return {
        "kind": "s" if far else draw(st.sampled_from(["s", "i", "r"])),
        "g": g,
        "fill": draw(st.booleans()),
        "holes": draw(st.booleans()),
    }


def c_grid(s, rec):
    g = s["g"]
    if s["kind"] != "s":
        g = {**g, "shear": 0.0}
        if s["kind"] == "i":
            g["xs"] = [g["xs"][0] + i for i in range(len(g["xs"]))]
            g["ys"] = [g["ys"][0] + 2 * i for i in range(len(g["ys"]))]
    a = geo.ssurf_points(g)
    ax = g["axis"]
    keep = [i for i in range(3) if i != ax]
    if s["kind"] == "s":
        m = geo.build_ssurf(g)
    else:
        c = [None] * 3
        c[keep[0]], c[keep[1]], c[ax] = g["xs"], g["ys"], [g["w"]]
        if s["kind"] == "r":
            m = pv.RectilinearGrid(*[np.array(v, dtype=float) for v in c])
        else:
            m = pv.ImageData(dimensions=[len(v) for v in c], origin=[v[0] for v in c], spacing=[1.0 if i != keep[1] else 2.0 for i in range(3)])
    nx, ny = a.shape[:2]
    pts = a.reshape(-1, 3)
    loop = [(i, 0) for i in range(nx)] + [(nx - 1, j) for j in range(1, ny)] + [(i, ny - 1) for i in range(nx - 2, -1, -1)] + [(0, j) for j in range(ny - 2, 0, -1)]
    check(m, pts, [[i * ny + j for i, j in loop]], ax, s["fill"], s["holes"], rec)
    rec.label(s["kind"])
    rec.nontrivial(len(loop) > 4)


def c_long(s, rec):
    """Boundaries of any length remain in one piece."""
    nx, ny = s["n"], 2
    x, y = np.meshgrid(np.arange(nx) / 2.0, np.arange(ny) * 1.0, indexing="ij")
    m = pv.StructuredGrid(x[..., None], y[..., None], np.zeros((nx, ny, 1)))
    m = m.cast_to_unstructured_grid() if s["u"] else m
    pts = np.column_stack([x.ravel(), y.ravel(), np.zeros(nx * ny)])
    loop = [(i, 0) for i in range(nx)] + [(i, 1) for i in range(nx - 1, -1, -1)]
    check(m, pts, [[i * ny + j for i, j in loop]], 2, s["fill"], s["holes"], rec)
    rec.nontrivial()


@st.composite
def s_lines(draw):
    n = draw(st.integers(3, 8))
    return {
        "n": [n, *draw(st.lists(st.integers(3, 6), max_size=2))],
        "seed": draw(st.integers(0, 1000)),
        "form": draw(st.sampled_from(["poly", "segments"])),
        "fill": draw(st.booleans()),
        "holes": draw(st.booleans()),
        "axis": draw(st.integers(0, 2)),
        "inside": draw(st.booleans()),
    }


def c_lines(s, rec):
    """Closed lines are boundaries too."""
    rng = np.random.default_rng(s["seed"])
    p2, loops, lines = [], [], []
    for k, n in enumerate(s["n"]):
        t = 2 * np.pi * (np.arange(n) + 0.5 * rng.random(n)) / n
        r = 4.0 if k == 0 else 0.5
        o = [0.0, 0.0] if k == 0 else [(-1.0, 1.0)[k - 1] if s["inside"] else 10.0 * k, 0.0]
        if k == 0 and s["inside"]:
            # Wide enough for its holes
            t = 2 * np.pi * np.arange(n) / n
            r = 12.0
        ids = list(range(len(p2), len(p2) + n))
        p2 += np.column_stack([o[0] + r * np.cos(t), o[1] + r * np.sin(t)]).tolist()
        loops.append(ids)
        if s["form"] == "poly":
            lines.append([*ids, ids[0]])
        else:
            seg = [[a, b] for a, b in zip(ids, ids[1:] + ids[:1])]
            rng.shuffle(seg)
            lines += seg
    pts = geo.place(p2, s["axis"], 1.5)
    m = pv.PolyData(pts, lines=np.concatenate([[len(c), *c] for c in lines]).astype(int))
    check(m, pts, loops, s["axis"], s["fill"], s["holes"], rec)
    rec.label(s["form"])
    rec.nontrivial(len(loops) > 1 or s["form"] != "poly")


@st.composite
def s_closed(draw):
    return {"kind": draw(st.sampled_from(["sphere", "box", "hex"])), "fill": draw(st.booleans()), "holes": draw(st.booleans())}


def c_closed(s, rec):
    m = {"sphere": pv.Sphere(theta_resolution=6, phi_resolution=5), "box": pv.Box().clean(), "hex": pv.Box().clean().cast_to_unstructured_grid()}[s["kind"]]
    check(m, np.asarray(m.points, dtype=float), [], 2, s["fill"], s["holes"], rec)
    rec.nontrivial()


FACETS = [
    Facet("mesh", s_mesh(), c_mesh, 900, 9000),
    Facet("pieces", s_pieces(), c_pieces, 240, 2400),
    Facet("grid", s_grid(), c_grid, 240, 2400),
    Facet("lines", s_lines(), c_lines, 300, 3000),
    Facet("long", st.fixed_dictionaries({"n": st.integers(480, 700), "u": st.booleans(), "fill": st.booleans(), "holes": st.just(False)}), c_long, 6, 20),
    Facet("closed", s_closed(), c_closed, 12, 12),
]
