"""C26: fusing cells."""
from hypothesis import strategies as st

from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require
from props.c24_boundary import loops_of

CT = pv.CellType
RULE = (
    "Surfaces of mixed cells with point and cell data, groups of connected cells given as indices in any order, arrays or masks, "
    "one or several groups; the outline of each group is rebuilt from edges used once. Non-trivial: a group of at least two cells is fused."
)


@st.composite
def s_fuse(draw):
    kind = draw(st.sampled_from(["u2", "u2", "p2", "s2"]))
    m = draw(meshes.mesh(kinds=(kind,), n_max=4, hidden=False, empty=False))
    groups = [{"seed": draw(st.integers(0, 60)), "grow": draw(st.lists(st.integers(0, 20), max_size=5))} for _ in range(draw(st.integers(1, 3)))]
    return {
        "m": m,
        "groups": groups,
        "form": draw(st.sampled_from(["list", "array", "mask", "tuple"])),
        "flat": draw(st.booleans()),
        "shuffle": draw(st.integers(0, 100)),
        "data": draw(st.booleans()),
    }


@st.composite
def s_many(draw):
    from random import Random

    s = draw(s_fuse())
    rng = Random(draw(st.integers(0, 10**6)))
    s["groups"] = [{"seed": rng.randint(0, 10**6), "grow": [rng.randint(0, 20) for _ in range(rng.randint(0, draw(st.sampled_from([2, 12, 30]))))]} for _ in range(draw(st.integers(1, 12)))]
    return s


def c_fuse(s, rec):
    M = meshes.Mesh(s["m"])
    n = len(M.cells)
    rings = [geo.ring(t, list(c)) for t, c in M.cells]
    edges = {}
    for i, r in enumerate(rings):
        for e in map(frozenset, zip(r, r[1:] + r[:1])):
            edges.setdefault(e, []).append(i)
    nei = [set() for _ in range(n)]
    for c in edges.values():
        for i in c:
            nei[i] |= set(c) - {i}
    used, groups = set(), []
    rng = np.random.default_rng(s["shuffle"])
    for g in s["groups"]:
        free = [i for i in range(n) if i not in used]
        if not free:
            break
        cur = [free[g["seed"] % len(free)]]
        for k in g["grow"]:
            nx = sorted({j for i in cur for j in nei[i]} - used - set(cur))
            if nx:
                cur.append(nx[k % len(nx)])
        used |= set(cur)
        groups.append(cur)
    if s["flat"]:
        groups = groups[:1]
    loops = []
    for g in groups:
        lo = loops_of([rings[i] for i in g])
        if lo is None or len(lo) != 1:
            rec.label("hole or pinch")
            return
        loops.append(lo[0])
        if s["form"] == "mask":
            g.sort()
        else:
            rng.shuffle(g)
    mesh = M.mesh
    if s["data"]:
        mesh.cell_data["a"] = np.arange(n) * 2 + 1
        mesh.cell_data["v"] = np.arange(3 * n).reshape(n, 3) / 4.0
        mesh.point_data["p"] = np.arange(mesh.n_points) * 5
        mesh.user_dict["a"] = {"one": 1, "x": 7}
        mesh.user_dict["note"] = {"by": "me"}

    def form(g):
        if s["form"] == "mask":
            return np.isin(np.arange(n), g)
        return {"list": list, "tuple": tuple, "array": np.array}[s["form"]](g)

    arg = form(groups[0]) if s["flat"] else [form(g) for g in groups]
    before = geo.snapshot(mesh)
    out = pvg.fuse_cells(mesh, arg)
    geo.unchanged(before, geo.snapshot(mesh), "input of fuse_cells")
    require(isinstance(out, pv.UnstructuredGrid), f"type of the result: {type(out).__name__}")
    ref = []
    for i in range(n):
        k = next((k for k, g in enumerate(groups) if i in g), None)
        if k is None:
            ref.append((i, M.cells[i][0], list(M.cells[i][1])))
        elif groups[k][0] == i:
            ref.append((i, int(CT.POLYGON), loops[k]))
    got = geo.ugrid_cells(out)
    geo.same(len(got), len(ref), "number of cells")
    x = np.asarray(out.points, dtype=float)
    idx = geo.match(x, M.points, "points", tol=1e-12 if x.dtype == M.points.dtype else 1e-6)
    for (t, c), (i, rt, rc) in zip(got, ref):
        geo.same(t, rt, f"type of the cell from {i}")
        o = [int(idx[q]) for q in c]
        if rt == CT.POLYGON and any(i == g[0] for g in groups):
            require(meshes.same_ring(o, rc), f"outline of the cells fused in {i}: {o}, expected {rc}")
        else:
            geo.same(o, rc, f"vertices of cell {i}")
    geo.same(sorted(idx.tolist()), sorted({q for _, _, c in ref for q in c}), "points of the fused mesh")
    if s["data"]:
        ids = [i for i, _, _ in ref]
        geo.array_equal(out.cell_data["a"], np.array(ids) * 2 + 1, "cell data")
        geo.array_equal(out.cell_data["v"], (np.arange(3 * n).reshape(n, 3) / 4.0)[ids], "cell vectors")
        geo.array_equal(out.point_data["p"], idx * 5, "point data")
        geo.same(dict(out.user_dict["a"]), {"one": 1, "x": 7}, "metadata")
        geo.same(dict(out.user_dict["note"]), {"by": "me"}, "other metadata")
    rec.label(s["form"], s["m"]["kind"], f"groups:{len(groups)}", f"flat:{s['flat']}")
    rec.nontrivial(any(len(g) > 1 for g in groups))


@st.composite
def s_bad(draw):
    return {"kind": draw(st.sampled_from(["apart", "volume", "second"])), "n": draw(st.integers(3, 5)), "k": draw(st.integers(0, 2)), "form": draw(st.sampled_from(["list", "array"]))}


def c_bad(s, rec):
    n = s["n"]
    if s["kind"] == "volume":
        m = pv.ImageData(dimensions=(n + 1, 3, 3))
        arg, exc = [0, 1], NotImplementedError
    else:
        m = pv.ImageData(dimensions=(n + 1, 3, 1))
        a = s["k"] % (n - 2)
        b = a + 2
        arg, exc = [a, b], ValueError
        if s["kind"] == "second":
            arg = [[n, n + 1], arg]
    arg = np.array(arg) if s["form"] == "array" and s["kind"] != "second" else arg
    geo.raises(exc, lambda: pvg.fuse_cells(m, arg), f"fusing {s['kind']} cells {arg}")
    rec.nontrivial()


FACETS = [
    Facet("fuse", s_fuse(), c_fuse, 1000, 10000),
    Facet("large", meshes.large(s_many()), c_fuse, 60, 600),
    Facet("reject", s_bad(), c_bad, 40, 60),
]
