"""C09: interfaces of a stack: priority, minimum thickness, no crossing."""
from collections import Counter

from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Stacks of 2-20 items (up to hundreds of columns) with generated elevations (crossing or not), priorities, minimum thicknesses, "
    "directions, axes and base meshes; nodes, cells and hidden flags against an independent cutting model. "
    "Non-trivial: at least one elevation is moved by another item."
)


@st.composite
def s_cut(draw, kinds=("s", "u", "l")):
    b = draw(B.base(kinds, n_max=2, wobble=True))
    npts = len(b["xs"]) * (len(b["ys"]) if b["kind"] != "l" else 1)
    n = draw(st.integers(2, 5))
    items = []
    for i in range(n):
        items.append(
            {
                "z": draw(st.lists(gen.dyadic(-3, 3, 4), min_size=npts, max_size=npts)),
                "pr": draw(st.integers(-1, 2)),
                "t": draw(st.sampled_from([0.0, 0.0, 0.25, 1.0])),
                "res": draw(gen.resolution(3, ends=True)),
                "scalar": draw(st.sampled_from([None, None, None, 0.5, -1.25])) if i else None,
            }
        )
    return {
        "b": b,
        "up": draw(st.booleans()),
        "items": items,
        "off": draw(st.sampled_from([0.0, 0.0, 100.0])),
        "base": draw(st.integers(0, 2)),
    }


@st.composite
def s_large(draw):
    """Stacks of hundreds of columns, a few of which have layers without thickness."""
    from random import Random

    b = draw(B.large())
    npts = len(b["xs"]) * (len(b["ys"]) if b["kind"] != "l" else 1)
    rng = Random(draw(st.integers(0, 10**6)))
    items = []
    for i in range(draw(st.integers(2, 4))):
        z = [0.25 * rng.randint(0, 1) for _ in range(npts)]
        if i:
            # Below the previous item around a few consecutive points
            for _ in range(draw(st.integers(0, 2))):
                k = rng.randrange(npts)
                for j in range(k, min(npts, k + rng.randint(1, 3))):
                    z[j] = -8.0
        items.append({"z": z, "pr": rng.randint(-1, 1), "t": 0.0, "res": draw(gen.resolution(2, ends=True)), "scalar": None})
    return {"b": b, "up": draw(st.booleans()), "items": items, "off": 0.0, "base": 2}


@st.composite
def s_many(draw):
    """Many items over a few columns."""
    from random import Random

    b = draw(B.base(n_max=2))
    npts = len(b["xs"]) * (len(b["ys"]) if b["kind"] != "l" else 1)
    rng = Random(draw(st.integers(0, 10**6)))
    wide = draw(st.sampled_from([3, 12, 48]))  # Range of elevations, in quarters
    low = draw(st.sampled_from([0, -1, -5]))
    items = [
        {
            "z": [0.25 * rng.randint(-wide, wide) for _ in range(npts)],
            "pr": rng.randint(low, 2 - low),
            "t": rng.choice([0.0, 0.0, 0.25, 0.5]),
            "res": {"r": rng.choice([None, 1, 1, 2]), "m": None, "as": "list"},
            "scalar": rng.choice([None, None, 0.5, -1.25]) if i else None,
        }
        for i in range(draw(st.integers(6, 20)))
    ]
    return {"b": b, "up": draw(st.booleans()), "items": items, "off": draw(st.sampled_from([0.0, 100.0])), "base": draw(st.integers(0, 2))}


def model(z, pr, th, sign):
    """Elevations after cutting."""
    z = [sign * np.array(x) for x in z]
    for i in range(1, len(z)):
        for j in range(i - 1, -1, -1):
            gap = sum(th[j + 1 : i + 1])
            if pr[j] > pr[i]:
                z[i] = np.maximum(z[i], z[j] + gap)
        for j in range(i - 1, -1, -1):
            gap = sum(th[j + 1 : i + 1])
            if pr[j] <= pr[i]:
                z[j] = np.minimum(z[j], z[i] - gap)
    return [sign * x for x in z]


def c_cut(s, rec):
    b = B.Base(s["b"])
    sign = 1.0 if s["up"] else -1.0
    e = b.stack(bottom_up=s["up"])
    zs, pr, th = [], [], []
    for i, it in enumerate(s["items"]):
        z = np.array(it["z"]) + sign * 0.75 * i * s["base"] + s["off"]
        kw = {}
        if it["pr"] != 0 or i % 2:
            kw["priority"] = it["pr"]
        if i and it["t"]:
            kw["thickness"] = it["t"]
        if it["scalar"] is not None:
            # Relative to the previous item as it was added
            z = zs[-1] + sign * abs(it["scalar"])
            arg = it["scalar"]
        else:
            arg = lambda x, y, w, zz=z: zz  # noqa: E731
        e.add(arg, geo.res_arg(it["res"]), it["res"]["m"], **kw)
        zs.append(z)
        pr.append(it["pr"])
        th.append(it["t"] if i else 0.0)
    m = e.generate_mesh()
    cut = model(zs, pr, th, sign)
    for i in range(1, len(cut)):
        # Sanity of the model: the guarantee itself
        assert (sign * (cut[i] - cut[i - 1]) >= th[i] - 1e-9).all()
    moved = any(not np.array_equal(a, c) for a, c in zip(zs, cut))
    lev, item = B.levels(cut, [it["res"] for it in s["items"][1:]])
    pos = np.array([B.shift(b, x) for x in lev])
    flat = [[all(cut[i][v] == cut[i + 1][v] for v in c) for c in b.cells] for i in range(len(cut) - 1)]
    ghost = np.asarray(m.cell_data["vtkGhostType"]) if "vtkGhostType" in m.cell_data else np.zeros(m.n_cells)
    geo.same(m.n_cells, len(item) * len(b.cells), "number of cells")
    if b.kind in ("s", "l"):
        pts = np.asarray(m.points, dtype=float)
        dims = m.dimensions
        got = np.moveaxis(pts.reshape(dims[2], dims[1], dims[0], 3).transpose(2, 1, 0, 3), b.axis, 0)
        if b.kind == "s":
            exp = pos.reshape(len(lev), len(s["b"]["ys"]), len(s["b"]["xs"]), 3).transpose(0, 2, 1, 3)
        else:
            exp = pos.reshape(got.shape)
        geo.close(got, exp, "interfaces of the stack", tol=1e-6)
        col, lay = B.column_of(m, b), None
        g = np.moveaxis(geo.structured_cell_index(m, ghost), b.axis, 0).reshape(len(item), -1)
        c = np.moveaxis(geo.structured_cell_index(m, col), b.axis, 0).reshape(len(item), -1)
        for k in range(len(item)):
            geo.array_equal(g[k], [32 if flat[item[k]][j] else 0 for j in c[k]], "hidden flags")
    else:
        # Distinct expected positions; coincident nodes are merged
        flatpos = pos.reshape(-1, 3)
        key = {}
        ids = np.array([key.setdefault(tuple(np.round(p, 6)), len(key)) for p in flatpos])
        idx = ids[geo.match(m.points, flatpos, "interfaces of the stack", tol=1e-6)]
        n = len(b.pts)
        got = Counter(
            (frozenset(int(idx[i]) for i in v), int(h)) for v, h in zip(B.vertex_ids(m), ghost)
        )
        exp = Counter(
            (
                frozenset(int(ids[i + j * n]) for i in c for j in (k, k + 1)),
                32 if flat[item[k]][ic] else 0,
            )
            for k in range(len(item))
            for ic, c in enumerate(b.cells)
        )
        if got != exp:
            require(False, f"cells of the stack: unexpected {[(sorted(a), h) for a, h in (got - exp)][:3]}, missing {[(sorted(a), h) for a, h in (exp - got)][:3]}")
    rec.label(b.kind, f"axis:{b.axis}", f"up:{s['up']}", f"items:{len(zs)}")
    if any(map(any, flat)):
        rec.label("collapsed")
    rec.nontrivial(moved)


@st.composite
def s_bad(draw):
    return {"b": draw(B.base()), "case": draw(st.sampled_from(["few", "one", "axis", "array", "dim", "wrong"]))}


def c_bad(s, rec):
    b = B.Base(s["b"])
    cls = pvg.MeshStack2D if b.kind == "l" else pvg.MeshStack3D
    case = s["case"]
    if case == "few":
        geo.raises(ValueError, lambda: b.stack().generate_mesh(), "empty stack")
    elif case == "one":
        geo.raises(ValueError, lambda: b.stack().add(0.0).generate_mesh(), "stack of one item")
    elif case == "axis":
        geo.raises(ValueError, lambda: cls(b.mesh, axis=3), "axis 3")
        if b.kind == "s":
            geo.raises(ValueError, lambda: cls(b.mesh, axis=(b.axis + 1) % 3), "axis in the plane of a structured base")
    elif case == "array":
        geo.raises(ValueError, lambda: b.stack().add([1.0, 2.0]), "1D array")
        geo.raises(ValueError, lambda: b.stack().add(np.zeros((4, 2))), "2D array without three columns")
    elif case == "dim":
        v = pvg.MeshExtrude(B.Base({**s["b"], "kind": "u", "kinds": [0], "flip": [False], "xs": [0.0, 1.0], "ys": [0.0, 1.0], "jit": None, "roll": 0, "perm": 0}).mesh).add(np.eye(3)[b.axis]).generate_mesh()
        geo.raises(ValueError, lambda: pvg.MeshStack3D(v), "3D base")
    else:
        geo.raises(ValueError, lambda: pvg.MeshStack2D(pv.Plane()), "2D stack over a surface")
        geo.raises(ValueError, lambda: pvg.MeshStack3D(pv.Line()), "3D stack over a line")
    rec.label(case)
    rec.nontrivial()


FACETS = [
    Facet("cut", s_cut(), c_cut, 2400, 30000),
    Facet("large", s_large(), c_cut, 100, 1200),
    Facet("many", s_many(), c_cut, 150, 2000),
    Facet("reject", s_bad(), c_bad, 200, 600),
]
