"""C10: column, layer and item identifiers."""
from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Stacks (2D/3D, every axis, both directions, wavy surfaces) and extrusions with 1-3 items of generated "
    "subdivisions; the base cell, the layer counted from the first item and the item of every cell are "
    "recovered from its geometry and compared with ColumnId, LayerId, StackItem/ExtrudeItem. "
    "Non-trivial: at least two columns and two layers."
)


@st.composite
def s_ids(draw, large=False):
    n = draw(st.integers(1, 3))
    b = draw(B.large()) if large else draw(B.base())
    return {
        "fn": draw(st.sampled_from(["stack", "stack", "extrude"])),
        "b": b,
        "up": draw(st.booleans()),
        "h": draw(st.lists(gen.pos(3.0, 0.25), min_size=n, max_size=n)),
        "wave": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
        "res": draw(st.lists(gen.resolution(4, ends=True), min_size=n, max_size=n)),
        "old": draw(st.booleans()),
    }


@st.composite
def s_many(draw):
    """Many items or layers over a few columns."""
    from random import Random

    n = draw(st.sampled_from([2, 5, 9, 20, 40, 140]))
    rng = Random(draw(st.integers(0, 10**6)))
    s = draw(s_ids())
    s["b"] = draw(B.base(n_max=2))
    s["h"] = [0.25 * rng.randint(1, 8) for _ in range(n)]
    s["wave"] = [rng.choice([0, 0, 1]) for _ in range(n)]
    top = {2: 220, 5: 100, 9: 20}.get(n, 2)
    s["res"] = [{"r": rng.randint(1, top), "m": None, "as": "list"} for _ in range(n)]
    return s


def c_ids(s, rec):
    b = B.Base(s["b"])
    sgn = 1.0 if s["up"] else -1.0
    if s["old"] and b.kind != "l":
        # Identifiers of a previous stack must not survive
        for k in ("ColumnId", "LayerId", "StackItem", "ExtrudeItem"):
            b.mesh.cell_data[k] = np.full(b.mesh.n_cells, 77)
    stack = s["fn"] == "stack" or b.kind == "l"
    if stack:
        z = np.full(len(b.pts), 2.0)
        e = b.stack(bottom_up=s["up"]).add(2.0)
    else:
        z = b.pts[:, b.axis].copy()
        e = pvg.MeshExtrude(b.mesh)
    zs = [z]
    for h, w, r in zip(s["h"], s["wave"], s["res"]):
        if stack and w:
            # A callable surface, above the previous one everywhere
            znew = z + sgn * (h + 0.25 * w * np.sin(b.pts[:, b.lat[0]] + b.pts[:, b.lat[1]]) ** 2)
            e.add(lambda *xyz, zz=znew: zz, geo.res_arg(r), r["m"])
        elif stack:
            znew = z + sgn * h
            e.add(h, geo.res_arg(r), r["m"])
        else:
            znew = z + sgn * h
            e.add(np.eye(3)[b.axis] * h * sgn, geo.res_arg(r), r["m"])
        zs.append(znew)
        z = znew
    m = e.generate_mesh()
    lev, item = B.levels(zs, s["res"])
    col, lay = B.assign(m, b, [B.shift(b, x) for x in lev], s["fn"])
    key = "StackItem" if stack else "ExtrudeItem"
    for k, exp in (("ColumnId", col), ("LayerId", lay), (key, np.array(item)[lay])):
        require(k in m.cell_data, f"{k} is missing")
        a = np.asarray(m.cell_data[k])
        require(a.dtype.kind in "iu", f"{k} is not an integer array")
        geo.array_equal(a, exp, f"{k} ({s['fn']}, axis {b.axis})")
    rec.label(s["fn"], b.kind, f"axis:{b.axis}", f"up:{s['up']}")
    rec.nontrivial(len(b.cells) > 1 and len(item) > 1)


FACETS = [Facet("ids", s_ids(), c_ids, 2400, 30000), Facet("large", s_ids(True), c_ids, 80, 1000), Facet("many", s_many(), c_ids, 60, 600)]
