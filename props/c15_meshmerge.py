"""C15: MeshMerge."""
import random

from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "A jittered mixed-type surface is split into pieces (unstructured, polygonal, structured, with their own group names "
    "and numbers) merged in random order, with default and ignored groups; nodes, cells, group names and data against "
    "the uncut surface. Non-trivial: >= 2 pieces and >= 2 group names."
)
NAMES = ["a", "b", "ab"]


@st.composite
def s_merge(draw):
    n = draw(st.integers(1, 4))
    return {
        "u": draw(gen.usurf(3)),
        "n": n,
        "assign": draw(st.lists(st.integers(0, 3), min_size=20, max_size=20)),
        "pieces": [
            {
                "form": draw(st.sampled_from(["u", "u", "poly", "u"])),
                "group": draw(st.sampled_from([None, "g", "a", "h"])),
                "has": draw(st.booleans()),
                "nums": draw(st.permutations([0, 1, 2, 3, 7]).map(lambda x: x[:3])),
                "cells": draw(st.lists(st.integers(0, 3), min_size=5, max_size=5)),
                "extra": draw(st.booleans()),
            }
            for _ in range(4)
        ],
        "patch": draw(st.sampled_from([None, None, "structured", "image", "rect"])),
        "data": draw(B.data(2)),
        "default": draw(st.sampled_from([None, None, "bg", "a"])),
        "ignore": draw(st.lists(st.sampled_from(["a", "b", "ab", "nope"]), max_size=2, unique=True)),
        "gap": draw(st.sampled_from([0.0, 0.0, 0.01, 1.0e-6])),
        "tol": draw(st.sampled_from([None, None, 1.0e-8, 1.0e-6, 1.0e-4])),
        "regen": draw(st.booleans()),
    }


@st.composite
def s_many(draw):
    """Many meshes, many groups."""
    s = draw(meshes.large(s_merge(), "u"))
    s["n"] = n = draw(st.integers(2, 40))
    rng = random.Random(draw(st.integers(0, 10**6)))
    s["assign"] = [rng.randint(0, 10**6) for _ in range(400)]
    # The tolerance is relative to the size of the mesh
    s["gap"] = draw(st.sampled_from([0.0, 1.0]))
    s["pieces"] = [{**rng.choice(s["pieces"]), "cells": [rng.randint(0, 3) for _ in range(5)], "pre": rng.choice(["", f"u{k}", f"unit no. {k}"])} for k in range(n)]
    return s


def c_merge(s, rec):
    pts, cells = geo.usurf_arrays(s["u"])
    split = {}
    for k, g in zip(range(len(cells)), s["assign"] * len(cells)):
        split.setdefault(g % s["n"], []).append(k)
    data = {d["name"]: B.data_array(d, len(cells) + 1) for d in s["data"]}
    e = pvg.MeshMerge(default_group=s["default"], ignore_groups=s["ignore"] or None)
    default = s["default"] or "default"
    near = s["gap"] == 1.0e-6
    names = {}
    pieces = []
    nodes = set()
    allp = []
    for i, (g, ks) in enumerate(split.items()):
        pc = s["pieces"][g]
        ids = sorted({j for k in ks for j in cells[k][1]})
        new = {j: q for q, j in enumerate(ids)}
        p = pts[ids].copy()
        # Nodes closer than the tolerance are the same
        shift = i if s["gap"] and not near else 0
        p[:, s["u"]["axis"]] += s["gap"] * i
        loc = [(cells[k][0], [new[j] for j in cells[k][1]]) for k in ks]
        if pc["form"] == "poly" and all(t != geo.CT.PIXEL for t, _ in loc):
            m = pv.PolyData(p, faces=[x for _, c in loc for x in (len(c), *c)])
        else:
            m = geo.make_ugrid(p, loc)
        for name, v in data.items():
            m.cell_data[name] = v[ks]
        if pc["extra"]:
            m.cell_data["extra"] = np.arange(m.n_cells)
        if pc["has"]:
            own = [NAMES[pc["cells"][q % 5]] if pc["cells"][q % 5] < 3 else None for q in range(len(ks))]
            if pc.get("pre"):
                # Names of this mesh only
                own = [x and pc["pre"] + x for x in own]
            nums = dict(zip([pc.get("pre", "") + x for x in NAMES], pc["nums"]))
            m.cell_data["CellGroup"] = np.array([nums[x] if x else 99 for x in own])
            m.user_dict["CellGroup"] = nums
        else:
            own = [None] * len(ks)
        for k, o in zip(ks, own):
            names[k] = o if o and o not in s["ignore"] else (pc["group"] or default)
        nodes |= {(shift, j) for j in ids}
        pieces.append((m, pc["group"]))
        allp += [(shift, j, p[new[j]]) for j in ids]
    if s["patch"]:
        # A single cell away from the others
        o = pts.max(axis=0) + 10.0
        if s["patch"] == "image":
            m = pv.ImageData(dimensions=(2, 2, 1), origin=o)
        elif s["patch"] == "rect":
            m = pv.RectilinearGrid([o[0], o[0] + 1.0], [o[1], o[1] + 2.0], [o[2]])
        else:
            m = pvg.Rectangle(1.0, 1.0, center=o)
        k = len(cells)
        for name, v in data.items():
            m.cell_data[name] = v[[k]]
        names[k] = "patch"
        q = np.asarray(m.cast_to_unstructured_grid().points, dtype=float)
        allp += [(0, ("p", j), q[j]) for j in range(4)]
        nodes |= {(0, ("p", j)) for j in range(4)}
        pieces.insert(s["assign"][0] % (len(pieces) + 1), (m, "patch"))
    before = [geo.snapshot(m) for m, _ in pieces]
    for m, g in pieces:
        r = e.add(m, g) if g is not None else e.add(m)
        require(r is e, "add is not chainable")
    tol = 1.0e-4 if near else s["tol"]
    kw = {} if tol is None else {"tolerance": tol}
    out = e.generate_mesh(**kw)
    if s["regen"]:
        out = e.generate_mesh(**kw)
    require(isinstance(out, pv.UnstructuredGrid), f"merged mesh: {type(out).__name__}")
    geo.same(out.n_points, len(nodes), "number of nodes of the merged mesh")
    idx = geo.match(out.points, np.array([p for _, _, p in allp]), "nodes of the merged mesh", tol=1.0e-5 if near else 1.0e-7)
    ids_of = {frozenset(c): k for k, (_, c) in enumerate(cells)}
    src = []
    for t, c in geo.ugrid_cells(out):
        key = frozenset(allp[idx[j]][1] for j in c)
        if any(isinstance(x, tuple) for x in key):
            k = len(cells)
        else:
            require(key in ids_of, "unexpected cell in the merged mesh")
            k = ids_of[key]
            same_shift = {allp[idx[j]][0] for j in c}
            require(len(same_shift) == 1, "a cell joins nodes of several pieces")
            area = geo.polygon_normal_area(np.asarray(out.points, dtype=float)[geo.ring(int(t), list(c))])
            ref = geo.polygon_normal_area(pts[geo.ring(cells[k][0], list(cells[k][1]))])
            geo.close(area, ref, "cell of the merged mesh", tol=1e-4 if near else 1e-6)
        src.append(k)
    geo.same(sorted(src), sorted(names), "cells of the merged mesh")
    got = pvg.get_cell_group(out)
    want = [names[k] for k in src]
    for a, b in zip(got, want):
        require(a == b, f"group of a merged cell: {str(a)!r}, expected {b!r}")
    geo.same(sorted(out.user_dict["CellGroup"]), sorted(set(want)), "group names")
    for name, v in data.items():
        require(name in out.cell_data, "cell data is lost")
        B.same_data(out.cell_data[name], v[src], "cell data of the merged mesh")
    for a, (x, _) in zip(before, pieces):
        geo.unchanged(a, geo.snapshot(x), "mesh added to the merge")
    rec.label(f"near:{near}", f"pieces:{len(pieces)}", f"patch:{s['patch']}", f"gap:{bool(s['gap'])}")
    rec.nontrivial(len(pieces) > 1 and len(set(want)) > 1)


def c_bad(s, rec):
    geo.raises(ValueError, lambda: pvg.MeshMerge(default_group=s["g"]).generate_mesh(), "merge without mesh")
    rec.nontrivial()


FACETS = [
    Facet("merge", s_merge(), c_merge, 1600, 20000),
    Facet("many", s_many(), c_merge, 40, 400),
    Facet("reject", st.fixed_dictionaries({"g": st.sampled_from([None, "a", "b"])}), c_bad, 5, 5),
]
