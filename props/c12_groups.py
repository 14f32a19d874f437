"""C12: group names of generated cells."""
from random import Random

from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Stacks and extrusions over bases with or without named groups (arbitrary numbers), items with group names or "
    "mappings of every form, default and ignored groups; the group name of every cell against a direct evaluation of "
    "the mapping on the base cell below it. Non-trivial: the mesh has >= 2 group names."
)

NAMES = ["a", "b", "ab", "ba"]


@st.composite
def selector(draw, n, has_groups):
    kinds = ["mask", "index", "fmask", "findex", "empty", "center"]
    if has_groups:
        kinds += ["name", "names", "name", "names"]
    kind = draw(st.sampled_from(kinds))
    neg = draw(st.lists(st.booleans(), min_size=4, max_size=4))
    if n > 100:
        rng = Random(draw(st.integers(0, 10**6)))
        cells = rng.sample(range(n), rng.choice([1, 2, n // 2, n - 1]))
    else:
        cells = draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True))
    return {
        "kind": kind,
        "cells": cells,
        "names": draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True)),
        "neg": neg,
        "as": draw(st.sampled_from(["list", "tuple", "array"])),
    }


def spread(seed, n):
    """Groups of many cells, some of them rare."""
    rng = Random(seed)
    common = rng.randint(0, 4)
    return [rng.randint(0, 4) if rng.random() < 0.02 else common for _ in range(n)]


@st.composite
def s_groups(draw, large=False):
    fn = draw(st.sampled_from(["stack", "stack", "extrude"]))
    kinds = ("s", "u", "l") if fn == "stack" else ("s", "u")
    b = draw(B.large(kinds)) if large else draw(B.base(kinds, n_max=3))
    n = len(B.Base(b).cells)
    # Groups of a base line are not inherited (a polyline is a single cell)
    has = draw(st.sampled_from([True, True, False])) and b["kind"] != "l"
    items = []
    for _ in range(draw(st.integers(1, 3))):
        g = draw(st.sampled_from(["none", "str", "dict", "dict"]))
        if g == "none":
            group = None
        elif g == "str":
            group = draw(st.sampled_from(["new", "a", "rock"]))
        else:
            group = [
                [draw(st.booleans()), name, draw(selector(n, has))]
                for name in draw(st.lists(st.sampled_from(["new", "b", "x", "ab"]), min_size=0, max_size=3, unique=True))
            ]
        items.append({"group": group, "res": draw(st.integers(1, 2)), "flat": draw(st.sampled_from([False, False, False, True]))})
    # Items without thickness, next to others
    items[draw(st.integers(0, len(items) - 1))]["flat"] = False
    return {
        "fn": fn,
        "b": b,
        "has": has,
        "nums": draw(st.permutations([0, 1, 2, 3, 5, 7, -1, 40]).map(lambda x: x[:4])),
        "groups": spread(draw(st.integers(0, 10**6)), n) if large else draw(st.lists(st.integers(0, 4), min_size=n, max_size=n)),
        "default": draw(st.sampled_from([None, None, "bg", "a"])),
        "ignore": draw(st.lists(st.sampled_from(["a", "b", "ab", "nope"]), max_size=2, unique=True)),
        "items": items,
        "up": draw(st.booleans()),
        "regen": draw(st.booleans()),
    }


@st.composite
def s_many(draw):
    """Many items, each with a name of its own."""
    s = draw(s_groups())
    rng = Random(draw(st.integers(0, 10**6)))
    s["items"] = [
        {"group": rng.choice([f"item {i}", f"item {i}", None, "a"]), "res": 1, "flat": rng.random() < 0.1}
        for i in range(draw(st.integers(8, 40)))
    ]
    s["items"][0]["flat"] = False
    s["ignore"] = rng.sample(["a", "b", "ab", "ba", "nope"], rng.randint(0, 4))
    return s


def c_groups(s, rec):
    b = B.Base(s["b"])
    n = len(b.cells)
    names = None
    if s["has"]:
        # Group 4 has a number without a name
        nums = {k: v for k, v in zip(NAMES, s["nums"])}
        names = [NAMES[g] if g < 4 else None for g in s["groups"]]
        b.mesh.cell_data["CellGroup"] = np.array([nums[k] if k else 99 for k in names])
        b.mesh.user_dict["CellGroup"] = nums
    default = s["default"] or "default"
    kw = {"default_group": s["default"], "ignore_groups": s["ignore"] or None}
    if s["fn"] == "stack":
        e = b.stack(bottom_up=s["up"], **kw).add(0.0)
    else:
        e = pvg.MeshExtrude(b.mesh, **kw)
    sgn = 1.0 if s["up"] else -1.0
    centers = b.cell_centers()

    def select(sel):
        """Cells of a selector and the object given to the code."""
        k = sel["kind"]
        mask = np.zeros(n, dtype=bool)
        mask[sel["cells"]] = True
        conv = {"list": list, "tuple": tuple, "array": np.array}[sel["as"]]
        if k == "mask":
            return mask, conv(mask.tolist())
        if k == "index":
            return mask, conv(sel["cells"])
        if k == "empty":
            return np.zeros(n, dtype=bool), conv([])
        if k == "fmask":
            return mask, lambda m: mask.copy()
        if k == "findex":
            return mask, lambda m: conv(sel["cells"]) if sel["cells"] else np.zeros(0, dtype=int)
        if k == "center":
            a = b.lat[0]
            c = float(np.median(centers[:, a])) + 1e-3
            return centers[:, a] > c, lambda m: np.array([m.points[x][:, a].mean() > c for x in pointids(m)])
        sel_names = sel["names"][:1] if k == "name" else sel["names"]
        out = np.zeros(n, dtype=bool)
        arg = []
        for q, name in enumerate(sel_names):
            hit = np.array([x == name for x in names])
            out |= ~hit if sel["neg"][q] else hit
            arg.append(("~" if sel["neg"][q] else "") + name)
        return out, arg[0] if k == "name" else conv(arg)

    def pointids(m):
        return B.vertex_ids(m)

    exp = []
    flat = [it.get("flat", False) and s["fn"] == "stack" for it in s["items"]]
    for k, it in enumerate(s["items"]):
        cur = np.array([x if x and x not in s["ignore"] else default for x in names], dtype=object) if names else np.full(n, default, dtype=object)
        g = it["group"]
        if isinstance(g, str):
            cur[:] = g
        elif g is not None:
            arg = {}
            for inv, name, sel in g:
                mask, v = select(sel)
                cur[~mask if inv else mask] = name
                arg[("~" if inv else "") + name] = v
                rec.label(f"sel:{sel['kind']}", f"inv:{inv}")
            g = arg
        exp.append(cur)
        if s["fn"] == "stack":
            e.add(0.0 if flat[k] else 2.0, it["res"], group=g)
        else:
            e.add(np.eye(3)[b.axis] * 2.0 * sgn, it["res"], group=g)
    m = e.generate_mesh()
    if s["regen"]:
        m = e.generate_mesh()
    lev, item = B.levels([2.0 * sgn * i for i in range(len(exp) + 1)], [{"r": it["res"], "m": None} for it in s["items"]])
    if s["fn"] == "stack":
        pos = [B.shift(b, z) for z in lev]
    else:
        pos = [b.pts + np.eye(3)[b.axis] * z for z in lev]
    if any(flat):
        # Cells without thickness have no position of their own
        want = [exp[k][c] for c, k in zip(m.cell_data["ColumnId"], m.cell_data["StackItem"])]
        full = sum(it["res"] for it, f in zip(s["items"], flat) if not f)
        require(len(want) >= n * full, "cells are lost")
        rec.label("flat")
    else:
        col, lay = B.assign(m, b, np.array(pos), "mesh")
        want = [exp[item[k]][c] for c, k in zip(col, lay)]
    got = pvg.get_cell_group(m)
    require(got is not None and len(got) == m.n_cells, "groups of the mesh")
    bad = [i for i in range(m.n_cells) if got[i] != want[i]]
    require(not bad, f"group of a cell: {got[bad[0]] if bad else ''!r}, expected {want[bad[0]] if bad else ''!r}")
    d = m.user_dict["CellGroup"]
    geo.same(sorted(d), sorted(set(want)), "group names")
    geo.same(len(set(d.values())), len(d), "group numbers")
    rec.label(s["fn"], b.kind, f"axis:{b.axis}", "groups" if names else "no groups")
    rec.nontrivial(len(set(want)) > 1)


@st.composite
def s_bad(draw):
    return {"b": draw(B.base(("s", "u"))), "fn": draw(st.sampled_from(["stack", "extrude"])), "v": draw(st.sampled_from([0.5, 1.0, 2.5]))}


def c_bad(s, rec):
    b = B.Base(s["b"])
    n = len(b.cells)

    def run():
        if s["fn"] == "stack":
            b.stack().add(0.0).add(1.0, group={"a": np.full(n, s["v"])}).generate_mesh()
        else:
            pvg.MeshExtrude(b.mesh).add(np.eye(3)[b.axis], group={"a": np.full(n, s["v"])}).generate_mesh()

    geo.raises(ValueError, run, "selection by real numbers")
    rec.label(s["fn"])
    rec.nontrivial(n > 1)


FACETS = [
    Facet("groups", s_groups(), c_groups, 2200, 25000),
    Facet("large", s_groups(True), c_groups, 60, 800),
    Facet("many", s_many(), c_groups, 80, 1000),
    Facet("reject", s_bad(), c_bad, 100, 300),
]
