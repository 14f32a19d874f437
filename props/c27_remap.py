"""C27: remapping categorical data."""
import random

from hypothesis import strategies as st

from harness import geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Integer cell and point data on every kind of mesh, with or without labels (some unused), remapped by name or value: chains, swaps, "
    "absent values, merges; in place or not. Non-trivial: at least one value changes."
)
NAMES = ["a", "b", "c", "d", "e", "sand", "clay"]


@st.composite
def s_map(draw):
    n_val = draw(st.integers(1, 5))
    vals = draw(st.lists(st.integers(-3, 9), min_size=n_val, max_size=n_val, unique=True))
    labels = None
    if draw(st.sampled_from([True, True, False])):
        pool = list(dict.fromkeys(vals + draw(st.lists(st.integers(-3, 12), max_size=3))))
        k = draw(st.integers(0, min(len(pool), len(NAMES))))
        names = draw(st.permutations(NAMES))
        order = draw(st.permutations(pool))
        labels = [[names[i], order[i]] for i in range(k)]
    src = draw(st.lists(st.sampled_from(vals + [20, 21] + ([v for _, v in labels] if labels else [])), min_size=draw(st.sampled_from([1, 1, 1, 0])), max_size=5, unique=True))
    mapping = []
    for v in src:
        name = next((n for n, x in labels if x == v), None) if labels else None
        mapping.append([name if name is not None and draw(st.booleans()) else v, draw(st.one_of(st.sampled_from(vals), st.integers(-5, 30)))])
    return {
        "m": draw(meshes.mesh(kinds=("u2", "s2", "i3", "p2", "u3"), n_max=3, hidden=False, empty=False)),
        "vals": vals,
        "seed": draw(st.integers(0, 999)),
        "labels": labels,
        "mapping": mapping,
        "pref": draw(st.sampled_from([None, "cell", "point"])),
        "inplace": draw(st.sampled_from([None, True, False])),
        "dtype": draw(st.sampled_from(["int64", "int32", "int16"])),
        "key": draw(st.sampled_from(["CellGroup", "rock"])),
    }


@st.composite
def s_many(draw):
    """Many categories, large values."""
    s = draw(s_map())
    rng = random.Random(draw(st.integers(0, 10**6)))
    pool = rng.sample(range(-30000, 30000), 400) if draw(st.booleans()) else rng.sample(range(-100, 400), 400)
    s["vals"] = vals = pool[: draw(st.integers(20, 200))]
    labels = None
    if s["labels"] is not None:
        keep = [v for v in vals if rng.random() < 0.8] + pool[200:220]
        labels = [[f"unit {i}", v] for i, v in enumerate(keep)]
        rng.shuffle(labels)
    s["labels"] = labels
    name = {v: n for n, v in labels or []}
    src = [v for v in vals + pool[200:240] if rng.random() < draw(st.sampled_from([0.1, 0.9]))]
    s["mapping"] = [[name[v] if v in name and rng.random() < 0.5 else v, rng.choice(vals) if rng.random() < 0.5 else rng.randint(-30000, 30000)] for v in src]
    s["m"] = meshes.grow(s["m"], draw(st.integers(105, 500)), draw(st.integers(0, 10**6)))
    return s


def build(s):
    m = meshes.Mesh(s["m"]).mesh
    rng = np.random.default_rng(s["seed"])
    pref = s["pref"] or "cell"
    n = m.n_cells if pref == "cell" else m.n_points
    data = rng.choice(s["vals"], n).astype(s["dtype"])
    (m.cell_data if pref == "cell" else m.point_data)[s["key"]] = data
    m.cell_data["other"] = np.arange(m.n_cells)
    m.user_dict["more"] = {"x": 1}
    if s["labels"] is not None:
        m.user_dict[s["key"]] = dict(s["labels"])
    return m, data, pref


def c_map(s, rec):
    m, data, pref = build(s)
    key = s["key"]
    mapping = {k: v for k, v in s["mapping"]}
    labels = dict(s["labels"] or [])
    full = {labels.get(k, k) if isinstance(k, str) else k: v for k, v in mapping.items()}
    before = geo.snapshot(m)
    kw = {}
    if s["pref"] is not None:
        kw["preference"] = s["pref"]
    if s["inplace"] is not None:
        kw["inplace"] = s["inplace"]
    arg = dict(mapping)
    out = pvg.remap_categorical_data(m, key, arg, **kw)
    geo.same(arg, mapping, "mapping given by the caller")
    if s["inplace"]:
        require(out is None, f"value returned when remapping in place: {type(out).__name__}")
        out = m
    else:
        geo.unchanged(before, geo.snapshot(m), "mesh remapped out of place")
        geo.same(dict(m.user_dict.get(key, {})), labels, "labels of the input")
        require(out is not m, "the input itself is returned")
    got = (out.cell_data if pref == "cell" else out.point_data)[key]
    ref = np.array([full.get(int(v), int(v)) for v in data])
    geo.array_equal(got, ref, "remapped data")
    geo.same(np.asarray(got).dtype.kind, "i", "type of data")
    after = geo.snapshot(out)
    skip = f"{pref}_data/{key}"
    geo.unchanged({k: v for k, v in before.items() if k not in (skip, "user_dict")}, {k: v for k, v in after.items() if k not in (skip, "user_dict")}, "rest of the mesh")
    geo.same(dict(out.user_dict["more"]), {"x": 1}, "other metadata")
    if s["labels"]:
        used = {n: v for n, v in labels.items() if v in data}
        new = {n: full.get(v, v) for n, v in used.items()}
        lab = dict(out.user_dict[key])
        geo.same(lab, new, "labels")
        geo.same(list(lab.values()), sorted(lab.values()), "order of labels")
        rec.label("unused" if len(used) < len(labels) else "all used")
    elif s["labels"] is None:
        require(key not in dict(out.user_dict), "labels out of nothing")
    rec.label(f"pref:{s['pref']}", f"inplace:{s['inplace']}", "labels" if s["labels"] else "no label", "names" if any(isinstance(k, str) for k in mapping) else "values")
    if set(full) & {v for k, v in full.items() if v != k}:
        rec.label("chained")
    rec.nontrivial((ref != data).any())


@st.composite
def s_bad(draw):
    return {"s": draw(s_map()), "kind": draw(st.sampled_from(["name", "float", "bool", "pref"])), "at": draw(st.integers(0, 3))}


def c_bad(s, rec):
    t = {**s["s"], "dtype": {"float": "float64", "bool": "bool"}.get(s["kind"], "int64")}
    m, data, pref = build(t)
    mapping = [[k, v] for k, v in t["mapping"]]
    if s["kind"] == "name":
        mapping.insert(s["at"] % (len(mapping) + 1), ["unknown", 3])
    before = geo.snapshot(m)
    geo.raises(ValueError, lambda: pvg.remap_categorical_data(m, t["key"], dict(map(tuple, mapping)), "row" if s["kind"] == "pref" else pref, bool(t["inplace"])), f"remapping with {s['kind']}")
    geo.unchanged(before, geo.snapshot(m), "mesh of a rejected call")
    rec.label(s["kind"])
    rec.nontrivial()


FACETS = [Facet("remap", s_map(), c_map, 1500, 15000), Facet("many", s_many(), c_map, 80, 800), Facet("reject", s_bad(), c_bad, 240, 1000)]
