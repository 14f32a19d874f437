"""C23: averaging points within a tolerance."""
import random

from hypothesis import strategies as st

from harness import gen, geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Surfaces whose cells have their own, perturbed copies of shared points, thin cells, and point clouds with chains of close "
    "points, at tolerances from 0 to larger than cells. Non-trivial: at least two points are averaged into one."
)

TOLS = [None, 0.0, 0.011, 0.053, 0.23, 0.7, 3.1]


@st.composite
def s_faces(draw):
    u = draw(gen.usurf(3, kinds=(0, 1, 2, 4, 5)))
    return {
        "u": u,
        "explode": draw(st.booleans()),
        "seed": draw(st.integers(0, 10000)),
        "amp": draw(st.sampled_from([0.0, 0.005, 0.02, 0.1])),
        "tol": draw(st.sampled_from(TOLS)),
        "f32": draw(st.booleans()),
        "unused": draw(st.integers(0, 2)),
        "scale": draw(st.sampled_from([1.0, 1.0, 0.1])),
    }


def components(p, tol, strict=True):
    """Chains of points within the tolerance; None if a distance is too close to the tolerance to decide."""
    n = len(p)
    d = np.linalg.norm(p[:, None] - p[None], axis=-1)
    if strict and tol > 0.0 and (np.abs(d - tol) < 1e-6 * max(1.0, np.abs(p).max())).any():
        return None
    lab = list(range(n))
    for i in range(n):
        for j in range(i):
            if d[i, j] <= tol and lab[i] != lab[j]:
                a, b = lab[i], lab[j]
                lab = [b if x == a else x for x in lab]
    return np.array(lab)


def expected(p, lab):
    out = np.zeros_like(p)
    for c in set(lab.tolist()):
        m = lab == c
        out[m] = p[m].mean(axis=0) if m.sum() > 1 else p[m]
    return out


def call(m, tol):
    before = geo.snapshot(m)
    out = pvg.average_points(m) if tol is None else pvg.average_points(m, tol)
    geo.unchanged(before, geo.snapshot(m), "input of average_points")
    require(isinstance(out, pv.PolyData), "type of the result")
    return out


def same_ring(g, r, msg, tol):
    """Rings of coordinates, the same up to rotation."""
    require(g.shape == r.shape, f"{msg}: {len(g)} vertices, expected {len(r)}")
    for k in range(len(r)):
        if np.abs(np.roll(g, k, axis=0) - r).max() <= tol:
            return
    raise geo.Violation(f"{msg}: {g.tolist()}, expected {r.tolist()}")


def c_faces(s, rec):
    rng = np.random.default_rng(s["seed"])
    pts, cells = geo.usurf_arrays(s["u"])
    pts = pts * s["scale"]
    rings = [geo.ring(t, list(c)) for t, c in cells]
    if s["explode"]:
        new, out = [], []
        for r in rings:
            out.append(list(range(len(new), len(new) + len(r))))
            new += [pts[i] for i in r]
        pts, rings = np.array(new), out
    pts = pts + s["amp"] * (2.0 * rng.random(pts.shape) - 1.0) if s["amp"] else pts
    for _ in range(s["unused"]):
        # A point no cell uses still counts in averages
        pts = np.vstack([pts, pts[rng.integers(len(pts))] + s["amp"]])
    f32 = s["f32"] and np.abs(pts).max() < 100.0
    pts = pts.astype(np.float32) if f32 else pts
    p = pts.astype(float)
    tol = s["tol"] or 0.0
    lab = components(p, tol)
    if lab is None:
        rec.label("ambiguous")
        return
    e = expected(p, lab)
    m = pv.PolyData(pts, faces=np.concatenate([[len(r), *r] for r in rings]).astype(int))
    m.cell_data["a"] = np.arange(len(rings)) * 3
    out = call(m, s["tol"])
    ref, ids, groups = [], [], set()
    for i, r in enumerate(rings):
        q = [k for n, k in enumerate(r) if lab[k] != lab[r[n - 1]]]
        if len({int(lab[k]) for k in q}) != len(q):
            # A face pinched between its ends
            rec.label("pinched")
            return
        if len(q) > 2:
            ref.append(e[q])
            ids.append(i)
            groups |= {int(lab[k]) for k in q}
    t = (1e-5 if f32 else 1e-9) * geo.scale_of(p)
    geo.same(out.n_cells, len(ref), "number of cells")
    geo.array_equal(out.cell_data["vtkOriginalCellIds"] if ids else [], ids, "original cells")
    x = np.asarray(out.points, dtype=float)
    for i, (f, r) in enumerate(zip(out.irregular_faces, ref)):
        same_ring(x[f], r, f"vertices of cell {i}", t)
    if ref:
        used = np.vstack(ref)
        # Distinct means stay distinct, and a mean is a single point
        near = set(components(used, 10 * t, False).tolist())
        if len(near) == len(groups) == len(set(components(used, 1e3 * t, False).tolist())):
            geo.same(out.n_points, len(near), "number of points")
    else:
        geo.same(out.n_points, 0, "points of a mesh without faces")
    rec.label(f"tol:{s['tol']}", f"explode:{s['explode']}", "dropped" if len(ids) < len(rings) else "kept", "some" if ids else "none")
    rec.nontrivial(len(set(lab.tolist())) < len(p))


@st.composite
def s_cloud(draw):
    return {
        "p": draw(st.lists(st.tuples(st.integers(0, 24), st.integers(0, 6), st.sampled_from([0, 0, 3])).map(list), min_size=1, max_size=14)),
        "h": draw(st.sampled_from([0.25, 0.1, 1.0])),
        "off": draw(st.sampled_from([0.0, 100.0])),
        "tol": draw(st.sampled_from(TOLS)),
        "verts": draw(st.booleans()),
    }


@st.composite
def s_wide(draw):
    s = draw(s_cloud())
    rng = random.Random(draw(st.integers(0, 10**6)))
    k = draw(st.sampled_from([20, 60, 400]))
    s["p"] = [[rng.randint(0, k), rng.randint(0, 6), rng.choice([0, 0, 3])] for _ in range(draw(st.integers(100, 300)))]
    return s


def c_cloud(s, rec):
    p = np.array(s["p"], dtype=float) * s["h"] + s["off"]
    tol = s["tol"] or 0.0
    lab = components(p, tol)
    if lab is None:
        rec.label("ambiguous")
        return
    m = pv.PolyData(p.copy()) if s["verts"] else pv.PolyData(p.copy(), verts=np.array([[1, i] for i in range(len(p))]).ravel())
    out = call(m, s["tol"])
    e = expected(p, lab)
    uniq = e[np.unique(lab, return_index=True)[1]]
    d = components(uniq, 1e-9 * geo.scale_of(p), False)
    if len(set(d.tolist())) != len(uniq):
        rec.label("coincident means")
        return
    geo.same(out.n_points, len(uniq), "number of points")
    idx = geo.match(out.points, uniq, "averaged points", tol=1e-9)
    geo.same(sorted(idx.tolist()), list(range(len(uniq))), "averaged points")
    rec.label(f"tol:{s['tol']}")
    rec.nontrivial(len(uniq) < len(p))


def c_lines(s, rec):
    p = np.array([[0.0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [2, 2, 0]])
    m = pv.PolyData(p, lines=[2, 0, 4], faces=[4, 0, 1, 2, 3]) if s["faces"] else pv.PolyData(p, lines=[3, 0, 1, 2])
    geo.raises(NotImplementedError, lambda: pvg.average_points(m, s["tol"]), "a mesh with lines")
    rec.nontrivial()


FACETS = [
    Facet("faces", s_faces(), c_faces, 1200, 12000),
    Facet("faces_large", meshes.large(s_faces(), "u", 105, 180), c_faces, 30, 300),
    Facet("cloud_large", s_wide(), c_cloud, 40, 400),
    Facet("cloud", s_cloud(), c_cloud, 1000, 10000),
    Facet("lines", st.fixed_dictionaries({"faces": st.booleans(), "tol": st.sampled_from([0.0, 1.0])}), c_lines, 8, 8),
]
