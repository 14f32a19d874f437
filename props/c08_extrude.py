"""C08: placement of extruded sections."""
import math

from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "MeshExtrude histories of 1-3 steps (vector, subdivision, scale, angle; given per step, by default, or "
    "neither) over structured and unstructured bases in every plane; all the nodes and cells are compared "
    "with an independent translate/scale/rotate model. Non-trivial: a step that scales or rotates, or >= 2 steps."
)


def rotation(axis, deg):
    """Rodrigues rotation matrix."""
    x, y, z = np.asarray(axis, dtype=float) / np.linalg.norm(axis)
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) * c + s * k + (1 - c) * np.outer([x, y, z], [x, y, z])


def box_center(p):
    return 0.5 * (p.min(axis=0) + p.max(axis=0))


@st.composite
def s_ext(draw):
    n = draw(st.integers(1, 3))
    scale = st.one_of(st.none(), st.none(), st.sampled_from([0.5, 0.8, 1.0, 1.25, 2.0]))
    angle = st.one_of(st.none(), st.none(), gen.num(-80, 80), st.sampled_from([0.0, 30.0, -45.0]))
    return {
        "b": draw(B.base(("s", "u"))),
        "scale": draw(scale),
        "angle": draw(angle),
        "steps": [
            {
                "v": draw(gen.point3(-3, 3)),
                "h": draw(gen.pos(3.0, 0.5)),
                "res": draw(gen.resolution(3, ends=True)),
                "scale": draw(scale),
                "angle": draw(angle),
                "as": draw(st.sampled_from(["list", "array"])),
            }
            for _ in range(n)
        ],
        "up": draw(st.booleans()),
        "oblique": draw(st.booleans()),
        "image": draw(st.booleans()),
    }


@st.composite
def s_many(draw):
    """Many steps, scaled little."""
    from random import Random

    s = draw(s_ext())
    rng = Random(draw(st.integers(0, 10**6)))
    step = s["steps"][0]
    s["scale"] = rng.choice([None, 0.9, 1.1])
    s["steps"] = [
        {
            **step,
            "v": [0.25 * rng.randint(-8, 8) for _ in range(3)],
            "h": 0.5 + 0.25 * rng.randint(0, 6),
            "res": {"r": rng.choice([None, 1, 2]), "m": None, "as": "list"},
            "scale": rng.choice([None, 0.9, 1.0, 1.1]),
            "angle": rng.choice([None, 15.0, -30.0, 0.0]),
        }
        for _ in range(draw(st.integers(4, 20)))
    ]
    return s


def c_ext(s, rec):
    spec = s["b"]
    if s["image"] and spec["kind"] == "s":
        spec = {**spec, "wob": None, "shear": 0.0}
    b = B.Base(spec)
    mesh = b.mesh
    if s["image"] and b.kind == "s":
        c = [None] * 3
        c[b.lat[0]], c[b.lat[1]], c[b.axis] = np.array(spec["xs"]), np.array(spec["ys"]), np.array([spec["w"]])
        mesh = pv.RectilinearGrid(*c)
    kw = {k: s[k] for k in ("scale", "angle") if s[k] is not None}
    e = pvg.MeshExtrude(mesh, **kw)
    p = b.pts.copy()
    lev = [p]
    items = []
    moved = False
    for k, step in enumerate(s["steps"]):
        v = np.array(step["v"]) * (1.0 if s["oblique"] else 0.0)
        v[b.axis] = step["h"] * (1.0 if s["up"] else -1.0)
        kw = {q: step[q] for q in ("scale", "angle") if step[q] is not None}
        e.add(v.tolist() if step["as"] == "list" else v, geo.res_arg(step["res"]), step["res"]["m"], **kw)
        sc = step["scale"] if step["scale"] is not None else s["scale"]
        an = step["angle"] if step["angle"] is not None else s["angle"]
        q = p + v
        c = box_center(q)
        if sc is not None:
            q = (q - c) * sc + c
            moved |= sc != 1.0
        if an is not None:
            q = (q - c) @ rotation(v, an).T + c
            moved |= an != 0.0
        t = geo.perc(step["res"])
        lev += [p + x * (q - p) for x in t[1:]]
        items += [k] * (len(t) - 1)
        p = q
    m = e.generate_mesh()
    lev = np.array(lev)
    require(type(m) is (pv.StructuredGrid if b.kind == "s" else pv.UnstructuredGrid), f"type {type(m).__name__}")
    if b.kind == "s":
        got = np.moveaxis(geo.structured_index(m), b.axis, 0)
        nx, ny = len(spec["xs"]), len(spec["ys"])
        exp = lev.reshape(len(lev), ny, nx, 3).transpose(0, 2, 1, 3)
        geo.close(got, exp, "nodes of the extrusion", tol=2e-6)
    else:
        geo.same(m.n_points, lev.shape[0] * lev.shape[1], "number of nodes")
        idx = geo.match(m.points, lev.reshape(-1, 3), "nodes of the extrusion", tol=2e-6)
        # Every cell joins the two ends of its base cell in one layer
        n = len(b.pts)
        got = sorted(tuple(sorted(idx[i].item() for i in ids)) for ids in B.vertex_ids(m))
        exp = sorted(
            tuple(sorted([i + k * n for i in c] + [i + (k + 1) * n for i in c]))
            for k in range(len(lev) - 1)
            for c in b.cells
        )
        geo.same(got, exp, "cells of the extrusion")
    rec.label(b.kind, f"axis:{b.axis}", f"default_scale:{s['scale'] is not None}", f"default_angle:{s['angle'] is not None}")
    rec.nontrivial(moved or len(s["steps"]) > 1)


@st.composite
def s_bad(draw):
    return {"b": draw(B.base(("s", "u"))), "n": draw(st.sampled_from([1, 2, 4, 0])), "case": draw(st.sampled_from(["vector", "few", "3d", "1d", "matrix"]))}


def c_bad(s, rec):
    b = B.Base(s["b"])
    if s["case"] == "vector":
        geo.raises(ValueError, lambda: pvg.MeshExtrude(b.mesh).add([1.0] * s["n"]), "vector which is not 3D")
    elif s["case"] == "matrix":
        geo.raises(ValueError, lambda: pvg.MeshExtrude(b.mesh).add([[0.0, 0.0, 1.0]]), "2D vector")
    elif s["case"] == "few":
        geo.raises(ValueError, lambda: pvg.MeshExtrude(b.mesh).generate_mesh(), "nothing to extrude")
    elif s["case"] == "3d":
        v = pvg.MeshExtrude(b.mesh).add(np.eye(3)[b.axis]).generate_mesh()
        geo.raises(ValueError, lambda: pvg.MeshExtrude(v), "3D base")
    else:
        geo.raises(ValueError, lambda: pvg.MeshExtrude(pv.Line().cast_to_unstructured_grid()), "1D base")
    rec.label(s["case"])
    rec.nontrivial()


FACETS = [
    Facet("sections", s_ext(), c_ext, 2000, 25000),
    Facet("many", s_many(), c_ext, 80, 1000),
    Facet("reject", s_bad(), c_bad, 200, 600),
]
