"""C11: where the interfaces of a stack come from."""
from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Stacks of 2-9 items whose elevations come from scalars, functions, scattered points, datasets, lines and "
    "planes, over every kind of base mesh, axis and direction; nodes of the generated mesh against an independent "
    "evaluation of each source. Non-trivial: at least one source is neither a scalar nor constant."
)

SRC = ["scalar", "callable", "linear", "nodes", "line", "plane", "nearest"]


@st.composite
def s_items(draw):
    b = draw(B.base(n_max=2))
    n = draw(st.sampled_from([2, 3, 4, 2, 3, 4, 9]))
    return {
        "b": b,
        "up": draw(st.booleans()),
        # Units of length of the lateral directions
        "unit": draw(st.sampled_from([[0, 0], [0, 0], [0, 0], [-12, -12], [-12, 0], [0, -12]])),
        "items": [
            {
                "src": draw(st.sampled_from(SRC)),
                "v": draw(gen.num(-3, 3)),
                "k": draw(st.lists(st.sampled_from([0.0, 0.25, -0.5, 1.0]), min_size=3, max_size=3)),
                "form": draw(st.sampled_from(["array", "poly", "ugrid", "sgrid", "list"])),
                "seed": draw(st.integers(0, 1000)),
                "n": draw(st.integers(3, 9)),
                "angles": draw(st.lists(st.sampled_from([0.0, 10.0, -20.0, 33.5]), min_size=3, max_size=3)),
                "as_int": draw(st.booleans()),
                "extra": draw(st.booleans()),
            }
            for _ in range(n)
        ],
    }


def dataset(p, form, tri=False):
    p = np.array(p)
    if form == "list":
        return p.tolist()
    if form == "poly":
        return pv.PolyData(p)
    if form == "ugrid":
        return pv.PolyData(p).cast_to_unstructured_grid()
    if form == "sgrid":
        return pv.StructuredGrid(*[p[:, i].reshape(-1, 1, 1).copy() for i in range(3)])
    return p


def rot(v, w):
    """Rodrigues rotation of v by the rotation vector w (radians)."""
    t = np.linalg.norm(w)
    if t == 0.0:
        return v
    k = w / t
    return v * np.cos(t) + np.cross(k, v) * np.sin(t) + k * np.dot(k, v) * (1 - np.cos(t))


def c_items(s, rec):
    b = B.Base(s["b"])
    sgn = 1.0 if s["up"] else -1.0
    U = np.ones(3)
    if not s["b"].get("rect"):
        U[b.lat] = np.exp2(s.get("unit", [0, 0]))
        b.mesh.points = np.asarray(b.mesh.points) * U.astype(b.mesh.points.dtype)
        b.pts = b.pts * U
    e = b.stack(bottom_up=s["up"])
    lat, ax = b.lat, b.axis
    L = b.pts[:, lat]
    u = U[lat]
    if b.kind == "l":
        varying = [i for i in range(2) if np.ptp(L[:, i]) > 0]
    else:
        varying = [0, 1]
    lo, hi = L.min(axis=0), L.max(axis=0)
    span = np.maximum(hi - lo, u)
    zs, rich = [], False
    for i, it in enumerate(s["items"]):
        rng = np.random.default_rng(it["seed"])
        base_z = sgn * 100.0 * i
        src = it["src"]
        k = np.array(it["k"])

        def plane(q, base_z=base_z, k=k, it=it):
            return base_z + it["v"] + ((q - lo) / span) @ k[:2]

        form = it["form"]
        kw = {}
        if src == "plane" and b.kind == "l":
            src = "callable"
        if src == "line" and b.kind != "l" and k[2] >= 0.0:
            src = "linear"
        if src == "scalar":
            if i == 0:
                v = base_z + it["v"]
                z = np.full(len(b.pts), v)
            else:
                v = 100.0 * (1.0 if it["as_int"] else -1.0)
                v += it["v"] * np.sign(v)
                z = zs[-1] + sgn * abs(v)
            if form == "array":
                v = np.array(v)
            elif form == "list" and it["as_int"]:
                v = int(round(v))
                z = np.full(len(b.pts), float(v)) if i == 0 else zs[-1] + sgn * abs(v)
            e.add(v, **kw)
        elif src == "callable":
            # Called with the coordinates of the base mesh
            z = plane(L) + k[2] * np.sin(L[:, 0] / u[0]) + 0.5 * k[0] * b.pts[:, ax] / max(1.0, abs(s["b"]["w"]))

            def f(x, y, w, base_z=base_z, k=k, it=it):
                c = np.column_stack([x, y, w])
                q = c[:, lat]
                out = base_z + it["v"] + ((q - lo) / span) @ k[:2]
                out = out + k[2] * np.sin(q[:, 0] / u[0]) + 0.5 * k[0] * c[:, ax] / max(1.0, abs(s["b"]["w"]))
                return out.tolist() if form == "list" else out

            e.add(f, **kw)
        elif src == "plane":
            w = np.deg2rad(np.array(it["angles"]))
            w[ax] = 0.0
            n = rot(np.eye(3)[ax], -w)
            pt = np.zeros(3)
            pt[lat] = lo + rng.random(2) * span
            pt[ax] = base_z + it["v"]
            z = pt[ax] - (L - pt[lat]) @ n[lat] / n[ax]
            ang = np.array(it["angles"])
            e.add_plane(ang if form == "array" else ang.tolist(), pt if it["as_int"] else pt.tolist(), **kw)
            geo.array_equal(ang, it["angles"], "angles of the plane")
        elif src == "line" or (b.kind == "l" and src in ("linear", "nodes", "nearest")):
            # One lateral coordinate varies in the data
            j = 0 if b.kind != "l" else [q for q in (0, 1) if lat[q] == (ax + 1) % 3][0]
            x0, x1 = lo[j], hi[j]
            m = it["n"]
            xp = np.sort(rng.random(m)) * (x1 - x0) + x0
            # From the first to the last points of the base, or beyond them
            g = 0.5 * u[j] * (it["seed"] % 3 > 0)
            xp[0], xp[-1] = (x0 - g, x1 + g) if src != "nearest" else (x0 + 0.3 * (x1 - x0), x0 + 0.6 * (x1 - x0))
            xp = np.unique(np.clip(xp, xp[0], xp[-1]))
            yp = base_z + it["v"] + rng.integers(-8, 8, len(xp)) / 4.0
            p = np.zeros((len(xp), 3))
            p[:, lat[j]] = xp
            p[:, ax] = yp
            if it["extra"]:
                p[:, lat[1 - j]] = 7.0
            z = np.interp(L[:, j], xp, yp)
            order = rng.permutation(len(xp)) if it["as_int"] else np.arange(len(xp))
            if src == "nearest":
                geo.raises(ValueError, lambda: b.stack(bottom_up=s["up"]).add(dataset(p[order], form)), "data not enclosing the base line")
                kw["extrapolation"] = "nearest"
            e.add(dataset(p[order], form), **kw)
            rich = rich or len(xp) > 2
        elif src in ("linear", "nodes"):
            # Scattered data: linear functions and values at the nodes are reproduced
            a, c = lo - u, hi + u
            corners = np.array([[a[0], a[1]], [c[0], a[1]], [c[0], c[1]], [a[0], c[1]]])
            if src == "linear":
                q = np.vstack([corners, lo + rng.random((it["n"], 2)) * span])
                val = plane(q)
                z = plane(L)
            else:
                q = np.vstack([L, corners]) if it["extra"] else L
                val = base_z + it["v"] + rng.integers(-8, 8, len(q)) / 4.0
                z = val[: len(L)]
            p = np.zeros((len(q), 3))
            p[:, lat] = q
            p[:, ax] = val
            order = rng.permutation(len(q))
            if it["extra"]:
                kw["extrapolation"] = "nearest"
            try:
                e.add(dataset(p[order], form), **kw)
            except ValueError:
                if src == "nodes" and not it["extra"]:
                    # Nodes on the hull may fall outside by rounding
                    kw["extrapolation"] = "nearest"
                    e.add(dataset(p[order], form), **kw)
                else:
                    raise
            rich = True
        else:  # nearest: part of the base mesh is outside of the data
            c = (lo + hi) / 2
            d = (hi - lo) / 2
            q = np.array([[-1, -0.8], [1, -0.7], [0.1, 1]]) * 0.9 * d * (0.9 + 0.1 * rng.random((3, 1))) + c
            val = plane(q) + rng.integers(-4, 4, 3) / 4.0
            p = np.zeros((3, 3))
            p[:, lat] = q
            p[:, ax] = val
            geo.raises(ValueError, lambda: b.stack(bottom_up=s["up"]).add(dataset(p, form)), "data not enclosing the base mesh")
            geo.raises(ValueError, lambda: b.stack(bottom_up=s["up"]).add(dataset(p, form), extrapolation="foo"), "unknown extrapolation")
            e.add(dataset(p, form), extrapolation="nearest")
            dist = np.linalg.norm(L[:, None] - q[None], axis=-1)
            got = np.asarray(e.items[-1].mesh.points, dtype=float)[:, ax]
            near = np.isclose(dist, dist.min(axis=1)[:, None], rtol=1e-6)
            # Linear inside the triangle of the data, nearest value outside (either one on its edges)
            lin = np.linalg.solve(np.vstack([q.T, np.ones(3)]), np.vstack([L.T, np.ones(len(L))]))
            z = got.copy()
            for r in range(len(L)):
                ok = []
                if lin[:, r].min() > -1e-6:
                    ok.append(float(val @ lin[:, r]))
                if lin[:, r].min() < 1e-6:
                    ok += val[near[r]].tolist()
                require(min(abs(v - got[r]) for v in ok) <= 1e-3, f"extrapolated value {got[r]}, expected {ok}")
            rich = True
        rich = rich or (src in ("callable", "plane") and bool(np.ptp(z) > 0))
        zs.append(np.asarray(z, dtype=float))
        rec.label(src, f"form:{form}")
    m = e.generate_mesh()
    pos = np.concatenate([B.shift(b, z) for z in zs])
    geo.same(m.n_points, len(pos), "number of nodes")
    idx = geo.match(np.asarray(m.points) / U, pos / U, "nodes of the stack", tol=2e-6)
    geo.same(len(set(idx.tolist())), len(pos), "nodes of the stack")
    rec.label(b.kind, f"axis:{ax}", f"up:{s['up']}", f"unit:{u.tolist()}")
    rec.nontrivial(rich)


FACETS = [Facet("items", s_items(), c_items, 1600, 20000)]
