"""Generated meshes of every kind, with connectivity known independently of VTK and pvgridder."""
from __future__ import annotations

import random

from hypothesis import strategies as st

from . import gen, geo
from .boot import np, pv

CT = geo.CT
HEX_CORNERS = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
FACES = {
    int(CT.TETRA): [[0, 1, 2], [0, 1, 3], [1, 2, 3], [0, 2, 3]],
    int(CT.PYRAMID): [[0, 1, 2, 3], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
    int(CT.WEDGE): [[0, 1, 2], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]],
    int(CT.HEXAHEDRON): [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]],
    int(CT.VOXEL): [[0, 1, 3, 2], [4, 5, 7, 6], [0, 1, 5, 4], [1, 3, 7, 5], [3, 2, 6, 7], [2, 0, 4, 6]],
}
KINDS2 = ["u2", "s2", "i2", "r2", "p2"]
KINDS3 = ["u3", "s3", "i3", "r3"]


@st.composite
def mesh(draw, kinds=("u2", "u2", "s2", "i2", "r2", "p2", "u3", "u3", "u3", "s3", "s3", "i3", "r3"), n_max=3, hidden=True, empty=True, scaled=False, lines=False):
    kind = draw(st.sampled_from(list(kinds)))
    out = {"kind": kind}
    if kind in ("u2", "p2"):
        out["u"] = draw(gen.usurf(n_max))
    else:
        out["n"] = [draw(st.integers(1, n_max)) for _ in range(3)]
        if kind.endswith("2"):
            out["n"][draw(st.integers(0, 2))] = 0
        out["seed"] = draw(st.integers(0, 1000))
        out["jit"] = draw(st.booleans())
        out["split"] = draw(st.lists(st.integers(0, 7), min_size=27, max_size=27))
        out["collapse"] = draw(st.sampled_from([0, 0, 1, 2])) if kind == "s3" else 0
        out["perm"] = draw(st.booleans())
        if lines and kind == "u3":
            # Wedges written as hexahedra with repeated vertices
            out["repeat"] = draw(st.sampled_from([0, 0, 1, 2]))
    out["hidden"] = draw(st.lists(st.integers(0, 40), max_size=6)) if hidden and draw(st.booleans()) else []
    out["other"] = draw(st.lists(st.integers(0, 40), max_size=2)) if out["hidden"] else []
    if scaled:
        out["scale"] = draw(st.sampled_from([0, 0, 0, 0, -20, 14]))  # power of two: exact
    # Far from the origin, as geographic coordinates are
    out["far"] = 0 if out.get("scale") else draw(st.sampled_from([0, 0, 0, 1]))
    out["empty"] = draw(st.lists(st.integers(0, 10), max_size=2)) if empty and kind in ("u2", "u3") else []
    if lines and kind == "u2":
        # Lines through the points of the surface, alone or with its cells
        out["lines"] = draw(st.lists(st.lists(st.integers(0, 40), min_size=2, max_size=5, unique=True), max_size=3))
        out["alone"] = draw(st.sampled_from([False, False, True]))
        out["point"] = draw(st.sampled_from([0, 0, 0, 2, 3, 4]))  # lines without length
    if lines and kind == "s2":
        out["collapse"] = draw(st.sampled_from([0, 1, 2]))
    return out


def grow(s, size, seed):
    """The mesh of a specification, made of some hundreds of cells."""
    rng = random.Random(seed)
    s = dict(s)

    def coords(x, k):
        out = [x[0]]
        while len(out) < k:
            out.append(out[-1] + 0.25 * rng.randint(1, 8))
        return out

    if "u" in s:
        nx = rng.choice([1, 4, 11, 17, size])
        ny = -(-size // nx)
        u = dict(s["u"])
        u["xs"], u["ys"] = coords(u["xs"], nx + 1), coords(u["ys"], ny + 1)
        u["kinds"] = [rng.choice(u["kinds"]) for _ in range(nx * ny)]
        u["flip"] = [rng.choice(u["flip"]) for _ in range(nx * ny)]
        if u["jit"]:
            u["jit"] = [[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range((nx + 1) * (ny + 1))]
        s["u"] = u
    else:
        axes = [i for i in range(3) if s["n"][i]]
        n = [0, 0, 0]
        left = size
        for i in axes[:-1]:
            n[i] = rng.choice([1, 2, 5, 7])
            left = -(-left // n[i])
        n[axes[-1]] = left
        order = axes[:]
        rng.shuffle(order)
        out = [0, 0, 0]
        for i, j in zip(axes, order):
            out[j] = n[i]
        s["n"] = out
    if s["hidden"]:
        s["hidden"] = [rng.randint(0, 4 * size) for _ in range(rng.randint(1, size // 2))]
    return s


@st.composite
def large(draw, base, key="m", n_min=105, n_max=330):
    """Cases of another strategy, their mesh made large."""
    s = draw(base)
    n, seed = draw(st.integers(n_min, n_max)), draw(st.integers(0, 10**6))
    if key == "u":
        return {**s, "u": grow({"u": s["u"], "hidden": []}, n, seed)["u"]}
    return {**s, key: grow(s[key], n, seed)}


class Mesh:
    """mesh, points, cells = [(type, ids | faces)], hidden mask, dimension."""

    def __init__(self, s):
        self.spec = s
        k = s["kind"]
        self.dim = 2 if k.endswith("2") else 3
        if k in ("u2", "p2"):
            pts, cells = geo.usurf_arrays(s["u"])
            if k == "p2":
                cells = [(int(CT.POLYGON) if len(c) > 4 else int({3: CT.TRIANGLE, 4: CT.QUAD}[len(c)]), geo.ring(t, list(c))) for t, c in cells]
                self.mesh = pv.PolyData(pts, faces=np.concatenate([[len(c), *c] for _, c in cells]).astype(int))
            elif s.get("lines"):
                n = len(pts)
                ids = [list(dict.fromkeys(i % n for i in x)) for x in s["lines"]]
                ids = [x for x in ids if len(x) > 1]
                if s.get("alone") and ids:
                    cells = []
                if s.get("point") and len(cells) + len(ids):
                    pts = np.vstack([pts, pts[:1]])
                    ids += [[0, n] if i % 2 else [n, 0] for i in range(s["point"])]
                for x in ids:
                    cells.insert(x[0] % (len(cells) + 1), (int(CT.LINE if len(x) == 2 else CT.POLY_LINE), x))
        elif k == "u3":
            pts, cells = self.volume(s)
        else:
            pts, cells = self.grid(s)
        if s["empty"]:
            for e in s["empty"]:
                cells.insert(e % (len(cells) + 1), (int(CT.EMPTY_CELL), []))
        if k in ("u2", "u3"):
            self.mesh = ugrid(pts, cells)
        self.unit = 2.0 ** s.get("scale", 0)
        pts = np.asarray(pts, dtype=float)
        if self.unit != 1.0:
            pts = pts * self.unit
            if k[0] == "i":
                self.mesh.spacing = [x * self.unit for x in self.mesh.spacing]
                self.mesh.origin = [x * self.unit for x in self.mesh.origin]
            elif k[0] == "r":
                x, y, z = (np.asarray(a) * self.unit for a in (self.mesh.x, self.mesh.y, self.mesh.z))
                self.mesh = pv.RectilinearGrid(x, y, z)
            else:
                self.mesh.points = np.asarray(self.mesh.points) * self.unit
        if s.get("far"):
            far = np.array([2.0**19, 2.0**22, 2.0**10])
            pts = pts + far
            if k[0] == "i":
                self.mesh.origin = far + self.mesh.origin
            elif k[0] == "r":
                x, y, z = (np.asarray(a) + b for a, b in zip((self.mesh.x, self.mesh.y, self.mesh.z), far))
                self.mesh = pv.RectilinearGrid(x, y, z)
            else:
                self.mesh.points = np.asarray(self.mesh.points, dtype=float) + far
        self.points, self.cells = pts, cells
        self.hidden = np.zeros(len(cells), dtype=bool)
        if s["hidden"]:
            # An array of flags is not the same as no array
            self.hidden[[h % len(cells) for h in s["hidden"]]] = True
            flags = np.where(self.hidden, 32, 0).astype(np.uint8)
            for o in s["other"]:
                # Flags other than "hidden" do not hide
                flags[o % len(cells)] |= 1
            self.mesh.cell_data["vtkGhostType"] = flags

    def volume(self, s):
        nx, ny, nz = s["n"]
        rng = np.random.default_rng(s["seed"])
        p = np.array([[i, j, k] for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)], dtype=float)
        if s["jit"]:
            p += rng.integers(-2, 3, p.shape) / 16.0
        p = p * [2.0, 1.0, 1.5] + rng.integers(-20, 20, 3)
        pts = p.tolist()
        cells = []
        n = 0
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    c = [(i + a) + (j + b) * (nx + 1) + (k + d) * (nx + 1) * (ny + 1) for a, b, d in HEX_CORNERS]
                    kind = s["split"][n % len(s["split"])]
                    n += 1
                    if s.get("repeat") and kind in (0, 1):
                        new = [[c[q] for q in (0, 1, 2, 2, 4, 5, 6, 6)], [c[q] for q in (0, 2, 3, 3, 4, 6, 7, 7)]]
                        new = [(CT.HEXAHEDRON, x) if (s["repeat"] == 1) == (n % 2 == y) else (CT.WEDGE, [*x[:3], *x[4:7]]) for y, x in enumerate(new)]
                    elif kind == 1:
                        new = [(CT.WEDGE, [c[0], c[1], c[2], c[4], c[5], c[6]]), (CT.WEDGE, [c[0], c[2], c[3], c[4], c[6], c[7]])]
                    elif kind == 2:
                        m = len(pts)
                        pts.append(np.mean([pts[q] for q in c], axis=0).tolist())
                        quads = [[c[q] for q in f] for f in FACES[int(CT.HEXAHEDRON)]]
                        new = [(CT.PYRAMID, [*q, m]) for q in quads]
                    elif kind == 3:
                        ids = [[0, 1, 2, 5], [0, 2, 3, 7], [0, 5, 7, 4], [2, 7, 5, 6], [0, 2, 7, 5]]
                        new = [(CT.TETRA, [c[q] for q in t]) for t in ids]
                    elif kind == 4 and not s["jit"]:
                        new = [(CT.VOXEL, [c[q] for q in (0, 1, 3, 2, 4, 5, 7, 6)])]
                    elif kind in (5, 6):
                        # Outward faces
                        f = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
                        faces = [[c[q] for q in g] for g in f]
                        if kind == 6:
                            # Two triangles instead of the top
                            a, b, d, e = faces[1]
                            faces[1:2] = [[a, b, d], [a, d, e]]
                        new = [(CT.POLYHEDRON, faces)]
                    else:
                        new = [(CT.HEXAHEDRON, c)]
                    cells += [(int(t), ids) for t, ids in new]
        if s["perm"]:
            random.Random(s["seed"]).shuffle(cells)
        return np.array(pts), cells

    def grid(self, s):
        k = s["kind"][0]
        n = s["n"]
        rng = np.random.default_rng(s["seed"])
        ax = [np.cumsum(rng.integers(1, 5, m + 1) if k in "sr" else np.full(m + 1, 2)) / 2.0 + 3.0 for m in n]
        g = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1)
        if k == "s" and s["jit"]:
            g = g + rng.integers(-1, 2, g.shape) / 8.0
        if s["collapse"] and k == "s" and min(n) == 0:
            # A row of points upon the next one, in part
            u, v = [d for d in range(3) if n[d]]
            h = np.moveaxis(g, [u, v], [0, 1])
            lev = s["collapse"] % n[v]
            mask = rng.integers(0, 3, h.shape[0]) > 0
            h[mask, lev + 1] = h[mask, lev]
        elif s["collapse"] and n[2] > 1:
            lev = s["collapse"] % n[2]
            mask = rng.integers(0, 3, g.shape[:2]) > 0
            g[:, :, lev + 1][mask] = g[:, :, lev][mask]
        pts = g.reshape(-1, 3, order="F")
        if k == "s":
            self.mesh = pv.StructuredGrid(*[g[..., i].copy() for i in range(3)])
        elif k == "i":
            self.mesh = pv.ImageData(dimensions=g.shape[:3], spacing=(1.0, 1.0, 1.0), origin=[a[0] for a in ax])
        else:
            self.mesh = pv.RectilinearGrid(*[a.copy() for a in ax])
        nx, ny = n[0] + 1, n[1] + 1

        def pid(i, j, q):
            return i + j * nx + q * nx * ny

        cells = []
        flat = [m == 0 for m in n]
        for q in range(max(n[2], 1)):
            for j in range(max(n[1], 1)):
                for i in range(max(n[0], 1)):
                    if any(flat):
                        u, v = [d for d in range(3) if not flat[d]]
                        e = np.eye(3, dtype=int)
                        o = np.array([i, j, q])
                        c = [int(pid(*(o + a * e[u] + b * e[v]))) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
                        cells.append((int(CT.QUAD), c))
                    else:
                        cells.append((int(CT.HEXAHEDRON), [int(pid(i + a, j + b, q + d)) for a, b, d in HEX_CORNERS]))
        return pts, cells

    def elements(self, i):
        """Edges (2D) or faces (3D) of a cell, as rings of point indices."""
        t, c = self.cells[i]
        if t == CT.EMPTY_CELL:
            return []
        if t in (CT.LINE, CT.POLY_LINE):
            return [[a, b] for a, b in zip(c, c[1:])]
        if self.dim == 2:
            r = geo.ring(t, list(c))
            return [[a, b] for a, b in zip(r, r[1:] + r[:1])]
        if t == CT.POLYHEDRON:
            return [list(f) for f in c]
        return [[c[q] for q in f] for f in FACES[t]]

    def size(self, e):
        p = self.points[e] / self.unit
        if len(e) == 2:
            return float(np.abs(p[0] - p[1]).max())
        return float(np.linalg.norm(geo.polygon_normal_area(p)))

    def shared(self, ghosts):
        """{frozenset of points: (ring, cells)} of edges/faces; without hidden cells nor flat elements if ghosts is True."""
        out = {}
        for i in range(len(self.cells)):
            if ghosts and self.hidden[i]:
                continue
            for e in self.elements(i):
                if ghosts and self.size(e) < 1e-9:
                    continue
                r = out.setdefault(frozenset(e), (e, []))
                if i not in r[1]:
                    r[1].append(i)
        return out

    def vertices(self, i):
        t, c = self.cells[i]
        return sorted({q for f in c for q in f}) if t == CT.POLYHEDRON else list(c)


def ugrid(pts, cells):
    flat = []
    for t, c in cells:
        if t == CT.POLYHEDRON:
            body = [len(c)]
            for f in c:
                body += [len(f), *f]
            flat += [len(body), *body]
        else:
            flat += [len(c), *c]
    return pv.UnstructuredGrid(np.array(flat, dtype=int), [t for t, _ in cells], np.array(pts, dtype=float))


def same_ring(a, b):
    """Whether two rings are the same polygon up to rotation and direction."""
    a, b = ([int(i) for i, j in zip(x, [*x[1:], x[0]]) if i != j] for x in map(list, (a, b)))
    if len(set(b)) < 3:
        return set(a) == set(b)
    if len(a) != len(b) or set(a) != set(b):
        return False
    k = b.index(a[0])
    b = b[k:] + b[:k]
    return a == b or a == b[:1] + b[:0:-1]
