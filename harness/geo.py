"""Independent geometry used by the oracles (no pvgridder code)."""
from __future__ import annotations

import math
import random

import numpy as np
import pyvista as pv
from scipy.spatial import KDTree

from .core import Violation, require

CT = pv.CellType


# --------------------------------------------------------------- subdivisions
def perc(res):
    """Reference relative positions of a resolution spec."""
    r, m = res["r"], res["m"]
    if r is None:
        r = 1
    if isinstance(r, list):
        return sorted(float(v) for v in r)
    n = max(1, r)
    if m in (None, "constant"):
        return [i / n for i in range(n + 1)]
    if m == "log_r":
        return [math.log10(1.0 + 9.0 * i / n) for i in range(n + 1)]
    return [1.0 - math.log10(1.0 + 9.0 * (n - i) / n) for i in range(n + 1)]


def res_arg(res):
    """The argument handed to the code under test."""
    r = res["r"]
    if isinstance(r, list):
        return {"list": list, "tuple": tuple, "array": np.array}[res["as"]](r)
    return r


# --------------------------------------------------------------- assertions
def scale_of(*arrays):
    m = 1.0
    for a in arrays:
        a = np.asarray(a, dtype=float)
        if a.size:
            m = max(m, float(np.abs(a).max()))
    return m


def close(actual, expected, msg, tol=1.0e-9):
    a = np.asarray(actual, dtype=float)
    e = np.asarray(expected, dtype=float)
    require(a.shape == e.shape, f"{msg}: shape {a.shape}, expected {e.shape}")
    if a.size == 0:
        return
    bad = ~(np.abs(a - e) <= tol * scale_of(e))
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad)) if bad.ndim else ()
        raise Violation(f"{msg}: {a[i]!r} at {i}, expected {e[i]!r}")


def same(actual, expected, msg):
    require(actual == expected, f"{msg}: {actual!r}, expected {expected!r}")


def array_equal(actual, expected, msg):
    a, e = np.asarray(actual), np.asarray(expected)
    require(a.shape == e.shape, f"{msg}: shape {a.shape}, expected {e.shape}")
    if not np.array_equal(a, e):
        i = tuple(int(x[0]) for x in np.nonzero(a != e))
        raise Violation(f"{msg}: {a[i]!r} at {i}, expected {e[i]!r}")


def raises(exc, fn, msg):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{msg}: raised {type(e).__name__}: {e}") from e
    raise Violation(f"{msg}: accepted")


def match(actual, expected, msg, tol=1.0e-7):
    """Index into expected of every actual point."""
    actual = np.asarray(actual, dtype=float).reshape(-1, 3)
    expected = np.asarray(expected, dtype=float).reshape(-1, 3)
    if len(actual) == 0:
        return np.zeros(0, dtype=int)
    if scale_of(expected) > 1.0e5:
        # Far from the origin: relative to the extent
        actual, expected = actual - expected[0], expected - expected[0]
    t = tol * scale_of(expected)
    d, i = KDTree(expected).query(actual)
    if (d > t).any():
        k = int(np.argmax(d))
        raise Violation(f"{msg}: point {actual[k].tolist()} not expected (nearest at {d[k]:g})")
    return i


# --------------------------------------------------------------- mesh access
def ugrid_cells(mesh):
    """[(celltype, connectivity | list of faces)] straight from VTK arrays."""
    if not isinstance(mesh, pv.UnstructuredGrid):
        mesh = mesh.cast_to_unstructured_grid()
    off, con, types = mesh.offset, mesh.cell_connectivity, mesh.celltypes
    out = []
    for i, t in enumerate(types):
        if t == CT.POLYHEDRON:
            cell = mesh.GetCell(i)
            faces = []
            for j in range(cell.GetNumberOfFaces()):
                face = cell.GetFace(j)
                ids = face.GetPointIds()
                faces.append([ids.GetId(k) for k in range(ids.GetNumberOfIds())])
            out.append((int(t), faces))
        else:
            out.append((int(t), [int(x) for x in con[off[i] : off[i + 1]]]))
    return out


def structured_index(mesh):
    """Points of a structured grid as an array indexed [i, j, k]."""
    nx, ny, nz = mesh.dimensions
    return np.asarray(mesh.points, dtype=float).reshape((nz, ny, nx, 3)).transpose(2, 1, 0, 3)


def structured_cell_index(mesh, data):
    shape = [max(1, n - 1) for n in mesh.dimensions]
    data = np.asarray(data)
    tail = data.shape[1:]
    return data.reshape((shape[2], shape[1], shape[0], *tail)).transpose(
        (2, 1, 0, *range(3, 3 + len(tail)))
    )


FACES = {
    int(CT.HEXAHEDRON): [[0, 4, 7, 3], [1, 2, 6, 5], [0, 1, 5, 4], [3, 7, 6, 2], [0, 3, 2, 1], [4, 5, 6, 7]],
    int(CT.WEDGE): [[0, 1, 2], [3, 5, 4], [0, 3, 4, 1], [1, 4, 5, 2], [2, 5, 3, 0]],
    int(CT.TETRA): [[0, 1, 3], [1, 2, 3], [2, 0, 3], [0, 2, 1]],
    int(CT.PYRAMID): [[0, 3, 2, 1], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
    int(CT.VOXEL): [[0, 4, 6, 2], [1, 3, 7, 5], [0, 1, 5, 4], [2, 6, 7, 3], [0, 2, 3, 1], [4, 5, 7, 6]],
}


def cell_faces(ctype, cell):
    if ctype == CT.POLYHEDRON:
        return [list(f) for f in cell]
    return [[cell[i] for i in f] for f in FACES[ctype]]


def ring(ctype, cell):
    """Vertices of a 2D cell in polygon order."""
    return [cell[0], cell[1], cell[3], cell[2]] if ctype == CT.PIXEL else list(cell)


def polygon_normal_area(pts):
    """Vector area of a closed polygon."""
    pts = np.asarray(pts, dtype=float)
    p = pts - pts[0]
    return 0.5 * np.cross(p, np.roll(p, -1, axis=0)).sum(axis=0)


def signed_area2(pts):
    pts = np.asarray(pts, dtype=float)
    p = pts - pts[0]
    x, y = p[:, 0], p[:, 1]
    return 0.5 * float((x * np.roll(y, -1) - np.roll(x, -1) * y).sum())


def faces_volume(faces, points):
    """Signed volume enclosed by outward faces (fan from face centroids)."""
    points = np.asarray(points, dtype=float)
    ids = sorted({i for f in faces for i in f})
    o = points[ids].mean(axis=0)
    vol = 0.0
    for f in faces:
        p = points[f] - o
        c = p.mean(axis=0)
        for a, b in zip(p, np.roll(p, -1, axis=0)):
            vol += float(np.dot(c, np.cross(a, b))) / 6.0
    return vol


def polygon_centroid2(pts):
    pts = np.asarray(pts, dtype=float)
    o = pts[0]
    p = pts - o
    x, y = p[:, 0], p[:, 1]
    c = x * np.roll(y, -1) - np.roll(x, -1) * y
    a = c.sum() / 2.0
    return o + np.array(
        [((x + np.roll(x, -1)) * c).sum(), ((y + np.roll(y, -1)) * c).sum()]
    ) / (6.0 * a)


# --------------------------------------------------------------- base surfaces
def place(xy, axis, w):
    """Embed 2D coordinates in the plane perpendicular to an axis."""
    xy = np.asarray(xy, dtype=float)
    return np.insert(xy, axis, w, axis=1)


def usurf_arrays(spec):
    """points (n, 3), [(celltype, ids)] of an unstructured surface spec."""
    xs, ys = spec["xs"], spec["ys"]
    nx, ny = len(xs), len(ys)
    hx = min(b - a for a, b in zip(xs, xs[1:]))
    hy = min(b - a for a, b in zip(ys, ys[1:]))
    xy = []
    for j in range(ny):
        for i in range(nx):
            dx = dy = 0.0
            if spec["jit"]:
                a, b = spec["jit"][j * nx + i]
                dx, dy = a * hx / 20.0, b * hy / 20.0
            xy.append((xs[i] + dx, ys[j] + dy))
    used = set()
    cells = []
    n = 0
    for j in range(ny - 1):
        for i in range(nx - 1):
            k = spec["kinds"][n]
            flip = spec["flip"][n]
            n += 1
            if (i, j) in used:
                continue
            a, b, c, d = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            if k == 3 and spec["jit"]:
                k = 0
            if k == 5 and i + 2 < nx:
                used.add((i + 1, j))
                e, f = b + 1, c + 1
                new = [(int(CT.POLYGON), [a, b, e, f, c, d])]
            elif k in (4, 5):
                new = [(int(CT.POLYGON), [a, b, c, d])]
            elif k == 1:
                new = [(int(CT.TRIANGLE), [a, b, c]), (int(CT.TRIANGLE), [a, c, d])]
            elif k == 2:
                new = [(int(CT.TRIANGLE), [a, b, d]), (int(CT.TRIANGLE), [b, c, d])]
            elif k == 3:
                new = [(int(CT.PIXEL), [a, b, d, c])]
            else:
                new = [(int(CT.QUAD), [a, b, c, d])]
            for t, ids in new:
                if t == CT.PIXEL:
                    ids = [ids[0], ids[2], ids[1], ids[3]] if flip else ids
                else:
                    r = spec["roll"] % len(ids)
                    ids = ids[r:] + ids[:r]
                    ids = ids[::-1] if flip else ids
                cells.append((t, ids))
    order = list(range(len(xy)))
    if spec["perm"]:
        rng = random.Random(spec["perm"])
        rng.shuffle(order)
        rng.shuffle(cells)
    new_id = {old: new for new, old in enumerate(order)}
    pts = place([xy[o] for o in order], spec["axis"], spec["w"])
    return pts, [(t, [new_id[i] for i in ids]) for t, ids in cells]


def make_ugrid(points, cells):
    flat = []
    for _, ids in cells:
        flat += [len(ids), *ids]
    return pv.UnstructuredGrid(
        np.array(flat, dtype=int), [t for t, _ in cells], np.array(points, dtype=float)
    )


def build_usurf(spec):
    return make_ugrid(*usurf_arrays(spec))


def ssurf_points(spec):
    """[i, j, 3] array of the points of a structured surface spec."""
    xs, ys = spec["xs"], spec["ys"]
    out = np.zeros((len(xs), len(ys), 3))
    idx = [i for i in range(3) if i != spec["axis"]]
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            w = spec["w"]
            if spec["wob"]:
                w = w + spec["wob"][i * len(ys) + j]
            out[i, j, idx[0]] = x + spec["shear"] * y
            out[i, j, idx[1]] = y
            out[i, j, spec["axis"]] = w
    return out


def build_ssurf(spec, pts=None):
    pts = ssurf_points(spec) if pts is None else pts
    pts = np.expand_dims(pts, spec["axis"])
    return pv.StructuredGrid(pts[..., 0].copy(), pts[..., 1].copy(), pts[..., 2].copy())


def snapshot(mesh):
    """Everything a caller can observe of a mesh."""
    out = {"type": type(mesh).__name__, "points": np.array(mesh.points, copy=True)}
    for name in ("cell_data", "point_data", "field_data"):
        data = getattr(mesh, name)
        for k in data.keys():
            v = np.array(data[k], copy=True)
            out[f"{name}/{k}"] = v
    if isinstance(mesh, (pv.StructuredGrid, pv.ImageData, pv.RectilinearGrid)):
        out["dimensions"] = tuple(mesh.dimensions)
    if isinstance(mesh, pv.UnstructuredGrid):
        out["celltypes"] = np.array(mesh.celltypes, copy=True)
        out["cells"] = repr(ugrid_cells(mesh))
    if isinstance(mesh, pv.PolyData):
        out["faces"] = np.array(mesh.faces, copy=True)
        out["lines"] = np.array(mesh.lines, copy=True)
        out["verts"] = np.array(mesh.verts, copy=True)
    try:
        out["user_dict"] = repr(dict(mesh.user_dict)) if "_PYVISTA_USER_DICT" in mesh.field_data else ""
    except Exception:
        out["user_dict"] = ""
    return out


def unchanged(before, after, msg):
    keys_b = {k for k in before if not k.startswith("field_data/_PYVISTA")}
    keys_a = {k for k in after if not k.startswith("field_data/_PYVISTA")}
    require(keys_a == keys_b, f"{msg}: arrays changed ({sorted(keys_a ^ keys_b)})")
    for k in keys_b:
        b, a = before[k], after[k]
        if isinstance(b, np.ndarray):
            eq = (
                b.shape == a.shape
                and b.dtype == a.dtype
                and (np.array_equal(b, a, equal_nan=True) if b.dtype.kind == "f" else np.array_equal(b, a))
            )
        else:
            eq = b == a
        require(eq, f"{msg}: {k} changed")
