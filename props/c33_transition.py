"""C33: transitions between base lines of a 2D stack."""
from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "2D stacks in every direction with one or two transitions to a new base line (integer resolution or "
    "polyline) at random places of the item sequence, wavy interfaces; area, shared interface nodes, item, "
    "layer and column identifiers, groups and conformity. Non-trivial: the base line really changes."
)


@st.composite
def s_tr(draw, n_min=2, n_max=5):
    n = draw(st.integers(n_min, n_max))
    items = []
    for i in range(n):
        items.append(
            {
                "h": draw(st.sampled_from([0.5, 1.0, 1.5])),
                "wave": draw(st.sampled_from([0.0, 0.125, 0.25])),
                "res": draw(gen.resolution(3, ends=True)),
                "tr": draw(st.one_of(st.none(), st.integers(1, 6), st.lists(st.integers(1, 15), max_size=4, unique=True))) if i else None,
                "g": draw(st.sampled_from([None, "a", "b"])),
            }
        )
    if all(it["tr"] is None for it in items[1:]):
        items[-1]["tr"] = draw(st.integers(1, 6))
    return {
        "xs": draw(st.lists(st.integers(1, 15), max_size=4, unique=True)),
        "x0": draw(gen.num(-5, 5)),
        "len": draw(st.sampled_from([2.0, 4.0])),
        "axis": draw(st.sampled_from([2, 2, 1, 0])),
        "up": draw(st.booleans()),
        "items": items,
        "array": draw(st.booleans()),
        # Far from the origin, as geographic coordinates are
        "far": draw(st.sampled_from([0, 0, 0, 2.0**19])),
    }


def c_tr(s, rec):
    ax = s["axis"]
    lat = (ax + 1) % 3
    sgn = 1.0 if s["up"] else -1.0

    def line(frac):
        return s["x0"] + s.get("far", 0) + s["len"] * np.array([0.0, *sorted(f / 16 for f in frac), 1.0])

    xs = line(s["xs"])

    def poly(x):
        p = np.zeros((len(x), 3))
        p[:, lat] = x
        return pv.PolyData(p, lines=[len(x), *range(len(x))])

    e = pvg.MeshStack2D(xs if s["array"] and not s.get("far") else poly(xs), axis=ax, bottom_up=s["up"])

    def surface(level, wave):
        return lambda *c: sgn * level + wave * np.sin(c[lat])

    e.add(surface(0.0, 0.0))
    level, w0 = 0.0, 0.0
    blocks = []  # (kind, xs below, xs above, (level, wave) below, above, item)
    changed = False
    for i, it in enumerate(s["items"]):
        if it["tr"] is not None:
            new = line(it["tr"]) if isinstance(it["tr"], list) else np.linspace(xs[0], xs[-1], it["tr"] + 1)
            r = e.set_transition(poly(new) if isinstance(it["tr"], list) else it["tr"])
            require(r is e, "set_transition is not chainable")
        else:
            new = xs
        e.add(surface(level + it["h"], it["wave"]), geo.res_arg(it["res"]), it["res"]["m"], group=it["g"])
        blocks.append((it["tr"] is not None, xs, new, (level, w0), (level + it["h"], it["wave"]), it))
        changed |= len(new) != len(xs)
        level, w0, xs = level + it["h"], it["wave"], new
    m = e.generate_mesh()
    require(type(m) is pv.UnstructuredGrid, "type of a stack with a transition")
    pts = np.asarray(m.points, dtype=float)
    p2 = pts[:, [lat, ax]]
    cells = geo.ugrid_cells(m)
    item = np.asarray(m.cell_data["StackItem"])
    layer = np.asarray(m.cell_data["LayerId"])
    colid = np.asarray(m.cell_data["ColumnId"])
    group = pvg.get_cell_group(m)
    areas = np.array([abs(geo.signed_area2(p2[geo.ring(t, c)])) for t, c in cells])
    cent = np.array([p2[c].mean(axis=0) for _, c in cells])
    nl = 0
    edges = {}
    for _, c in cells:
        c = list(c)
        for a, b in zip(c, c[1:] + c[:1]):
            edges[frozenset((a, b))] = edges.get(frozenset((a, b)), 0) + 1
    for i, (tr, xa, xb, (la, wa), (lb, wb), it) in enumerate(blocks):
        za, zb = sgn * la + wa * np.sin(xa), sgn * lb + wb * np.sin(xb)
        mask = item == i
        ring = np.vstack([np.column_stack([xa, za]), np.column_stack([xb, zb])[::-1]])
        exp = abs(geo.signed_area2(ring))
        require(abs(areas[mask].sum() - exp) <= 1e-5 * exp, f"area of item {i}: {areas[mask].sum()}, expected {exp}")
        require((group[mask] == (it["g"] or "default")).all(), f"group of item {i}")
        n = len(geo.perc(it["res"])) - 1
        if tr:
            require((colid[mask] == -1).all(), f"columns of transition item {i}")
            require((layer[mask] == nl).all(), f"layer of transition item {i}")
            require(all(cells[k][0] == geo.CT.TRIANGLE for k in np.flatnonzero(mask)), "cells of a transition")
            nl += 1
        else:
            geo.same(int(mask.sum()), n * (len(xa) - 1), f"number of cells of item {i}")
            col = np.searchsorted(xa, cent[mask][:, 0]) - 1
            geo.array_equal(colid[mask], col, f"columns of item {i}")
            t = np.array(geo.perc(it["res"]))
            for k in np.flatnonzero(mask):
                c = np.searchsorted(xa, cent[k, 0]) - 1
                lo, hi = za[c : c + 2].mean(), zb[c : c + 2].mean()
                rel = (cent[k, 1] - lo) / (hi - lo)
                geo.same(int(layer[k]), nl + int(np.searchsorted(t, rel) - 1), f"layer of a cell of item {i}")
            nl += n
    # Conformity: interior edges are shared by two cells, the others follow the outline
    require(max(edges.values()) <= 2, "an edge is shared by more than two cells")
    free = [sorted(k) for k, v in edges.items() if v == 1]
    free_len = sum(float(np.linalg.norm(p2[a] - p2[b])) for a, b in free)
    first, last = blocks[0], blocks[-1]

    def length(x, lw):
        z = sgn * lw[0] + lw[1] * np.sin(x)
        return float(np.hypot(np.diff(x), np.diff(z)).sum())

    exp = length(first[1], first[3]) + length(last[2], last[4])
    for tr, xa, xb, a, b, it in blocks:
        for k in (0, -1):
            exp += abs(sgn * (b[0] - a[0]) + (b[1] - a[1]) * np.sin(xa[k]))
    require(abs(free_len - exp) <= 1e-5 * exp, f"outline length {free_len}, expected {exp}: layers are not connected")
    rec.label(f"axis:{ax}", f"up:{s['up']}", f"blocks:{''.join('t' if x[0] else 's' for x in blocks)}")
    rec.nontrivial(changed)


FACETS = [Facet("transition", s_tr(), c_tr, 1500, 15000), Facet("many", s_tr(7, 14), c_tr, 40, 400)]
