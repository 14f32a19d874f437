"""Strategies producing JSON specs."""
from __future__ import annotations

from hypothesis import strategies as st


def num(lo, hi):
    """Numbers in [lo, hi]: dyadic (exact arithmetic) or decimal."""
    return st.one_of(
        st.integers(int(lo * 16), int(hi * 16)).map(lambda i: i / 16.0),
        st.integers(int(lo * 10), int(hi * 10)).map(lambda i: i / 10.0),
        st.integers(int(lo * 1000), int(hi * 1000)).map(lambda i: i / 1000.0),
    )


def dyadic(lo, hi, den=16):
    return st.integers(int(lo * den), int(hi * den)).map(lambda i: i / den)


def pos(hi=8.0, lo=0.125):
    """Strictly positive numbers, away from zero."""
    return num(lo, hi).map(lambda x: max(x, lo))


offset = st.one_of(
    st.just(0.0), num(-20, 20), st.sampled_from([-1000.5, 1234.25, 4321.1])
)


@st.composite
def increasing(draw, n_min=2, n_max=5, start=None, step=None):
    n = draw(st.integers(n_min, n_max))
    x = draw(start if start is not None else num(-5, 5))
    out = [x]
    for _ in range(n - 1):
        x = x + draw(step if step is not None else pos(3.0, 0.25))
        out.append(x)
    return out


method = st.sampled_from([None, "constant", "log", "log_r"])


@st.composite
def perc_list(draw, n_max=5, ends=None, repeats=False):
    """Explicit relative positions, possibly unsorted, repeated or without the end points."""
    vals = draw(
        st.lists(st.integers(1, 63), min_size=0, max_size=n_max, unique=True)
    )
    if repeats and vals and draw(st.sampled_from([False, False, True])):
        vals.append(vals[0])
    vals = [v / 64.0 for v in vals]
    if ends is None:
        ends = draw(st.sampled_from([True, True, True, False]))
    if ends or len(vals) < 2:
        vals = [0.0, *vals, 1.0]
    if draw(st.booleans()):
        vals = vals[::-1]
    k = draw(st.integers(0, len(vals) - 1))
    return vals[k:] + vals[:k]


@st.composite
def resolution(draw, n_max=5, ends=None, repeats=False):
    """A (resolution, method) pair as accepted by every builder."""
    kind = draw(st.sampled_from(["none", "int", "int", "int", "list", "list", "low"]))
    m = draw(method)
    if kind == "none":
        r = None
    elif kind == "low":
        r = draw(st.sampled_from([0, 1, -2]))
    elif kind == "int":
        r = draw(st.integers(1, n_max))
    else:
        r = draw(perc_list(n_max - 1, ends, repeats))
    return {"r": r, "m": m, "as": draw(st.sampled_from(["list", "tuple", "array"]))}


def plain_resolution(n_max=3):
    return st.integers(1, n_max).map(lambda n: {"r": n, "m": None, "as": "list"})


def point3(lo=-10, hi=10):
    return st.tuples(num(lo, hi), num(lo, hi), num(lo, hi)).map(list)


@st.composite
def usurf(draw, n_max=3, kinds=(0, 1, 2, 3, 4, 5), jitter=True, axis=None, z=None):
    """Planar unstructured surface: jittered grid of quads, triangles, pixels, polygons."""
    xs = draw(increasing(2, n_max + 1))
    ys = draw(increasing(2, n_max + 1))
    if draw(st.sampled_from([0, 0, 0, 0, 1])):
        # Far from the origin, as geographic coordinates are
        xs, ys = [x + 2.0**19 for x in xs], [y + 2.0**22 for y in ys]
    n = (len(xs) - 1) * (len(ys) - 1)
    use_jit = jitter and draw(st.booleans())
    return {
        "xs": xs,
        "ys": ys,
        "kinds": draw(st.lists(st.sampled_from(list(kinds)), min_size=n, max_size=n)),
        "flip": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "roll": draw(st.integers(0, 3)),
        "perm": draw(st.integers(0, 50)),
        "jit": draw(
            st.lists(
                st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(list),
                min_size=len(xs) * len(ys),
                max_size=len(xs) * len(ys),
            )
        )
        if use_jit
        else None,
        "axis": draw(st.sampled_from([2, 2, 0, 1])) if axis is None else axis,
        "w": draw(offset) if z is None else z,
    }


@st.composite
def ssurf(draw, n_max=4, axis=None, wobble=True, z=None):
    """Structured surface perpendicular to an axis, optionally non planar."""
    xs = draw(increasing(2, n_max + 1))
    ys = draw(increasing(2, n_max + 1))
    if draw(st.sampled_from([0, 0, 0, 0, 1])):
        # Far from the origin, as geographic coordinates are
        xs, ys = [x + 2.0**19 for x in xs], [y + 2.0**22 for y in ys]
    wob = wobble and draw(st.booleans())
    return {
        "xs": xs,
        "ys": ys,
        "axis": draw(st.sampled_from([2, 2, 0, 1])) if axis is None else axis,
        "w": draw(offset) if z is None else z,
        "wob": draw(
            st.lists(
                dyadic(-1, 1), min_size=len(xs) * len(ys), max_size=len(xs) * len(ys)
            )
        )
        if wob
        else None,
        "shear": draw(st.sampled_from([0.0, 0.0, 0.25, -0.5])),
    }


def _resolutions(x):
    """Every resolution of a spec."""
    if isinstance(x, dict):
        if {"r", "m", "as"} <= set(x):
            return [x]
        x = list(x.values())
    return [r for y in x for r in _resolutions(y)] if isinstance(x, list) else []


@st.composite
def fine(draw, base, n_min=33, n_max=150):
    """A spec in which one of the resolutions is large."""
    from random import Random

    spec = draw(base)
    res = _resolutions(spec)
    n = draw(st.integers(n_min, n_max))
    rng = Random(draw(st.integers(0, 10**6)))
    if res:
        r = rng.choice(res)
        if isinstance(r["r"], list):
            r["r"] = [0.0, *sorted(x / 1024.0 for x in rng.sample(range(1, 1024), n - 1)), 1.0]
        else:
            r["r"] = n
    return spec


@st.composite
def either(draw, table, wrap=lambda x: x):
    """A spec of one of several facets {name: (strategy, check)}."""
    k = draw(st.sampled_from(sorted(table)))
    return {"of": k, "spec": draw(wrap(table[k][0]))}


def check_either(table):
    def check(s, rec):
        rec.label(s["of"])
        table[s["of"]][1](s["spec"], rec)

    return check
