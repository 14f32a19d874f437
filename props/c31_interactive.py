"""C31: interactive selections."""
from random import Random
from types import SimpleNamespace

from hypothesis import strategies as st

from harness import geo, meshes
from harness.boot import np, pv, pvg
from harness.core import Facet, require

CT = geo.CT
RULE = (
    "Sequences of clicks played through a recording plotter (given, or created by the function) on meshes of every kind: picks repeated in "
    "any order, lassos drawn in any view, clockwise or not, convex or not. Non-trivial: an element picked twice, or a lasso that contains some elements but not all."
)
VIEWS = ["xy", "xz", "yz", "yx", "zx", "zy"]
PUBLIC = set(dir(pv.Plotter)) | {"renderer", "camera", "mesh"}


class Recorder:
    """Stands for a plotter: records calls, and plays clicks when shown."""

    script = None

    def __init__(self, *args, **kwargs):
        self.calls, self.shown, self.actors = [], 0, {}
        self.theme = SimpleNamespace()
        self.pick = self.click = None
        self.play = type(self).script
        type(self).last = self

    def add_mesh(self, mesh, *args, **kwargs):
        actor = f"actor{len(self.calls)}"
        self.calls.append(("add_mesh", (mesh, *args), kwargs))
        self.actors[actor] = mesh
        return actor

    def remove_actor(self, actor, *args, **kwargs):
        self.calls.append(("remove_actor", (actor, *args), kwargs))
        for a in [actor] if isinstance(actor, str) else actor:
            require(a in self.actors, f"actor {a} removed but not there")
            del self.actors[a]

    def enable_element_picking(self, *args, **kwargs):
        kw = {**dict(zip(["mode", "callback"], args)), **kwargs}
        self.calls.append(("enable_element_picking", (), kw))
        self.pick = kw["callback"]

    def track_click_position(self, *args, **kwargs):
        kw = {"side": "right", "double": False, **dict(zip(["callback", "side", "double"], args)), **kwargs}
        self.calls.append(("track_click_position", (), kw))
        self.click = kw["callback"]

    def show(self, *args, **kwargs):
        self.calls.append(("show", args, kwargs))
        self.shown += 1
        self.play(self)

    def __getattr__(self, name):
        if name not in PUBLIC or name.startswith("__"):
            raise AttributeError(name)

        def call(*args, **kwargs):
            self.calls.append((name, args, kwargs))

        return call

    def named(self, name):
        return [c for c in self.calls if c[0] == name]


def run(play, given, func):
    """Call func with a plotter, or let it create one."""
    old = pv.Plotter
    R = type("Recorder", (Recorder,), {"script": staticmethod(play), "last": None})
    pv.Plotter = R
    try:
        p = R() if given else None
        out = func(p)
        if p is not None:
            require(R.last is p, "another plotter is used than the given one")
        return out, R.last
    finally:
        pv.Plotter = old


def negated(call):
    _, args, kw = call
    return bool(kw.get("negative", args[0] if args else False))


def check_view(p, view):
    calls = [c for c in p.calls if c[0].startswith("view_")]
    if view is None:
        geo.same([c[0] for c in calls], [], "views set")
        return
    neg = view.startswith("-")
    geo.same([(c[0], negated(c)) for c in calls], [(f"view_{view.lstrip('-')}", neg)], f"view set for {view}")
    i = next(k for k, c in enumerate(p.calls) if c[0].startswith("view_"))
    j = next(k for k, c in enumerate(p.calls) if c[0] == "show")
    require(i < j, "view set after the plotter is shown")


def check_mesh(p, m, kwargs):
    mesh, kw = p.named("add_mesh")[0][1][0], p.named("add_mesh")[0][2]
    require(mesh is m or geo.snapshot(mesh).keys() == geo.snapshot(m).keys(), "first mesh plotted")
    for k, v in kwargs.items():
        if k not in ("show_edges", "pickable"):
            geo.same(kw.get(k, "absent"), v, f"option {k} of the plotted mesh")
    geo.same((kw.get("show_edges"), kw.get("pickable")), (True, True), "edges and pickability of the plotted mesh")
    if "scalar_bar_args" not in kwargs:
        require("scalar_bar_args" in kw, "no scalar bar by default")


options = st.dictionaries(st.sampled_from(["scalars", "opacity", "show_edges", "pickable", "scalar_bar_args", "color"]), st.sampled_from([0, 1]), max_size=3)


@st.composite
def s_pick(draw):
    pool = draw(st.lists(st.integers(0, 60), min_size=1, max_size=4))
    return {
        "m": draw(meshes.mesh(n_max=2, hidden=False, empty=False)),
        "pref": draw(st.sampled_from([None, "cell", "point"])),
        "picks": draw(st.lists(st.sampled_from(pool), max_size=10)),
        "view": draw(st.sampled_from([None, "isometric", "-isometric", *VIEWS, *["-" + v for v in VIEWS]])),
        "parallel": draw(st.sampled_from([None, True, False])),
        "picker": draw(st.sampled_from([None, "cell", "hardware", "point"])),
        "tol": draw(st.sampled_from([None, 0.0, 0.25])),
        "given": draw(st.booleans()),
        "opt": draw(options),
    }


def picked(m, pref, i):
    if pref == "cell":
        c = m.copy().extract_cells([i])
        c.cell_data["vtkOriginalCellIds"] = [i]
        return c
    c = pv.PolyData(np.asarray(m.points)[[i]])
    c.point_data["vtkOriginalPointIds"] = [i]
    return c


def c_pick(s, rec):
    m = meshes.Mesh(s["m"]).mesh
    pref = s["pref"] or "cell"
    n = m.n_cells if pref == "cell" else m.n_points
    ids = [i % n for i in s["picks"]]
    kw = dict(s["opt"])
    for k, key in (("pref", "preference"), ("view", "view"), ("parallel", "parallel_projection"), ("picker", "picker"), ("tol", "tolerance")):
        if s[k] is not None:
            kw[key] = s[k]

    def play(p):
        require(p.pick is not None, "picking not enabled when the plotter is shown")
        sel = set()
        base = dict(p.actors)
        for i in ids:
            p.pick(picked(m, pref, i))
            sel ^= {i}
            new = [a for k, a in p.actors.items() if k not in base]
            key = "vtkOriginalCellIds" if pref == "cell" else "vtkOriginalPointIds"
            got = sorted(int((a.cell_data if pref == "cell" else a.point_data)[key][0]) for a in new)
            geo.same(got, sorted(sel), "elements highlighted after a click")

    before = geo.snapshot(m)
    out, p = run(play, s["given"], lambda q: pvg.interactive_selection(m, q, **kw))
    geo.unchanged(before, geo.snapshot(m), "mesh after an interactive selection")
    geo.same(p.shown, 1, "times the plotter is shown")
    ref = sorted(i for i in set(ids) if ids.count(i) % 2)
    out = np.asarray(out)
    geo.same(out.ndim, 1, "dimension of the selection")
    geo.same(sorted(int(i) for i in out), ref, f"elements selected after picking {ids}")
    if ref:
        require(out.dtype.kind in "iu", f"type {out.dtype} of indices")
    check_view(p, s["view"])
    check_mesh(p, m, s["opt"])
    geo.same(len(p.named("enable_parallel_projection")) > 0, bool(s["parallel"]), "parallel projection")
    e = p.named("enable_element_picking")[0][2]
    geo.same(str(getattr(e["mode"], "value", e["mode"])), pref, "mode of picking")
    geo.same(e.get("picker"), s["picker"] or pref, "picker")
    geo.same(e.get("tolerance"), s["tol"] or 0.0, "tolerance of picking")
    rec.label(pref, f"view:{s['view']}", "given" if s["given"] else "created", f"picker:{s['picker']}", "toggled" if len(set(ids)) < len(ids) else "once")
    rec.nontrivial(len(set(ids)) < len(ids))


@st.composite
def s_lasso(draw):
    return {
        "m": draw(meshes.mesh(n_max=3, hidden=False)),
        "pref": draw(st.sampled_from([None, "cell", "point"])),
        "view": draw(st.sampled_from([None, *VIEWS, *["-" + v for v in VIEWS]])),
        "poly": draw(st.lists(st.tuples(st.integers(5, 20), st.integers(0, 3)), min_size=3, max_size=8)),
        "at": [draw(st.integers(-2, 10)) for _ in range(2)],
        "size": draw(st.sampled_from([0.3, 0.6, 1.0, 1.5])),
        "cw": draw(st.booleans()),
        "depth": draw(st.lists(st.integers(-50, 50), min_size=8, max_size=8)),
        "ret": draw(st.sampled_from([None, True, False])),
        "given": draw(st.booleans()),
        "opt": draw(options),
    }


@st.composite
def s_many_picks(draw):
    """Long sessions on large meshes."""
    s = draw(meshes.large(s_pick(), "m"))
    rng = Random(draw(st.integers(0, 10**6)))
    pool = rng.sample(range(400), rng.choice([3, 20, 200]))
    s["picks"] = [rng.choice(pool) for _ in range(rng.randint(12, 80))]
    return s


@st.composite
def s_many_clicks(draw):
    """Lassos of many clicks on large meshes."""
    s = draw(meshes.large(s_lasso(), "m"))
    rng = Random(draw(st.integers(0, 10**6)))
    n = rng.randint(9, 60)
    s["poly"] = [[rng.randint(5, 20), rng.randint(0, 3)] for _ in range(n)]
    s["depth"] = [rng.randint(-50, 50) for _ in range(n)]
    return s


def inside(q, poly):
    """Even-odd rule, and distance to the boundary."""
    n = len(poly)
    c = np.zeros(len(q), dtype=bool)
    d = np.full(len(q), np.inf)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        with np.errstate(divide="ignore", invalid="ignore"):
            cross = (a[1] > q[:, 1]) != (b[1] > q[:, 1])
            c ^= cross & (q[:, 0] < a[0] + (q[:, 1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]))
        u = b - a
        t = np.clip(((q - a) @ u) / (u @ u), 0.0, 1.0)
        d = np.fmin(d, np.linalg.norm(q - a - t[:, None] * u, axis=1))
    return c, d


def c_lasso(s, rec):
    M = meshes.Mesh(s["m"])
    m = M.mesh
    pref = s["pref"] or "cell"
    view = s["view"] or "xy"
    axes = [a for a in range(3) if "xyz"[a] in view.lstrip("-")]
    drop = ({0, 1, 2} - set(axes)).pop()
    if pref == "cell":
        # Centres that are the mean of the vertices
        pts = np.full((len(M.cells), 3), np.nan)
        known = np.ones(len(M.cells), dtype=bool)
        for i, (t, c) in enumerate(M.cells):
            if t in (CT.POLYHEDRON, CT.PYRAMID, CT.POLYGON):
                known[i] = False
            elif t != CT.EMPTY_CELL:
                pts[i] = M.points[M.vertices(i)].mean(axis=0)
    else:
        pts = M.points
        known = np.ones(len(pts), dtype=bool)
    # Star-shaped lasso around a point of the mesh's bounds
    lo, hi = M.points.min(axis=0), M.points.max(axis=0)
    ctr = np.array([lo[a] + (hi[a] - lo[a]) * s["at"][k] / 8.0 for k, a in enumerate(axes)])
    rad = max((hi - lo)[axes].max(), 0.5) * s["size"]
    k = len(s["poly"])
    ang = np.array([(i + w / 8.0) * 2.0 * np.pi / k for i, (_, w) in enumerate(s["poly"])]) + 0.137
    poly = ctr + rad * np.array([r / 20.0 for r, _ in s["poly"]])[:, None] * np.column_stack([np.cos(ang), np.sin(ang)])
    if s["cw"]:
        poly = poly[::-1]
    clicks = np.zeros((k, 3))
    clicks[:, axes] = poly
    clicks[:, drop] = s["depth"][:k]

    def play(p):
        require(p.click is not None, "clicks not tracked when the plotter is shown")
        for q in clicks:
            p.click(tuple(float(x) for x in q))

    kw = dict(s["opt"])
    for name, key in (("pref", "preference"), ("view", "view"), ("ret", "return_polygon")):
        if s[name] is not None:
            kw[key] = s[name]
    before = geo.snapshot(m)
    out, p = run(play, s["given"], lambda q: pvg.interactive_lasso_selection(m, q, **kw))
    geo.unchanged(before, geo.snapshot(m), "mesh after a lasso selection")
    if s["ret"]:
        require(isinstance(out, tuple) and len(out) == 2, f"result of type {type(out).__name__} when the polygon is asked")
        out, shape = out
        ring = np.array(shape.exterior.coords)[:, :2]
        geo.close(np.sort(ring[:-1], axis=0) - lo[axes], np.sort(poly, axis=0) - lo[axes], "vertices of the lasso", tol=1e-5)
        x, y = (poly - poly[0]).T
        area = 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))
        ring -= ring[0]
        got = 0.5 * abs(np.dot(ring[:-1, 0], ring[1:, 1]) - np.dot(ring[:-1, 1], ring[1:, 0]))
        geo.close(got, area, "area of the lasso", tol=1e-5)
    require(not isinstance(out, tuple), "a tuple is returned when the polygon is not asked")
    got = np.asarray(out)
    geo.same(got.ndim, 1, "dimension of the selection")
    geo.same(len(set(got.tolist())), len(got), "repeated indices")
    c, d = inside(pts[:, axes], poly)
    c &= ~np.isnan(pts[:, 0])
    sure = known & (d > 1e-4)
    mask = np.zeros(len(pts), dtype=bool)
    mask[got] = True
    bad = sure & (mask != c)
    require(not bad.any(), f"{pref}s {np.flatnonzero(bad).tolist()} wrongly {'' if mask[bad].all() else 'not '}selected in view {view}")
    geo.same(p.shown, 1, "times the plotter is shown")
    check_view(p, view)
    check_mesh(p, m, s["opt"])
    require(p.named("enable_parallel_projection"), "lasso drawn without parallel projection")
    e = p.named("track_click_position")[0][2]
    geo.same((e["side"], bool(e["double"])), ("right", False), "clicks that are tracked")
    rec.label(pref, f"view:{s['view']}", "cw" if s["cw"] else "ccw", f"return:{s['ret']}")
    rec.nontrivial(0 < c[sure].sum() < len(pts))


@st.composite
def s_bad(draw):
    return {
        "m": draw(meshes.mesh(n_max=1, hidden=False, empty=False)),
        "lasso": draw(st.booleans()),
        "view": draw(st.sampled_from(["xx", "x", "top", "-top", "XY", "xyz", "yy", "--xy"])),
        "given": draw(st.booleans()),
    }


def c_bad(s, rec):
    m = meshes.Mesh(s["m"]).mesh
    func = pvg.interactive_lasso_selection if s["lasso"] else pvg.interactive_selection
    shown = []
    geo.raises(ValueError, lambda: run(lambda p: shown.append(1), s["given"], lambda q: func(m, q, view=s["view"])), f"view {s['view']}")
    require(not shown, "plotter shown with an invalid view")
    rec.label("lasso" if s["lasso"] else "selection", s["view"])
    rec.nontrivial()


FACETS = [
    Facet("pick", s_pick(), c_pick, 900, 8000),
    Facet("lasso", s_lasso(), c_lasso, 1200, 12000),
    Facet("view", s_bad(), c_bad, 60, 200),
    Facet("pick_many", s_many_picks(), c_pick, 60, 600),
    Facet("lasso_many", s_many_clicks(), c_lasso, 60, 600),
]
