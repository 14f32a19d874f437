"""C13: generating a mesh is repeatable and leaves builders and inputs alone."""
from hypothesis import strategies as st

from harness import builders as B
from harness import gen, geo
from harness.boot import np, pv, pvg
from harness.core import Facet, require

RULE = (
    "Histories of 5-10 operations on every builder: add items, generate, alter a generated mesh, alter the input meshes, "
    "arrays, lists and dictionaries (points, vectors, resolutions, selections, ignored groups) after they were handed over, use a second builder on the same inputs; after each generation the mesh is "
    "compared (points, cells, all arrays, group names) with that of a fresh builder given the same items only. "
    "Non-trivial: a generation follows another one, or an alteration."
)

BUILDERS = ["stack2", "stack3", "extrude", "merge", "voronoi"]


@st.composite
def s_hist(draw):
    fn = draw(st.sampled_from(BUILDERS))
    kinds = {"stack2": ("l",), "stack3": ("s", "u"), "extrude": ("s", "u"), "merge": ("s", "u"), "voronoi": ("s", "u")}[fn]
    bases = B.base(kinds, n_max=2, wobble=True)
    if fn == "voronoi":
        bases = B.base(kinds, n_max=3, wobble=False).filter(lambda b: min(len(b["xs"]), len(b["ys"])) > 2)
    b = draw(bases)
    b["rect"] = False
    ops = []
    for i in range(draw(st.integers(5, 10))):
        op = draw(st.sampled_from(["add", "add", "add", "add", "in"])) if i < 3 else draw(st.sampled_from(["add", "add", "add", "gen", "gen", "gen", "out", "in", "twin"]))
        ops.append(
            {
                "op": op,
                "src": draw(st.integers(0, 4)),
                "v": draw(gen.num(-3, 3)),
                "res": draw(st.sampled_from([None, 1, 2, [0.0, 0.25, 1.0], [0.0, 0.5, 1.0]])),
                "given": draw(st.sampled_from(["list", "array"])),
                "g": draw(st.sampled_from([None, "a", "b", "dict", "name", "mask", "index", "names"])),
                "pr": draw(st.integers(-1, 2)),
                "t": draw(st.sampled_from([0.0, 0.0, 0.5])),
                "seed": draw(st.integers(0, 100)),
            }
        )
    ops.append({**ops[0], "op": "gen"})
    return {
        "fn": fn,
        "b": b,
        "ops": ops,
        "up": draw(st.booleans()),
        "groups": draw(st.booleans()),
        "pref": draw(st.sampled_from(["cell", "point"])),
        "ignore": draw(st.sampled_from([None, ["a"], ["c"], ["a", "c"], ["junk"]])),
    }


class Session:
    """A builder, its inputs and the items it was given."""

    def __init__(self, s):
        self.s = s
        self.b = b = Session.decorated(s)
        self.inputs, self.before = [], []
        self.altered = 0
        self.give(b.mesh)
        self.spare = Session.decorated(s)  # Never altered: items are made from it
        fn = s["fn"]
        kw = {}
        if s.get("ignore"):
            kw["ignore_groups"] = list(s["ignore"])
            self.give(kw["ignore_groups"])
        if fn in ("stack2", "stack3"):
            self.e = b.stack(bottom_up=s["up"], **kw)
        elif fn == "extrude":
            self.e = pvg.MeshExtrude(b.mesh, scale=0.9, **kw)
        elif fn == "merge":
            self.e = pvg.MeshMerge(**kw)
        else:
            self.e = pvg.VoronoiMesh2D(b.mesh, axis=b.axis, preference=s["pref"], **kw)
        self.n = 0

    @staticmethod
    def decorated(s):
        b = B.Base(s["b"])
        b.mesh.cell_data["d"] = np.arange(b.mesh.n_cells) * 1.5
        if s["groups"] and b.kind != "l":
            b.mesh.cell_data["CellGroup"] = np.arange(b.mesh.n_cells) % 2
            b.mesh.user_dict["CellGroup"] = {"a": 0, "c": 1}
        b.pts = np.array(b.pts)
        return b

    def alter_inputs(self):
        """Alter whatever was handed over and has not been altered yet."""
        for i, x in enumerate(self.inputs[self.altered :], self.altered):
            alter(x, i)
        self.altered = len(self.inputs)

    def give(self, *xs):
        self.inputs += xs
        self.before += [snap(x) for x in xs]

    def twin(self):
        """Another builder over the same input."""
        b, fn = self.spare if self.altered else self.b, self.s["fn"]
        if fn in ("stack2", "stack3"):
            b.stack(bottom_up=not self.s["up"]).add(5.0).add(1.0, group="z").generate_mesh()
        elif fn == "extrude":
            pvg.MeshExtrude(b.mesh).add(np.eye(3)[b.axis] * 2, group="z", angle=10.0).generate_mesh()
        elif fn == "merge":
            pvg.MeshMerge().add(b.mesh, group="z").generate_mesh()
        else:
            try:
                pvg.VoronoiMesh2D(b.mesh, axis=b.axis).generate_mesh()
            except Exception:
                pass

    def add(self, op):
        s, b, e = self.s, self.spare, self.e
        ax, lat = b.axis, b.lat
        fn = s["fn"]
        g = op["g"]
        if g == "dict":
            g = {"x": lambda m: np.arange(m.n_cells) % 2 == 0}
        elif g == "name":
            g = {"x": "a"} if s["groups"] and b.kind != "l" and fn in ("stack3", "extrude") else "x"
        elif g in ("mask", "index", "names"):
            if fn not in ("stack3", "extrude") or (g == "names" and not s["groups"]):
                g = "x"
            else:
                n = b.mesh.n_cells
                v = {"mask": np.arange(n) % 2 == 0, "index": np.arange((n + 1) // 2), "names": ["a"]}[g]
                v = v.tolist() if op.get("given") == "list" and g != "names" else v
                g = {"x": v}
                self.give(v, g)
        res = list(op["res"]) if isinstance(op["res"], list) else op["res"]
        if isinstance(res, list) and fn != "voronoi":
            res = np.array(res) if op.get("given") == "array" else res
            self.give(res)
        i = self.n
        if fn in ("stack2", "stack3"):
            sgn = 1.0 if s["up"] else -1.0
            if op["src"] == 0:
                arg = op["v"]
            elif op["src"] == 1:
                arg = lambda x, y, z: op["v"] + sgn * i + np.sin(x + y + z)  # noqa: E731
            elif op["src"] in (2, 3) and b.kind != "l":
                lo, hi = b.pts[:, lat].min(axis=0) - 1.0, b.pts[:, lat].max(axis=0) + 1.0
                p = np.zeros((4, 3))
                p[:, lat] = [[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1] + 0.5], [lo[0], hi[1]]]
                p[:, ax] = op["v"] + sgn * i + np.array([0.0, 1.0, 0.25, -1.0])
                arg = p if op["src"] == 2 else pv.PolyData(p)
                self.give(arg)
            elif op["src"] == 4 and fn == "stack3":
                ang, pt = np.array([5.0, -10.0, 15.0]), np.array([1.0, 2.0, 3.0])
                pt[ax] = op["v"] + sgn * i
                self.give(ang, pt)
                r = e.add_plane(ang, pt, res, priority=op["pr"], group=g)
                require(r is e, "add_plane is not chainable")
                self.n += 1
                return
            else:
                arg = op["v"] + sgn * i
            r = e.add(arg, res, "log" if op["seed"] % 2 else None, priority=op["pr"], thickness=op["t"], group=g)
        elif fn == "extrude":
            vec = np.eye(3)[ax] * (1.0 + abs(op["v"]))
            self.give(vec)
            r = e.add(vec, res, scale=[None, 0.5][op["src"] % 2], angle=[None, 15.0][op["seed"] % 2], group=g)
        elif fn == "merge":
            m = b.mesh.copy() if op["src"] or self.altered else self.b.mesh
            if op["src"]:
                m.points = np.asarray(m.points) + np.eye(3)[lat[0]] * (np.ptp(b.pts[:, lat[0]]) + 1.0) * (i + 1)
            if m is not self.b.mesh:
                self.give(m)
            r = e.add(m, g if isinstance(g, str) else None)
        else:
            lo, hi = b.pts[:, lat].min(axis=0), b.pts[:, lat].max(axis=0)
            rng = np.random.default_rng(op["seed"])
            if op["src"] in (0, 1):
                p = geo.place(lo + (0.1 + 0.8 * rng.random((3, 2))) * (hi - lo), ax, 0.5)
                arg = p if op["src"] == 0 else pv.PolyData(p)
                self.give(arg)
                r = e.add(arg, priority=op["pr"], group=g if isinstance(g, str) else None)
            elif op["src"] == 2:
                c = geo.place([(lo + hi) / 2], ax, 1.0)[0]
                self.give(c)
                r = e.add_circle(0.2 * min(hi - lo), resolution=6, center=c, plain=bool(op["seed"] % 2), priority=op["pr"], group="w")
            else:
                p = geo.place([lo + 0.3 * (hi - lo), lo + 0.7 * (hi - lo)], ax, 0.0)
                ln = pv.PolyData(p, lines=[2, 0, 1])
                self.give(ln)
                r = e.add_polyline(ln, width=0.1 * min(hi - lo), priority=op["pr"], group="f")
        require(r is e, "add is not chainable")
        self.n += 1

    def generate(self):
        try:
            return self.e.generate_mesh()
        except ValueError:
            return None
        except Exception:
            # Degenerate sets of sites (qhull)
            if self.s["fn"] != "voronoi":
                raise
            return None


def snap(x):
    if isinstance(x, (list, dict)):
        return repr(x)
    return x.copy() if isinstance(x, np.ndarray) else geo.snapshot(x)


def same_input(a, x, msg):
    if isinstance(x, (list, dict)):
        geo.same(repr(x), a, msg)
        return
    if isinstance(x, np.ndarray):
        geo.array_equal(x, a, msg)
    else:
        geo.unchanged(a, geo.snapshot(x), msg)


def alter(x, k):
    if isinstance(x, dict):
        x["junk"] = x["x"] = [0]
        return
    if isinstance(x, list):
        if isinstance(x[0], str):
            x.append("a")
        elif isinstance(x[0], float):
            x[1] = 0.125
        else:
            x[0] = not x[0]
        return
    if isinstance(x, np.ndarray) and x.dtype.kind != "f":
        x[:] = x[::-1].copy() if x.dtype.kind == "i" else ~x
        return
    if isinstance(x, np.ndarray):
        x *= 0.125 if x.ndim == 1 and x[-1] == 1.0 and x[0] == 0.0 and x.size == 3 else -3.0
        return
    x.points[:] = np.asarray(x.points) * 2.0 + 100.0 * (k + 1)
    for name in list(x.cell_data.keys()):
        if name != "vtkGhostType":
            x.cell_data[name][...] = 7
    x.cell_data["junk"] = np.zeros(x.n_cells)
    x.user_dict["CellGroup"] = {"junk": 7}


def c_hist(s, rec):
    cur = Session(s)
    adds = []
    gens = 0
    altered = False
    for op in s["ops"]:
        k = op["op"]
        if k == "add":
            # Items depend on inputs only as they were when handed over
            cur.add(op)
            adds.append(op)
        elif k == "twin":
            cur.twin()
        elif k == "in":
            cur.alter_inputs()
            altered = True
        else:
            m = cur.generate()
            fresh = Session(s)
            for a in adds:
                fresh.add(a)
            ref = fresh.generate()
            require((m is None) == (ref is None), "only one of two builders with the same items can generate")
            if m is None:
                continue
            geo.unchanged(geo.snapshot(ref), geo.snapshot(m), "mesh of a builder with a history")
            gens += 1
            if gens > 1 or altered:
                rec.nontrivial()
            if k == "out":
                alter(m, 0)
                altered = True
        # Nothing handed over is altered
        for a, x in list(zip(cur.before, cur.inputs))[cur.altered :]:
            same_input(a, x, f"input of the builder after '{k}'")
    rec.label(s["fn"], f"gens:{min(gens, 3)}", "altered-inputs" if cur.altered else "live")


FACETS = [Facet("history", s_hist(), c_hist, 1000, 12000)]
