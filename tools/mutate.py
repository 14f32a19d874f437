#!/usr/bin/env python
"""Sensitivity measurement: mutates /repo's sources in scratch copies and runs the checks that cover the function.

mutate.py list | mutate.py run OUT.jsonl [--jobs N] [--only REGEX] [--sample K] [--seed S]
A mutant that no check catches is run against the repository's tests; those that pass are printed for review.
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.environ.get("VERIF_HOME") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("MUTATE_REPO", "/repo")
FILES = {
    "pvgridder/core/_helpers.py": ["C01", "C02", "C03", "C04", "C05", "C12", "C36"],
    "pvgridder/core/_base.py": ["C12", "C11", "C09", "C10", "C15", "C13", "C04", "C33", "C36"],
    "pvgridder/core/extrude.py": ["C08", "C10", "C12", "C04", "C13", "C01"],
    "pvgridder/core/geometric_objects.py": ["C05", "C01", "C02", "C03", "C06", "C07", "C04", "C36"],
    "pvgridder/core/merge.py": ["C15", "C13", "C12"],
    "pvgridder/core/stack.py": ["C09", "C10", "C33", "C11", "C12", "C13", "C36"],
    "pvgridder/core/voronoi.py": ["C16", "C17", "C13", "C36", "C34"],
    "pvgridder/utils/_connectivity.py": ["C18"],
    "pvgridder/examples/examples.py": ["C35"],
    "pvgridder/utils/_interactive.py": ["C31"],
    "pvgridder/utils/_misc.py": [],
    "pvgridder/utils/_properties.py": ["C20", "C19", "C18"],
}
FUNC = {
    "Polygon": ["C07", "C24", "C36"],
    "get_column_layer_ids": ["C10"],
    "_check_point_array": ["C16", "C17", "C36"],
    "CurvedLine": ["C06"],
    "RegularLine": ["C06", "C33"],
    "StructuredSurface": ["C02", "C01", "C04"],
    "Volume": ["C03", "C01"],
    "average_points": ["C23"],
    "decimate_rdp": ["C22"],
    "extract_boundary_polygons": ["C24", "C26", "C16"],
    "extract_cell_geometry": ["C18", "C28", "C29", "C36"],
    "extract_cells": ["C19"],
    "extract_cells_by_dimension": ["C19"],
    "fuse_cells": ["C26"],
    "intersect_polyline": ["C29"],
    "merge": ["C14", "C15", "C04"],
    "merge_lines": ["C21"],
    "offset_polygon": ["C25"],
    "quadraticize": ["C30"],
    "ray_cast": ["C28"],
    "reconstruct_line": ["C22"],
    "remap_categorical_data": ["C27"],
    "split_lines": ["C21"],
}


class Sites(ast.NodeVisitor):
    """Every (path of node, operator) that can be mutated."""

    def __init__(self):
        self.out, self.func, self.stack = [], "", []

    def visit(self, node):
        name = None
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if any("overload" in ast.dump(d) for d in getattr(node, "decorator_list", [])):
                return
            name = node.name
            self.stack.append(name)
        if isinstance(node, ast.If) and "TYPE_CHECKING" in ast.dump(node.test):
            return
        if self.stack:
            self.collect(node)
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list", "args") and isinstance(node, (ast.FunctionDef, ast.AnnAssign, ast.arg)):
                if field == "args" and isinstance(value, ast.arguments):
                    for d in [*value.defaults, *value.kw_defaults]:
                        if d is not None:
                            self.visit(d)
                continue
            if isinstance(node, ast.Raise):
                continue
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                continue
            for v in value if isinstance(value, list) else [value]:
                if isinstance(v, ast.AST):
                    self.visit(v)
        if name:
            self.stack.pop()

    def add(self, node, op):
        self.out.append((node, op, ".".join(self.stack)))

    def collect(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for k in {ast.Lt: ["LtE", "GtE"], ast.LtE: ["Lt", "Gt"], ast.Gt: ["GtE", "LtE"], ast.GtE: ["Gt", "Lt"], ast.Eq: ["NotEq"], ast.NotEq: ["Eq"], ast.In: ["NotIn"], ast.NotIn: ["In"], ast.Is: ["IsNot"], ast.IsNot: ["Is"]}[type(n.ops[0])]:
                self.add(n, "cmp:" + k)
        elif isinstance(n, ast.BinOp):
            k = {ast.Add: "Sub", ast.Sub: "Add", ast.Mult: "Div", ast.Div: "Mult", ast.Mod: "FloorDiv", ast.BitAnd: "BitOr", ast.BitOr: "BitAnd", ast.FloorDiv: "Mult"}.get(type(n.op))
            if k:
                self.add(n, "bin:" + k)
        elif isinstance(n, ast.BoolOp):
            self.add(n, "bool:swap")
            self.add(n, "bool:first")
            self.add(n, "bool:last")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.add(n, "unary:drop")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                self.add(n, "const:not")
            elif isinstance(n.value, (int, float)):
                self.add(n, "const:+1")
                if n.value not in (0, 0.0):
                    self.add(n, "const:0")
        elif isinstance(n, ast.If):
            self.add(n, "if:true")
            self.add(n, "if:false")
        elif isinstance(n, ast.IfExp):
            self.add(n, "ifexp:body")
            self.add(n, "ifexp:else")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            self.add(n, "stmt:drop")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.add(n, "stmt:drop")
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    self.add(n, f"kw:{i}")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("min", "max", "argmin", "argmax", "copy", "any", "all"):
                self.add(n, "call:" + {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "copy": "nocopy", "any": "all", "all": "any"}[n.func.attr])
        elif isinstance(n, (ast.Continue, ast.Break)):
            self.add(n, "loop:swap")


def apply(tree, index):
    v = Sites()
    v.visit(tree)
    node, op, func = v.out[index]
    kind, k = op.split(":")
    new = None
    if kind == "cmp":
        node.ops = [getattr(ast, k)()]
    elif kind == "bin":
        node.op = getattr(ast, k)()
    elif op == "bool:swap":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "bool":
        node.values = [node.values[0 if k == "first" else -1]]
        new = node.values[0]
    elif kind == "unary":
        new = node.operand
    elif op == "const:not":
        node.value = not node.value
    elif op == "const:+1":
        node.value = node.value + 1
    elif op == "const:0":
        node.value = type(node.value)(0)
    elif kind == "if":
        node.test = ast.Constant(k == "true")
    elif kind == "ifexp":
        new = node.body if k == "body" else node.orelse
    elif kind == "stmt":
        new = ast.Pass()
    elif kind == "kw":
        del node.keywords[int(k)]
    elif op == "call:nocopy":
        new = node.func.value
    elif kind == "call":
        node.func.attr = k
    elif kind == "loop":
        new = ast.Break() if isinstance(node, ast.Continue) else ast.Continue()
    if new is not None:

        class R(ast.NodeTransformer):
            def visit(self, n):
                return ast.copy_location(new, node) if n is node else self.generic_visit(n)

        tree = R().visit(tree)
    return ast.fix_missing_locations(tree), func, op, node.lineno


def mutants():
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        v = Sites()
        v.visit(ast.parse(src))
        for i, (n, op, func) in enumerate(v.out):
            yield f, i, func, op, n.lineno


def checks(f, func):
    for part in func.split("."):
        if part in FUNC:
            return FUNC[part]
    return FILES[f]


def run(m, scale):
    f, i, func, op, line = m
    src = open(os.path.join(REPO, f)).read()
    base = ast.unparse(ast.parse(src))
    tree, *_ = apply(ast.parse(src), i)
    text = ast.unparse(tree)
    if text == base:
        return None
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(f"git -C {REPO} archive HEAD | tar -x -C {d}", shell=True, check=True)
        open(os.path.join(d, f), "w").write(text)
        env = {**os.environ, "PYTHONPATH": d, "VERIF_REPO": d, "VERIF_EVIDENCE": os.path.join(d, ".evidence"), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "VERIF_SEED": "1"}
        res = {"file": f, "i": i, "func": func, "op": op, "line": line}
        diff = [x for x in __import__("difflib").unified_diff(base.splitlines(), text.splitlines(), lineterm="", n=0) if x[0] in "+-" and x[:3] not in ("+++", "---")]
        res["diff"] = diff[:6]
        for c in checks(f, func):
            try:
                r = subprocess.run([PY, f"{HERE}/run.py", c, "--scale", str(scale), "--budget", "120"], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 124
            if rc == 1:
                res["caught"] = c
                return res
            if rc != 0:
                res.setdefault("odd", []).append([c, rc])
        r = subprocess.run(f"xvfb-run -a {PY} -m pytest -q -x -n 2 -p no:cacheprovider -W ignore --timeout=300 --deselect 'tests/test_connectivity.py::test_get_neighborhood[topographic-terrain]' tests 2>&1 | tail -4", shell=True, cwd=d, env=env, capture_output=True, text=True)
        res["tests"] = r.stdout.strip()[-300:]
        res["caught"] = None
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--only", default="")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=0.5)
    a = ap.parse_args()
    ms = [m for m in mutants() if re.search(a.only, f"{m[0]}:{m[2]}:{m[3]}")]
    if a.sample:
        ms = random.Random(a.seed).sample(ms, min(a.sample, len(ms)))
    if a.cmd == "list":
        from collections import Counter

        print(len(ms))
        for k, v in Counter((m[0], m[2]) for m in ms).items():
            print(v, *k)
        sys.exit()
    done = set()
    if os.path.exists(a.out):
        for x in open(a.out):
            x = json.loads(x)
            done.add((x["file"], x["i"]))
    ms = [m for m in ms if (m[0], m[1]) not in done]
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as o:
        for res in ex.map(lambda m: run(m, a.scale), ms):
            if res:
                o.write(json.dumps(res) + "\n")
                o.flush()
