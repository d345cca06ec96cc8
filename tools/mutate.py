"""Mutation campaign: usage: mutate.py OUT.jsonl [--n N] [--seed S] [--file SUBSTR] [--ids FILE]

Makes random small changes to copies of /repo (below /tmp/mut), keeps those with which the stable tests pass, and runs
the checks on them until one reports a violation. Survivors of everything are printed at the end (and stored in OUT):
they are either equivalent to the original or show a gap. A development tool: no check uses it."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "grids/": "C05 C04 C03 C02 C01 C06 C07 C20 C14 C23 C12 C10 C11 C16 C18 C24",
    "models/": "C07 C12 C16 C18 C11 C10 C20 C14 C15 C06 C09 C13 C08 C23 C24",
    "solutions/numerical": "C09 C07 C11 C12 C08 C10 C13 C16 C20 C24",
    "solutions/analytical": "C19 C16 C15 C10 C14",
    "solutions/": "C15 C10 C20 C09 C16",
    "scalers/": "C17 C18",
    "fluids/": "C20 C14 C07 C05",
    "wells/": "C20 C11 C07",
    "base": "C14 C20 C24 C05 C15 C10 C07",
    "helpers": "C21 C02 C03 C01 C05 C04 C23",
    "pyvista": "C23",
    "profme": "C22",
    "backends/": "C15 C20",
}
SKIP_FUNCS = {"plot", "plot_grid", "copy", "allow_synonyms"}
SKIP_FILES = ("tests/", "__main__.py", "docs")
SWAP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
        ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(node, new, kind):
        a, b = pos(node)
        out.append((path, a, b, raw[a:b].decode(), new, kind, node.lineno))

    def clone(n):
        return ast.parse(ast.unparse(n), mode="eval").body

    def visit(node, doc=False):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if node.name in SKIP_FUNCS:
                return
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            if isinstance(node, ast.FunctionDef):
                for d in node.args.defaults + [k for k in node.args.kw_defaults if k]:
                    visit(d)
            for s in body:
                visit(s)
            return
        if isinstance(node, ast.If):
            t = ast.unparse(node.test)
            if t == "__name__ == '__main__'" or "verbose" in t:
                for s in node.orelse:
                    visit(s)
                return
            add(node.test, f"(({ast.unparse(node.test)}) or True)", "if-true")
            add(node.test, f"(({ast.unparse(node.test)}) and False)", "if-false")
        if isinstance(node, ast.Expr):
            v = node.value
            if isinstance(v, ast.Constant) or isinstance(v, ast.Call) and ast.unparse(v.func) in ("print", "warnings.warn"):
                return
            add(node, "pass", "drop-call")
        if isinstance(node, ast.Raise) or isinstance(node, ast.Assert):
            add(node, "pass", "drop-check")
            if isinstance(node, ast.Raise):
                return
            visit(node.test)
            return
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(node, ast.AugAssign):
            add(node, "pass", "drop-aug")
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            add(node, "pass", "drop-assign")
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in SWAP.get(type(node.ops[0]), []):
                c = clone(node)
                c.ops = [o()]
                add(node, f"({ast.unparse(c)})", "compare")
        if isinstance(node, ast.BinOp) and type(node.op) in SWAP and not isinstance(node.left, (ast.JoinedStr,)) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            for o in SWAP[type(node.op)]:
                c = clone(node)
                c.op = o()
                add(node, f"({ast.unparse(c)})", "binop")
        if isinstance(node, ast.BoolOp):
            c = clone(node)
            c.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            add(node, f"({ast.unparse(c)})", "boolop")
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            add(node, f"({ast.unparse(node.operand)})", "unary")
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                add(node, str(not v), "bool")
            elif isinstance(v, int):
                add(node, str(v + 1), "int")
                if v > 0:
                    add(node, str(v - 1), "int")
            elif isinstance(v, float):
                add(node, repr(v * 1.25), "float")
            elif isinstance(v, str) and 0 < len(v) < 12 and re.fullmatch(r"\w+", v):
                add(node, repr(v + "_"), "str")
            return
        if isinstance(node, ast.Attribute) or isinstance(node, ast.Name):
            n = node.attr if isinstance(node, ast.Attribute) else node.id
            pairs = [("nx", "ny"), ("ny", "nz"), ("dx", "dy"), ("dy", "dz"), ("kx", "ky"), ("ky", "kz"), ("Ax", "Ay"), ("nx_b", "ny_b"), ("min", "max"), ("nanmin", "nanmax"), ("init_pressures", "init_rates"), ("pressures", "rates"), ("mu", "B")]
            for a, b in pairs:
                if n in (a, b) and isinstance(getattr(node, "ctx", None), ast.Load):
                    c = clone(node)
                    setattr(c, "attr" if isinstance(node, ast.Attribute) else "id", b if n == a else a)
                    add(node, ast.unparse(c), "name")
        for ch in ast.iter_child_nodes(node):
            visit(ch)

    visit(tree)
    return out


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYVISTA_OFF_SCREEN="true", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           TQDM_DISABLE="1", RFCHECK_SHRINK="0", RFCHECK_SCALE="0.4", PYTHONHASHSEED="0")


def main():
    out = sys.argv[1]
    arg = lambda k, d: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
    n, seed, only = int(arg("--n", 100)), int(arg("--seed", 1)), arg("--file", "")
    base = "/repo/reservoirflow"
    allm = []
    for r, _, fs in os.walk(base):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(r, f), base)
            if f.endswith(".py") and not any(s in p for s in SKIP_FILES) and only in p:
                allm += mutants(p, open(os.path.join(base, p)).read())
    allm.sort()
    random.Random(seed).shuffle(allm)
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(x)["key"]) for x in open(out)}
    todo = [m for m in allm[:n] if (m[0], m[1], m[2], m[4]) not in done]
    print(len(allm), "mutants,", len(todo), "to do", flush=True)
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    W = int(arg("--workers", 8))
    free = Queue()
    for i in range(W):
        sh(["git", "clone", "-q", "/repo", f"/tmp/mut/r{i}"])
        sh(["cp", "-a", V, f"/tmp/mut/v{i}"])
        free.put(i)
    f = open(out, "a")

    def work(m):
        w = free.get()
        try:
            path, a, b, old, new, kind, line = m
            d = f"/tmp/mut/r{w}"
            p = f"{d}/reservoirflow/{path}"
            sh(["git", "-C", d, "checkout", "-q", "--", "."])
            raw = open(p, "rb").read()
            new_src = raw[:a] + new.encode() + raw[b:]
            res = {"key": [path, a, b, new], "line": line, "old": old, "kind": kind}
            try:
                ast.parse(new_src)
            except SyntaxError:
                return dict(res, status="syntax")
            open(p, "wb").write(new_src)
            for sel, want in (("tests reservoirflow --deselect tests/test_grids_CartGrid.py::test_grid --ignore=tests/test_example_7_11.py", 62), ("tests/test_example_7_11.py", 5)):
                r = sh(f"timeout 400 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=150 {sel} 2>&1 | tail -30", shell=True, cwd=d, env=ENV)
                x = re.search(r"(\d+) passed", r.stdout)
                if not x or int(x[1]) < want or "failed" in r.stdout.split("\n")[-2]:
                    return dict(res, status="tests")
            key = next((k for k in CHECKS if k in path), "base")
            for c in CHECKS[key].split():
                r = sh(["timeout", "900", "/opt/venv/bin/python", "run.py", c, "quick"], cwd=f"/tmp/mut/v{w}", env=dict(ENV, RFCHECK_REPO=d, RFCHECK_PROCS="2"))
                if r.returncode == 1:
                    return dict(res, status="caught", by=c)
                if r.returncode != 0:
                    res.setdefault("odd", []).append([c, r.returncode, (r.stdout + r.stderr)[-300:]])
            return dict(res, status="survived")
        finally:
            free.put(w)

    with ThreadPoolExecutor(W) as ex:
        for r in ex.map(work, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()
            if r["status"] == "survived" or r.get("odd"):
                print(r["status"], r["key"][0], r["line"], repr(r["old"][:100]), "->", repr(r["key"][3][:100]), r.get("odd", ""), flush=True)
    from collections import Counter
    print(Counter(json.loads(x)["status"] for x in open(out)))
    shutil.rmtree("/tmp/mut", ignore_errors=True)


if __name__ == "__main__":
    main()
