#!/usr/bin/env python3
"""Developer tool: systematic mutants of one module of norfair against the search harnesses (no proofs).
usage: mutate.py MODULE PROPS(comma separated) OUT.jsonl [-j N] [-b SECONDS] [-f FUNCTION-SUBSTRING]
Mutants whose harnesses all stay quiet are reported as survivors (equivalent, or a gap to look at)."""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.MatMult: [ast.Mult], ast.BitAnd: [ast.BitOr]}


def mutants(src):
    tree = ast.parse(src)
    funcs = {}

    def visit(node, where):
        for ch in ast.iter_child_nodes(node):
            w = where
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                w = where + [ch.name]
            funcs[id(ch)] = ".".join(w)
            visit(ch, w)
    visit(tree, [])
    n = 0
    skip = set()
    for node in ast.walk(tree):  # no annotations, docstrings, decorators
        for f in ("annotation", "returns"):
            a = getattr(node, f, None)
            if a is not None:
                skip.update(id(x) for x in ast.walk(a))
        if isinstance(node, (ast.Raise, ast.Assert)):
            for x in ast.walk(node):
                if isinstance(x, (ast.Constant, ast.JoinedStr)):
                    skip.add(id(x))
        if isinstance(node, (ast.Call,)) and isinstance(node.func, ast.Name) and node.func.id in ("print", "warn", "warn_once"):
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            skip.add(id(node.body[0])), skip.add(id(node.body[0].value))
    for node in list(ast.walk(tree)):
        if id(node) in skip:
            continue
        where = funcs.get(id(node), "")
        line = getattr(node, "lineno", 0)

        def emit(desc):
            return where, line, desc, ast.unparse(tree)
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for new in CMP.get(type(op), []):
                    node.ops[k] = new()
                    yield emit(f"{type(op).__name__}->{new.__name__}")
                node.ops[k] = op
        if isinstance(node, (ast.BinOp, ast.AugAssign)):
            op = node.op
            for new in BIN.get(type(op), []):
                node.op = new()
                yield emit(f"{type(op).__name__}->{new.__name__}")
            node.op = op
        if isinstance(node, ast.BoolOp):
            op = node.op
            node.op = ast.And() if isinstance(op, ast.Or) else ast.Or()
            yield emit("and<->or")
            node.op = op
            vs = node.values
            for k in range(len(vs)):
                node.values = vs[:k] + vs[k + 1:]
                yield emit(f"drop operand {k}")
            node.values = vs
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)) and not isinstance(node.operand, ast.Constant):
            op = node.op
            node.op = ast.UAdd() if isinstance(op, ast.USub) else ast.Not()
            if isinstance(op, ast.USub):
                yield emit("drop minus")
            node.op = op
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float, bool, str)):
            v = node.value
            alts = [not v] if isinstance(v, bool) else [v + 1, v - 1] + ([v * 2] if v > 1 else []) if isinstance(v, (int, float)) else [v + "x"] if v else []
            for a in alts:
                node.value = a
                yield emit(f"{v!r}->{a!r}")
            node.value = v
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            t = node.test
            for b in (True, False):
                if isinstance(node, ast.While) and b:
                    continue
                node.test = ast.Constant(b)
                yield emit(f"condition->{b}")
            node.test = t
        if isinstance(node, ast.Call) and node.keywords:
            ks = node.keywords
            for k in range(len(ks)):
                node.keywords = ks[:k] + ks[k + 1:]
                yield emit(f"drop keyword {ks[k].arg}")
            node.keywords = ks
        if isinstance(node, ast.Call) and len(node.args) > 1:
            a = node.args
            node.args = [a[1], a[0]] + a[2:]
            yield emit("swap args")
            node.args = a
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "copy":
            pass
        for f in ("body", "orelse"):
            b = getattr(node, f, None)
            if isinstance(b, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Continue, ast.Break, ast.Raise, ast.Delete)) and id(st) not in skip:
                        b[k] = ast.Pass()
                        w = funcs.get(id(st), where)
                        yield w, st.lineno, "drop: " + ast.unparse(st)[:60], ast.unparse(tree)
                        b[k] = st
                    if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ("copy", "astype"):
                        v = st.value
                        st.value = v.func.value
                        yield funcs.get(id(st), where), st.lineno, "drop call: " + ast.unparse(v)[:50], ast.unparse(tree)
                        st.value = v
        if isinstance(node, ast.arguments):
            for lst in ("defaults",):
                pass


def main():
    a = [x for x in sys.argv[1:]]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    mod, props, out = a[0], a[1].split(","), a[2]
    J, B, F = int(opt("-j", "4")), opt("-b", "3"), opt("-f", "")
    src = open("/repo/" + mod).read()
    ms = [m for m in mutants(src) if F in m[0]]
    print(len(ms), "mutants", flush=True)
    tmp = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    free = queue.Queue()
    for i in range(J):
        r = f"{tmp}/r{i}"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "docs", "demos", "__pycache__", "*.gif", "*.mp4"))
        free.put(r)

    def work(m):
        r = free.get()
        try:
            where, line, desc, text = m
            open(f"{r}/{mod}", "w").write(text)
            c = subprocess.run([PY, "-c", f"import sys; sys.path.insert(0,{r!r}); import norfair, norfair.metrics"], capture_output=True, cwd=r, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), timeout=100)
            if c.returncode:
                return m, "import"
            for p in props:
                o = f"{r}.out"
                try:
                    subprocess.run([PY, HERE + "/search/run.py", p, "--budget", B, "--out", o], capture_output=True, timeout=60,
                                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=r))
                    d = json.load(open(o))
                except (subprocess.TimeoutExpired, FileNotFoundError, ValueError):
                    return m, p + " (timeout or crash)"
                if d["failures"]:
                    return m, p
            return m, None
        finally:
            open(f"{r}/{mod}", "w").write(src)
            free.put(r)
    try:
        with ThreadPoolExecutor(J) as ex, open(out, "w") as fo:
            for m, by in ex.map(work, ms):
                fo.write(json.dumps(dict(where=m[0], line=m[1], what=m[2], by=by)) + "\n")
                fo.flush()
                if by is None:
                    print("SURVIVES", m[0], m[1], m[2], flush=True)
    finally:
        shutil.rmtree(tmp)


main()
