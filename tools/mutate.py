"""Mutation survey: which small changes that pass the tests does no check notice?

python3 tools/mutate.py OUT.jsonl [--runs-div 4] [--only enc|dec|tools] [--shard i/n]
Every mutant lives in its own scratch copy under /tmp, which is removed."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.table import TABLE

FILES = ["encoder.py", "decoder.py", "tools.py"]
ORDER = {"tools.py": "C13 C19 C12 C08 C10 C11 C09 C16 C21".split(),
         "encoder.py": "C02 C06 C01 C07 C17 C16 C05 C04 C15 C14 C11 C09 C10 C08 C03".split(),
         "decoder.py": "C05 C04 C02 C03 C01 C17 C15 C16 C14 C11 C09 C10 C08 C07".split()}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult, ast.Mod],
       ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor, ast.Add],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def in_raise(path):
    return any(isinstance(n, ast.Raise) for n in path)


def sites(tree):
    """yield (description, function(tree copy) applying the change)"""
    nodes = []

    def walk(n, path):
        nodes.append((n, path))
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns"):
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, path + [n])
            elif isinstance(v, ast.AST):
                walk(v, path + [n])

    walk(tree, [])
    out = []
    for idx, (n, path) in enumerate(nodes):
        where = "%s:%s" % (getattr(n, "lineno", "?"), getattr(n, "col_offset", "?"))
        top = [p for p in path if isinstance(p, (ast.FunctionDef, ast.ClassDef))]
        if not top and not isinstance(n, ast.FunctionDef):
            continue
        if any(isinstance(p, (ast.JoinedStr, ast.FormattedValue, ast.arguments)) for p in path):
            continue

        def add(desc, fn, idx=idx, where=where):
            out.append(("%s %s" % (where, desc), idx, fn))

        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                add("%s->%s" % (type(n.ops[0]).__name__, new.__name__),
                    lambda m, new=new: m.ops.__setitem__(0, new()))
            add("cond->True", "true")
            add("cond->False", "false")
        elif isinstance(n, ast.BinOp) and not isinstance(n.left, (ast.Constant,)) or \
                isinstance(n, ast.BinOp) and not isinstance(getattr(n.left, "value", None), str):
            for new in BIN.get(type(n.op), []):
                add("%s->%s" % (type(n.op).__name__, new.__name__), lambda m, new=new: setattr(m, "op", new()))
        elif isinstance(n, ast.AugAssign):
            add("aug->assign", "augassign")
        elif isinstance(n, ast.BoolOp):
            add("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("not removed", "operand")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add("bool flip", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                add("const+1", lambda m: setattr(m, "value", m.value + 1))
                add("const-1", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, str) and not in_raise(path) and not isinstance(path[-1], ast.Expr):
                add("str %r changed" % n.value[:12], lambda m: setattr(m, "value", m.value + "X" if m.value else "X"))
                if n.value:
                    add("str %r emptied" % n.value[:12], lambda m: setattr(m, "value", ""))
            elif isinstance(n.value, bytes):
                add("bytes changed", lambda m: setattr(m, "value", b"X"))
        elif isinstance(n, ast.If):
            add("if negated", "ifnot")
            if n.orelse:
                add("else dropped", lambda m: setattr(m, "orelse", []))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add("slice lower dropped", lambda m: setattr(m, "lower", None))
            if n.upper is not None:
                add("slice upper dropped", lambda m: setattr(m, "upper", None))
        elif isinstance(n, ast.Call) and not in_raise(path):
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                add("call .%s() removed" % n.func.attr, "receiver")
            if isinstance(n.func, ast.Name) and n.func.id in ("bytes", "str", "sorted", "set", "int", "bytearray", "repr") \
                    and len(n.args) == 1:
                add("%s() removed" % n.func.id, "arg0")
        elif isinstance(n, ast.ExceptHandler):
            if getattr(n.type, "id", None) == "Exception":
                for e in ("UnicodeError", "ValueError", "BaseException", "LookupError", "TypeError"):
                    add("except Exception->%s" % e, lambda m, e=e: setattr(m.type, "id", e))
            elif getattr(n.type, "id", None):
                add("except %s->OSError" % n.type.id, lambda m: setattr(m.type, "id", "OSError"))
                add("except %s->Exception" % n.type.id, lambda m: setattr(m.type, "id", "Exception"))
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Return, ast.Raise, ast.Import)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add("stmt dropped", "pass")
        if isinstance(n, ast.Raise):
            add("raise dropped", "pass")
    return nodes, out


def apply(tree, idx, fn):
    tree = copy.deepcopy(tree)
    nodes = []

    def walk(n, parent, field, i):
        nodes.append((n, parent, field, i))
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns"):
                continue
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, n, f, j)
            elif isinstance(v, ast.AST):
                walk(v, n, f, None)

    walk(tree, None, None, None)
    n, parent, field, i = nodes[idx]

    def put(new):
        if i is None:
            setattr(parent, field, new)
        else:
            getattr(parent, field)[i] = new

    if callable(fn):
        fn(n)
    elif fn == "true":
        put(ast.Constant(True))
    elif fn == "false":
        put(ast.Constant(False))
    elif fn == "augassign":
        put(ast.Assign([n.target], n.value))
    elif fn == "operand":
        put(n.operand)
    elif fn == "ifnot":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif fn == "receiver":
        put(n.func.value)
    elif fn == "arg0":
        put(n.args[0])
    elif fn == "pass":
        put(ast.Pass())
    return ast.unparse(ast.fix_missing_locations(tree))


def tests_pass(repo):
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"],
                           cwd=repo, capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def make(f, text):
    tmp = tempfile.mkdtemp(prefix="mut-")
    repo = os.path.join(tmp, "repo")
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
    open(os.path.join(repo, "iso8583", f), "w").write(text)
    return tmp, repo


def stage1(job):
    f, desc, text = job
    tmp, repo = make(f, text)
    try:
        return tests_pass(repo)
    finally:
        shutil.rmtree(tmp)


def stage2(job, div):
    f, desc, text = job
    tmp, repo = make(f, text)
    try:
        for c in ORDER[f]:
            runs = max(200, TABLE[c]["quick"] // div)
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c, "--tier", "quick", "--runs", str(runs)],
                               capture_output=True, text=True, env=dict(os.environ, DST_REPO=repo, DST_OUT=tmp))
            if r.returncode == 1:
                return c
            if r.returncode != 0:
                return "%s exit %d: %s" % (c, r.returncode, (r.stdout + r.stderr)[-300:])
        return None
    finally:
        shutil.rmtree(tmp)


def main():
    out = sys.argv[1]
    div = 4
    only = None
    if "--runs-div" in sys.argv:
        div = int(sys.argv[sys.argv.index("--runs-div") + 1])
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    jobs, seen = [], set()
    for f in FILES:
        if only and not f.startswith(only):
            continue
        src = open("/repo/iso8583/" + f).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for desc, idx, fn in sites(tree)[1]:
            try:
                text = apply(tree, idx, fn)
                compile(text, f, "exec")
            except Exception:
                continue
            if text == base or text in seen:
                continue
            seen.add(text)
            jobs.append((f, desc, text))
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(8) as ex:
        alive = [j for j, ok in zip(jobs, ex.map(stage1, jobs)) if ok]
    print(len(alive), "pass the tests", flush=True)
    with open(out, "w") as fh, ThreadPoolExecutor(2) as ex:
        for j, r in zip(alive, ex.map(lambda j: stage2(j, div), alive)):
            line = j[1].split(":")[0]
            src = open("/repo/iso8583/" + j[0]).read().splitlines()
            fh.write(json.dumps({"file": j[0], "mutant": j[1], "caught": r,
                                 "line": src[int(line) - 1].strip() if line.isdigit() else ""}) + "\n")
            fh.flush()
            if r is None or len(r) > 3:
                print("SURVIVES" if r is None else r, j[0], j[1], "|", src[int(line) - 1].strip() if line.isdigit() else "", flush=True)


if __name__ == "__main__":
    main()
