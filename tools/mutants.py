"""Tries the simulations on systematic mutants of the library.

``mutants.py DIR [WORKERS]`` makes mutants of /repo/binobj (operators, conditions,
statements, handlers, arguments), runs the stable tests on each in scratch copies under
DIR, and those that pass through all simulations for a few seconds each. DIR/results.jsonl
says for each mutant which of them noticed; it's continued if it exists. ``grep -v TESTS |
grep -v CAUGHT`` are those to look at.
"""

import ast
import concurrent.futures as cf
import copy
import json
import os
import queue
import random
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"

RUN = """
import sys, time, os
sys.path.insert(0, "/verif")
import check
from sim import engine
PROPS="P01 P16 P18 P10 P12 P23 P07 P13 P05 P04 P03 P21 P19 P09 P14 P15 P17 P11 P06 P02 P20 P08".split()
mods={p:check.load_property(p) for p in PROPS}
at={p:0 for p in PROPS}
for budget in (0.5,1.5,2):
    for p in PROPS:
        end=time.process_time()+budget
        while time.process_time()<end:
            r=at[p]; at[p]+=1
            sim,v,e=engine.execute_guarded(mods[p].scenario,p,lambda:engine.fresh_choices(p,1,r),r)
            if v or e:
                print("CAUGHT",p,r,v.kind if v else "HARNESS "+e[-200:]); sys.stdout.flush(); os._exit(0)
print("SURVIVED"); sys.stdout.flush(); os._exit(0)

"""

FILES = [
    "structures.py",
    "helpers.py",
    "varints.py",
    "pep526.py",
    "decorators.py",
    "fields/base.py",
    "fields/containers.py",
    "fields/numeric.py",
    "fields/stringlike.py",
    "serialization.py",
    "errors.py",
]
CMP = {
    ast.Lt: [ast.LtE],
    ast.LtE: [ast.Lt],
    ast.Gt: [ast.GtE],
    ast.GtE: [ast.Gt],
    ast.Eq: [ast.NotEq],
    ast.NotEq: [ast.Eq],
    ast.Is: [ast.IsNot],
    ast.IsNot: [ast.Is],
    ast.In: [ast.NotIn],
    ast.NotIn: [ast.In],
}
BIN = {
    ast.Add: ast.Sub,
    ast.Sub: ast.Add,
    ast.Mult: ast.FloorDiv,
    ast.FloorDiv: ast.Mult,
    ast.LShift: ast.RShift,
    ast.RShift: ast.LShift,
    ast.BitAnd: ast.BitOr,
    ast.BitOr: ast.BitAnd,
    ast.Mod: ast.Add,
}


def muts(node):
    """yield (desc, apply(node)->None or replacement)"""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for t in CMP.get(type(node.ops[0]), []):

            def f(n, t=t):
                n.ops = [t()]
                return n

            yield "cmp", f
    if isinstance(node, ast.BoolOp):

        def f(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n

        yield "bool", f
        for i in range(len(node.values)):

            def f(n, i=i):
                v = n.values[:i] + n.values[i + 1 :]
                if len(v) == 1:
                    return v[0]
                n.values = v
                return n

            yield "dropcond%d" % i, f
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "not", lambda n: n.operand
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:

        def f(n):
            n.op = BIN[type(n.op)]()
            return n

        yield "bin", f
    if isinstance(node, ast.Constant) and type(node.value) is int:

        def f(n):
            n.value += 1
            return n

        yield "const", f
    if isinstance(node, ast.Constant) and type(node.value) is bool:

        def f(n):
            n.value = not n.value
            return n

        yield "flip", f
    if isinstance(node, (ast.If, ast.IfExp)):

        def f(n):
            n.test = ast.Constant(True)
            return n

        yield "iftrue", f

        def f(n):
            n.test = ast.Constant(False)
            return n

        yield "iffalse", f
    if isinstance(node, (ast.Expr,)) and isinstance(node.value, (ast.Call, ast.Yield)):
        yield "delstmt", lambda n: ast.Pass()
    if isinstance(node, (ast.AugAssign, ast.Delete, ast.Raise)):
        yield "delstmt", lambda n: ast.Pass()
    if isinstance(node, (ast.Break,)):
        yield "cont", lambda n: ast.Continue()
    if isinstance(node, (ast.Continue,)):
        yield "brk", lambda n: ast.Break()
    if isinstance(node, ast.Try):
        if node.finalbody:

            def f(n):
                n.finalbody = [ast.Pass()]
                return n

            yield "nofinally", f

            def f(n):
                # run the finally only on success
                return (
                    [ast.Try(n.body, n.handlers, n.orelse + n.finalbody, [])]
                    if n.handlers
                    else n.body + n.finalbody
                )

            yield "finok", f
        for i, h in enumerate(node.handlers):

            def f(n, i=i):
                n.handlers[i].type = ast.Name("Exception", ast.Load())
                return n

            yield "broad", f

            def f(n, i=i):
                n.handlers[i].type = ast.Name("ZeroDivisionError", ast.Load())
                return n

            yield "nocatch", f
    if isinstance(node, ast.Call):
        for i, a in enumerate(node.args):
            if isinstance(a, (ast.Name, ast.Attribute)):

                def f(n, i=i):
                    n.args[i] = ast.Constant(None)
                    return n

                yield "argnone%d" % i, f
        for i, k in enumerate(node.keywords):
            if k.arg in ("message", "stacklevel"):
                continue

            def f(n, i=i):
                del n.keywords[i]
                return n

            yield "dropkw%d" % i, f
        if isinstance(node.func, ast.Attribute) and node.func.attr in (
            "update",
            "setdefault",
            "deepcopy",
            "copy",
        ):
            if node.args and node.func.attr in ("deepcopy", "copy"):
                yield "nocopy", lambda n: n.args[0]
        if (
            isinstance(node.func, ast.Name)
            and node.func.id in ("dict", "list", "bytes")
            and len(node.args) == 1
            and not node.keywords
        ):
            yield "nocopy", lambda n: n.args[0]
    if (
        isinstance(node, ast.Return)
        and node.value is not None
        and not isinstance(node.value, ast.Constant)
    ):

        def f(n):
            n.value = ast.Constant(None)
            return n

        yield "retnone", f


def generate():
    out = []
    for rel in FILES:
        p = "/repo/binobj/" + rel
        if not os.path.exists(p):
            continue
        src = open(p).read()
        tree = ast.parse(src)
        # index all nodes by walk order; skip annotations & class-level imports
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef,)):
                for a in ast.walk(n.args):
                    if isinstance(a, ast.arg) and a.annotation:
                        skip.update(map(id, ast.walk(a.annotation)))
                if n.returns:
                    skip.update(map(id, ast.walk(n.returns)))
            if isinstance(n, ast.AnnAssign):
                skip.update(map(id, ast.walk(n.annotation)))
            if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
                skip.update(map(id, ast.walk(n)))
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n in tree.body:
                skip.update(map(id, ast.walk(n)))
            if isinstance(n, ast.JoinedStr):
                skip.update(map(id, ast.walk(n)))
            if isinstance(n, ast.Call) and ast.unparse(n.func) in (
                "warnings.warn",
                "typing.cast",
            ):
                if ast.unparse(n.func) == "warnings.warn":
                    skip.update(map(id, ast.walk(n)))
        infn = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                for b in n.body:
                    infn.update(map(id, ast.walk(b)))
        nodes = list(ast.walk(tree))
        for idx, n in enumerate(nodes):
            if id(n) in skip or id(n) not in infn:
                continue
            for k, (desc, f) in enumerate(muts(n)):
                t2 = copy.deepcopy(tree)
                nodes2 = list(ast.walk(t2))
                tgt = nodes2[idx]
                before = ast.unparse(tgt)

                class R(ast.NodeTransformer):
                    def generic_visit(self, node):
                        return super().generic_visit(node)

                    def visit(self, node):
                        if node is tgt:
                            return f(node)
                        return super().visit(node)

                try:
                    t3 = R().visit(t2)
                    ast.fix_missing_locations(t3)
                    code = ast.unparse(t3)
                    compile(code, rel, "exec")
                except Exception:
                    continue
                if ast.dump(ast.parse(code)) == ast.dump(tree):
                    continue
                out.append(
                    {
                        "file": "binobj/" + rel,
                        "line": getattr(n, "lineno", 0),
                        "desc": desc,
                        "node": before.split("\n")[0][:110],
                        "code": code,
                    }
                )
    return out


def main(work, workers):
    os.makedirs(work, exist_ok=True)
    mutants = generate()
    order = list(range(len(mutants)))
    random.Random(5).shuffle(order)
    free = queue.Queue()
    for w in range(workers):
        d = f"{work}/w{w}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d)
        free.put(d)
    with open(f"{work}/run.py", "w") as f:
        f.write(RUN)
    path = f"{work}/results.jsonl"
    with open(path, "a+") as res:
        res.seek(0)
        done = {json.loads(line)["i"] for line in res}

        def one(i):
            m = mutants[i]
            if i in done:
                return
            d = free.get()
            try:
                p = os.path.join(d, m["file"])
                with open(p) as f:
                    orig = f.read()
                with open(p, "w") as f:
                    f.write(m["code"])
                out = judge(d, work)
                with open(p, "w") as f:
                    f.write(orig)
                line = {k: v for k, v in m.items() if k != "code"}
                res.write(json.dumps({"i": i, **line, "out": out}) + "\n")
                res.flush()
            finally:
                free.put(d)

        with cf.ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, order))
    for w in range(workers):
        shutil.rmtree(f"{work}/w{w}")


def judge(d, work):
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
    try:
        r = subprocess.run(
            [
                PY,
                "-m",
                "pytest",
                "-q",
                "-x",
                "-p",
                "no:cacheprovider",
                "--no-cov",
                "--import-mode",
                "importlib",
                "--randomly-dont-reorganize",
                "--timeout=30",
                "tests",
            ],
            cwd=d,
            env=env,
            capture_output=True,
            text=True,
            timeout=90,
        )
    except subprocess.TimeoutExpired:
        return "TESTS"
    if r.returncode:
        return "TESTS"
    env = dict(
        os.environ,
        BINOBJ_REPO=d,
        BINOBJ_OUT=f"{work}/out",
        TZ="UTC",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
    )
    try:
        r = subprocess.run(
            [PY, f"{work}/run.py"],
            cwd=work,
            env=env,
            capture_output=True,
            text=True,
            timeout=900,
        )
    except subprocess.TimeoutExpired:
        return "TIMEOUT"
    return (r.stdout.strip().splitlines() or ["ERROR " + r.stderr[-300:]])[-1]


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 7)
