"""
Mutation analysis: small mechanical changes of the original lines of /repo, each judged by (a part of the cases of) the checks.

  mutate.py list FILE...             the mutants
  mutate.py run OUT.jsonl FILE...    judges those that OUT.jsonl does not have yet

MC_STRIDE gives the part of the cases that is tried.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CHECKS = ["c%02d" % i for i in range(1, 27)]


def original_lines(path):
    out = subprocess.check_output(["git", "blame", "-s", path], cwd=REPO, universal_newlines=True)
    return {i for i, l in enumerate(out.splitlines(), 1) if l.startswith("^")}


CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def variants(node):
    """(what, function that changes the node in place and returns what replaces it)"""
    def put(**kw):
        def f(n):
            for k, v in kw.items():
                setattr(n, k, v)
            return n
        return f
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for op in CMP.get(type(node.ops[0]), []):
            yield op.__name__, put(ops=[op()])
    if isinstance(node, ast.BoolOp):
        yield "and/or", put(op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for i in range(len(node.values)):
            yield "drop operand %d" % i, (lambda i: lambda n: n.values[1 - i] if len(n.values) == 2 else ast.BoolOp(n.op, n.values[:i] + n.values[i + 1:]))(i)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "no not", lambda n: n.operand
    if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant):
        yield BIN[type(node.op)].__name__, put(op=BIN[type(node.op)]())
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        if not isinstance(node.test, (ast.BoolOp, ast.Compare, ast.UnaryOp)):
            yield "negated", lambda n: put(test=ast.UnaryOp(ast.Not(), n.test))(n)
        if isinstance(node, (ast.If, ast.IfExp)):
            yield "always", put(test=ast.Constant(True))
            yield "never", put(test=ast.Constant(False))
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield "not", put(value=not node.value)
        elif isinstance(node.value, int):
            yield "+1", put(value=node.value + 1)
            if node.value > 0:
                yield "-1", put(value=node.value - 1)
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield "delete", lambda n: ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        if isinstance(node.value, ast.Constant) and isinstance(node.value.value, bool):
            pass
        else:
            yield "return None", put(value=None)
    if isinstance(node, ast.Break):
        yield "continue", lambda n: ast.Continue()
    if isinstance(node, ast.Continue):
        yield "break", lambda n: ast.Break()
    if isinstance(node, ast.Call):
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            for i in range(len(node.args) - 1):
                yield "swap arguments %d" % i, (lambda i: lambda n: put(args=n.args[:i] + [n.args[i + 1], n.args[i]] + n.args[i + 2:])(n))(i)
        if len(node.args) == 1 and isinstance(node.func, ast.Name) and node.func.id in ("list", "set", "frozenset", "sorted", "tuple", "str", "float", "int", "bool"):
            yield "no " + node.func.id, lambda n: n.args[0]
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "copy":
            yield "no copy", lambda n: n.args[0]
    if isinstance(node, ast.ExceptHandler) and not all(isinstance(s, ast.Raise) for s in node.body):
        yield "reraise", put(body=[ast.Raise()])
    if isinstance(node, ast.For):
        yield "first only", lambda n: put(body=n.body + [ast.Break()])(n)


class Changer(ast.NodeTransformer):
    def __init__(self, at, k):
        self.at, self.k, self.n = at, k, -1
        self.what = None

    def visit(self, node):
        self.n += 1
        if self.n == self.at:
            what, f = list(variants(node))[self.k]
            self.what = what
            return f(node)
        return self.generic_visit(node)


def order(tree):
    """Nodes in the order in which Changer meets them."""
    out = []

    class V(ast.NodeTransformer):
        def visit(self, node):
            out.append(node)
            return self.generic_visit(node)
    V().visit(tree)
    return out


def skip_functions(tree):
    lines = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("__repr__", "_date", "_time", "_control_flow", "dump", "get_logger", "main", "_csv", "_raise", "prompt"):
            lines.update(range(n.lineno, n.end_lineno + 1))
    return lines


def mutants(path):
    with open(os.path.join(REPO, path)) as f:
        text = f.read()
    ok = original_lines(path)
    tree = ast.parse(text)
    bad = skip_functions(tree)
    for i, node in enumerate(order(tree)):
        line = getattr(node, "lineno", None)
        if line is None or line not in ok or line in bad:
            continue
        for k, (what, _) in enumerate(variants(node)):
            yield {"file": path, "line": line, "node": i, "k": k, "what": what, "code": (ast.get_source_segment(text, node) or "")[:80]}


def mutate(m):
    with open(os.path.join(REPO, m["file"])) as f:
        tree = ast.parse(f.read())
    c = Changer(m["node"], m["k"])
    tree = ast.fix_missing_locations(c.visit(tree))
    return ast.unparse(tree)


_local = threading.local()
_kills = {}
_lock = threading.Lock()


def ranking(path):
    with _lock:
        k = dict(_kills)
    return sorted(CHECKS, key=lambda c: (-k.get((path, c), 0), -k.get(c, 0), c))


def judge(m, base):
    d = os.path.join(base, "w%d" % threading.get_ident())
    if not os.path.isdir(d):
        subprocess.check_call(["git", "clone", "-q", REPO, d])
    try:
        text = mutate(m)
    except Exception as e:
        return dict(m, result="invalid", why=repr(e))
    path = os.path.join(d, m["file"])
    with open(path) as f:
        saved = f.read()
    vd = d + "-v"
    if not os.path.isdir(vd):
        os.makedirs(vd)
        shutil.copytree(os.path.join(ROOT, "mc"), os.path.join(vd, "mc"))
        shutil.copy(os.path.join(ROOT, "known_findings.json"), vd)
    try:
        with open(path, "w") as f:
            f.write(text)
        env = dict(os.environ, VERIF_REPO=d, MC_JOBS="1", MC_STRIDE=os.environ.get("MC_STRIDE", "24"))
        for c in ranking(m["file"]):
            try:
                r = subprocess.run(["bash", os.path.join(vd, "mc", "run.sh"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=400)
            except subprocess.TimeoutExpired:
                return dict(m, result="timeout", by=c)
            if r.returncode:
                with _lock:
                    _kills[c] = _kills.get(c, 0) + 1
                    _kills[m["file"], c] = _kills.get((m["file"], c), 0) + 1
                return dict(m, result="killed", by=c)
        return dict(m, result="SURVIVED")
    finally:
        with open(path, "w") as f:
            f.write(saved)


def main():
    if sys.argv[1] == "list":
        for p in sys.argv[2:]:
            for m in mutants(p):
                print(json.dumps(m))
        return
    out = sys.argv[2]
    done = set()
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                m = json.loads(l)
                done.add((m["file"], m["node"], m["k"]))
    todo = [m for p in sys.argv[3:] for m in mutants(p) if (m["file"], m["node"], m["k"]) not in done]
    base = "/tmp/mutants-%d" % os.getpid()
    os.makedirs(base)
    print(len(todo), "mutants")
    with open(out, "a") as f, cf.ThreadPoolExecutor(int(os.environ.get("WORKERS", "8"))) as ex:
        for r in ex.map(lambda m: judge(m, base), todo):
            f.write(json.dumps(r) + "\n")
            f.flush()
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
