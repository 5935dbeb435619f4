"""Single-edit mutants of the library, as a measure of what the checks miss. Not part of any check.

  mutate.py list                      number of mutants per file
  mutate.py run OUT [--every=N] [--offset=K] [--files=a,b] [--jobs=J]
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("NNJ_SRC", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIPKW = {"device"}
NAMES = {"x": "val", "val": "x", "jvp": "vector", "c1": "c2", "c2": "c1", "h1": "w1", "h2": "w2", "w2": "h2", "w1": "h1", "l": "b", "from_diag": "to_diag", "to_diag": "from_diag", "kernel_h": "kernel_w"}


def sites(tree):
    """Yields (description, function applying the edit to a copy of the tree)."""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        line = getattr(n, "lineno", 0)

        def edit(f, what, i=i, line=line):
            def apply():
                t = copy.deepcopy(tree)
                m = list(ast.walk(t))[i]
                f(m, t)
                return t

            return (line, what, apply)

        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield edit(lambda m, t: setattr(m, "value", not m.value), f"{n.value} -> {not n.value}")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            for d in (1, -1):
                yield edit(lambda m, t, d=d: setattr(m, "value", m.value + d), f"{n.value} -> {n.value + d}")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and "->" in n.value and len(n.value) < 30:
            lhs, rhs = n.value.split("->")
            letters = sorted(set(c for c in rhs if c.isalpha()))
            for a in letters:
                for b in letters:
                    if a < b:
                        new = lhs + "->" + rhs.translate({ord(a): b, ord(b): a})
                        yield edit(lambda m, t, new=new: setattr(m, "value", new), f"{n.value!r} -> {new!r}")
            ops = lhs.split(",")
            for k, o in enumerate(ops):
                for p in range(len(o) - 1):
                    if o[p] != o[p + 1] and o[p].isalpha() and o[p + 1].isalpha():
                        q = o[:p] + o[p + 1] + o[p] + o[p + 2 :]
                        new = ",".join(ops[:k] + [q] + ops[k + 1 :]) + "->" + rhs
                        yield edit(lambda m, t, new=new: setattr(m, "value", new), f"{n.value!r} -> {new!r}")
        elif isinstance(n, ast.Constant) and n.value in ("input", "weight"):
            o = "weight" if n.value == "input" else "input"
            yield edit(lambda m, t, o=o: setattr(m, "value", o), f"{n.value} -> {o}")
        elif isinstance(n, ast.BinOp):
            for new in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}.get(type(n.op), []):
                yield edit(lambda m, t, new=new: setattr(m, "op", new()), f"{type(n.op).__name__} -> {new.__name__}")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in {ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Lt: [ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(type(n.ops[0]), []):
                yield edit(lambda m, t, new=new: setattr(m, "ops", [new()]), f"{type(n.ops[0]).__name__} -> {new.__name__}")
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield edit(lambda m, t, new=new: setattr(m, "op", new()), f"{type(n.op).__name__} -> {new.__name__}")
            for k in range(len(n.values)):
                yield edit(lambda m, t, k=k: m.values.pop(k), f"operand {k} dropped")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("transpose", "movedim", "flip", "clone", "detach", "expand", "unsqueeze", "repeat") and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "torch"):
                yield ("call", line, f".{n.func.attr} dropped", i)
            for k, kw in enumerate(n.keywords):
                if kw.arg not in SKIPKW and kw.arg is not None:
                    yield edit(lambda m, t, k=k: m.keywords.pop(k), f"keyword {kw.arg} dropped")
            for k in range(len(n.args) - 1):
                if isinstance(n.args[k], ast.Name) and isinstance(n.args[k + 1], ast.Name):

                    def swap(m, t, k=k):
                        m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]

                    yield edit(swap, f"arguments {k} and {k + 1} swapped")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            yield edit(lambda m, t: setattr(m, "id", NAMES[m.id]), f"{n.id} -> {NAMES[n.id]}")
        elif isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                yield edit(lambda m, t, v=v: setattr(m, "test", ast.Constant(v)), f"condition -> {v}")
        if isinstance(n, ast.FunctionDef):
            for k, d in enumerate(n.decorator_list):
                yield edit(lambda m, t, k=k: m.decorator_list.pop(k), f"decorator of {n.name} dropped")
        body = getattr(n, "body", None)
        if isinstance(body, list) and isinstance(n, (ast.FunctionDef, ast.If, ast.For)):
            for k, s in enumerate(body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return)) or (isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant)):

                    def drop(m, t, k=k):
                        m.body[k] = ast.Pass()

                    l, w, a = edit(drop, f"statement dropped: {ast.unparse(s)[:60]}")
                    yield (s.lineno, w, a)


def mutants():
    for f in sorted(os.listdir(REPO + "/nnj")):
        if not f.endswith(".py") or f == "__init__.py":
            continue
        src = open(f"{REPO}/nnj/{f}").read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = {base}
        for s in sites(tree):
            if s[0] == "call":
                _, line, what, i = s
                t = copy.deepcopy(tree)
                target = list(ast.walk(t))[i]

                class R(ast.NodeTransformer):
                    def visit_Call(self, n):
                        self.generic_visit(n)
                        return n.func.value if n is target else n

                t = R().visit(t)
            else:
                line, what, apply = s
                try:
                    t = apply()
                except Exception:
                    continue
            try:
                out = ast.unparse(ast.fix_missing_locations(t))
                compile(out, f, "exec")
            except Exception:
                continue
            if out in seen:
                continue
            seen.add(out)
            yield f, line, what, out


ORDER = {
    "linear.py": "C01 C02 C03 C05 C04 C07 C06 C12 C09 C11 C23",
    "conv2d.py": "C01 C03 C04 C07 C22 C06 C09 C11 C23 C13",
    "sequential.py": "C06 C02 C03 C05 C04 C08 C07 C18 C09 C10 C13 C12 C20 C23 C19",
    "skipconnection.py": "C06 C02 C03 C05 C04 C08 C07 C09 C10 C13 C12 C23",
    "abstract_jacobian.py": "C21 C02 C03 C05 C04 C07 C12 C06 C23 C08 C10",
    "abstract_diagonal_jacobian.py": "C02 C03 C05 C04 C07 C21 C06 C08 C23",
    "maxpool2d.py": "C01 C02 C03 C04 C07 C22 C09 C13 C10 C23 C06",
    "upsample.py": "C01 C03 C04 C07 C22 C06 C23 C09",
    "log_likelihoods.py": "C15 C16 C24 C22 C23 C11 C09 C10",
    "utils.py": "C14 C17 C22 C23",
    "reshape.py": "C01 C02 C03 C05 C04 C07 C13 C06 C08 C09 C23",
    "flatten.py": "C01 C02 C03 C05 C04 C07 C13 C06 C08 C09 C23",
}
LEAF = "C01 C13 C24 C02 C07 C22 C23 C10"


def judge(m):
    f, line, what, out = m
    d = tempfile.mkdtemp(prefix="nnjmut.")
    try:
        shutil.copytree(REPO + "/nnj", d + "/repo/nnj")
        for extra in ("setup.py", "pyproject.toml"):
            if os.path.exists(f"{REPO}/{extra}"):
                shutil.copy(f"{REPO}/{extra}", d + "/repo/")
        open(f"{d}/repo/nnj/{f}", "w").write(out)
        r = subprocess.run(["/opt/venv/bin/python", "-c", "import nnj"], cwd=d + "/repo", capture_output=True)
        if r.returncode:
            return f, line, what, "import"
        cs = ORDER.get(f, LEAF).split()
        cs += [c for c in ("C10", "C22", "C14", "C11") if c not in cs]
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", VERIF + "/tools/mutant_probe.py"] + cs, cwd=d, env=dict(os.environ, NNJ_REPO=d + "/repo", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=1500)
        except subprocess.TimeoutExpired:
            return f, line, what, "TIMEOUT"
        last = r.stdout.strip().splitlines()[-1:] or [f"rc={r.returncode} " + r.stderr[-300:]]
        return f, line, what, last[0]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        n = {}
        for m in mutants():
            n[m[0]] = n.get(m[0], 0) + 1
        print(n, sum(n.values()))
    else:
        opt = dict(a[2:].split("=") for a in sys.argv[3:])
        ms = list(mutants())
        if "files" in opt:
            ms = [m for m in ms if m[0] in opt["files"].split(",")]
        ms = ms[int(opt.get("offset", 0)) :: int(opt.get("every", 1))]
        with ThreadPoolExecutor(int(opt.get("jobs", 4))) as ex, open(sys.argv[2], "a") as o:
            for r in ex.map(judge, ms):
                o.write(json.dumps(r) + "\n")
                o.flush()
