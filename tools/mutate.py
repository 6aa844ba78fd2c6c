"""Mutation survey: which small edits of the library do the checks miss?

mutate.py list                       print how many mutants each file has
mutate.py run OUT.jsonl [N] [SEED]   try (a sample of) the mutants, one shard of the mapped checks each
mutate.py full OUT.jsonl IN.jsonl    rerun the survivors of IN against every shard of the mapped checks

Works on copies of the package under /tmp/mut; /repo is only read.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import random
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/graphblas_algorithms"
PY = "/opt/venv/bin/python"
BASE = "/tmp/mut"
MAP = [  # path fragment -> checks, most specific first
    ("classes/_caching", ["C01", "C02"]),
    ("classes/nodemap", ["C19"]),
    ("classes/nodeset", ["C20"]),
    ("classes/_utils", ["C24", "C03", "C19"]),
    ("classes/graph", ["C25", "C01", "C24", "C03", "C02", "C13"]),
    ("classes/digraph", ["C25", "C01", "C24", "C03", "C02", "C13"]),
    ("classes/", ["C01", "C03", "C24"]),
    ("interface", ["C22", "C03"]),
    ("_utils.py", ["C03", "C21", "C05", "C23"]),
    ("exception", ["C21"]),
    ("traversal", ["C05", "C04"]), ("_bfs", ["C05", "C04"]), ("components", ["C04"]), ("dag", ["C04", "C05"]),
    ("lowest_common", ["C04"]), ("shortest_paths/generic", ["C04"]), ("shortest_paths/unweighted", ["C05"]),
    ("shortest_paths/weighted", ["C06", "C07"]), ("shortest_paths/dense", ["C08"]),
    ("efficiency", ["C05", "C04"]), ("simple_paths", ["C15"]),
    ("cluster", ["C09", "C10", "C23"]), ("core", ["C11"]), ("ego", ["C11"]),
    ("boundary", ["C12"]), ("cuts", ["C12"]), ("dominating", ["C12", "C15"]), ("quality", ["C12", "C15"]),
    ("operators", ["C13"]), ("smetric", ["C14"]), ("isolate", ["C14"]), ("regular", ["C14"]), ("reciprocity", ["C14"]),
    ("isomorph", ["C14"]), ("degree_alg", ["C14"]), ("tournament", ["C15"]), ("triads", ["C15"]),
    ("structuralholes", ["C15"]), ("linalg", ["C16"]), ("link_analysis", ["C17", "C18"]), ("katz", ["C18"]),
    ("eigenvector", ["C18"]), ("_helpers", ["C18", "C17"]), ("utils/", ["C21"]), ("", ["C22"]),
]
SKIPDIR = ("tests", "__pycache__", "scripts")


def files():
    out = []
    for d, ds, fs in os.walk(SRC):
        ds[:] = [x for x in ds if x not in SKIPDIR]
        out += [os.path.join(d, f) for f in fs if f.endswith(".py") and f != "conftest.py"]
    return sorted(out)


def checks_for(rel):
    for frag, ps in MAP:
        if frag in rel:
            return ps


CMP = {"Lt": ["<="], "LtE": ["<"], "Gt": [">="], "GtE": [">"], "Eq": ["!="], "NotEq": ["=="], "In": ["not in"],
       "NotIn": ["in"], "Is": ["is not"], "IsNot": ["is"]}
BIN = {"Add": "-", "Sub": "+", "Mult": "+", "Div": "*", "BitAnd": "|", "BitOr": "&"}
NAMES = {"reduce_rowwise": "reduce_columnwise", "reduce_columnwise": "reduce_rowwise", "row_degrees": "column_degrees",
         "min_plus": "max_plus", "plus_pair": "plus_times", "plus_times": "plus_pair", "any_pair": "plus_pair",
         "any_secondi": "min_secondi", "min": "max", "max": "min", "S": "V", "V": "S", "from_coo": None,
         "nrows": "ncols", "ncols": "nrows", "plus_first": "plus_second", "plus_second": "plus_first",
         "mxv": "vxm", "plus_rdiv": None, "extend": "append", "any": "all", "all": "any", "ewise_mult": "ewise_add",
         "ewise_add": "ewise_mult", "update": None, "pair": "plus", "lor": "land", "land": "lor", "triu": "tril",
         "tril": "triu", "row": "column", "is_directed": None}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.off = [0]
        for x in self.lines:
            self.off.append(self.off[-1] + len(x.encode()) + 1)
        self.out = []

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def put(self, n, new, kind):
        a, b = self.span(n)
        self.out.append((a, b, new, kind, n.lineno))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]).__name__, []):
                self.put(n, f"({self.text(n.left)} {o} {self.text(n.comparators[0])})", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        o = BIN.get(type(n.op).__name__)
        if o:
            self.put(n, f"({self.text(n.left)} {o} {self.text(n.right)})", "bin")
            self.put(n, f"({self.text(n.left)})", "left")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values)):
            rest = [self.text(v) for j, v in enumerate(n.values) if j != i]
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.put(n, "(" + o.join(rest) + ")", "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            self.put(n, f"({self.text(n.operand)})", "unary")
        self.generic_visit(n)

    def visit_If(self, n):
        for v in ("True", "False"):
            self.put(n.test, v, "if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, f"({self.text(n.body)})", "ifexp")
        self.put(n, f"({self.text(n.orelse)})", "ifexp")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.put(n, str(not n.value), "const")
        elif isinstance(n.value, int):
            self.put(n, str(n.value + 1), "const")
            if n.value:
                self.put(n, str(n.value - 1), "const")
        elif isinstance(n.value, float):
            self.put(n, str(n.value * 2), "const")
        elif isinstance(n.value, str) and n.value and n.value[-1] in "+-" and len(n.value) < 40:
            self.put(n, repr(n.value[:-1] + ("-" if n.value[-1] == "+" else "+")), "prop")

    def visit_Attribute(self, n):
        new = NAMES.get(n.attr)
        a, b = self.span(n)
        if new:
            self.out.append((b - len(n.attr.encode()), b, new, "attr", n.end_lineno))
        if n.attr == "T":
            self.out.append((b - 2, b, "", "T", n.end_lineno))
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and NAMES.get(n.id) and n.id not in ("S", "V", "row"):
            self.put(n, NAMES[n.id], "name")

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("dup", "new", "copy", "sort"):
            self.put(n, self.text(f.value), "drop-" + f.attr)
        for k in n.keywords:
            if k.arg and len(n.args) + len(n.keywords) > 1:
                a = self.off[k.lineno - 1] + k.col_offset
                b = self.span(k.value)[1]
                s = self.src.encode()
                while s[b:b + 1] in (b" ", b","):
                    b += 1
                self.out.append((a, b, "", "kw", k.lineno))
        self.generic_visit(n)

    def stmt(self, n):
        self.put(n, "pass", "del")

    def visit_Expr(self, n):
        if not isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom)):
            self.stmt(n)
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.stmt(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.stmt(n)
        self.visit(n.value)
        for t in n.targets:
            if not isinstance(t, (ast.Name, ast.Tuple)):
                self.visit(t)

    def visit_Break(self, n):
        self.put(n, "pass", "break")

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_FunctionDef(self, n):
        for x in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(x)
        for x in n.body:
            self.visit(x)


def mutants(path):
    src = open(path).read()
    v = V(src)
    v.visit(ast.parse(src))
    b = src.encode()
    seen = set()
    for a, e, new, kind, line in v.out:
        t = b[:a] + new.encode() + b[e:]
        if t == b or t in seen:
            continue
        try:
            compile(t, path, "exec")
        except (SyntaxError, ValueError):
            continue
        seen.add(t)
        yield {"file": os.path.relpath(path, SRC), "line": line, "kind": kind, "a": a, "e": e, "new": new,
               "old": b[a:e].decode()[:160]}


def apply(m, d):
    p = os.path.join(SRC, m["file"])
    b = open(p, "rb").read()
    with open(os.path.join(d, "graphblas_algorithms", m["file"]), "wb") as f:
        f.write(b[:m["a"]] + m["new"].encode() + b[m["e"]:])


def restore(m, d):
    shutil.copy(os.path.join(SRC, m["file"]), os.path.join(d, "graphblas_algorithms", m["file"]))


def attempt(m, d, ps, shards, cap):
    env = dict(os.environ, PYTHONPATH=d, VERIF_CAP=str(cap), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    apply(m, d)
    try:
        try:
            r = subprocess.run([PY, "-c", "import graphblas_algorithms.nxapi, graphblas_algorithms.interface"], env=env,
                               capture_output=True, timeout=60, cwd="/")
            if r.returncode:
                return "import", ""
        except subprocess.TimeoutExpired:
            return "import", ""
        for p in ps:
            for s in shards:
                out = os.path.join(d, "out")
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                try:
                    r = subprocess.run([PY, os.path.join(ROOT, "harness", "worker.py"), p, str(s), "8", out, "quick", "1"],
                                       env=env, capture_output=True, timeout=cap * 4 + 120, cwd=ROOT, text=True)
                except subprocess.TimeoutExpired:
                    return "timeout", p
                f = os.path.join(out, f"res_{s}.json")
                if not os.path.exists(f):
                    return "crash", p + " " + (r.stdout + r.stderr)[-300:]
                x = json.load(open(f))
                if x["viol"]:
                    return "killed", p + " " + x["viol"][0][2]
                if x.get("error"):
                    return "error", p + x["error"][-300:]
        return "survived", ""
    finally:
        restore(m, d)


def go(ms, outf, shards, cap, jobs=int(os.environ.get("MUT_JOBS") or 8)):
    pool = queue.Queue()
    for i in range(jobs):
        d = f"{BASE}/w{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(SRC, d + "/graphblas_algorithms", ignore=shutil.ignore_patterns("tests", "__pycache__"))
        pool.put(d)

    def one(m):
        d = pool.get()
        try:
            m["res"], m["why"] = attempt(m, d, checks_for(m["file"]), [random.randrange(8)] if shards is None else shards, cap)
        except Exception as exc:
            m["res"], m["why"] = "harness", repr(exc)
        finally:
            pool.put(d)
        with open(outf, "a") as f:
            f.write(json.dumps(m) + "\n")
        return m

    with cf.ThreadPoolExecutor(jobs) as ex:
        n = {}
        for m in ex.map(one, ms):
            n[m["res"]] = n.get(m["res"], 0) + 1
        print(n)


def main():
    what = sys.argv[1]
    if what == "list":
        t = 0
        for p in files():
            k = len(list(mutants(p)))
            t += k
            print(k, os.path.relpath(p, SRC), checks_for(os.path.relpath(p, SRC)))
        print(t)
        return
    if what == "run":
        ms = [m for p in files() for m in mutants(p)]
        random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1).shuffle(ms)
        done = set()
        if os.path.exists(sys.argv[2]):
            done = {(m["file"], m["a"], m["e"], m["new"]) for m in map(json.loads, open(sys.argv[2]))}
        ms = [m for m in ms if (m["file"], m["a"], m["e"], m["new"]) not in done]
        if len(sys.argv) > 3:
            ms = ms[: int(sys.argv[3])]
        go(ms, sys.argv[2], None, 10)
    if what == "full":
        ms = [m for m in map(json.loads, open(sys.argv[3])) if m["res"] == "survived"]
        go(ms, sys.argv[2], list(range(0, 8, 2)), 60)


main()
