"""Mechanical mutants of a source file, and the checks that notice them.

  python3 tools/mutate.py FILE CHECK,CHECK [sample per function] [function regex]

FILE is relative to capture/noworkflow.  Works on copies of /repo under a
scratch directory, and prints the mutants that no check notices.
A development aid: no check uses it.
"""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = os.environ.get("VERIF_REPO", "/repo")
FLIP = {"Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is", "In": "not in", "NotIn": "in",
        "Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">"}


class Source(object):
    def __init__(self, text):
        self.text = text
        self.lines = [0]
        for line in text.encode("utf8").splitlines(True):
            self.lines.append(self.lines[-1] + len(line))
        self.data = text.encode("utf8")

    def span(self, node):
        return (self.lines[node.lineno - 1] + node.col_offset,
                self.lines[node.end_lineno - 1] + node.end_col_offset)

    def of(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode("utf8")


def mutants(src, func):
    """[(what, node, replacement)]"""
    out = []
    add = lambda what, node, new: out.append((what, node, new))
    skip = set()
    for n in ast.walk(func):
        if isinstance(n, (ast.JoinedStr,)):
            skip |= set(ast.walk(n))
    doc = ast.get_docstring(func)
    for n in ast.walk(func):
        if n in skip or n is func:
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add("negate", n.test, "not (" + src.of(n.test) + ")")
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                add("negate", c, "not (" + src.of(c) + ")")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = FLIP[type(n.ops[0]).__name__]
            if op in ("<", "<=", ">", ">="):
                add("bound", n, "{} {} {}".format(src.of(n.left), op, src.of(n.comparators[0])))
        if isinstance(n, ast.BoolOp):
            add("boolop", n, (" and " if isinstance(n.op, ast.Or) else " or ").join(
                "(" + src.of(v) + ")" for v in n.values))
            for i in range(len(n.values)):
                rest = [v for k, v in enumerate(n.values) if k != i]
                add("drop operand", n, (" or " if isinstance(n.op, ast.Or) else " and ").join(
                    "(" + src.of(v) + ")" for v in rest))
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)) and not (
                isinstance(n.value, ast.Constant)):
            add("delete", n, "pass")
        if isinstance(n, (ast.AugAssign,)):
            add("delete", n, "pass")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add("delete", n, "pass")
        if isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            add("return", n, "return None")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a, b = n.args[:2]
                lo, hi = src.span(a)[0], src.span(b)[1]
                mid = src.data[src.span(a)[1]:src.span(b)[0]].decode()
                out.append(("swap", (lo, hi, a.lineno), src.of(b) + mid + src.of(a)))
            for k in n.keywords:
                if k.arg and (n.args or len(n.keywords) > 1):
                    lo, hi = src.span(k)
                    rest = src.data[hi:].decode("utf8", "ignore")
                    m = re.match(r"\s*,", rest)
                    if m:
                        out.append(("drop " + k.arg, (lo, hi + len(m.group(0)), k.value.lineno), ""))
                    else:
                        before = src.data[:lo].decode("utf8", "ignore")
                        m = re.search(r",\s*$", before)
                        if m:
                            out.append(("drop " + k.arg, (lo - len(m.group(0)), hi,
                                                           k.value.lineno), ""))
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add("constant", n, str(not n.value))
            elif isinstance(n.value, int):
                add("constant", n, str(n.value + 1))
        if isinstance(n, ast.For):
            add("first", n.iter, "list(" + src.of(n.iter) + ")[:1]")
        if isinstance(n, (ast.Continue, ast.Break)):
            add("delete", n, "pass")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add("except", n.type, "ZeroDivisionError")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            names = [a.arg for a in func.args.args if a.arg not in ("self", "cls", n.id)]
            if n.id in [a.arg for a in func.args.args] and n.id not in ("self", "cls") and names:
                add("name", n, random.choice(names))
    return out


def main(argv):
    path, checks = argv[0], argv[1].split(",")
    sample = int(argv[2]) if len(argv) > 2 else 8
    pattern = re.compile(argv[3]) if len(argv) > 3 else None
    random.seed(int(os.environ.get("MUTATE_SEED", "1")))
    full = os.path.join(REPO, "capture/noworkflow", path)
    text = open(full, encoding="utf8").read()
    src = Source(text)
    jobs = []
    for f in ast.walk(ast.parse(text)):
        if isinstance(f, ast.FunctionDef) and (pattern is None or pattern.search(f.name)):
            ms = mutants(src, f)
            random.shuffle(ms)
            for what, node, new in ms[:sample]:
                lo, hi, line = node if isinstance(node, tuple) else src.span(node) + (node.lineno,)
                data = src.data[:lo] + new.encode("utf8") + src.data[hi:]
                try:
                    ast.parse(data)
                except SyntaxError:
                    continue
                jobs.append((f.name, line, what, src.data[lo:hi].decode("utf8"), new, data))
    pool = Queue()
    base = tempfile.mkdtemp(prefix="mutate")
    workers = int(os.environ.get("MUTATE_JOBS", "7"))
    for i in range(workers):
        d = os.path.join(base, str(i))
        shutil.copytree(os.path.join(REPO, "capture"), d + "/capture", ignore=shutil.ignore_patterns(
            "node_modules", ".git", "*.pyc", "tests", "static"))
        pool.put(d)

    def run(job):
        d = pool.get()
        try:
            p = os.path.join(d, "capture/noworkflow", path)
            with open(p, "wb") as fil:
                fil.write(job[-1])
            for c in checks:
                r = subprocess.run([sys.executable, "/verif/check.py", c], cwd="/verif",
                                   env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                if r.returncode:
                    return c if r.returncode == 1 else c + "!"
            return None
        finally:
            with open(p, "wb") as fil:
                fil.write(src.data)
            pool.put(d)
    with ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(run, jobs))
    shutil.rmtree(base)
    for job, res in zip(jobs, results):
        if res is None or res.endswith("!"):
            print("{} {}:{} {} [{}] -> [{}]{}".format(
                "SURVIVES" if res is None else "BROKEN " + res, job[0], job[1], job[2],
                " ".join(job[3].split())[:70], " ".join(job[4].split())[:70], ""))
    print("{}: {} of {} noticed".format(path, sum(1 for r in results if r), len(jobs)))


if __name__ == "__main__":
    main(sys.argv[1:])
