"""Mechanical refactorings of the whole code base, which keep its behaviour.

  python3 tools/refactor.py KIND TARGET      rewrites TARGET/capture/noworkflow/now
  python3 tools/refactor.py KIND TARGET FILE-REGEX FUNCTION-REGEX

A development aid that shows which checks depend on how the code is written.
"""
import ast
import os
import re
import sys

SKIP = {"tests", "demo", "__pycache__", "static", "node_modules", "templates"}
COUNT = [0]


def fresh(prefix):
    COUNT[0] += 1
    return "{}_{}".format(prefix, COUNT[0])


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (
        ctx is None or isinstance(n.ctx, ctx))}


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def negate(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    return ast.UnaryOp(ast.Not(), c)


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def ends(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Rewrite(object):
    """Rewrites the statement lists of a function"""

    def __init__(self, func, cls, module):
        self.func, self.cls, self.module = func, cls, module
        self.new = []           # new functions

    def blocks(self, node):
        for name in ("body", "orelse", "finalbody"):
            b = getattr(node, name, None)
            if isinstance(b, list):
                yield node, name, b
        for h in getattr(node, "handlers", []):
            yield h, "body", h.body

    def run(self, node=None):
        node = node or self.func
        for owner, name, body in list(self.blocks(node)):
            out = []
            for i, s in enumerate(body):
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    self.run(s)
            setattr(owner, name, self.block(owner, name, body))

    def block(self, owner, name, body):
        out = []
        for s in body:
            got = self.stmt(s)
            out.extend(got if got is not None else [s])
        return out

    def stmt(self, s):
        return None


class InvertIf(Rewrite):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(negate(s.test), s.orelse, s.body)]


class CondVar(Rewrite):
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            v = fresh("cond")
            return [ast.Assign([store(v)], s.test), ast.If(load(v), s.body, s.orelse)]


class RetVar(Rewrite):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            return [ast.Assign([store("result_")], s.value), ast.Return(load("result_"))]


class CompLoop(Rewrite):
    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Return)) or not isinstance(s.value, ast.ListComp):
            return
        c = s.value
        if len(c.generators) != 1:
            return
        g = c.generators[0]
        targets = names(g.target)
        used = sum(1 for n in ast.walk(self.func) if isinstance(n, ast.Name) and n.id in targets)
        inner = sum(1 for n in ast.walk(c) if isinstance(n, ast.Name) and n.id in targets)
        params = {a.arg for a in self.func.args.args}
        if used != inner or targets & params or has(c.elt, ast.Lambda):
            return
        if isinstance(s, ast.Return):
            v = fresh("result")
        elif len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in names(c):
            v = s.targets[0].id
        else:
            return
        body = [ast.Expr(ast.Call(ast.Attribute(load(v), "append", ast.Load()), [c.elt], []))]
        for i in reversed(g.ifs):
            body = [ast.If(i, body, [])]
        out = [ast.Assign([store(v)], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        if isinstance(s, ast.Return):
            out.append(ast.Return(load(v)))
        return out


class LoopComp(Rewrite):
    def block(self, owner, name, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            n = body[i + 1] if i + 1 < len(body) else None
            if (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and
                    isinstance(s.value, ast.List) and not s.value.elts and isinstance(n, ast.For) and
                    not n.orelse and len(n.body) == 1 and not has(n, ast.Yield)):
                v = s.targets[0].id
                b, ifs = n.body[0], []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                if (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and
                        isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and
                        isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == v and
                        v not in names(b.value.args[0])):
                    out.append(ast.Assign([store(v)], ast.ListComp(
                        b.value.args[0], [ast.comprehension(n.target, n.iter, ifs, 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class AndNest(Rewrite):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(
                s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body


class ElseReturn(Rewrite):
    """if c: return a; rest -> if c: return a else: rest"""

    def block(self, owner, name, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and body[i + 1:]:
                return body[:i] + [ast.If(s.test, s.body, self.block(owner, name, body[i + 1:]))]
        return body


class Flatten(Rewrite):
    """if c: return a else: b -> if c: return a; b"""

    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            return [ast.If(s.test, s.body, [])] + s.orelse


class Guard(Rewrite):
    """if c: rest-of-function -> if not c: return; rest"""

    def run(self, node=None):
        if not has(self.func, ast.Yield, ast.YieldFrom):
            last = self.func.body[-1]
            if isinstance(last, ast.If) and not last.orelse:
                self.func.body = self.func.body[:-1] + [ast.If(negate(last.test), [ast.Return(None)], [])] + last.body
        super(Guard, self).run(node)

    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            i = s.body[0]
            s.body = [ast.If(negate(i.test), [ast.Continue()], [])] + i.body


class Ternary(Rewrite):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            e = s.value
            if isinstance(s, ast.Return):
                return [ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])]
            return [ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(s.targets, e.orelse)])]


class ToTernary(Rewrite):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
            if (isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and
                    ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and len(a.targets) == 1):
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]


class Rename(Rewrite):
    def run(self, node=None):
        f = self.func
        if has(f, ast.Global, ast.Nonlocal) or any(
                isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) for n in ast.walk(f) if n is not f):
            return
        if {"locals", "vars", "eval", "exec"} & names(f):
            return
        mine = names(f, ast.Store) - {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        for h in ast.walk(f):
            if isinstance(h, ast.ExceptHandler) and h.name:
                mine.discard(h.name)
            if isinstance(h, (ast.Import, ast.ImportFrom)):
                mine -= {a.asname or a.name for a in h.names}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in mine:
                n.id = n.id + "_v"


class ArgVar(Rewrite):
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
            c = s.value
            if has(c.func, ast.Call) or not c.args or isinstance(c.args[0], (ast.Name, ast.Constant, ast.Starred,
                                                                           ast.GeneratorExp)):
                return
            v = fresh("arg")
            first = c.args[0]
            c.args[0] = load(v)
            return [ast.Assign([store(v)], first), s]


class Flip(Rewrite):
    OPS = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def run(self, node=None):
        for c in ast.walk(self.func):
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in self.OPS and not has(c, ast.Call):
                if ".m." in ast.unparse(c) or ".t." in ast.unparse(c):
                    continue
                c.left, c.comparators[0] = c.comparators[0], c.left
                c.ops = [self.OPS[type(c.ops[0])]()]


class NotIn(Rewrite):
    def run(self, node=None):
        for n in ast.walk(self.func):
            for k, v in ast.iter_fields(n):
                if isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(
                        v.ops[0], (ast.NotIn, ast.IsNot, ast.NotEq)):
                    if ".m." in ast.unparse(v) or ".t." in ast.unparse(v):
                        continue
                    v.ops = [{ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}[type(v.ops[0])]()]
                    setattr(n, k, ast.UnaryOp(ast.Not(), v))


class Pair(Rewrite):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            v = fresh("pair")
            return [ast.For(store(v), s.iter, [ast.Assign([s.target], load(v))] + s.body, s.orelse)]


class IterVar(Rewrite):
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            v = fresh("values")
            return [ast.Assign([store(v)], s.iter), ast.For(s.target, load(v), s.body, s.orelse)]


class Consts(Rewrite):
    def run(self, node=None):
        for c in ast.walk(self.func):
            if isinstance(c, ast.Compare):
                for i, x in enumerate(c.comparators):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value:
                        v = "CONST_" + re.sub(r"\W", lambda m: "_%02x" % ord(m.group()), x.value).upper()
                        self.module.consts[v] = x.value
                        c.comparators[i] = load(v)


class Helper(Rewrite):
    """The bodies of conditions and loops become functions"""
    size = 1

    def run(self, node=None):
        f = self.func
        if any(isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) for n in ast.walk(f) if n is not f):
            return
        if has(f, ast.Global, ast.Nonlocal) or {"super", "locals"} & names(f):
            return
        super(Helper, self).run(node)

    def block(self, owner, name, body):
        if not isinstance(owner, (ast.If, ast.For)) or owner in getattr(self, "made", ()):
            return body
        if len(body) < self.size or has(ast.Module(body, []), ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom,
                                        ast.Raise, ast.Import, ast.ImportFrom, ast.Delete, ast.Assert):
            return body
        if len(body) == 1 and isinstance(body[0], (ast.If, ast.Pass)):
            return body
        mod = ast.Module(body, [])
        assigned = names(mod, ast.Store)
        for h in ast.walk(mod):
            if isinstance(h, ast.ExceptHandler) and h.name:
                return body
            if isinstance(h, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                assigned -= set().union(*[names(g.target) for g in h.generators])
        total = sum(1 for n in ast.walk(self.func) if isinstance(n, ast.Name) and n.id in assigned)
        mine = sum(1 for n in ast.walk(mod) if isinstance(n, ast.Name) and n.id in assigned)
        if total != mine:
            return body
        if any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and False for n in ast.walk(mod)):
            return body
        params = [a.arg for a in self.func.args.posonlyargs + self.func.args.args + self.func.args.kwonlyargs]
        for x in (self.func.args.vararg, self.func.args.kwarg):
            if x:
                params.append(x.arg)
        local = set(params) | names(self.func, ast.Store)
        used = sorted((names(mod, ast.Load) & local) - assigned)
        imported = {a.asname or a.name for n in ast.walk(self.func) if isinstance(n, (ast.Import, ast.ImportFrom))
                    for a in n.names}
        if imported & names(mod):
            return body
        first = self.func.args.args[0].arg if self.func.args.args else None
        deco = [ast.unparse(d) for d in self.func.decorator_list]
        method = self.cls is not None and first == "self" and not any(
            "static" in d or "classmethod" in d for d in deco)
        n = fresh("_part")
        if method:
            used = [u for u in used if u != "self"]
            args = ["self"] + used
            call = ast.Call(ast.Attribute(load("self"), n, ast.Load()), [load(u) for u in used], [])
        else:
            args = used
            call = ast.Call(load(n), [load(u) for u in used], [])
        if re.search(r"\b__\w+(?!__)\b", ast.unparse(mod)) and not method:
            return body
        fn = ast.FunctionDef(n, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body, [])
        fn.type_params = []
        (self.new if method else self.module.new).append(fn)
        return [ast.Expr(call)]


class TailHelper(Helper):
    """The second half of a function becomes a function"""

    def run(self, node=None):
        f = self.func
        if any(isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) for n in ast.walk(f) if n is not f):
            return
        if has(f, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom) or {
                "super", "locals"} & names(f) or f.decorator_list or f.args.vararg or f.args.kwarg or f.name.startswith("__"):
            return
        if len(f.body) < 4:
            return
        k = len(f.body) // 2
        tail = ast.Module(f.body[k:], [])
        head = ast.Module(f.body[:k], [])
        if has(head, ast.Return) and not has(tail, ast.Return) and False:
            return
        assigned = names(tail, ast.Store)
        local = {a.arg for a in f.args.args + f.args.kwonlyargs} | names(head, ast.Store)
        used = sorted(names(tail) & local)
        if re.search(r"\b__\w+\b", ast.unparse(tail)):
            return
        # variables that the head may leave unassigned
        sure = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for s in f.body[:k]:
            if isinstance(s, ast.Assign):
                sure |= names(s, ast.Store)
        if not set(used) <= sure:
            return
        first = f.args.args[0].arg if f.args.args else None
        method = self.cls is not None and first == "self"
        if self.cls is not None and not method:
            return
        n = fresh("_rest")
        if method:
            used = [u for u in used if u != "self"]
            args = ["self"] + used
            call = ast.Call(ast.Attribute(load("self"), n, ast.Load()), [load(u) for u in used], [])
        else:
            args = used
            call = ast.Call(load(n), [load(u) for u in used], [])
        fn = ast.FunctionDef(n, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), f.body[k:], [])
        fn.type_params = []
        (self.new if method else self.module.new).append(fn)
        f.body = f.body[:k] + [ast.Return(call)]


class Swap(Rewrite):
    """Adjacent independent assignments"""

    def block(self, owner, name, body):
        i = 0
        body = list(body)
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and
                   not has(s, ast.Call, ast.Subscript, ast.Yield, ast.ListComp) for s in (a, b)):
                if not (names(a, ast.Store) & names(b) or names(b, ast.Store) & names(a)):
                    body[i], body[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return body


class Inc(Rewrite):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
            return [ast.Assign([s.target], ast.BinOp(load(s.target.id), s.op, s.value))]


class Alias(Rewrite):
    """self.x used more than once, and never stored, in a statement list -> local"""

    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and isinstance(
                s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Attribute) and isinstance(
                    s.value.func.value.value, ast.Name):
            v = fresh("obj")
            o = s.value.func.value
            s.value.func.value = load(v)
            return [ast.Assign([store(v)], o), s]


class Fstring(Rewrite):
    """"..{}..".format(a, b) -> concatenation by % is avoided: str.join of the parts"""

    def run(self, node=None):
        for n in ast.walk(self.func):
            for k, v in ast.iter_fields(n):
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "format" and \
                        isinstance(v.func.value, ast.Constant) and isinstance(v.func.value.value, str) and \
                        not v.keywords and not has(v, ast.Starred):
                    parts = re.split(r"(\{\})", v.func.value.value)
                    if any("{" in x or "}" in x for x in parts if x != "{}") or \
                            parts.count("{}") != len(v.args) or any(
                                '"' in ast.unparse(a) or "'" in ast.unparse(a) for a in v.args):
                        continue
                    args = list(v.args)
                    vals = []
                    for x in parts:
                        if x == "{}":
                            vals.append(ast.FormattedValue(args.pop(0), -1, None))
                        elif x:
                            vals.append(ast.Constant(x))
                    setattr(n, k, ast.JoinedStr(vals))


class Raw(Rewrite):
    """No change but the layout"""


KINDS = {c.__name__: c for c in (InvertIf, CondVar, RetVar, CompLoop, LoopComp, AndNest, ElseReturn, Flatten, Guard,
                                 Ternary, ToTernary, Rename, ArgVar, Flip, NotIn, Pair, IterVar, Consts, Helper,
                                 TailHelper, Swap, Inc, Alias, Fstring, Raw)}


class Module(object):
    def __init__(self):
        self.new, self.consts = [], {}


def rewrite(path, kind, pattern=None):
    with open(path, encoding="utf8") as f:
        text = f.read()
    try:
        tree = ast.parse(text)
    except SyntaxError:
        return 0
    mod = Module()
    done = 0

    def visit(body, cls):
        nonlocal done
        for s in body:
            if isinstance(s, ast.ClassDef):
                extra = visit(s.body, s)
                s.body.extend(extra)
        new = []
        for s in body:
            if isinstance(s, ast.FunctionDef):
                q = (cls.name + "." if cls else "") + s.name
                if pattern and not re.match(pattern + "$", q):
                    continue
                before = ast.dump(s)
                r = kind(s, cls, mod)
                r.run()
                if ast.dump(s) != before:
                    done += 1
                new.extend(r.new)
        return new

    visit(tree.body, None)
    if not done and kind is not Raw:
        return 0
    i = 0
    while i < len(tree.body) and (isinstance(tree.body[i], ast.Expr) or isinstance(tree.body[i], ast.ImportFrom) and
                                  tree.body[i].module == "__future__"):
        i += 1
    tree.body[i:i] = [ast.Assign([store(k)], ast.Constant(v)) for k, v in sorted(mod.consts.items())]
    main = [k for k, s in enumerate(tree.body) if isinstance(s, ast.If) and "__name__" in ast.unparse(s.test)]
    at = main[0] if main else len(tree.body)
    tree.body[at:at] = mod.new
    ast.fix_missing_locations(tree)
    with open(path, "w", encoding="utf8") as f:
        f.write(ast.unparse(tree) + "\n")
    return done


def main(kind, target, files=None, funcs=None):
    for k in kind.split(",")[:-1]:
        main(k, target, files, funcs)
    kind = kind.split(",")[-1]
    total = 0
    root = os.path.join(target, "capture", "noworkflow", "now")
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in SKIP]
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, os.path.join(target, "capture", "noworkflow"))
            if f.endswith(".py") and (not files or re.search(files, rel)):
                total += rewrite(p, KINDS[kind], funcs)
    print(kind, total, "functions changed")


if __name__ == "__main__":
    main(*sys.argv[1:])
