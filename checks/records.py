"""What the sources declare about records, tables and stores (shared by D*)"""
import ast

from vlib.rules import *
from vlib.project import ClassInfo, FuncInfo
from checks.common import accepts

LW = "now.persistence.lightweight"
MODELS = "now.persistence.models"


class Table(object):
    def __init__(self, cls):
        self.cls = cls
        self.name = cls.name
        self.columns = {}      # column -> Call node
        self.primary = set()
        self.foreign = []      # (columns, targets)
        for st in cls.node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name):
                if isinstance(st.value, ast.Call) and _name(st.value.func) == "Column":
                    self.columns[st.targets[0].id] = st.value
                    if any(k.arg == "primary_key" and isinstance(k.value, ast.Constant) and
                           k.value.value for k in st.value.keywords):
                        self.primary.add(st.targets[0].id)
            if isinstance(st, ast.Assign):
                for c in ast.walk(st.value):
                    if isinstance(c, ast.Call) and _name(c.func) == "PrimaryKeyConstraint":
                        self.primary |= {a.value for a in c.args if isinstance(a, ast.Constant)}
                    if isinstance(c, ast.Call) and _name(c.func) == "ForeignKeyConstraint" and \
                            len(c.args) >= 2:
                        self.foreign.append(([x.value for x in c.args[0].elts],
                                             [x.value for x in c.args[1].elts]))

    def auto(self, col):
        call = self.columns[col]
        return any(k.arg == "autoincrement" for k in call.keywords) or \
            self.primary == {col} and bool(call.args) and _name(call.args[0]) == "Integer"


def _name(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


def tables(ctx):
    out = {}
    for c in ctx.project.all_classes("now.persistence.models"):
        t = Table(c)
        if t.columns:
            out[c.qual] = t
    return out


class Record(object):
    def __init__(self, cls, table):
        self.cls = cls
        self.name = cls.name
        self.table = table
        self.attributes = None
        self.nullable = set()
        for st in cls.node.body:
            if not isinstance(st, ast.Assign):
                continue
            names = [x.id for t in st.targets for x in ast.walk(t) if isinstance(x, ast.Name)]
            if "attributes" in names and isinstance(st.value, ast.Call) and st.value.args:
                self.attributes = _strings(st.value.args[0])
            elif "attributes" in names:
                self.attributes = _strings(st.value)
            if "nullable" in names:
                self.nullable = set(_strings(st.value) or ())

    @property
    def columns(self):
        return [c for c in self.table.columns if c in (self.attributes or ())]


def _strings(node):
    if isinstance(node, ast.Call) and _name(node.func) in ("set", "tuple", "list") and not node.args:
        return []
    if isinstance(node, ast.Call) and len(node.args) == 1:
        return _strings(node.args[0])
    if isinstance(node, ast.Dict) and not node.keys:
        return []
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
        return [x.value for x in node.elts if isinstance(x, ast.Constant)]
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return (_strings(node.left) or []) + (_strings(node.right) or [])
    return None


def records(ctx):
    """[Record] of the lightweight classes that are written into tables"""
    byq = tables(ctx)
    out = []
    for c in ctx.project.all_classes(LW):
        for st in c.node.body:
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == "model" for t in st.targets):
                m = c.module.resolve_expr(st.value)
                if isinstance(m, ClassInfo) and m.qual in byq:
                    out.append(Record(c, byq[m.qual]))
    return out


_INIT = {}


def init_flow(ctx, cls):
    """[{attribute: term}] for every returning path of the constructor"""
    if (id(ctx), cls.qual) in _INIT:
        return _INIT[id(ctx), cls.qual]
    init = cls.find_method("__init__")
    out = []
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda f: f is not init and f.cls is not cls and
                    f.parent is None)
    for p in returning(ctx.paths_of(it, init)):
        values = {}
        for e in p.events:
            if e.kind == "setattr" and e.term.tag in ("self", "param") and \
                    (e.term.tag == "self" or e.term.args[0] == "self"):
                values[e.extra.args[0]] = e.extra.args[1]
        out.append((values, p))
    _INIT[id(ctx), cls.qual] = out
    return out


def param_names(cls):
    a = cls.find_method("__init__").node.args
    return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]


def norm(s):
    return s.strip("_").replace("_", "").lower()


def attr_of_param(ctx, cls):
    """{parameter: attributes that hold it unchanged (or its replacement)}"""
    out = {}
    for values, _ in init_flow(ctx, cls):
        for a, v in values.items():
            if v.tag == "param":
                out.setdefault(v.args[0], set()).add(a)
    return out
