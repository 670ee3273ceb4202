"""Shared extraction helpers"""
import ast

from vlib.absint import BASELINE
from vlib.rules import selfattr, is_const, const, contains
from vlib.project import ClassInfo, FuncInfo, AnalysisBroken, dotted


def nested_classes(func):
    """Classes defined in the body of a function"""
    out = []
    for n in ast.walk(func.node):
        if isinstance(n, ast.ClassDef):
            out.append(ClassInfo(func.module, n, func.qual + "." + n.name))
    return out


def literal_dict(node):
    """[(key, value)] of the string entries of dict displays below node"""
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and isinstance(v, ast.Constant):
                    out.append((k.value, v.value))
    return out


def accepts(node, npos, kwnames, star=False, bound=True):
    """The function definition accepts a call with npos positional arguments
    and the given keywords"""
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        names = names[1:]
    defaults = len(a.defaults)
    if star:
        return True
    if npos > len(names) and a.vararg is None:
        return False
    kwonly = [x.arg for x in a.kwonlyargs]
    given = set(names[:npos])
    for k in kwnames:
        if k in given:
            return False
        if k not in names and k not in kwonly and a.kwarg is None:
            return False
        given.add(k)
    required = names[:len(names) - defaults] if defaults else names
    if any(r not in given for r in required):
        return False
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return False
    return True


def iter_functions(module):
    """(FuncInfo or None, node) for every function, nested ones included"""
    for f in module.funcs.values():
        yield f
    stack = list(module.classes.values())
    while stack:
        c = stack.pop()
        for f in c.methods.values():
            yield f
        stack.extend(c.inner.values())


def engine_classes(ctx):
    """{name: ClassInfo} of the engines of the registry and of the modules"""
    m = ctx.project.module("now.persistence.content_database")
    cls = m.classes.get("ContentDatabase")
    if cls is None:
        raise AnalysisBroken("ContentDatabase not found")
    entries = [(k, v) for k, v in literal_dict(cls.node)
               if isinstance(v, str) and v.startswith("noworkflow.")]
    for exprs in m.assigns.values():
        for e in exprs:
            if e is not None:
                entries += [(k, v) for k, v in literal_dict(e)
                            if isinstance(v, str) and v.startswith("noworkflow.")]
    return entries


FACTORIES = {"create_distributed": "Distributed", "create_pool": "Pool",
             "create_threading": "Threading"}


def resolve_engine(ctx, full_name):
    """(ClassInfo of the wrapped engine, ClassInfo of the wrapper or None)"""
    mod, _, name = full_name.rpartition(".")
    m = ctx.project.modules.get(mod)
    if m is None:
        return None
    if name in m.classes:
        return m.classes[name], None
    for e in m.assigns.get(name, ()):
        if isinstance(e, ast.Call):
            fn = m.resolve_expr(e.func)
            if isinstance(fn, FuncInfo) and e.args:
                base = m.resolve_expr(e.args[0])
                if isinstance(base, ClassInfo):
                    for c in nested_classes(fn):
                        if "put" in c.methods:
                            return base, c
    return None


def engine_method(pair, name):
    base, wrapper = pair
    if wrapper is not None and name in wrapper.methods:
        return wrapper.methods[name]
    return base.find_method(name)


def fresh_name(p, r):
    """True when the path has made sure that no other object has the name r:
    False when it assumes that one has, None when it did not look"""
    for k, v in p.pc.items():
        if k.tag == "cmp" and k.args[1] is r and k.args[0] in ("In", "NotIn"):
            return v is (k.args[0] == "NotIn")
        if k.tag == "truth" and k.args[0].tag == "item" and k.args[0].args[1] is r:
            return not v
    for e in p.events:          # the name carries the number of its uses
        if e.kind != "setitem" or selfattr(e.term) is None:
            continue
        name, count = e.extra.args
        if not (count.tag == "binop" and count.args[0] == "Add" and
                is_const(count.args[2]) and count.args[2].args[1] == 1):
            continue
        first = any(v is True and k.tag == "cmp" and k.args[0] in ("Eq", "LtE") and
                    k.args[1] is count and k.args[2] is const(1) for k, v in p.pc.items())
        if r is name and first:
            return True
        if contains(r, name) and contains(r, count):
            return True
    return None


def parts(f):
    """The function and the functions that were extracted from it (see vlib/baseline.txt)"""
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in out:
            continue
        out.append(g)
        for x in ast.walk(g.node):
            if not isinstance(x, ast.Call):
                continue
            h = None
            if isinstance(x.func, ast.Name):
                h = g.module.funcs.get(x.func.id)
            elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                    x.func.value.id in ("self", "cls") and g.cls is not None:
                h = g.cls.find_method(x.func.attr)
            if h is not None and h.qual not in BASELINE:
                todo.append(h)
    return out
