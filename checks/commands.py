"""Commands of `now` and their options (shared by K01, K02 and W02)"""
import ast

from vlib.project import AnalysisBroken, ClassInfo, FuncInfo
from checks.common import parts


class Option(object):
    def __init__(self, call, func):
        self.flags = [a.value for a in call.args if isinstance(a, ast.Constant) and
                      isinstance(a.value, str)]
        kw = {k.arg: k.value for k in call.keywords}
        self.kw = kw
        dest = kw.get("dest")
        if isinstance(dest, ast.Constant):
            self.dest = dest.value
        else:
            longs = [f for f in self.flags if f.startswith("--")]
            name = (longs or self.flags or ["?"])[0]
            self.dest = name.lstrip("-").replace("-", "_")
        act = kw.get("action")
        self.action = act.value if isinstance(act, ast.Constant) else None
        self.custom = act is not None and not isinstance(act, ast.Constant)
        self.positional = bool(self.flags) and not self.flags[0].startswith("-")
        self.func = func
        self.site = "{}:{}".format(func.module.rel, call.lineno)


def command_classes(ctx):
    m = ctx.project.module("now.cmd")
    out = []
    for n in [n for g in parts(m.funcs["main"]) for n in ast.walk(g.node)]:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            c = m.resolve_expr(n.func)
            if isinstance(c, ClassInfo) and any(b.name == "Command" for b in c.mro()):
                out.append(c)
    if not out:
        raise AnalysisBroken("no command is registered")
    return out


def options(cls):
    """Options that the command defines"""
    out = []
    seen = set()
    todo = []
    for c in cls.mro():
        for name in ("add_arguments", "create_parser"):
            f = c.methods.get(name)
            if f is not None and (name, ) not in seen:
                todo.append(f)
                if name == "add_arguments":
                    seen.add((name, ))
    done = set()
    while todo:
        f = todo.pop()
        if f.qual in done:
            continue
        done.add(f.qual)
        names = {"add_argument", "add_argument_cmd"}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and \
                    n.value.attr in names:
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        names |= {p for p in f.params() if p.startswith("add_")}
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", "")
            if nm in names and n.args and isinstance(n.args[0], ast.Constant) and \
                    f.name not in ("add_argument", "add_argument_cmd"):
                out.append(Option(n, f))
                continue
            # functions that receive the way to add arguments
            if any(isinstance(a, ast.Name) and a.id in names or
                   isinstance(a, ast.Attribute) and a.attr in names for a in n.args):
                g = f.module.resolve_expr(fn)
                if not isinstance(g, FuncInfo) and isinstance(fn, ast.Attribute):
                    if isinstance(fn.value, ast.Name) and fn.value.id == "self":
                        g = cls.find_method(fn.attr)
                    else:
                        c = f.module.resolve_expr(fn.value)
                        g = c.find_method(fn.attr) if isinstance(c, ClassInfo) else None
                if isinstance(g, FuncInfo):
                    todo.append(g)
    return out


def command_name(cls):
    """Name under which the command is called"""
    return cls.name.lower()
