"""Options of the commands are honoured.

For each command that main() registers, the options that it defines are
compared with the reads of the parsed arguments in the functions that receive
them (calls are followed by name and by the position of the arguments).
"""
import ast

from vlib.project import ClassInfo, FuncInfo
from vlib.rules import *
from checks.common import parts
from checks.commands import command_classes, options, command_name

RULES = ["registered", "defined", "used", "destinations", "connects"]
ASSUMPTIONS = ["argparse sets the destination of every option that is defined."]
INTERNAL = {"help", "func", "argv", "meta"}


def receivers(ctx, cls):
    """[(function, name of the parameter that has the arguments)]"""
    out, done = [], set()
    todo = []
    by_name = ctx.__dict__.setdefault("_k01_names", {})
    if not by_name:
        for f in ctx.project.all_funcs():
            by_name.setdefault(f.name, []).append(f)
    for c in cls.mro():
        for f in c.methods.values():
            if cls.find_method(f.name) is not f:
                continue
            ps = f.params()
            if "args" in ps and not has_star(f, "args") and f.name != "__init__":
                todo.append((f, "args"))
    while todo:
        f, name = todo.pop()
        if (f.qual, name) in done:
            continue
        done.add((f.qual, name))
        out.append((f, name))
        aliases = {name}
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            pos = [i for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id in aliases]
            kws = [k.arg for k in n.keywords if isinstance(k.value, ast.Name) and
                   k.value.id in aliases and k.arg]
            if not pos and not kws:
                continue
            for g, offset in callees(ctx, f, cls, n, by_name):
                ps = g.params()
                for i in pos:
                    if i + offset < len(ps):
                        todo.append((g, ps[i + offset]))
                for k in kws:
                    if k in ps:
                        todo.append((g, k))
    return out


def has_star(f, name):
    a = f.node.args
    return (a.vararg is not None and a.vararg.arg == name) or (
        a.kwarg is not None and a.kwarg.arg == name)


def callees(ctx, f, cls, n, by_name):
    fn = n.func
    if isinstance(fn, ast.Name):
        g = f.module.resolve_expr(fn)
        if isinstance(g, FuncInfo):
            return [(g, 0)]
        return []
    if isinstance(fn, ast.Attribute):
        if isinstance(fn.value, ast.Name) and fn.value.id == "self":
            g = cls.find_method(fn.attr) or (f.cls.find_method(fn.attr) if f.cls else None)
            return [(g, 1)] if g is not None else []
        g = f.module.resolve_expr(fn)
        if isinstance(g, FuncInfo):
            return [(g, 0 if g.cls is None else 1)]
        gs = [g for g in by_name.get(fn.attr, []) if g.cls is not None]
        return [(g, 1) for g in gs[:4]]
    return []


def reads(ctx, cls):
    """{name read: (function, with default, text after a prefix)}"""
    out = {}
    for f, p in receivers(ctx, cls):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(
                    n.value, ast.Name) and n.value.id == p:
                out.setdefault((n.attr, False), []).append((f, n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == "getattr" and len(n.args) >= 2 and isinstance(
                        n.args[0], ast.Name) and n.args[0].id == p:
                k = n.args[1]
                if isinstance(k, ast.Constant):
                    out.setdefault((k.value, len(n.args) > 2), []).append((f, n))
                elif isinstance(k, ast.BinOp) and isinstance(k.right, ast.Constant):
                    out.setdefault((k.right.value, True), []).append((f, n))
                elif isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and \
                        k.func.attr == "format" and isinstance(k.func.value, ast.Constant):
                    out.setdefault((k.func.value.value.replace("{}", ""), True), []).append((f, n))
                elif isinstance(k, ast.JoinedStr):
                    out.setdefault(("".join(x.value for x in k.values
                                            if isinstance(x, ast.Constant)), True), []).append(
                                                (f, n))
                names = [x for x in ast.walk(k) if isinstance(x, ast.Name) and
                         x.id not in f.params()]
                if names:
                    # the name comes from a table of names
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str) and \
                                x.value.isidentifier():
                            out.setdefault((x.value, True), []).append((f, n))
    return out


def dynamic(n, f):
    return isinstance(n, ast.Call) and len(n.args) > 1 and any(
        isinstance(x, ast.Name) and x.id not in f.params() for x in ast.walk(n.args[1]))


def set_elsewhere(ctx, cls):
    """Names set on the arguments by actions and defaults of parsers"""
    out = set(INTERNAL)
    mods = {c.module.name: c.module for c in cls.mro()}
    for m in list(mods.values()):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")
                if nm == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                if nm == "set_defaults":
                    out |= {k.arg for k in n.keywords}
                if nm in ("add_argument", "add_arg") and n.args and isinstance(
                        n.args[0], ast.Constant):
                    for a in n.args:
                        if isinstance(a, ast.Constant) and str(a.value).startswith("--"):
                            out.add(a.value[2:].replace("-", "_"))
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                            t.value.id == "args":
                        out.add(t.attr)
    return out


def registered(ctx):
    ctx.rule("registered", "every command of the package is registered under its own name and "
             "executes itself")
    m = ctx.project.module("now.cmd")
    reg = command_classes(ctx)
    names = [command_name(c) for c in reg]
    ctx.ob("registered", "names", len(set(names)) == len(names), str(names), m.rel)
    for c in ctx.project.all_classes("now.cmd"):
        if any(b.name == "Command" for b in c.mro()[1:]) and c.name != "NotebookCommand":
            ctx.ob("registered", c.name, c in reg, "is not registered", c.site)
            f = c.find_method("execute")
            ctx.ob("registered", c.name + ".execute", f is not None and f.cls is not None and
                   f.cls.name != "Command", "does nothing", c.site)
    base = [c for c in ctx.project.all_classes("now.cmd") if c.name == "Command"]
    for c in base:
        f = c.methods["create_parser"]
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
        for p in ctx.paths_of(it, f):
            add = calls(p, "add_parser")
            sd = calls(p, "set_defaults")
            ctx.ob("registered", "parser", len(add) == 1 and bool(calls(p, "add_arguments")) and
                   any(selfattr(x) == "cmd" for x in add[0].term.args[1]), "", f.site)
            ctx.ob("registered", "function", len(sd) == 1 and "execute" in show(
                dict(sd[0].term.args[2]).get("func", NONE)), "", f.site)
    for c in ctx.project.all_classes("now.cmd"):
        if c.name != "NotebookCommand":
            continue
        f = c.methods["_execute"]
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
        it.keep_pc = True
        for p in ctx.paths_of(it, f):
            v = cond_value(p, lambda t: "ipynb" in show(t))
            called = {last(cname(e)) for e in calls(p)}
            ctx.ob("registered", "notebook" if v else "terminal", v is not None and
                   ("execute_export" if v else "execute") in called and
                   ("execute" if v else "execute_export") not in called, str(called), f.site)
    f = m.funcs["main"]
    loops = [n for g in parts(f) for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(
        n.func, ast.Attribute) and n.func.attr in ("create_parser", "func")]
    ctx.ob("registered", "main", {n.func.attr for n in loops} == {"create_parser", "func"},
           "", f.site)
    ctx.need("registered", 10)


def defined(ctx):
    ctx.rule("defined", "commands read only arguments that an option defines")
    for c in command_classes(ctx):
        dests = {o.dest for o in options(c)} | set_elsewhere(ctx, c)
        for (name, default), sites in sorted(reads(ctx, c).items()):
            f, n = sites[0]
            ok = name in dests or default and any(d.endswith(name) for d in dests) or \
                default and all(dynamic(n, g) for g, n in sites)
            if not ok and f.cls is not None and f.cls not in c.mro() or \
                    f.name in ("read_ipython_args", "read_jupyter_args", "read_restore_args") and \
                    not ok:
                # functions reached by their names only
                continue
            ctx.ob("defined", "{}.{}".format(c.name, name), ok, "no option defines it",
                   "{}:{}".format(f.module.rel, n.lineno))
    # arguments that are created by hand
    for c in command_classes(ctx):
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(
                        n.value.func, (ast.Name, ast.Attribute)) and (
                            getattr(n.value.func, "id", "") == "Namespace" or
                            getattr(n.value.func, "attr", "") == "Namespace"):
                    var = n.targets[0].id
                    given = {k.arg for k in n.value.keywords}
                    given |= {t.attr for x in ast.walk(f.node) if isinstance(x, ast.Assign)
                              for t in x.targets if isinstance(t, ast.Attribute) and
                              isinstance(t.value, ast.Name) and t.value.id == var}
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Call) and any(
                                isinstance(a, ast.Name) and a.id == var for a in x.args) and \
                                isinstance(x.func, ast.Attribute) and isinstance(
                                    x.func.value, ast.Call):
                            k = f.module.resolve_expr(x.func.value.func)
                            g = k.find_method(x.func.attr) if isinstance(k, ClassInfo) else None
                            if g is None:
                                continue
                            ps = g.params()
                            need = {y.attr for y in ast.walk(g.node) if isinstance(
                                y, ast.Attribute) and isinstance(y.ctx, ast.Load) and isinstance(
                                    y.value, ast.Name) and y.value.id == ps[1]}
                            ctx.ob("defined", "{} for {}".format(c.name, k.name), need <= given,
                                   "without {}".format(sorted(need - given)),
                                   "{}:{}".format(f.module.rel, x.lineno))
    ctx.need("defined", 30)


def stored_as(ctx):
    """attributes of other objects that only hold an argument: name -> is read"""
    memo = ctx.__dict__.setdefault("_k01_read", {})
    if not memo:
        for m in ctx.project.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    memo.setdefault(n.attr, []).append(n)
    return memo


def used(ctx):
    ctx.rule("used", "every option of a command is read, and what is read is used")
    loads = stored_as(ctx)
    for c in command_classes(ctx):
        rd = reads(ctx, c)
        names = {}
        for (name, default), sites in rd.items():
            names.setdefault(name, []).extend(sites)
        seen = set()
        for o in options(c):
            if o.dest in INTERNAL or o.dest in seen:
                continue
            seen.add(o.dest)
            sites = names.get(o.dest, [])
            if not sites:
                sites = [x for (nm, d), ss in rd.items() if d and o.dest.endswith(nm)
                         for x in ss]
            ok = bool(sites)
            if ok:
                # stored in an attribute that nobody reads
                ok = any(not only_stored(f, n, loads) for f, n in sites)
            ctx.ob("used", "{}.{}".format(c.name, o.dest), ok, "is ignored", o.site)
    ctx.need("used", 30)


def only_stored(f, n, loads):
    """The read is the value of an attribute that is never read"""
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and s.value is n:
            if all(isinstance(t, ast.Attribute) for t in s.targets):
                for t in s.targets:
                    m = f.module.resolve_expr(t.value)
                    if isinstance(m, Module) and any(
                            isinstance(x, ast.Name) and x.id == t.attr and
                            isinstance(x.ctx, ast.Load) for x in ast.walk(m.tree)):
                        return False
                    others = [x for x in loads.get(t.attr, []) if not (
                        isinstance(x.value, ast.Name) and x.value.id == "args")]
                    if others:
                        return False
                return True
        if isinstance(s, ast.Expr) and s.value is n:
            return True
    return False


def destinations(ctx):
    ctx.rule("destinations", "no option of a command is overwritten by another argument with the "
             "same destination")
    for c in command_classes(ctx):
        by = {}
        for o in options(c):
            by.setdefault(o.dest, []).append(o)
        for d, os_ in by.items():
            flags = [fl for o in os_ for fl in o.flags]
            ctx.ob("destinations", "{}.{} flags".format(c.name, d), len(set(flags)) == len(flags),
                   str(flags), os_[0].site)
            if len(os_) < 2:
                continue
            pos = [o for o in os_ if o.positional]
            opt = [o for o in os_ if not o.positional]
            ok = not pos or not opt or all(
                "SUPPRESS" in ast.unparse(o.kw["default"]) for o in pos if "default" in o.kw) and \
                all("default" in o.kw for o in pos)
            ctx.ob("destinations", "{}.{}".format(c.name, d), ok,
                   "the default of the positional argument replaces the option", os_[0].site)
        seen = {}
        for o in options(c):
            for fl in o.flags:
                if fl.startswith("-"):
                    ctx.ob("destinations", "{} {}".format(c.name, fl), fl not in seen or
                           seen[fl] is o, "two options", o.site)
                    seen[fl] = o
    ctx.need("destinations", 30)


CONNECTING = {"populate", "read_restore_args", "connect_database", "prepare"}
USES = {"query", "all", "load_parent", "Trial", "Diff", "History", "export_bundle",
        "import_bundle", "listAll", "get", "gc"}


def connecting(ctx, g):
    memo = ctx.__dict__.setdefault("_k01_connecting", {})
    if g not in memo:
        memo[g] = any(isinstance(n, ast.Attribute) and n.attr in ("connect", "connect_existing")
                      for n in ast.walk(g.node))
    return memo[g]


def connects(ctx):
    ctx.rule("connects", "a command works on the database of its directory: it selects the content "
             "engine, then connects to --dir or the current directory, then uses records")
    n = 0
    for c in command_classes(ctx):
        opts = {o.dest for o in options(c)}
        if "dir" not in opts or c.name in ("Demo", "Helper", "Run", "Debug"):
            continue
        fs = [c.find_method("execute")]
        if c.name not in ("History", ):
            fs += [f for f in [c.methods.get("execute_export")] if f is not None and
                   "connect" in ast.unparse(f.node)]
        for f in fs:
            it = ctx.interp(loops=(0, ), max_states=400,
                            opaque_fn=lambda g: g is not f and g.name not in CONNECTING and
                            not (".cmd" in g.module.name and connecting(ctx, g)))
            it.keep_pc = False
            for p in ctx.paths_of(it, f):
                conn = [i for i, e in enumerate(p.events) if e.kind == "call" and
                        last(cname(e)) in ("connect", "connect_existing")]
                eng = [i for i, e in enumerate(p.events) if e.kind == "setattr" and
                       e.extra.args[0] == "content_engine" and
                       show(e.extra.args[1]).endswith("args.content_engine")]
                uses = [i for i, e in enumerate(p.events) if e.kind in ("call", "new") and
                        last(cname(e)) in USES and not (
                            last(cname(e)) in ("get", "all") and not any(
                                k in cname(e) for k in ("Trial", "content")))]
                if p.outcome != "return" and not uses:
                    continue
                n += 1
                name = "{}.{}".format(c.name, f.name)
                if not ctx.ob("connects", name, bool(conn) and (not uses or conn[0] < uses[0]),
                              "uses the database before connecting", f.site):
                    continue
                e = p.events[conn[0]]
                vals = [v for v in list(e.term.args[1]) + [v for k, v in e.term.args[2]]]
                s = " ".join(show(v) for v in vals)
                given = cond_value(p, lambda t: t.tag == "truth" and show(t.args[0]) ==
                                   "args.dir")
                none = cond_value(p, lambda t: t.tag == "cmp" and show(t.args[1]) == "args.dir")
                okv = "args.dir" in s or "getcwd" in s or "curdir" in s
                if given is not None and okv:
                    okv = ("args.dir" in s) is given or "or" in s
                ctx.ob("connects", name + ":directory", okv, s[:100], f.site)
                if "content_engine" in opts:
                    ctx.ob("connects", name + ":engine", len(eng) >= 1 and eng[0] < conn[0],
                           "the engine is not selected before", f.site)
                if c.name not in ("Schema", "Vis"):
                    ctx.ob("connects", name + ":existing", last(cname(e)) == "connect_existing",
                           "creates a database", f.site)
    ctx.need("connects", 10)
