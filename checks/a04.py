"""Recorded activations nest as the calls of the script do.

The functions of the Collector that begin and end activations are interpreted
abstractly with failure edges on the call of the script: what begins remembers
the activation that was current and becomes current, what ends records the time
and the value and makes the remembered one current again, and every path through
a call, a class or a script ends exactly the activation that it began.
"""
import ast

from vlib.rules import *
from vlib import hooks as hk
from vlib.absint import BASELINE, call_name
from checks import a02, a03

RULES = ["begin", "end", "calls", "classes", "scripts", "failures"]
ASSUMPTIONS = ["Recording itself (stores in memory) does not fail."]
CURRENT = "last_activation"


def collector(ctx):
    return ctx.project.cls(hk.COLLECTOR)


def interp(ctx, f, raiser=None, keep=()):
    names = direct(ctx)
    def opaque(fi):
        if fi is f or fi.cls is None or fi.parent is not None or fi.name in keep:
            return False
        if fi.cls.name != "Collector":
            return True
        return fi.name in hk.HEAVY or fi.name in names or fi.name in SINKS
    kw = {"raiser": raiser} if raiser else {}
    return ctx.interp(loops=(0, 1), max_states=2000, opaque_fn=opaque, **kw)


def sets(path, obj, name):
    """[(position, value)] of the assignments of an attribute"""
    out = []
    for i, e in enumerate(path.events):
        if e.kind == "setattr" and e.extra.args[0] == name and \
                (e.term is obj or e.term == obj):
            out.append((i, e.extra.args[1]))
    return out


def is_self(t):
    return isinstance(t, T) and show(t) == "self(Collector)"


def set_current(path):
    return [(i, e.extra.args[1]) for i, e in enumerate(path.events)
            if e.kind == "setattr" and e.extra.args[0] == CURRENT and is_self(e.term)]


def is_current(t):
    return isinstance(t, T) and t.tag == "attr" and t.args[1] == CURRENT and is_self(t.args[0])


SINKS = {"collect_exception", "find_reference_dependency", "make_dependencies",
         "create_argument_dependencies", "put_file", "get_value", "time", "add_type"}


def stores(f):
    return any(isinstance(x, ast.Attribute) and x.attr == CURRENT and
               isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and
               x.value.id == "self" for x in ast.walk(f.node))


def callers(ci, name):
    for n, f in ci.methods.items():
        if n != name and any(isinstance(x, ast.Attribute) and x.attr == name and
                             isinstance(x.value, ast.Name) and x.value.id == "self"
                             for x in ast.walk(f.node)):
            yield f


def direct(ctx):
    """Names of the functions that begin or end activations. A helper that
    makes one of its parameters current counts as part of its callers"""
    out = getattr(ctx, "_direct", None)
    if out is None:
        ci = collector(ctx)
        out = set()
        for n, f in ci.methods.items():
            if n == "__init__" or not stores(f):
                continue
            given = {x.arg for x in f.node.args.args}
            helper = any(isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and
                         x.value.id in given and any(
                             isinstance(t, ast.Attribute) and t.attr == CURRENT and
                             isinstance(t.value, ast.Name) and t.value.id == "self"
                             for t in x.targets)
                         for x in ast.walk(f.node))
            if helper or f.qual not in BASELINE:
                todo, seen = [n], set()
                while todo:
                    for g in callers(ci, todo.pop()):
                        if g.qual in BASELINE:
                            out.add(g.name)
                        elif g.name not in seen:
                            seen.add(g.name)
                            todo.append(g.name)
            else:
                out.add(n)
        ctx._direct = out
    return out


def beginners(ctx):
    ci = collector(ctx)
    for n in sorted(direct(ctx)):
        yield ci.methods[n]


def begin(ctx):
    ctx.rule("begin", "a new activation remembers the current one, knows its caller and its depth, "
                      "and becomes the current one; it is captured up to the depth limit")
    n = 0
    for f in beginners(ctx):
        it = interp(ctx, f)
        for p in returning(ctx.paths_of(it, f)):
            cur = set_current(p)
            if not cur:
                continue
            new = cur[-1][1]
            if new.tag == "attr":
                continue        # ends one
            n += 1
            name = f.short
            saved = sets(p, new, CURRENT)
            ctx.ob("begin", name + " remembers the current activation",
                   len(cur) == 1 and bool(saved) and is_current(saved[-1][1]) and
                   saved[-1][0] < cur[0][0], "", f.site)
            ctx.ob("begin", name + " returns the activation", p.value is new or p.value == new, "",
                   f.site)
            callers = {v for _, v in sets(p, new, "parent")}
            caller = next(iter(callers)) if len(callers) == 1 else None
            ctx.ob("begin", name + " knows its caller",
                   caller is not None and caller.tag == "param", "", f.site)
            depth = {v for _, v in sets(p, new, "depth")}
            ok = len(depth) == 1 and caller is not None
            if ok:
                d = next(iter(depth))
                ok = d.tag == "binop" and d.args[0] == "Add" and \
                    {show(x) for x in d.args[1:]} == {show(caller) + ".depth", "1"}
            ctx.ob("begin", name + " counts its depth", ok, "", f.site)
            # captured or not
            off = sets(p, new, "active")
            dry = any("dry" in show(new).split("(")[i] for i in range(3))
            if dry:
                ctx.ob("begin", name + " is not captured",
                       bool(off) and show(off[-1][1]) == "False", "", f.site)
            else:
                deep = None
                for c, v in p.pc.items():
                    if c.tag == "cmp" and "depth" in show(c):
                        deep = limit(c, v, show(next(iter(depth))) if depth else "")
                val = show(off[-1][1]) if off else "True"
                ctx.ob("begin", name + " is captured up to the depth limit",
                       deep is not None and val == ("False" if deep else "True"),
                       "beyond the limit: {}, active: {}".format(deep, val), f.site)
    ctx.need("begin", 8)


def limit(c, v, depth):
    """The path assumes that the depth is beyond the limit of the trial"""
    op, a, b = c.args[0], show(c.args[1]), show(c.args[2])
    if depth and a == depth and b.endswith("metascript.depth"):
        r = {"LtE": False, "Gt": True}.get(op)
    elif depth and b == depth and a.endswith("metascript.depth"):
        r = {"GtE": False, "Lt": True}.get(op)
    else:
        return None
    if r is None:
        return None
    return r if v else not r


def end(ctx):
    ctx.rule("end", "an activation that ends records when and with what value, and the activation "
                    "that it remembers is current again")
    n = 0
    for f in beginners(ctx):
        it = interp(ctx, f)
        for p in returning(ctx.paths_of(it, f)):
            cur = set_current(p)
            if not cur or cur[-1][1].tag != "attr":
                continue
            act = cur[-1][1].args[0]
            n += 1
            ctx.ob("end", f.short + " restores the remembered activation",
                   len(cur) == 1 and act.tag == "param" and cur[-1][1].args[1] == CURRENT,
                   show(cur[-1][1]), f.site)
            ev = mk("attr", act, "evaluation")
            t = sets(p, ev, "checkpoint")
            ctx.ob("end", f.short + " records the time",
                   len(t) == 1 and last(cname2(t[0][1])) in ("time", "get_time"), "", f.site)
            r = sets(p, ev, "repr")
            vals = [x for x in hk.params(f) if x != act.args[0]] if act.tag == "param" else []
            ctx.ob("end", f.short + " records the value",
                   len(r) == 1 and bool(params_in(r[0][1]) & set(vals)), "", f.site)
    ctx.need("end", 3)


def cname2(t):
    return last(call_name(t)) if isinstance(t, T) and t.tag in ("call", "new") else ""


def names_of(ctx):
    """(names of the functions that begin, that end activations)"""
    b, e = set(), set()
    for f in beginners(ctx):
        for p in returning(ctx.paths_of(interp(ctx, f), f)):
            cur = set_current(p)
            if cur:
                (e if cur[-1][1].tag == "attr" else b).add(f.name)
    return b, e


def touched(path, b, e):
    began = [(i, ev.term) for i, ev in enumerate(path.events)
             if ev.kind == "call" and cname2(ev.term) in b]
    ended = [(i, ev.term, first_arg(ev.term)) for i, ev in enumerate(path.events)
             if ev.kind == "call" and cname2(ev.term) in e]
    return began, ended


def first_arg(t):
    if t.args[1]:
        return t.args[1][0]
    kws = dict(t.args[2])
    return kws.get("activation") or (next(iter(kws.values())) if kws else None)


def script_call(path, f):
    """Call of the script's function in the function that performs calls"""
    out = []
    for i, e in enumerate(path.events):
        if e.kind == "call" and e.term.tag == "call":
            args = e.term.args[1]
            if any(a.tag == "star" for a in args) and e.term.args[0].tag == "attr" and \
                    e.term.args[0].args[1] == "func":
                out.append((i, e.term))
    return out


def calls(ctx):
    ctx.rule("calls", "every call begins one activation below its caller before the script's function "
                      "runs and ends that one afterwards, with its value, however the function ends")
    ci = collector(ctx)
    b, e = names_of(ctx)
    if not b or not e:
        raise AnalysisBroken("no function begins or ends activations")
    f = ci.find_method("_call")
    if f is None:
        raise AnalysisBroken("no _call")
    def raiser(t):
        fn = t.args[0]
        return ["Exception*", "BaseException*"] if t.tag == "call" and isinstance(fn, T) and \
            fn.tag == "attr" and fn.args[1] == "func" else ()
    it = interp(ctx, f, raiser)
    kinds = set()
    for p in ctx.paths_of(it, f):
        began, ended = touched(p, b, e)
        run = script_call(p, f)
        kind = "returns" if p.outcome == "return" else "raises"
        kinds.add(kind)
        ok = len(began) == 1 and len(ended) == 1 and len(run) == 1 and \
            began[0][0] < run[0][0] < ended[0][0] and ended[0][2] == began[0][1]
        ctx.ob("calls", "a call that " + kind, ok, "begins {}, runs {}, ends {}".format(
            len(began), len(run), len(ended)), f.site)
        if not ok:
            continue
        kws = dict(began[0][1].args[2])
        act = [v for v in list(kws.values()) + list(began[0][1].args[1])
               if show(v).endswith(".activation")]
        ctx.ob("calls", "the caller is the activation of the call", len(act) == 1, "", f.site)
        active = None
        for c, v in p.pc.items():
            if c.tag == "truth" and show(c.args[0]).endswith("activation.active") and act and \
                    c.args[0].args[0] == act[0]:
                active = v
        ctx.ob("calls", "calls of activations that are captured are recorded",
               active is not None and ("dry" not in cname2(began[0][1])) == bool(active),
               "", f.site)
        if kind == "returns":
            vals = list(ended[0][1].args[1]) + [v for _, v in ended[0][1].args[2]]
            ctx.ob("calls", "the value of the call is recorded",
                   any(v == run[0][1] for v in vals), "", f.site)
    ctx.ob("calls", "a call may fail", kinds == {"returns", "raises"}, str(kinds), f.site)
    # the activation of the function is the one of its name
    ctx.need("calls", 5)


def classes(ctx):
    ctx.rule("classes", "the activation of a class body begins in the activation around it, and ends "
                        "when the class is defined")
    ci = collector(ctx)
    b, e = names_of(ctx)
    f = ci.find_method("start_class")
    it = interp(ctx, f)
    for p in returning(ctx.paths_of(it, f)):
        began, ended = touched(p, b, e)
        ctx.ob("classes", "a class begins an activation", len(began) == 1 and not ended and
               p.value == began[0][1] and
               any(v.tag == "param" for _, v in began[0][1].args[2]), "", f.site)
    g = ci.find_method("_class_def")
    it = interp(ctx, g)
    n = 0
    for p in ctx.paths_of(it, g):
        for fi, q in a02.nested_paths(ctx, it, p.value, p):
            if q.outcome != "return":
                continue
            n += 1
            began, ended = touched(q, b, e)
            ctx.ob("classes", "a class ends its activation", not began and len(ended) == 1 and
                   is_current(ended[0][2]), "", fi.site)
    ctx.ob("classes", "class definitions are analysed", n > 0, "", g.site)


def scripts(ctx):
    ctx.rule("scripts", "the activation of a script begins in the current activation and ends with "
                        "the script")
    ci = collector(ctx)
    b, e = names_of(ctx)
    f = ci.find_method("start_script")
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        began, ended = touched(p, b, e)
        ctx.ob("scripts", "a script begins an activation", len(began) == 1 and not ended and
               p.value == began[0][1] and
               any(is_current(v) for v in list(began[0][1].args[1]) +
                   [v for _, v in began[0][1].args[2]]), "", f.site)
    f = ci.find_method("close_script")
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        began, ended = touched(p, b, e)
        ctx.ob("scripts", "a script ends its activation", not began and len(ended) == 1 and
               ended[0][2] is not None and ended[0][2].tag == "param" and
               ended[0][2].args[0] == hk.params(f)[0], "", f.site)
    ctx.need("scripts", 2)


def failures(ctx):
    ctx.rule("failures", "an exception of a call is recorded for the activation of the call, and "
                         "handlers discard exactly the records that were open inside of them")
    ci = collector(ctx)
    b, e = names_of(ctx)
    f = ci.find_method("_call")
    def raiser(t):
        fn = t.args[0]
        return ["Exception*"] if t.tag == "call" and isinstance(fn, T) and \
            fn.tag == "attr" and fn.args[1] == "func" else ()
    for p in ctx.paths_of(interp(ctx, f, raiser), f):
        began, ended = touched(p, b, e)
        rec = [(i, first_arg(ev.term)) for i, ev in enumerate(p.events) if ev.kind == "call" and
               cname2(ev.term) == "collect_exception"]
        if p.outcome == "return":
            ctx.ob("failures", "calls that return record no exception", not rec, "", f.site)
        else:
            ctx.ob("failures", "calls that raise record the exception", len(rec) == 1 and
                   bool(began) and rec[0][1] == began[0][1] and bool(ended) and
                   rec[0][0] < ended[0][0], "", f.site)
    g = ci.find_method("collect_exception")
    handler = hk.params(g)[1]
    for p in returning(ctx.paths_of(interp(ctx, g), g)):
        pops = a03.net(p)
        # the loop goes on exactly while the record on top is at or above the handler
        for c, v in p.pc.items():
            if c.tag == "cmp" and "exc_handler" in show(c) and "dependencies" in show(c):
                a, o, bb = c.args[1], c.args[0], c.args[2]
                top = "[-1]" in show(a) and show(a).endswith(".exc_handler")
                ok = top and o in ("LtE", "Gt") or \
                    ("[-1]" in show(bb) and show(bb).endswith(".exc_handler") and o in ("GtE", "Lt"))
                ctx.ob("failures", "records of the handler itself are discarded", ok, show(c), g.site)
        rec = [ev for ev in p.events if ev.kind == "call" and
               show(ev.term.args[0]).endswith("exceptions.add")]
        ctx.ob("failures", "exceptions are recorded", len(rec) == 1 and
               any(show(a).endswith(".id") and params_in(a) for a in
                   list(rec[0].term.args[1]) + [v for _, v in rec[0].term.args[2]]), "", g.site)
    ctx.need("failures", 4)
