"""The instrumentation only watches.

The hooks of the Collector and the functions that they wrap are interpreted
abstractly. Values of the program are followed from the hooks that receive them
through every method of the Collector: no path tests, compares, formats,
iterates, hashes or calls them, except where the operation is the program's own
(call, access, assignment, iteration, condition), and that one happens exactly
once with the operands of the program and its result is handed back.
"""
import ast

from vlib.rules import *
from vlib import hooks as hk
from vlib import visitors as vs
from vlib.project import FuncInfo

RULES = ["handed", "watching", "own", "wrappers", "opened"]
ASSUMPTIONS = ["repr of values is recorded by design: get_value calls it and survives its failure.",
               "isinstance, type, id and identity run no code of the program."]

# receivers of program values: hook -> parameters (the rest is found by following the calls)
ROOTS = {
    "__getitem__": (), "__setitem__": ("value",),
    "_call": ("args", "kwargs"), "start_activation": (), "exception": ("value",),
    "literal": ("value",), "name": ("value",), "_assign_value": ("value",),
    "_operation": ("value",), "_expression": ("value",), "_last_expression": ("value",),
    "_dict": ("value",), "_dict_key": ("value",), "_comp_key": ("value",),
    "_dict_value": ("value",), "_comp_value": ("value",), "_list": ("value",),
    "_item": ("value",), "_genitem": ("value",), "_yielditem": ("value",), "_yield": ("value",),
    "comprehension_item": ("value",), "_slice": ("low", "upp", "step"), "_extslice": ("value",),
    "_withitem": ("value",), "_func": ("func",), "call": ("func",), "_decorator": ("value",),
    "_argument": ("value",), "_return": ("value",), "_loop": ("value",),
    "_condition": ("value",), "_rcondition": ("value",), "as_is": ("value",),
    "_function_def": (), "collect_function_def": (), "collect_class_def": (), "_class_def": (),
    "match_arguments": ("original_args", "original_kwargs"), "genexp": (), "ifexp": (),
    "close_script": (), "assign_single": (), "assign_access": (),
}
# parameters of the functions that hooks return
NESTED = {"function_def", "class_def"}
VALUE_ATTRS = {"value", "func"}        # of Assign, Dependency, FutureActivation, Parameter
SAFE = {"isinstance", "type", "id", "super", "Dependency", "Assign", "AssignAccess",
        "FutureActivation", "WithContext", "Generator", "slice", "wraps", "functools.wraps", "callable",
        "copy", "copy.copy", "issubclass"}
RECORDERS = {"add", "add_object", "append", "extend", "pop", "get", "insert", "dry_add",
             "set_reference", "clone", "sub", "combine", "pyslice", "store"}
KEEP = {"get_value", "member_address"}


def collector(ctx):
    return ctx.project.cls(hk.COLLECTOR)


class Taint(object):
    """Program values among the terms of one function"""

    def __init__(self, names):
        self.names = names

    def pv(self, t):
        if not isinstance(t, T):
            return False
        if t.tag == "param":
            return t.args[0].lstrip("*") in self.names
        if t.tag == "item" and t.args[0].tag == "elem" and t.args[0].args[0].tag == "call" and \
                last(call_name(t.args[0].args[0])) == "enumerate_generator":
            return t.args[1] is const(1)
        if t.tag in ("item", "elem", "star"):
            return self.pv(t.args[0])
        if t.tag == "attr":
            if t.args[1] in VALUE_ATTRS and t.args[0].tag != "self":
                return True
            return self.pv(t.args[0])
        if t.tag == "call":
            n = last(call_name(t))
            if n in ("getattr",) and t.args[1]:
                return self.pv(t.args[1][0]) and not self.static(t)
            if n == "value_from_target_expr":
                return True
            return self.pv(t.args[0])
        return False

    def static(self, t):
        """Attribute lookups that the interpreter itself answers"""
        return False


def operand(taint, t):
    return taint.pv(t)


def exact_type(p, x):
    """The path knows that x is exactly of a builtin type or runs no own code"""
    for k, v in p.pc.items():
        for s in subterms(k):
            if s.tag == "call" and call_name(s) == "type" and s.args[1][:1] == (x,):
                if k.tag == "cmp" and k.args[0] in ("In", "Is", "Eq") and v is True:
                    return True
                if k.tag == "cmp" and k.args[0] in ("NotIn", "IsNot", "NotEq") and v is False:
                    return True
    # alternatives that were joined: the type has been asked
    return any(e.term.args[1][:1] == (x,) for e in calls(p, "type"))


def lookup_known(p, x):
    """The path has asked the type of x whether attribute lookup is its own"""
    for k, v in p.pc.items():
        txt = show(k)
        if ("__getattr__" in txt or "__getattribute__" in txt) and "type(" in txt and x in set(subterms(k)):
            return True
        if "custom_lookup" in txt and x in set(subterms(k)):
            return True
    return False


def own_access(p, t, e=None):
    """getattr(container, index): both come from the index of the access"""
    a = t.args[1]
    return len(a) >= 2 and not is_const(a[1])


ACCESS = {"__getitem__", "__setitem__"}


def scan(ctx, f, p, taint, flagged):
    """Operations on program values on one path of f"""
    name = f.qual.split(".")[-1]
    for k, v in p.pc.items():
        if k.tag == "truth" and taint.pv(k.args[0]):
            if name != "_rcondition":
                flagged("tests", k.args[0])
        if k.tag == "cmp" and k.args[0] not in ("Is", "IsNot"):
            for a in k.args[1:3]:
                if taint.pv(a) and not (is_const(k.args[2]) and k.args[2].args[1] is None) and \
                        not text(p, a):
                    if k.args[0] in ("Lt", "Gt", "GtE", "LtE") and integer(p, a):
                        continue
                    if is_unset(k):
                        continue
                    flagged("compares", k)
        if k.tag == "niter" and not isinstance(v, T):
            for x in [k.args[0]]:
                base = x
                if x.tag == "call" and call_name(x) in ("enumerate", "zip", "reversed", "iter") and \
                        x.args[1]:
                    base = x.args[1][0]
                if taint.pv(base) and name not in ("enumerate_generator",):
                    if base.tag == "param":     # *args of the wrapper: a tuple
                        continue
                    flagged("iterates over", base)
    for e in p.events:
        t = e.term
        if e.kind in ("call", "new") and t.tag in ("call", "new"):
            fn = t.args[0]
            n = last(call_name(t))
            args = list(t.args[1]) + [x for _, x in t.args[2]]
            tainted = [a for a in args if taint.pv(a)]
            if isinstance(fn, T) and fn.tag == "attr" and taint.pv(fn.args[0]):
                if fn.args[0].tag == "attr" and fn.args[0].args[1] in VALUE_ATTRS or \
                        fn.args[0].tag != "param" or fn.args[1] not in ("get", "items", "keys"):
                    if not taint.pv(fn):
                        flagged("calls a method of", t)
                    elif not own_call(name, fn):
                        flagged("calls a method of", t)
                continue
            if isinstance(fn, T) and fn.tag in ("builtin", "ext") and tainted:
                if n in SAFE or call_name(t) in SAFE:
                    continue
                x = tainted[0]
                if n in ("getattr", "hasattr", "setattr"):
                    if name in ACCESS and own_access(p, t):
                        continue
                    if lookup_known(p, x) or x.tag == "call" or exact_type(p, x):
                        continue
                    flagged("looks up an attribute of", t)
                    continue
                if n == "len" and (exact_type(p, x) or script_len(p, x) or builtin_seq(f, x)):
                    continue
                if n in ("next", "iter", "enumerate") and name in ("enumerate_generator",):
                    continue
                if n == "bool" and name == "_rcondition":
                    continue
                if "__getattribute__" in call_name(t):
                    continue
                flagged("applies {} to".format(n), t)
        if e.kind == "setattr" and taint.pv(t) and name not in ACCESS and not integer(p, t):
            flagged("sets an attribute of", t)
        if e.kind == "getitem" and name not in ACCESS:
            b, i = t.args
            if taint.pv(b) and b.tag != "param" and not exact_type(p, b):
                flagged("takes an item of", t)
            elif taint.pv(b) and b.tag == "param" and b.args[0] == "value" and not exact_type(p, b):
                flagged("takes an item of", t)
            elif not taint.pv(b) and taint.pv(i) and not text(p, i):
                flagged("hashes", i)
    for t in all_terms(p):
        if t.tag == "fmt" and any(taint.pv(a) for a in t.args if isinstance(a, T)) and \
                not any(text(p, a) for a in t.args if isinstance(a, T)):
            flagged("formats", t)
        if t.tag == "binop" and any(taint.pv(a) for a in t.args[1:]):
            bad = [a for a in t.args[1:] if taint.pv(a) and a.tag != "param" and not integer(p, a)]
            if bad and not (name in ("normalize_index",)):
                flagged("computes with", t)


def all_terms(p):
    seen = set()
    for e in p.events:
        if e.kind in ("call", "new", "setattr", "setitem"):
            for x in (e.term, e.extra):
                if isinstance(x, T):
                    for s in subterms(x):
                        if s not in seen:
                            seen.add(s)
                            yield s


def own_call(name, fn):
    return name in ("_call", "__enter__", "__exit__", "genexp", "ifexp", "new_function_def", "open")


def is_unset(k):
    return "NOW_UNSET" in show(k) or "<now_unset>" in show(k)


def text(p, a):
    """a is the name of an attribute or of an argument, not a value"""
    if a.tag == "elem" and a.args[0].tag == "param" and \
            a.args[0].args[0].lstrip("*") in ("kwargs", "original_kwargs"):
        return True
    for k, v in p.pc.items():
        if k.tag == "cmp" and k.args[0] in ("Eq",) and is_const(k.args[2]) and v is True and \
                k.args[2].args[1] == "." and k.args[1].tag == "item" and a.tag == "item" and \
                k.args[1].args[0] is a.args[0]:
            return True
    return False


def integer(p, a):
    for k, v in p.pc.items():
        if k.tag == "truth" and v is True and k.args[0].tag == "call" and \
                call_name(k.args[0]) == "isinstance" and k.args[0].args[1][0] is a:
            return True
    return False


def script_len(p, x):
    """The length of x is not a function of the script"""
    for k, v in p.pc.items():
        if "__len__" in show(k) and "FunctionType" in show(k) and x in set(subterms(k)):
            return True
    return False


def builtin_seq(f, x):
    return x.tag == "param" or x.tag == "call" and \
        last(call_name(x)) == "value_from_target_expr"    # a list that the Collector built


def targets_of(t):
    """FuncInfo that a call term names"""
    fn = t.args[0]
    if isinstance(fn, T) and fn.tag == "bound":
        return fn.args[1]
    if isinstance(fn, T) and fn.tag == "func":
        return fn.args[0]
    return None


def interp(ctx, f):
    def opaque(fi):
        return fi is not f and fi.cls is not None and fi.parent is None
    big = len(list(ast.walk(f.node))) > 900
    return ctx.interp(loops=(1,) if big else (0, 1), max_states=60 if big else 1500,
                      opaque_fn=opaque)


def access_index(p, it, f, names):
    return names


def nested_paths(ctx, it, v, p, depth=0):
    """Paths of the functions that a hook returns"""
    if not isinstance(v, T) or v.tag not in ("func", "closure") or depth > 2:
        return
    fi = v.args[0]
    if not isinstance(fi, FuncInfo) or isinstance(fi.node, ast.Lambda):
        return
    a = fi.node.args
    args = [param(x.arg) for x in a.posonlyargs + a.args]
    if a.vararg is not None:
        args.append(mk("star", param(a.vararg.arg)))
    kws = [("**", param(a.kwarg.arg))] if a.kwarg is not None else []
    try:
        ps = ctx.closure_paths(it, v, args, p.state, kws)
    except Exception:
        ps = ctx.closure_paths(it, v, args, p.state)
    for q in ps:
        yield fi, q
    for q in ps[:1]:
        if q.outcome == "return":
            for x in nested_paths(ctx, it, q.value, q, depth + 1):
                yield x


def watching(ctx):
    ctx.rule("watching", "the Collector performs no operation on values of the program")
    ci = collector(ctx)
    work = []
    done = {}
    for n, ps in ROOTS.items():
        f = ci.find_method(n)
        if f is not None:
            have = set(vs.node_params(f)) | ({f.node.args.vararg.arg} if f.node.args.vararg else set()) \
                | ({f.node.args.kwarg.arg} if f.node.args.kwarg else set())
            work.append((f, frozenset(x for x in ps if x in have)))
    while work:
        f, names = work.pop()
        old = done.get(f.qual)
        if old is not None and names <= old:
            continue
        names = names | (old or frozenset())
        done[f.qual] = names
        if f.name in KEEP:
            continue
        taint = Wrapped(set(names))
        if f.name in ACCESS:
            taint = AccessTaint(set(names))
        it = interp(ctx, f)
        paths = [(f, p) for p in ctx.paths_of(it, f)]
        for p in [p for _, p in paths][:1]:
            if p.outcome == "return":
                paths += list(nested_paths(ctx, it, p.value, p))
        bad = []
        for g, p in paths:
            t2 = taint
            if g is not f:
                extra = {"args", "kwargs", "function_def", "class_def"}
                t2 = Wrapped(set(names) | extra)
                if f.name == "collect_function_def":     # result of a decorator
                    t2 = Taint(set(names) | extra)
            scan(ctx, g, p, t2, lambda what, t: bad.append((what, t, g)))
            for e in p.events:
                if e.kind != "call" or e.term.tag != "call":
                    continue
                g2 = targets_of(e.term)
                if g2 is None or g2.cls is None or g2.cls.name != ci.name or g2.parent is not None:
                    continue
                pn = vs.node_params(g2)
                hit = set()
                for i, a in enumerate(e.term.args[1]):
                    if t2.pv(a) and i < len(pn) and not text(p, a):
                        hit.add(pn[i])
                for k, a in e.term.args[2]:
                    if t2.pv(a) and k in pn and not text(p, a):
                        hit.add(k)
                if hit:
                    work.append((g2, frozenset(hit)))
        for what, t, g in bad:
            ctx.fail("watching", "Collector." + g.name, "{} {}".format(what, show(t)[:160]), g.site)
        ctx.ob("watching", "Collector." + f.name, not bad, "", f.site)
    ctx.need("watching", 25)


class AccessTaint(Taint):
    def pv(self, t):
        # (operation, (activation, code_id, container, index, access, mode))
        if isinstance(t, T) and t.tag == "item" and t.args[0].tag == "item" and \
                t.args[0].args[0].tag == "param" and is_const(t.args[1]):
            return t.args[1].args[1] in (2, 3)
        if isinstance(t, T) and t.tag == "item" and t.args[0].tag == "param":
            return False
        return Taint.pv(self, t)


class Wrapped(Taint):
    def pv(self, t):
        if isinstance(t, T) and t.tag == "attr" and t.args[0].tag == "param" and \
                t.args[0].args[0] in NESTED:
            return False       # a function or class that was just defined
        if isinstance(t, T) and t.tag == "param" and t.args[0] in NESTED:
            return False
        return Taint.pv(self, t)


def handed(ctx):
    ctx.rule("handed", "a hook hands back the value that it was given, on every path")
    values = hk.Values(ctx)
    ci = collector(ctx)
    pairs = {}
    for e in hook_names(ctx):
        pairs.setdefault(e, None)
    special = {"genexp", "ifexp", "slice", "access", "augaccess", "pop_assign", "start_script",
               "start_class", "close_script", "collect_exception", "prepare_conditions",
               "remove_condition", "reset_conditions", "collect_break_continue_pass",
               "collect_function_def", "collect_class_def", "class_def", "function_def", "assign",
               "match_arguments", "exception", "remove_conditions"}
    for name, second in sorted(pairs):
        if name in special or name.startswith("py2_"):
            continue
        i = values.get(name, second)
        h = hk.summary(ctx, name)
        ctx.ob("handed", name, h is not None and isinstance(i, int),
               "no argument is handed back on all paths", h.func.site if h else "")
    ctx.need("handed", 15)


def hook_names(ctx):
    """(name, has second arguments) of the hooks that the transformer names"""
    for cname in (vs.EXPR, vs.STMT):
        for n in ast.walk(ctx.project.cls(cname).node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                if fn in ("noworkflow", "double_noworkflow") and n.args and \
                        isinstance(n.args[0], ast.Constant):
                    yield n.args[0].value, fn == "double_noworkflow"


def nonfail(p):
    return p.outcome == "return"


def own(ctx):
    ctx.rule("own", "the operation of the program happens exactly once and its result is handed back")
    ci = collector(ctx)
    # reads
    f = ci.find_method("__getitem__")
    at = AccessTaint(set())
    n = 0
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        kind = access_kind(p)
        if kind is None:
            continue
        n += 1
        loads = [e.term for e in p.events if e.kind == "getitem" and at.pv(e.term.args[0]) and
                 at.pv(e.term.args[1])]
        gets = [e.term for e in calls(p, "getattr") if own_access(p, e.term) and
                at.pv(e.term.args[1][0])]
        ops = loads if kind == "[]" else gets
        other = gets if kind == "[]" else loads
        ctx.ob("own", "read " + kind, len(ops) == 1 and not other and p.value is ops[0],
               "{} reads; returns {}".format(len(ops), show(p.value)[:100]), f.site)
        for t in ops:
            a = t.args if t.tag == "item" else t.args[1]
            ctx.ob("own", "operands of read " + kind, pos_of(a[0]) == 2 and pos_of(a[1]) == 3,
                   show(t)[:160], f.site)
    # writes
    f = ci.find_method("__setitem__")
    v = param(vs.node_params(f)[1])
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        kind = access_kind(p)
        if kind is None:
            continue
        n += 1
        sets = [e for e in p.events if e.kind == "setitem" and at.pv(e.term)]
        attrs = [e for e in p.events if e.kind == "setattr" and at.pv(e.term)]
        ops = sets if kind == "[]" else attrs
        other = attrs if kind == "[]" else sets
        ok = len(ops) == 1 and not other
        if ok and kind == "[]":
            k, val = ops[0].extra.args
            ok = pos_of(ops[0].term) == 2 and pos_of(k) == 3 and val is v
        elif ok:
            k, val = ops[0].extra.args
            ok = pos_of(ops[0].term) == 2 and isinstance(k, T) and pos_of(k) == 3 and val is v
        ctx.ob("own", "write " + kind, ok, "{} writes".format(len(ops)), f.site)
    # calls
    f = ci.find_method("_call")
    for p in ctx.paths_of(interp(ctx, f), f):
        mine = [e.term for e in p.events if e.kind == "call" and e.term.tag == "call" and
                e.term.args[0].tag == "attr" and e.term.args[0].args[1] == "func"]
        if p.outcome == "return":
            n += 1
            ctx.ob("own", "call once", len(mine) == 1 and p.value is mine[0],
                   "{} calls; returns {}".format(len(mine), show(p.value)[:100]), f.site)
        for t in mine:
            ctx.ob("own", "call arguments", forwards(t, 0), show(t)[:160], f.site)
    # definitions
    f = ci.find_method("_function_def")
    it = interp(ctx, f)
    for p in ctx.paths_of(it, f)[:1]:
        for g, q in nested_paths(ctx, it, p.value, p):
            if g.node.args.vararg is None or q.outcome != "return":
                continue
            n += 1
            mine = []
            for e in q.events:
                if e.kind != "call" or e.term.tag != "call":
                    continue
                fn = e.term.args[0]
                if forwards(e.term, 0) and (fn.tag == "param" or fn.tag == "call"):
                    mine.append(e.term)
            ctx.ob("own", "function body once", len(mine) == 1 and q.value is mine[0],
                   "{} calls; returns {}".format(len(mine), show(q.value)[:100]), g.site)
    # iteration: each element exactly once, in order
    f = ci.find_method("_loop_generator")
    loop_ok(ctx, f)
    # conditions of comprehensions
    f = ci.find_method("_rcondition")
    if f is not None:
        v = param("value")
        for p in returning(ctx.paths_of(interp(ctx, f), f)):
            n += 1
            ok = p.value.tag == "bool" and contains(p.value, v) or is_const(p.value) or \
                p.value.tag == "call" and call_name(p.value) == "bool"
            if is_const(p.value):
                ok = cond_value(p, lambda k: k.tag == "truth" and v in set(subterms(k))) is p.value.args[1]
            ctx.ob("own", "condition", ok, show(p.value)[:100], f.site)
    ctx.need("own", 8)


def access_kind(p):
    for k, v in p.pc.items():
        if k.tag == "cmp" and k.args[0] == "Eq" and v is True and is_const(k.args[2]) and \
                k.args[2].args[1] in ("[]", "."):
            return k.args[2].args[1]
    return None


def pos_of(t):
    if t.tag == "item" and is_const(t.args[1]):
        return t.args[1].args[1]
    return None


def forwards(t, skip):
    """t passes the *args and **kwargs of its caller on, unchanged"""
    stars = [a for a in t.args[1] if a.tag == "star"]
    dstars = [v for k, v in t.args[2] if k in ("**", None)]
    ok = len(stars) == 1 and t.args[1][-1] is stars[0] and stars[0].args[0].tag in ("param", "tuple", "star")
    named = [k for k, v in t.args[2] if k not in ("**", None)]
    return ok and len(dstars) == 1 and not named and dstars[0].tag in ("param", "dict", "star")


def loop_ok(ctx, f):
    """Decided on the syntax: generators that pass on what they iterate over"""
    g = collector(ctx).find_method("enumerate_generator")
    for fi in (f, g):
        if fi is None:
            raise AnalysisBroken("generator of loops not found")
        yields = [n for n in ast.walk(fi.node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        loops = [n for n in ast.walk(fi.node) if isinstance(n, (ast.For, ast.While)) and
                 any(y in set(ast.walk(n)) for y in yields)]
        ctx.ob("own", fi.name + ":one yield for each element", len(yields) == len(loops) and all(
            sum(1 for y in yields if y in set(ast.walk(lo))) == 1 for lo in loops),
            "{} yields in {} loops".format(len(yields), len(loops)), fi.site)
        for lo in loops:
            body = lo.body
            cut = [n for n in ast.walk(lo) if isinstance(n, (ast.Continue, ast.Return)) or
                   isinstance(n, ast.Break) and not guarded_stop(lo, n)]
            ctx.ob("own", fi.name + ":no element is skipped", not cut,
                   "line {}".format(cut[0].lineno) if cut else "", fi.site)
            direct = [s for s in body if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield)]
            ctx.ob("own", fi.name + ":yield is unconditional", len(direct) == 1, "", fi.site)
            for s in direct:
                if isinstance(lo, ast.For):
                    tgt = {n.id for n in ast.walk(lo.target) if isinstance(n, ast.Name)}
                    out = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                    re = {t.id for n in ast.walk(lo) if isinstance(n, ast.Assign)
                          for t in n.targets if isinstance(t, ast.Name)}
                    ctx.ob("own", fi.name + ":element itself", "element" not in tgt or
                           "element" in out and "element" not in re or bool(out & tgt - re), "",
                           fi.site)


def guarded_stop(lo, b):
    """break in the handler of StopIteration"""
    for n in ast.walk(lo):
        if isinstance(n, ast.ExceptHandler) and b in set(ast.walk(n)):
            return isinstance(n.type, ast.Name) and n.type.id == "StopIteration"
    return False


def wrappers(ctx):
    ctx.rule("wrappers", "objects put in the place of values of the program delegate to them")
    ci = ctx.project.cls("now.collection.prov_execution.structures:WithContext")
    for m in ("__enter__", "__exit__"):
        f = ci.find_method(m)
        if f is None:
            ctx.fail("wrappers", "WithContext." + m, "missing", ci.site if hasattr(ci, "site") else "")
            continue
        for p in returning(ctx.paths_of(ctx.interp(), f)):
            mine = [e.term for e in calls(p, m)]
            ok = len(mine) == 1 and p.value is mine[0] and selfattr(
                mine[0].args[0].args[0] if mine[0].args[0].tag == "attr" else mine[0]) is not None
            if m == "__exit__":
                ok = ok and [a.tag for a in mine[0].args[1]][:1] in (["star"], ["param"])
            ctx.ob("wrappers", "WithContext." + m, ok, show(p.value)[:120], f.site)
    f = ci.find_method("__init__")
    if f is not None:
        for p in returning(ctx.paths_of(ctx.interp(), f)):
            got = {e.extra.args[0] if isinstance(e.extra.args[0], str) else strval(e.extra.args[0]):
                   e.extra.args[1] for e in p.events if e.kind == "setattr"}
            ctx.ob("wrappers", "WithContext keeps the object", any(
                v.tag == "param" and v.args[0] == "context" for v in got.values()), "", f.site)
    # decorators hand back what they decorate
    cc = collector(ctx)
    for n in ("collect_function_def", "collect_class_def", "_class_def"):
        f = cc.find_method(n)
        if f is None:
            continue
        it = interp(ctx, f)
        for p in ctx.paths_of(it, f)[:1]:
            for g, q in nested_paths(ctx, it, p.value, p):
                if q.outcome == "return":
                    first = g.node.args.args[0].arg
                    ctx.ob("wrappers", n, q.value is param(first), show(q.value)[:120], g.site)
    ctx.need("wrappers", 5)


def opened(ctx):
    ctx.rule("opened", "the replaced open functions open the file exactly as asked")
    f = collector(ctx).find_method("new_open")
    if f is None:
        raise AnalysisBroken("new_open not found")
    it = interp(ctx, f)
    old = param(vs.node_params(f)[0])
    for p in ctx.paths_of(it, f)[:1]:
        for g, q in nested_paths(ctx, it, p.value, p):
            mine = [e.term for e in q.events if e.kind == "call" and e.term.tag == "call" and
                    e.term.args[0] is old]
            if q.outcome == "return":
                ctx.ob("opened", "open", len(mine) == 1 and q.value is mine[0] and
                       forwards(mine[0], 0), show(q.value)[:160], g.site)
    ctx.need("opened", 1)
