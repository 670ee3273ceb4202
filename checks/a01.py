"""The instrumented program is the program of the user.

Every visitor of the transformer is interpreted abstractly. The tree that it
emits is erased: each hook is replaced by the argument that the Collector hands
back for it (derived from the Collector, not assumed). What remains must be the
construct of the source, with each part captured exactly once and in its place,
and no recorded argument may evaluate a part of the program again. Statements
are delivered once each and in order, the script runs inside of one try block
whose handler re-raises, and the helpers build what the rules take them for.
"""
from vlib.rules import *
from vlib import emission as em
from vlib import visitors as vs
from vlib import hooks as hk

RULES = ["erasure", "dispatch", "script", "arguments", "helpers", "generic", "frames"]
ASSUMPTIONS = ["ast, copy and pyposast behave as documented.",
               "The branch of Python 3 of version tests is taken."]
ELEMENTS = "now.collection.prov_definition.ast_elements:"


def erasure(ctx):
    ctx.rule("erasure", "an emitted construct, hooks erased, is the construct of the source")
    values = hk.Values(ctx)
    for e in vs.all_emissions(ctx):
        er = e.check(values)
        ctx.ob("erasure", e.name, not er.problems,
               "; ".join(er.problems)[:400], e.func.site)
    ctx.need("erasure", 20)


def unordered(ctx):
    return ctx.project.cls(vs.STMT)


def run(ctx, f, loops=(0, 1), inline=()):
    def opaque(fi):
        if fi is f or fi.name in inline:
            return False
        return em.opaque(fi) or fi.name.startswith("visit") or fi.name in vs.CUT
    return ctx.paths_of(ctx.interp(loops=loops, max_states=8000, opaque_fn=opaque), f)


def delivered(path, body):
    """[(statement, how)] in the order in which process_body emits them"""
    out = []
    for e in path.events:
        if e.kind != "call" or e.term.tag != "call":
            continue
        n = last(cname(e))
        if n.startswith("visit"):
            for a in list(e.term.args[1]) + [v for _, v in e.term.args[2]]:
                if body in set(subterms(a)) and a.tag in ("elem", "item", "call"):
                    out.append((a, n, e))
    return out


def assumed_class(path, stmt):
    """(class that the path has established, classes that it has excluded)"""
    yes, no = set(), set()
    for k, v in path.pc.items():
        if k.tag != "truth" or k.args[0].tag != "call" or call_name(k.args[0]) != "isinstance":
            continue
        x, c = k.args[0].args[1][:2]
        if x is not stmt:
            continue
        names = {show(t) for t in (c.args if c.tag == "tuple" else [c])}
        names = {n[4:] for n in names if n.startswith("ast.")}
        (yes if v else no).update(names)
    return yes, no


def dispatch(ctx):
    ctx.rule("dispatch", "process_body delivers each statement exactly once and in order")
    f = unordered(ctx).find_method("process_body")
    if f is None:
        raise AnalysisBroken("process_body not found")
    names = vs.node_params(f)
    body = param(names[0])
    for p in returning(run(ctx, f)):
        n = [v for k, v in p.pc.items() if k.tag == "niter" and body in set(subterms(k))
             and isinstance(v, int) and not any(
                 x.tag == "call" for x in subterms(k) if call_name(x) != "enumerate"
                 ) and not any(x.tag == "attr" for x in subterms(k))]
        if any(k.tag == "truth" and v is False and show(k.args[0]) in em.VERSIONS
               for k, v in p.pc.items()):
            continue
        got = delivered(p, body)
        if n and n[0] == 0:
            ctx.ob("dispatch", "empty body", not got and p.value.tag == "list" and
                   not p.value.args, show(p.value)[:200], f.site)
            continue
        ctx.ob("dispatch", "each statement once", len(got) == 1,
               "{} visits of one statement".format(len(got)), f.site)
        for stmt, how, e in got:
            if stmt.tag != "elem":
                ctx.fail("dispatch", "the statement itself", show(stmt)[:200], e.site)
            yes, no = assumed_class(p, stmt)
            special = vs.NAMED.get(how)
            if special is not None:
                ctx.ob("dispatch", how, yes == {special}, "for " + ",".join(sorted(yes)), e.site)
            else:
                lists = {c for m, c in vs.NAMED.items() if m != "visit_exchandler"}
                ctx.ob("dispatch", "generic:" + how, not (yes & lists) and lists <= no | yes or
                       bool(yes - lists), "generic visit of " + ",".join(sorted(yes)), e.site)
                # the result of the visit is emitted
                here = p.value.tag == "list" and sum(
                    1 for x in p.value.args if x is e.term) == 1
                ctx.ob("dispatch", "visited statement emitted", here, show(p.value)[:300], e.site)
        extra = [x for x in p.value.args if not any(x is g[2].term for g in got)] \
            if p.value.tag == "list" else []
        er = em.Erasure(p, {})
        for x in extra:
            src = em.copied(x)
            over = er.over.get(x, {})
            nm = over.get("name")
            ok = src is not None and any(src is g[0] for g in got) and nm is not None and \
                nm.tag == "fmt" and strval(nm.args[0]) == "__now_original_" or False
            ctx.ob("dispatch", "extra statement", bool(ok), show(x)[:200], f.site)
            if not ok:
                continue
            empty = over.get("decorator_list")
            ctx.ob("dispatch", "definition without decorators", empty is not None and
                   empty.tag == "list" and not empty.args, show(empty), f.site)
            ctx.ob("dispatch", "definition without annotations", over.get("returns") is NONE and
                   any(e.kind == "setattr" and kv(e)[0] == "annotation" and kv(e)[1] is NONE or
                       not walks(p) for e in p.events), "", f.site)
            for fld in ("defaults", "kw_defaults"):
                v = er.over.get(attr(x, "args"), {}).get(fld)
                bad = v is None or v.tag != "list" or any(
                    not absent(p, y) for y in v.args)
                ctx.ob("dispatch", "definition without " + fld, not bad,
                       show(v)[:200] if v is not None else "kept", f.site)
    ctx.need("dispatch", 6)


def kv(e):
    n, v = e.extra.args
    return (n if isinstance(n, str) else strval(n)), v


def walks(p):
    return any(k.tag == "niter" and v == 1 and "ast.walk" in show(k) for k, v in p.pc.items()) and \
        any(k.tag == "truth" and v is True and k.args[0].tag == "call" and
            call_name(k.args[0]) == "hasattr" for k, v in p.pc.items())


def absent(p, y):
    """y evaluates nothing: none(), or a missing default"""
    if em.name_of(y) == "none" or y is NONE:
        return True
    return any(k.tag == "truth" and k.args[0] is y and v is False for k, v in p.pc.items())


def flatten(t):
    """Items of a statement list; sublists as ("all", term)"""
    t = em.strip(t)
    if t.tag in ("list", "tuple"):
        out = []
        for a in t.args:
            if a.tag == "star":
                out.extend(flatten(a.args[0]))
            else:
                out.append(("one", a))
        return out
    if t.tag == "binop" and t.args[0] == "Add":
        return flatten(t.args[1]) + flatten(t.args[2])
    return [("all", t)]


def sliced(t):
    """(source list, start, stop) of a slice"""
    if t.tag == "item" and t.args[1].tag == "slice":
        return t.args[0], t.args[1].args[0], t.args[1].args[1]
    if t.tag == "item" and t.args[1].tag == "call" and call_name(t.args[1]) == "slice":
        a = t.args[1].args[1]
        return t.args[0], a[0], a[1]
    return None


def script(ctx):
    ctx.rule("script", "the script is one try block around all statements; its handler re-raises")
    f = unordered(ctx).find_method("process_script")
    if f is None:
        raise AnalysisBroken("process_script not found")
    for p in returning(run(ctx, f)):
        if not em.feasible(p) or any(
                k.tag == "truth" and k.args[0].tag == "call" and v is False and
                call_name(k.args[0]) in ("copy.copy", "copy") for k, v in p.pc.items()):
            continue
        v = em.strip(p.value)
        body = None
        if v.tag in ("call", "new"):
            lists = [a for a in list(v.args[1]) + [x for _, x in v.args[2]]
                     if a.tag in ("list", "binop")]
            body = flatten(lists[0]) if lists else None
        if body is None:
            ctx.fail("script", "module", show(v)[:200], f.site)
            continue
        tries = [i for i, (k, x) in enumerate(body) if k == "one" and try_of(x) is not None]
        runs = [c for c in subterms(p.value) if c.tag == "call" and
                last(call_name(c)) == "process_body"]
        allruns = [e.term for e in calls(p, "process_body")]
        ctx.ob("script", "one try block", len(tries) == 1, "{} try blocks".format(len(tries)), f.site)
        ctx.ob("script", "statements instrumented once", len(allruns) == 1 and
               len(set(runs)) <= 1, "", f.site)
        if len(tries) != 1 or len(allruns) != 1:
            continue
        t = try_of(body[tries[0]][1])
        tbody, handlers, orelse, final = t
        r = allruns[0]
        known_empty = any(k.tag == "truth" and k.args[0] is r and val is False
                          for k, val in p.pc.items())
        ctx.ob("script", "statements run inside of the try block",
               known_empty or whole(p, tbody, r), show(tbody)[:300], f.site)
        for i, (k, x) in enumerate(body):
            if i != tries[0]:
                ctx.ob("script", "nothing runs outside of the try block", r not in set(subterms(x)),
                       show(x)[:200], f.site)
        ctx.ob("script", "no else part", orelse.tag == "list" and not orelse.args, show(orelse)[:100],
               f.site)
        hs = em.items(handlers) or []
        ctx.ob("script", "handler", len(hs) == 1, show(handlers)[:200], f.site)
        for h in hs:
            h = em.strip(h)
            a = h.args[1] if em.ast_class(h) == "ExceptHandler" else None
            stmts = em.items(a[2]) if a else None
            ctx.ob("script", "handler catches everything", bool(a) and (
                a[0] is NONE or "BaseException" in show(a[0])), show(h)[:200], f.site)
            again = bool(stmts) and em.ast_class(em.strip(stmts[-1])) == "Raise" and \
                not em.strip(stmts[-1]).args[1]
            ctx.ob("script", "handler re-raises", again, show(h)[:300], f.site)
        fin = [em.strip(x) for x in em.items(final) or []]
        names = [em.hook(em.strip(x.args[1][0]))[0] if em.ast_class(x) == "Expr" and
                 em.hook(em.strip(x.args[1][0])) else "?" for x in fin]
        ctx.ob("script", "the script is closed however it ends", names == ["close_script"],
               ",".join(map(str, names)), f.site)
        # the statements that are not instrumented are the future imports
        src = arg(r, "body", 0)
        cut = sliced(src)
        if cut is None:
            ctx.ob("script", "every statement of the source", "body" in show(src) and
                   any(x.tag == "param" for x in subterms(src)), show(src)[:200], f.site)
            continue
        start = cut[1]
        heads = [x for k, x in body[:tries[0]] if k == "all" and sliced(x) is not None and
                 sliced(x)[0] is cut[0]]
        head_ok = (is_const(start) and start.args[1] in (0, None)) or \
            len(heads) == 1 and sliced(heads[0])[1] in (NONE, const(0))
        ctx.ob("script", "future imports come first", head_ok and cut[2] is NONE, show(src)[:200],
               f.site)
        if len(heads) == 1 and sliced(heads[0])[2] is not start:
            # the number of head statements is the number of loop turns over them
            n = [val for k, val in p.pc.items() if k.tag == "niter" and
                 heads[0] in set(subterms(k))]
            ctx.ob("script", "each statement is either a future import or instrumented",
                   bool(n) and is_const(start) and n[0] == start.args[1], show(start), f.site)
        docs = any(x.tag == "call" and last(call_name(x)) == "docstring" or em.copied(x) is not None
                   for k, x in body[:tries[0]])
        ctx.ob("script", "docstring kept", docs or any(
            k == "all" and sliced(x) for k, x in body[:tries[0]]), "", f.site)
    ctx.need("script", 8)


def try_of(t):
    t = em.strip(t)
    if t.tag == "call" and em.name_of(t) == "try_def":
        return [arg(t, n, i) for i, n in enumerate(("body", "handlers", "orelse", "finalbody"))]
    if em.ast_class(t) == "Try":
        return list(t.args[1][:4])
    return None


def whole(p, tbody, r):
    """tbody consists of the statements r; the last may be assigned"""
    if tbody is r:
        return True
    parts = flatten(tbody)
    if parts == [("all", r)]:
        return True
    # in place: r[-1] = Assign(result, r[-1].value)
    flat = [x for _, x in parts]
    if not flat:
        return False
    first = sliced(flat[0]) if len(flat) == 2 else None
    if first is not None and first[0] is r and first[1] in (NONE, const(0)) and \
            is_const(first[2]) and first[2].args[1] == -1:
        last_item = mk("item", r, const(-1))
        return last_item in set(subterms(flat[1]))
    return False


def arguments(ctx):
    ctx.rule("arguments", "defaults are evaluated once each, positional ones before keyword-only")
    f = unordered(ctx).find_method("process_parameters")
    if f is None:
        raise AnalysisBroken("process_parameters not found")
    a = param(vs.node_params(f)[0])
    n = 0
    for p in returning(run(ctx, f)):
        if not em.feasible(p):
            continue
        if p.value.tag != "tuple" or len(p.value.args) != 2:
            ctx.fail("arguments", "parameters and defaults", show(p.value)[:200], f.site)
            continue
        params, defs = [em.strip(x) for x in p.value.args]
        order = default_order(defs)
        expect = []
        for fld in ("defaults", "kw_defaults"):
            src = attr(a, fld)
            turns = [v for k, v in p.pc.items() if k.tag == "niter" and src in set(subterms(k))]
            expect += [src] * (turns[0] if turns and isinstance(turns[0], int) else 0)
        got = [next((s for s in (attr(a, "defaults"), attr(a, "kw_defaults"))
                     if s in set(subterms(x))), None) for x in order]
        n += 1
        ctx.ob("arguments", "defaults once and in order", got == expect,
               "{} for {}".format([show(x) for x in got], [show(x) for x in expect]), f.site)
        stray = [x for x in subterms(params) if em.name_of(x) == "process_default"]
        ctx.ob("arguments", "parameters evaluate nothing", not stray, show(params)[:200], f.site)
    ctx.need("arguments", 2)


def default_order(t):
    out = []
    t = em.strip(t)
    if em.name_of(t) in ("process_default", "capture", "visit"):
        return [t]
    kids = ()
    if t.tag in ("call", "new"):
        kids = list(t.args[1]) + [v for _, v in t.args[2]]
    elif t.tag in ("list", "tuple", "star", "binop"):
        kids = [x for x in t.args if isinstance(x, T)]
    for k in kids:
        out += default_order(k)
    return out


def built(t):
    """The built tree as nested tuples, location copies dropped"""
    t = em.strip(t)
    k = em.ast_class(t)
    if k in ("NameConstant", "Constant"):
        v = t.args[1][0]
        return ("const", v.args[1] if is_const(v) else show(v))
    if k in ("Load", "Store", "Param"):
        return k
    if k == "Name" and strval(t.args[1][0]) in ("None", "True", "False"):
        return ("const", {"None": None, "True": True, "False": False}[strval(t.args[1][0])])
    if k is not None:
        return (k,) + tuple(built(x) for x in t.args[1])
    if is_const(t):
        return t.args[1]
    return show(t)


def helpers(ctx):
    ctx.rule("helpers", "the helpers build what their names say")
    m = ctx.project.module("now.collection.prov_definition.ast_elements")

    def paths(name):
        f = m.funcs.get(name)
        if f is None:
            raise AnalysisBroken("helper {} not found".format(name))
        it = ctx.interp(loops=(0, 1))
        return f, [p for p in returning(ctx.paths_of(it, f)) if not any(
            k.tag == "truth" and v is False and show(k.args[0]) in em.VERSIONS
            for k, v in p.pc.items())]

    now = ("Attribute", ("Name", "__noworkflow__", "Load"), "name", "Load")
    for name, want in (("none", ("const", None)), ("true", ("const", True)),
                       ("false", ("const", False)), ("L", "Load"), ("S", "Store"),
                       ("activation", ("Name", "__now_activation__", "Load")),
                       ("param", ("arg", "value", "annotation"))):
        if name not in m.funcs:
            continue
        f, ps = paths(name)
        for p in ps:
            ctx.ob("helpers", name, built(p.value) == want, str(built(p.value)), f.site)
    f, ps = paths("true_false")
    for p in ps:
        c = cond_value(p, lambda k: k.tag == "truth" and k.args[0].tag == "param")
        ctx.ob("helpers", "true_false", built(p.value) == ("const", c), str(built(p.value)), f.site)
    f, ps = paths("noworkflow")
    for p in ps:
        b = built(p.value)
        ctx.ob("helpers", "noworkflow", b[0] == "Call" and b[1] == now and b[2] == "args",
               str(b)[:300], f.site)
    f, ps = paths("double_noworkflow")
    for p in ps:
        b = built(p.value)
        ctx.ob("helpers", "double_noworkflow", b[0] == "Call" and b[2] == "args" and
               b[1][0] == "Call" and b[1][1] == now and b[1][2] == "external_args",
               str(b)[:300], f.site)
    f, ps = paths("call")
    for p in ps:
        b = built(p.value)
        kws = cond_value(p, lambda k: k.tag == "truth" and show(k.args[0]) == "keywords")
        ctx.ob("helpers", "call", b[:3] == ("Call", "func", "args") and
               (b[3] == ("keywords" if kws is not False else "list()")), str(b)[:300], f.site)
    f, ps = paths("add_first_params")
    a = vs_params(f)
    for p in ps:
        ctx.ob("helpers", "add_first_params:returns", p.value is param(a[0]), show(p.value), f.site)
        sets = [(kv(e), e) for e in p.events if e.kind == "setattr" and e.term is param(a[0])]
        ok = len(sets) == 1 and sets[0][0][0] in ("posonlyargs", "args")
        if ok:
            fld, v = sets[0][0]
            parts = [x for _, x in flatten(v)]
            ok = parts == [param(a[1]), attr(param(a[0]), fld)]
            pos = cond_value(p, lambda k: k.tag == "truth" and "posonlyargs" in show(k))
            ok = ok and (fld == "posonlyargs") is bool(pos)
        ctx.ob("helpers", "add_first_params:first", ok, show(sets[0][0][1]) if sets else "", f.site)
    g = ctx.project.module("now.collection.prov_definition.ast_helpers").funcs.get("ast_copy")
    if g is None:
        raise AnalysisBroken("ast_copy not found")
    names = vs_params(g)
    for p in returning(ctx.paths_of(ctx.interp(loops=(0, 1), max_states=1500), g)):
        v = p.value
        if v.tag == "call" and call_name(v) == "ast.copy_location":
            v = v.args[1][0]
        ctx.ob("helpers", "ast_copy", v is param(names[0]), show(p.value)[:200], g.site)
        for e in p.events:
            if e.kind == "setattr":
                ctx.ob("helpers", "ast_copy:only positions", kv(e)[0] not in
                       em.ALL_FIELDS - em.IGNORED, str(kv(e)[0]), g.site)
    f = unordered(ctx).find_method("docstring")
    if f is not None:
        node = param(vs_params(f)[1])
        for p in returning(ctx.paths_of(ctx.interp(), f)):
            v = em.items(p.value)
            ok = v is not None and len(v) <= 1
            if ok and v:
                s = em.copied(v[0]) or v[0]
                ok = s is mk("item", attr(node, "body"), const(0)) or show(s).endswith(".body[0]")
            doc = [val for k, val in p.pc.items() if "get_docstring" in show(k) and
                   k.tag == "cmp"]
            if ok and not v:
                ok = any(doc) or not doc
            ctx.ob("helpers", "docstring", ok, show(p.value)[:200], f.site)
    ctx.need("helpers", 10)


def vs_params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def generic(ctx):
    ctx.rule("generic", "statements without visitor keep their parts, processed once")
    f = unordered(ctx).find_method("generic_visit")
    if f is None:
        raise AnalysisBroken("generic_visit not found")
    for p in returning(run(ctx, f)):
        ret = p.value
        ok = em.captured(ret) is not None or show(ret).startswith("super(") or \
            ret.tag == "param"
        ctx.ob("generic", "node returned", ok, show(ret)[:200], f.site)
        stored = [kv(e) + (e,) for e in p.events if e.kind == "setattr"]
        bodies = [e.term for e in calls(p, "process_body")]
        emptied = [x for x in stored if x[1].tag == "list" and not x[1].args]
        filled = [x for x in stored if any(b is x[1] for b in bodies)]
        ctx.ob("generic", "emptied lists are filled again", len(emptied) <= len(filled) and
               len(filled) == len(bodies) and
               all(any(e.extra.args[0] is g.extra.args[0] for _, _, g in filled)
                   for _, _, e in emptied), show(ret)[:100], f.site)
        for b in bodies:
            src = arg(b, "body", 0)
            ctx.ob("generic", "the statements of the node", "node" in show(src) or
                   any(x.tag == "param" for x in subterms(src)), show(src)[:200], f.site)
    ctx.need("generic", 2)


MOVED = {"ifexp", "genexp", "function_def"}


def frames(ctx):
    ctx.rule("frames", "code that depends on its frame is not moved into a function")
    for e in vs.all_emissions(ctx):
        if e.cls not in ("IfExp", "BoolOp", "GeneratorExp", "ListComp", "SetComp", "DictComp"):
            continue
        lambdas = [x for x in subterms(e.value) if em.ast_class(x) == "Lambda" or
                   em.name_of(x) == "nlambda"] if e.value is not None else []
        if not lambdas:
            continue
        asked = [v for k, v in e.path.pc.items() if k.tag == "truth" and
                 k.args[0].tag == "call" and last(call_name(k.args[0])) == "depends_on_frame"]
        inner = [v for k, v in e.path.pc.items() if "class_scope" in show(k)]
        ctx.ob("frames", e.name, bool(asked) and not any(asked), "moved without asking",
               e.func.site)
        ctx.ob("frames", e.name + ":class scope", bool(inner), "moved in class bodies", e.func.site)
