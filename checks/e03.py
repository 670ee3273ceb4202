"""Imports of the script behave as without capture and are recorded.

Each loader that the import hook builds is interpreted abstractly, with a module
body that may raise anything, and its paths are compared with the table of the
contexts: which modules are instrumented, which are recorded, and that every
one is executed exactly once.
"""
import ast

from vlib.rules import *
from checks.common import nested_classes

RULES = ["contexts", "loaders", "attributes", "compiled", "finder", "installed"]
ASSUMPTIONS = ["PathFinder finds the specification of the interpreter.",
               "The collection of the definition of a module that the interpreter can compile "
               "succeeds (decided by A01)."]
MOD = "now.collection.prov_deployment.py3module"
KINDS = ("ImportError", "SyntaxError", "AttributeError", "OSError", "ValueError", "TypeError",
         "SystemExit", "KeyboardInterrupt")
CONTEXTS = ("main", "package", "all")


def context_values(ctx):
    m = ctx.project.module("now.collection.metadata")
    vals = {}
    for exprs in m.assigns.values():
        for e in exprs:
            if isinstance(e, ast.Dict) and all(
                    isinstance(k, ast.Constant) and k.value in CONTEXTS for k in e.keys) and e.keys:
                for k, v in zip(e.keys, e.values):
                    if isinstance(v, ast.Name) and m.assigns.get(v.id):
                        v = m.assigns[v.id][-1]
                    if isinstance(v, ast.Constant):
                        vals[k.value] = v.value
    return vals


def contexts(ctx):
    ctx.rule("contexts", "every context that the command offers has its own level, and the "
             "context of the run is the level of the argument")
    vals = context_values(ctx)
    for c in CONTEXTS:
        ctx.ob("contexts", c, c in vals, "no level", "now/collection/metadata.py")
    ctx.ob("contexts", "distinct", len(set(vals.values())) == len(CONTEXTS), str(vals),
           "now/collection/metadata.py")
    f = ctx.project.func("now.cmd.cmd_run:Run.add_arguments")
    for n in ast.walk(f.node):
        if isinstance(n, ast.keyword) and n.arg == "choices" and isinstance(
                n.value, (ast.List, ast.Tuple)):
            got = {x.value for x in n.value.elts if isinstance(x, ast.Constant)}
            if got & set(CONTEXTS):
                ctx.ob("contexts", "choices", got <= set(vals), str(got - set(vals)), f.site)
    for name in ("read_cmd_args", "read_ipython_args"):
        g = ctx.project.func("now.collection.metadata:Metascript." + name)
        it = ctx.interp(opaque_fn=lambda h: h.name == "context")
        for p in returning(ctx.paths_of(it, g)):
            sets = [e for e in p.events if e.kind == "setattr" and
                    e.extra.args[0] in ("context", "_context") and e.term.tag == "self"]
            ctx.ob("contexts", name, bool(sets) and "args.context" in show(sets[-1].extra.args[1]),
                   "not the argument", g.site)
            bp = [e for q in [p] for e in q.events if e.kind == "call" and
                  last(cname(e)) == "_read_args"]
            by = [e for e in p.events if e.kind == "setattr" and
                  e.extra.args[0] == "bypass_modules"]
            ctx.ob("contexts", name + ":bypass", bool(bp) or bool(by) and show(
                by[-1].extra.args[1]) == "args.bypass_modules", "not the argument", g.site)
    ctx.need("contexts", 4)


LOADER = set()      # names of the original loaders in the functions that wrap them


def loader_classes(ctx):
    m = ctx.project.module(MOD)
    for f in m.funcs.values():
        if nested_classes(f) and len(f.params()) > 1:
            LOADER.add(f.params()[1])
    for f in m.funcs.values():
        for k in nested_classes(f):
            if "exec_module" in k.methods or "load_module" in k.methods:
                yield f, k


def by_loader(t, *names):
    """A call of a method of the original loader"""
    return t.tag == "call" and last(call_name(t)) in names and call_base(t) is not None and \
        show(call_base(t)) in LOADER


def executions(p, meth):
    """[(event, instrumented)] of the executions of the body of the module"""
    out = []
    for e in p.events:
        if e.kind != "call":
            continue
        n = call_name(e.term)
        pos = e.term.args[1]
        if n in ("exec", "builtins.exec") and len(pos) >= 2:
            ns = show(pos[1])
            ok = ns in ("module.__dict__", "vars(module)")
            out.append((e, True, ok, pos[0]))
        elif by_loader(e.term, "exec_module", "load_module"):
            ok = len(pos) == 1 and pos[0].tag == "param"
            out.append((e, False, ok, None))
    return out


def inside_of(t):
    """None when t does not ask whether the module is in the directory;
    False when it asks for a textual prefix only"""
    if t.tag == "call" and last(call_name(t)) in ("startswith", "is_relative_to") or \
            t.tag == "cmp":
        s = show(t)
        if ".dir" not in s or "context" in s:
            return None
        if t.tag == "call" and last(call_name(t)) == "startswith":
            a = t.args[1][0] if t.args[1] else None
            return not (a is None or a.tag == "attr" and a.args[1] == "dir")
        return True
    return None


def loaders(ctx):
    ctx.rule("executes", "every path through a loader executes the module exactly once, in its "
             "own namespace, and what its body raises reaches the import")
    ctx.rule("instrumented", "a source module is instrumented exactly in the contexts that "
             "include it: all for every module, package for those below the directory of the "
             "script, main for none")
    ctx.rule("recorded", "a module is recorded, once and after it ran, if it is instrumented or "
             "modules are not bypassed, and only then")
    vals = context_values(ctx)
    tested = set()
    for owner, k in loader_classes(ctx):
        for name in ("exec_module", "load_module"):
            g = k.methods.get(name)
            if g is None:
                continue
            it = ctx.interp(loops=(0, 1))
            it.keep_pc = True
            it.raiser = lambda t: list(KINDS) if call_name(t) in (
                "exec", "builtins.exec") or by_loader(
                    t, "exec_module", "load_module") else ()
            source = any(last(cname(e)) == "collect" for p in ctx.paths_of(it, g)
                         for e in p.events if e.kind == "call")
            label = owner.name + "." + name
            for p in ctx.paths_of(it, g):
                if compiled_missing(p):
                    continue
                ex = executions(p, g)
                ctx.ob("executes", label, len(ex) == 1 and ex[0][2],
                       "executed {} times".format(len(ex)), g.site)
                if len(ex) != 1:
                    continue
                boom = [e for e in p.events if e.kind == "raised"]
                ctx.ob("executes", label + ":raises", (p.outcome == "raise") is bool(boom),
                       "the exception of the module is lost", g.site)
                if name == "load_module" and p.outcome == "return":
                    ctx.ob("executes", label + ":module", p.value is ex[0][0].term,
                           show(p.value), g.site)
                if p.outcome != "return":
                    continue
                adds = calls(p, "add_module")
                byp = [v for c, v in p.pc.items() if c.tag in ("truth", "bool") and
                       "bypass_modules" in show(c)]
                seen = False
                if source:
                    ins = [(x, inside_of(x)) for c in p.pc for x in subterms(c)
                           if inside_of(x) is not None]
                    for x, ok in ins:
                        ctx.ob("instrumented", label + ":directory", ok,
                               "a directory whose name starts with the name of the directory of "
                               "the script counts as inside", g.site)
                    for cname_, cv in sorted(vals.items()):
                        for inside in (False, True):
                            for bypass in (False, True):
                                if not possible(p, env_of(cv, inside, bypass)):
                                    continue
                                seen = True
                                want = cname_ == "all" or cname_ == "package" and inside
                                tested.add((label, cname_, inside, bypass))
                                ctx.ob("instrumented", "{}:{}:{}".format(
                                    label, cname_, "inside" if inside else "outside"),
                                    ex[0][1] is want, "instrumented" if ex[0][1] else
                                    "not instrumented", g.site)
                                ctx.ob("recorded", "{}:{}:{}:{}".format(
                                    label, cname_, "inside" if inside else "outside",
                                    "bypass" if bypass else "modules"),
                                    len(adds) == (1 if want or not bypass else 0),
                                    "{} times".format(len(adds)), g.site)
                else:
                    for bypass in (False, True):
                        if not possible(p, env_of(None, None, bypass)):
                            continue
                        tested.add((label, "", "", bypass))
                        ctx.ob("recorded", "{}:{}".format(
                            label, "bypass" if bypass else "modules"),
                            len(adds) == (0 if bypass else 1), "{} times".format(len(adds)),
                            g.site)
                for a in adds:
                    row(ctx, p, label, g, a, ex[0])
            if source:
                for c in vals:
                    for i in (False, True):
                        for b in (False, True):
                            ctx.ob("instrumented", "{}:{}:covered".format(label, c),
                                   (label, c, i, b) in tested, "no path", g.site)
    ctx.need("executes", 3)
    ctx.need("instrumented", 4)
    ctx.need("recorded", 4)


def compiled_missing(p):
    """The path assumes that the compiled code is None: rule compiled"""
    return any(c.tag == "cmp" and c.args[0] in ("Is", "Eq") and v and
               is_const(c.args[2]) and c.args[2].args[1] is None and
               "collect(" in show(c.args[1]) or
               c.tag == "truth" and not v and "collect(" in show(c.args[0])
               for c, v in p.pc.items())


def env_of(level, inside, bypass):
    def env(t):
        if t.tag == "attr":
            if t.args[1] in ("context", "_context") and level is not None:
                return level
            if t.args[1] == "bypass_modules":
                return bypass
        if inside is not None and inside_of(t) is not None:
            if t.tag == "cmp" and t.args[0] in ("NotEq", "NotIn", "IsNot"):
                return not inside
            return inside
        return UNKNOWN
    return env


def row(ctx, p, label, g, a, ex):
    add = ctx.project.func("now.collection.prov_deployment.deployment:Deployment.add_module")
    names = add.params()[1:]
    args = dict(zip(names, a.term.args[1]))
    args.update(dict(a.term.args[2]))
    ctx.ob("recorded", label + ":after", index_of(p, a) > index_of(p, ex[0]),
           "before the module ran", g.site)
    n = show(args.get("name", NONE))
    mod = "module" if ex[0].term is not None and not g.name == "load_module" else None
    ctx.ob("recorded", label + ":name", n.endswith(".__name__") and
           (mod is None or n == "module.__name__"), n, g.site)
    v = args.get("version", NONE)
    ctx.ob("recorded", label + ":version", v.tag == "call" and
           last(call_name(v)) == "get_version", show(v), g.site)
    vi = [i for i, e in enumerate(p.events) if e.kind == "call" and e.term is v]
    ctx.ob("recorded", label + ":version known", bool(vi) and vi[0] > index_of(p, ex[0]),
           "read before the module ran", g.site)
    cid = args.get("code_id", NONE)
    block = None
    if cid.tag == "item" and cid.args[0].tag == "call":
        block = cid.args[0]
    ok = block is not None and last(call_name(block)) in ("collect", "create_code_block") and \
        is_const(cid.args[1]) and cid.args[1].args[1] == 1
    ctx.ob("recorded", label + ":code block", ok, show(cid), g.site)
    path = args.get("path", NONE)
    if ok:
        ba = block.args[1]
        ctx.ob("recorded", label + ":path", len(ba) > 1 and
               (ba[1] is path or show(path) in show(ba[1]) or show(ba[1]) in show(path)),
               "{} / {}".format(show(path)[:60], show(ba[1])[:60] if len(ba) > 1 else ""), g.site)
    tr = args.get("transformed", const(False))
    if ex[1]:
        ctx.ob("recorded", label + ":transformed", tr.tag == "item" and
               block is not None and tr.args[0] is block and
               is_const(tr.args[1]) and tr.args[1].args[1] == 2 or
               is_const(tr) and tr.args[1] is True, show(tr), g.site)
        ctx.ob("executes", label + ":code", ex[3] is not None and ex[3].tag == "item" and
               last(call_name(ex[3].args[0])) == "collect" and
               is_const(ex[3].args[1]) and ex[3].args[1].args[1] == 0,
               show(ex[3]) if ex[3] is not None else "", g.site)
    else:
        ctx.ob("recorded", label + ":transformed", is_const(tr) and not tr.args[1], show(tr),
               g.site)


def attributes(ctx):
    ctx.rule("attributes", "a loader of the hook is of the class of the original loader, creates "
             "modules with it, and answers with its attributes")
    for owner, k in loader_classes(ctx):
        bases = [ast.unparse(b) for b in k.node.bases]
        ctx.ob("attributes", owner.name + ":class", any(
            b in ("type({})".format(x), x + ".__class__") for b in bases for x in LOADER), str(bases), k.site)
        g = k.methods.get("__getattr__")
        if ctx.ob("attributes", owner.name + ":attributes", g is not None, "not delegated", k.site):
            for p in ctx.interp().run(g):
                ctx.ob("attributes", owner.name + ":delegates", p.outcome == "return" and
                       any(
                    "getattr({}, {})".format(x, g.params()[1]) in show(p.value) for x in LOADER),
                       show(p.value), g.site)
        if "exec_module" in k.methods:
            g = k.methods.get("create_module")
            if ctx.ob("attributes", owner.name + ":create", g is not None,
                      "not delegated", k.site):
                for p in ctx.interp().run(g):
                    ctx.ob("attributes", owner.name + ":creates", p.outcome == "return" and
                           by_loader(p.value, "create_module") and
                           [show(x) for x in p.value.args[1]] == [g.params()[1]], show(p.value), g.site)
    ctx.need("attributes", 3)


def compiled(ctx):
    ctx.rule("compiled", "the collection of a definition returns the code compiled from its tree, "
             "its block, and whether it was transformed, and only the first one is the script")
    f = ctx.project.func("now.collection.prov_definition.definition:Definition.collect")
    it = ctx.interp(opaque_names={"parse"})
    for p in ctx.paths_of(it, f):
        if not ctx.ob("compiled", "returns", p.outcome == "return" and p.value.tag == "tuple" and
                      len(p.value.args) == 3, show(p.value)[:80], f.site):
            continue
        code, id_, tr = p.value.args
        pr = calls(p, "parse")
        if not ctx.ob("compiled", "parsed once", len(pr) == 1, "", f.site):
            continue
        t = pr[0].term
        ok = code.tag == "call" and len(code.args[1]) > 0 and code.args[1][0].tag == "item" and \
            code.args[1][0].args[0] is t and is_const(code.args[1][0].args[1]) and \
            code.args[1][0].args[1].args[1] == 0
        ctx.ob("compiled", "code", ok and call_name(code).lstrip(".") not in ("eval", "exec"),
               show(code)[:80], f.site)
        if ok:
            ctx.ob("compiled", "name and mode", [show(x) for x in code.args[1][1:3]] ==
                   [show(param("filename")), show(param("mode"))], show(code)[:120], f.site)
        for i, v in ((1, id_), (2, tr)):
            ctx.ob("compiled", "item {}".format(i), v.tag == "item" and v.args[0] is t and
                   is_const(v.args[1]) and v.args[1].args[1] == i, show(v)[:80], f.site)
        first = cond_value(p, lambda c: c.tag == "truth" and selfattr(c.args[0]) == "first")
        kinds = {x.args[1] for x in subterms(t) if is_const(x)}
        ctx.ob("compiled", "kind", first is not None and
               ("script" in kinds) is first and ("module" in kinds) is not first,
               str(kinds), f.site)
        sets = [e for e in p.events if e.kind == "setattr" and e.extra.args[0] == "first"]
        ctx.ob("compiled", "first once", not first or bool(sets) and
               is_const(sets[-1].extra.args[1]) and not sets[-1].extra.args[1].args[1],
               "every module is the script", f.site)
    ctx.need("compiled", 4)


def finder(ctx):
    ctx.rule("finder", "the finder answers with the specification of the interpreter, and only "
             "the loader is replaced, by one of the kind of module around the same loader")
    f = ctx.project.func(MOD + ":finder")
    for k in nested_classes(f):
        g = k.methods.get("find_spec")
        if g is None:
            continue
        ctx.ob("finder", "base", any("PathFinder" in ast.unparse(b) for b in k.node.bases),
               "other finder", k.site)
        it = ctx.interp(opaque_names={"create_source_loader", "create_generic_loader"})
        it.keep_pc = True
        for p in ctx.paths_of(it, g):
            found = [e for e in p.events if e.kind == "call" and
                     last(call_name(e.term)) == "find_spec"]
            if not ctx.ob("finder", "asks", len(found) == 1 and p.outcome == "return" and
                          len(found[0].term.args[1]) + len(found[0].term.args[2]) >= 2,
                          "{} times".format(len(found)), g.site):
                continue
            spec = found[0].term
            given = [show(x) for x in spec.args[1]] + [show(v) for _, v in spec.args[2]]
            ctx.ob("finder", "asks for the module", all(
                show(param(x)) in given for x in g.params()[1:]), str(given), g.site)
            none = cond_value(p, lambda c: c.tag == "cmp" and c.args[1] is spec and
                              is_const(c.args[2]) and c.args[2].args[1] is None)
            ctx.ob("finder", "answers", p.value is spec or none is True and is_const(p.value) and
                   p.value.args[1] is None, show(p.value)[:80], g.site)
            sets = [e for e in p.events if e.kind == "setattr"]
            orig = attr(spec, "loader")
            for e in sets:
                nm, v = e.extra.args
                ctx.ob("finder", "changes the loader only", e.term is spec and nm == "loader",
                       nm, g.site)
                made = [x.term for x in calls(p, "create_source_loader", "create_generic_loader")]
                ok = any(contains(v, m) for m in made)
                cached = v.tag == "item" and contains(v.args[1], orig) or any(
                    x.tag == "call" and last(call_name(x)) in ("get", "setdefault", "pop") and
                    contains(x, orig) for x in subterms(v))
                stored = any(x.kind == "setitem" and any(
                    contains(y, m) for y in x.extra.args for m in made) for x in p.events)
                ctx.ob("finder", "wraps this loader", ok or cached or stored, show(v)[:80],
                       g.site)
            for m in calls(p, "create_source_loader", "create_generic_loader"):
                vals = [v for v in m.term.args[1]] + [v for _, v in m.term.args[2]]
                ctx.ob("finder", "around the original", orig in vals, show(m.term)[:100], g.site)
                exact = cond_value(p, lambda c: c.tag == "cmp" and "SourceFileLoader" in show(c))
                neg = [c for c in p.pc if c.tag == "cmp" and "SourceFileLoader" in show(c)]
                if neg and neg[0].args[0] in ("NotEq", "IsNot", "NotIn"):
                    exact = not exact
                if exact is None:
                    exact = cond_value(p, lambda c: "SourceFileLoader" in show(c))
                is_src = last(cname(m)) == "create_source_loader"
                ctx.ob("finder", "kind of module", exact is is_src, show(m.term)[:100], g.site)
            has = cond_value(p, lambda c: c.tag == "cmp" and c.args[1] is orig and
                             is_const(c.args[2]) and c.args[2].args[1] is None)
            if none is False and has is False:
                ctx.ob("finder", "replaced", len(sets) == 1, "not instrumented", g.site)
    ctx.need("finder", 4)


def installed(ctx):
    ctx.rule("installed", "the finder of the run is the first one that is asked while the script "
             "runs")
    f = ctx.project.func("now.collection.prov_execution.execution:Execution.collect_provenance")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f and g.cls is not f.cls or
                    g.name == "configure")
    for p in returning(ctx.paths_of(it, f)):
        ex = calls(p, "exec")
        put = [e for e in calls(p, "insert") if "meta_path" in show(e.term) and
               "finder" in show(e.term)]
        if not ex:
            continue
        ctx.ob("installed", "before the script", len(put) == 1 and
               index_of(p, put[0]) < index_of(p, ex[0]) and
               is_const(put[0].term.args[1][0]) and put[0].term.args[1][0].args[1] == 0,
               "not first", f.site)
    g = ctx.project.func("now.collection.prov_definition.definition:Definition.__init__")
    it = ctx.interp(opaque_names={"finder"})
    for p in returning(ctx.paths_of(it, g)):
        s = [e for e in p.events if e.kind == "setattr" and e.extra.args[0] == "finder"]
        ctx.ob("installed", "finder of this run", bool(s) and
               "finder(" in show(s[-1].extra.args[1]) and "metascript" in show(s[-1].extra.args[1]),
               show(s[-1].extra.args[1])[:80] if s else "none", g.site)
    ctx.need("installed", 2)
