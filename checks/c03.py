"""Interchangeable storage engines.

The engine table is extracted from the content database; every call that the
package makes on the store is collected and bound against the signature of the
operation in each engine; abstract operations must be overridden in all of
them, and the arguments that an engine prepares for its store operation must
be the ones the operation takes.
"""
import ast

from vlib.rules import *
from checks.common import (fresh_name, engine_classes, resolve_engine, engine_method, accepts,
                           iter_functions)

RULES = ["registry", "operations", "overrides", "slots", "selection", "commit", "names", "placed"]
ASSUMPTIONS = ["Objects of the git libraries accept the calls that the engines make on them."]


def engines(ctx):
    out = {}
    for key, full in engine_classes(ctx):
        pair = resolve_engine(ctx, full)
        if pair is not None:
            out[full.rsplit(".", 1)[-1]] = pair
    return out


def registry(ctx):
    ctx.rule("registry", "every engine of the table exists")
    for key, full in engine_classes(ctx):
        ctx.ob("registry", key, resolve_engine(ctx, full) is not None, full)
    ctx.need("registry", 10)


def is_store(node, func):
    """The expression denotes the content database"""
    m = func.module
    if isinstance(node, ast.Name):
        r = m.resolve(node.id)
        return isinstance(r, tuple) and r[0] == "gvar" and r[2] == "content" and \
            r[1].endswith("now.persistence")
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and \
            node.value.id == "self" and func.cls is not None:
        for meth in func.cls.methods.values():
            for n in ast.walk(meth.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == node.attr:
                            r = m.resolve_expr(n.value.func)
                            if getattr(r, "name", "") == "ContentDatabase":
                                return True
    return False


def store_calls(ctx):
    for mname in sorted(ctx.project.modules):
        m = ctx.project.modules[mname]
        for f in iter_functions(m):
            ctx.functions[f.qual] = f.site
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                        and is_store(n.func.value, f):
                    yield f, n


def operations(ctx):
    ctx.rule("operations", "an operation that the package performs on the store is accepted by "
             "every engine with the arguments that are given")
    own = ctx.project.cls("now.persistence.content_database:ContentDatabase")
    engs = engines(ctx)
    for f, n in store_calls(ctx):
        op = n.func.attr
        if own.find_method(op) is not None:
            continue
        star = any(isinstance(a, ast.Starred) for a in n.args) or \
            any(k.arg is None for k in n.keywords)
        for name, pair in engs.items():
            site = "{}:{}".format(f.module.rel, n.lineno)
            construct = "{} in {}".format(name, f.short + "." + op)
            meth = engine_method(pair, op)
            if meth is None:
                ok = op in ("std_open", "io_open", "codecs_open", "os_open")
                ctx.ob("operations", construct, ok, "no such operation", site)
                continue
            ctx.ob("operations", construct,
                   accepts(meth.node, len(n.args), [k.arg for k in n.keywords], star),
                   "{} does not take {}".format(meth.qual, ast.unparse(n)), site)
    ctx.need("operations", 100)


def abstract(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and
                                           isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and \
        "NotImplementedError" in ast.unparse(body[0])


def overrides(ctx):
    ctx.rule("overrides", "every operation that the base engine leaves abstract is provided")
    for name, pair in engines(ctx).items():
        done = set()
        for c in pair[0].mro():
            for mname, f in c.methods.items():
                if abstract(f) and mname not in done:
                    done.add(mname)
                    meth = engine_method(pair, mname)
                    ok = meth is not None and not abstract(meth)
                    if ok:
                        a, b = f.node.args, meth.node.args
                        ok = accepts(meth.node, len(a.args) - 1, []) or bool(b.vararg)
                    ctx.ob("overrides", "{}.{}".format(name, mname), ok,
                           "{} is abstract or takes other arguments".format(
                               meth.qual if meth else mname), pair[0].site)
    ctx.need("overrides", 40)


def slots(ctx):
    ctx.rule("slots", "the prepared arguments are the ones that the store operation takes, each "
             "in the place of its meaning")
    for name, pair in engines(ctx).items():
        prep = engine_method(pair, "put_attr")
        do = engine_method(pair, "do_put")
        if prep is None or do is None:
            ctx.fail("slots", name, "no store operation", pair[0].site)
            continue
        it = ctx.interp(opaque_names={"_inc_name"})
        names = do.params()
        if "staticmethod" not in do.decorators:
            names = names[1:]
        for p in it.run(prep, cls=pair[0]):
            if p.outcome != "return":
                continue
            v = p.value
            ok = v.tag == "tuple" and len(v.args) == len(names)
            ctx.ob("slots", name + ":arity", ok, "{} -> ({})".format(show(v), ", ".join(names)),
                   prep.site)
            if not ok:
                continue
            for n, a in zip(names, v.args):
                if n in ("content", "data", "value"):
                    good = a is param("content")
                elif n in ("filename", "name", "path"):
                    good = "filename" in params_in(a)
                else:
                    good = "content" not in params_in(a) and "filename" not in params_in(a)
                    if n in ("content_path", "object_hashes", "lock"):
                        good = good and selfattr(a) == n
                ctx.ob("slots", "{}:{}".format(name, n), good, show(a), prep.site)
    ctx.need("slots", 15)


def selection(ctx):
    ctx.rule("selection", "the engine that the user names is the one that is used")
    f = ctx.project.func("now.persistence.content_database:ContentDatabase.define_engine")
    it = ctx.interp()
    cfg = attr(param(f.params()[1]), "content_engine")
    n = 0
    for p in ctx.paths_of(it, f):
        if p.outcome != "return":
            continue
        named = any((k is mk("cmp", "Is", cfg, NONE) or k is mk("cmp", "Eq", cfg, NONE))
                    and v is False for k, v in p.pc.items()) or \
            any(k is mk("truth", cfg) and v is True for k, v in p.pc.items())
        sets = [e for e in p.events if e.kind == "setattr" and
                e.extra.args[0] in ("content_database_engine",
                                    const("content_database_engine"))]
        ctx.ob("selection", "define_engine:sets", len(sets) >= 1, "no engine is set", f.site)
        if named and sets:
            n += 1
            ctx.ob("selection", "define_engine:named",
                   contains(sets[-1].extra.args[1], cfg),
                   "engine {} when one is named".format(show(sets[-1].extra.args[1])),
                   sets[-1].site)
    ctx.ob("selection", "define_engine:honoured", n > 0, "the configured engine is not looked at",
           f.site)


def commit(ctx):
    ctx.rule("commit", "committing a git store links every registered object under its name")
    f = ctx.project.func("now.persistence.content.gitbase:GitContentDatabaseEngine.commit_content")
    it = ctx.interp(opaque_names={"close", "new_tree", "insert_blob", "insert_tree",
                                  "write_tree", "create_commit_object", "_get_tree"},
                    loops=(1,))
    msg = param(f.params()[1])
    for p in ctx.paths_of(it, f):
        if p.outcome != "return":
            continue
        ins = [e for e in calls(p) if last(cname(e)) == "insert_blob"]
        good = False
        for e in ins:
            args = list(e.term.args[1]) + [v for _, v in e.term.args[2]]
            key = [t for a in args for t in subterms(a) if t.tag == "elem"]
            good = good or bool(key)
        ctx.ob("commit", "objects", good, "; ".join(show(e.term) for e in ins), f.site)
        com = [e for e in calls(p) if last(cname(e)) == "create_commit_object"]
        ctx.ob("commit", "created", len(com) == 1 and contains(com[0].term, msg),
               "; ".join(show(e.term) for e in com), f.site)
        wr = [index_of(p, e) for e in calls(p) if last(cname(e)) == "write_tree"]
        order = bool(com and ins and wr) and \
            max(index_of(p, e) for e in ins) < min(wr) < index_of(p, com[0])
        ctx.ob("commit", "order", order, "objects are inserted before the trees are written",
               f.site)


def names(ctx):
    ctx.rule("names", "every object is registered under a name that no other object has")
    cls = ctx.project.cls("now.persistence.content.gitbase:GitContentDatabaseEngine")
    f = cls.find_method("_inc_name")
    if f is None:
        raise AnalysisBroken("_inc_name not found")
    it = ctx.interp(loops=(0, 1), max_states=6000)
    for p in ctx.paths_of(it, f, cls=cls):
        if p.outcome != "return":
            continue
        r = p.value
        fresh = fresh_name(p, r)
        if fresh is False:
            continue               # the bound of the loop, not the end of the search
        ctx.ob("names", "_inc_name", fresh is True,
               "registers under {} without having looked for it".format(show(r))[:400], f.site)
    ctx.need("names", 1)


def placed(ctx):
    ctx.rule("placed", "the name of an object is relative to a directory only if the file is inside of "
             "it: a directory whose name merely begins the same is outside, and no tree can have ..")
    cls = ctx.project.cls("now.persistence.content.gitbase:GitContentDatabaseEngine")
    f = cls.find_method("_inc_name")
    if f is None:
        raise AnalysisBroken("_inc_name not found")
    it = ctx.interp(loops=(0, 1), max_states=6000)
    it.keep_pc = True
    for p in ctx.paths_of(it, f, cls=cls):
        for e in calls(p, "relpath"):
            base = arg(e.term, "start", 1)
            if base is None:
                continue
            about = [k for k, v in p.pc.items() if isinstance(k, T) and contains(k, base) and
                     not any(s.tag == "attr" and s.args[0].tag == "self" and show(s) != show(base)
                             for s in subterms(k))]
            bare = [k for k in about if is_prefix_only(k, base)]
            ctx.ob("placed", "relative to " + show(base)[-40:], len(about) > len(bare),
                   "decided by " + ("; ".join(show(k) for k in about) or "nothing")[:200], f.site)
    ctx.need("placed", 1)


def is_prefix_only(k, base):
    """The condition asks for a prefix of characters"""
    t = k.args[0] if k.tag == "truth" else k
    if t.tag == "cmp":
        # name[:len(base)] == base
        return any(show(x) == show(base) for x in t.args[1:]) and \
            not any(x.tag == "call" for x in t.args[1:]) or "find(" in show(t)
    if t.tag == "call" and last(call_name(t)) in ("startswith", "find", "index"):
        prefix = arg(t, "prefix", 0)
        return prefix is not None and show(prefix) == show(base)
    return False
