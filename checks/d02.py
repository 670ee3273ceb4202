"""Trials that are exported, sent or imported arrive with every record.

The functions that build, write, read and store bundles are interpreted
abstractly and matched with the declared tables: every column leaves under its
own key and comes back into its own attribute, every kind of record passes all
stages, only the selected trials are taken, and the content goes with them.
"""
import ast

from vlib.rules import *
from vlib.project import ClassInfo
from checks import records as rec

RULES = ["keys", "rebuilt", "stages", "selection", "transfer", "listing",
         "names"]
ASSUMPTIONS = ["JSON preserves the values of columns (numbers, strings, null)."]

BUNDLE = "now.persistence.lightweight.bundle:BundleLW"
COLLAB = "now.utils.collab:"


def bundled(ctx):
    """Records of the classes that bundles carry"""
    names = set()
    f = ctx.project.cls(BUNDLE).find_method("from_json")
    for p in one(ctx, f):
        for e in p.events:
            if e.kind == "new":
                names.add(last(cname(e)))
    return [r for r in rec.records(ctx) if r.name in names]


def one(ctx, f, inline=()):
    lw = {r.cls.qual for r in rec.records(ctx)}

    def opaque(g):
        if g is f or g.parent is not None:
            return False
        if g.cls is not None and (g.name == "__init__" and g.cls.qual in lw or
                                  ".models" in g.module.name or g.name == "__json__"):
            return True
        if g.cls is not None and g.cls.name in ("ObjectStore", "SharedObjectStore"):
            return True
        return g.name in ("__json__", "export_bundle", "import_bundle", "from_json", "strptime")
    it = ctx.interp(loops=(1,), opaque_fn=opaque)
    return returning(ctx.paths_of(it, f))


def keys_of(t):
    """Constant keys and attribute names that select parts of an element"""
    out = set()
    for x in subterms(t):
        if x.tag == "item" and x.args[0].tag == "elem" and strval(x.args[1]) is not None:
            out.add(strval(x.args[1]))
        elif x.tag == "attr" and x.args[0].tag == "elem":
            out.add(x.args[1])
        elif x.tag == "call" and last(call_name(x)) in ("get", "getattr") and x.args[1]:
            k = x.args[1][1] if last(call_name(x)) == "getattr" and len(x.args[1]) > 1 \
                else x.args[1][0]
            if strval(k) is not None:
                out.add(strval(k))
    return out


def args_by_param(ctx, cls, t):
    params = rec.param_names(cls)
    out = dict(zip(params, t.args[1]))
    out.update({k: v for k, v in t.args[2]})
    return out


def keys(ctx):
    ctx.rule("keys", "the exported form of a record has every column, under its own name and "
             "with its own value")
    for r in bundled(ctx):
        f = r.cls.find_method("__json__")
        if f is None:
            ctx.fail("keys", r.name, "cannot be exported", r.cls.site)
            continue
        it = ctx.interp(loops=(0, 1))
        for p in returning(ctx.paths_of(it, f)):
            d = p.value
            pairs = {}
            if d.tag == "dict":
                for x in d.args:
                    if x.tag == "pair" and strval(x.args[0]) is not None:
                        pairs[strval(x.args[0])] = x.args[1]
            for c in r.table.columns:
                if r.table.auto(c):
                    continue
                v = pairs.get(c)
                k = "{}.{}".format(r.name, c)
                if not ctx.ob("keys", k, v is not None, "not exported", f.site):
                    continue
                own = {x.args[1] for x in subterms(v) if selfattr(x) is not None}
                missing = is_const(v) and any(
                    mentions_attr(c2, c) for c2 in p.pc)
                ctx.ob("keys", k, own == {c} or missing,
                       "exports {}".format(show(v)), f.site)
    ctx.need("keys", 70)


def mentions_attr(t, name):
    return any(x.tag == "attr" and x.args[1] == name for x in subterms(t))


def changed(ctx, t, table, column):
    """Operation that changes the value on its way, other than reading it from
    the element or parsing a time
    """
    if t.tag == "elem" or is_const(t):
        return None
    if t.tag in ("attr", "item"):
        return changed(ctx, t.args[0], table, column)
    if t.tag == "call":
        n = last(call_name(t))
        if n in ("get", "getattr"):
            return None
        if n in ("strptime", "returnDateTimeInfo") or "DateTime" in n:
            return None
        return n
    return t.tag


def rebuilt(ctx):
    ctx.rule("rebuilt", "records are built for and from a bundle with the value of each column in "
             "its own place")
    byname = {r.name: r for r in rec.records(ctx)}
    for f in (ctx.project.cls(BUNDLE).find_method("from_json"),
              ctx.project.func(COLLAB + "export_bundle")):
        for p in one(ctx, f):
            for e in p.events:
                if e.kind != "new" or last(cname(e)) not in byname:
                    continue
                r = byname[last(cname(e))]
                args = args_by_param(ctx, r.cls, e.term)
                flows = rec.init_flow(ctx, r.cls)
                for c in r.columns:
                    k = "{} {}.{}".format(f.name, r.name, c)
                    ps = set()
                    for values, path in flows:
                        if c in values:
                            ps |= params_in(values[c])
                    given = set()
                    for q in ps:
                        if q in args:
                            given |= keys_of(args[q])
                    ctx.ob("rebuilt", k, c in given, "rebuilt from {}".format(
                        ", ".join(sorted(given)) or "nothing"), f.site)
                    for q in ps:
                        done = changed(ctx, args[q], r.table, c) if q in args else None
                        ctx.ob("rebuilt", k + " unchanged", not done,
                               "changed by {}".format(done), f.site)
                # the parameter that bears the name of a column
                for q, v in args.items():
                    hit = [c for c in r.columns if rec.norm(c) == rec.norm(q)]
                    got = keys_of(v)
                    if hit and got:
                        ctx.ob("rebuilt", "{} {}({})".format(f.name, r.name, q),
                               hit[0] in got, "receives {}".format(sorted(got)), f.site)
    # times are written and read in the same form
    formats = {}
    for cls in [ctx.project.cls(BUNDLE)] + [r.cls for r in rec.records(ctx)]:
        for m in cls.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Call) and rec._name(n.func) in ("strftime", "strptime"):
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            formats.setdefault(a.value, []).append(m.short)
    if formats:
        ctx.ob("rebuilt", "format of times", len(formats) == 1, str(formats),
               ctx.project.cls(BUNDLE).site)
    ctx.need("rebuilt", 150)


def stages(ctx):
    ctx.rule("stages", "every kind of record that is exported is written, read and stored under "
             "one name")
    byname = {r.name: r for r in rec.records(ctx)}
    bundle = ctx.project.cls(BUNDLE)
    read = {}
    f = bundle.find_method("from_json")
    for p in one(ctx, f):
        for name, value in filled(p):
            for x in subterms(value):
                if x.tag in ("new",) and last(call_name(x)) in byname:
                    src = {strval(y.args[1]) for y in subterms(x) if y.tag == "item" and
                           y.args[0].tag == "param"} - {None}
                    read[name] = (last(call_name(x)), src)
    f2 = ctx.project.func(COLLAB + "export_bundle")
    exported = {}
    for p in one(ctx, f2):
        for name, value in filled(p, "new"):
            for x in subterms(value):
                if x.tag == "new" and last(call_name(x)) in byname:
                    src = {last(show(y.args[0]).split("(")[0].rsplit(".", 1)[0])
                           for y in subterms(x) if y.tag == "elem"}
                    exported[name] = (last(call_name(x)), src)
    f3 = bundle.find_method("__json__")
    written = {}
    it = ctx.interp(loops=(1,), opaque_fn=lambda g: g is not f3 and g.name == "__json__")
    for p in returning(ctx.paths_of(it, f3)):
        if p.value.tag == "dict":
            for x in p.value.args:
                if x.tag == "pair":
                    written[strval(x.args[0])] = {
                        y.args[1] for y in subterms(x.args[1]) if selfattr(y) is not None}
    f4 = ctx.project.func(COLLAB + "import_bundle")
    stored, imported = {}, []
    for p in one(ctx, f4):
        pending, here = {}, set()
        for e in p.events:
            if e.kind != "call":
                continue
            n = last(cname(e))
            base = receiver(e.term)
            if n.startswith("add") and base is not None:
                for y in subterms(e.term):
                    if y.tag == "elem" and y.args[0].tag == "attr":
                        cls = [v for _, v in base.args[2]] + list(base.args[1]) \
                            if base.tag == "new" else []
                        pending[y.args[0].args[1]] = (base, show(cls[0]) if cls else "")
            elif n == "do_store" and base is not None:
                partial = [v for v in list(e.term.args[1]) + [v for _, v in e.term.args[2]]
                           if not (is_const(v) and not v.args[1])]
                for k, (b, c) in pending.items():
                    if b is base and not partial:
                        stored[k] = c
                        here.add(k)
        imported.append(here)
    for n in sorted(stored):
        ctx.ob("stages", "{} always stored".format(n), all(n in x for x in imported),
               "some records are skipped", f4.site)
    every = [{name for name, value in filled(p, "new") if any(
        x.tag == "new" for x in subterms(value))} for p in one(ctx, f2)]
    for n in sorted(exported):
        if exported[n][0] not in ("TrialLW", "UserLW"):
            ctx.ob("stages", "{} always exported".format(n), all(n in x for x in every),
                   "some records are skipped", f2.site)
    every = [{name for name, value in filled(p) if any(
        x.tag == "new" for x in subterms(value))} for p in one(ctx, f)]
    for n in sorted(read):
        ctx.ob("stages", "{} always read".format(n), all(n in x for x in every),
               "some records are skipped", f.site)
    names = set(read) | set(exported) | set(stored)
    for n in sorted(names):
        ctx.ob("stages", "{} exported".format(n), n in exported, "left out", f2.site)
        ctx.ob("stages", "{} read".format(n), n in read, "left out", f.site)
        ctx.ob("stages", "{} stored".format(n), n in stored, "left out", f4.site)
        kinds = {x for x in (exported.get(n, ("",))[0], read.get(n, ("",))[0],
                             last(stored.get(n, ""))) if x}
        ctx.ob("stages", "{} kind".format(n), len(kinds) == 1, str(sorted(kinds)), f4.site)
        if n in read:
            keys = [k for k, v in written.items() if n in v]
            ctx.ob("stages", "{} written".format(n), set(keys) == read[n][1] and
                   all(written[k] == {n} for k in keys),
                   "written as {}, read from {}".format(keys, sorted(read[n][1])), f3.site)
        if n in exported and kinds:
            model = byname[exported[n][0]].table.name
            ctx.ob("stages", "{} source".format(n), exported[n][1] == {model},
                   "taken from {}".format(sorted(exported[n][1])), f2.site)
    # every kind of record that a trial owns takes part
    owned = {r.name for r in rec.records(ctx) if "trial_id" in r.table.columns and
             r.name != "ExceptionLW"} | {"TrialLW"}
    for r in sorted(owned):
        ctx.ob("stages", "{} takes part".format(r), any(v[0] == r for v in exported.values()),
               "is left behind", f2.site)
    ctx.need("stages", 60)


def receiver(t):
    fn = t.args[0]
    return fn.args[0] if isinstance(fn, T) and fn.tag in ("attr", "bound") else None


def filled(p, base=None):
    """(attribute, value) that the path puts into lists of the bundle"""
    for e in p.events:
        if e.kind == "setattr":
            yield e.extra.args[0], e.extra.args[1]
        elif e.kind == "call" and last(cname(e)) in ("extend", "append") and \
                receiver(e.term) is not None and receiver(e.term).tag == "attr":
            yield receiver(e.term).args[1], e.term.args[1][0]


def selection(ctx):
    ctx.rule("selection", "exactly the requested trials and users are exported")
    f = ctx.project.func(COLLAB + "export_bundle")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f and g.parent is None)
    first, second = [x.arg for x in f.node.args.args][:2]
    n = 0
    for p in returning(ctx.paths_of(it, f)):
        for e in p.events:
            if e.kind == "call" and last(cname(e)) == "load_by_trials":
                n += 1
                a = list(e.term.args[1]) + [v for _, v in e.term.args[2]]
                ctx.ob("selection", show(e.term).split("(")[0], a[:1] == [param(first)],
                       "not the requested trials", f.site)
            if e.kind == "new" and last(cname(e)) in ("TrialLW", "UserLW"):
                want = first if last(cname(e)) == "TrialLW" else second
                hit = [c for c, v in p.pc.items() if c.tag == "cmp" and c.args[0] == "In" and v and
                       c.args[2] is param(want) and c.args[1].tag == "attr" and
                       c.args[1].args[1] == "id"]
                direct = any(param(want) in (list(x.args[1]) + [v for _, v in x.args[2]])
                             for x in subterms(e.term) if x.tag == "call")
                ctx.ob("selection", last(cname(e)), bool(hit) or direct,
                       "not only the requested", f.site)
    g = ctx.project.func("now.persistence.models.base:AlchemyProxy.load_by_trials")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda h: h is not g and h.parent is None)
    arg0 = [x.arg for x in g.node.args.args][1]
    for p in returning(ctx.paths_of(it, g)):
        inn = [x for x in subterms(p.value) if x.tag == "call" and last(call_name(x)) == "in_"]
        ok = inn and param(arg0) in inn[0].args[1] and mentions_attr(inn[0].args[0], "trial_id")
        extra = [x for x in subterms(p.value) if x.tag == "call" and
                 last(call_name(x)) in ("limit", "first", "one", "offset", "distinct")]
        ctx.ob("selection", "load_by_trials", bool(ok) and not extra, show(p.value)[:200], g.site)
    ctx.need("selection", 10)


def transfer(ctx):
    ctx.rule("transfer", "commands move the content and the records of every trial that the other "
             "side does not have")
    # import: source -> target
    f = ctx.project.func("now.cmd.cmd_import:Import.execute")

    def opaque(g):
        return g is not f and g.parent is None and g.name not in ("populate", "import_content",
                                                                  "addFile")
    it = ctx.interp(loops=(1,), opaque_fn=opaque)
    for p in returning(ctx.paths_of(it, f)):
        where = None
        seq = []
        for e in p.events:
            if e.kind != "call":
                continue
            s = show(e.term)
            n = last(cname(e))
            if n in ("connect", "connect_existing") and "persistence_config" in s:
                where = "source" if ".source" in s else "target" if (
                    ".target" in s or "getcwd" in s) else "?"
            if n in ("all", "export_bundle", "import_bundle"):
                seq.append((n, where, e.term))
        sources = [x for x in seq if x[0] == "export_bundle"]
        targets = [x for x in seq if x[0] == "import_bundle"]
        ctx.ob("transfer", "import reads the source", len(sources) == 1 and
               sources[0][1] == "source", str([(a, b) for a, b, _ in seq]), f.site)
        ctx.ob("transfer", "import writes the target", len(targets) == 1 and
               targets[0][1] == "target" and any(
                   x is sources[0][2] for x in subterms(targets[0][2])) if sources else False,
               "the bundle of the source is not stored", f.site)
        # the content goes from the store of the source to that of the target
        role = {}
        for e in p.events:
            if e.kind == "call" and last(cname(e)) in ("connect", "connect_existing"):
                role[receiver(e.term)] = "source" if ".source" in show(e.term) else "target"
        dbs = {}
        for e in p.events:
            if e.kind == "new" and last(cname(e)) == "ContentDatabase":
                for v in list(e.term.args[1]) + [v for _, v in e.term.args[2]]:
                    dbs[e.term] = role.get(v)
        skip = any(c.tag == "cmp" and c.args[0] in ("In", "NotIn") and
                   v is (c.args[0] == "In") for c, v in p.pc.items())
        if not skip:
            ok = False
            for e in calls(p, "put"):
                for x in subterms(e.term):
                    if x.tag == "call" and last(call_name(x)) == "get":
                        ok = dbs.get(receiver(e.term)) == "target" and \
                            dbs.get(receiver(x)) == "source"
            ctx.ob("transfer", "import copies content", ok, "content is not copied", f.site)
            after = [index_of(p, e) for e in calls(p, "commit_content")]
            ctx.ob("transfer", "import keeps content", bool(after) and max(after) > max(
                [index_of(p, e) for e in calls(p, "put")] or [0]),
                "the copied content is not committed", f.site)
    # what is left out is exactly what the other side has
    for q, inline in (("now.cmd.cmd_import:Import.execute", ("import_content",)),
                      ("now.cmd.cmd_push:Push.exportTrials", ()),
                      ("now.cmd.cmd_push:Push.exportFiles", ()),
                      ("now.cmd.cmd_pull:Pull.importTrials", ()),
                      ("now.cmd.cmd_pull:Pull.importFiles", ())):
        f = ctx.project.func(q)
        it = ctx.interp(loops=(1,), opaque_fn=lambda g: g is not f and g.parent is None and
                        g.name not in inline)
        for p in returning(ctx.paths_of(it, f)):
            if invalid(p):
                continue
            sent = [e for e in p.events if e.kind in ("call", "new") and last(cname(e)) in SINKS]
            for c, v in p.pc.items():
                if c.tag == "truth" and ends_in_elem(c.args[0]):
                    ctx.fail("transfer", f.short + " condition", show(c)[:120], f.site)
                if c.tag != "cmp" or c.args[0] not in ("In", "NotIn", "Eq"):
                    continue
                elem = c.args[1]
                if c.args[0] == "Eq" and not any(x.tag == "elem" for x in subterms(c.args[2])):
                    continue
                if not any(x.tag == "elem" for x in subterms(elem)):
                    continue
                absent = v is (c.args[0] == "NotIn")
                both = [elem] + ([c.args[2]] if c.args[0] == "Eq" else [])
                used = any(contains_elem(e.term, x) for e in sent for x in both)
                k = "{} {}".format(f.short, "what is absent" if absent else "what is present")
                ctx.ob("transfer", k, used is absent, show(elem)[:80] + (
                    " is left out" if absent else " is sent again"), f.site)
    # the received bundle is stored
    for q in ("now.cmd.cmd_pull:Pull.importTrials",):
        f = ctx.project.func(q)
        for p in one(ctx, f):
            imp = calls(p, "import_bundle")
            if invalid(p):
                continue
            loaded = [e for e in calls(p, "from_json")]
            ctx.ob("transfer", f.short + " stores", len(imp) == 1 and len(loaded) == 1 and
                   index_of(p, loaded[0]) < index_of(p, imp[0]), "not stored", f.site)
    ctx.need("transfer", 6)


def ends_in_elem(t):
    while t.tag in ("attr", "item"):
        t = t.args[0]
    return t.tag == "elem"


def list_items(t):
    return list(t.args) if t.tag == "list" else []


ENGINES = ("PlainEngine", "PyGitEngine", "DulwichEngine", "PureGitEngine")


def listing(ctx):
    ctx.rule("listing", "the content that is offered for a transfer is listed by the names under "
             "which the engine finds it, and only content is listed")
    f = ctx.project.func("now.persistence.content_database:ContentDatabase.listAll")
    it = ctx.interp(loops=(0, 1))
    for p in returning(ctx.paths_of(it, f)):
        v = p.value
        own = v.tag == "call" and any(selfattr(x) == "content_database_engine"
                                      for x in subterms(v))
        ctx.ob("listing", "ContentDatabase", own and v.args[0].tag == "attr",
               "not the list of the engine: " + show(v)[:100], f.site)
        name = last(call_name(v)) if v.tag == "call" else "list_all"
    for cls in ctx.project.all_classes("now.persistence.content"):
        if cls.name not in ENGINES:
            continue
        g = cls.find_method(name)
        if not ctx.ob("listing", cls.name, g is not None, "cannot list", cls.site):
            continue
        if g.cls.name == "ContentDatabaseEngine":
            ctx.fail("listing", cls.name, "cannot list", cls.site)
            continue
        src = ast.unparse(g.node)
        it = ctx.interp(loops=(1,), opaque_names={"use_safe_open", "execute"})
        reads = cls.find_method("get")
        plain = {"open", "std_open"} & {rec._name(n.func) for n in ast.walk(reads.node)
                           if isinstance(n, ast.Call)}
        some = False
        for p in returning(ctx.paths_of(it, g)):
            walks = any("walk" in cname(e) for e in p.events if e.kind == "call")
            ctx.ob("listing", cls.name + " source", walks is bool(plain),
                   "names are files of the directory" if walks else "files are not listed", g.site)
            if plain:
                for a in list_items(p.value):
                        some = True
                        ok = a.tag == "binop" and a.args[0] == "Add" and "basename" in show(
                            a.args[1]) and "basename" not in show(a.args[2])
                        ctx.ob("listing", cls.name + " name", ok, show(a)[:100], g.site)
            else:
                # elements that are listed are of the kind of contents
                listed = p.value.tag == "list" and len(p.value.args) > 0
                kind = [v for c, v in p.pc.items() if "Blob" in show(c) or "'blob'" in show(c)]
                if listed:
                    some = True
                ctx.ob("listing", cls.name + " kind", bool(kind) and kind[-1] is listed,
                       "lists what is not content" if listed else "content is left out", g.site)
        ctx.ob("listing", cls.name + " lists", some, "nothing is listed", g.site)
    ctx.need("listing", 10)


def names(ctx):
    ctx.rule("names", "content that is received is stored under the name by which the records "
             "that come with it refer to it")
    lost = []
    for f in ctx.project.all_funcs():
        if not any(x in f.module.name for x in (".cmd.cmd_import", ".cmd.cmd_pull", ".vis.views")):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == "put" and "ontent" in ast.unparse(n.func.value):
                used = not any(isinstance(s, ast.Expr) and s.value is n for s in ast.walk(f.node))
                if not used:
                    lost.append("{} {}:{}".format(f.short, f.module.rel, n.lineno))
    ctx.ob("names", "content of another engine", not lost,
           "the name that the store gives to the content is ignored in " + ", ".join(lost))


def invalid(p):
    """The path assumes that the server did not know the experiment"""
    return any(c.tag == "cmp" and c.args[0] == "Eq" and v and
               any(strval(x) is not None or x.tag == "attr" for x in c.args[1:]) and
               not any(x.tag == "elem" for x in subterms(c)) for c, v in p.pc.items())


SINKS = {"export_bundle", "put", "addFile", "importFile", "writestr", "get", "import_bundle"}


def contains_elem(t, elem):
    base = elem
    while base.tag in ("attr", "item") and base.tag != "elem":
        base = base.args[0]
    return contains(t, base)
