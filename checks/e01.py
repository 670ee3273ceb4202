"""However the script ends, its trial is stored with the outcome.

The path from the command to the database is interpreted abstractly with a
script that may raise anything: nothing escapes the execution, what it leaves
as outcome decides the stored status, and every path of the run writes every
store of the collected records, the outcome, and the content.
"""
import ast

from vlib.rules import *
from checks import records as rec

RULES = ["ends", "status", "row", "saved", "stores", "last_file"]
ASSUMPTIONS = ["The process is not killed and the database can be written."]

EXE = "now.collection.prov_execution.execution:Execution"
OPEN = {"configure", "new_open", "debugger_builtins", "compile", "print_msg"}


KINDS = ("SystemExit", "KeyboardInterrupt", "GeneratorExit", "ValueError", "RecursionError")


def endings(ctx):
    """Paths of the execution for a script that may end in every way"""
    f = ctx.project.func(EXE + ".collect_provenance")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f and g.parent is None and
                    g.cls is not f.cls or g.name in OPEN)
    it.keep_pc = True
    it.raiser = lambda t: list(KINDS) \
        if call_name(t) in ("exec", "builtins.exec") else ()
    return f, ctx.paths_of(it, f)


def outcome(p):
    vals = [e.extra.args[1] for e in p.events if e.kind == "setattr" and
            e.extra.args[0] == "force_msg" and e.term.tag == "self"]
    return vals[-1] if vals else None


def ends(ctx):
    ctx.rule("ends", "nothing that the script raises escapes the execution, and only a normal end "
             "or an exit without an error status counts as success")
    f, paths = endings(ctx)
    kinds = set()
    for p in paths:
        ex = calls(p, "exec")
        if not ctx.ob("ends", "the script is executed", len(ex) == 1, "not once", f.site):
            continue
        ctx.ob("ends", "escapes", p.outcome == "return",
               "{} escapes".format(show(p.value) if p.value is not None else ""), f.site)
        if p.outcome != "return":
            continue
        r = raised(p)
        v = outcome(p)
        kinds.add(r)
        if r is None:
            ctx.ob("ends", "normal end", v is not None and is_const(v) and not v.args[1],
                   "is not a success: " + show(v) if v is not None else "no outcome", f.site)
        elif r == "SystemExit":
            ok = v is not None and exit_status(v, p)
            ctx.ob("ends", "exit of the script", ok, "outcome {}".format(
                show(v) if v is not None else "missing"), f.site)
        else:
            ctx.ob("ends", "uncaught " + r, v is not None and is_const(v) and bool(v.args[1]),
                   "is not a failure", f.site)
        # the hook of the imports does not outlive the script
        put = [e for e in calls(p, "insert", "append") if "meta_path" in show(e.term)]
        if put:
            out = [e for e in calls(p, "remove", "pop") if "meta_path" in show(e.term)]
            gone = any(c.tag == "cmp" and c.args[0] in ("In", "NotIn") and
                       "meta_path" in show(c) and v2 is (c.args[0] == "NotIn")
                       for c, v2 in p.pc.items())
            ctx.ob("ends", "import hook", gone or bool(out) and
                   index_of(p, out[-1]) > index_of(p, ex[0]), "stays installed", f.site)
    ctx.ob("ends", "kinds of ends", {None} | set(KINDS) <= kinds,
           str(kinds), f.site)
    ctx.need("ends", 5)


def raised(p):
    """Name of the exception of the script on the path"""
    for e in p.events:
        if e.kind == "raised":
            for n in KINDS:
                if e.extra is not None and n in show(e.extra):
                    return n
    return None


def exit_status(v, p):
    """The outcome is a failure exactly if the code is neither None nor 0"""
    if v.tag == "bool":
        c = v.args[0]
        neg = bool(v.args[1])
        if c.tag == "cmp" and code_of(c.args[1]):
            if c.args[0] in ("In", "NotIn"):
                fail = (c.args[0] == "NotIn") is neg
                return fail and constants(c.args[2]) == {None, 0}
    if is_const(v):
        # decided on the path
        codes = {}
        for c, val in p.pc.items():
            if c.tag == "truth" and code_of(c.args[0]):
                return False        # an empty message is an error status
            if c.tag == "cmp" and code_of(c.args[1]):
                if c.args[0] in ("In", "NotIn"):
                    inside = val is (c.args[0] == "In")
                    return constants(c.args[2]) == {None, 0} and inside is (not v.args[1])
                if c.args[0] in ("Eq", "Is", "NotEq", "IsNot") and is_const(c.args[2]):
                    same = val is (c.args[0] in ("Eq", "Is"))
                    codes[c.args[2].args[1]] = same
        if any(s for c, s in codes.items()):
            return not v.args[1] and all(c in (None, 0) for c, s in codes.items() if s)
        return set(codes) >= {None, 0} and bool(v.args[1])
    return False


def code_of(t):
    return t.tag == "attr" and t.args[1] == "code" or t.tag == "item" and "args" in show(t)


def constants(t):
    return {x.args[1] if is_const(x) else "?" for x in t.args} if t.tag in (
        "tuple", "list", "set") else ({*t.args[1]} if is_const(t) and
                                      isinstance(t.args[1], (tuple, frozenset)) else {"?"})


def status(ctx):
    ctx.rule("status", "the stored status is finished exactly if the script succeeded, and the "
             "last write is not a partial one")
    f = ctx.project.func(EXE + ".store_provenance")
    it = ctx.interp(opaque_fn=lambda g: g is not f and g.cls is not f.cls)
    seen = set()
    for p in returning(ctx.paths_of(it, f)):
        st = calls(p, "store")
        if not ctx.ob("status", "written once", len(st) == 1, "{} times".format(len(st)), f.site):
            continue
        fn = ctx.project.func("now.collection.prov_execution.collector:Collector.store")
        names = fn.params()[1:]
        args = dict(zip(names, st[0].term.args[1]))
        args.update(dict(st[0].term.args[2]))
        failed = cond_value(p, lambda c: c.tag == "truth" and selfattr(c.args[0]) == "force_msg")
        s = strval(args.get("status", const("running")))
        if failed is None or s is None:
            ctx.fail("status", "decided", show(args.get("status", NONE)), f.site)
            continue
        seen.add(failed)
        ctx.ob("status", "failure" if failed else "success",
               (s == "finished") is (not failed) and s != "running", s, f.site)
        part = args.get("partial", NONE)
        ctx.ob("status", "final write", is_const(part) and not part.args[1], show(part), f.site)
    ctx.ob("status", "both", seen == {True, False}, str(seen), f.site)
    ctx.need("status", 5)


def row(ctx):
    ctx.rule("row", "the outcome goes into the row of this trial: status, end and main block")
    f = ctx.project.func("now.collection.prov_execution.collector:Collector.store")
    g = ctx.project.func("now.persistence.models.trial:Trial.fast_update")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda h: h is not f)
    for p in returning(ctx.paths_of(it, f)):
        up = calls(p, "fast_update")
        partial = cond_value(p, lambda c: c.tag == "truth" and c.args[0] is param("partial"))
        if partial:
            continue
        if not ctx.ob("row", "written", len(up) == 1, "not written", f.site):
            continue
        names = g.params()[1:]
        args = dict(zip(names, up[0].term.args[1]))
        args.update(dict(up[0].term.args[2]))
        ctx.ob("row", "trial", show(args.get("trial_id", NONE)).endswith(".trial_id"),
               show(args.get("trial_id", NONE)), f.site)
        ctx.ob("row", "main block", show(args.get("main_id", NONE)).endswith(".main_id"),
               show(args.get("main_id", NONE)), f.site)
        ctx.ob("row", "status", args.get("status") is param("status"),
               show(args.get("status", NONE)), f.site)
        ctx.ob("row", "end", args.get("finish") is not None and
               args["finish"].tag == "call" and last(call_name(args["finish"])) in (
                   "now", "today"), show(args.get("finish", NONE)), f.site)
        # nothing is recorded after the outcome: it is the last write
        later = [e for e in p.events[index_of(p, up[0]):] if e.kind == "call" and
                 last(cname(e)) == "do_store"]
        ctx.ob("row", "after the records", not later, "records are written later", f.site)
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda h: h is not g)
    for p in returning(ctx.paths_of(it, g)):
        ex = calls(p, "execute")
        ok = len(ex) == 1
        up = [x for x in subterms(ex[0].term) if x.tag == "call" and
              last(call_name(x)) == "values"] if ok else []
        if not ctx.ob("row", "update", bool(up), "no update", g.site):
            continue
        vals = dict(up[0].args[2])
        for k in ("main_id", "finish", "status"):
            ctx.ob("row", "update " + k, vals.get(k) is param(k), show(vals.get(k, NONE)), g.site)
        w = [x for x in subterms(ex[0].term) if x.tag == "call" and
             last(call_name(x)) in ("where", "filter")]
        ok = bool(w) and any(x.tag in ("cmp", "bool") and contains(x, param("trial_id")) and
                             ".id" in show(x) for x in subterms(w[0]))
        ctx.ob("row", "update of this trial", ok, "another trial changes", g.site)
        cm = calls(p, "commit")
        ctx.ob("row", "update committed", bool(cm) and index_of(p, cm[-1]) > index_of(p, ex[0]),
               "not committed", g.site)
    ctx.need("row", 10)


def run_paths(ctx):
    f = ctx.project.func("now.cmd.cmd_run:run")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f and g.module is not f.module)
    it.raiser = lambda t: ["Exception*"] if last(call_name(t)) in (
        "collect_provenance", "store_provenance", "create") else ()
    return f, ctx.paths_of(it, f)


PARTS = ("deployment", "definition", "execution")


def saved(ctx):
    ctx.rule("saved", "a run that collects an execution writes each part of the provenance once, "
             "after the execution, and then the tag and the content")
    f, paths = run_paths(ctx)
    n = 0
    for p in paths:
        if p.outcome != "return":
            continue
        n += 1
        order = [e for e in calls(p, "collect_provenance") if ".execution" in show(e.term)]
        if not ctx.ob("saved", "executed", len(order) == 1, "not once", f.site):
            continue
        at = index_of(p, order[0])
        for part in PARTS:
            st = [e for e in calls(p, "store_provenance")
                  if part in {x.args[1] for x in subterms(e.term) if x.tag == "attr"}]
            ctx.ob("saved", part, len(st) == 1 and index_of(p, st[0]) > at,
                   "written {} times".format(len(st)), f.site)
        new = [e for e in calls(p, "create") if "Trial" in show(e.term)]
        ids = [e for e in p.events if e.kind == "setattr" and e.extra.args[0] == "trial_id"]
        ctx.ob("saved", "trial created", len(new) == 1 and bool(ids) and
               ids[0].extra.args[1] is new[0].term and index_of(p, new[0]) < at,
               "not created before the execution", f.site)
        dep = [e for e in calls(p, "collect_provenance") if ".deployment" in show(e.term)]
        ctx.ob("saved", "deployment collected", len(dep) == 1 and index_of(p, dep[0]) < at,
               "not before the execution", f.site)
        end = [index_of(p, e) for e in calls(p, "store_provenance")]
        for what in ("create_automatic_tag", "commit_content"):
            ev = calls(p, what)
            ctx.ob("saved", what, len(ev) == 1 and end and index_of(p, ev[0]) > max(end),
                   "missing or early", f.site)
        args = calls(p, "create_arguments")
        st = [e for e in calls(p, "store") if "arguments_store" in show(e.term)] + \
            [e for e in calls(p, "do_store") if "arguments_store" in show(e.term)]
        ctx.ob("saved", "arguments", len(args) == 1 and len(st) == 1 and
               index_of(p, args[0]) < index_of(p, st[0]), "not stored", f.site)
    ctx.ob("saved", "a run ends", n > 0, "no path", f.site)
    ctx.need("saved", 8)


def stores(ctx):
    ctx.rule("stores", "every store of records that belong to a table is written by one of the "
             "parts")
    meta = ctx.project.cls("now.collection.metadata:Metascript")
    init = meta.find_method("__init__")
    held = {}
    for n in ast.walk(init.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                rec._name(n.value.func) in ("ObjectStore", "SharedObjectStore"):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and n.value.args:
                    held[t.attr] = rec._name(n.value.args[0])
    models = {r.name for r in rec.records(ctx) if r.table is not None}
    written = {}
    for q in ("now.collection.prov_deployment.deployment:Deployment.store_provenance",
              "now.collection.prov_definition.definition:Definition.store_provenance",
              EXE + ".store_provenance"):
        f = ctx.project.func(q)
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g.name in ("do_store", "fast_update",
                                                                     "print_msg"))
        sets = []
        for p in returning(ctx.paths_of(it, f)):
            here = set()
            for e in calls(p, "do_store", "store"):
                for x in subterms(e.term):
                    if x.tag == "attr" and x.args[1] in held:
                        here.add(x.args[1])
            sets.append(here)
        for s in set.intersection(*sets) if sets else ():
            written.setdefault(s, []).append(f)
    run, paths = run_paths(ctx)
    for p in returning(paths):
        for e in calls(p, "store", "do_store"):
            for x in subterms(e.term):
                if x.tag == "attr" and x.args[1] in held:
                    written.setdefault(x.args[1], []).append(run)
    for s, lw in sorted(held.items()):
        if lw in models:
            ctx.ob("stores", s, s in written, "is never written", init.site)
    ctx.need("stores", 9)


def last_file(ctx):
    ctx.rule("last", "the file with the last trial is written on every path of a run")
    f, paths = run_paths(ctx)
    for p in paths:
        k = calls(p, "create_last")
        ctx.ob("last", "ends normally" if p.outcome == "return" else "raises", len(k) == 1,
               "not written", f.site)
    ctx.need("last", 2)
