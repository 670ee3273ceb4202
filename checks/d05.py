"""Writing provenance in parts loses and repeats nothing.

The operations of the record stores and the tests of completeness are
interpreted abstractly: what is taken out of a store has been handed to the
database in the same step and cannot change anymore, everything else stays.
"""
import ast

from vlib.rules import *
from checks import records as rec

RULES = ["written", "kept", "added", "complete", "closing", "requested", "final"]
ASSUMPTIONS = ["One thread records at a time."]

BASE = "now.persistence.lightweight.base:"


def interp(ctx, f):
    return ctx.interp(loops=(0, 1), max_states=4000,
                      opaque_fn=lambda g: g is not f and g.name in ("is_complete",))


def element(t):
    """The term is an element of a store"""
    s = show(t)
    return ".store[" in s or s.startswith("elem(")


def stores(ctx):
    out = [ctx.project.cls(BASE + "ObjectStore")]
    for c in ctx.project.all_classes(rec.LW):
        if c is not out[0] and c.find_method("generator") is out[0].find_method("generator"):
            out.append(c)
    return out


def written(ctx):
    ctx.rule("written", "every record of a store is handed to the database once per write; only "
             "complete records are taken out, and only by writes in parts")
    f = ctx.project.func(BASE + "ObjectStore.generator")
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        ys = [e for e in p.events if e.kind == "yield"]
        dels = [e for e in p.events if e.kind in ("delitem", "setitem") and (
            e.term.tag == "self" or selfattr(e.term) == "store")]
        partial = cond_value(p, lambda c: c.tag == "truth" and c.args[0] is param("partial"))
        complete = cond_value(p, lambda c: "is_complete" in show(c))
        missing = cond_value(p, lambda c: c.tag == "cmp" and c.args[0] == "Is" and
                             element(c.args[1]))
        met = [v for c, v in p.pc.items() if c.tag == "niter" and "viewvalues" in show(c)]
        if met and missing is False:
            ctx.ob("written", "every record is written", len(ys) == 1 and element(ys[0].term),
                   "{} times".format(len(ys)), f.site)
        if dels:
            ctx.ob("written", "taken out when complete", partial is True and complete is True,
                   "an incomplete record is taken out", f.site)
            ctx.ob("written", "taken out after a write", len(ys) == 1, "before it is written",
                   f.site)
        elif met and missing is False and partial and complete:
            ctx.fail("written", "taken out when complete", "stays", f.site)
        clears = [e for e in p.events if e.kind == "setattr" and e.extra.args[0] == "store"]
        if clears:
            ctx.ob("written", "cleared by writes in parts", partial is True,
                   "cleared by a final write", f.site)
    f = ctx.project.func(BASE + "ObjectStore.values")
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        met = any(c.tag == "niter" for c in p.pc)
        missing = cond_value(p, lambda c: c.tag == "cmp" and c.args[0] == "Is")
        ys = [e for e in p.events if e.kind == "yield"]
        if met and missing is not True:
            ctx.ob("written", "values", len(ys) == 1 and element(ys[0].term), "skipped", f.site)
    f = ctx.project.func(BASE + "ObjectStore.__delitem__")
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        sets = [e for e in p.events if e.kind in ("setitem", "delitem")]
        ok = len(sets) == 1 and contains(sets[0].extra if sets[0].extra is not None else
                                         sets[0].term, param("index"))
        ctx.ob("written", "only the record is taken out", ok, "another entry changes", f.site)
    f = ctx.project.func(BASE + "ObjectStore.has_items")
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        src = {x.args[1] for x in subterms(p.value) if selfattr(x)}
        ctx.ob("written", "emptiness", bool(src & {"count", "store"}), show(p.value), f.site)
    ctx.need("written", 5)


def kept(ctx):
    ctx.rule("kept", "cleaning a store keeps every record that is still there under its key and "
             "counts them")
    f = ctx.project.func(BASE + "ObjectStore.clear")
    for p in returning(ctx.paths_of(interp(ctx, f), f)):
        new = [e.extra.args[1] for e in p.events if e.kind == "setattr" and
               e.extra.args[0] == "store"]
        there = [v for c, v in p.pc.items() if element_test(c)]
        count = [e.extra.args[1] for e in p.events if e.kind == "setattr" and
                 e.extra.args[0] == "count"]
        # a path that meets a record either keeps it or has found it missing
        met = any(c.tag == "niter" for c in p.pc)
        if met and new:
            pairs = [x for x in new[-1].args if x.tag == "pair"] if new[-1].tag == "dict" else []
            alive = any(there)
            if alive:
                ok = len(pairs) == 1 and element(pairs[0].args[1]) and \
                    pairs[0].args[0].tag == "elem"
                ctx.ob("kept", "records that are there", ok, show(new[-1]), f.site)
            if count and is_const(count[-1]):
                ctx.ob("kept", "count", count[-1].args[1] == len(pairs), show(count[-1]), f.site)
        bad = [c for c, v in p.pc.items() if not element_test(c) and c.tag != "niter"]
        for c in bad:
            ctx.fail("kept", "condition", "depends on {}".format(show(c)), f.site)
    ctx.need("kept", 2)


def element_test(c):
    if c.tag == "truth":
        return element(c.args[0]) and c.args[0].tag in ("item", "elem")
    return c.tag == "cmp" and c.args[0] == "Is" and element(c.args[1])


def added(ctx):
    ctx.rule("added", "each added record gets a number of its own, is stored under it and counted; "
             "dry records are not stored")
    for cls in stores(ctx):
        for name in ("add", "add_object", "add_from_object", "dry_add"):
            f = cls.find_method(name)
            if f is None:
                continue
            k = "{}.{}".format(cls.name, name)
            it = interp(ctx, f)
            for p in ctx.paths_of(it, f, cls=cls):
                if p.outcome != "return":
                    ctx.fail("added", k, "raises", f.site)
                    continue
                sets = [e for e in p.events if e.kind == "setitem" and "store" in show(e.term)]
                if name == "dry_add":
                    ctx.ob("added", k, not sets and not any(e.kind == "setattr"
                                                            for e in p.events), "is stored", f.site)
                    continue
                if not ctx.ob("added", k, len(sets) == 1, "not stored once", f.site):
                    continue
                key, value = sets[0].extra.args
                counts = [e for e in p.events if e.kind == "setattr" and
                          e.extra.args[0] == "count"]
                ctx.ob("added", k + " counted", len(counts) == 1 and
                       "Add" in show(counts[0].extra.args[1]), "not counted", f.site)
                shared = f.cls.name != "ObjectStore"
                if shared:
                    ok = key.tag == "attr" and key.args[1] == "id" and key.args[0] is value
                    ctx.ob("added", k + " number", ok, show(key), f.site)
                else:
                    ok = key.tag == "binop" and key.args[0] == "Add" and \
                        selfattr(key.args[1]) == "id" and is_const(key.args[2]) and \
                        key.args[2].args[1] >= 1
                    kept = any(e.kind == "setattr" and e.extra.args[0] == "id" and
                               e.extra.args[1] is key for e in p.events)
                    ctx.ob("added", k + " number", ok and kept, show(key), f.site)
                    if value.tag == "call":
                        ctx.ob("added", k + " own number", value.args[1][:1] == (key,),
                               show(value), f.site)
                want = {"add": key, "add_object": value, "add_from_object": value}[name]
                ctx.ob("added", k + " result", p.value is want, show(p.value), f.site)
    ctx.need("added", 12)


def late_changes(ctx, r):
    """Columns of the record that the collection assigns after its creation"""
    out = set()
    stem = r.name[:-2].lower()
    for f in ctx.project.all_funcs():
        if ".collection." not in f.module.name:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if isinstance(t, ast.Attribute) and t.attr in r.columns and \
                        isinstance(t.value, ast.Name) and \
                        t.value.id.replace("_", "").lower() == stem:
                    out.add(t.attr)
    return out


def complete(ctx):
    ctx.rule("complete", "a record that changes after its creation is complete only when its last "
             "change is done, which its own state tells")
    mods = 0
    for r in rec.records(ctx):
        f = r.cls.find_method("is_complete")
        if f is None:
            continue
        late = late_changes(ctx, r)
        if r.name == "FileAccessLW":
            late.add("content_hash_after")
        if not late:
            continue
        mods += 1
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
        for p in returning(ctx.paths_of(it, f)):
            v = p.value
            k = "{} ({})".format(r.name, ", ".join(sorted(late)))
            if is_const(v) and not v.args[1]:
                for c, val in p.pc.items():      # stays when it is not done
                    ctx.ob("complete", k, state_of(c), "kept by " + show(c), f.site)
                continue
            if is_const(v):
                done = [(c, val) for c, val in p.pc.items() if state_of(c) and
                        done_when(r, c, val)]
                ctx.ob("complete", k, bool(done), "complete although it can change", f.site)
                continue
            ctx.ob("complete", k, done_when(r, v, True),
                   "complete when {}".format(show(v)), f.site)
        if r.name == "EvaluationLW":
            sent = set()
            for values, _ in rec.init_flow(ctx, r.cls):
                c = values.get("checkpoint")
                if c is not None and is_const(c):
                    sent.add(c.args[1])
            ctx.ob("complete", "EvaluationLW unset", sent <= {-1}, str(sent), r.cls.site)
    ctx.need("complete", 4)


STATE = {"checkpoint", "done"}      # what the last change of a record sets


def state_of(t):
    return any(x.tag == "attr" and (x.args[1] in STATE) for x in subterms(t)) or \
        any(x.tag == "call" and last(call_name(x)) == "is_complete" for x in subterms(t))


def done_when(r, t, value):
    """`t` being `value` implies that the last change of the record is done"""
    if t.tag == "bool":
        return done_when(r, t.args[0], value is bool(t.args[1]))
    if t.tag == "truth":
        return done_when(r, t.args[0], value)
    if t.tag == "attr":
        return value and t.args[1] == "done" and t.args[0].tag == "self"
    if t.tag == "call":     # complete when its evaluation is
        return value and last(call_name(t)) == "is_complete" and "evaluation" in show(t)
    if t.tag == "cmp":
        a, b = t.args[1:]
        own = a.tag == "attr" and a.args[1] == "checkpoint" and a.args[0].tag == "self"
        if not own or not is_const(b):
            return False
        return (t.args[0] in ("NotEq", "IsNot") and value and b.args[1] == -1) or \
            (t.args[0] in ("Eq", "Is") and not value and b.args[1] == -1) or \
            (t.args[0] == "Gt" and value and b.args[1] in (-1, 0)) or \
            (t.args[0] == "GtE" and value and b.args[1] == 0)
    return False


def closing(ctx):
    ctx.rule("closing", "what tells that a record is complete is set in one step with its last "
             "changes: nothing can be saved in between")
    for f in ctx.project.all_funcs():
        if ".collection." not in f.module.name:
            continue
        for inner in ast.walk(f.node):
            if inner is f.node or not isinstance(inner, ast.FunctionDef):
                continue
            own = {n.lineno: n for n in ast.walk(inner) if isinstance(n, ast.Assign)}
            for n in own.values():
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "done" and not (
                            isinstance(n.value, ast.Constant) and not n.value.value):
                        ctx.ob("closing", f.short, any(
                            isinstance(x, ast.Attribute) and x.attr == "content_hash_after"
                            for o in own.values() if o.lineno < n.lineno for x in o.targets),
                            "marked before its content is known", f.site)
        if f.parent is not None:
            continue
        marks = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Attribute) and t.attr in STATE and isinstance(t.value, ast.Name)
            for t in n.targets)]
        if not marks:
            continue
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
        for p in returning(ctx.paths_of(it, f)):
            for i, e in enumerate(p.events):
                if e.kind != "setattr" or e.extra.args[0] not in STATE:
                    continue
                for d in p.events[i + 1:]:
                    if d.kind == "call" and last(cname(d)) in SAVES and any(
                            g.kind == "setattr" and g.term is e.term and
                            g.extra.args[0] not in STATE
                            for g in p.events[index_of(p, d):]):
                        ctx.fail("closing", f.short, "{} is set before {} and a later change"
                                 .format(e.extra.args[0], last(cname(d))), f.site)
                after = [g for g in p.events[i + 1:] if g.kind == "setattr" and
                         g.term is e.term and g.extra.args[0] not in STATE]
                before = [g for g in p.events[:i] if g.kind == "setattr" and g.term is e.term and
                          g.extra.args[0] == "content_hash_after"]
                ctx.ob("closing", "{} {} with content".format(f.short, e.extra.args[0]),
                       e.extra.args[0] != "done" or bool(before) or is_const(e.extra.args[1]) and
                       not e.extra.args[1].args[1],
                       "marked before its content is known", f.site)
                ctx.ob("closing", "{} {}".format(f.short, e.extra.args[0]),
                       e.extra.args[0] != "done" or not after,
                       "marked before its last change", f.site)
    ctx.need("closing", 2)


SAVES = {"time", "store", "do_store", "evaluate", "evaluate_depa"}


def requested(ctx):
    ctx.rule("requested", "partial saves happen whenever the requested time has passed, and the "
             "request is read when the execution begins")
    col = ctx.project.cls("now.collection.prov_execution.collector:Collector")
    f = col.find_method("time")
    it = ctx.interp(opaque_fn=lambda g: g is not f)
    n = 0
    for p in returning(ctx.paths_of(it, f)):
        st = [e for e in calls(p, "store")]
        on = cond_value(p, lambda c: c.tag == "truth" and
                        selfattr(c.args[0]) == "partial_save_frequency")
        over = [v is (c.args[0] in ("Gt", "GtE")) if "last_partial_save" in show(c.args[1])
                else v is (c.args[0] in ("Lt", "LtE"))
                for c, v in p.pc.items() if c.tag == "cmp" and
                "partial_save_frequency" in show(c) and "last_partial_save" in show(c)]
        if on is True and over:
            n += 1
            ctx.ob("requested", "time", bool(st) is over[-1], "saves when the time has not passed"
                   if st else "does not save", f.site)
        elif st:
            ctx.fail("requested", "time", "saves without a request", f.site)
    ctx.ob("requested", "time saves", n > 0, "never saves", f.site)
    # the frequency comes from the arguments, after they are read
    exe = ctx.project.cls("now.collection.prov_execution.execution:Execution")
    g = exe.find_method("configure")
    it = ctx.interp(opaque_fn=lambda h: h.name in ("new_open", "debugger_builtins"))
    sets = []
    for p in returning(ctx.paths_of(it, g)):
        fr = [e.extra.args[1] for e in p.events if e.kind == "setattr" and
              e.extra.args[0] == "partial_save_frequency"]
        zero = cond_value(p, lambda c: c.tag == "truth" and "save_frequency" in show(c))
        if fr and zero is not False:
            sets.append("save_frequency" in show(fr[-1]) and
                        "last_partial_save" in {e.extra.args[0] for e in p.events
                                                if e.kind == "setattr"})
    ctx.ob("requested", "configure", bool(sets) and all(sets),
           "the frequency is not that of the arguments", g.site)
    ctx.need("requested", 3)


def final(ctx):
    ctx.rule("final", "the last write of the records of an execution writes everything that is "
             "left, writes in parts take the same stores")
    f = ctx.project.func("now.collection.prov_execution.collector:Collector.store")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
    sets = {}
    for p in returning(ctx.paths_of(it, f)):
        partial = cond_value(p, lambda c: c.tag == "truth" and c.args[0] is param("partial"))
        names = []
        for e in p.events:
            if e.kind == "call" and last(cname(e)) in ("do_store", "store"):
                for x in subterms(e.term):
                    if x.tag == "attr" and x.args[1].endswith("_store"):
                        names.append(x.args[1])
                a = list(e.term.args[1]) + [v for _, v in e.term.args[2]]
                same = param("partial") in a or any(
                    is_const(x) and bool(x.args[1]) is partial for x in a)
                ctx.ob("final", "the kind of write is passed on", same, show(e.term)[:120], f.site)
        sets.setdefault(partial, set()).add(frozenset(names))
        ends = [e for e in p.events if e.kind == "call" and last(cname(e)) == "fast_update"]
        if partial is False:
            ctx.ob("final", "outcome", len(ends) == 1, "not written", f.site)
        elif partial is True:
            ctx.ob("final", "no outcome yet", not ends, "written early", f.site)
    every = {frozenset(x) for v in sets.values() for x in v}
    ctx.ob("final", "same stores", len(every) == 1, str(every), f.site)
    ctx.need("final", 3)
