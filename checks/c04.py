"""Asynchronous storage loses nothing.

Typestate of the worker-based engines: started before anything is queued, a
shutdown marker for every worker and a join before a commit reads the
registered objects, task acknowledged only after the content is stored, and a
shutdown on the interpreter's exit; commands that store content end in a
commit or a close on every normal path.
"""
import ast

from vlib.rules import *
from vlib.absint import BASELINE
from vlib.project import FuncInfo
from checks.common import nested_classes, iter_functions, parts
from checks.c03 import is_store

RULES = ["distributed", "pool", "threads", "workers", "commit_waits", "commands"]
ASSUMPTIONS = [
    "multiprocessing.JoinableQueue.join, Pool.join and Thread.join wait for the submitted tasks.",
    "Worker processes are not killed from outside.",
]
MOD = "now.persistence.content.parallel"


def wrapper(ctx, factory):
    m = ctx.project.module(MOD)
    f = m.funcs.get(factory)
    if f is None:
        raise AnalysisBroken(factory + " not found")
    classes = nested_classes(f)
    engines = [c for c in classes if "put" in c.methods]
    if not engines:
        raise AnalysisBroken("no engine in " + factory)
    return engines[0], [c for c in classes if c not in engines]


def meth(cls, name):
    f = cls.methods.get(name)
    if f is None:
        raise AnalysisBroken("{}.{} not found".format(cls.name, name))
    return f


STARTED = "processes_started"


def started(p, self_name=STARTED):
    for k, v in p.pc.items():
        if k.tag == "truth" and selfattr(k.args[0]) == self_name:
            return v
    return None


def check_started_flow(ctx, cls, queue_names):
    """put starts the workers before it queues; close resets the flag"""
    it = ctx.interp(opaque_names={"start_processes", "put_attr", "_get_hash_from_content"})
    f = meth(cls, "put")
    for p in it.run(f, cls=cls):
        if p.outcome != "return":
            continue
        starts = [index_of(p, e) for e in calls(p) if last(cname(e)) == "start_processes"]
        queue = [index_of(p, e) for e in calls(p) if last(cname(e)) in queue_names and
                 contains_name(e.term, "put_attr")]
        s = started(p)
        ok = bool(queue) and (s is True or (bool(starts) and starts[0] < queue[0]))
        ctx.ob("started-before-queued", cls.name + ".put", ok,
               "queued with workers {} ({})".format("started" if starts else "not started",
                                                    p.cond()), f.site)
    it = ctx.interp()
    f = meth(cls, "start_processes")
    for p in it.run(f, cls=cls):
        if p.outcome != "return":
            continue
        sets = [e for e in p.events if e.kind == "setattr" and e.term.tag == "self" and
                e.extra.args[0] == STARTED]
        ctx.ob("started-before-queued", cls.name + ".start_processes:flag",
               bool(sets) and sets[-1].extra.args[1] is TRUE, "the workers' state is not recorded",
               f.site)
        reg = [e for e in calls(p) if cname(e) == "atexit.register"]
        ok = any(a.tag in ("attr", "bound") and last(show(a)) == "close"
                 for e in reg for a in e.term.args[1])
        ctx.ob("shutdown-at-exit", cls.name, ok,
               "a process that ends without a commit never stops the workers", f.site)


def contains_name(t, name):
    return any(x.tag == "call" and last(call_name(x)) == name for x in subterms(t))


def distributed(ctx):
    ctx.rule("started-before-queued", "content is queued only while workers are running")
    ctx.rule("shutdown-at-exit", "the workers are shut down when the interpreter exits")
    ctx.rule("close-waits", "close returns only after everything that was queued is stored")
    cls, _ = wrapper(ctx, "create_distributed")
    check_started_flow(ctx, cls, {"put"})
    it = ctx.interp(loops=(1,))
    f = meth(cls, "close")
    for p in it.run(f, cls=cls):
        if p.outcome != "return" or started(p) is False:
            continue
        pills = [e for e in calls(p, ".put") if e.term.args[1] == (NONE,)]
        joins = [e for e in calls(p, ".join")]
        queue = {selfattr(call_base(e.term)) for e in pills}
        ok = bool(pills) and any(selfattr(call_base(j.term)) in queue and
                                 index_of(p, j) > index_of(p, pills[-1]) for j in joins)
        ctx.ob("close-waits", cls.name + ".close:join", ok,
               "; ".join(show(e.term) for e in calls(p)), f.site)
        resets = [e for e in p.events if e.kind == "setattr" and e.term.tag == "self" and
                  e.extra.args[0] == STARTED]
        ctx.ob("close-waits", cls.name + ".close:reset", bool(resets) and
               resets[-1].extra.args[1] is FALSE, "workers still recorded as running", f.site)
    # one marker for every worker
    counts = loop_counts(f.node, lambda n: isinstance(n, ast.Call) and isinstance(
        n.func, ast.Attribute) and n.func.attr == "put" and len(n.args) == 1 and
        isinstance(n.args[0], ast.Constant) and n.args[0].value is None)
    g = meth(cls, "start_processes")
    made = loop_counts(g.node, lambda n: isinstance(n, ast.Call) and isinstance(
        n.func, ast.Attribute) and n.func.attr == "start")
    ctx.ob("close-waits", cls.name + ".close:markers", same_count(counts, made, g.node),
           "stops {} of the {} workers".format(counts, made), f.site)


def loop_counts(fnode, pred):
    """Text of the iterable of the loops around the constructs with pred"""
    out = set()
    for loop in ast.walk(fnode):
        if isinstance(loop, (ast.For, ast.ListComp, ast.GeneratorExp)):
            if any(pred(n) for n in ast.walk(loop)):
                it = loop.iter if isinstance(loop, ast.For) else loop.generators[0].iter
                out.add(canonical_count(it))
        elif isinstance(loop, ast.While) and any(pred(n) for n in ast.walk(loop)):
            out.add("?")      # counted by hand: the number is not decided
    return out


def canonical_count(it):
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" \
            and len(it.args) == 1:
        it = it.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "len":
            return ast.unparse(it.args[0])
    elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in (
            "list", "tuple", "enumerate"):
        return ast.unparse(it.args[0])
    return ast.unparse(it)


def same_count(stop, start, gnode):
    if not start:
        return False
    if not stop:
        return False
    if "?" in stop or "?" in start:
        return True
    alias = {"self.consumers"}
    for n in ast.walk(gnode):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            if ast.unparse(n.value) in start or ast.unparse(n.targets[0]) in start:
                alias.add(ast.unparse(n.targets[0]))
                alias.add(ast.unparse(n.value))
    return all(s in start or s in alias for s in stop)


def pool(ctx):
    cls, _ = wrapper(ctx, "create_pool")
    check_started_flow(ctx, cls, {"apply_async", "apply", "submit"})
    f = meth(cls, "close")
    it = ctx.interp()
    for p in it.run(f, cls=cls):
        if p.outcome != "return" or started(p) is False:
            continue
        ev = [(last(cname(e)), selfattr(call_base(e.term)) if call_base(e.term) is not None
               else None) for e in calls(p)]
        order = [n for n, s in ev if s == "pool"]
        ok = "join" in order and "close" in order and "terminate" not in order and \
            order.index("close") < order.index("join")
        ctx.ob("close-waits", cls.name + ".close:join", ok, str(order), f.site)
        resets = [e for e in p.events if e.kind == "setattr" and e.term.tag == "self" and
                  e.extra.args[0] == STARTED]
        ctx.ob("close-waits", cls.name + ".close:reset", bool(resets) and
               resets[-1].extra.args[1] is FALSE, "workers still recorded as running", f.site)


def threads(ctx):
    cls, _ = wrapper(ctx, "create_threading")
    f = meth(cls, "put")
    it = ctx.interp(opaque_names={"put_attr", "_get_hash_from_content"})
    lists = set()
    for p in it.run(f, cls=cls):
        if p.outcome != "return":
            continue
        made = [e.term for e in calls(p) if last(cname(e)) == "Thread"]
        begun = [call_base(e.term) for e in calls(p, ".start")]
        kept = [e for e in calls(p, ".append", ".add") if any(a in made for a in e.term.args[1])]
        lists |= {selfattr(call_base(e.term)) for e in kept}
        ctx.ob("started-before-queued", cls.name + ".put", bool(made) and all(
            t in begun for t in made) and bool(kept),
            "; ".join(show(e.term) for e in calls(p)), f.site)
    forgets(ctx, cls, lists)
    f = meth(cls, "close")
    it = ctx.interp(loops=(1,))
    for p in it.run(f, cls=cls):
        if p.outcome != "return":
            continue
        joined = [call_base(e.term) for e in calls(p, ".join")]
        ok = any(j is not None and j.tag in ("elem", "idx", "item") or (
            j is not None and any(selfattr(x) in lists for x in subterms(j))) for j in joined) \
            and all(not e.term.args[1] and not e.term.args[2] for e in calls(p, ".join"))
        ctx.ob("close-waits", cls.name + ".close:join", ok, ", ".join(map(show, joined)), f.site)
        # the threads are forgotten only after they have been joined
        ji = [index_of(p, e) for e in calls(p, ".join")]
        forget = [index_of(p, e) for e in p.events if e.kind == "setattr" and
                  e.term.tag == "self" and e.extra.args[0] in lists]
        forget += [index_of(p, e) for e in calls(p, ".clear") if
                   selfattr(call_base(e.term)) in lists]
        ctx.ob("close-waits", cls.name + ".close:forget", not forget or (
            bool(ji) and min(forget) > max(ji)), "threads are forgotten before the join", f.site)


def forgets(ctx, cls, lists):
    """Outside of close, a pending thread stays in the list: it is only
    extended, or filtered by threads that have ended"""
    for name, f in cls.methods.items():
        if name in ("__init__", "close"):
            continue
        it = ctx.interp(loops=(0, 1), opaque_names={"put_attr", "_get_hash_from_content"})
        for p in it.run(f, cls=cls):
            for e in p.events:
                if e.kind == "setattr" and e.term.tag == "self" and e.extra.args[0] in lists:
                    v = e.extra.args[1]
                    ok = v.tag == "binop" and any(selfattr(x) in lists for x in v.args[1:]
                                                  if isinstance(x, T))
                    ok = ok or any(x.tag == "call" and last(call_name(x)) in (
                        "is_alive", "join") for x in subterms(v))
                    ok = ok or any(k.tag == "truth" and any(
                        x.tag == "call" and last(call_name(x)) == "is_alive"
                        for x in subterms(k)) for k in p.pc)
                    ok = ok or any(e2.kind == "call" and last(cname(e2)) == "join"
                                   for e2 in p.events[:index_of(p, e)])
                    ctx.ob("close-waits", cls.name + "." + name + ":keeps", ok,
                           "pending threads are forgotten: " + show(v), e.site)
                elif e.kind == "call" and last(cname(e)) in ("pop", "remove", "clear", "popleft") \
                        and call_base(e.term) is not None and selfattr(call_base(e.term)) in lists:
                    ok = any(e2.kind == "call" and last(cname(e2)) in ("join", "is_alive")
                             for e2 in p.events)
                    ctx.ob("close-waits", cls.name + "." + name + ":keeps", ok,
                           "pending threads are forgotten: " + show(e.term), e.site)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Delete) and any(isinstance(x, ast.Attribute) and x.attr in lists
                                                 for x in ast.walk(n)):
                ctx.fail("close-waits", cls.name + "." + name + ":keeps",
                         "pending threads are forgotten: " + ast.unparse(n), f.site)


def workers(ctx):
    ctx.rule("ack-after-store", "a worker acknowledges a task only after its content is stored "
             "and goes on until the shutdown marker")
    _, others = wrapper(ctx, "create_distributed")
    runs = [c for c in others if "run" in c.methods]
    if not runs:
        raise AnalysisBroken("worker not found")
    cls = runs[0]
    f = cls.methods["run"]
    it = ctx.interp(loops=(1, 2))
    n = 0
    for p in it.run(f, cls=cls):
        gets = [e for e in calls(p, ".get")]
        stores = [e for e in calls(p) if last(cname(e)) == "do_put"]
        acks = [e for e in calls(p, ".task_done")]
        ends = p.outcome
        pending = None
        good = True
        for e in p.events:
            if e.kind not in ("call",):
                continue
            nm = last(cname(e))
            if e in gets:
                good = good and pending is None
                pending = [e.term, False]
                isnone = [v for k, v in p.pc.items() if k.tag == "cmp" and
                          k.args[1] is e.term and k.args[2] is NONE]
                if isnone and isnone[0] is True:
                    pending[1] = True
            elif e in stores:
                n += 1
                ok = pending is not None and not pending[1] and contains(e.term, pending[0])
                good = good and ok
                if pending is not None:
                    pending[1] = True
            elif e in acks:
                good = good and pending is not None and pending[1]
                pending = None
        good = good and pending is None and bool(gets)
        ctx.ob("ack-after-store", cls.name + ".run", good,
               "; ".join(show(e.term) for e in calls(p)), f.site)
        if ends == "return":
            isnone = [k for k, v in p.pc.items() if k.tag == "cmp" and k.args[2] is NONE
                      and v is True and any(k.args[1] is g.term for g in gets)]
            last_get = gets[-1].term if gets else None
            stop = any(k.args[1] is last_get for k in isnone)
            ctx.ob("ack-after-store", cls.name + ".run:ends", stop,
                   "stops without the marker: " + p.cond(), f.site)
    ctx.ob("ack-after-store", cls.name + ".run:stores", n > 0, "no task is stored", f.site)


def commit_waits(ctx):
    ctx.rule("commit-waits", "a commit waits for the workers before it reads what they registered")
    f = ctx.project.func("now.persistence.content.gitbase:GitContentDatabaseEngine.commit_content")
    it = ctx.interp(opaque_names={"close", "new_tree", "insert_blob", "insert_tree",
                                  "write_tree", "create_commit_object", "_get_tree"})
    for p in ctx.paths_of(it, f):
        if p.outcome != "return":
            continue
        closes = [index_of(p, e) for e in calls(p) if last(cname(e)) == "close" and
                  call_base(e.term) is not None and call_base(e.term).tag == "self"]
        reads = [i for i, e in enumerate(p.events) if e.kind in ("call", "setitem") and
                 last(cname(e)) != "close" and
                 any(selfattr(x) == "object_hashes" for x in subterms(e.term))]
        writes = [index_of(p, e) for e in calls(p) if last(cname(e)) in
                  ("insert_blob", "write_tree", "create_commit_object")]
        uses = reads + writes
        ctx.ob("commit-waits", "commit_content", bool(closes) and
               (not uses or closes[0] < min(uses)), "objects are read before close", f.site)
    # overriding engines keep the wait
    for cls in ctx.project.all_classes("now.persistence.content"):
        if "commit_content" in cls.methods and cls.name not in (
                "ContentDatabaseEngine", "GitContentDatabaseEngine", "PlainEngine"):
            src = ast.unparse(cls.methods["commit_content"].node)
            ctx.ob("commit-waits", cls.name + ".commit_content",
                   "self.close()" in src or "super(" in src, src, cls.site)


def is_store_term(t):
    return t is not None and (t.tag == "gvar" and t.args[1] == "content" or
                              t.tag == "attr" and t.args[0].tag == "self" and
                              t.args[1].lower().endswith("content") or
                              t.tag == "new" and t.args[0].name == "ContentDatabase")


def commands(ctx):
    ctx.rule("commands-finish", "a command that stores content commits or closes the store before "
             "it ends normally")
    n = 0
    base = ctx.project.cls("now.cmd.command:Command")
    for cls in ctx.project.all_classes("now.cmd"):
        if base not in cls.mro() or cls is base:
            continue
        m = cls.module
        puts = False
        for f in iter_functions(m):
            for node in ast.walk(f.node):
                if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                        node.func.attr == "put" and is_store(node.func.value, f):
                    puts = True
        f = cls.methods.get("execute")
        if not puts or f is None:
            continue
        it = ctx.interp(opaque_fn=lambda fi, m=m: fi.module is not m or fi.name in (
            "find_file", "create_backup"), loops=(0, 1), max_states=400)
        it.want = lambda kind, t: kind == "call" and last(call_name(t)) in (
            "put", "commit_content", "close", "create_backup", "find_file")
        for p in it.run(f):
            if p.outcome != "return":
                continue
            ps = [index_of(p, e) for e in p.events if last(cname(e)) == "put" and
                  is_store_term(call_base(e.term))]
            fin = [index_of(p, e) for e in p.events if last(cname(e)) in (
                "commit_content", "close") and is_store_term(call_base(e.term))]
            if not ps:
                continue
            n += 1
            ctx.ob("commands-finish", cls.name, bool(fin) and max(fin) > max(ps),
                   "ends with stored content pending (" + p.cond()[:300] + ")", f.site)
    for f in ctx.project.all_funcs():
        if ".now.vis" not in f.module.name or f.parent is not None:
            continue
        if f.qual not in BASELINE and not f.decorators:
            continue        # a part of the functions that call it
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                   x.func.attr == "put" and is_store(x.func.value, g)
                   for g in parts(f) for x in ast.walk(g.node)):
            continue
        it = ctx.interp(opaque_fn=lambda fi, f=f: fi is not f, loops=(0, 1), max_states=400)
        for p in ctx.paths_of(it, f):
            ps = [index_of(p, e) for e in calls(p, "put") if is_store_term(call_base(e.term))]
            fin = [index_of(p, e) for e in calls(p) if last(cname(e)) in (
                "commit_content", "close") and is_store_term(call_base(e.term))]
            if p.outcome == "return" and ps:
                ctx.ob("commands-finish", f.short, bool(fin) and max(fin) > max(ps),
                       "ends with stored content pending", f.site)
    run = ctx.project.func("now.cmd.cmd_run:run")
    it = ctx.interp(opaque_fn=lambda fi: fi.module is not run.module)
    for p in ctx.paths_of(it, run):
        if p.outcome != "return":
            continue
        fin = [index_of(p, e) for e in calls(p) if last(cname(e)) == "commit_content"]
        sto = [index_of(p, e) for e in calls(p) if last(cname(e)) in (
            "collect_provenance", "store_provenance")]
        ctx.ob("commands-finish", "run", bool(fin) and bool(sto) and max(fin) > max(sto),
               "the content of the trial is not committed after it is stored", run.site)
    ctx.need("commands-finish", 3)
