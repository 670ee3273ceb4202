"""Every file that the script opens is recorded with what was in it.

The function that replaces open, the end of activations and the reading of
content are interpreted abstractly: a file is recorded before it is opened on
every path on which the script opens a file by name, with the content before;
every recorded file is handed on or read exactly once when the code that uses
it ends. All ways of opening are replaced, each by a recorder of its own
original.
"""
import ast

from vlib.rules import *
from vlib import hooks as hk
from vlib.absint import call_name
from checks import a02, a04

RULES = ["record", "final", "content", "ways", "kept"]
ASSUMPTIONS = ["Files opened by descriptor, by extension modules or by other processes are not "
               "recorded, by design."]


def collector(ctx):
    return ctx.project.cls(hk.COLLECTOR)


def n_of(t):
    return last(call_name(t)) if isinstance(t, T) and t.tag in ("call", "new") else ""


def interp(ctx, f, keep=("put_file", "get_time", "time", "get_value", "add_type")):
    def opaque(fi):
        return fi is not f and fi.cls is not None and fi.parent is None and \
            (fi.cls.name != "Collector" or fi.name in keep)
    return ctx.interp(loops=(0, 1), max_states=3000, opaque_fn=opaque)


def args_of(t):
    return list(t.args[1]) + [v for _, v in t.args[2]]


def excused(path, name):
    """The path opens no file of the script by name"""
    for c, v in path.pc.items():
        s = show(c)
        if "should_use_safe_open" in s and v:
            return "internal"
        if c.tag == "cmp" and c.args[0] == "Is" and "None" in s and v and \
                any(is_name(x) for x in c.args[1:]):
            return "no name"
        if "isinstance" in s and v:
            tested = [x for x in subterms(c) if x.tag == "call" and n_of(x) == "isinstance"]
            if tested and is_name(args_of(tested[0])[0]) and show(args_of(tested[0])[1]) == "int":
                return "descriptor"
    # no activation around the current one is captured
    for c, v in path.pc.items():
        if c.tag == "truth" and not v:
            x = c.args[0]
            while x.tag == "attr" and x.args[1] == "parent":
                x = x.args[0]
            if a04.is_current(x):
                return "nothing is captured"
    return None


def record(ctx):
    ctx.rule("record", "a file that the script opens by name is recorded before it is opened, with the "
                       "content that it has then, its name, the mode and the activation")
    f = collector(ctx).find_method("new_open")
    it = interp(ctx, f)
    it.keep_pc = True
    old = param(hk.params(f)[0])
    found = set()
    for p in ctx.paths_of(it, f)[:1]:
        for g, q in a02.nested_paths(ctx, it, p.value, p):
            if q.outcome != "return":
                continue
            opened = [i for i, e in enumerate(q.events) if e.kind == "call" and
                      e.term.tag == "call" and e.term.args[0] == old]
            added = [(i, e.term) for i, e in enumerate(q.events) if e.kind == "call" and
                     n_of(e.term) in ("add_object", "add") and
                     "file_accesses" in show(e.term.args[0])]
            if len(opened) != 1:
                ctx.fail("record", "open opens the file once", str(len(opened)), g.site)
                continue
            if not added:
                why = excused(q, None)
                found.add(why)
                ctx.ob("record", "an open that is not recorded", why is not None,
                       "; ".join("{}={}".format(show(c), v) for c, v in q.pc.items())[:300], g.site)
                continue
            ctx.ob("record", "an open that is recorded", len(added) == 1 and
                   added[0][0] < opened[0] and excused(q, None) is None, str(excused(q, None)),
                   g.site)
            acc = added[0][1]
            name = [a for a in args_of(acc) if "args" in show(a)]
            name = name[0] if len(name) == 1 else None
            ctx.ob("record", "the name is recorded", name is not None and is_name(name),
                   show(name) if name is not None else "", g.site)
            pos = {}
            for i, e in enumerate(q.events):
                if e.kind == "setattr" and e.term == acc:
                    pos[e.extra.args[0]] = (i, e.extra.args[1])
            b = pos.get("content_hash_before")
            ctx.ob("record", "the content before is recorded", b is not None and b[0] < opened[0] and
                   n_of(b[1]) == "put_file" and (not name or args_of(b[1])[0] == name), "", g.site)
            a = pos.get("activation_id")
            ctx.ob("record", "the activation is recorded", a is not None and active_one(q, a[1]),
                   show(a[1]) if a else "", g.site)
            held = [i for i, e in enumerate(q.events) if e.kind == "call" and
                    n_of(e.term) == "append" and "file_accesses" in show(e.term.args[0]) and
                    acc in args_of(e.term)]
            holder = [q.events[i].term.args[0].args[0].args[0] for i in held]
            ctx.ob("record", "the file is read again at the end of the current activation",
                   len(held) == 1 and held[0] < opened[0] and a04.is_current(holder[0]),
                   "", g.site)
            where = pos.get("path")
            ctx.ob("record", "the place of the file is recorded", where is not None and
                   n_of(where[1]) == "abspath", "", g.site)
            m = pos.get("mode")
            ctx.ob("record", "the mode is recorded", mode_ok(q, m[1] if m else None),
                   show(m[1])[:200] if m else "no mode", g.site)
    ctx.ob("record", "reasons not to record", found <= {
        "internal", "no name", "descriptor", "nothing is captured"}, str(found), f.site)
    ctx.need("record", 8)


def is_name(t):
    s = show(t)
    return s == "args[0]" or ("kwargs" in s and ("'file'" in s or "'path'" in s or "'filename'" in s))


def active_one(q, t):
    """t is the id of the first captured activation around the current one"""
    if t.tag != "attr" or t.args[1] != "id":
        return False
    act = t.args[0]
    chain = []
    x = act
    while x.tag == "attr" and x.args[1] == "parent":
        x = x.args[0]
        chain.append(x)
    if not a04.is_current(x):
        return False
    state = {}
    for c, v in q.pc.items():
        if c.tag == "truth" and c.args[0].tag == "attr" and c.args[0].args[1] == "active":
            state[c.args[0].args[0]] = v
    if any(state.get(y) is not False for y in chain):
        return False
    # the analysis stops to follow the chain after one step
    return state.get(act) is not False or len(chain) == 1


def mode_ok(q, m):
    """The mode is the argument of open, or the default remains"""
    osopen = None
    known = None
    for c, v in q.pc.items():
        s = show(c)
        if s in ("bool(osopen)",):
            osopen = v
        if c.tag == "cmp" and c.args[0] == "Is" and "None" in s and \
                ("args[1]" in s or "'mode'" in s or "'flags'" in s or '"flags"' in s):
            known = not v
    if m is None:
        return known is False
    s = show(m)
    if "args[2]" in s or "[0]" in s:
        return False
    if osopen and known:
        return True      # flags are translated
    return known is not False and ("args[1]" in s or "kwargs" in s or m.tag == "const")


def final(ctx):
    ctx.rule("final", "at the end of an activation the content of each file that it holds is recorded "
                      "once, or the file is handed to the caller that still uses it")
    ci = collector(ctx)
    b, e = a04.names_of(ctx)
    n = 0
    for name in sorted(e):
        f = ci.find_method(name)
        it = interp(ctx, f)
        act = mk("param", hk.params(f)[0]) if False else param(hk.params(f)[0])
        files = mk("attr", act, "file_accesses")
        for p in returning(ctx.paths_of(it, f)):
            n += 1
            handed = [ev.term for ev in p.events if ev.kind == "call" and
                      n_of(ev.term) in ("extend",) and "file_accesses" in show(ev.term.args[0])]
            loops = [v for c, v in p.pc.items() if c.tag == "niter" and files in set(subterms(c))]
            if handed:
                h = handed[0]
                owner = h.args[0].args[0].args[0]
                remembered = mk("attr", act, a04.CURRENT)
                ctx.ob("final", name + " hands its files to the caller", len(handed) == 1 and
                       owner == remembered and args_of(h) == [files] and not loops,
                       show(h)[:200], f.site)
                undefined = any("code_block_id" in show(c) and v for c, v in p.pc.items()) or \
                    any("code_block_id" in show(c) and not v and c.args[0] in ("NotEq",)
                        for c, v in p.pc.items() if c.tag == "cmp")
                closes = any(c.tag == "truth" and v and show(c).endswith("last_activation.parent)")
                             for c, v in p.pc.items())
                ctx.ob("final", "files are handed on by functions without definition only",
                       undefined, "", f.site)
                ctx.ob("final", "files are handed on to activations that end", closes, "", f.site)
                continue
            ctx.ob("final", name + " handles its files", len(loops) == 1, "", f.site)
            if loops and loops[0]:
                acc = next((ev.term for ev in p.events if ev.kind == "setattr" and
                            ev.extra.args[0] == "content_hash_after"), None)
                ok = acc is not None and files in set(subterms(acc))
                ctx.ob("final", name + " reads its files", ok, "", f.site)
                if not ok:
                    continue
                order = [(ev.extra.args[0], ev.extra.args[1]) for ev in p.events
                         if ev.kind == "setattr" and ev.term == acc]
                names = [x for x, _ in order]
                ctx.ob("final", "a file is done after its content is read",
                       "done" in names and names.index("content_hash_after") < names.index("done")
                       and show(dict(order)["done"]) == "True" and
                       names.count("content_hash_after") == 1, str(names), f.site)
                v = dict(order)["content_hash_after"]
                got = {show(a).split(".")[-1] for a in args_of(v)} if n_of(v) == "put_file" else ()
                ctx.ob("final", "the content at the recorded place is read", "path" in got and
                       all(acc in set(subterms(a)) for a in args_of(v)), show(v)[:200], f.site)
    ctx.need("final", 5)


def content(ctx):
    ctx.rule("content", "the recorded content is the bytes of the file, stored under its name")
    f = collector(ctx).find_method("put_file")
    ps = hk.params(f)
    it = interp(ctx, f, keep=())
    opens = 0
    for p in returning(ctx.paths_of(it, f)):
        if show(p.value) == "None":
            tests = [c for c, v in p.pc.items() if "isfile" in show(c) or "exists" in show(c)]
            ctx.ob("content", "no content only if there is no regular file", bool(tests) or
                   any(e.kind == "raised" for e in p.events), "", f.site)
            continue
        v = p.value
        ok = n_of(v) == "put"
        data = args_of(v)[0] if ok and args_of(v) else None
        read = data is not None and n_of(data) == "read" and "rb" in show(data)
        who = data.args[0] if read else None
        ctx.ob("content", "the content of the file is stored", ok and read and
               "std_open" in show(who) and not data.args[1], show(v)[:200], f.site)
        opens += 1
        if read:
            src = [x for x in subterms(who) if x.tag == "call" and n_of(x) == "std_open"]
            first = args_of(src[0])[0] if src else None
            names = params_in(first) if first is not None else set()
            given = None
            for c, val in p.pc.items():
                if c.tag == "truth" and c.args[0].tag == "param" and len(ps) > 1 and \
                        c.args[0].args[0] == ps[1]:
                    given = val
            want = {ps[1]} if given else {ps[0]} if given is False else set(ps[:2])
            ctx.ob("content", "the file at the given place is read",
                   bool(names) and names <= want, show(first), f.site)
            nm = args_of(v)[1:] 
            ctx.ob("content", "content is stored with the name of the file", len(nm) == 1 and
                   params_in(nm[0]) == {ps[0]}, "", f.site)
    ctx.ob("content", "content is read", opens > 0, "", f.site)


ORIGINALS = {"builtin": "std_open", "io": "io_open", "codecs": "codecs_open", "os": "os_open"}


def ways(ctx):
    ctx.rule("ways", "each way to open files is replaced by a recorder of its own original before the "
                     "script runs")
    cls = ctx.project.cls("now.collection.prov_execution.execution:Execution")
    hits = {}
    for f in cls.methods.values():
        it = ctx.interp(loops=(0, 1), max_states=500, opaque_fn=lambda fi: fi is not f and
                        not (fi.cls is cls))
        if not any(isinstance(x, ast.Attribute) and x.attr == "new_open" for x in ast.walk(f.node)):
            continue
        for p in returning(ctx.paths_of(it, f)):
            done = set()
            for e in p.events:
                target = val = None
                if e.kind == "setattr" and e.extra.args[0] == "open":
                    target, val = show(e.term), e.extra.args[1]
                elif e.kind == "setitem" and "open" in show(e.extra if not isinstance(e.extra, T)
                                                            else e.extra):
                    ex = e.extra.args if isinstance(e.extra, T) else e.extra
                    if show(ex[0]) == "'open'":
                        target, val = show(e.term), ex[1]
                if val is None or n_of(val) != "new_open":
                    continue
                which = "builtin" if "__builtins__" in target or "builtin" in target else \
                    target.split(".")[-1]
                orig = [show(a) for a in args_of(val)]
                want = ORIGINALS.get(which)
                ctx.ob("ways", which + ".open is recorded with its own original", want is not None and
                       any(o.split(".")[-1] == want for o in orig), str(orig), f.site)
                ctx.ob("ways", which + ".open reads flags only for os.open",
                       (which == "os") == any(o == "True" for o in orig), str(orig), f.site)
                done.add(which)
            hits[f] = hits.get(f, done) & done
    ok = [f for f, d in hits.items() if d == set(ORIGINALS)]
    ctx.ob("ways", "all ways to open files are replaced", len(hits) == 1 and len(ok) == 1,
           str({f.name: sorted(d) for f, d in hits.items()}), cls.site if hasattr(cls, "site") else "")
    mod = ctx.project.module("now.persistence.content.safeopen")
    want = {"std_open": ("open",), "io_open": ("io.open",), "codecs_open": ("codecs.open",),
            "os_open": ("os.open",)}
    vals = {}
    for n in mod.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            vals[n.targets[0].id] = ast.unparse(n.value)
    for k, v in want.items():
        ctx.ob("ways", "original " + k, vals.get(k) in v, str(vals.get(k)), mod.path
               if hasattr(mod, "path") else "")
    # before the script
    for f in cls.methods.values():
        if not any(isinstance(x, ast.Name) and x.id == "exec" for x in ast.walk(f.node)):
            continue
        it = ctx.interp(loops=(0, 1), max_states=500, opaque_fn=lambda fi: fi is not f and
                        fi in hits or fi.cls is not cls)
        for p in ctx.paths_of(it, f):
            ex = [i for i, e in enumerate(p.events) if e.kind == "call" and
                  n_of(e.term) == "exec"]
            cf = [i for i, e in enumerate(p.events) if e.kind == "call" and
                  n_of(e.term) in {h.name for h in hits}]
            if ex:
                ctx.ob("ways", "files are recorded from the start of the script",
                       bool(cf) and cf[0] < ex[0], "", f.site)
    ctx.need("ways", 10)


def kept(ctx):
    ctx.rule("kept", "a record of a file stays in memory until its final content is known")
    f = ctx.project.func("now.persistence.lightweight.file_access:FileAccessLW.is_complete")
    for p in returning(ctx.paths_of(ctx.interp(), f)):
        ctx.ob("kept", "is_complete", show(p.value).endswith("(FileAccessLW).done") or
               show(p.value) == "bool(self(FileAccessLW).done)", show(p.value), f.site)
    g = ctx.project.func("now.persistence.lightweight.file_access:FileAccessLW.__init__")
    for p in returning(ctx.paths_of(ctx.interp(), g)):
        d = [e.extra.args[1] for e in p.events if e.kind == "setattr" and e.extra.args[0] == "done"]
        ctx.ob("kept", "files begin unfinished", [show(x) for x in d] == ["False"], "", g.site)
        nm = [e.extra.args[1] for e in p.events if e.kind == "setattr" and e.extra.args[0] == "name"]
        ctx.ob("kept", "the name is kept", len(nm) == 1 and params_in(nm[0]) == {"name"}, "", g.site)
