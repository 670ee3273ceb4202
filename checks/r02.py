"""Restoring brings files back to their recorded version.

Dataflow on the abstract paths of the command: from the records of the trial
(which hash belongs to which path and kind) through the selection of the files
to the bytes that are written.
"""
import ast

from vlib.rules import *
from checks.r01 import (CMD, restore_paths, execute_paths, destructive, listed)

RULES = ["written", "every_file", "options", "versions", "history", "lookup"]
ASSUMPTIONS = ["The content database returns the bytes of a hash (C01).",
               "The accesses of a trial are loaded in the order of their ids."]
TRIAL = "now.persistence.models.trial:Trial."


def written(ctx):
    ctx.rule("written", "a file that differs receives exactly the bytes of its recorded hash, a "
             "file that did not exist is removed, and an equal one is left alone")
    f, paths = restore_paths(ctx)
    seen = set()
    for p in paths:
        eq = [(c, v) for c, v in p.pc.items() if c.tag == "cmp" and "file_hash" in show(c) and
              contains(c, param("code_hash"))]
        if not eq:
            ctx.fail("written", "compared", "the file is not compared", f.site)
            continue
        same = eq[0][1] is (eq[0][0].args[0] in ("Eq", "Is"))
        none = cond_value(p, lambda c: c.tag == "cmp" and c.args[1] is param("code_hash") and
                          is_const(c.args[2]) and c.args[2].args[1] is None)
        cond = [c for c in p.pc if c.tag == "cmp" and c.args[1] is param("code_hash") and
                is_const(c.args[2]) and c.args[2].args[1] is None]
        if cond and cond[0].args[0] in ("IsNot", "NotEq"):
            none = not none
        mode = [(c, v) for c, v in p.pc.items() if c.tag == "cmp" and c.args[1] is param("mode")]
        script = bool(mode) and is_const(mode[0][0].args[2]) and \
            mode[0][0].args[2].args[1] == "script" and mode[0][1] is (mode[0][0].args[0] == "Eq")
        acts = [e for e in p.events if destructive(e) is not None]
        failed = any(e.kind in ("raised", "caught") for e in p.events)
        if same:
            seen.add("same")
            ctx.ob("written", "equal file", not acts, "is changed", f.site)
        elif none:
            seen.add("none")
            gone = [e for e in acts if last(cname(e)) in ("remove", "unlink")]
            if script:
                ctx.ob("written", "script without code", not acts, "is changed", f.site)
            else:
                ctx.ob("written", "file that did not exist", len(gone) == 1 and len(acts) == 1 and
                       p.outcome == "return" and is_const(p.value) and bool(p.value.args[1]),
                       "is not removed", f.site)
        else:
            seen.add("bytes")
            if failed or p.outcome != "return":
                continue
            if is_const(p.value) and not p.value.args[1] and not acts:
                ctx.ob("written", "changed file", False, "is not restored", f.site)
                continue
            w = [e for e in p.events if e.kind == "call" and last(cname(e)) in (
                "write", "write_bytes")]
            ok = len(w) == 1 and len(w[0].term.args[1]) == 1
            if not ctx.ob("written", "changed file", ok, "is not written", f.site):
                continue
            v = w[0].term.args[1][0]
            ctx.ob("written", "bytes", v.tag == "call" and last(call_name(v)) == "get" and
                   param("code_hash") in v.args[1] + tuple(x for _, x in v.args[2]),
                   show(v)[:100], f.site)
            modes = [is_open(x)[1] for x in subterms(w[0].term) if is_open(x)] + \
                (["wb"] if last(cname(w[0])) == "write_bytes" else [])
            ctx.ob("written", "whole file", modes and all(
                m is not None and "w" in m and "b" in m for m in modes), str(modes), f.site)
            ctx.ob("written", "reported", is_const(p.value) and bool(p.value.args[1]),
                   show(p.value), f.site)
    ctx.ob("written", "cases", seen == {"same", "none", "bytes"}, str(seen), f.site)
    ctx.need("written", 5)


def args_of(ctx, term, qual):
    g = ctx.project.func(qual)
    names = [x for x in g.params() if x not in ("self", "cls")]
    args = dict(zip(names, term.args[1]))
    args.update(dict(term.args[2]))
    return args


def every_file(ctx):
    ctx.rule("every-file", "every file of the trial that is asked for is restored with its hash "
             "and kind, and the trial becomes the parent of the next one")
    f, paths = execute_paths(ctx)
    n, targets = 0, set()
    for p in paths:
        single = [v for c, v in p.pc.items() if c.tag == "truth" and show(c.args[0]) == "args.file"]
        rs = calls(p, "restore")
        trial = [e for e in p.events if e.kind == "new" and cname(e) == "Trial"]
        ctx.ob("every-file", "trial", len(trial) == 1 and "args.trial" in show(trial[0].term),
               "another trial", f.site)
        if single and single[0]:
            for r in rs:
                a = args_of(ctx, r.term, CMD + "Restore.restore")
                h, t = a.get("code_hash", NONE), a.get("path", NONE)
                ctx.ob("every-file", "single hash", h.tag == "item" and "find_file" in show(h) and
                       is_const(h.args[1]) and h.args[1].args[1] == 1, show(h)[:100], f.site)
                tg = [v for c, v in p.pc.items() if c.tag == "truth" and
                      show(c.args[0]).endswith(".target")]
                used = {x.args[1] for x in subterms(t) if x.tag == "attr" and
                        x.args[0].tag == "call" and
                        last(call_name(x.args[0])) == "parse_args"}
                targets |= used
                if tg:
                    ctx.ob("every-file", "target" if tg[0] else "path",
                           used == {"target" if tg[0] else "path"}, str(used), f.site)
            found = [v for c, v in p.pc.items() if c.tag == "truth" and "find_file" in show(c)]
            if found and found[0]:
                ctx.ob("every-file", "single", len(rs) == 1, "not restored", f.site)
            continue
        over = [(c, v) for c, v in p.pc.items() if c.tag == "niter" and
                "versioned_files" in show(c) and "load_parent" not in show(c)]
        ctx.ob("every-file", "iterates", bool(over), "the files of the trial are not visited",
               f.site)
        if over and over[-1][1]:
            n += 1
            if ctx.ob("every-file", "restored", len(rs) == 1, "{} times".format(len(rs)), f.site):
                a = args_of(ctx, rs[0].term, CMD + "Restore.restore")
                path, h = a.get("path", NONE), a.get("code_hash", NONE)
                ctx.ob("every-file", "path", path.tag in ("elem", "item") and
                       "versioned_files" in show(path), show(path)[-80:], f.site)
                ctx.ob("every-file", "hash", h.tag == "item" and is_const(h.args[1]) and
                       h.args[1].args[1] == "code_hash" and contains(h, path) and
                       "load_parent" not in show(h), show(h)[-100:], f.site)
                m = a.get("mode", NONE)
                ctx.ob("every-file", "kind", m.tag == "item" and is_const(m.args[1]) and
                       m.args[1].args[1] == "type" and contains(m, path), show(m)[-80:], f.site)
        head = calls(p, "create_head")
        ctx.ob("every-file", "parent", len(head) == 1 and trial and
               contains(head[0].term, trial[0].term), "the history does not continue", f.site)
    ctx.ob("every-file", "path and target", targets == {"path", "target"}, str(targets), f.site)
    ctx.ob("every-file", "some", n > 0, "no path", f.site)
    ctx.need("every-file", 5)


OPTIONS = {"script": "skip_script", "local": "skip_local", "access": "skip_access"}


def options(ctx):
    ctx.rule("options", "a kind of file is left out exactly if its option is given")
    f = ctx.project.func(CMD + "skip_dict")
    it = ctx.interp()
    it.keep_pc = True
    n = 0
    for p in returning(ctx.paths_of(it, f)):
        single = [v for c, v in p.pc.items() if c.tag == "truth" and show(c.args[0]) == "args.file"]
        if single and single[0]:
            continue
        d = {}
        if p.value.tag == "dict":
            d = {x.args[0].args[1]: x.args[1] for x in p.value.args if x.tag == "pair" and
                 is_const(x.args[0])}
        elif p.value.tag == "call" and call_name(p.value) == "dict":
            d = dict(p.value.args[2])
        for e in p.events:
            if e.kind == "setitem" and is_const(e.extra.args[0]):
                d[e.extra.args[0].args[1]] = e.extra.args[1]
        for k, o in OPTIONS.items():
            n += 1
            for given in (True, False):
                v = d.get(k, const(True))
                env = lambda t: given if t.tag == "attr" and t.args[1] == o else UNKNOWN
                if not possible(p, env):
                    continue
                val = fold(v, env)
                ctx.ob("options", k + ":" + ("skipped" if given else "restored"),
                       val is not UNKNOWN and bool(val) is not given, show(v), f.site)
    g = ctx.project.func(TRIAL + "versioned_files")
    a = g.node.args
    ctx.ob("options", "parameters", set(OPTIONS) <= {x.arg for x in a.args}, "", g.site)
    for key, h, kind, p in listed(ctx, g):
        flag = {"script": "script", "module": "local", "access": "access"}.get(kind)
        v = [val for c, val in p.pc.items() if c.tag == "truth" and flag and
             c.args[0] is param(flag)]
        ctx.ob("options", kind + ":selected", bool(v) and v[0], "ignores its option", g.site)
    ctx.need("options", 6)


def versions(ctx):
    ctx.rule("versions", "the script and the modules have the hash of their code, and a file has "
             "the hash from before its first access")
    f = ctx.project.func(TRIAL + "versioned_files")
    kinds = set()
    for key, h, kind, p in listed(ctx, f):
        kinds.add(kind)
        s = show(key)
        if kind == "script":
            ctx.ob("versions", "script", h.tag == "attr" and h.args[1] == "code_hash" and
                   h.args[0].tag == "self" and ".script" in s, show(h), f.site)
        elif kind == "module":
            own = h.args[0] if h.tag == "attr" else None
            ctx.ob("versions", "module", h.tag == "attr" and h.args[1] == "code_hash" and
                   "local_modules" in show(h) and contains(key, attr(own, "path")), show(h), f.site)
        elif kind == "access":
            own = h.args[0] if h.tag == "attr" else None
            ctx.ob("versions", "access", h.tag == "attr" and
                   h.args[1] == "content_hash_before" and contains(key, attr(own, "name")),
                   show(h), f.site)
    ctx.ob("versions", "kinds", kinds == {"script", "module", "access"}, str(kinds), f.site)
    # the first access wins
    over = loops_over(f, "file_accesses")
    for n in over:
        rev = is_reversed(f, n)
        keeps = any(isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)) and
                    "name" in ast.unparse(x.left) for x in ast.walk(f.node)) or any(
            isinstance(x, ast.Attribute) and x.attr == "setdefault" for x in ast.walk(f.node))
        ctx.ob("versions", "first access", rev is not keeps,
               "a later access replaces the first one", f.site)
    ctx.ob("versions", "accesses", bool(over), "not visited", f.site)
    ctx.need("versions", 4)


def through(f, used):
    """Local names that the names come from, and the assignments of all of them"""
    used = set(used)
    given = []
    grown = True
    while grown:
        grown = False
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign) and s not in given and any(
                    isinstance(t, ast.Name) and t.id in used for t in s.targets):
                given.append(s)
                used |= {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
                grown = True
    return used, given


def loops_over(f, name):
    """The iterations over the attribute, also through local names"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.comprehension)):
            _, given = through(f, {x.id for x in ast.walk(n.iter) if isinstance(x, ast.Name)})
            if any(isinstance(x, ast.Attribute) and x.attr == name
                   for e in [n.iter] + [s.value for s in given] for x in ast.walk(e)):
                out.append(n)
    return out


def backwards(e):
    return sum(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
               x.func.id == "reversed" or
               isinstance(x, ast.Slice) and x.step is not None and ast.unparse(x.step) == "-1" or
               isinstance(x, ast.keyword) and x.arg == "reverse" or
               isinstance(x, ast.Attribute) and x.attr in ("reverse", "desc")
               for x in ast.walk(e))


def is_reversed(f, n):
    k = backwards(n.iter)
    used, given = through(f, {x.id for x in ast.walk(n.iter) if isinstance(x, ast.Name)})
    k += sum(backwards(s.value) for s in given)
    for s in ast.walk(f.node):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(
                s.value.func, ast.Attribute) and s.value.func.attr == "reverse" and isinstance(
                    s.value.func.value, ast.Name) and s.value.func.value.id in used:
            k += 1
    return k % 2 == 1


def history(ctx):
    ctx.rule("history", "the versions of a file are listed in order: before and after each access, "
             "each with its own hash")
    f = ctx.project.func(TRIAL + "iterate_accesses")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g.cls is f.cls and g is not f and
                    g.parent is None)
    it.keep_pc = True
    n = 0
    for p in ctx.paths_of(it, f):
        ys = [e for e in p.events if e.kind == "yield"]
        hs = []
        for y in ys:
            for x in subterms(y.term):
                if x.tag == "pair" and is_const(x.args[0]) and x.args[0].args[1] == "code_hash":
                    hs.append((y, x.args[1]))
        acc = [(y, h) for y, h in hs if h.tag == "attr" and h.args[1].startswith("content_hash")]
        rounds = [v for c, v in p.pc.items() if c.tag == "niter" and "file_accesses" in show(c)]
        sel = [v for c, v in p.pc.items() if c.tag == "truth" and "file_accesses" in show(c)]
        nopath = [v for c, v in p.pc.items() if c.tag == "truth" and c.args[0] is param("path")]
        if rounds and rounds[0] and (sel and sel[0] or not sel and nopath and not nopath[0]):
            n += 1
            ctx.ob("history", "before and after", [h.args[1] for _, h in acc] == [
                "content_hash_before", "content_hash_after"], str([h.args[1] for _, h in acc]),
                f.site)
            ctx.ob("history", "its own name", all(
                contains(y.term, attr(h.args[0], "name")) for y, h in acc), "", f.site)
    for x in loops_over(f, "file_accesses"):
        ctx.ob("history", "in order", not is_reversed(f, x), "backwards", f.site)
    ctx.ob("history", "accesses", n > 0, "no path", f.site)
    ctx.need("history", 3)


def lookup(ctx):
    ctx.rule("lookup", "a single version is found by time (before the access unless after is "
             "asked for), by hash, or by its number in the history, counted from one")
    f = ctx.project.func(CMD + "Restore.find_file")
    it = ctx.interp(loops=(0, 1), max_states=4000, opaque_fn=lambda g: g is not f)
    it.keep_pc = True
    kinds = set()
    for p in returning(ctx.paths_of(it, f)):
        if any(v and c.tag == "cmp" and "version_info" in show(c) for c, v in p.pc.items()):
            continue
        v = p.value
        if v.tag != "tuple" or len(v.args) != 2:
            ctx.ob("lookup", "answer", is_const(v) and v.args[1] is None or v.tag == "tuple",
                   show(v)[:80], f.site)
            continue
        h = v.args[1]
        s = show(h)
        if h.tag == "attr" and h.args[1].startswith("content_hash"):
            after = [val is (c.args[0] == "Eq") for c, val in p.pc.items() if c.tag == "cmp" and
                     is_const(c.args[2]) and c.args[2].args[1] == "A"]
            kinds.add("time")
            ctx.ob("lookup", "access by time", "FileAccess" in s and after and
                   (h.args[1] == "content_hash_after") is after[0], s[-100:], f.site)
        elif h.tag == "attr" and h.args[1] == "code_hash":
            kinds.add("trial")
            ctx.ob("lookup", "trial by time", "find_by_name_and_time" in s, s[-100:], f.site)
        elif "find_subhash" in s:
            kinds.add("hash")
            ctx.ob("lookup", "hash", contains(h, param("fid")), s[-100:], f.site)
        elif "iterate_accesses" in s:
            kinds.add("number")
            num = [c for c, val in p.pc.items() if c.tag == "cmp" and
                   "int(" in show(c) and c.args[0] in ("Eq", "NotEq") and
                   val is (c.args[0] == "Eq")]
            ctx.ob("lookup", "number", bool(num) and counts_from_one(num[0]), show(num[0])[-100:]
                   if num else "not compared", f.site)
            ctx.ob("lookup", "number's hash", "code_hash" in s, s[-100:], f.site)
    ctx.ob("lookup", "forms", kinds == {"time", "trial", "hash", "number"}, str(kinds), f.site)
    ctx.need("lookup", 5)


def counts_from_one(c):
    a, b = c.args[1], c.args[2]
    if "int(" not in show(a) or "enumerate" in show(a) and "int(" not in show(a):
        a, b = b, a
    s = show(b)
    start = "enumerate(" in show(c) and any(
        x.tag == "call" and call_name(x) == "enumerate" and
        (len(x.args[1]) > 1 and x.args[1][1] is const(1) or dict(x.args[2]).get("start")
         is const(1)) for x in subterms(c))
    plus = any(x.tag == "binop" and x.args[0] == "Add" and const(1) in x.args[1:]
               for x in subterms(b))
    minus = any(x.tag == "binop" and x.args[0] == "Sub" and x.args[2] is const(1)
                for x in subterms(a))
    return start + plus + minus == 1
