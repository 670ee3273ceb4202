"""Restoring loses no content of the project.

Must-precede analysis on the paths of the command: what is overwritten or
removed was read into the content database first, the replacement is at hand,
and a backup of every file that differs is complete and committed before the
first file changes.
"""
import ast

from vlib.rules import *
from checks import records as rec

RULES = ["kept", "overwrites", "differences", "backup_first", "backup", "inside"]
ASSUMPTIONS = ["No other process changes the files of the project during the restore.",
               "Content that is put can be read again (C01)."]
CMD = "now.cmd.cmd_restore:"
EXE = CMD + "Restore.execute"


def resolved(t):
    """A path that does not depend on the current directory"""
    s = show(t)
    return "base_path" in s or "project_path" in s or "abspath(" in s


def restore_paths(ctx):
    f = ctx.project.func(CMD + "Restore.restore")
    it = ctx.interp(opaque_names={"print_msg", "file_hash"})
    it.keep_pc = True
    return f, ctx.paths_of(it, f)


def destructive(e):
    """The path that the event overwrites, moves or removes"""
    if e.kind not in ("call", "new"):
        return None
    o = is_open(e.term)
    if o and writes_mode(o[1]):
        return o[0]
    n = last(cname(e))
    if n in ("remove", "unlink", "rmtree", "removedirs", "rename", "replace", "move", "truncate",
             "copyfile", "copy", "write_bytes", "write_text") and e.term.args[1] and \
            cname(e).split(".")[0] in ("os", "shutil"):
        return e.term.args[1][-1] if n in ("copyfile", "copy") else e.term.args[1][0]
    if n in ("unlink", "write_bytes", "write_text", "rename", "replace", "rmdir") and \
            call_base(e.term) is not None and "Path(" in show(call_base(e.term)):
        return call_base(e.term)
    return None


def kept(ctx):
    ctx.rule("kept", "the current content of an existing file is put into the content database "
             "whenever its hash is computed")
    f = ctx.project.func(CMD + "file_hash")
    it = ctx.interp()
    it.keep_pc = True
    n = 0
    for p in ctx.paths_of(it, f):
        exists = cond_value(p, lambda c: "isfile(" in show(c) or "exists(" in show(c) or
                            "is_file(" in show(c))
        neg = exists is False
        if neg:
            ctx.ob("kept", "missing file", p.outcome == "return" and is_const(p.value) and
                   p.value.args[1] is None, show(p.value)[:80], f.site)
            continue
        v = p.value
        ok = p.outcome == "return" and v.tag == "call" and last(call_name(v)) == "put"
        if not ctx.ob("kept", "existing file", ok, show(v)[:80] if v is not None else "", f.site):
            continue
        n += 1
        opened = [is_open(x) for x in subterms(v.args[1][0]) if is_open(x)]
        ctx.ob("kept", "its content", bool(opened) and param("path") in set(
            subterms(opened[0][0])) and "b" in (opened[0][1] or ""), show(v)[:120], f.site)
        ctx.ob("kept", "of the project", bool(opened) and resolved(opened[0][0]),
               "depends on the current directory", f.site)
    ctx.ob("kept", "exists", n > 0, "no path puts", f.site)
    ctx.need("kept", 2)


def overwrites(ctx):
    ctx.rule("overwrites", "a file is changed only after its content was put, on the same path, "
             "and overwritten only when the replacement has been read")
    f, paths = restore_paths(ctx)
    n = 0
    for p in paths:
        for i, e in enumerate(p.events):
            t = destructive(e)
            if t is None:
                continue
            n += 1
            put = [x for x in p.events[:i] if x.kind == "call" and last(cname(x)) == "file_hash"
                   and show(param("path")) in show(x.term)]
            label = last(cname(e))
            ctx.ob("overwrites", label + ":kept", bool(put), "content is lost", e.site)
            ctx.ob("overwrites", label + ":same file", param("path") in set(subterms(t)) and
                   resolved(t), show(t)[:100], e.site)
            o = is_open(e.term)
            if o or "write" in label:
                got = [x for x in p.events[:i] if x.kind == "call" and last(cname(x)) == "get" and
                       "content" in show(x.term.args[0]).lower()]
                ctx.ob("overwrites", label + ":replacement", bool(got),
                       "overwritten before the replacement is read", e.site)
    ctx.need("overwrites", 3)


def differences(ctx):
    ctx.rule("differences", "every file is compared, the result says match only if none differs, "
             "and carries the current content of each")
    f = ctx.project.func(CMD + "Restore.find_differences")
    it = ctx.interp(loops=(0, 1, 2), opaque_names={"print_msg", "file_hash"})
    it.keep_pc = True
    seen = set()
    for p in returning(ctx.paths_of(it, f)):
        v = p.value
        if not ctx.ob("differences", "answer", v.tag == "tuple" and len(v.args) == 2, show(v)[:80],
                      f.site):
            continue
        m, files = v.args
        eqs = [(c, val) for c, val in p.pc.items() if c.tag == "cmp" and "file_hash" in show(c)]
        same = [val is (c.args[0] in ("Eq", "Is")) for c, val in eqs]
        rounds = [v2 for c, v2 in p.pc.items() if c.tag == "niter"]
        if rounds and rounds[0]:
            ctx.ob("differences", "compared", len(calls(p, "file_hash")) >= rounds[0] and
                   len(eqs) >= 1, "{} of {}".format(len(eqs), rounds[0]), f.site)
        want = all(same)
        seen.add(want)
        got = m.args[1] if is_const(m) else fold_match(m, p)
        ctx.ob("differences", "match" if want else "differ", got is want, show(m)[:60], f.site)
        changed = [e for e in p.events if e.kind == "setitem" and
                   is_const(e.extra.args[0]) and e.extra.args[0].args[1] == "code_hash"]
        if not want:
            ctx.ob("differences", "current content", bool(changed) and
                   "file_hash" in show(changed[-1].extra.args[1]), "keeps the old hash", f.site)
        if rounds and rounds[0]:
            ctx.ob("differences", "every file", files is param("files") or
                   files.tag in ("dict", "call", "comp") and "files" in show(files),
                   show(files)[:80], f.site)
    for name in ("find_differences", "create_backup", "execute"):
        g = ctx.project.func(CMD + "Restore." + name)
        early = [x for n in ast.walk(g.node) if isinstance(n, ast.For) for x in ast.walk(n)
                 if isinstance(x, (ast.Break, ast.Return))]
        ctx.ob("differences", name + ":to the end", not early, "the loop over the files ends "
               "before the last one", g.site)
    ctx.ob("differences", "both", seen == {True, False}, str(seen), f.site)
    ctx.need("differences", 4)


def fold_match(m, p):
    v = fold(m, lambda t: p.pc[t] if t in p.pc else UNKNOWN)
    return bool(v) if v is not UNKNOWN else None


def execute_paths(ctx):
    f = ctx.project.func(EXE)
    own = f.cls
    it = ctx.interp(loops=(0, 1), max_states=4000, opaque_fn=lambda g: g is not f and (
        g.cls is not own or g.name in ("restore", "create_backup", "find_differences",
                                       "find_file", "restore_script")) and g.name != "execute")
    it.keep_pc = True
    return f, ctx.paths_of(it, f)


def backup_first(ctx):
    ctx.rule("backup-first", "before the files of a trial are restored, the files of its parent "
             "and the existing ones that the restore changes are compared, and backed up unless "
             "they all match")
    f, paths = execute_paths(ctx)
    whole = extra = 0
    for p in paths:
        rs = calls(p, "restore")
        single = [v for c, v in p.pc.items() if c.tag == "truth" and show(c.args[0]) == "args.file"]
        if single and single[0]:
            continue
        whole += 1
        fd = calls(p, "find_differences")
        if not ctx.ob("backup-first", "compared", len(fd) == 1, "not compared", f.site):
            continue
        files = fd[0].term.args[1][0] if fd[0].term.args[1] else dict(fd[0].term.args[2]).get(
            "files", NONE)
        head = any(x.tag in ("call", "new") and last(call_name(x)) == "load_parent"
                   for x in subterms(files)) or \
            any(e.kind in ("call", "setitem") and "load_parent" in show(e.term) and
                "versioned_files" in show(e.term) for e in p.events[:index_of(p, fd[0])])
        ctx.ob("backup-first", "files of the parent", head, show(files)[:100], f.site)
        match = [v if c.args and c.tag == "truth" else v for c, v in p.pc.items()
                 if c.tag == "truth" and "find_differences" in show(c)]
        bk = calls(p, "create_backup")
        if match:
            ctx.ob("backup-first", "matching" if match[0] else "differing",
                   len(bk) == (0 if match[0] else 1), "{} backups".format(len(bk)), f.site)
        else:
            ctx.ob("backup-first", "unconditional", len(bk) == 1, "no backup", f.site)
        for b in bk:
            arg_ = b.term.args[1][1] if len(b.term.args[1]) > 1 else dict(
                b.term.args[2]).get("files", NONE)
            ctx.ob("backup-first", "of the compared files", contains(arg_, fd[0].term) or
                   arg_ is files, show(arg_)[:100], f.site)
            ctx.ob("backup-first", "before the restore", all(
                index_of(p, b) < index_of(p, r) for r in rs), "after the restore", f.site)
        ctx.ob("backup-first", "compared before", all(
            index_of(p, fd[0]) < index_of(p, r) for r in rs), "after the restore", f.site)
        # files that only the restored trial has
        for e in p.events[:index_of(p, fd[0])]:
            if e.kind == "setitem" and "versioned_files" in show(e.term):
                v = e.extra.args[1]
                ctx.ob("backup-first", "own description", v.tag in ("dict", "call", "new") and
                       last(call_name(v)) != "versioned_files", "the description of a file to "
                       "restore is shared with the comparison, which changes it", e.site)
            if e.kind == "setitem" and "versioned_files" in show(e.term) or \
                    e.kind == "call" and last(cname(e)) in ("update", "setdefault") and \
                    "versioned_files" in show(e.term):
                extra += 1
    ctx.ob("backup-first", "files that the parent does not have", extra > 0 or
           other_merge(paths), "files that only the restored trial has are overwritten without "
           "a backup", f.site)
    ctx.ob("backup-first", "paths", whole > 0, "no path", f.site)
    ctx.need("backup-first", 5)


def other_merge(paths):
    """The compared files are built from those of both trials"""
    for p in paths:
        for e in calls(p, "find_differences"):
            if show(e.term).count("versioned_files") > 1 and "load_parent" in show(e.term):
                return True
    return False


def backup(ctx):
    ctx.rule("backup", "the backup trial records every file of each kind with its current "
             "content, and is stored and committed")
    f = ctx.project.func(CMD + "Restore.create_backup")
    it = ctx.interp(loops=(0, 1), max_states=4000, opaque_fn=lambda g: g is not f)
    it.keep_pc = True
    kinds = {}
    for p in returning(ctx.paths_of(it, f)):
        rounds = [v for c, v in p.pc.items() if c.tag == "niter"]
        new = [e for e in calls(p, "create") if "Trial" in show(e.term)]
        if not ctx.ob("backup", "trial", len(new) == 1, "not created", f.site):
            continue
        kind = None
        for c, v in p.pc.items():
            if c.tag == "cmp" and c.args[0] in ("Eq", "NotEq") and is_const(c.args[2]) and \
                    c.args[2].args[1] in ("script", "module", "access") and \
                    v is (c.args[0] == "Eq"):
                kind = c.args[2].args[1]
        if rounds and rounds[0] and kind is None:
            # every known kind was refused
            continue
        if kind:
            kinds.setdefault(kind, []).append(p)
        up = calls(p, "fast_update")
        ctx.ob("backup", "status", len(up) == 1 and "'backup'" in show(up[0].term),
               "no backup status", f.site)
        cm = calls(p, "commit_content")
        ctx.ob("backup", "committed", len(cm) == 1, "content is not committed", f.site)
        for s in ("code_components_store", "code_blocks_store", "modules_store",
                  "file_accesses_store"):
            st = [e for e in p.events if e.kind == "call" and last(cname(e)) in (
                "store", "do_store") and s in show(e.term)]
            by = s.startswith("code_") and any(
                last(cname(e)) == "store_provenance" and "definition" in show(e.term)
                for e in p.events if e.kind == "call")
            ctx.ob("backup", s, bool(st) or by, "not written", f.site)
        if kind in ("script", "module"):
            cb = calls(p, "create_code_block")
            ok = len(cb) == 1
            if ok:
                g = ctx.project.func(
                    "now.collection.prov_definition.definition:Definition.create_code_block")
                args = dict(zip(g.params()[1:], cb[0].term.args[1]))
                args.update(dict(cb[0].term.args[2]))
                load = args.get("load", NONE)
                ok = is_const(load) and load.args[1] is True and \
                    "elem(files" in show(args.get("path", NONE)) and \
                    resolved(args.get("path", NONE))
            ctx.ob("backup", kind + ":content", ok, show(cb[0].term)[:140] if cb else "missing",
                   f.site)
        if kind == "module":
            ctx.ob("backup", "module:recorded", len(calls(p, "add_module")) == 1, "missing",
                   f.site)
        if kind == "access":
            add = [e for e in calls(p, "add") if "file_accesses_store" in show(e.term)]
            hs = {e.extra.args[0]: e.extra.args[1] for e in p.events if e.kind == "setattr"}
            ctx.ob("backup", "access:recorded", len(add) == 1 and "elem(files" in show(add[0].term),
                   "missing", f.site)
            for a in ("content_hash_before", "content_hash_after"):
                ctx.ob("backup", "access:" + a, a in hs and "'code_hash'" in show(hs[a]),
                       show(hs.get(a, NONE))[:80], f.site)
    ctx.ob("backup", "kinds", set(kinds) == {"script", "module", "access"}, str(set(kinds)),
           f.site)
    ctx.need("backup", 8)


def inside(ctx):
    ctx.rule("inside", "only files below the path of the trial are restored, under their path "
             "relative to it")
    f = ctx.project.func("now.persistence.models.trial:Trial.versioned_files")
    for key, hash_, kind, p in listed(ctx, f):
        pre = [(c, v) for c, v in p.pc.items() if c.tag == "truth" and
               last(call_name(c.args[0])) in ("startswith", "is_relative_to")]
        ok = False
        for c, v in pre:
            a = c.args[0].args[1]
            if a and not (a[0].tag == "attr" and a[0].args[1] == "path") and v:
                ok = True
            if last(call_name(c.args[0])) == "is_relative_to" and v:
                ok = True
            if a and "'..'" in show(a[0]) and not v:
                ok = True
        if not pre:
            ok = any(".path" in show(c) and ("commonp" in show(c) or "parents" in show(c) or
                                             "pardir" in show(c) or "'..'" in show(c))
                     for c in p.pc)
        ctx.ob("inside", kind, ok, "files outside of the trial", f.site)
        ctx.ob("inside", kind + ":relative", "relpath(" in show(key) or "relative_to(" in show(key)
               or not any(x.tag == "attr" and x.args[1] == "path" and x.args[0].tag == "self"
                          for x in subterms(key)), show(key)[:100], f.site)
    ctx.need("inside", 3)


def listed(ctx, f=None):
    """(path term, hash, kind, abstract path) of each file that versioned_files lists"""
    f = f or ctx.project.func("now.persistence.models.trial:Trial.versioned_files")
    it = ctx.interp(loops=(0, 1), max_states=6000, opaque_fn=lambda g: g.cls is f.cls and
                    g is not f and g.parent is None)
    it.keep_pc = True
    out, seen = [], set()
    for p in returning(ctx.paths_of(it, f)):
        entries = []
        if p.value.tag == "dict":
            for x in p.value.args:
                if x.tag == "pair":
                    entries.append((x.args[0], x.args[1]))
        for e in p.events:
            if e.kind == "setitem":
                entries.append((e.extra.args[0], e.extra.args[1]))
        for k, v in entries:
            if v.tag != "dict":
                continue
            d = {x.args[0].args[1]: x.args[1] for x in v.args if x.tag == "pair" and
                 is_const(x.args[0])}
            if "type" not in d or "code_hash" not in d:
                continue
            out.append((k, d["code_hash"], d["type"].args[1] if is_const(d["type"]) else "?", p))
    return out
