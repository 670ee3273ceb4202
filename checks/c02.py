"""Crash atomicity of the plain store.

On every abstract path of put, also on those where an operation fails half way,
no file whose name get would serve is ever opened for writing: content is
written to another name and published by a rename after the file is closed.
"""
from vlib.rules import *
from checks.c01 import PLAIN, moved_to, covers, digest_of, CONTENT

RULES = ["publish", "order"]
ASSUMPTIONS = ["A rename inside one file system is atomic; git, pygit2 and dulwich write their "
               "objects atomically."]


def paths(ctx, fail):
    it = ctx.interp()
    if fail:
        it.raiser = lambda t: ["OSError"] if last(call_name(t)) in (
            "write", "std_open", "open", "rename", "replace", "makedirs") else ()
    return ctx.paths_of(it, ctx.project.func(PLAIN + ".put"))


def publish(ctx):
    ctx.rule("publish", "a name that get serves is never opened for writing")
    site = ctx.project.func(PLAIN + ".put").site
    for fail in (False, True):
        for p in paths(ctx, fail):
            for e in calls(p):
                o = is_open(e.term)
                if not o or not writes_mode(o[1]):
                    continue
                hashes = [t for t in subterms(o[0]) if digest_of(t, CONTENT)]
                served = any(covers(o[0], h) for h in hashes)
                ctx.ob("publish", "PlainEngine.put" + (":failing" if fail else ""),
                       not served, "content is written in place: " + show(o[0]), e.site)
    ctx.need("publish", 2)


def order(ctx):
    ctx.rule("order", "the content is published complete: written and closed before the rename")
    for p in paths(ctx, False):
        if p.outcome != "return":
            continue
        for e in calls(p):
            o = is_open(e.term)
            if not o or not writes_mode(o[1]):
                continue
            mv = [i for i, x in enumerate(p.events) if x.kind == "call" and
                  cname(x) in ("os.rename", "os.replace", "shutil.move") and
                  x.term.args[1][:1] == (o[0],)]
            wr = [i for i, x in enumerate(p.events) if x.kind == "call" and
                  last(cname(x)) == "write"]
            closed = [i for i, x in enumerate(p.events) if
                      (x.kind == "exit" and x.term is e.term) or
                      (x.kind == "call" and last(cname(x)) == "close" and
                       contains(x.term, e.term))]
            if not mv:
                # in place: decided by the other rule
                ctx.ob("order", "PlainEngine.put:published", False, "never published", e.site)
                continue
            ctx.ob("order", "PlainEngine.put:published", bool(wr and closed) and
                   max(wr) < min(closed) < mv[0],
                   "; ".join(show(x.term) for x in calls(p)), e.site)
    ctx.need("order", 1)
