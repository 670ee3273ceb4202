"""Content addressing.

For every storage engine the abstract paths of put and get are compared as
origin terms: the identifier that put returns must be a cryptographic digest
of the whole content, the bytes that are written must be the content itself
and the place where they are written must be the place where get reads for
that identifier.
"""
from vlib.rules import *
from checks.common import fresh_name

DIGESTS = {"sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s",
           "sha3_256", "sha3_512"}
RULES = ["plain_put", "plain_get", "plain_find", "git_put", "git_get", "git_find",
         "git_hash", "parallel_put", "mock_store", "dispatch"]
ASSUMPTIONS = [
    "Digest collisions do not happen; git, pygit2 and dulwich store what they are handed.",
    "Values are compared by origin (which parameter or call they flow from), not by content.",
]
PLAIN = "now.persistence.content.plain_engine:PlainEngine"
GIT = {
    "puregit": "now.persistence.content.puregit_engine:PureGitEngine",
    "pygit": "now.persistence.content.pygit_engine:PyGitEngine",
    "dulwich": "now.persistence.content.dulwich_engine:DulwichEngine",
}
CONTENT = param("content")


def digest_of(t, content):
    """t is <hash>(content).hexdigest()"""
    if t.tag != "call" or call_name(t) != ".hexdigest" or t.args[1] or t.args[2]:
        return False
    h = call_base(t)
    if h.tag != "call":
        return False
    name = call_name(h)
    if last(name) in DIGESTS and name.startswith("hashlib."):
        return len(h.args[1]) == 1 and h.args[1][0] is content
    if name == "hashlib.new":
        a = h.args[1]
        return len(a) == 2 and strval(a[0]) in DIGESTS and a[1] is content
    return False


def location(path_term, ident):
    """Where ident is stored: path with the identifier abstracted"""
    hole = mk("hole")
    return rebuild(path_term, lambda x: hole if x is ident else x)


def covers(path_term, ident):
    """The path keeps the whole identifier, in order"""
    if path_term.tag != "pjoin":
        return False
    pos = const(0)
    done = False
    for part in path_term.args:
        if not contains(part, ident):
            continue
        if done:
            return False
        if part is ident:
            if pos is not const(0):
                return False
            done = True
            continue
        if part.tag != "item" or part.args[0] is not ident:
            return False
        sl = part.args[1]
        if sl.tag != "slice" or sl.args[2] is not NONE:
            return False
        lo = const(0) if sl.args[0] is NONE else sl.args[0]
        if lo is not pos:
            return False
        if sl.args[1] is NONE:
            done = True
        else:
            pos = sl.args[1]
    return done


def moved_to(path, src):
    for e in calls(path):
        if cname(e) in ("os.rename", "os.replace", "shutil.move") and e.term.args[1][:1] == (src,):
            return e.term.args[1][1]
    return None


def plain_paths(ctx):
    it = ctx.interp()
    return ctx.paths_of(it, ctx.project.func(PLAIN + ".put"))


def plain_put(ctx):
    ctx.rule("put-id-is-digest", "put returns the digest of the whole content")
    ctx.rule("put-writes-content", "put leaves exactly the content at the place of its "
             "identifier unless it is already there")
    site = ctx.project.func(PLAIN + ".put").site
    for p in plain_paths(ctx):
        if p.outcome != "return":
            continue
        h = p.value
        ctx.ob("put-id-is-digest", "PlainEngine.put", digest_of(h, CONTENT), show(h), site)
        opens = [(e, is_open(e.term)) for e in calls(p) if is_open(e.term)]
        wr = [(e, o) for e, o in opens if writes_mode(o[1])]
        if wr:
            for e, (where, mode) in wr:
                dest = moved_to(p, where) or where
                ctx.ob("put-writes-content", "PlainEngine.put:place",
                       covers(dest, h), "written to " + show(dest), e.site)
                ctx.ob("put-writes-content", "PlainEngine.put:mode",
                       mode in ("wb", "xb", "wb+", "w+b"), "mode {}".format(mode), e.site)
            data = [e for e in calls(p, ".write") if any(contains(call_base(e.term), o[0].term)
                                                         for o in wr)]
            ctx.ob("put-writes-content", "PlainEngine.put:bytes",
                   len(data) == len(wr) and all(e.term.args[1] == (CONTENT,) for e in data),
                   "; ".join(show(e.term) for e in data), site)
        else:
            # nothing written: only when the very file is known to exist
            found = [k for k, v in p.pc.items() if v is True and k.tag == "truth" and
                     call_name(k.args[0]) in ("os.path.isfile", "os.path.exists") and
                     covers(k.args[0].args[1][0], h)]
            ctx.ob("put-writes-content", "PlainEngine.put:skip", bool(found),
                   "nothing is written under: " + p.cond(), site)
    ctx.need("put-id-is-digest", 1)
    ctx.need("put-writes-content", 3)


def plain_get(ctx):
    ctx.rule("get-reads-put", "get returns all the bytes of the file where put stored the "
             "identifier")
    it = ctx.interp()
    f = ctx.project.func(PLAIN + ".get")
    ident = param(f.params()[1])
    puts = set()
    for p in plain_paths(ctx):
        if p.outcome != "return":
            continue
        for e in calls(p):
            o = is_open(e.term)
            if o and writes_mode(o[1]):
                puts.add(location(moved_to(p, o[0]) or o[0], p.value))
    for p in ctx.paths_of(it, f):
        if p.outcome != "return":
            continue
        v = p.value
        ok = v.tag == "call" and call_name(v) == ".read" and not v.args[1]
        where = None
        if ok:
            for t in subterms(call_base(v)):
                o = is_open(t)
                if o:
                    where = o
        ok = ok and where is not None and where[1] == "rb"
        ctx.ob("get-reads-put", "PlainEngine.get:bytes", ok, show(v), f.site)
        if where:
            ctx.ob("get-reads-put", "PlainEngine.get:place",
                   puts == {location(where[0], ident)},
                   "reads {} / put stores at {}".format(
                       show(location(where[0], ident)), ", ".join(map(show, puts))), f.site)
    ctx.need("get-reads-put", 2)


def plain_find(ctx):
    ctx.rule("find-completes-prefix", "an abbreviated identifier is completed only to a stored "
             "identifier that starts with it")
    it = ctx.interp()
    f = ctx.project.func(PLAIN + ".find_subhash")
    ident = param(f.params()[1])
    some = 0
    for p in ctx.paths_of(it, f):
        if p.outcome != "return" or p.value is NONE:
            continue
        some += 1
        v = p.value
        names = [t for t in subterms(v) if t.tag == "elem"]
        ok = False
        for k, val in p.pc.items():
            if val is True and k.tag == "truth" and call_name(k.args[0]) == ".startswith":
                recv = call_base(k.args[0])
                pre = k.args[0].args[1][0]
                if recv is v and pre is ident:
                    ok = True
                # directory prefix + file name that starts with the rest
                if v.tag in ("binop", "fmt"):
                    parts = list(v.args[1:]) if v.tag == "binop" else list(v.args)
                    if len(parts) == 2 and parts[1] is recv and \
                            covers(mk("pjoin", parts[0], pre), ident):
                        ok = True
        ctx.ob("find-completes-prefix", "PlainEngine.find_subhash", ok and bool(names),
               "returns {} when {}".format(show(v), p.cond()), f.site)
    ctx.ob("find-completes-prefix", "PlainEngine.find_subhash:finds", some > 0,
           "never returns an identifier", f.site)


def derived(t, content):
    """The identifier comes from storing exactly content"""
    for x in subterms(t):
        if x.tag in ("call", "new"):
            for a in list(x.args[1]) + [v for _, v in x.args[2]]:
                if a is content or (a.tag in ("call", "new") and derived(a, content)):
                    return True
    return False


def flowed(p):
    """Names of very long paths are replaced by a fixed one: the file name then
    decides which path is taken"""
    out = set()
    for k in p.pc:
        out |= params_in(k)
    return out


def git_put(ctx):
    ctx.rule("git-put", "put hands the whole content to the object store, returns the object's "
             "identifier and registers it for the next commit under the file name")
    for name, cls in GIT.items():
        f = ctx.project.func(cls + ".put")
        it = ctx.interp(opaque_names={"use_safe_open"})
        for p in ctx.paths_of(it, f):
            if p.outcome != "return":
                continue
            inner = [e for e in calls(p) if any(
                a is CONTENT for a in list(e.term.args[1]) + [v for _, v in e.term.args[2]])]
            mangled = [t for t in subterms(p.value) if t.tag in ("item", "binop", "fmt")
                       and contains(t, CONTENT) and not
                       (t.tag == "item" and t.args[0].tag == "call")]
            ctx.ob("git-put", name + ":stores", bool(inner) and not mangled and
                   derived(p.value, CONTENT), "returns " + show(p.value), f.site)
            reg = [e for e in p.events if e.kind == "setitem"
                   and selfattr(e.term) == "object_hashes"]
            ok = len(reg) >= 1 and all(
                e.extra.args[1] is p.value and
                "filename" in params_in(e.extra.args[0]) | flowed(p) for e in reg)
            ctx.ob("git-put", name + ":registered", ok,
                   "; ".join(repr(e) for e in reg) or "not registered", f.site)
            fresh = [fresh_name(p, e.extra.args[0]) for e in reg]
            if False in fresh:
                continue            # the bound of a loop, not the end of the search
            ctx.ob("git-put", name + ":distinct", bool(reg) and all(fresh),
                "registered as " + ", ".join(show(e.extra.args[0]) for e in reg), f.site)
    ctx.need("git-put", 9)


def git_get(ctx):
    ctx.rule("git-get", "get returns the object's bytes for the very identifier it is given")
    for name, cls in GIT.items():
        f = ctx.project.func(cls + ".get")
        ident = param(f.params()[1])
        it = ctx.interp(opaque_names={"use_safe_open"})
        for p in ctx.paths_of(it, f):
            if p.outcome != "return":
                continue
            ok = contains(p.value, ident) and not any(
                t.tag == "item" and t.args[0] is ident for t in subterms(p.value))
            bad = [t for t in subterms(p.value) if t.tag == "call" and
                   last(call_name(t)) in ("decode", "strip", "rstrip", "replace", "splitlines",
                                          "as_pretty_string", "split", "join", "readline")]
            ctx.ob("git-get", name, ok and not bad, "returns " + show(p.value), f.site)
    ctx.need("git-get", 3)


def git_find(ctx):
    ctx.rule("git-find", "an abbreviated identifier resolves to text that names the object")
    f = ctx.project.func(GIT["puregit"] + ".find_subhash")
    ident = param(f.params()[1])
    it = ctx.interp()
    n = 0
    for p in ctx.paths_of(it, f):
        if p.outcome != "return" or p.value is NONE:
            continue
        n += 1
        ok = any(v is True and k.tag == "truth" and call_name(k.args[0]) == ".startswith"
                 and (call_base(k.args[0]) is p.value or contains(p.value, call_base(k.args[0])))
                 and contains(k.args[0].args[1][0], ident) for k, v in p.pc.items())
        ctx.ob("git-find", "puregit", ok, "returns {} when {}".format(show(p.value), p.cond()),
               f.site)
    ctx.ob("git-find", "puregit:finds", n > 0, "never returns an identifier", f.site)


def git_hash(ctx):
    ctx.rule("git-precomputed-id", "the identifier computed before an asynchronous store is the "
             "one that git gives to the content")
    f = ctx.project.func("now.persistence.content.gitbase:GitContentDatabaseEngine."
                         "_get_hash_from_content")
    it = ctx.interp()
    for p in ctx.paths_of(it, f):
        if p.outcome != "return":
            continue
        v = p.value
        ok = False
        if v.tag == "call" and call_name(v) == ".hexdigest":
            h = call_base(v)
            if call_name(h) == "hashlib.sha1" and len(h.args[1]) == 1:
                parts = flat_concat(h.args[1][0])
                ok = parts is not None and len(parts) == 4 and parts[0] == "blob " and \
                    parts[1] is mk("call", mk("builtin", "len"), (CONTENT,), (), 0) and \
                    parts[2] == "\0" and parts[3] is CONTENT
        ctx.ob("git-precomputed-id", f.name, ok, show(v), f.site)


def flat_concat(t):
    """Pieces of a concatenation of bytes; encoders are transparent"""
    if t.tag == "binop" and t.args[0] == "Add":
        l, r = flat_concat(t.args[1]), flat_concat(t.args[2])
        return join_consts(l + r)
    if t.tag == "fmt":
        out = []
        for a in t.args:
            out += flat_concat(a)
        return join_consts(out)
    if t.tag == "const" and isinstance(t.args[1], (str, bytes)):
        v = t.args[1]
        return [v.decode("latin1") if isinstance(v, bytes) else v]
    if t.tag == "call" and (call_name(t) in ("bytes_string", "bytes") or
                            call_name(t) == ".encode"):
        inner = t.args[1][0] if t.args[1] else (
            t.args[2][0][1] if t.args[2] and call_name(t) != ".encode" else call_base(t))
        if call_name(t) == ".encode":
            inner = call_base(t)
        return flat_concat(inner)
    if t.tag == "call" and call_name(t) == ".join" and t.args[1]:
        sep = call_base(t)
        if sep.tag == "const" and not sep.args[1]:
            seq = t.args[1][0]
            if seq.tag in ("tuple", "list"):
                out = []
                for a in seq.args:
                    out += flat_concat(a)
                return join_consts(out)
    return [t]


def join_consts(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    # split the header from the separator: "blob " len "\0" content
    return out


def parallel_put(ctx):
    ctx.rule("async-put", "an asynchronous put queues the content with the arguments of the "
             "engine's own store operation and returns the content's own identifier")
    for cls in parallel_classes(ctx):
        f = cls.find_method("put")
        ident = cls.name
        if f is None:
            ctx.fail("async-put", ident, "no put", cls.site)
            continue
        it = ctx.interp(opaque_names={"start_processes", "put_attr", "_get_hash_from_content"})
        for p in it.run(f, cls=cls):
            if p.outcome != "return":
                continue
            ok = p.value.tag == "call" and last(call_name(p.value)) == "_get_hash_from_content" \
                and (p.value.args[1] == (CONTENT,) or dict(p.value.args[2]).get("content") is CONTENT)
            ctx.ob("async-put", ident + ":id", ok, "returns " + show(p.value), f.site)
            attrs = [e for e in calls(p) if last(cname(e)) == "put_attr"]
            good = len(attrs) == 1 and (attrs[0].term.args[1] == (CONTENT, param("filename")))
            sub = [e for e in calls(p) if attrs and e.term is not attrs[0].term and
                   contains(e.term, attrs[0].term) and last(cname(e)) in
                   ("put", "put_nowait", "apply_async", "apply", "submit", "Thread")]
            ctx.ob("async-put", ident + ":queued", good and len(sub) == 1,
                   "; ".join(show(e.term) for e in calls(p)), f.site)
            for e in sub:
                if last(cname(e)) in ("apply_async", "Thread", "submit", "apply"):
                    fnarg = [a for a in list(e.term.args[1]) + [v for _, v in e.term.args[2]]
                             if a.tag == "attr" and a.args[1] == "do_put"]
                    ctx.ob("async-put", ident + ":store", bool(fnarg), show(e.term), e.site)
    ctx.need("async-put", 7)


def parallel_classes(ctx):
    from checks.common import nested_classes
    m = ctx.project.module("now.persistence.content.parallel")
    out = []
    for fn in ("create_distributed", "create_pool", "create_threading"):
        f = m.funcs.get(fn)
        if f is None:
            raise AnalysisBroken(fn + " not found")
        out += [c for c in nested_classes(f) if "put" in c.methods]
    return out


def mock_store(ctx):
    ctx.rule("put-id-is-digest", "put returns the digest of the whole content")


def dispatch(ctx):
    ctx.rule("engine-delegation", "the content database hands every operation to the engine")
    f = ctx.project.func("now.persistence.content_database:ContentDatabase.__getattr__")
    it = ctx.interp()
    for p in ctx.paths_of(it, f):
        if p.outcome != "return":
            continue
        a = param(f.params()[1])
        ok = p.value.tag == "call" and call_name(p.value) == "getattr" and \
            p.value.args[1][1] is a and selfattr(p.value.args[1][0]) == "content_database_engine"
        ctx.ob("engine-delegation", "ContentDatabase.__getattr__", ok, show(p.value), f.site)
