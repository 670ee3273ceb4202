"""The tool's own file activity is not captured, the script's is.

Pairing analysis of the suspension of capture (every exit restores what was
there, per thread, nested and on errors), must-be-inside analysis of the places
where the tool touches files while the script runs, and a who-may-call rule on
the patched open functions in the modules that run next to the script.
"""
import ast

from vlib.rules import *
from checks.common import iter_functions

RULES = ["suspension", "restoration", "guard", "engines", "loaders", "who_may_open"]
ASSUMPTIONS = [
    "The original open functions are saved before they are replaced (module import order).",
    "A context manager of the standard library behaves as documented.",
]
SAFE = "now.persistence.content.safeopen"


def body_paths(ctx, name, raiser=None):
    """Paths of `with <cm>(): BODY` where BODY may fail"""
    from vlib.absint import State
    f = ctx.project.func(SAFE + ":" + name)
    it = ctx.interp()
    it.raiser = lambda t: ["BaseException*"] if call_name(t) == "BODY" else ()
    src = "def probe():\n    with cm():\n        BODY()\n"
    tree = ast.parse(src)
    from vlib.project import FuncInfo
    fi = FuncInfo(f.module, tree.body[0])
    # the probe sees the context manager under the name cm
    fi.module = _Alias(f.module, {"cm": f})
    return it.run(fi), f


class _Alias(object):
    """A module with extra names"""

    def __init__(self, module, extra):
        self._m = module
        self._extra = extra

    def resolve(self, name, *a):
        if name in self._extra:
            return self._extra[name]
        if name == "BODY":
            return ("ext", "BODY")
        return self._m.resolve(name, *a)

    def __getattr__(self, name):
        return getattr(self._m, name)


def suspension(ctx):
    ctx.rule("suspension", "inside the suspension the calling thread is not captured; afterwards "
             "its former state is back, whatever happened inside")
    paths, f = body_paths(ctx, "use_safe_open")
    outcomes = set()
    for p in paths:
        body = [i for i, e in enumerate(p.events) if cname(e) == "BODY" and e.kind == "call"]
        if not body:
            continue
        raised = p.outcome == "raise"
        outcomes.add(raised)
        sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "setitem"]
        before = [e for i, e in sets if i < body[0]]
        after = [e for i, e in sets if i > body[0]]
        kind = "on error" if raised else "normally"
        on = before[-1] if before else None
        ctx.ob("suspension", "use_safe_open:sets", on is not None and
               on.extra.args[1] is TRUE, "not suspended", f.site)
        off = after[-1] if after else None
        ok = off is not None and on is not None and off.extra.args[0] is on.extra.args[0] \
            and former(off.extra.args[1], on.extra.args[0])
        ctx.ob("suspension", "use_safe_open:restores " + kind, ok,
               "left with " + (repr(off) if off else "capture suspended"), f.site)
        if on is not None:
            ctx.ob("suspension", "use_safe_open:thread",
                   any(last(call_name(t)) in ("current_thread", "get_ident")
                       for t in subterms(on.extra.args[0]) if t.tag == "call"),
                   "keyed by " + show(on.extra.args[0]), f.site)
    ctx.ob("suspension", "use_safe_open:exits", outcomes == {True, False},
           "exits {}".format(outcomes), f.site)
    # the question is asked with the same key
    g = ctx.project.func(SAFE + ":should_use_safe_open")
    it = ctx.interp()
    key = [e.extra.args[0] for p in paths for e in p.events if e.kind == "setitem"]
    tab = [e.term for p in paths for e in p.events if e.kind == "setitem"]
    for p in ctx.paths_of(it, g):
        v = p.value
        ok = bool(key) and contains(v, key[0]) and contains(v, tab[0]) and \
            not any(x.tag in ("bool", "not") for x in subterms(v))
        ctx.ob("suspension", "should_use_safe_open", ok, show(v), g.site)


def former(t, key):
    """The value looked up for the same key, False when there was none"""
    if t.tag == "call" and call_name(t).rsplit(".", 1)[-1] == "get":
        a = t.args[1]
        return len(a) >= 1 and a[0] is key and (len(a) == 1 or a[1] in (FALSE, NONE))
    if t.tag == "item":
        return t.args[1] is key
    return t is FALSE and False


OPENS = [("builtins", "open", "std_open"), ("io", "open", "io_open"),
         ("codecs", "open", "codecs_open"), ("os", "open", "os_open")]


def restoration(ctx):
    ctx.rule("restoration", "the temporary return to the original open functions puts every "
             "replaced function back on every exit")
    paths, f = body_paths(ctx, "restore_open")
    for p in paths:
        body = [i for i, e in enumerate(p.events) if cname(e) == "BODY" and e.kind == "call"]
        if not body:
            continue
        kind = "on error" if p.outcome == "raise" else "normally"
        for mod, name, std in OPENS:
            sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "setattr" and
                    e.extra.args[0] == name and show(e.term) == mod]
            before = [e for i, e in sets if i < body[0]]
            after = [e for i, e in sets if i > body[0]]
            ok = bool(before) and show(before[-1].extra.args[1]).endswith(std)
            ctx.ob("restoration", "{}.{}:original".format(mod, name), ok,
                   repr(before), f.site)
            ok = bool(after) and bool(before) and \
                show(after[-1].extra.args[1]) == "{}.{}".format(mod, name)
            ctx.ob("restoration", "{}.{}:back {}".format(mod, name, kind), ok,
                   repr(after), f.site)
    ctx.need("restoration", 8)


def guard(ctx):
    ctx.rule("guard", "while capture is suspended for the thread, a call of the replaced open "
             "function is the original call and nothing else")
    f = ctx.project.func("now.collection.prov_execution.collector:Collector.new_open")
    it = ctx.interp()
    old = param(f.params()[1])
    n = 0
    for p in ctx.paths_of(it, f):
        it2 = ctx.interp(max_states=2000)
        for q in it2.run_value(p.value, [mk("param", "name")], p.state):
            s = suspended(q)
            if s is not True:
                continue
            n += 1
            extra = [e for e in q.events if e.kind in ("setattr", "setitem", "aug") or (
                e.kind == "call" and e.term.args[0] is not old and
                not quiet(e.term))]
            extra = [e for e in extra if e not in p.events]
            opens = [e for e in q.events if e.kind == "call" and e.term.args[0] is old]
            ctx.ob("guard", "new_open", not extra and len(opens) == 1 and
                   q.value is opens[0].term, "; ".join(repr(e) for e in extra) or show(q.value),
                   f.site)
    ctx.ob("guard", "new_open:asked", n > 0, "the suspension is not consulted", f.site)


def suspended(q):
    for k, v in q.pc.items():
        for t in subterms(k):
            if t.tag == "call" and last(call_name(t)) == "should_use_safe_open":
                return v
            if t.tag == "call" and last(call_name(t)) == "get" and "open_usage" in show(t):
                return v
    return None


def quiet(t):
    return last(call_name(t)) in ("should_use_safe_open", "get", "current_thread", "get_ident")


def inside(p, index, names):
    """The event happens inside one of the context managers"""
    depth = 0
    for e in p.events[:index]:
        nm = cm_name(e.term)
        if e.kind == "enter" and nm in names:
            depth += 1
        elif e.kind == "exit" and nm in names:
            depth -= 1
    return depth > 0


def cm_name(t):
    if t.tag == "cm":
        return last(show(t.args[0]))
    if t.tag == "call":
        return last(call_name(t))
    return ""


SUSPEND = {"use_safe_open", "restore_open"}


def engines(ctx):
    ctx.rule("engines", "an engine whose library opens files in Python stores content with capture "
             "suspended, and nothing it opens itself goes through the replaced functions")
    for qual, libs in (("now.persistence.content.puregit_engine:PureGitEngine", ("Popen",)),
                       ("now.persistence.content.dulwich_engine:DulwichEngine",
                        ("Repo", "add_object", "from_string"))):
        f = ctx.project.func(qual + ".do_put")
        it = ctx.interp(opaque_names={"use_safe_open", "restore_open"})
        n = 0
        for p in it.run(f):
            for i, e in enumerate(p.events):
                if e.kind == "call" and last(cname(e)) in libs:
                    n += 1
                    ctx.ob("engines", "{}:{}".format(f.short, last(cname(e))),
                           inside(p, i, SUSPEND), "outside of the suspension", e.site)
        ctx.ob("engines", f.short + ":sites", n > 0, "no library call", f.site)


def loaders(ctx):
    ctx.rule("loaders", "a module of the script is located, read and instrumented with capture "
             "suspended, and the suspension ends with it")
    ctx.rule("script-captured", "the body of a module that belongs to the script runs with "
             "capture on")
    m = ctx.project.module("now.collection.prov_deployment.py3module")
    n = 0
    READS = {"collect", "create_code_block", "add_module", "get_filename", "find_spec",
             "getsource", "find_file_in_path"}
    for top in m.funcs.values():
        for fn in ast.walk(top.node):
            if not isinstance(fn, ast.FunctionDef) or fn.name not in (
                    "exec_module", "load_module", "find_spec"):
                continue
            owner = top.short + "." + fn.name
            ranges = [(w, w.body) for w in ast.walk(fn) if isinstance(w, ast.With) and any(
                isinstance(i.context_expr, ast.Call) and
                last(ast.unparse(i.context_expr.func)) in SUSPEND for i in w.items)]
            insiders = {id(x) for _, b in ranges for s in b for x in ast.walk(s)}
            # helpers that are only called from inside count as inside
            nested = {id(x) for d in ast.walk(fn) if d is not fn and
                      isinstance(d, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(d)}
            for x in ast.walk(fn):
                if isinstance(x, ast.Call) and id(x) not in nested:
                    nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(
                        x.func, "id", "")
                    if nm in READS:
                        n += 1
                        ctx.ob("loaders", "{}:{}".format(owner, nm), id(x) in insiders,
                               "outside of the suspension",
                               "{}:{}".format(m.rel, x.lineno))
        for fn in ast.walk(top.node):
            if not isinstance(fn, ast.FunctionDef) or fn.name != "exec_module":
                continue
            inner = {id(x) for w in ast.walk(fn) if isinstance(w, ast.With) and any(
                isinstance(i.context_expr, ast.Call) and
                last(ast.unparse(i.context_expr.func)) in SUSPEND for i in w.items)
                for s in w.body for x in ast.walk(s)}
            for x in ast.walk(fn):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                        x.func.id == "exec":
                    ctx.ob("script-captured", "{}.{}:exec".format(top.short, fn.name),
                           id(x) not in inner, "the body of a captured module runs with capture "
                           "suspended", "{}:{}".format(m.rel, x.lineno))
    ctx.need("loaders", 1)


RUNTIME = ("now.collection", "now.persistence.content", "now.persistence.lightweight")
# the module level open of the debugger happens before the replacement
ALLOWED = {"now.collection.prov_execution.debugger"}


def who_may_open(ctx):
    ctx.rule("who-may-open", "code that runs next to the script opens files through the saved "
             "originals")
    n = 0
    for mname in sorted(ctx.project.modules):
        short = mname[len("noworkflow."):] if mname.startswith("noworkflow.") else mname
        if not short.startswith(RUNTIME) or short.endswith("safeopen") or short in ALLOWED:
            continue
        m = ctx.project.modules[mname]
        for f in iter_functions(m):
            local = {a.arg for x in ast.walk(f.node) if isinstance(x, ast.arguments)
                     for a in x.args + x.kwonlyargs}
            guarded = {id(x) for w in ast.walk(f.node) if isinstance(w, ast.With) and any(
                isinstance(i.context_expr, ast.Call) and
                last(ast.unparse(i.context_expr.func)) in SUSPEND for i in w.items)
                for s in w.body for x in ast.walk(s)}
            for x in ast.walk(f.node):
                if not isinstance(x, ast.Call):
                    continue
                opened = None
                if isinstance(x.func, ast.Name) and x.func.id == "open" and \
                        "open" not in local and m.resolve("open") is None:
                    opened = "open"
                elif isinstance(x.func, ast.Attribute) and x.func.attr == "open" and \
                        isinstance(x.func.value, ast.Name) and \
                        x.func.value.id in ("io", "os", "codecs", "builtins"):
                    opened = ast.unparse(x.func)
                elif isinstance(x.func, ast.Attribute) and x.func.attr in (
                        "std_open", "io_open", "codecs_open", "os_open"):
                    n += 1
                    ctx.ob("who-may-open", "{}:{}".format(f.qual, x.func.attr), True, "",
                           "{}:{}".format(m.rel, x.lineno))
                    continue
                if opened:
                    ctx.ob("who-may-open", "{}:{}".format(f.qual, opened), id(x) in guarded,
                           ast.unparse(x), "{}:{}".format(m.rel, x.lineno))
    ctx.need("who-may-open", 4)
