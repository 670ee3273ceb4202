"""Requests cannot inject into the commands that the web interface runs.

Every command that an abstract path of a handler starts is a list: its first
two words do not come from the request (or are limited by the path condition),
and every part of the request is exactly one word, behind its own option.
"""
import ast

from vlib.rules import *
from checks.commands import command_classes, options, command_name, Option
from checks.w01 import handlers, handler, shape, paths, PART

RULES = ["listed", "command", "words_rule", "known_options", "switches", "other_shells"]
ASSUMPTIONS = ["subprocess runs a list of words without a shell."]
RUN = {"run", "call", "check_call", "check_output", "Popen", "getoutput", "getstatusoutput",
       "system", "popen"}



def runs(ctx):
    """(handler, url, path, call) for every command that a handler starts"""
    if hasattr(ctx, "_w02_runs"):
        return ctx._w02_runs
    out = []
    done = set()
    for url, ms, f in handlers(ctx):
        if f.qual in done:
            continue
        done.add(f.qual)
        for p in paths(ctx, f):
            for e in p.events:
                if e.kind in ("call", "new") and last(cname(e)) in RUN and (
                        "subprocess" in cname(e) or "os." in cname(e)):
                    out.append((f, url, p, e.term))
    ctx._w02_runs = out
    return out


def words(t):
    v = arg(t, "args", 0)
    return list(v.args) if v is not None and v.tag in ("list", "tuple") else None


def listed(ctx):
    ctx.rule("listed", "commands are lists of words that no shell interprets")
    for f, url, p, t in runs(ctx):
        sh = dict(t.args[2]).get("shell")
        ctx.ob("listed", shape(url), last(call_name(t)) in (
            "run", "call", "check_call", "check_output", "Popen") and words(t) is not None and (
                sh is None or is_const(sh) and not sh.args[1]) and
            "executable" not in dict(t.args[2]), show(t)[:100], f.site)
    ctx.need("listed", 3)


def limited(p, w):
    """Constants that the path allows for a word"""
    vals = [c.args[2].args[1] for c, v in p.pc.items()
            if c.tag == "cmp" and c.args[1] == w and is_const(c.args[2]) and
            v is (c.args[0] == "Eq") and c.args[0] in ("Eq", "NotEq")]
    if vals:
        return vals[:1]
    for c, v in p.pc.items():
        if c.tag == "cmp" and c.args[1] == w and c.args[0] in ("In", "NotIn") and \
                v is (c.args[0] == "In"):
            if c.args[2].tag in ("tuple", "list", "set") and all(is_const(x)
                                                                  for x in c.args[2].args):
                return [x.args[1] for x in c.args[2].args]
            if is_const(c.args[2]) and isinstance(c.args[2].args[1], (tuple, frozenset)):
                return list(c.args[2].args[1])
    return None


EXPECTED = {
    "/commands/restore/trial/": {"restore"}, "/commands/restore/file/": {"restore"},
    "/commands/prov/": {"prov"}, "/commands/export/": {"export"},
    "/commands/dataflow/": {"dataflow"}, "/commands/<>/<>": {"push", "pull"}}


def command(ctx):
    ctx.rule("command", "the program and the command do not come from the request, and are the "
             "ones of the URL")
    names = {command_name(c) for c in command_classes(ctx)}
    for f, url, p, t in runs(ctx):
        ws = words(t)
        if ws is None:
            continue
        ok = len(ws) >= 2 and strval(ws[0]) == "now"
        cmds = [strval(ws[1])] if ok and is_const(ws[1]) else (
            limited(p, ws[1]) if ok else None)
        want = [v for k, v in EXPECTED.items() if shape(url).startswith(k)]
        ctx.ob("command", shape(url), bool(cmds) and set(cmds) <= names and
               (not want or set(cmds) <= want[0]), "{}".format([show(x) for x in ws[:2]]), f.site)
        if bool(cmds) and not want:
            ctx.ob("command", shape(url) + ":safe", not params_in(ws[1]), "", f.site)
    ctx.need("command", 3)


def words_rule(ctx):
    ctx.rule("words", "every part of the request is exactly one word, after the command")
    n = 0
    for f, url, p, t in runs(ctx):
        ws = words(t)
        if ws is None:
            continue
        parts = set(f.params())
        for w in ws[2:]:
            used = params_in(w) & parts
            if not used:
                ctx.ob("words", shape(url) + ":constant", w.tag == "const" or is_number(w) or
                       not any(x.tag in ("star", "elem") for x in subterms(w)), show(w)[:80],
                       f.site)
                continue
            n += 1
            base = w
            while base.tag == "call" and call_name(base) in ("str", "int") and \
                    len(base.args[1]) == 1:
                base = base.args[1][0]
            ctx.ob("words", shape(url) + ":" + ",".join(sorted(used)), base.tag == "param",
                   show(w)[:80], f.site)
    ctx.ob("words", "parts", n > 0, "no part is used", "noworkflow/now/vis/views.py")
    ctx.need("words", 5)


def is_number(w):
    return w.tag == "call" and call_name(w) == "str"


def known_options(ctx):
    ctx.rule("known-options", "the command has every option, and an option that takes a value is "
             "followed by one")
    table = {}
    for c in command_classes(ctx):
        table.setdefault(command_name(c), []).append(c)
    for f, url, p, t in runs(ctx):
        ws = words(t)
        if ws is None or len(ws) < 2:
            continue
        cmds = [strval(ws[1])] if is_const(ws[1]) else (limited(p, ws[1]) or [])
        for cmd in cmds:
            opts = {}
            npos = 0
            for c in table.get(cmd, []):
                for o in options(c):
                    if o.positional:
                        npos += 1
                    for fl in o.flags:
                        opts[fl] = o
            i, free = 2, 0
            while i < len(ws):
                s = strval(ws[i])
                if s is not None and s.startswith("-"):
                    o = opts.get(s)
                    ctx.ob("known-options", cmd + " " + s, o is not None, "does not exist", f.site)
                    if o is not None and o.kw.get("nargs") is not None and ast.unparse(
                            o.kw["nargs"]).endswith("REMAINDER"):
                        # the rest of the words are the arguments of another parser
                        opts = {fl: o2 for c in table[cmd] for o2 in nested(c)
                                for fl in o2.flags}
                        npos += sum(not fl.startswith("-") for fl in opts)
                        i += 1
                        continue
                    if o is not None and o.action not in ("store_true", "store_false",
                                                          "store_const", "count") and \
                            not o.custom:
                        opt = o.kw.get("nargs")
                        nxt = ws[i + 1] if i + 1 < len(ws) else None
                        has = nxt is not None and not (
                            strval(nxt) is not None and strval(nxt).startswith("-"))
                        ctx.ob("known-options", cmd + " " + s + " value", has or
                               opt is not None and ast.unparse(opt) in ("'?'", "'*'"),
                               "without a value", f.site)
                        i += 1 if has else 0
                        ch = o.kw.get("choices")
                        if has and ch is not None:
                            try:
                                vals = ast.literal_eval(ch)
                            except ValueError:
                                vals = None
                            given = [strval(nxt)] if is_const(nxt) else limited(p, nxt)
                            ctx.ob("known-options", cmd + " " + s + " choice", vals is None or
                                   s not in LIMITED and given is None or
                                   given is not None and set(given) <= set(vals),
                                   str(given), f.site)
                else:
                    free += 1
                i += 1
            ctx.ob("known-options", cmd + " positional", free <= npos,
                   "{} words for {} arguments".format(free, npos), f.site)
    ctx.need("known-options", 5)


def nested(cls):
    """Options of the parsers that the methods of a command create"""
    return [Option(n, f) for f in cls.methods.values() if f.name != "add_arguments"
            for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr == "add_argument" and n.args]


LIMITED = {"-m"}      # (numbers are compared with their range instead)


# parameter of the URL (by position) -> switch, value that turns it on
SWITCHES = {
    "/commands/restore/trial/<t>/<a>/<b>/<c>": {1: "-s", 2: "-l", 3: "-a"},
    "/commands/export/<t>/<a>/<b>": {1: "-r", 2: "-t"},
}
DATAFLOW = ["trial", "-T", "-t", "-H", "-a", "-e", "-g", "-d", "--value-length", "-n", "-m",
            "wdf", "eid"]
TWO = {"/commands/restore/file/<t>/<f>/<i>/<o>": {1: "-f", 2: "-i", 3: "-t"}}


def switches(ctx):
    ctx.rule("switches", "an option is given exactly if the request turns it on, with its own "
             "part of the request as value")
    for url, table in SWITCHES.items():
        f, ps = own(ctx, url)
        if f is None:
            continue
        parts = PART.findall(ps)
        for f2, u, p, t in runs(ctx):
            if f2 is not f or words(t) is None:
                continue
            got = {strval(w) for w in words(t)[2:] if strval(w)}
            for i, s in table.items():
                on = value_of(p, param(parts[i]), "true")
                ctx.ob("switches", shape(url) + ":" + s, on is not None and (s in got) is on,
                       "given" if s in got else "not given", f.site)
            ctx.ob("switches", shape(url) + ":trial", param(parts[0]) == words(t)[2],
                   show(words(t)[2]), f.site)
    for url, table in TWO.items():
        f, ps = own(ctx, url)
        if f is None:
            continue
        parts = PART.findall(ps)
        for f2, u, p, t in runs(ctx):
            if f2 is not f or words(t) is None:
                continue
            ws = words(t)
            for i, s in table.items():
                at = [k for k, w in enumerate(ws) if strval(w) == s]
                off = value_of(p, param(parts[i]), "false") if i > 1 else False
                ctx.ob("switches", shape(url) + ":" + s, off is not None and
                       bool(at) is (not off) and (not at or ws[at[0] + 1:at[0] + 2] == [
                           param(parts[i])]), "", f.site)
    f = [h for u, ms, h in handlers(ctx) if u.startswith("/commands/dataflow/")]
    f = f[0] if f else None
    if f is not None:
        parts = PART.findall([u for u, ms, h in handlers(ctx) if h is f][0])
        if ctx.ob("switches", "dataflow parts", len(parts) == len(DATAFLOW), str(parts), f.site):
            own_ = dict(zip(DATAFLOW, parts))
            seen = {}
            for f2, u, p, t in runs(ctx):
                if f2 is not f or words(t) is None:
                    continue
                ws = words(t)
                strs = [strval(w) for w in ws]
                for s in ("-T", "-t", "-H"):
                    on = value_of(p, param(own_[s]), "true")
                    if not (on is not None and (s in strs) is on):
                        seen.setdefault(s, False)
                on = value_of(p, param(own_["wdf"]), "true")
                if not (on is not None and ("-w" in strs) is on and (
                        not on or ws[strs.index("-w") + 1] == param(own_["eid"]))):
                    seen.setdefault("-w", False)
                for s in ("-a", "-e", "-g", "-d", "--value-length", "-n", "-m"):
                    v = ws[strs.index(s) + 1] if s in strs else NONE
                    if params_in(v):
                        seen.setdefault(s + " value", True)
                        if params_in(v) != {own_[s]}:
                            seen[s + " value"] = False
                    elif s not in strs:
                        seen[s] = False
                    elif s != "-m" and not any(
                            own_[s] in params_in(c) for c in p.pc):
                        seen[s] = False
            for s in ("-T", "-t", "-H", "-w"):
                seen.setdefault(s, True)
            for s in ("-a", "-e", "-g", "-d", "--value-length", "-n", "-m"):
                seen.setdefault(s + " value", False)
            for s, ok in sorted(seen.items()):
                ctx.ob("switches", "dataflow " + s, ok, "does not follow the request", f.site)
    f, ps = own(ctx, "/commands/<c>/<path:u>")
    if f is not None:
        for f2, u, p, t in runs(ctx):
            if f2 is f and words(t) is not None:
                ws = words(t)
                ctx.ob("switches", "collaboration url", len(ws) == 4 and strval(
                    ws[2]) == "--url" and ws[3] == param(PART.findall(ps)[1]), show(t)[:80],
                       f.site)
    ctx.need("switches", 5)


def own(ctx, url):
    for u, ms, f in handlers(ctx):
        if shape(u) == shape(url):
            return f, u
    return None, None


def value_of(p, part, text):
    """Whether the path assumes that the part is the text"""
    for c, v in p.pc.items():
        env = lambda on: (lambda t: (text if on else "other\0") if t == part else UNKNOWN)
        a, b = fold(c, env(True)), fold(c, env(False))
        if a is not UNKNOWN and b is not UNKNOWN and bool(a) is not bool(b):
            return bool(a) is v
    return None


def other_shells(ctx):
    ctx.rule("other-shells", "no request reaches eval, exec or a shell")
    n = 0
    done = set()
    for url, ms, f in handlers(ctx):
        if f.qual in done:
            continue
        done.add(f.qual)
        n += 1
        bad = []
        for p in paths(ctx, f):
            for e in p.events:
                if e.kind != "call":
                    continue
                nm = call_name(e.term)
                if nm in ("eval", "exec", "compile", "__import__", "os.system", "os.popen",
                          "os.execv", "os.spawnl", "importlib.import_module",
                          "subprocess.getoutput"):
                    bad.append(nm)
        ctx.ob("other-shells", shape(url), not bad, str(set(bad)), f.site)
    ctx.need("other-shells", 10)




