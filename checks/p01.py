"""P01: facts of the Prolog export.

The descriptions of the facts are read from the classes of the records and compared with their
columns and with the rules of the Prolog program that ships with the tool; the text that each
kind of attribute gives is taken from the abstract paths of its method.
"""
import ast
import os
import re

from vlib.rules import *
from checks import records

RULES = ["columns", "form_", "missing", "escaped", "described", "exported", "program"]
ASSUMPTIONS = ["A quoted atom of Prolog ends at a single quote that is not doubled, and has no line "
               "break of its own."]
BUILTIN = {("append", 3), ("append", 2), ("bagof", 3), ("setof", 3), ("findall", 3), ("between", 3),
           ("member", 2), ("memberchk", 2), ("once", 1), ("sort", 2), ("msort", 2), ("union", 3),
           ("subtract", 3), ("intersection", 3), ("sub_atom", 5), ("atom_concat", 3), ("length", 2),
           ("maplist", 2), ("maplist", 3), ("maplist", 4), ("include", 3), ("exclude", 3),
           ("foldl", 4), ("forall", 2), ("not", 1), ("call", 1), ("call", 2), ("call", 3),
           ("nth0", 3), ("nth1", 3), ("last", 2), ("reverse", 2), ("list_to_set", 2), ("delete", 3),
           ("findall", 4), ("sumlist", 2), ("sum_list", 2), ("max_list", 2), ("min_list", 2)}
PROLOG = "now.utils.prolog"
EXPORT = "now.models.trial_prolog:TrialProlog"
TEXT = {"Text", "String"}
NUMBER = {"Integer", "Float", "BigInteger", "Numeric"}


class Attr(object):
    def __init__(self, cls, name, source, func, link, node):
        self.cls, self.name, self.source, self.func, self.link, self.node = \
            cls, name, source, func, link, node


class Fact(object):
    def __init__(self, table, name, attrs, node):
        self.table, self.name, self.attrs, self.node = table, name, attrs, node


def call_of(node, names):
    return isinstance(node, ast.Call) and \
        (node.func.id if isinstance(node.func, ast.Name) else getattr(node.func, "attr", None)) in names


def facts(ctx):
    module = ctx.project.module(PROLOG)
    kinds = dict(module.classes)
    out = []
    for t in records.tables(ctx).values():
        scope = t.cls.module.tree.body + t.cls.node.body
        consts = {x.id: st.value for st in scope if isinstance(st, ast.Assign)
                  for x in st.targets if isinstance(x, ast.Name)}
        node = consts.get("prolog_description")
        if node is None:
            continue
        if not call_of(node, {"PrologDescription"}):
            raise AnalysisBroken("description of " + t.name)

        def value(n):
            return consts.get(n.id, n) if isinstance(n, ast.Name) else n
        given = {k.arg: value(k.value) for k in node.keywords}
        pos = [value(a) for a in node.args]
        name = pos[0] if pos else given["name"]
        rows = pos[1] if len(pos) > 1 else given["attributes"]
        attrs = []
        for e in rows.elts:
            e = value(e)
            if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in kinds):
                raise AnalysisBroken("attribute of " + t.name)
            kw = {k.arg: value(k.value) for k in e.keywords}
            args = [value(a) for a in e.args]
            aname = (args[0] if args else kw["name"]).value
            func = args[1] if len(args) > 1 else kw.get("fn")
            if isinstance(func, ast.Constant) and func.value is None:
                func = None
            source = args[2] if len(args) > 2 else kw.get("attr_name")
            source = source.value if isinstance(source, ast.Constant) and source.value else aname
            link = kw.get("link")
            attrs.append(Attr(kinds[e.func.id], aname, source, func,
                              link.value if isinstance(link, ast.Constant) else None, e))
        out.append(Fact(t, name.value, attrs, node))
    return out


def site(f):
    return "{}:{}".format(f.table.cls.site.rsplit(":", 1)[0], f.node.lineno)


def column_type(t, col):
    call = t.columns[col]
    types = [a.id if isinstance(a, ast.Name) else getattr(a, "attr", None)
             for a in call.args if isinstance(a, (ast.Name, ast.Attribute))]
    types += [a.func.id for a in call.args if isinstance(a, ast.Call) and
              isinstance(a.func, ast.Name)]
    for x in types:
        if x in TEXT | NUMBER | {"Boolean", "TIMESTAMP", "DateTime"}:
            return x
    return None


def columns(ctx):
    ctx.rule("columns", "every attribute of a fact has the value of the column of its name, and no "
             "two have the same")
    for f in facts(ctx):
        for a in f.attrs:
            if a.func is not None:
                reads = {n.attr for n in ast.walk(a.func) if isinstance(n, ast.Attribute)}
                ok = a.name in reads
            else:
                ok = a.source in f.table.columns and a.source == a.name
            ctx.ob("columns", "{}.{}".format(f.name, a.name), ok,
                   "has the value of {}".format(a.source), site(f))
        names = [a.name for a in f.attrs]
        ctx.ob("columns", f.name + " once", len(set(names)) == len(names), "", site(f))
        kinds = {a.name: a.cls.name for a in f.attrs}
        key = "id" if f.table.name == "Trial" else "trial_id"
        ctx.ob("columns", f.name + " of its trial", key in kinds, "no trial", site(f))
    ctx.need("columns", 60)


def written(ctx, cls):
    """(kind of text, name that the path is for, missing value) of each path of fact"""
    f = cls.find_method("fact")
    it = ctx.interp(loops=(0, 1), max_states=6000)
    it.keep_pc = True
    out = []
    for p in ctx.paths_of(it, f, cls=cls):
        if p.outcome != "return":
            continue
        only, other, missing = None, set(), None
        for k, v in p.pc.items():
            s = k.args[0] if k.tag == "truth" else k
            if s.tag == "cmp" and s.args[0] == "Eq" and any(
                    is_const(x) and isinstance(x.args[1], str) for x in s.args[1:]) and any(
                        x.tag == "attr" and x.args[1] == "name" for x in s.args[1:]):
                c = [x.args[1] for x in s.args[1:] if is_const(x)][0]
                if v is True:
                    only = c
                else:
                    other.add(c)
            if s.tag == "cmp" and s.args[0] == "Is" and any(
                    is_const(x) and x.args[1] is None for x in s.args[1:]):
                missing = v is True
            if k.tag == "truth" and values_of(k.args[0]) and missing is None:
                missing = v is not True if is_const(p.value) else None
        out.append((p.value, only, other, missing, form(p.value)))
    return out


def values_of(t):
    return t.tag == "call" and (call_name(t) == "getattr" or contains_func(t))


def contains_func(t):
    return isinstance(t.args[0], T) and t.args[0].tag == "attr" and t.args[0].args[1] == "func"


def form(t):
    if is_const(t):
        v = str(t.args[1])
        if re.match(r"-?\d+$", v):
            return "constant"
        return "nil" if v == "nil" else "quoted" if v.startswith("'") else "word"
    text = show(t)
    if t.tag == "fmt":
        return "quoted" if is_const(t.args[0]) and str(t.args[0].args[1]).startswith("'") and \
            is_const(t.args[-1]) and str(t.args[-1].args[1]).endswith("'") else "plain"
    if t.tag == "binop":
        ends = [x for x in subterms(t) if is_const(x) and x.args[1] == "'"]
        return "quoted" if len(ends) >= 2 else "plain"
    if "total_seconds" in text or "timestamp(" in text:
        return "seconds"
    return "plain"


def applies(row, a):
    value, only, other, missing, kind = row
    return (only is None or only == a.name) and a.name not in other


def form_(ctx):
    ctx.rule("form", "texts and identifiers of trials are quoted, numbers are not, booleans are 0 or "
             "1 and times are numbers of seconds: True, None or an identifier without quotes would "
             "be a variable or an error")
    memo = {}
    for f in facts(ctx):
        for a in f.attrs:
            rows = memo.setdefault(a.cls.name, None) or written(ctx, a.cls)
            memo[a.cls.name] = rows
            got = {r[4] for r in rows if applies(r, a) and r[3] is not True}
            if not got:
                raise AnalysisBroken("attribute " + a.cls.name)
            if a.source not in f.table.columns or a.func is not None:
                continue
            typ = column_type(f.table, a.source)
            if a.link == "trial.id" or (a.link or "").endswith(".trial_id") or typ in TEXT:
                want = {"quoted"}
            elif typ == "Boolean":
                want = {"constant"}
            elif typ in ("TIMESTAMP", "DateTime"):
                want = {"seconds", "nil"}
            elif typ in NUMBER:
                want = {"plain"}
            else:
                want = {"quoted"}
            ctx.ob("form", "{}.{}".format(f.name, a.name), got <= want,
                   "{} is written {}".format(typ, "/".join(sorted(got))), site(f))
    ctx.need("form", 60)


def missing(ctx):
    ctx.rule("missing", "a column that can have no value is nil in the fact (or -1 for a time) if it "
             "has none")
    memo = {}
    null = {}
    for r in records.records(ctx):
        null.setdefault(r.table.cls.qual, set()).update(r.nullable)
    for f in facts(ctx):
        for a in f.attrs:
            if a.source not in null.get(f.table.cls.qual, ()):
                continue
            rows = memo.get(a.cls.name) or written(ctx, a.cls)
            memo[a.cls.name] = rows
            none = {r[4] for r in rows if applies(r, a) and r[3] is True}
            ctx.ob("missing", "{}.{}".format(f.name, a.name), bool(none) and none <= {
                "nil", "constant"}, "written as any other value", site(f))
    ctx.need("missing", 3)


def escaped(ctx):
    ctx.rule("escaped", "whatever characters a text has, it stays one quoted atom: single quotes are "
             "doubled, backslashes and line breaks are escaped")
    seen = {a.cls.name: a.cls for f in facts(ctx) for a in f.attrs}
    for n, cls in sorted(seen.items()):
        for value, only, other, miss, kind in written(ctx, cls):
            if kind != "quoted":
                continue
            done = {tuple(x.args[1] for x in call_args_(s)) for s in subterms(value)
                    if s.tag == "call" and last(call_name(s)) == "replace"}
            quote = ("'", "''") in done or ("'", "\\'") in done
            ctx.ob("escaped", n + " quotes", quote, show(value)[:150], cls.site)
            if any(s.tag == "call" and call_name(s) == "repr" for s in subterms(value)) or \
                    n.endswith("Repr"):
                ctx.ob("escaped", n + " backslashes", ("\\", "\\\\") in done, show(value)[:150],
                       cls.site)
                ctx.ob("escaped", n + " lines", ("\n", "\\n") in done, show(value)[:150], cls.site)
    ctx.need("escaped", 3)


def call_args_(t):
    return [x for x in t.args[1] if is_const(x)]


def described(ctx):
    ctx.rule("described", "a fact has its name and each attribute once in its order; the dynamic "
             "declaration has the number of them, and a retraction the trial and nothing else")
    cls = ctx.project.module(PROLOG).classes["PrologDescription"]
    for meth, inner in (("fact", "fact"), ("retract", "retract"), ("empty", "empty")):
        f = cls.find_method(meth)
        it = ctx.interp(loops=(0, 2), opaque_fn=lambda g: g is not f)
        param = ([None] + f.params())[-1] if meth != "empty" else None
        for p in ctx.paths_of(it, f, cls=cls):
            if p.outcome != "return":
                continue
            n = [v for k, v in p.pc.items() if k.tag == "niter"]
            text = show(p.value)
            ok = ".name" in text and (not n or n[0] == 0 or "." + inner + "(" in text and (
                param is None or "(" + param + ")" in text))
            ctx.ob("described", meth, ok and ".attributes" in (
                text if n and n[0] else ".attributes"), text[:160], f.site)
    f = cls.find_method("dynamic")
    it = ctx.interp(loops=(0, 1))
    for p in ctx.paths_of(it, f, cls=cls):
        text = show(p.value)
        ctx.ob("described", "dynamic", ".name" in text and "len(" in text and ".attributes" in text
               and "binop" not in text, text[:160], f.site)
    for f in facts(ctx):
        which = []
        for a in f.attrs:
            m = a.cls.find_method("retract")
            it = ctx.interp(loops=(0, 1))
            if any(p.outcome == "return" and not is_const(p.value)
                   for p in ctx.paths_of(it, m, cls=a.cls)):
                which.append(a.name)
        if f.name == "head":
            continue
        ctx.ob("described", f.name + " retract", which in (["trial_id"], ["id"]) and (
            which == ["id"]) == (f.table.name == "Trial"), "retracted by " + ", ".join(which), site(f))


def exported(ctx):
    ctx.rule("exported", "the export declares every kind of fact and has one fact for each record of "
             "the kind of its trial")
    cls = ctx.project.cls(EXPORT)
    f = cls.find_method("_export_facts")
    it = ctx.interp(loops=(0, 2), max_states=8000, opaque_fn=lambda g: g is not f)
    it.keep_pc = True
    n = 0
    for p in ctx.paths_of(it, f, cls=cls):
        if p.outcome != "return":
            continue
        kinds = [v for k, v in p.pc.items() if k.tag == "niter" and ".models" in show(k)]
        if not kinds or kinds[0] == 0:
            continue
        dyn = [e for e in calls(p) if last(cname(e)) == "dynamic"]
        made = [e for e in calls(p) if last(cname(e)) == "fact"]
        n += 1
        ctx.ob("exported", "_export_facts declared", len(dyn) == kinds[0], "{} of {}".format(
            len(dyn), kinds[0]), f.site)
        inner = [v for k, v in p.pc.items() if k.tag == "niter" and "elem(" in show(k)]
        if any(inner):
            ctx.ob("exported", "_export_facts facts", bool(made), "no fact", f.site)
        for e in made:
            ctx.ob("exported", "_export_facts given", contains(p.value, e.term), show(p.value)[:160],
                   f.site)
    ctx.need("exported", 2)
    g = cls.find_method("prolog_models")
    it = ctx.interp(loops=(0, 1))
    want = {f.table.name for f in facts(ctx)} - {"Head", "Composition"}
    listed = {}
    for node in ast.walk(g.node):
        if isinstance(node, ast.Tuple) and len(node.elts) == 2 and isinstance(node.elts[0], ast.Name):
            if isinstance(node.elts[1], ast.Lambda):
                listed[node.elts[0].id] = ast.unparse(node.elts[1].body)
            else:
                listed[node.elts[0].id] = None
    if listed and all(v for v in listed.values()):
        for w in sorted(want):
            ctx.ob("exported", "kind " + w, w in listed, "not exported", g.site)
        rel = {"Trial": None, "EnvironmentAttr": "environment_attrs", "FileAccess": "file_accesses",
               "Dependency": "dependencies"}
        for k, v in listed.items():
            name = rel.get(k, re.sub(r"(?<!^)(?=[A-Z])", "_", k).lower() + "s")
            if name:
                ctx.ob("exported", "records of " + k, v.endswith("." + name), v, g.site)


def split_args(text):
    """Arguments of the term whose opening parenthesis is the first character"""
    depth, quote, n, empty = 0, None, 0, True
    for ch in text:
        if quote:
            quote = None if ch == quote else quote
            continue
        if ch in "'\"":
            quote = ch
            empty = False
        elif ch in "([":
            depth += 1
        elif ch in ")]":
            depth -= 1
            if depth == 0:
                return 0 if empty else n + 1
        elif ch == "," and depth == 1:
            n += 1
        elif not ch.isspace():
            empty = False
    return None


def program(ctx):
    ctx.rule("program", "the rules that the tool ships use every fact with the number of attributes "
             "that the export gives it")
    mod = ctx.project.module("now.models.trial_prolog")
    path = None
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and \
                str(st.value.value).endswith(".pl"):
            path = st.value.value
    root = os.path.dirname(os.path.dirname(os.path.dirname(mod.path)))
    full = os.path.join(root, "resources", os.path.basename(path or "rules.pl"))
    arity = {f.name: len(f.attrs) for f in facts(ctx)}
    with open(full, encoding="utf-8") as fil:
        lines = fil.read().split("\n")
    rules = {}
    for line in lines:
        m = re.match(r"\s*([a-z]\w*)\(", line)
        if m and not line.strip().startswith("%"):
            rules.setdefault(m.group(1), set()).add(split_args(line[m.end() - 1:]))
    for i, line in enumerate(lines):
        if line.strip().startswith("%"):
            continue
        where = "capture/noworkflow/resources/{}:{}".format(os.path.basename(full), i + 1)
        for m in re.finditer(r"(?<![\w'])([a-z]\w*)\(", line):
            name, k = m.group(1), split_args(line[m.end() - 1:])
            known = rules.get(name, set()) | ({arity[name]} if name in arity else set())
            if (name, k) in BUILTIN:
                continue
            if re.search(r"(maplist|include|exclude|foldl|forall)\($", line[:m.start()]):
                ok = any(x is not None and k is not None and x > k for x in known)
            else:
                ok = k in known
            ctx.ob("program", "{}/{}".format(name, k), ok,
                   "the fact has {} attributes".format(arity[name]) if name in arity else
                   "there is no such rule", where)
    ctx.need("program", 40)
