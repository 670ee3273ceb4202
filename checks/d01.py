"""Every recorded value is written into its own column.

The declarations of the lightweight records, of the tables and the constructors
are compared: each column has an attribute, each attribute has on every path
the value of its own parameter, and the row that is inserted reads exactly
these attributes. All insertions by key are compared with the declared columns.
"""
import ast

from vlib.rules import *
from vlib.project import ClassInfo
from checks import records as rec
from checks.common import accepts

RULES = ["columns", "constructor", "rows", "inserts", "sites"]
ASSUMPTIONS = ["SQLAlchemy writes the value of each key of a row into the column of that name."]


def columns(ctx):
    ctx.rule("columns", "every column of the table of a record is one of its attributes, and "
             "sentinels become NULL only in columns that accept it")
    for r in rec.records(ctx):
        if r.attributes is None:
            continue
        for c in r.table.columns:
            if r.table.auto(c) and c not in r.attributes:
                continue        # given by the database
            ctx.ob("columns", "{}.{}".format(r.name, c), c in r.attributes,
                   "the column is never written", r.cls.site)
        for n in r.nullable:
            ctx.ob("columns", "{} nullable {}".format(r.name, n),
                   n in r.attributes and n not in r.table.primary,
                   "not an optional column", r.cls.site)
        for values, _ in rec.init_flow(ctx, r.cls):
            for a, v in values.items():
                if a in r.table.columns and is_const(v) and v.args[1] == -1 and \
                        any(set(cols) & {a} for cols, _ in r.table.foreign):
                    ctx.ob("columns", "{} sentinel {}".format(r.name, a), a in r.nullable,
                           "-1 would be written as a reference", r.cls.site)
    ctx.need("columns", 70)


def constructor(ctx):
    ctx.rule("constructor", "the constructor gives every written attribute the value of its own "
             "parameter on every path")
    for r in rec.records(ctx):
        if r.attributes is None:
            continue
        params = rec.param_names(r.cls)
        byname = {rec.norm(p): p for p in params}
        used = {}
        for values, p in rec.init_flow(ctx, r.cls):
            for a in r.columns:
                k = "{}.{}".format(r.name, a)
                v = values.get(a)
                if not ctx.ob("constructor", k, v is not None,
                              "not set on some path", r.cls.site):
                    continue
                own = byname.get(rec.norm(a))
                if own is None:
                    continue
                # the value is the parameter, something made of it, or the
                # replacement of a missing one
                ps = params_in(v)
                if own in ps:
                    ok = ps == {own} or v.tag != "param"
                else:
                    ok = not ps and v.tag in ("call", "attr") or tested(p, own)
                ctx.ob("constructor", k, ok, "holds {} instead of {}".format(show(v), own),
                       r.cls.site)
                if v.tag == "param":
                    used.setdefault(v.args[0], set()).add(a)
        for par, attrs in used.items():
            cols = attrs & set(r.columns)
            if par not in ("id_", "id", "activation_id", "trial_id") and len(cols) > 1:
                ctx.fail("constructor", "{} {}".format(r.name, sorted(cols)),
                         "one parameter in two columns", r.cls.site)
    ctx.need("constructor", 70)


def tested(path, name):
    """The path has found the parameter to be missing: it is empty, None, or a
    sentinel, which are the values up to 0
    """
    for c, v in path.pc.items():
        if name in params_in(c):
            bounds = [x.args[1] for x in subterms(c) if is_const(x) and c.tag == "cmp"]
            return all(b in (-1, 0, None, "", False) for b in bounds)
    return False


def rows(ctx):
    ctx.rule("rows", "the row of a record has all its attributes, with their values; only "
             "missing references become NULL")
    base = ctx.project.cls("now.persistence.lightweight.base:BaseLW")
    classes = [base] + [r.cls for r in rec.records(ctx)]
    for c in classes:
        for name in ("keys", "__iter__", "__getitem__"):
            f = c.methods.get(name)
            if f is None:
                continue
            it = ctx.interp(loops=(0, 1))
            for p in ctx.paths_of(it, f):
                k = "{}.{}".format(c.name, name)
                if p.outcome != "return":
                    ctx.fail("rows", k, "raises {}".format(show(p.value)), f.site)
                    continue
                if name != "__getitem__":
                    ctx.ob("rows", k, mentions(p.value, "attributes"), show(p.value), f.site)
                    continue
                key = [x for x in rec_params(f)][0]
                if is_const(p.value) and p.value.args[1] is None:
                    null = any(c2.tag == "cmp" and c2.args[0] == "In" and v and
                               mentions(c2.args[2], "nullable") for c2, v in p.pc.items())
                    sent = any(c2.tag == "cmp" and c2.args[0] == "Eq" and v and
                               is_const(c2.args[2]) and c2.args[2].args[1] == -1
                               for c2, v in p.pc.items())
                    ctx.ob("rows", k, null and sent, "a value is written as NULL", f.site)
                else:
                    v = p.value
                    ok = v.tag == "call" and last(call_name(v)) == "getattr" and \
                        v.args[1][1:2] == (param(key),) or v.tag == "attr"
                    ctx.ob("rows", k, ok, show(v), f.site)
    # the insertion reads the rows of the store it is given
    f = ctx.project.func("now.persistence.models.base:AlchemyProxy.store")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
    hit = 0
    for p in returning(ctx.paths_of(it, f)):
        ex = [e for e in calls(p, "execute")]
        empty = any("has_items" in show(c) and not v for c, v in p.pc.items())
        if empty:
            continue
        hit += 1
        ok = len(ex) == 1 and "generator" in show(ex[0].term) and "insert" in show(ex[0].term) \
            and any(param("partial") in call_all(x) for x in subterms(ex[0].term)
                    if x.tag == "call" and last(call_name(x)) == "generator")
        ctx.ob("rows", "AlchemyProxy.store", ok,
               "rows of the store are not inserted", f.site)
        prefix = "REPLACE" in show(ex[0].term).upper() if ex else False
        ctx.ob("rows", "AlchemyProxy.store replaces", prefix,
               "a record that is written again must replace the earlier row", f.site)
    f = ctx.project.func("now.persistence.lightweight.base:ObjectStore.do_store")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
    for p in ctx.paths_of(it, f):
        st = calls(p, "store")
        ok = p.outcome == "return" and len(st) == 1 and any(
            x.tag == "attr" and x.args[1] == "model" for x in subterms(st[0].term)) and \
            param("partial") in call_all(st[0].term)
        ctx.ob("rows", "ObjectStore.do_store", ok, "not handed to the model", f.site)
    ctx.need("rows", 5)


def call_all(t):
    return list(t.args[1]) + [v for _, v in t.args[2]]


def mentions(t, name):
    return any(x.tag == "attr" and x.args[1] == name for x in subterms(t))


def rec_params(f):
    return [x.arg for x in f.node.args.args][1:]


def inserts(ctx):
    ctx.rule("inserts", "every insertion or update by key names columns of its table and gives "
             "each the value of that name")
    byname = {}
    for t in rec.tables(ctx).values():
        byname[t.name] = t
    for f in ctx.project.all_funcs():
        if ".now." not in f.module.name:
            continue
        for n in ast.walk(f.node):
            pairs, table = insertion(f, n, byname)
            if table is None:
                continue
            names = [k for k, _ in pairs]
            where = "{} {}".format(f.short, table.name)
            site = "{}:{}".format(f.module.rel, n.lineno)
            for k, v in pairs:
                ctx.ob("inserts", "{}.{}".format(where, k), k in table.columns,
                       "no such column", site)
                used = own_names(v)
                others = {u for u in used if u in table.columns and u != k and
                          not (u == "id" and k.endswith("_id"))}
                ctx.ob("inserts", "{}.{}".format(where, k),
                       not (others and k not in used),
                       "receives {}".format(sorted(others)), site)
                if isinstance(v, ast.Constant):
                    params = rec_params(f) if f.cls else [x.arg for x in f.node.args.args]
                    ctx.ob("inserts", "{}.{}".format(where, k),
                           k not in params or (table.name, k) == ("Remote", "hide"),
                           "the argument {} is ignored".format(k), site)
            if rec._name(n.func) == "values":
                where_ok = any(isinstance(x, ast.Call) and rec._name(x.func) == "where" and
                               any(y is n for y in ast.walk(x)) or
                               isinstance(x, ast.Call) and rec._name(x.func) == "values" and
                               x is n and any(isinstance(y, ast.Call) and
                                              rec._name(y.func) == "where" for y in ast.walk(x))
                               for x in ast.walk(f.node))
                ctx.ob("inserts", where + " updates one row", where_ok, "updates every row", site)
            if rec._name(n.func) == "execute":
                auto = {c for c in table.columns if table.auto(c)}
                late = {"finish", "status", "main_id", "experiment_id", "user_id"}
                for c in table.columns:
                    if c not in auto and not (table.name == "Trial" and c in late):
                        ctx.ob("inserts", "{}.{} given".format(where, c), c in names or
                               (c == "id" and c not in names and table.name == "Head"),
                               "the column is not given", site)
    ctx.need("inserts", 20)


def own_names(v):
    out = set()
    for x in ast.walk(v):
        if isinstance(x, ast.Name):
            out.add(x.id)
        elif isinstance(x, ast.Attribute):
            out.add(x.attr)
    return out


def insertion(f, n, byname):
    if not isinstance(n, ast.Call):
        return (), None
    name = rec._name(n.func)
    # session.execute(<t>.insert(), {...} | dict(...))
    if name == "execute" and len(n.args) >= 2:
        first = n.args[0]
        if isinstance(first, ast.Name):
            given = [a.value for a in ast.walk(f.node) if isinstance(a, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == first.id for t in a.targets)]
            first = given[0] if len(given) == 1 else first
        if isinstance(first, ast.Call) and rec._name(first.func) == "insert":
            t = table_of(f, first.func.value, byname)
            d = n.args[1]
            if isinstance(d, ast.Dict) and all(isinstance(k, ast.Constant) for k in d.keys):
                return [(k.value, v) for k, v in zip(d.keys, d.values)], t
            if isinstance(d, ast.Call) and rec._name(d.func) == "dict" and not d.args:
                return [(k.arg, k.value) for k in d.keywords], t
    # <t>.update().values(...)
    if name == "values" and isinstance(n.func.value, ast.Call):
        x = n.func.value
        while isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if x.func.attr == "update":
                return [(k.arg, k.value) for k in n.keywords if k.arg], \
                    table_of(f, x.func.value, byname)
            x = x.func.value
    # Model.m(...)
    if name in ("m", "__model__") and isinstance(n.func, ast.Attribute):
        return [(k.arg, k.value) for k in n.keywords if k.arg], \
            table_of(f, ast.Attribute(n.func.value, "t", ast.Load()), byname)
    return (), None


def table_of(f, expr, byname):
    """Table behind `cls.t`, `Model.t` or a local name of either"""
    if isinstance(expr, ast.Name):
        for a in ast.walk(f.node):
            if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == expr.id
                                                 for t in a.targets):
                return table_of(f, a.value, byname)
        return None
    if isinstance(expr, ast.Attribute) and expr.attr in ("t", "__table__"):
        b = expr.value
        if isinstance(b, ast.Name) and b.id in ("cls", "self") and f.cls is not None:
            return byname.get(f.cls.name)
        if isinstance(b, ast.Name):
            return byname.get(b.id)
    return None


STORES = {"arguments": "ArgumentLW", "environment_attrs": "EnvironmentAttrLW",
          "modules": "ModuleLW", "code_components": "CodeComponentLW",
          "code_blocks": "CodeBlockLW", "compositions": "CompositionLW",
          "evaluations": "EvaluationLW", "activations": "ActivationLW",
          "dependencies": "DependencyLW", "members": "MemberLW",
          "file_accesses": "FileAccessLW", "exceptions": "ExceptionLW"}


def sites(ctx):
    ctx.rule("sites", "every site that records something gives the values in the order of the "
             "record: no value bears the name of another field")
    classes = {c.name: c for c in ctx.project.all_classes(rec.LW)}
    for f in ctx.project.all_funcs():
        if ".persistence." in f.module.name:
            continue
        own = ast.walk(f.node)
        for n in own:
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute) or \
                    n.func.attr not in ("add", "add_object", "dry_add"):
                continue
            base = n.func.value
            store = rec._name(base) if isinstance(base, (ast.Attribute, ast.Name)) else ""
            if store.endswith("_store"):
                store = store[:-len("_store")]
            cls = classes.get(STORES.get(store))
            if cls is None:
                continue
            init = cls.find_method("__init__")
            shared = cls.name in ("CodeBlockLW", "ActivationLW")
            params = [x.arg for x in init.node.args.args][1:]
            if not shared:
                params = params[1:]
            site = "{}:{}".format(f.module.rel, n.lineno)
            k = "{} {}".format(f.short, cls.name)
            star = any(isinstance(a, ast.Starred) for a in n.args)
            npos = len(n.args) + (0 if shared else 1)
            ctx.ob("sites", k, accepts(init.node, npos, [x.arg for x in n.keywords], star=star),
                   "the record does not take these values", site)
            if star:
                continue
            fields = {rec.norm(p): i for i, p in enumerate(params)}
            given = [(i, a) for i, a in enumerate(n.args)]
            given += [(params.index(x.arg), x.value) for x in n.keywords if x.arg in params]
            for i, a in given:
                if i >= len(params):
                    continue
                nm = a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) \
                    else None
                if nm is None:
                    continue
                j = fields.get(rec.norm(nm))
                ctx.ob("sites", "{} {}".format(k, params[i]), j is None or j == i or nm == "id",
                       "receives {}".format(ast.unparse(a)), site)
    ctx.need("sites", 30)
