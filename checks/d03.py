"""Records lead to exactly their related records, all of the same trial.

The relations are read from the abstract execution of the module that declares
them; accessors and queries are compared in a canonical form (conjunctions of
comparisons of columns), so that how a query is written does not matter.
"""
import ast
import re

from vlib.absint import const, param, mk
from vlib.project import FuncInfo
from vlib.rules import *
from checks.queries import *
from checks.d03_table import RELATIONS

RULES = ["relations", "related", "scoped", "identity", "loaded"]
ASSUMPTIONS = ["SQLAlchemy answers queries and relations with the records that match them."]
MODP = "now.persistence.models"


def module_function(m):
    """The statements of a module as a function"""
    body = [s for s in m.tree.body if not isinstance(s, (
        ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)) and not (
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    node = ast.parse("def module():\n    pass").body[0]
    node.body = body
    return FuncInfo(m, node)


def unwrap(t):
    """Without foreign(..) and remote(..)"""
    if t.tag == "call" and last(call_name(t)) in ("foreign", "remote") and t.args[1]:
        return unwrap(t.args[1][0])
    return t


def rewrite(t):
    if not isinstance(t, T):
        return t
    t = unwrap(t)
    if t.tag in ("cmp", "binop", "bool"):
        return mk(t.tag, *[rewrite(a) if isinstance(a, T) else a for a in t.args])
    return t


def condition(t):
    """{((column, column) sorted)...} of a join, or None if it is not a conjunction"""
    d = dnf(rewrite(t))
    if len(d) != 1:
        return "|".join(sorted(" & ".join(sorted(" ".join(x) for x in c)) for c in d))
    return " & ".join(sorted(" ".join(x) for x in list(d)[0]))


def directions(ctx, m, t):
    """The proxy function of a relation: resolves the constant tables of the module"""
    if t is None:
        return "proxy"
    if t.tag == "func":
        return t.args[0].name if isinstance(t.args[0], FuncInfo) else str(t.args[0])
    s = show(t)
    k = re.match(r"(\w+)\['(\w+)'\]\[(\d)\]$", s)
    if k and k.group(1) in m.assigns:
        d = m.assigns[k.group(1)]
        d = getattr(d, "value", d)
        if isinstance(d, ast.Dict):
            for key, val in zip(d.keys, d.values):
                name = key.value if isinstance(key, ast.Constant) else getattr(
                    getattr(m.assigns.get(getattr(key, "id", "")), "value",
                            m.assigns.get(getattr(key, "id", ""))), "value", None)
                if name == k.group(2) and isinstance(val, ast.Tuple):
                    return getattr(val.elts[int(k.group(3))], "id", "?")
    return last(s)


def names(t):
    """Columns in a list"""
    return ",".join(sorted({c for c in (column_of(unwrap(x)) for x in subterms(t)) if c}))


def class_of(t):
    """Name of the class that is given to a relationship"""
    v = strval(t)
    if v:
        return v
    if t.tag == "attr" and t.args[1] == "__name__":
        return re.sub(r".*\.", "", show(t.args[0]))
    return show(t)


def declared(ctx):
    m = ctx.project.module(MODP + ".relationships")
    f = module_function(m)
    it = ctx.interp(loops=(0, 1, 2), opaque_fn=lambda g: g.module is not m)
    it.keep_pc = True
    it.symbolic = set(MODELS)
    out = {}
    proxies = {}
    for p in it.run(f):
        for e in p.events:
            if e.kind != "setattr":
                continue
            name, v = e.extra.args
            name = name if isinstance(name, str) else strval(name)
            owner = model_of(e.term)
            if owner and v.tag == "call" and last(call_name(v)) == "relationship":
                kw = dict(v.args[2])
                target = class_of(v.args[1][0])
                join = condition(kw["primaryjoin"]) if "primaryjoin" in kw else "fk"
                if "secondaryjoin" in kw:
                    join += " / " + condition(kw["secondaryjoin"])
                sec = model_of(kw["secondary"]) if "secondary" in kw else ""
                if join != "fk" and owner == target and not sec:
                    rs = kw.get("remote_side")
                    join += " to " + (names(rs) if rs is not None else "?")
                order = text(kw["order_by"]) if "order_by" in kw else ""
                out[owner + "." + name] = (target, join + (" via " + sec if sec else "") + (
                    " order " + order if order else ""))
                back = kw.get("backref")
                if back is not None and strval(back):
                    out[target + "." + strval(back)] = (owner, join)
            elif v.tag == "call" and last(call_name(v)) == "proxy_attr" and \
                    e.term.tag == "class":
                kw = dict(v.args[2])
                kw.update(zip(("name", "proxy_func"), v.args[1]))
                proxies[e.term.args[0].name + "." + name] = (
                    strval(kw.get("name")), arity(ctx, m, kw.get("proxy_func")))
    return m, out, proxies


EXPECTED_KIND = {"proxy": "one", "proxy_gen": "many", "proxy_gen_first": "first"}


def arity(ctx, m, t):
    """one, many or first: how a proxy attribute answers"""
    name = directions(ctx, m, t)
    k = re.match(r"(\w+)\['(\w+)'\]\[(\d)\]$", name)
    if k:
        for val in m.assigns.get(k.group(1), []):
            if not isinstance(val, ast.Dict):
                continue
            for key, v in zip(val.keys, val.values):
                names_ = [key.value] if isinstance(key, ast.Constant) else [
                    getattr(x, "value", None) for x in m.assigns.get(getattr(key, "id", ""), [])]
                if k.group(2) in names_ and isinstance(v, (ast.Tuple, ast.List)):
                    name = getattr(v.elts[int(k.group(3))], "id", "?")
    return EXPECTED_KIND.get(last(name), name)


def foreign_keys(cls):
    """[(columns, referred columns)] of a table, or None if they cannot be read"""
    out = []
    for n in ast.walk(cls.node):
        if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == \
                "ForeignKeyConstraint":
            try:
                out.append(tuple(tuple(ast.literal_eval(a)) for a in n.args[:2]))
            except ValueError:
                return None
    return out


KEYS = {
    ("FileAccess", "activation"): {("trial_id", "trial_id"), ("activation_id", "id")},
    ("Module", "code_block"): {("trial_id", "trial_id"), ("code_block_id", "id")},
    ("Evaluation", "code_component"): {("trial_id", "trial_id"), ("code_component_id", "id")},
}


def relations(ctx):
    ctx.rule("relations", "each relation leads to the records that its name says, of the same trial")
    m, rel, proxies = declared(ctx)
    for k, (target, kind, join) in sorted(RELATIONS.items()):
        owner, name = k.split(".")
        site = m.rel
        if k not in rel:
            ctx.ob("relations", k, False, "the relation does not exist", site)
            continue
        got = rel[k]
        ctx.ob("relations", k, got[0] == target,
               "leads to {} (expected {})".format(got[0], target), site)
        if join.startswith("fk"):
            # with an explicit condition, it has to be the one of the key
            a, b = sorted((owner, target))
            ok = got[1] == join or got[1] in {
                " & ".join(sorted("{} == {}".format(*sorted(x)) for x in [
                    (p + "." + c, q + "." + d) for c, d in cols]))
                for p, q, cols in [(owner, target, key_of(owner, target)),
                                   (target, owner, key_of(target, owner))] if cols}
        else:
            ok = got[1].replace(" ", "") == join.replace(" ", "")
        ctx.ob("relations", k + " condition", ok,
               "{} (expected {})".format(got[1], join), site)
        pr = proxies.get(k)
        ctx.ob("relations", k + " attribute",
               pr is not None and pr[0] == name and pr[1] == kind,
               "the attribute answers {} of {} (expected {} of {})".format(
                   pr and pr[1], pr and pr[0], kind, name), site)
    for cls in ctx.project.all_classes(MODP):
        keys = foreign_keys(cls)
        if not keys:
            continue
        for cols, refs in keys:
            tables = {r.split(".")[0] for r in refs}
            if len(tables) != 1:
                ctx.ob("relations", cls.name + " key " + ",".join(cols), False,
                       "one key refers to " + ", ".join(sorted(tables)), cls.site)
                continue
            pairs = {(c, r.split(".")[1]) for c, r in zip(cols, refs)}
            t = tables.pop()
            want = KEYS.get((cls.name, t))
            if t == "trial" and len(cols) == 1 and cols[0] == "trial_id":
                want = {("trial_id", "id")}
            if want:
                ctx.ob("relations", "{} key of {}".format(cls.name, t), pairs == want,
                       "columns {} (expected {})".format(sorted(pairs), sorted(want)), cls.site)
    ctx.need("relations", 100)


def key_of(owner, target):
    t = re.sub(r"(?<!^)([A-Z])", r"_\1", target).lower()
    if (owner, t) in KEYS:
        return sorted(KEYS[(owner, t)])
    return [("trial_id", "id")] if target == "Trial" else None


P = MODP + "."
SELF = "self."
ACCESSORS = {
    # accessor: [(facts, value)...]: the first one whose facts hold
    "activation:Activation.activations": [({}, "{Activation join Evaluation where Activation.id == Evaluation.id & Activation.trial_id == Evaluation.trial_id & Activation.trial_id == self.trial_id & Evaluation.activation_id == self.id}")],
    "activation:Activation.caller": [({}, "self.this_evaluation.activation")],
    "activation:Activation.caller_id": [({}, "self.this_evaluation.activation_id")],
    "activation:Activation.line": [({}, "self.this_evaluation.code_component.first_char_line")],
    "activation:Activation.start": [({}, "self.trial.start + timedelta(seconds=self.start_checkpoint)")],
    "activation:Activation.finish_checkpoint": [({}, "self.this_evaluation.checkpoint")],
    "activation:Activation.finish": [({}, "self.this_evaluation.moment")],
    "activation:Activation.duration": [({}, "int((self.finish_checkpoint - self.start_checkpoint) * 1000000)")],
    "activation:Activation.has_evaluations": [({"any self.evaluations": True}, "True"), ({"any self.evaluations": False}, "False")],
    "activation:Activation.has_activations": [({"any self.activations": True}, "True"), ({"any self.activations": False}, "False")],
    "code_block:CodeBlock.globals": [({}, "{CodeComponent where CodeComponent.container_id == self.id & CodeComponent.trial_id == self.trial_id & CodeComponent.type == 'global'}")],
    "code_block:CodeBlock.parameters": [({}, "{CodeComponent where CodeComponent.container_id == self.id & CodeComponent.trial_id == self.trial_id & CodeComponent.type == 'param'}")],
    "code_block:CodeBlock.calls": [({}, "{CodeComponent where CodeComponent.container_id == self.id & CodeComponent.trial_id == self.trial_id & CodeComponent.type == 'call'}")],
    "code_component:CodeComponent.first_evaluation": [({}, "self.evaluations.order_by(Evaluation.checkpoint).first()")],
    "evaluation:Evaluation.moment": [({}, "self.trial.start + timedelta(seconds=self.checkpoint)")],
    "file_access:FileAccess.timestamp": [({}, "self.trial.start + timedelta(seconds=self.checkpoint)")],
    "file_access:FileAccess.is_internal": [({"isabs(self.name)": False}, "True"), ({}, "?self.trial.path in self.name")],
    "module:Module.code_hash": [({"self.code_block": False}, "None"), ({}, "self.code_block.code_hash")],
    "trial:Trial.modules": [({"self.modules_inherited_from_trial": True}, "self.modules_inherited_from_trial.modules"), ({}, "self._modules")],
    "trial:Trial.initial_activation": [({"self.main": False}, "None"), ({"self.main.this_component.first_evaluation": False}, "None"), ({}, "self.main.this_component.first_evaluation.this_activation")],
    "trial:Trial.script_content": [({}, "self.main.content")],
    "trial:Trial.docstring": [({}, "self.main.docstring")],
    "trial:Trial.code_hash": [({"self.main": False}, "''"), ({}, "self.main.code_hash")],
    "trial:Trial.finished": [({}, "?'finished' == self.status")],
    "trial:Trial.backup": [({}, "?'backup' == self.status")],
    "trial:Trial.status_letter": [({"'backup' == self.status": True}, "'b'"), ({"'finished' == self.status": True}, "'*'"), ({}, "'f'")],
    "trial:Trial.duration": [({"self.finish": False}, "0"), ({}, "int((self.finish - self.start).total_seconds() * 1000000)")],
    "trial:Trial.duration_text": [({"self.finish": False}, "'None'"), ({}, "str(self.finish - self.start)")],
    "trial:Trial.match_status": [({"'*' == status": True}, "True"), ({}, "?self.status == status")],
    "trial:Trial.match_script": [({"'*' == script": True}, "True"), ({}, "?script == self.script")],
}
DICTS = {"trial:Trial.environment": "self.environment_attrs",
         "trial:Trial.argument_dict": "self.arguments"}


def plain(t):
    """text, with the operators written between their operands"""
    if isinstance(t, T) and t.tag == "binop":
        op = {"Add": "+", "Sub": "-", "Mult": "*"}.get(t.args[0], t.args[0])
        a = [plain(x) if not (isinstance(x, T) and x.tag == "binop") else "(" + plain(x) + ")"
             for x in t.args[1:]]
        a = sorted(a, key=lambda s: (s.isdigit(), not s.startswith(("(", "self")), s)) \
            if op in "+*" else a
        return a[0] + " " + op + " " + a[1]
    if isinstance(t, T) and t.tag == "call":
        r, n = method(t)
        a = ",".join([plain(x) for x in t.args[1]] + [k + "=" + plain(v) for k, v in t.args[2]])
        if r is not None and r.tag == "binop":
            return "(" + plain(r) + ")." + n + "(" + a + ")"
        if not is_query(t) and r is None or r is not None and r.tag in ("gvar", "global", "module"):
            if last(call_name(t)) == "proxy":
                return a
            return last(call_name(t)) + "(" + a + ")"
    return text(t)


def fact(c):
    """(name, sign) of a condition"""
    if c.tag == "bool":
        n, s = fact(c.args[0])
        return n, s == bool(c.args[1])
    if c.tag == "cmp" and len(c.args) == 3:
        op, a, b = c.args
        if op in ("Is", "Eq", "IsNot", "NotEq"):
            sign = op in ("Is", "Eq")
            if is_const(b, None):
                return plain(a), not sign
            return " == ".join(sorted((plain(a), plain(b)))), sign
        if op in ("In", "NotIn"):
            return plain(a) + " in " + plain(b), op == "In"
    if c.tag == "truth":
        return plain(c.args[0]), True
    if c.tag == "niter":
        return "any " + plain(c.args[0]), True
    return plain(c), True


def facts(p):
    out = {}
    for c, v in p.pc.items():
        if c.tag == "call" and call_name(c) == "eqc":
            continue
        n, s = fact(c)
        out[n] = bool(v) == s
    return out


def is_const(t, v):
    return isinstance(t, T) and t.tag == "const" and t.args[1] is v


def sentinel(t):
    return isinstance(t, T) and t.tag == "const" and isinstance(t.args[1], bool)


def accepted(p, cases):
    """Whether the value of a path is the one of the first case that holds on it"""
    have = facts(p)
    for conds, value in cases:
        if any(have.get(k) == (not v) for k, v in conds.items()):
            continue
        if value.startswith("?"):
            if sentinel(p.value):
                ok = have.get(value[1:]) == p.value.args[1]
            else:
                n, s = fact(p.value)
                ok = n == value[1:] and s
        else:
            ok = plain(p.value) == value
            if value in ("True", "False") and not ok:
                n, s = fact(p.value)
                want = list(conds)
                ok = len(want) == 1 and (n == want[0]) and s == (conds[want[0]] == (value == "True"))
        if all(k in have for k in conds):
            return ok
        if ok:
            return True
    return False


QUERIES = {
    # function: [({parameter given: bool}, {queries})]
    "persistence.models.code_component:CodeComponent.ast_compositions": [({}, "Composition join CodeComponent where CodeComponent.id == Composition.whole_id & CodeComponent.trial_id == Composition.trial_id & CodeComponent.trial_id == trial_id & CodeComponent.type != 'global' & CodeComponent.type != 'module' & CodeComponent.type != 'syntax' & CodeComponent.type != 'type' & Composition.type != '*op_pos'")],
    "persistence.models.activation:Activation.filter_evaluations_by_type": [({}, "CodeComponent.name+Evaluation.repr join Activation,CodeComponent,Evaluation where Activation.id == Evaluation.activation_id & Activation.id == self.id & Activation.trial_id == Evaluation.trial_id & Activation.trial_id == self.trial_id & CodeComponent.id == Evaluation.code_component_id & CodeComponent.trial_id == Evaluation.trial_id & CodeComponent.type == type_")],
    "persistence.models.file_access:FileAccess.find_by_name_and_time": [
        ({"trial": True}, "FileAccess where FileAccess.name == name & FileAccess.trial_id == trial order FileAccess.checkpoint"),
        ({"trial": False}, "FileAccess where FileAccess.name == name order FileAccess.checkpoint")],
    "models.ast.trial_ast:TrialAst.code_component_definition": [({}, "CodeComponent where CodeComponent.trial_id == self.trial.id & CodeComponent.type != 'syntax'")],
    "models.ast.trial_ast:TrialAst.composition_definition": [({}, "Composition where Composition.trial_id == self.trial.id & Composition.type != '*op_pos'")],
    "persistence.models.graph_cache:GraphCache._query_select_cache": [({}, "GraphCache where GraphCache.attributes == attributes & GraphCache.name == name & GraphCache.type == gtype")],
    "persistence.models.user:User.list_members_Of_Group": [({}, "User join outer related MemberOfGroup where MemberOfGroup.groupId == groupId")],
    "persistence.models.user:User.get_user": [({}, "User where User.id == userId first")],
    "persistence.models.group:Group.delete": [({}, "Group where Group.id == grpId delete")],
    "persistence.models.extendedAnnotation:ExtendedAnnotation.GetById": [({}, "ExtendedAnnotation where ExtendedAnnotation.id == id one")],
    "persistence.models.extendedAnnotation:ExtendedAnnotation.GetInfoByExperimentId": [({}, "~ where ExtendedAnnotation.relatedExperiment == expId")],
    "persistence.models.extendedAnnotation:ExtendedAnnotation.GetInfoByTrialId": [({}, "~ where ExtendedAnnotation.relatedTrial == trialId")],
}


def strip(q):
    return re.sub(r"^[^{]*? where ", "~ where ", q)


def related(ctx):
    ctx.rule("related", "the computed accessors answer with the related records that their names "
                        "say, by the ids of the record and of its trial")
    for q, cases in sorted(ACCESSORS.items()):
        f = ctx.project.func(P + q)
        for p in analyse_queries(ctx, f):
            if p.outcome != "return" or p.value is None:
                continue
            ctx.ob("related", q.split(":")[1], accepted(p, cases),
                   "the value is {} when {}".format(plain(p.value)[:300], facts(p)), f.site)
    for q, over in sorted(DICTS.items()):
        f = ctx.project.func(P + q)
        for p in analyse_queries(ctx, f):
            v = text(p.value) if p.value is not None else ""
            if not facts(p).get("any " + over):
                continue
            stored = [(text(e.extra.args[0]), text(e.extra.args[1])) for e in p.events
                      if e.kind == "setitem" and len(getattr(e.extra, "args", ())) == 2]
            w = ("each {}.name".format(over), "each {}.value".format(over))
            w2 = tuple(x.replace("each " + over, "elem(" + over + ")") for x in w)
            ctx.ob("related", q.split(":")[1],
                   any("pair({}, {})".format(*x) in v for x in (w, w2)) or w in stored,
                   "the dictionary is {}".format(v[:300]), f.site)
    for q, cases in sorted(QUERIES.items()):
        f = ctx.project.func("now." + q)
        for p in analyse_queries(ctx, f, inline=lambda g: g.cls is f.cls):
            if p.outcome != "return":
                continue
            qs = sorted(queries(p))
            have = facts(p)
            for conds, want in cases:
                if any(have.get(k) == (not v) for k, v in conds.items()):
                    continue
                ctx.ob("related", q.split(":")[1] + (" " + str(sorted(conds.items()))
                                                     if conds else ""),
                       want in qs or want in [strip(x) for x in qs],
                       "the query is {} (expected {})".format("; ".join(qs)[:500], want), f.site)
    f = ctx.project.func(P + "file_access:FileAccess.find_by_name_and_time")
    for p in analyse_queries(ctx, f, inline=lambda g: g.cls is f.cls):
        if p.outcome != "return" or p.value is None or is_none_value(p.value):
            continue
        took = [show(c) for c, v in p.pc.items() if "timestamp" in show(c) and v]
        ctx.ob("related", "FileAccess.find_by_name_and_time", bool(took),
               "an access is returned whose timestamp was not compared with the requested one",
               f.site)
    ctx.need("related", 30)


def is_none_value(t):
    return isinstance(t, T) and t.tag == "const" and t.args[1] is None


NUMBERED = {"CodeComponent", "CodeBlock", "Evaluation", "Activation", "Dependency", "Member",
            "Composition", "Module", "FileAccess", "Argument", "EnvironmentAttr"}


def same_trial(conj, named_):
    """Tables of a conjunction that are not tied to a trial: {tables}"""
    tables = {x.split(".")[0] for a, op, b in conj for x in (a, b)
              if re.match(r"\w+\.\w+$", x) and x.split(".")[0] in NUMBERED} | named_
    groups = {t: t for t in tables}

    def root(x):
        while groups[x] != x:
            x = groups[x]
        return x
    groups["="] = "="
    for a, op, b in conj:
        if op not in ("==", "in") or not a.endswith((".trial_id", "Trial.id")):
            continue
        x, y = a.split(".")[0], b.split(".")[0]
        if re.match(r"\w+\.(trial_id|id)$", b) and y in groups and x in groups:
            groups[root(x)] = root(y)
        elif x in groups:
            groups[root(x)] = root("=")
    return {t for t in tables if root(t) != root("=")}, tables


def scoped(ctx):
    ctx.rule("scoped", "a query that selects the records of a trial by their ids is restricted to "
                       "one trial, in every alternative and for every table that it joins")
    n = 0
    for f in ctx.project.all_funcs():
        if not f.module.name.startswith("noworkflow.now."):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in ("query", "execute", "select") or
                   isinstance(x, ast.Name) and x.id == "select" for x in ast.walk(f.node)):
            continue
        try:
            paths = analyse_queries(ctx, f)
        except Exception:  # functions that are too large to analyse are read by other checks
            continue
        for p in paths:
            for s, t in queries(p).items():
                q = Query(t)
                named_ = {w.split(".")[0] for w in q.what + [j.replace("outer ", "") for j in q.joins]
                          } & NUMBERED
                if not named_ and not any(x.split(".")[0] in NUMBERED for c in q.where for a in c
                                          for x in (a[0], a[2])):
                    continue
                for conj in q.where:
                    free, tables = same_trial(conj, named_)
                    ids = [a for a, op, b in conj if a.split(".")[0] in tables and
                           re.search(r"\.(\w+_)?id$", a) and not a.endswith(".trial_id")]
                    n += 1
                    if f.short.endswith("find_by_name_and_time"):
                        continue
                    ctx.ob("scoped", f.short, not (ids or len(tables) > 1) or not free,
                           "the query {} selects {} of any trial".format(
                               s[:300], ", ".join(sorted(free))), f.site)
    ctx.need("scoped", 8)


def identity(ctx):
    ctx.rule("identity", "a record object is identified by its class and primary key and has the "
                         "value of each column of that key's row")
    f = ctx.project.func(P + "base:AlchemyProxy.__eq__")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        have = facts(p)
        v = p.value
        if sentinel(v) and v.args[1] is False:
            ok = have.get("isinstance(other,type(self))") is False or \
                have.get("other._alchemy_pk == self._alchemy_pk") is False
        elif sentinel(v):
            ok = have.get("other._alchemy_pk == self._alchemy_pk") is True and \
                have.get("isinstance(other,type(self))") is True
        else:
            ok = fact(v) == ("other._alchemy_pk == self._alchemy_pk", True) and \
                have.get("isinstance(other,type(self))") is True
        ctx.ob("identity", "AlchemyProxy.__eq__", ok,
               "answers {} when {}".format(plain(v)[:200], have), f.site)
    f = ctx.project.func(P + "base:AlchemyProxy.__hash__")
    for p in analyse_queries(ctx, f):
        if p.outcome == "return":
            other = {x.args[1] for x in subterms(p.value) if x.tag == "attr" and
                     x.args[0].tag == "self"} - {"_alchemy_pk", "__class__"}
            if any(x.tag == "call" and call_name(x) == "id" for x in subterms(p.value)):
                other.add("id()")
            ctx.ob("identity", "AlchemyProxy.__hash__", not other,
                   "the hash depends on {}, which equal records may not share".format(
                       ", ".join(sorted(other))), f.site)
    f = ctx.project.func(P + "base:AlchemyProxy._get_instance")
    for p in analyse_queries(ctx, f):
        if p.outcome == "return":
            ctx.ob("identity", "AlchemyProxy._get_instance",
                   any(x.endswith(" get self._alchemy_pk") for x in queries(p)),
                   "reads {}".format(sorted(queries(p))), f.site)
    f = ctx.project.func(P + "base:AlchemyProxy._store_pk")
    for p in analyse_queries(ctx, f):
        v = [e.extra.args[1] for e in p.events if e.kind == "setattr" and
             e.extra.args[0] in ("_alchemy_pk",)]
        ctx.ob("identity", "AlchemyProxy._store_pk",
               bool(v) and "primary_key_from_instance(obj)" in text(v[-1]),
               "the key is {}".format(v and text(v[-1])), f.site)
    f = ctx.project.func(P + "base:AlchemyProxy.__init__")
    for p in analyse_queries(ctx, f, inline=lambda g: g.name in ("_store_pk",)):
        if p.outcome != "return":
            continue
        v = [e.extra.args[1] for e in p.events if e.kind == "setattr" and
             e.extra.args[0] in ("_alchemy_pk",)]
        inst = [x for c, x in facts(p).items() if c.startswith("isinstance(obj,")]
        want = "primary_key_from_instance(obj)" if inst and inst[0] else "obj"
        ctx.ob("identity", "AlchemyProxy.__init__",
               bool(v) and (text(v[-1]).endswith(want)) and
               any(last(call_name(e.term)) in ("_restore_instance", "._restore_instance") or
                   cname(e).endswith("_restore_instance")
                   for e in p.events if e.kind in ("call", "enter")),
               "the key is {} and the columns are {}restored".format(
                   v and text(v[-1]), ""), f.site)
    f = ctx.project.func(P + "base:AlchemyProxy._restore_instance")
    for p in analyse_queries(ctx, f):
        sets = [(text(e.extra.args[0]) if isinstance(e.extra.args[0], T) else str(e.extra.args[0]),
                 text(e.extra.args[1])) for e in p.events if e.kind == "setattr"]
        sets += [(text(e.term.args[1][1]), text(e.term.args[1][2])) for e in p.events
                 if e.kind == "call" and call_name(e.term) == "setattr" and len(e.term.args[1]) == 3]
        if facts(p).get("any self.__columns__"):
            ctx.ob("identity", "AlchemyProxy._restore_instance",
                   len(sets) == 1 and sets[0][0] == "each self.__columns__" and
                   sets[0][1].startswith("getattr(") and sets[0][1].endswith(
                       ",each self.__columns__)") and "_get_instance()" in sets[0][1],
                   "each column: {}".format(sets), f.site)
    f = ctx.project.func(P + "base:AlchemyProxy.__setstate__")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        v = [text(e.extra.args[1]) for e in p.events if e.kind == "setattr" and
             e.extra.args[0] == "_alchemy_pk"]
        ctx.ob("identity", "AlchemyProxy.__setstate__",
               v == ["state[0]"] and any(cname(e).endswith("_restore_instance") for e in p.events
                                         if e.kind in ("call", "enter")),
               "the key of an unpickled record is {}".format(v), f.site)
    f = ctx.project.func(P + "base:AlchemyProxy.__getstate__")
    for p in analyse_queries(ctx, f):
        if p.outcome == "return":
            ctx.ob("identity", "AlchemyProxy.__getstate__",
                   text(p.value) in ("tuple(self._alchemy_pk)", "list(self._alchemy_pk)"),
                   "a record is pickled as " + text(p.value), f.site)
    for name, how in (("proxy_gen", "all"), ("proxy_gen_first", "first"), ("proxy", "one")):
        f = ctx.project.func(P + "base:" + name)
        for p in ctx.interp(loops=(0, 1, 2), opaque_fn=lambda g: g is not f).run(f):
            it_ = [v for c, v in p.pc.items() if c.tag == "niter"]
            ys = [e for e in p.events if e.kind == "yield"]
            if how == "all":
                if p.value is not None and "proxy(" in show(p.value) and not ys:
                    continue    # a generator expression
                ok = len(ys) == (it_ or [0])[0] and all("proxy(" in show(e.term) for e in ys)
                got = "{} records for {} rows".format(len(ys), it_)
            elif how == "first":
                if p.value is None or not it_:
                    continue
                ok = is_none_value(p.value) if it_[0] == 0 else (
                    "proxy(" in show(p.value) and "elem(query)" in show(p.value))
                got = show(p.value)[:200]
            else:
                if p.value is None:
                    continue
                ok = show(p.value).endswith("(element)") or show(p.value) == "element"
                inn = [v for c, v in p.pc.items() if c.tag == "cmp" and c.args[0] == "In"]
                ok = ok and (not inn or inn[0] == (show(p.value) != "element"))
                got = show(p.value)[:200]
            ctx.ob("identity", name, ok, got, f.site)
    ctx.need("identity", 7)


def loaded(ctx):
    ctx.rule("loaded", "the records of trials are those whose trial is in the list, and all the "
                       "records are those of the table")
    f = ctx.project.func(P + "base:AlchemyProxy.load_by_trials")
    for p in analyse_queries(ctx, f):
        if p.outcome == "return":
            qs = [re.sub(r"\b(AlchemyProxy|cls)\b", "cls", x) for x in queries(p)]
            ctx.ob("loaded", "AlchemyProxy.load_by_trials",
                   "cls where cls.trial_id in trial_ids_list" in qs,
                   "the query is {}".format(qs), f.site)
    f = ctx.project.func(P + "base:AlchemyProxy.all")
    for p in analyse_queries(ctx, f):
        if p.outcome == "return":
            qs = [re.sub(r"\b(AlchemyProxy|cls)\b", "cls", x) for x in queries(p)]
            ctx.ob("loaded", "AlchemyProxy.all", qs == ["cls"], "the query is {}".format(qs), f.site)
    ctx.need("loaded", 2)
