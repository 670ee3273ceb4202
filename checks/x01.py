"""The comparison of two trials reports exactly their differences.

The sets, the attributes, the sides and the identity of the compared records are
read from the values that reach the returned comparisons on every abstract path;
the two sides of a comparison of functions must be symmetrical.
"""
import ast
import re

from vlib.absint import const, param, mk
from vlib.project import FuncInfo
from vlib.rules import *
from checks.common import parts
from checks.k02 import predicates, values_of, command

RULES = ["sets", "attributes", "sides", "sameness", "functions", "variables", "graph", "trees"]
ASSUMPTIONS = ["Relations of a trial lead to its own records (D03).",
               "apted maps the nodes of two trees; difflib compares lines."]
MOD = "now.models.diff"
GR = "now.models.graphs.diff_graph"


def run(ctx, f, loops=(0, 1), args=None, inline=None, symbolic=False, over=None):
    it = ctx.interp(loops=loops, opaque_fn=lambda g: g is not f and not (inline and inline(g)))
    it.keep_pc = True
    if symbolic:
        it.symbolic = {"m", "t", "__model__", "__table__"}

    def pre(st):
        for k, v in (over or {}).items():
            st.over[k] = v
    return it.run(f, args=args or {}, pre=pre)


def difference(t, x, y):
    """Is the term the difference of the sets x - y?"""
    while t.tag in ("call", "set") and (t.tag == "set" and len(t.args) == 1 and
                                        t.args[0].tag == "star" or t.tag == "call" and
                                        last(call_name(t)) in ("set", "frozenset", "list", "copy")
                                        and len(t.args[1]) == 1):
        t = t.args[0].args[0] if t.tag == "set" else t.args[1][0]
    if t.tag == "binop" and t.args[0] == "Sub":
        return has(t.args[1], x) and has(t.args[2], y) and not has(t.args[1], y)
    if t.tag == "call" and last(call_name(t)) == "difference" and t.args[1]:
        return has(t.args[0], x) and has(t.args[1][0], y) and not has(t.args[0], y)
    return False


def has(t, name):
    return any(x.tag == "param" and x.args[0] == name for x in subterms(t))


def both(t, x, y):
    return any(difference(s, x, y) for s in subterms(t))


def sets(ctx):
    ctx.rule("sets", "additions are only in the second set, removals only in the first, and a "
             "replacement pairs a removal with an addition of the same name, that are then neither "
             "added nor removed")
    f = ctx.project.func(MOD + ":diff_set")
    b, a = f.params()[:2]
    third = f.params()[2]
    paired, derived = 0, False
    for p in run(ctx, f):
        if p.outcome != "return" or p.value.tag not in ("tuple", "list") or len(p.value.args) != 3:
            ctx.ob("sets", "result", p.outcome == "raise", show(p.value)[:80], f.site)
            continue
        added, removed, replaced = p.value.args
        ctx.ob("sets", "added", base_is(added, a, b), show(added)[:80], f.site)
        ctx.ob("sets", "removed", base_is(removed, b, a), show(removed)[:80], f.site)
        on = [v for k, v in p.pc.items() if show(k) == "bool({})".format(third)]
        pairs = [x for x in subterms(replaced) if x.tag in ("tuple", "list") and len(x.args) == 2]
        drops = [e for e in p.events if e.kind == "call" and last(cname(e)) in (
            "discard", "remove", "difference_update")]
        if on and on[0] is False:
            ctx.ob("sets", "without replacements", not pairs and not drops, "", f.site)
            continue
        for x in pairs:
            paired += 1
            first, second = x.args
            derived = derived or both(first, b, a)
            ctx.ob("sets", "pair", both(second, a, b) and not (
                first.tag == "elem" and both(first, a, b)), show(x)[:120], f.site)
            names = [show(s) for s in subterms(first) if s.tag == "attr"] + [
                show(s) for k in p.pc for s in subterms(k) if s.tag == "attr"]
            ctx.ob("sets", "pair:name", bool(names) and all(n.endswith((".name", ".get", ".items",
                   ".keys", ".values", ".difference", ".copy")) for n in names), str(names)[:120], f.site)
            for side, el, x_, y_ in (("added", second, a, b), ("removed", first, b, a)):
                ctx.ob("sets", "pair:not " + side, any(
                    any(show(v) == show(el) or el in list(subterms(v)) for v in e.term.args[1]) and
                    difference(e.term.args[0].args[0], x_, y_) for e in drops
                    if e.term.args[0].tag == "attr") or has_minus(p.value.args[
                        0 if side == "added" else 1]), "", f.site)
    ctx.ob("sets", "replacements", paired > 0, "", f.site)
    ctx.ob("sets", "replacements:removed", derived, "the replaced are not removals", f.site)


def base_is(t, x, y):
    if difference(t, x, y):
        return True
    if t.tag == "binop" and t.args[0] == "Sub":
        return base_is(t.args[1], x, y)
    if t.tag == "call" and last(call_name(t)) == "difference":
        return base_is(t.args[0].args[0], x, y)
    return False


def has_minus(t):
    """set - something more"""
    return t.tag == "binop" and t.args[1].tag == "binop" or \
        t.tag == "call" and last(call_name(t)) == "difference"


def attributes(ctx):
    ctx.rule("attributes", "the comparison of attributes has exactly those of the first trial whose "
             "values differ, each with its value in the first and in the second trial")
    f = ctx.project.func(MOD + ":diff_dict")
    b, a = f.params()[:2]
    for p in run(ctx, f):
        sets_ = [e for e in p.events if e.kind == "setitem"]
        differ = None
        for k, v in p.pc.items():
            s = k.args[0] if k.tag == "truth" else k
            if s.tag == "cmp" and s.args[0] in ("Eq", "NotEq", "Is", "IsNot") and has(s, a) and \
                    has(s, b):
                differ = (v is False) == (s.args[0] in ("Eq", "Is"))
        ident = [v for k, v in p.pc.items() if k.tag == "cmp" and "'id'" in show(k)]
        n = [v for k, v in p.pc.items() if k.tag == "niter"]
        if n and n[0] == 0:
            continue
        if ident and ident[0] is True:
            ctx.ob("attributes", "identifier", not sets_, "", f.site)
            continue
        for e in sets_:
            ctx.ob("attributes", "returned", p.outcome == "return" and e.term in list(
                subterms(p.value)), "the result is " + show(p.value)[:80], f.site)
        pairs = [e.extra.args for e in sets_] + [
            x.args for x in subterms(p.value) if x.tag == "pair"] + [
            x.args for x in subterms(p.value) if x.tag in ("tuple", "list") and len(x.args) == 2 and
            x.args[1].tag in ("tuple", "list")]
        if differ is None:
            ctx.ob("attributes", "difference", not pairs and not n, "unconditional", f.site)
            continue
        ctx.ob("attributes", "differ" if differ else "equal", bool(pairs) == differ,
               "reported: {}".format(bool(pairs)), f.site)
        for k, v in pairs:
            ok = v.tag in ("list", "tuple") and len(v.args) == 2 and side(v.args[0], b) and \
                not side(v.args[0], a) and side(v.args[1], a) and not side(v.args[1], b)
            ctx.ob("attributes", "values", ok, show(v)[:120], f.site)
        other = [show(k) for k in p.pc if k.tag != "niter" and not (
            "'id'" in show(k) or has(k, a) and has(k, b) or show(k).startswith("eqc("))
            and (has(k, a) or has(k, b))]
        other += [show(k) for k in p.pc if lone(k, a, b) and "'id'" not in show(k)]
        ctx.ob("attributes", "conditions", not other, str(other)[:120], f.site)


def lone(t, a, b):
    """A condition on the value of one of the dicts"""
    values = [x for x in subterms(t) if x.tag in ("item", "getitem")]
    return t.tag != "niter" and bool(values) and \
        any(has(x.args[0], a) for x in values) != any(has(x.args[0], b) for x in values)


def side(t, name):
    """The value is an item of the dict (and not only its key)"""
    t = t if isinstance(t, T) else NONE
    if t.tag in ("item", "getitem"):
        return has(t.args[0], name)
    if t.tag == "elem":
        return False
    if t.tag == "call" and isinstance(t.args[0], T) and t.args[0].tag == "attr":
        return has(t.args[0], name)
    return has(t, name)


PROPS = {"modules": ("modules", "diff_set"), "environment": ("environment_attrs", "diff_set"),
         "file_accesses": ("file_accesses", "diff_set"), "trial": ("to_dict", "diff_dict")}


def trials_in(t):
    """[(side, attribute)] of the trials used in a value"""
    out = set()
    for x in subterms(t):
        if x.tag in ("attr", "bound"):
            o = x.args[0]
            if o.tag == "attr" and o.args[1] in ("trial1", "trial2"):
                out.add((o.args[1], x.args[1] if x.tag == "attr" else x.args[1].name))
    return out


def sides(ctx):
    ctx.rule("sides", "a comparison is created for its first and second trials in order, and "
             "compares the same information of the first trial with that of the second")
    c = ctx.project.cls(MOD + ":Diff")
    f = c.find_method("__init__")
    refs = [n for n in f.params() if n != "self"][:2]
    for p in run(ctx, f):
        got = {}
        for e in p.events:
            if e.kind == "setattr" and show(e.term).startswith("self") and \
                    skey(e.extra.args[0]) in ("trial1", "trial2"):
                v = e.extra.args[1]
                got[skey(e.extra.args[0])] = [r for r in refs if has(v, r)] \
                    if v.tag == "new" and last(call_name(v)) == "Trial" else None
        ctx.ob("sides", "trials", got == {"trial1": [refs[0]], "trial2": [refs[1]]}, str(got), f.site)
    for name, (attr_, fn) in sorted(PROPS.items()):
        f = c.find_method(name)
        if f is None:
            ctx.ob("sides", name, False, "no such comparison", c.site)
            continue
        g = ctx.project.func(MOD + ":" + fn)
        for p in run(ctx, f, inline=lambda h: h.module is c.module and h.name not in (
                "diff_set", "diff_dict")):
            if p.outcome != "return":
                continue
            v = p.value
            if not ctx.ob("sides", name + ":comparison", v.tag == "call" and
                          last(call_name(v)) == fn, show(v)[:100], f.site):
                continue
            kw = dict(v.args[2])
            kw.update(zip(g.params(), v.args[1]))
            one, two = kw.get(g.params()[0]), kw.get(g.params()[1])
            if one is None or two is None:
                continue
            ctx.ob("sides", name + ":first", trials_in(one) == {("trial1", attr_)},
                   str(trials_in(one)), f.site)
            ctx.ob("sides", name + ":second", trials_in(two) == {("trial2", attr_)},
                   str(trials_in(two)), f.site)
            ctx.ob("sides", name + ":same", re.sub("trial[12]", "trial", show(one)) ==
                   re.sub("trial[12]", "trial", show(two)), show(two)[:100], f.site)
            rep = kw.get("create_replaced")
            if rep is None and len(g.params()) > 2:
                d = g.node.args.defaults
                rep = const(ast.literal_eval(d[-1])) if d and isinstance(d[-1], ast.Constant) else None
            ctx.ob("sides", name + ":replacements", name == "trial" or
                   (rep is not None and rep == const(False)) == (name == "file_accesses"),
                   str(rep), f.site)
            if name == "trial":
                d = [x for x in subterms(one) if x.tag == "call" and
                     last(call_name(x)) == "to_dict"]
                opts = {k: strings(x) for k, x in d[0].args[2]} if d else {}
                ctx.ob("sides", "trial:attributes", opts.get("ignore", set()) <= {"id"} and
                       opts.get("extra", set()) >= {"start", "finish", "duration_text",
                                                    "code_hash"}, str(opts), f.site)


def skey(x):
    return x if isinstance(x, str) else strval(x)


def strings(t):
    return {x.args[1] for x in subterms(t) if x.tag == "const" and isinstance(x.args[1], str)}


SAME = {"Module": {"name", "version", "code_hash"}, "EnvironmentAttr": {"name", "value"},
        "FileAccess": {"name", "content_hash_before", "content_hash_after", "mode"}}


def sameness(ctx):
    ctx.rule("sameness", "two modules are the same when their names, versions and contents are; two "
             "attributes when their names and values are; two accesses when their names, modes "
             "and contents before and after are")
    for name, want in sorted(SAME.items()):
        c = [k for k in ctx.project.all_classes("now.persistence.models") if k.name == name][0]
        h, q = c.find_method("__hash__"), c.find_method("__eq__")
        used = {}
        for kind, f in (("hash", h), ("eq", q)):
            if f is None or f.cls is not c:
                ctx.ob("sameness", name + ":" + kind, False, "is not defined", c.site)
                used[kind] = set()
                continue
            got = set()
            opaque = set()
            for p in run(ctx, f, inline=lambda g: not g.decorators):
                if kind == "eq" and p.outcome == "return":
                    wrong = [show(k)[:80] for k, v in p.pc.items() if k.tag == "cmp" and
                             k.args[0] == "NotEq" and v is False and p.value == const(False)]
                    ctx.ob("sameness", name + ":eq:sign", not wrong, str(wrong), f.site)
                for t in [p.value] + list(p.pc):
                    for x in subterms(t):
                        if x.tag == "attr" and x.args[0].tag == "self":
                            got.add(x.args[1])
                        if kind == "eq" and x.tag == "cmp":
                            l, r = show(x.args[1]), show(x.args[2])
                            if "self" in l + r and "other" in l + r:
                                m = lambda s: re.sub(r"self\(\w+\)|other", "_", s)
                                opaque.add((m(l), m(r)))
            if kind == "eq":
                ctx.ob("sameness", name + ":eq:sides", all(
                    l == r for l, r in opaque if re.fullmatch(r"_\.\w+", l) and
                    re.fullmatch(r"_\.\w+", r)),
                       str(sorted(opaque))[:100], f.site)
            used[kind] = {a for a in got if not a.startswith("__") and "__key" not in a}
        every = used["hash"] | used["eq"]
        ctx.ob("sameness", name, every == want, "compared by {}".format(sorted(every)), c.site)
        ctx.ob("sameness", name + ":hash", used["hash"] <= want and "name" in used["hash"],
               "{}".format(sorted(used["hash"])), c.site)


def unnumbered(t):
    return re.sub(r"#\d+", "", show(t))


def swap(s):
    return re.sub(r"(trial|function)([12])", lambda m: m.group(1) + "21"[int(m.group(2)) - 1], s)


def top_query(t):
    """The outermost query of a value: its filters"""
    out = set()
    for x in subterms(t):
        if x.tag == "call" and isinstance(x.args[0], T) and x.args[0].tag == "attr" and \
                x.args[0].args[1] == "filter":
            for a in x.args[1]:
                out |= predicates(a)
            return out
    return None


def functions(ctx):
    ctx.rule("functions", "the comparison of two activations uses for each side the records of its "
             "own trial and activation, and reports the accesses of each in its own trial")
    c = command(ctx, "diff")
    f = c.find_method("get_diff_function_info")
    ex = c.find_method("execute")
    if f is None:
        raise AnalysisBroken("no comparison of functions")
    n = 0
    for p in run(ctx, f, symbolic=True, inline=lambda g: g.module is c.module and
                 g.name != "filter_file_accesses_diff_function"):
        if p.outcome != "return" or p.value.tag != "dict":
            continue
        d = {strval(x.args[0]): x.args[1] for x in p.value.args if x.tag == "pair"}
        for k, v in d.items():
            n += 1
            if k.endswith("_trial1"):
                o = d.get(k[:-1] + "2")
                lens = v.tag == "list" and o is not None and o.tag == "list" and \
                    len(v.args) != len(o.args)
                ctx.ob("functions", k[:-7], o is not None and (
                    lens or swap(unnumbered(v)) == unnumbered(o)),
                    "the sides differ: {}".format(show(o)[:100]), f.site)
            s = unnumbered(v)
            if k.endswith(("_trial1", "_trial2")):
                me, it_ = k[-1], "21"[int(k[-1]) - 1]
                ctx.ob("functions", k, "trial{}_id".format(it_) not in s and
                       "function{}_id".format(it_) not in s, "uses the other side", f.site)
                q = top_query(v)
                if q is None:
                    continue
                col = lambda a: [x for x in q if x[0] == a and x[1] == "=="]
                tr = [x for x in q if x[0].endswith(".trial_id") and x[1] == "=="]
                ctx.ob("functions", k + ":trial", bool(tr) and all(
                    x[2] == "trial{}_id".format(me) or x[2].endswith(".trial_id")
                    for x in tr), str(tr), f.site)
                kind = k.split("_function")[0]
                if kind == "output":
                    ctx.ob("functions", kind + ":value", s.endswith(".repr") and
                           col("Evaluation.id"), s[-60:], f.site)
                elif kind == "arguments":
                    ctx.ob("functions", kind + ":value", ".repr" in s and
                           ".dependency_id" in s and any(
                               x.tag == "const" and x.args[1] == "argument" for x in subterms(v)) and
                           re.search(r"Dependency\.m\.dependent_id Eq", s) is not None and
                           re.search(r"Dependency\.m\.trial_id Eq", s) is not None,
                           s[-80:], f.site)
                elif kind == "variables":
                    rest = {x for x in q if x[0] != "?"}
                    ctx.ob("functions", kind + ":value", any(
                        x[0] == "Evaluation.activation_id" for x in rest) and any(
                        x[:3] in (("CodeComponent.id", "==", "Evaluation.code_component_id"),)
                        for x in rest) and {x[0] for x in tr} >= {"Evaluation.trial_id"} and (
                        "CodeComponent.trial_id" in {x[0] for x in tr} |
                        {x[2] for x in tr}), str(rest)[:120], f.site)
                elif kind == "duration":
                    ctx.ob("functions", kind + ":value", s.index(".checkpoint") <
                           s.index(".start_checkpoint") if ".checkpoint" in s and
                           ".start_checkpoint" in s else "finish" in s or "duration" in s,
                           s[-80:], f.site)
            elif k.startswith("file_accesses_"):
                want = {"file_accesses_added": "2", "file_accesses_removed": "1"}.get(k)
                if want is None:
                    continue
                acc = [v for _, v in v.args[2]] + list(v.args[1]) if v.tag == "call" else [v]
                sides_ = {y for a in acc for y in re.findall(r"function([12])_id", show(a))}
                ctx.ob("functions", k, sides_ == {want}, "accesses of the activation of trial {}".
                       format(sorted(sides_)), f.site)
                idx = re.findall(r"file_accesses\[(\d)\]", show(v))
                ctx.ob("functions", k + ":set", idx == [{"2": "0", "1": "1"}[want]], str(idx), f.site)
    ctx.ob("functions", "analysed", n > 0, "", f.site)
    g = c.find_method("filter_file_accesses_diff_function")
    if g is not None:
        for p in run(ctx, g):
            eq = [(show(k), v) for k, v in p.pc.items() if k.tag == "cmp"]
            inside = p.outcome == "return" and any(x.tag == "elem" for x in subterms(p.value))
            it_ = [v for k, v in p.pc.items() if k.tag == "niter"]
            if it_ and it_[0]:
                ctx.ob("functions", "accesses:own", all(
                    ".activation_id" in s for s, _ in eq) and inside == any(
                        v == (" NotEq " not in s) for s, v in eq), str(eq)[:100], g.site)


def variables(ctx):
    ctx.rule("variables", "variables without a match in the other trial are removed (first) or added "
             "(second); matched ones whose values differ are changed")
    c = command(ctx, "diff")
    f = c.find_method("build_variables_lcs")
    if f is None:
        return
    one, two = [n for n in f.params() if n != "self"][:2]
    for p in run(ctx, f):
        if p.outcome != "return" or p.value.tag != "tuple" or len(p.value.args) != 3:
            continue
        changed, added, removed = p.value.args
        in1 = in2 = None
        differ = None
        for k, v in p.pc.items():
            if k.tag == "cmp" and k.args[0] in ("In", "NotIn"):
                val = v if k.args[0] == "In" else not v
                i = re.findall(r"\[([01])\]$", show(k.args[2]))
                if i == ["0"]:
                    in1 = val
                elif i == ["1"]:
                    in2 = val
            elif k.tag == "cmp" and k.args[0] in ("Eq", "NotEq") and has(k, one) and has(k, two):
                differ = (v is False) == (k.args[0] == "Eq")
        el = lambda t: [x for x in getattr(t, "args", ()) if isinstance(x, T)]
        if in1 is not None:
            ctx.ob("variables", "removed", bool(el(removed)) == (not in1) and all(
                has(x, one) and x.tag == "elem" for x in el(removed)), show(removed)[:80], f.site)
            if differ is not None:
                ctx.ob("variables", "changed", bool(el(changed)) == bool(in1 and differ),
                       show(changed)[:80], f.site)
            elif el(changed):
                ctx.ob("variables", "changed", False, "without a difference", f.site)
        if in2 is not None:
            ctx.ob("variables", "added", bool(el(added)) == (not in2) and all(
                has(x, two) and x.tag == "elem" for x in el(added)), show(added)[:80], f.site)


def graph(ctx):
    ctx.rule("graph", "the graph of a comparison combines the same kind of graph of the first and of "
             "the second trial, with the activations, times and edges of both")
    m = ctx.project.module(GR)
    c = ctx.project.cls(GR + ":DiffGraph")
    made = ctx.project.func(GR + ":create_diff")
    kinds = 0
    for f in c.methods.values():
        for p in run(ctx, f):
            if p.outcome == "return" and p.value.tag == "call" and \
                    last(call_name(p.value)) == made.name:
                kinds += 1
                kw = dict(p.value.args[2])
                kw.update(zip(made.params(), p.value.args[1]))
                one, two = [show(kw[n]) for n in made.params()[:2]]
                ctx.ob("graph", f.name, ".trial1." in one and ".trial2." not in one and
                       ".trial2." in two and one.replace("trial1", "trial2") == two,
                       two[-60:], f.site)
                want = "." + f.name + "("
                ctx.ob("graph", f.name + ":kind", want in one, one[-40:], f.site)
    ctx.ob("graph", "kinds", kinds >= 4, str(kinds), c.site)
    d1, d2 = made.params()[:2]
    for p in run(ctx, made, loops=(0, 1)):
        if p.outcome != "return":
            continue
        ds = [x for x in subterms(p.value) if x.tag == "dict" and any(
            strval(y.args[0]) == "trial1" for y in x.args if y.tag == "pair")]
        if not ds:
            continue
        d = {strval(x.args[0]): x.args[1] for x in ds[0].args if x.tag == "pair"}
        for k, v in (("trial1", d1), ("trial2", d2)):
            ctx.ob("graph", "created:" + k, k in d and has(d[k], v) and
                   not has(d[k], d1 if v == d2 else d2), show(d.get(k, NONE))[:80], made.site)
        e = [x for x in subterms(d.get("edges", NONE)) if x.tag == "call" and
             last(call_name(x)) == "merge_edges"]
        if e:
            a = {k: show(v) for k, v in e[0].args[2]}
            g = m.funcs["merge_edges"]
            v = [a.get(n, "") for n in g.params()]
            ctx.ob("graph", "created:edges", len(v) == 4 and d1 in v[0] and d2 in v[1] and
                   v[2].endswith("[1]") and v[3].endswith("[2]") and d2 not in v[0] and
                   d1 not in v[1], str(v)[:120], made.site)
        r = [x for x in p.events if x.kind == "call" and last(cname(x)) == "create_mapping"]
        for x in r:
            a = [v for _, v in x.term.args[2]] if x.term.args[2] else list(x.term.args[1])
            ctx.ob("graph", "created:roots", sorted((has(y, d1), has(y, d2)) for y in a) ==
                   [(False, True), (True, False)], "", made.site)
        for k in ("min_duration", "max_duration"):
            s = show(d.get(k, NONE))
            ups = [x for x in p.events if x.kind == "call" and last(cname(x)) == "update" and
                   repr(k) in show(x.term)]
            froms = {n for n in (d1, d2) for x in ups if has(x.term.args[1][0], n)} if ups else \
                {n for n in (d1, d2) if d.get(k) is not None and has(d[k], n)}
            ctx.ob("graph", "created:" + k, froms == {d1, d2}, "of {}".format(sorted(froms)),
                   made.site)
        fin = p.value.args[0]
        vals = [v for k, v in p.pc.items() if k.tag == "truth" and (
            show(k.args[0]) in (d1 + "[0]", d2 + "[0]"))]
        ctx.ob("graph", "created:finished", has(fin, d1) and has(fin, d2) or bool(vals),
               show(fin)[:60], made.site)
    g = m.funcs.get("merge")
    if g is not None:
        n1, n2 = g.params()[:2]
        for p in run(ctx, g):
            ups = {}
            for e in p.events:
                if e.kind == "call" and last(cname(e)) in ("update", "extend") and \
                        e.term.args[0].tag == "attr" and e.term.args[0].args[0].tag == "attr":
                    ups[e.term.args[0].args[0].args[1]] = show(e.term.args[1][0])
            for a in ("activations", "duration", "tooltip", "trial_ids"):
                ctx.ob("graph", "merged:" + a, ups.get(a, n2 + "." + a) == n2 + "." + a and (
                    a in ups or any(e.kind == "setattr" and skey(e.extra.args[0]) == a
                                    for e in p.events)), str(ups.get(a)), g.site)
            attrs = {skey(e.extra.args[0]): show(e.extra.args[1]) for e in p.events
                     if e.kind == "setattr"}
            for i, n in (("1", n1), ("2", n2)):
                for a, src in (("original", "index"), ("children", "children")):
                    if a + i in attrs:
                        ctx.ob("graph", "merged:" + a + i, attrs[a + i] == n + "." + src,
                               attrs[a + i], g.site)
            items = {show(e.term): show(e.extra.args[0]) for e in p.events if e.kind == "setitem"}
            for i, n in ((2, n1), (3, n2)):
                if len(g.params()) > 3:
                    ctx.ob("graph", "merged:map{}".format(i - 1), items.get(g.params()[i]) ==
                           n + ".index", str(items), g.site)
            same = [v if k.args[0] == "Eq" else not v for k, v in p.pc.items()
                    if k.tag == "cmp" and ".name" in show(k)]
            if same:
                ctx.ob("graph", "merged:name", ("name" in attrs) == (not same[0]) and (
                    same[0] or n1 + ".name" in attrs["name"] and n2 + ".name" in attrs["name"] and
                    attrs["name"].index(n1) < attrs["name"].index(n2)), str(attrs.get("name")),
                       g.site)
    g = m.funcs.get("merge_edges")
    if g is not None:
        e1, e2, i1, i2 = g.params()[:4]
        for p in run(ctx, g):
            for e in p.events:
                if e.kind == "call" and last(cname(e)) == "update":
                    s = show(e.term)
                    ctx.ob("graph", "edges:sides", not (has(e.term, e1) and has(e.term, i2)) and
                           not (has(e.term, e2) and has(e.term, i1)), s[:100], g.site)
                if e.kind == "getitem" and show(e.term).startswith((i1 + "[", i2 + "[")):
                    s = show(e.term)
                    ctx.ob("graph", "edges:ends", (s.startswith(i1) == ("elem(" + e1 in s)),
                           s[:80], g.site)


def sets_of(p):
    """{attribute: value} and [(object, attribute, value)] of the attributes set on a path"""
    return [(show(e.term), skey(e.extra.args[0]), e.extra.args[1]) for e in p.events
            if e.kind == "setattr"]


def trees(ctx):
    ctx.rule("trees", "the combined tree has every node of both trees, with the children and positions "
             "that it has in each; nodes that are matched are one node, and edges keep their counts")
    m = ctx.project.module(GR)
    g = ctx.project.cls(GR + ":NowConfig").find_method("rename")
    for p in run(ctx, g) if g is not None else []:
        if p.outcome != "return":
            continue
        roots = [v for k, v in p.pc.items() if k.tag == "cmp" and "parent_index" in show(k)]
        names = [(v if k.args[0] == "Eq" else not v) for k, v in p.pc.items() if k.tag == "cmp" and
                 show(k).count(".name") == 2]
        cost = p.value.args[1] if p.value.tag == "const" else None
        if roots and all(roots) and not names:
            ctx.ob("trees", "rename:roots", cost == 0, "roots are matched at the cost {}".format(cost),
                   g.site)
        elif len(set(names)) == 1 and p.value.tag == "const":
            ctx.ob("trees", "rename:" + ("same" if names[0] else "other"),
                   isinstance(cost, int) and (cost == 0) == names[0],
                   "nodes are matched at the cost {}".format(cost), g.site)
        else:
            ctx.ob("trees", "rename:names", p.value.tag != "const", "the cost is {} when {}".format(
                show(p.value)[:60], [show(k)[:50] for k in p.pc]), g.site)
    g = m.funcs.get("children_cmp")
    for p in run(ctx, g) if g is not None else []:
        if p.outcome != "return":
            continue
        known = {}
        for k, v in p.pc.items():
            s = re.match(r"\(?(\w+)\.(original[12]) Is(Not)? None", show(k))
            if s:
                known[(s.group(1), s.group(2))] = bool(v) != (s.group(3) is None)
        s = re.match(r"binop\(Sub, (\w+)\.(original[12]), (\w+)\.(original[12])\)", show(p.value))
        a, b = g.params()[:2]
        if s:
            ctx.ob("trees", "order:" + s.group(2), s.group(1) == a and s.group(3) == b and
                   s.group(2) == s.group(4) and known.get((a, s.group(2))) is True and
                   known.get((b, s.group(2))) is True, show(p.value)[:80], g.site)
        elif p.value.tag == "const":
            both_ = [o for o in ("original1", "original2")
                     if known.get((a, o)) and known.get((b, o))]
            ctx.ob("trees", "order:unknown", not both_ and p.value.args[1] in (-1, 1),
                   "nodes with {} are ordered by {}".format(both_, show(p.value)), g.site)
    g = m.funcs.get("merge")
    for p in run(ctx, g) if g is not None else []:
        if p.outcome != "return":
            continue
        n = g.params()
        got = {(o, a): show(v) for o, a, v in sets_of(p)}
        new = show(p.value)
        for i, src in (("1", n[0]), ("2", n[1])):
            for a, b in (("original", "index"), ("children", "children")):
                ctx.ob("trees", "merge:" + a + i, got.get((new, a + i)) == src + "." + b,
                       "it is {}".format(got.get((new, a + i))), g.site)
        if len(n) > 3:
            items = {(show(e.term), show(e.extra.args[0])): e.extra.args[1] for e in p.events
                     if e.kind == "setitem"}
            for mp, src in ((n[2], n[0]), (n[3], n[1])):
                ctx.ob("trees", "merge:" + mp, items.get((mp, src + ".index")) == p.value,
                       "the nodes are kept as {}".format(sorted(items))[:100], g.site)
    g = m.funcs.get("create_mapping")
    for p in run(ctx, g, loops=(1,)) if g is not None else []:
        if p.outcome != "return" or p.value.tag != "tuple" or len(p.value.args) != 3:
            if p.outcome == "return":
                ctx.ob("trees", "mapping:result", False, show(p.value)[:80], g.site)
            continue
        root, map1, map2 = p.value.args
        r1, r2 = g.params()[:2]
        a = [e.term for e in p.events if e.kind == "call" and last(cname(e)) == "APTED"]
        for t in a:
            ctx.ob("trees", "mapping:trees", [show(x) for x in t.args[1][:2]] == [r1, r2],
                   show(t)[:80], g.site)
        none = {}
        for k, v in p.pc.items():
            s = re.search(r"\[([01])\] Is(Not)? None\)$", show(k))
            if s and k.tag == "cmp":
                none[int(s.group(1))] = bool(v) == (s.group(2) is None)
        side_ = 0 if none.get(1) else 1 if none.get(0) else None
        if side_ is not None:
            i, o = str(side_ + 1), str(2 - side_)
            objs = [o_ for o_, x, v in sets_of(p) if x in ("children1", "children2")]
            got = {x: show(v) for o_, x, v in sets_of(p)}
            mine = (map1, map2)[side_]
            kept = [x for x in subterms(mine) if x.tag == "pair"]
            ctx.ob("trees", "mapping:only" + i, len(kept) == 1 and show(kept[0].args[0]).endswith(
                "[{}].index".format(side_)) and all(show(kept[0].args[1]) == x for x in objs),
                "the nodes of tree {} are kept as {}".format(i, show(mine)[:100]), g.site)
            ctx.ob("trees", "mapping:children" + i, got.get("children" + i, "").endswith(
                "[{}].children".format(side_)) and got.get("children" + o) in ("list()", "tuple()"),
                "the children are {}".format({k: v[-20:] for k, v in got.items()}), g.site)
            ctx.ob("trees", "mapping:original" + i, got.get("original" + i, "").endswith(
                "[{}].index".format(side_)) and got.get("original" + o) == "None",
                "the positions are {}".format({k: v[-20:] for k, v in got.items()}), g.site)
            ctx.ob("trees", "mapping:other" + i, not any(
                x.tag == "pair" for x in subterms((map1, map2)[1 - side_])), "", g.site)
        else:
            mg = [e.term for e in p.events if e.kind == "call" and last(cname(e)) == "merge"]
            for t in mg:
                kw = dict(t.args[2])
                kw.update(zip(m.funcs["merge"].params(), t.args[1]))
                v = [show(kw.get(x, NONE)) for x in m.funcs["merge"].params()[:2]]
                ctx.ob("trees", "mapping:merged", v[0].endswith("[0]") and v[1].endswith("[1]") and
                       v[0][:-3] == v[1][:-3], str(v)[-80:], g.site)
            ctx.ob("trees", "mapping:both", len(mg) == 1 or "merge" not in m.funcs,
                   "matched nodes are not merged", g.site)
        same = [bool(v) == (k.args[0] == "Is") for k, v in p.pc.items() if k.tag == "cmp" and
                k.args[0] in ("Is", "IsNot") and r1 in show(k) and r2 in show(k) and
                "root1.index" in show(k).replace(r1 + ".index", "root1.index")]
        if root.tag == "new":
            kw = dict(root.args[2])
            v = [show(kw.get("children1", NONE)), show(kw.get("children2", NONE))]
            ctx.ob("trees", "mapping:new root", v == ["list({})".format(r1), "list({})".format(r2)],
                   "its children are {}".format(v), g.site)
            if same:
                ctx.ob("trees", "mapping:roots", same[0] is False,
                       "a root is created although the roots match", g.site)
        elif same:
            ctx.ob("trees", "mapping:root", same[0] is True and (
                show(root).endswith("[{}.index]".format(r1)) or
                show(root).endswith("[{}.index]".format(r2))),
                "the root is {}".format(show(root)[-60:]), g.site)
    g = m.funcs.get("merge_edges")
    for p in run(ctx, g, loops=(1,)) if g is not None else []:
        if p.outcome != "return":
            continue
        n = g.params()
        ups = [show(e.term) for e in p.events if e.kind == "call" and last(cname(e)) == "update"]
        for e_ in n[:2]:
            other = n[1] if e_ == n[0] else n[0]
            u = [x for x in ups if "elem({})".format(e_) in x]
            mp = n[2] if e_ == n[0] else n[3]
            if ups:
                el = "elem({})".format(e_)
                want = [mp + "[{}['source']].index".format(el), mp + "[{}['target']].index".format(el),
                        "[{}['type']]".format(el), ".update({}['count'])".format(el)]
                pos = [u[0].find(w) for w in want] if u else []
                ctx.ob("trees", "edges:" + e_, len(u) == 1 and -1 not in pos and pos == sorted(pos),
                       "the edges are added as {}".format([x[-160:] for x in u]), g.site)
        d = [x for x in subterms(p.value) if x.tag == "dict"]
        keys = {strval(x.args[0]) for y in d[:1] for x in y.args if x.tag == "pair"}
        ctx.ob("trees", "edges:result", bool(d) and keys >= {"source", "target", "type", "count"},
               "the edges have {}".format(sorted(map(str, keys))), g.site)
    g = m.funcs.get("create_diff")
    for p in run(ctx, g, loops=(1,)) if g is not None else []:
        if p.outcome != "return" or p.value.tag != "tuple":
            continue
        nodes = p.value.args[-1]
        ctx.ob("trees", "nodes", nodes.tag != "list" or bool(nodes.args), "a node is lost", g.site)
        st = sets_of(p)
        ctx.ob("trees", "nodes:number", any(a == "index" and v.tag == "const" and v.args[1] == 1
                                            for o, a, v in st), "", g.site)
        ctx.ob("trees", "nodes:next", any(e.kind == "aug" and e.term.tag == "const" and
                                          e.term.args[1] == 1 for e in p.events) or not any(
            a == "index" and v.tag == "const" for o, a, v in st) or any(
            isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add) and isinstance(x.right, ast.Constant) and
            x.right.value == 1 for q in parts(g) for x in ast.walk(q.node)),
            "nodes have the same number", g.site)
        par = {a: v for o, a, v in st if a in ("caller_id", "parent_index")}
        num = [v for o, a, v in st if a == "index"]
        for a, v in par.items():
            ctx.ob("trees", "nodes:" + a, v in num, show(v), g.site)
    ctx.need("trees", 0)
