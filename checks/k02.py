"""Commands show exactly what their options ask for.

Each command is analysed once per combination of its options; the sources of
what it prints (or of what it asks a model to do) are the values that reach
the printing and the model calls.
"""
import ast
import itertools

from vlib.absint import const, param, mk
from vlib.project import FuncInfo
from vlib.rules import *
from checks.commands import command_classes, command_name
from checks.w01 import src

RULES = ["sections", "diff", "evaluation", "display", "dataflow", "dispatch", "cleaning"]
ASSUMPTIONS = ["Models answer with the records of the trials that they are created for."]
PRINTERS = {"print_trial_relationship", "print_function_activation", "print_brief",
            "print_replaced_attributes", "print_replaced_environment", "print_ted",
            "print_diff_trials", "hide_timestamp", "create_ipynb"}


def analyse(ctx, f, values, args=None, inline=lambda g: True, cls=None):
    """Paths of the function when the parsed arguments have the values"""
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f and not (
        g.module is f.module and g.name not in PRINTERS and inline(g)))
    it.keep_pc = True
    it.symbolic = {"m", "t", "__model__"}

    def pre(st):
        for k, v in values.items():
            st.over[(param("args"), k)] = v if isinstance(v, T) else const(v)
    return it.run(f, pre=pre, args=args or {}, cls=cls)


def command(ctx, name):
    for c in command_classes(ctx):
        if command_name(c) == name:
            return c
    raise AnalysisBroken("no command " + name)


def combinations(names):
    for bits in itertools.product((False, True), repeat=len(names)):
        yield dict(zip(names, bits))


def label(values):
    return ",".join(k for k, v in sorted(values.items()) if v is True) or "no option"


def printed(p, model):
    """[(attribute path of the model, name of the call, event)] in order"""
    out = []
    for e in p.events:
        if e.kind not in ("call", "print"):
            continue
        if e.kind == "call" and last(cname(e)) in ("sorted", "len", "list", "str", "repr"):
            continue
        found = []
        vals = e.term.args if e.kind == "print" else list(e.term.args[1]) + [
            v for _, v in e.term.args[2]]
        if e.kind == "call" and isinstance(e.term.args[0], T) and e.term.args[0].tag == "attr":
            vals = vals + [e.term.args[0]]
        for v in vals:
            for x in subterms(v):
                if x.tag in ("attr", "bound") and x.args[0].tag == "new" and \
                        last(call_name(x.args[0])) == model:
                    found.append(x.args[1] if x.tag == "attr" else x.args[1].name)
        for a in found:
            out.append((a, last(cname(e)) if e.kind == "call" else "print", e))
    return out


def created(p, name):
    return [e.term for e in p.events if e.kind == "new" and last(cname(e)) == name]


SECTIONS = {"modules": "modules", "definition": "code_blocks", "environment": "environment_attrs",
            "function_activations": "initial_activation", "file_accesses": "file_accesses",
            "arguments": "arguments"}


def values_of(t):
    out = []
    for v in list(t.args[1]) + [v for _, v in t.args[2]]:
        if v.tag in ("tuple", "list"):
            out.extend(v.args)
        elif v.tag == "dict":
            out.extend(x.args[1] for x in v.args if x.tag == "pair")
        else:
            out.append(v)
    return out


def show_(ctx):
    c = command(ctx, "show")
    f = c.find_method("execute")
    every = set(SECTIONS.values())
    for combo in combinations(sorted(SECTIONS)):
        for p in analyse(ctx, f, dict(combo, dir=None)):
            name = label(combo)
            new = created(p, "Trial")
            ctx.ob("show", "trial", len(new) == 1 and [show(v) for v in values_of(new[0])] ==
                   ["args.trial"], "", f.site)
            got = printed(p, "Trial")
            attrs = {a for a, _, _ in got if not a.startswith("_")}
            want = {SECTIONS[k] for k, v in combo.items() if v}
            ctx.ob("show", "sections", attrs & every == want,
                   "{}: shows {} instead of {}".format(name, sorted(attrs & every), sorted(want)),
                   f.site)
            ctx.ob("show", "always", "tags" in attrs and any(
                e.kind == "call" and last(cname(e)) == "show" and
                e.term.args[0].args[0].tag == "new" for e in p.events),
                   "{}: without tags or information".format(name), f.site)
    m = c.module
    g = m.funcs.get("print_trial_relationship")
    if g is not None:
        it = ctx.interp(loops=(0, 1, 2), opaque_fn=lambda h: h is not g)
        it.keep_pc = True
        for p in ctx.paths_of(it, g):
            n = [v for k, v in p.pc.items() if k.tag == "niter"]
            sh = calls(p, "show", ".show")
            pr = [e for e in p.events if e.kind == "print"]
            ctx.ob("show", "records", len(pr) == 1 and (not n or len(sh) == n[0]) and all(
                has_param(e.term, "relation") for e in sh), "{} of {}".format(len(sh), n), g.site)
    g = m.funcs.get("print_function_activation")
    if g is not None:
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda h: h is not g, max_depth=1)
        it.keep_pc = True
        it.opaque_names = {"print_function_activation"}
        for p in ctx.paths_of(it, g):
            none = cond_value(p, lambda t: t.tag == "cmp" and show(t.args[1]) == "activation")
            if none is None:
                none = cond_value(p, lambda t: show(t) == "bool(activation)") is False
            inner = [v for k, v in p.pc.items() if k.tag == "niter" and
                     "activations" in show(k)]
            rec = [e for e in calls(p) if last(cname(e)) == "print_function_activation"]
            if none:
                continue
            ctx.ob("show", "activation", bool(inner) and len(rec) == inner[0] and any(
                e.kind == "print" for e in p.events) and bool(calls(p, "show", ".show")),
                   "", g.site)
            for e in rec:
                a = dict(e.term.args[2])
                ctx.ob("show", "inner activation", "activation.activations" in show(
                    a.get("activation", NONE)) and show(a.get("level", NONE)) in (
                        "binop(Add, level, 1)", "binop(Add, 1, level)"), show(e.term)[:100],
                       g.site)


def has_param(t, name):
    return any(x.tag == "param" and x.args[0] == name for x in subterms(t))


DIFFS = {"modules": "modules", "environment": "environment", "file_accesses": "file_accesses"}


def part(t):
    """(attribute, index) of Diff(...).attribute[index]"""
    for x in subterms(t):
        if x.tag == "item" and x.args[0].tag == "attr" and x.args[0].args[0].tag == "new" and \
                is_const(x.args[1]):
            return x.args[0].args[1], x.args[1].args[1]
    return None


def diff(ctx):
    ctx.rule("diff", "now diff compares the first with the second trial, prints exactly the "
             "comparisons that are asked, as added, removed and replaced, and hides timestamps if "
             "asked")
    c = command(ctx, "diff")
    f = c.find_method("execute")
    names = ["modules", "environment", "file_accesses", "activations", "definition", "brief",
             "hide_timestamps"]
    for combo in combinations(names):
        paths = analyse(ctx, f, dict(combo, dir=None, function_activations=None))
        for p in paths:
            name = label(combo)
            new = created(p, "Diff")
            if not ctx.ob("diff", "trials", len(new) == 1 and [show(v) for v in values_of(new[0])]
                          == ["args.trial1", "args.trial2"], "", f.site):
                continue
            seq = []
            for e in p.events:
                if e.kind == "call" and last(cname(e)) not in ("len", "sorted"):
                    seq.append(e)
            basic = [e for e in seq if last(cname(e)) == "print_diff_trials"]
            ctx.ob("diff", "information", len(basic) == 1, name, f.site)
            if basic:
                skip = show(dict(basic[0].term.args[2]).get("skip", NONE))
                hidden = {k for k in ("start", "finish", "duration_text") if repr(k) in skip}
                ctx.ob("diff", "information:timestamps",
                       hidden == ({"start", "finish", "duration_text"} if
                                  combo["hide_timestamps"] else set()), skip, f.site)
            for opt, attr_ in DIFFS.items():
                mine = [e for e in seq if any((part(v) or ("",))[0] == attr_ for v in
                                              list(e.term.args[1]) + [
                                                  v for _, v in e.term.args[2]])]
                shown = [e for e in mine if last(cname(e)) not in (
                    "print_msg", "hide_timestamp", "len")]
                if not combo[opt]:
                    ctx.ob("diff", opt, not shown, "{}: is shown".format(name), f.site)
                    continue
                brief = [e for e in shown if last(cname(e)) == "print_brief"]
                if combo["brief"]:
                    ok = len(shown) == 1 and len(brief) == 1
                    if ok:
                        a = {k: part(v) for k, v in brief[0].term.args[2]}
                        ok = a.get("added") == (attr_, 0) and a.get("removed") == (attr_, 1) and \
                            a.get("replaced") == (attr_, 2)
                    ctx.ob("diff", opt + ":brief", ok, name, f.site)
                    continue
                order = []
                for e in shown:
                    for v in list(e.term.args[1]) + [v for _, v in e.term.args[2]]:
                        if part(v):
                            order.append(part(v)[1])
                ctx.ob("diff", opt, sorted(order) == [0, 1, 2] and not brief,
                       "{}: {}".format(name, order), f.site)
                # what is printed follows its own title
                title = None
                for e in seq:
                    if last(cname(e)) == "print_msg":
                        s = show(e.term)
                        title = ([i for i, w in enumerate((" added", " removed", " replaced"))
                                  if w in s] or [None])[0]
                        if title is not None and part(e.term):
                            ctx.ob("diff", opt + ":count" if part(e.term)[0] == attr_ else
                                   "count", part(e.term)[1] == title, s[-60:], f.site)
                    elif e in shown:
                        idx = [part(v)[1] for v in list(e.term.args[1]) + [
                            v for _, v in e.term.args[2]] if part(v)]
                        ctx.ob("diff", opt + ":title", idx == [title], "{} after {}".format(
                            idx, title), f.site)
                        kind = last(cname(e))
                        ctx.ob("diff", opt + ":form", ("replaced" in kind) == (idx == [2]),
                               kind, f.site)
                if opt == "file_accesses":
                    hid = sorted(part(e.term)[1] for e in mine
                                 if last(cname(e)) == "hide_timestamp")
                    first = [i for i, e in enumerate(mine) if e in shown][:1]
                    late = [e for i, e in enumerate(mine) if last(cname(e)) == "hide_timestamp"
                            and first and i > first[0]]
                    ctx.ob("diff", "file_accesses:timestamps", set(hid) >= (
                        {0, 1} if combo["hide_timestamps"] else set()) and
                           (combo["hide_timestamps"] or not hid) and not late, str(hid), f.site)
                    rep = [e for e in shown if "replaced" in last(cname(e))]
                    for e in rep:
                        extra = show(dict(e.term.args[2]).get("extra", NONE))
                        ctx.ob("diff", "file_accesses:replaced timestamps",
                               ("'timestamp'" in extra) is not combo["hide_timestamps"],
                               extra, f.site)
            teds = [const_arg(e, "mode") for e in seq if last(cname(e)) == "print_ted"]
            want = [x for x in ("activations", "definition") if combo[x]]
            ctx.ob("diff", "distance", sorted(teds) == want, "{}: {}".format(name, teds), f.site)
    printers(ctx, c.module)


def const_arg(e, name):
    v = dict(e.term.args[2]).get(name)
    if v is None:
        v = e.term.args[1][-1] if e.term.args[1] else None
    return v.args[1] if v is not None and is_const(v) else None


def printers(ctx, m):
    g = m.funcs.get("hide_timestamp")
    if g is not None:
        it = ctx.interp(loops=(0, 1))
        it.keep_pc = True
        for p in ctx.paths_of(it, g):
            n = [v for k, v in p.pc.items() if k.tag == "niter"]
            st = [e for e in p.events if e.kind == "setattr" and
                  e.extra.args[0] == "hide_timestamp" and show(e.extra.args[1]) == "True"]
            ctx.ob("diff", "hide", len(st) == (n[0] if n else 0), "", g.site)
    g = m.funcs.get("print_brief")
    if g is not None:
        it = ctx.interp(loops=(0, 1))
        it.keep_pc = True
        for p in ctx.paths_of(it, g):
            for e in calls(p, "zip_longest", "zip", ".format"):
                pass
            lists = [e for e in p.events if e.kind == "call" and last(cname(e)) in (
                "zip_longest", "zip")]
            for e in lists:
                vals = e.term.args[1] or tuple(v for k, v in e.term.args[2])
                flat = []
                for v in vals:
                    if v.tag == "star":
                        v = v.args[0]
                    flat.extend(v.args if v.tag == "tuple" else [v])
                words = []
                for v in flat:
                    s = show(v)
                    words.append((("Additions" in s), ("Removals" in s), ("Changes" in s)))
                ok = len(words) == 3 and words == [
                    (True, False, False), (False, True, False), (False, False, True)]
                if ok:
                    for v, nm in zip(flat, ("added", "removed", "replaced")):
                        names = {x.args[0] for x in subterms(v) if x.tag == "param"}
                        ok = ok and names <= {nm}
                ctx.ob("diff", "brief columns", ok, show(e.term)[:200], g.site)
    g = m.funcs.get("print_replaced_attributes")
    if g is not None:
        it = ctx.interp(loops=(0, 1))
        it.keep_pc = True
        for p in ctx.paths_of(it, g):
            n = 0
            for e in p.events:
                s = show(e.term)
                if "changed from" not in s or e.kind not in ("print", ):
                    continue
                n += 1
                a, b = s.index("changed from"), s.index(" to ", s.index("changed from"))
                ctx.ob("diff", "changes", order_of(s), s[:200], g.site)
    for nm in ("print_replaced_environment", "print_diff_trials"):
        g = m.funcs.get(nm)
        if g is None:
            continue
        it = ctx.interp(loops=(0, 1))
        it.keep_pc = True
        for p in ctx.paths_of(it, g):
            for e in p.events:
                s = show(e.term)
                if e.kind == "print" and "changed from" in s:
                    ctx.ob("diff", nm, order_of(s), s[:200], g.site)


def order_of(s):
    """what precedes 'to' comes from the first trial, what follows it from the second"""
    i = s.index("changed from")
    j = s.index(" to ", i)
    before, after = s[i:j], s[j:]

    def which(x):
        r = []
        if "[0]" in x:
            r.append(0)
        if "[1]" in x:
            r.append(1)
        return r
    w1, w2 = which(before), which(after)
    return (not w1 or w1[-1] == 0) and (not w2 or w2[-1] == 1)


COLUMNS = {
    "line": {("CodeComponent.first_char_line", ">="), ("CodeComponent.last_char_line", "<=")},
    "column": {("CodeComponent.first_char_column", ">="), ("CodeComponent.last_char_column", "<=")},
    "code": {("CodeComponent.name", "==")}, "mode": {("CodeComponent.mode", "==")},
    "cid": {("CodeComponent.id", "==")}, "value": {("Evaluation.repr", "==")},
    "eid": {("Evaluation.id", "==")}, "aid": {("Evaluation.activation_id", "==")},
    "cell": {("Activation.name", "like")},
}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
OPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}


def column_of(t):
    """Evaluation.m.id -> Evaluation.id"""
    if t.tag == "attr" and t.args[0].tag == "attr" and t.args[0].args[1] in (
            "m", "t", "c", "__model__") and t.args[0].args[0].tag == "class":
        return t.args[0].args[0].args[0].name + "." + t.args[1]
    return None


def predicates(t):
    """{(column, operator, value)} of a condition of a query"""
    if t.tag == "bool":
        sign, t = t.args[1], t.args[0]
    else:
        sign = True
    if t.tag == "cmp" and t.args[0] in OPS:
        op, a, b = OPS[t.args[0]], t.args[1], t.args[2]
        if not sign:
            op = NEG[op]
        ca, cb = column_of(a), column_of(b)
        if ca and cb:
            if ca > cb:
                ca, cb, op = cb, ca, FLIP[op]
            return {(ca, op, cb)}
        if ca:
            return {(ca, op, show(b))}
        if cb:
            return {(cb, FLIP[op], show(a))}
    if t.tag == "binop" and t.args[0] == "BitAnd":
        return predicates(t.args[1]) | predicates(t.args[2])
    if t.tag == "call":
        fn = t.args[0]
        if last(call_name(t)) == "and_":
            return set().union(*[predicates(a) for a in t.args[1]])
        if fn.tag == "attr" and column_of(fn.args[0]):
            return {(column_of(fn.args[0]), fn.args[1],
                     ",".join(show(a) for a in t.args[1]))}
    return {("?", "?", show(t))}


def query_of(t):
    """Predicates of a query: {(column, operator, value)}"""
    out = set()
    for x in subterms(t):
        if x.tag == "call" and isinstance(x.args[0], T) and x.args[0].tag == "attr" and \
                x.args[0].args[1] in ("filter", "join", "where"):
            for a in x.args[1]:
                a = a.args[0] if a.tag == "star" else a
                for b in (a.args if a.tag in ("list", "tuple") else [a]):
                    if b.tag == "attr" and b.args[1] in ("m", "t"):
                        continue
                    out |= predicates(b)
        if x.tag == "call" and isinstance(x.args[0], T) and x.args[0].tag == "attr" and \
                x.args[0].args[1] == "filter_by":
            for k, v in x.args[2]:
                out.add((k, "==", show(v)))
    return out


def evaluation(ctx):
    ctx.rule("evaluation", "now evaluation finds exactly the evaluations of the trial that match "
             "every criterion; the index selects one of them or none")
    c = command(ctx, "evaluation")
    f = c.module.funcs["query_evaluations"]
    crit = sorted(COLUMNS)
    joined = {("CodeComponent.trial_id", "==", "Evaluation.trial_id"),
              ("CodeComponent.id", "==", "Evaluation.code_component_id")}
    cellj = {("Activation.trial_id", "==", "Evaluation.trial_id"),
             ("Activation.id", "==", "Evaluation.activation_id")}
    combos = [()] + [(x, ) for x in crit] + [tuple(crit)]
    if ctx.thorough:
        combos = [tuple(k for k, v in x.items() if v) for x in combinations(crit)]
    for prefix in ("", "wdf_"):
        for combo in combos:
            vals = {prefix + k: None for k in crit + ["index"]}
            for k in combo:
                vals[prefix + k] = param("$" + k)
            vals[prefix + "trial"] = param("$trial")
            for k in combo:
                pass
            paths = analyse(ctx, f, vals, {"prefix": const(prefix)})
            paths = [p for p in paths if not any(
                k.tag == "cmp" and k.args[0] == "Is" and v is True and "$" in show(k)
                for k, v in p.pc.items())]
            for p in paths:
                name = "criteria " + (",".join(combo) if len(combo) < 3 else "all")
                got = query_of(p.value)
                for e in created(p, "Trial"):
                    ctx.ob("evaluation", "trial", [show(v) for v in values_of(e)] == ["$trial"],
                           show(e), f.site)
                want = set(joined)
                if "cell" in combo:
                    want |= cellj
                for k in combo:
                    if k == "cell":
                        continue
                    want |= {(col, op, "$" + k) for col, op in COLUMNS[k]}
                rest = set()
                for col, op, v in got - want:
                    if col.endswith("trial_id") and v.startswith("Trial(") and v.endswith(".id"):
                        rest.add("trial")
                    elif k_cell(combo, col, op, v):
                        rest.add("cell")
                    else:
                        rest.add("{} {} {}".format(col, op, v))
                ok = want <= got and rest == ({"trial"} | ({"cell"} if "cell" in combo else set()))
                ctx.ob("evaluation", name, ok, "missing {}, other {}".format(
                    sorted(want - got), sorted(rest))[:300], f.site)
    # index
    for i, inside in ((1, 0), (3, 2), (0, None), (-1, None)):
        vals = {k: None for k in crit}
        vals["index"] = i
        vals["trial"] = None
        for p in analyse(ctx, f, vals, {"prefix": const("")}):
            v = p.value
            if v.tag == "list" and not v.args:
                lens = [k for k in p.pc if k.tag == "truth" or "len(" in show(k)]
                ctx.ob("evaluation", "index out", inside is None or bool(lens), "", f.site)
                continue
            ok = v.tag == "list" and len(v.args) == 1 and v.args[0].tag == "item" and \
                is_const(v.args[0].args[1]) and v.args[0].args[1].args[1] == inside
            ctx.ob("evaluation", "index in", ok, "{}: {}".format(i, show(v)[-80:]), f.site)
            bound = [(k, x) for k, x in p.pc.items() if k.tag == "cmp" and "len(" in show(k)]
            good = False
            for k, x in bound:
                op, a, b = OPS.get(k.args[0]), k.args[1], k.args[2]
                if op is None:
                    continue
                if not x:
                    op = NEG[op]
                if "len(" in show(a):
                    a, b, op = b, a, FLIP[op]
                if is_const(a) and type(a.args[1]) is int:
                    n = a.args[1]
                    good = good or (op == "<" and n >= (inside or 0)) or (
                        op == "<=" and n >= (inside or 0) + 1)
            if inside == 0:
                good = good or any(k.tag == "truth" and x for k, x in p.pc.items())
            ctx.ob("evaluation", "index bound", good, str([show(k)[:60] for k, _ in bound]),
                   f.site)
    e = c.find_method("execute")
    for wdf in (None, True):
        vals = dict(dir=None, wdf=wdf, trial=param("$trial"), wdf_trial=None)
        for p in analyse(ctx, e, vals, inline=lambda g: g.name not in (
                "query_evaluations", "display_evaluation")):
            if p.outcome != "return":
                continue
            if cond_value(p, lambda t: t.tag == "truth" and show(t) == "bool($trial)") is False:
                continue
            q = [x for x in calls(p) if last(cname(x)) == "query_evaluations"]
            d = [x for x in calls(p) if last(cname(x)) == "display_evaluation"]
            n = [v for k, v in p.pc.items() if k.tag == "niter" and
                 "query_evaluations" in show(k) and "items" not in show(k)]
            if n:
                mine = [x for x in d if "was_derived_from" not in show(x.term)]
                ctx.ob("evaluation", "displayed", len(mine) == n[0], "", e.site)
            second = [x for x in q if "wdf_" in show(x.term)]
            if q and n:
                ctx.ob("evaluation", "derivations", bool(second) is bool(wdf), "", e.site)
            if second:
                st = [x for x in p.events if x.kind == "setattr" and
                      x.extra.args[0] == "wdf_trial"]
                ctx.ob("evaluation", "derivations:trial", bool(st) and show(
                    st[-1].extra.args[1]) == "$trial" and p.events.index(st[-1]) <
                       p.events.index(second[0]), "", e.site)
            der = [x for x in d if "was_derived_from" in show(x.term)]
            for x in der:
                cond = [v for k, v in p.pc.items() if k.tag == "truth" and
                        "was_derived_from" in show(k)]
                ctx.ob("evaluation", "derivations:displayed", bool(cond) and all(cond), "", e.site)


def k_cell(combo, col, op, v):
    v = v.replace(" ", "")
    return "cell" in combo and col == "Activation.name" and op in ("like", "startswith") and \
        "ipython-input-'$cell'-" in v


SHOWN = {
    "show_code_component": {"code_component.id", "code_component.mode"},
    "show_position": {"code_component.first_char_line", "code_component.first_char_column",
                      "code_component.last_char_line", "code_component.last_char_column"},
    "show_value": {"repr"}, "show_checkpoint": {"moment"},
    "show_activation": {"activation.name", "activation.id"},
}


def display(ctx):
    ctx.rule("display", "now evaluation displays the details that are asked of each evaluation")
    c = command(ctx, "evaluation")
    f = c.find_method("display_evaluation")
    if f is None:
        return
    for combo in combinations(sorted(SHOWN)):
        for p in analyse(ctx, f, combo):
            act = cond_value(p, lambda t: t.tag == "truth" and show(t) ==
                             "bool(eva.activation)")
            texts = [e.term for e in p.events if e.kind == "print"]
            first = attrs_in(texts[0]) if texts else set()
            ctx.ob("display", "evaluation", {"id", "activation_id", "code_component.name",
                                             "code_component.first_char_line"} <= first,
                   str(first), f.site)
            got = set().union(set(), *[attrs_in(t) for t in texts[1:]])
            for k, attrs in SHOWN.items():
                need = combo[k] and (k != "show_activation" or act is not False)
                if need:
                    ctx.ob("display", k, attrs <= got, "without {}".format(attrs - got), f.site)
                else:
                    others = set().union(set(), *[a for n, a in SHOWN.items()
                                                  if combo[n] and n != k])
                    ctx.ob("display", k, not ((attrs - others) & got), "is displayed", f.site)


def attrs_in(t):
    out = set()
    for x in subterms(t):
        s = show(x)
        if x.tag == "attr" and s.startswith("eva.") and "(" not in s:
            out.add(s[4:])
    return out


def dataflow(ctx):
    ctx.rule("dataflow", "now dataflow configures the graph of its trial with its options")
    c = command(ctx, "dataflow")
    f = c.find_method("execute")
    for p in analyse(ctx, f, {"dir": None}):
        new = created(p, "Trial")
        ctx.ob("dataflow", "trial", len(new) == 1 and [show(v) for v in values_of(new[0])] ==
               ["args.trial"], "", f.site)
        read = [e for e in calls(p) if last(cname(e)) == "read_args"]
        ctx.ob("dataflow", "configuration", len(read) == 1 and "args" in [
            show(v) for v in values_of(read[0].term)], "", f.site)
        for k in ("value_length", "name_length"):
            st = [e for e in p.events if e.kind == "setattr" and e.extra.args[0] == k]
            ctx.ob("dataflow", k, len(st) == 1 and show(st[0].extra.args[1]) == "args." + k and
                   show(st[0].term).endswith(".dot"), "", f.site)
        ex = [i for i, e in enumerate(p.events) if e.kind == "call" and
              last(cname(e)) == "export_text"]
        sets = [i for i, e in enumerate(p.events) if (e.kind == "setattr" and e.extra.args[0] in (
            "value_length", "name_length")) or (e.kind == "call" and
                                                last(cname(e)) == "read_args")]
        ctx.ob("dataflow", "output", len(ex) == 1 and all(i < ex[0] for i in sets) and any(
            e.kind == "print" and "export_text" in show(e.term) for e in p.events), "", f.site)
    k = ctx.project.cls("now.models.dependency_graph.config:DependencyConfig")
    f = k.find_method("read_args")
    for acc in (0, 1, 2, 3, 4):
        got = config(ctx, f, accesses=acc)
        for g in got:
            want = {"show_accesses": acc != 0, "show_external_files": acc in (2, 4),
                    "combine_accesses": acc in (1, 2)}
            for a, v in want.items():
                if acc == 0 and a != "show_accesses":
                    continue
                ctx.ob("dataflow", "accesses:" + a, g.get(a) == v, "{} with -a {}".format(
                    g.get(a), acc), f.site)
    for ev in (0, 1, 2):
        for g in config(ctx, f, evaluations=ev):
            ctx.ob("dataflow", "evaluations", g.get("combine_assignments") == (ev == 1) and
                   g.get("combine_values") == (ev == 2), "-e {}: {}".format(ev, g), f.site)
    for d, want in ((0, "float('inf')"), (3, 3)):
        for g in config(ctx, f, depth=d):
            ctx.ob("dataflow", "depth", g.get("max_depth") == want, "-d {}: {}".format(
                d, g.get("max_depth")), f.site)
    for g in config(ctx, f):
        ctx.ob("dataflow", "group", g.get("rank_option") == "args.group", "", f.site)
        ctx.ob("dataflow", "mode", g.get("mode") == "args.mode", "", f.site)
    for t in (False, True):
        for g in config(ctx, f, types=t):
            ctx.ob("dataflow", "types", g.get("show_types") == t, str(g.get("show_types")), f.site)
    flags = {o.dest: o for o in __import__("checks.commands", fromlist=["options"]).options(c)}
    for opt, attr_, flagged in (("hide_timestamps", "show_timestamps", False),
                                ("hide_internals", "show_internals", True)):
        # value of the argument when the flag is given
        act = ast.unparse(flags[opt].kw["action"]) if opt in flags and "action" in \
            flags[opt].kw else ""
        given = "store_true" in act
        for g in config(ctx, f, **{opt: given}):
            ctx.ob("dataflow", attr_, g.get(attr_) == flagged, "with the option: {}".format(
                g.get(attr_)), f.site)
        for g in config(ctx, f, **{opt: not given}):
            ctx.ob("dataflow", attr_ + " by default", g.get(attr_) is False, "", f.site)
    for w in (None, 7):
        for g in config(ctx, f, wdf=w):
            if w is None:
                ctx.ob("dataflow", "derivation", not g.get("show_only_was_derived_from"), "",
                       f.site)
            else:
                ctx.ob("dataflow", "derivation", g.get("show_only_was_derived_from") is True and
                       g.get("show_only_was_derived_from_eid") == 7 and
                       g.get("show_only_was_derived_from_trial") == "args.trial", str(g), f.site)


def config(ctx, f, **values):
    out = []
    for p in analyse(ctx, f, values):
        g = {}
        for e in p.events:
            if e.kind == "setattr" and e.term.tag == "self":
                v = e.extra.args[1]
                g[e.extra.args[0]] = v.args[1] if is_const(v) else show(v)
        out.append(g)
    if not out:
        raise AnalysisBroken("no path through read_args")
    return out


def dispatch(ctx):
    ctx.rule("dispatch", "each command asks its model for what its options say")

    def execute(name, **values):
        c = command(ctx, name)
        f = c.find_method("execute")
        return f, analyse(ctx, f, dict(values, dir=None)), values

    # history
    f, paths, _ = execute("history")
    for p in paths:
        new = [e.term for e in p.events if e.kind == "new" and last(cname(e)) == "History"]
        ok = len(new) == 1 and any(e.kind == "print" for e in p.events)
        if ok:
            kw = named(new[0])
            ok = show(kw.get("script", NONE)) == "args.script" and show(
                kw.get("status", NONE)) == "args.status"
        ctx.ob("dispatch", "history", ok, "", f.site)
    # gc
    f, paths, _ = execute("gc")
    for p in paths:
        g = [e for e in calls(p) if last(cname(e)) == "gc"]
        ctx.ob("dispatch", "gc", len(g) == 1 and [show(v) for v in values_of(g[0].term)] ==
               ["args.aggressive"], "", f.site)
    # ast
    for dot, json in ((False, False), (True, False), (False, True), (True, True)):
        f, paths, _ = execute("ast", dot=dot, json=json)
        for p in paths:
            new = created(p, "Trial")
            ctx.ob("dispatch", "ast:trial", len(new) == 1 and [
                show(v) for v in values_of(new[0])] == ["args.trial"], "", f.site)
            c = {last(cname(e)) for e in calls(p) if "construct_ast" in cname(e)}
            want = "construct_ast_graphviz" if dot else "construct_ast_json" if json else \
                "construct_ast"
            ctx.ob("dispatch", "ast", c == {want} or dot and json and len(c) >= 1,
                   "{} {}: {}".format(dot, json, c), f.site)
    # schema
    for kind, diagram in itertools.product(("sql", "prolog"), (False, True)):
        c = command(ctx, "schema")
        f = c.find_method("execute")
        for p in analyse(ctx, f, dict(type=kind, diagram=diagram, dir=None)):
            out = [show(e.term) for e in p.events if e.kind == "print"]
            text = " ".join(out)
            isq = "RelationalDiagram" in text or "CreateTable" in text or "ORDER" in text
            isp = "Prolog" in text
            dia = "as_dot" in text or "diagram" in text.lower()
            if not (isq or isp):
                news = " ".join(cname(e) for e in p.events if e.kind in ("new", "call"))
                isq = "CreateTable" in news
            n = [v for k, v in p.pc.items() if k.tag == "niter"]
            ctx.ob("dispatch", "schema", (isq if kind == "sql" else isp) and
                   not (isp if kind == "sql" else isq) and dia is diagram or
                   (kind == "sql" and not diagram and 0 in n), "{} {}: {}".format(
                       kind, diagram, text[:150]), f.site)
    # vis
    f, paths, _ = execute("vis")
    for p in paths:
        r = [e for e in calls(p) if last(cname(e)) == "run"]
        kw = dict(r[0].term.args[2]) if r else {}
        ctx.ob("dispatch", "vis", len(r) == 1 and all(
            show(kw.get(k, NONE)) == "args." + k for k in ("port", "debug", "host")),
               show(r[0].term)[:150] if r else "", f.site)
        b = cond_value(p, lambda t: show(t) == "bool(args.browser)")
        ctx.ob("dispatch", "vis:browser", b is not None and b is any(
            "webbrowser" in show(e.term) or "Timer" in show(e.term) for e in p.events), "", f.site)
    for force in ("true", "false"):
        f, paths, _ = execute("vis", force=force)
        for p in paths:
            cn = {last(cname(e)) for e in calls(p)} & {"connect", "connect_existing"}
            ctx.ob("dispatch", "vis:force", cn == ({"connect"} if force == "true" else
                                                   {"connect_existing"}), str(cn), f.site)
    # export
    for rules, hide in itertools.product((False, True), repeat=2):
        f, paths, _ = execute("export", rules=rules, hide_timestamps=hide)
        for p in paths:
            new = created(p, "Trial")
            ctx.ob("dispatch", "export:trial", len(new) == 1 and [
                show(v) for v in values_of(new[0])] == ["args.trial"], "", f.site)
            prints = [show(e.term) for e in p.events if e.kind == "print"]
            facts = [i for i, s in enumerate(prints) if "export_text_facts" in s]
            rl = [i for i, s in enumerate(prints) if "rules" in s]
            ctx.ob("dispatch", "export:facts", len(facts) == 1 and bool(rl) is rules and
                   (not rl or rl[0] > facts[0]), str(len(rl)), f.site)
            st = [i for i, e in enumerate(p.events) if e.kind == "setattr" and
                  e.extra.args[0] == "use_nil" and show(e.extra.args[1]) == "True"]
            pr = [i for i, e in enumerate(p.events) if e.kind == "print"]
            ctx.ob("dispatch", "export:timestamps", bool(st) is hide and
                   (not st or st[0] < pr[0]), "", f.site)
    # prov
    f, paths, _ = execute("prov")
    for p in paths:
        new = created(p, "Trial")
        ex = [e for e in calls(p) if last(cname(e)) == "export_prov"]
        ctx.ob("dispatch", "prov", len(new) == 1 and [show(v) for v in values_of(new[0])] ==
               ["args.trial"] and len(ex) == 1 and any(x.tag == "new" for v in values_of(
                   ex[0].term) for x in subterms(v)) and any(
                       e.kind == "print" and "export_prov" in show(e.term) for e in p.events), "",
               f.site)
    # list
    f, paths, _ = execute("list")
    for p in paths:
        n = [v for k, v in p.pc.items() if k.tag == "niter" and "Trial" in show(k) and
             "tags" not in show(k)]
        text = " ".join(show(e.term) for e in p.events if e.kind == "print")
        if n and n[0]:
            for a in ("status_letter", "id", "command", "code_hash", "start", "finish",
                      "sequence_key"):
                ctx.ob("dispatch", "list:" + a, ")." + a in text or "." + a in text, "", f.site)
            fin = cond_value(p, lambda t: t.tag == "truth" and show(t).endswith(".finish)"))
            ctx.ob("dispatch", "list:duration", fin is not True or ".duration_text" in text, "",
                   f.site)
            tags = [v for k, v in p.pc.items() if k.tag == "niter" and "tags" in show(k)]
            ctx.ob("dispatch", "list:tags", bool(tags) and (not tags[0] or ".name" in text), "",
                   f.site)
    # notebooks
    exported(ctx)


def named(t):
    out = {}
    for k, v in t.args[2]:
        if v.tag == "dict":
            for x in v.args:
                if x.tag == "pair" and is_const(x.args[0]):
                    out[x.args[0].args[1]] = x.args[1]
        else:
            out[k] = v
    return out


def exported(ctx):
    for name, params_ in (("diff", ("args.trial1", "args.trial2")), ("show", ("args.trial", ))):
        c = command(ctx, name)
        f = c.find_method("execute_export")
        for p in analyse(ctx, f, {"dir": None}):
            nb = [e for e in calls(p) if last(cname(e)) == "create_ipynb"]
            if not ctx.ob("dispatch", name + ":notebook", len(nb) == 1, "", f.site):
                continue
            vals = values_of(nb[0].term)
            if name == "show" and cond_value(p, lambda t: t.tag == "truth" and show(t) ==
                                             "bool(args.trial)") is False:
                continue
            for v in vals:
                s = show(v)
                ok = all(x in s for x in params_)
                if name == "diff":
                    ok = ok and s.index("args.trial1") < s.index("args.trial2")
                ctx.ob("dispatch", name + ":notebook trials", ok, s[:150], f.site)


def cleaning(ctx):
    ctx.rule("cleaning", "now clean creates the notebook of its trial and evaluations, in the "
             "asked file, with the asked header and empty cell, merged as asked")
    c = command(ctx, "clean")
    f = c.find_method("execute")
    for nb in (None, param("$notebook")):
        for out in (None, param("$output")):
            for p in analyse(ctx, f, dict(dir=None, notebook=nb, output=out)):
                if cond_value(p, lambda t: "$notebook" in show(t) and t.tag == "cmp") is True or \
                        cond_value(p, lambda t: show(t) == "bool($output)") is False:
                    continue
                new = created(p, "Trial")
                ctx.ob("cleaning", "trial", len(new) >= 1 and all([
                    show(v) for v in values_of(t)] == ["args.trial"] for t in new), "", f.site)
                q = [e for e in calls(p) if last(cname(e)) == "query_evaluations"]
                ctx.ob("cleaning", "evaluations", len(q) == 1, "", f.site)
                made = [e for e in calls(p) if last(cname(e)) in ("create_clean",
                                                                  "create_merged_from_cells")]
                cells = cond_value(p, lambda t: t.tag == "truth" and "get_cells" in show(t))
                ctx.ob("cleaning", "created", len(made) == (1 if cells else 0), "", f.site)
                if not made:
                    continue
                e = made[0]
                merged = last(cname(e)) == "create_merged_from_cells"
                ctx.ob("cleaning", "kind", merged is (nb is not None), "", f.site)
                a = dict(e.term.args[2])
                for i, v in enumerate(e.term.args[1]):
                    a[i] = v
                s = [show(v) for v in a.values()]
                want = ["args.header", "args.add_empty"] + (["$notebook", "args.merge_code"]
                                                            if merged else [])
                for w in want:
                    ctx.ob("cleaning", w, w in s, str(s)[:200], f.site)
                for par, w in (("create_header", "args.header"),
                               ("add_empty", "args.add_empty"),
                               ("merge_code", "args.merge_code")):
                    ctx.ob("cleaning", par, par not in a or show(a[par]) == w, "", f.site)
                if merged and "original_first" in a:
                    v = a["original_first"]
                    ctx.ob("cleaning", "original_first", 
                           is_const(v) and v.args[1] is (not cond_value(
                               p, lambda t: show(t) == "bool(args.merge_last)")) or
                           v.tag == "bool" and v.args[1] is False, show(v), f.site)
                ctx.ob("cleaning", "cells", any("get_cells" in x for x in s), "", f.site)
                ctx.ob("cleaning", "file", any(x == "$output" if out is not None else
                                               "clean-notebook" in x for x in s), "", f.site)
    ctx.need("cleaning", 5)


def sections(ctx):
    ctx.rule("show", "now show prints the information and tags of its trial and exactly the "
             "sections that are asked")
    show_(ctx)
    ctx.need("show", 3)
