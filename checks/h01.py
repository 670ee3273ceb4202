"""The trial that a reference names, the parent of a new trial and its automatic tag.

The queries are compared in a canonical form (disjunctions of conjunctions of
comparisons of columns), on every path of the functions that build them.
"""
from vlib.absint import const, mk
from vlib.rules import *
from checks.queries import *
from checks.d03 import plain, facts, sentinel

RULES = ["reference", "lineage", "inheritance", "listing", "tagging"]
ASSUMPTIONS = ["SQLAlchemy answers queries with the records that match them."]
T_ = "now.persistence.models.trial:Trial."
TAG = "now.persistence.models.tag:Tag."
HEAD = "now.persistence.models.head:Head."


def returns(ctx, q, rule, cases, inline=None):
    """The queries of each path are one of the accepted ones for its facts"""
    f = ctx.project.func(q)
    for p in analyse_queries(ctx, f, inline=inline):
        if p.outcome != "return":
            continue
        have = facts(p)
        qs = sorted(queries(p))
        for conds, wanted in cases:
            if any(have.get(k) == (not v) for k, v in conds.items()):
                continue
            ctx.ob(rule, f.short + (" " + ",".join(sorted(conds)) if conds else ""),
                   any(w in qs for w in wanted),
                   "the query is {} (expected {})".format("; ".join(qs)[:500], wanted[0]), f.site)


def calls_of(p, name):
    return [e.term for e in p.events if e.kind == "call" and
            last(call_name(e.term)).split(".")[-1] == name]


def kwarg(t, name, pos=None):
    for k, v in t.args[2]:
        if k == name:
            return v
    if pos is not None and len(t.args[1]) > pos:
        return t.args[1][pos]
    return None


def reference(ctx):
    ctx.rule("reference", "a reference names the trial with that id, sequence key or tag; without "
                          "a reference, the last trial (of the script, if given) is used, and an "
                          "unknown reference is an error")
    returns(ctx, T_ + "load_trial", "reference", [({}, [
        "Trial join outer related Tag where Tag.name == trial_ref | Trial.id == trial_ref | "
        "Trial.sequence_key == trial_ref first"])])
    latest = "max(Trial.start)"
    f = ctx.project.func(T_ + "last_trial")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        qs = set(queries(p))
        have = facts(p)
        of_script = {"Trial where Trial.start in {max(Trial.start) where Trial.script == script} first",
                     "Trial where Trial.script == script & Trial.start in {max(Trial.start) where "
                     "Trial.script == script} first",
                     "Trial where Trial.script == script order desc Trial.start first",
                     "Trial where Trial.script == script order desc Trial.start limit 1 first"}
        any_ = {"Trial where Trial.start in {max(Trial.start)} first",
                "Trial order desc Trial.start first", "Trial order desc Trial.start limit 1 first"}
        v = p.value
        got = text(v).strip("{}") if v is not None else ""
        got = "{" + got + "}" if got.endswith("start) first") else got
        found = [x for c, x in have.items() if "Trial.script == script" in c and c.startswith("{Trial")]
        fallback = have.get("check") is False and found == [False]
        value = spec(v) if v is not None and is_query(v) else text(v)
        ctx.ob("reference", "Trial.last_trial" + (" fallback" if fallback else ""),
               value in (any_ if fallback else of_script) or (
                   not fallback and found == [False] and value == "None"),
               "the trial is {} when {}".format(value[:300], have), f.site)
    f = ctx.project.func(T_ + "__init__")
    for p in analyse_queries(ctx, f):
        lt, tt = calls_of(p, "last_trial"), calls_of(p, "load_trial")
        none = None
        for c, v in p.pc.items():
            if c.tag == "cmp" and c.args[0] in ("Is",) and v and (
                    "last_trial" in show(c.args[1]) or "load_trial" in show(c.args[1])):
                none = True
        if none:
            ctx.ob("reference", "Trial.__init__ unknown", p.outcome == "raise",
                   "a reference that names no trial is not refused", f.site)
            continue
        if p.outcome != "return":
            continue
        have = {k: v for k, v in facts(p).items() if "trial_ref" in k or "args[0]" in k or
                k == "*args"}
        given = True
        for k, v in have.items():
            if k.startswith("isinstance") or k == "*args":
                continue
            if re.search(r"(^-1 ==|== -1$)", k) and v or " == " not in k and not v:
                given = False
        stored = lt + tt
        ctx.ob("reference", "Trial.__init__ " + ("reference" if given else "last"),
               len(stored) == 1 and bool(tt) == given,
               "a {} reference is looked up by {}".format(
                   "given" if given else "missing", [show(x)[:150] for x in stored]), f.site)
        if len(stored) != 1:
            continue
        t = stored[0]
        if t in tt:
            ctx.ob("reference", "Trial.__init__ -1", any(
                "-1" in k for k in have), "the reference -1 is looked up as a trial when {}".format(
                    have), f.site)
            r = show(kwarg(t, "trial_ref", 0))
            ctx.ob("reference", "Trial.__init__ which",
                   "trial_ref" in r or re.match(r"\*args\[0\](\.id)?$", r) is not None,
                   "the reference that is looked up is " + r, f.site)
        else:
            s = kwarg(t, "script", 0)
            ctx.ob("reference", "Trial.__init__ script",
                   s is not None and "trial_script" in show(s),
                   "the last trial is looked up for {}".format(s and show(s)), f.site)
    returns(ctx, T_ + "find_by_name_and_time", "reference", [
        ({"trial": True}, ["Trial where Trial.finish like fmt(time '%') & Trial.id == trial & "
                           "Trial.script == script | Trial.id == trial & Trial.script == script & "
                           "Trial.start like fmt(time '%') order Trial.start first"]),
        ({"trial": False}, ["Trial where Trial.finish like fmt(time '%') & Trial.script == script | "
                            "Trial.script == script & Trial.start like fmt(time '%') order "
                            "Trial.start first"])])
    ctx.need("reference", 5)


def lineage(ctx):
    ctx.rule("lineage", "the parent of a new trial is the head of its script, which is used once, or "
                        "else the last trial of the script")
    f = ctx.project.func(T_ + "load_parent")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        have = facts(p)
        heads = [v for k, v in have.items() if "load_head(" in k]
        lh = calls_of(p, "load_head")
        ctx.ob("lineage", "Trial.load_parent head",
               len(lh) == 1 and show(kwarg(lh[0], "script", 0)) == "script",
               "the head is looked up by {}".format([show(x)[:120] for x in lh]), f.site)
        if not heads:
            continue
        v = show(p.value)
        rm = calls_of(p, "remove")
        if heads[0]:
            ok = re.search(r"load_head\(.*\)\.trial\)", v) is not None
            ctx.ob("lineage", "Trial.load_parent of head", ok, "the parent is " + v[:200], f.site)
            if "remove" in have:
                ctx.ob("lineage", "Trial.load_parent remove", bool(rm) == have["remove"] and all(
                    show(kwarg(r, "hid", 0)).endswith(".id") and "load_head(" in
                    show(kwarg(r, "hid", 0)) for r in rm),
                       "the head is {}removed when asked {} ({})".format(
                           "" if rm else "not ", have["remove"], [show(r)[:120] for r in rm]), f.site)
        else:
            lt = calls_of(p, "last_trial")
            ctx.ob("lineage", "Trial.load_parent last",
                   len(lt) == 1 and show(kwarg(lt[0], "script", 0)) == "script" and
                   show(kwarg(lt[0], "check", 1) or const(None)) == "check" and "last_trial(" in v,
                   "without head, the parent is " + v[:200], f.site)
            ctx.ob("lineage", "Trial.load_parent keep", not rm,
                   "a head is removed when there is none", f.site)
    returns(ctx, HEAD + "load_head", "lineage", [({}, ["Head where Head.script == script first"])])
    f = ctx.project.func(HEAD + "remove")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        qs = set(queries(p))
        dl = [t for t in calls_of(p, "delete")]
        found = [v for k, v in facts(p).items()]
        ctx.ob("lineage", "Head.remove",
               qs & {"Head get hid", "Head where Head.id == hid first"} and (
                   not found or bool(dl) == found[-1]) and (
                   not dl or bool(calls_of(p, "commit"))) or
               "Head where Head.id == hid delete" in qs and bool(calls_of(p, "commit")),
               "removes {} with {}".format(sorted(qs), [show(x)[:120] for x in dl]), f.site)
    f = ctx.project.func(T_ + "create_head")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        adds = calls_of(p, "add")
        kws = {k: show(v) for t in adds for x in subterms(t) if x.tag in ("new", "call")
               for k, v in x.args[2] if k in ("trial_id", "script")}
        ev = [last(call_name(e.term)).split(".")[-1] for e in p.events if e.kind == "call"]
        ctx.ob("lineage", "Trial.create_head",
               "Head where Head.script == self.script delete" in queries(p) and
               kws == {"trial_id": "self(Trial).id", "script": "self(Trial).script"} and
               len(adds) == 1 and "commit" in ev and ev.index("delete") < ev.index("add") <
               ev.index("commit"),
               "the head is made from {} after {}".format(kws, sorted(queries(p))), f.site)
    f = ctx.project.func(T_ + "create")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        row = None
        for e in p.events:
            for d in subterms(e.term) if e.kind == "call" and last(call_name(e.term)).split(
                    ".")[-1] in ("execute", "values") else ():
                if d.tag == "dict":
                    row = {strval(x.args[0]): x.args[1] for x in d.args if x.tag == "pair"}
        if row is None:
            for e in p.events:
                if e.kind == "call" and last(call_name(e.term)) == "values":
                    row = dict(e.term.args[2])
        if not row:
            ctx.ob("lineage", "Trial.create", False, "no row is inserted", f.site)
            continue
        for k in ("script", "start", "command", "path"):
            ctx.ob("lineage", "Trial.create " + k, k in row and show(row[k]) == k,
                   "the column {} has {}".format(k, show(row[k]) if k in row else None), f.site)
        have = facts(p)
        has_parent = [v for k, v in have.items() if "load_parent(" in k]
        lp = calls_of(p, "load_parent")
        par = row.get("parent_id")
        ctx.ob("lineage", "Trial.create parent",
               len(lp) == 1 and show(kwarg(lp[0], "script", 0)) == "script" and
               (kwarg(lp[0], "remove", 1) is None or show(kwarg(lp[0], "remove", 1)) == "True") and
               show(kwarg(lp[0], "check", 2) or const(False)) == "True" and par is not None and (
                   re.search(r"load_parent\(.*\)\.id$", show(par)) is not None if
                   has_parent and has_parent[0] else show(par) == "None" or not has_parent and
                   "load_parent(" in show(par)),
               "the parent is {} when {}".format(par is not None and show(par)[:150], have), f.site)
        inh = row.get("modules_inherited_from_trial_id")
        by = have.get("bypass_modules")
        if by is not None:
            ctx.ob("lineage", "Trial.create inherited",
                   inh is not None and ("fast_last_trial_id(" in show(inh) if by else
                                        show(inh) == "None"),
                   "modules are inherited from {} when bypass_modules is {}".format(
                       inh is not None and show(inh)[:100], by), f.site)
        ids = [show(x) for x in [row.get("id")] if x is not None]
        ctx.ob("lineage", "Trial.create id", bool(ids) and show(p.value) == ids[0] and
               "uuid" in ids[0], "the id of the trial is {} and {} is returned".format(
                   ids, show(p.value)), f.site)
        ctx.ob("lineage", "Trial.create commit", bool(calls_of(p, "commit")),
               "the trial is not committed", f.site)
    meta = "now.collection.metadata:Metascript."
    f = ctx.project.func(meta + "create_trial_args")
    for p in analyse_queries(ctx, f):
        if p.outcome == "return":
            a = [show(x) for x in p.value.args] if p.value.tag in ("tuple", "list") else []
            ok = len(a) == 5 and a[0].endswith(".name") and "now(" in a[1] and \
                a[2].endswith(".command") and "dirname(" in a[3] and ".path" in a[3] and \
                a[4].endswith(".bypass_modules")
            ctx.ob("lineage", "Metascript.create_trial_args", ok,
                   "a trial is created with {}".format(a), f.site)
    f = ctx.project.func(meta + "create_automatic_tag_args")
    for p in analyse_queries(ctx, f):
        if p.outcome == "return":
            a = [show(x) for x in p.value.args] if p.value.tag in ("tuple", "list") else []
            ok = len(a) == 3 and a[0].endswith(".trial_id") and "hash" in a[1] and \
                a[2].endswith(".command")
            ctx.ob("lineage", "Metascript.create_automatic_tag_args", ok,
                   "the tag is made with {}".format(a), f.site)
    ctx.need("lineage", 12)


def inheritance(ctx):
    ctx.rule("inheritance", "modules are inherited from the last trial that collected its own")
    f = ctx.project.func(T_ + "fast_last_trial_id")
    for p in analyse_queries(ctx, f):
        have = facts(p)
        if any("hasattr(" in k and v for k, v in have.items()):
            continue    # the query that an earlier call has built
        qs = list(queries(p))
        inner = [x for x in qs if x.startswith("max(Trial.start)")]
        outer = [x for x in qs if x.startswith("Trial.id")]
        ok = len(outer) == 1 and "Trial.modules_inherited_from_trial_id == None" in outer[0] and (
            all("Trial.modules_inherited_from_trial_id == None" in x for x in inner) and inner or
            "order desc Trial.start" in outer[0])
        ctx.ob("inheritance", "Trial.fast_last_trial_id", bool(ok),
               "the trial is selected by {}".format(qs), f.site)
        if p.outcome == "return":
            ctx.ob("inheritance", "Trial.fast_last_trial_id id", show(p.value).endswith(
                "fetchone()[0]") or show(p.value).endswith("scalar()") or
                re.search(r"(first|one)\(\)(\[0\]|\.id)$", show(p.value)) is not None,
                   "returns " + show(p.value)[-120:], f.site)
    found = [p for p in analyse_queries(ctx, f) if p.outcome == "raise"]
    ctx.ob("inheritance", "Trial.fast_last_trial_id none", bool(found),
           "without such a trial, no error is raised", f.site)
    ctx.need("inheritance", 2)


def listing(ctx):
    ctx.rule("listing", "trials are listed newest first and counted, both for one experiment only")
    returns(ctx, T_ + "reverse_trials", "listing", [({}, [
        "Trial where Trial.experiment_id == expId order desc Trial.start limit limit"])])
    returns(ctx, T_ + "count", "listing", [({}, ["Trial where Trial.experiment_id == expId count"])])
    returns(ctx, T_ + "list_from_experiment", "listing", [({}, [
        "Trial join outer related Experiment where Experiment.id == experiment",
        "Trial where Trial.experiment_id == experiment"])])
    returns(ctx, TAG + "auto_tags", "listing", [({}, ["Tag where Tag.type == 'AUTO'"])])
    ctx.need("listing", 4)


BASE = ("Tag.name where {}CodeBlock.id == Trial.main_id & CodeBlock.trial_id == Trial.id & "
        "Tag.trial_id == Trial.id & Tag.type == 'AUTO' & {}Trial.experiment_id == experiment_id & "
        "Trial.id != trial_id")


def tagging(ctx):
    ctx.rule("tagging", "the automatic tag continues the greatest tag of other trials of the "
                        "experiment: the third number for the same code and command, the second for "
                        "the same code, the first otherwise, with the lower ones reset")
    levels = {1: BASE.format("CodeBlock.code_hash == code_hash & ", "Trial.command == command & "),
              2: BASE.format("CodeBlock.code_hash == code_hash & ", ""), 3: BASE.format("", "")}
    f = ctx.project.func(TAG + "fast_load_auto_tag")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        v = p.value
        if v.tag not in ("tuple", "list") or len(v.args) != 2:
            ctx.ob("tagging", "Tag.fast_load_auto_tag", False, "returns " + show(v)[:150], f.site)
            continue
        kind = v.args[0].args[1] if v.args[0].tag == "const" else show(v.args[0])
        executed = [spec(e.term) for e in p.events if e.kind == "call" and
                    last(call_name(e.term)).split(".")[-1] == "execute" and is_query(e.term)]
        n = kind if kind in (1, 2, 3) else 3
        ctx.ob("tagging", "Tag.fast_load_auto_tag {}".format(kind),
               executed == [levels[i] for i in range(1, n + 1)],
               "kind {} is returned after {}".format(kind, executed), f.site)
        tag = show(v.args[1])
        if kind == 0:
            ctx.ob("tagging", "Tag.fast_load_auto_tag first", re.sub(r"\s", "", tag) ==
                   "list(1,1,1)", "the first tag is " + tag, f.site)
        else:
            ctx.ob("tagging", "Tag.fast_load_auto_tag greatest",
                   tag.startswith("max(") and "int" in tag and "split('.')" in tag or
                   "sorted(" in tag and tag.endswith("[-1]"),
                   "the tag to continue is " + tag[:200], f.site)
    f = ctx.project.func(TAG + "create_automatic_tag")
    for kind in (0, 1, 2, 3):
        for backup in (False, True):
            it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
            it.keep_pc = True
            got = set()
            for p in it.run(f, args={"is_backup_trial": const(backup)}):
                if p.outcome != "return":
                    continue
                k = [c.args[2].args[1] for c, v in p.pc.items() if c.tag == "cmp" and v and
                     c.args[0] == "Eq" and c.args[2].tag == "const"]
                neg = {c.args[2].args[1] for c, v in p.pc.items() if c.tag == "cmp" and
                       c.args[0] == "Eq" and not v and c.args[2].tag == "const"}
                if k and k[0] != kind or not k and kind in neg or not k and kind and not (
                        {1, 2, 3} - {kind} <= neg):
                    continue
                tag = {}
                for e in p.events:
                    if e.kind == "setitem" and getattr(e.extra, "args", None):
                        i, v = e.extra.args[0], e.extra.args[1]
                        i = i.args[1] if isinstance(i, T) and i.tag == "const" else show(i)
                        tag[i] = show(v) if isinstance(v, T) else str(v)
                got.add(tuple(sorted(((i, "+" if "Add" in v else v) for i, v in tag.items()),
                                     key=str)))
            want = {0: (), 1: ((2, "+"),), 2: ((1, "+"), (2, "1")),
                    3: ((0, "+"), (1, "0"), (2, "0")) if backup else
                    ((0, "+"), (1, "1"), (2, "1"))}[kind]
            ctx.ob("tagging", "Tag.create_automatic_tag {}{}".format(
                kind, " backup" if backup else ""), got == {want},
                   "numbers change by {} (expected {})".format(sorted(got), want), f.site)
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        q = calls_of(p, "fast_load_auto_tag")
        ok = len(q) == 1 and all(
            show(kwarg(q[0], k, i) or const(None)) == k for i, k in
            enumerate(("trial_id", "code_hash", "command"))) and show(
                kwarg(q[0], "experiment_id", 4) or const(None)) == "experiment_id"
        ctx.ob("tagging", "Tag.create_automatic_tag of", ok,
               "continues the tag of {}".format([show(x)[:200] for x in q]), f.site)
        c = calls_of(p, "create")
        ctx.ob("tagging", "Tag.create_automatic_tag creates",
               len(c) == 1 and show(kwarg(c[0], "trial_id", 0)) == "trial_id" and
               show(kwarg(c[0], "type_", 1)) == "'AUTO'" and "join(" in show(kwarg(c[0], "name", 2)),
               "creates {}".format([show(x)[:200] for x in c]), f.site)
    f = ctx.project.func(TAG + "create")
    for p in analyse_queries(ctx, f):
        if p.outcome != "return":
            continue
        row = {}
        for e in p.events:
            if e.kind == "call":
                for d in subterms(e.term):
                    if d.tag == "dict":
                        row.update({strval(x.args[0]): show(x.args[1]) for x in d.args
                                    if x.tag == "pair"})
                    if d.tag == "call" and call_name(d) == "dict" or d.tag == "call" and last(
                            call_name(d)) == "values":
                        row.update({k: show(v) for k, v in d.args[2]})
        ctx.ob("tagging", "Tag.create",
               row == {"trial_id": "trial_id", "type": "type_", "name": "name",
                       "timestamp": "timestamp"} and bool(calls_of(p, "commit")),
               "the row is {}".format(row), f.site)
    ctx.need("tagging", 14)
