"""Every URL of the web interface is answered with the data it names.

The routes come from the decorators; the answers and effects of each handler
are the values of its abstract paths (functions of the module are inlined).
"""
import ast
import glob
import os
import re

from vlib.rules import *

RULES = ["routes", "accepts", "trial_data", "diff_data", "graphs", "files", "annotations",
         "groups", "experiments", "remotes", "numbers"]
ASSUMPTIONS = ["The models answer with the records of the trial that they are created for.",
               "Flask calls a handler with the parts of the URL that its rule names."]
VIEWS = "noworkflow.now.vis.views"
PART = re.compile(r"<(?:[^:<>]+:)?([^<>]+)>")


def shape(url):
    """The URL with anonymous parts"""
    return PART.sub("<>", url)


def handlers(ctx):
    """[(url, methods, function)]"""
    if hasattr(ctx, "_w01_handlers"):
        return ctx._w01_handlers
    m = ctx.project.module("now.vis.views")
    out = []
    for f in m.funcs.values():
        for d in getattr(f.node, "decorator_list", []):
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and \
                    d.func.attr in ("route", "get", "post", "delete", "put") and d.args and \
                    isinstance(d.args[0], ast.Constant):
                methods = {"GET"} if d.func.attr == "route" else {d.func.attr.upper()}
                for k in d.keywords:
                    if k.arg == "methods" and isinstance(k.value, (ast.List, ast.Tuple)):
                        methods = {x.value.upper() for x in k.value.elts}
                out.append((d.args[0].value, methods, f))
    if not out:
        raise AnalysisBroken("no routes")
    ctx._w01_handlers = out
    return out


def handler(ctx, url, method="GET"):
    """(function, {name in the table: name of the parameter}) for the URL"""
    for u, ms, f in handlers(ctx):
        if shape(u) == shape(url) and method in ms:
            return f, dict(zip(PART.findall(url), PART.findall(u)))
    return None, {}


def paths(ctx, f):
    memo = ctx.__dict__.setdefault("_w01_paths", {})
    if f.qual not in memo:
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g.module.name != VIEWS)
        it.keep_pc = True
        memo[f.qual] = ctx.paths_of(it, f)
    return memo[f.qual]


def src(t, names={}):
    """Where the value comes from, without the way it is presented"""
    t0 = t
    if t.tag == "param":
        return "<" + names.get(t.args[0], t.args[0]) + ">"
    if t.tag == "new":
        return last(call_name(t))
    if t.tag == "elem" or t.tag == "star":
        return src(t.args[0], names)
    if t.tag == "attr":
        return src(t.args[0], names) + "." + t.args[1]
    if t.tag == "bound":
        return src(t.args[0], names) + "." + t.args[1].name
    if t.tag == "class":
        return t.args[0].name
    if t.tag == "item":
        i = t.args[1]
        return src(t.args[0], names) + "[" + (repr(i.args[1]) if is_const(i) else
                                              src(i, names)) + "]"
    if t.tag == "const":
        return repr(t.args[1])
    if t.tag in ("list", "tuple", "set", "dict") and t.args:
        return "+".join(sorted({src(x, names) for x in t.args}))
    if t.tag == "pair":
        return src(t.args[1], names)
    if t.tag in ("truth", "bool"):
        return src(t.args[0], names)
    if t.tag == "call":
        fn = t.args[0]
        nm = last(call_name(t))
        args = [src(x, names) for x in t.args[1]] + [src(v, names) for _, v in t.args[2]]
        if nm == "to_dict" and fn.tag in ("attr", "bound"):
            return src(fn.args[0], names)
        if nm in ("list", "BytesIO", "IO", "str", "bytes") and args and not (
                isinstance(fn, T) and fn.tag == "attr" and fn.args[0].tag in ("attr", "new")):
            return args[0]
        base = src(fn, names) if fn.tag in ("attr", "bound") else nm
        return base + "(" + ",".join(args) + ")"
    return show(t0)


def answer(p, key):
    """jsonify(key=...)"""
    for x in subterms(p.value):
        if x.tag == "call" and last(call_name(x)) == "jsonify":
            for k, v in x.args[2]:
                if k == key:
                    return v
            for a in x.args[1] + tuple(v for k, v in x.args[2] if k in ("**", None)):
                for d in subterms(a):
                    if d.tag == "pair" and is_const(d.args[0]) and d.args[0].args[1] == key:
                        return d.args[1]
    return None


def created(p, name, method):
    return [e.term for e in p.events if e.kind == "new" and last(cname(e)) == name]


def ctor_args(t):
    """Positional and named arguments of an instantiation, in the order given"""
    out = []
    for x in t.args[1]:
        out.append(x)
    for k, v in t.args[2]:
        if k in ("args", "*args") and v.tag in ("tuple", "list"):
            out.extend(v.args)
        elif k in ("kwargs", "**kwargs") and v.tag == "dict":
            out.extend(x.args[1] for x in v.args if x.tag == "pair")
        else:
            out.append(v)
    return out


def routes(ctx):
    ctx.rule("routes", "the handler accepts every part of each of its URLs, and every URL gives "
             "the parameters that it requires")
    for url, ms, f in handlers(ctx):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        required = names[:len(a.posonlyargs + a.args) - len(a.defaults)]
        parts = set(PART.findall(url))
        ctx.ob("routes", url, (parts <= set(names) or a.kwarg is not None) and
               set(required) <= parts, "{}({})".format(f.name, ", ".join(names)), f.site)
    # no other handler answers the same URL
    seen = {}
    for url, ms, f in handlers(ctx):
        for m in ms:
            k = (url, m)
            ctx.ob("routes", "one handler:" + url, k not in seen or seen[k] is f, "two handlers",
                   f.site)
            seen[k] = f
    # URLs of the parts that belong to an experiment have the same handler
    pairs = {shape(u): f for u, ms, f in handlers(ctx) if "GET" in ms}
    for u, f in pairs.items():
        pre = "/experiments/<>"
        if u.startswith(pre + "/trials") or u.startswith(pre + "/diff"):
            rest = u[len(pre):]
            if rest in pairs:
                ctx.ob("routes", "of an experiment:" + rest, pairs[rest] is f,
                       "another handler answers", f.site)
    # every page of a trial or diff can be asked with and without its experiment
    for u in list(TRIAL) + list(GRAPHS) + [DIFF + x for x in DIFFS] + [
            "/trials.json", "/trials/<tid>/activations/<aid>.json",
            "/trials/<tid>/flow.pdf", "/trials/<tid>/<hash>/<name>", "/trials/files/<hash>/<ext>"]:
        for v in (u, "/experiments/<exp>" + u):
            ctx.ob("routes", "answered:" + shape(v), shape(v) in pairs, "no handler",
                   "noworkflow/now/vis/views.py")
    ctx.need("routes", 20)


def installed(name):
    """Parameters of a function of the installed flask"""
    for pat in ("/opt/venv/lib/python3*/site-packages/flask/helpers.py",
                "/opt/venv/lib/python3*/site-packages/flask/json/__init__.py",
                "/opt/venv/lib/python3*/site-packages/flask/templating.py"):
        for fn in glob.glob(pat):
            with open(fn) as fil:
                tree = ast.parse(fil.read())
            for n in tree.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    a = n.args
                    return ({x.arg for x in a.args + a.kwonlyargs}, a.kwarg is not None)
    return None


def accepts(ctx):
    ctx.rule("accepts", "the functions of flask are called with keywords that they accept")
    m = ctx.project.module("now.vis.views")
    n = 0
    for node in ast.walk(m.tree):
        if not isinstance(node, ast.Call) or not isinstance(node.func, (ast.Name, ast.Attribute)):
            continue
        name = node.func.id if isinstance(node.func, ast.Name) else node.func.attr
        if name not in ("send_file", "jsonify", "render_template"):
            continue
        sig = installed(name)
        n += 1
        kws = {k.arg for k in node.keywords if k.arg}
        if sig is None:
            sig = {"send_file": ({"path_or_file", "mimetype", "as_attachment", "download_name",
                                  "conditional", "etag", "last_modified", "max_age"}, False)}.get(
                                      name, (set(), True))
        ctx.ob("accepts", name + ":" + ",".join(sorted(kws)), sig[1] or kws <= sig[0],
               "unknown argument", "{}:{}".format(m.rel, node.lineno))
    ctx.need("accepts", 5)


def check_answer(ctx, rule, url, key, expected, method="GET"):
    f, names = handler(ctx, url, method)
    if f is None:
        ctx.fail(rule, url, "no handler", "noworkflow/now/vis/views.py")
        return None
    inv = {v: k for k, v in names.items()}
    got, empty = set(), False
    for p in returning(paths(ctx, f)):
        v = answer(p, key)
        if v is None:
            got.add("missing")
            continue
        empties = {"list", "dict", "tuple"}
        if v.tag in empties and not v.args or v.tag == "call" and call_name(v) in empties and \
                not any(x.tag == "elem" for x in subterms(v)):
            empty = True
            continue
        if any(x.tag in empties and not x.args for x in v.args if isinstance(x, T)):
            continue
        got.add(src(v, inv))
    ctx.ob(rule, shape(url) + ":" + key, got == {expected},
           "{} instead of {}".format(sorted(got), expected)[:200], f.site)
    return f


def identified(ctx, rule, url, name, expected):
    """The object is created for the parts of the URL, in order"""
    f, names = handler(ctx, url)
    if f is None:
        return
    for p in paths(ctx, f):
        ts = created(p, name, None)
        if p.outcome != "return":
            continue
        ctx.ob(rule, shape(url) + ":" + name, len(ts) == 1 and flat(ctor_args(ts[0])) == [
            param(names[x]) for x in expected],
               "built from {}".format([show(t)[:80] for t in ts]), f.site)


def flat(ts):
    out = []
    for t in ts:
        if t.tag == "tuple":
            out.extend(t.args)
        elif t.tag == "dict" and not t.args:
            pass
        else:
            out.append(t)
    return out


TRIAL = {
    "/trials/<tid>/dependencies.json": {"all": "Trial.modules", "trial_path": "Trial.path"},
    "/trials/<tid>/environment.json": {"all": "Trial.environment_attrs"},
    "/trials/<tid>/file_accesses.json": {"file_accesses": "Trial.file_accesses",
                                         "trial_path": "Trial.path"},
}
ACT = "Activation"
ACTIVATION = {"id": "<aid>", "line": ACT + ".line", "name": ACT + ".name",
              "start": ACT + ".start", "finish": ACT + ".finish",
              "duration": ACT + ".duration", "return_value": ACT + ".this_evaluation.repr"}


def trial_data(ctx):
    ctx.rule("trial-data", "the answer about a trial or activation has its own records")
    for url, keys in TRIAL.items():
        identified(ctx, "trial-data", url, "Trial", ["tid"])
        for key, want in keys.items():
            if key == "all" and "environment" in url:
                f, names = handler(ctx, url)
                ok = all("Trial.environment_attrs" in src(answer(p, key)) or
                         not any(x.tag == "elem" for x in subterms(answer(p, key)))
                         for p in returning(paths(ctx, f)) if answer(p, key) is not None) and any(
                    "Trial.environment_attrs" in src(answer(p, key))
                    for p in returning(paths(ctx, f)) if answer(p, key) is not None)
                ctx.ob("trial-data", shape(url) + ":" + key, ok, "other records", f.site)
                continue
            check_answer(ctx, "trial-data", url, key, want)
    url = "/trials/<tid>/activations/<aid>.json"
    identified(ctx, "trial-data", url, "Activation", ["tid", "aid"])
    for key, want in ACTIVATION.items():
        check_answer(ctx, "trial-data", url, key, want)
    f, names = handler(ctx, url)
    if f is not None:
        for key, kind in (("globals", "global"), ("parameters", "param")):
            seen = set()
            for p in returning(paths(ctx, f)):
                v = answer(p, key)
                for x in subterms(v) if v is not None else ():
                    if x.tag == "call" and last(call_name(x)) == "filter_evaluations_by_type":
                        seen |= {a.args[1] for a in list(x.args[1]) + [b for _, b in x.args[2]]
                                 if is_const(a)}
            ctx.ob("trial-data", key, seen == {kind}, str(seen), f.site)
        hashes = {src(answer(p, "hash")) for p in returning(paths(ctx, f))
                  if answer(p, "hash") is not None}
        ctx.ob("trial-data", "hash", ACT + ".code_block.code_hash" in hashes and
               hashes <= {ACT + ".code_block.code_hash", "''", "None"}, str(hashes), f.site)
    # the other handlers of a trial
    f, names = handler(ctx, "/definition/<tid>/ast.json")
    if f is not None:
        identified(ctx, "trial-data", "/definition/<tid>/ast.json", "Trial", ["tid"])
        for p in returning(paths(ctx, f)):
            ctx.ob("trial-data", "ast", "construct_ast_json" in show(p.value) and
                   "TrialAst" in show(p.value), show(p.value)[:80], f.site)
    f, names = handler(ctx, "/files/<tid>")
    if f is not None:
        kinds = set()
        for p in returning(paths(ctx, f)):
            v = answer(p, "files")
            if v is None:
                ctx.fail("trial-data", "files", "missing", f.site)
                continue
            for x in v.args if v.tag == "list" else ():
                recs = [e for e in subterms(x) if e.tag == "elem" and e.args[0].tag == "call" and
                        last(call_name(e.args[0])) == "all"]
                if not recs:
                    continue
                r = recs[-1]
                own = "id" if "Trial.all" in src(r) else "trial_id"
                kinds.add(src(r))
                ok = any(c.tag == "cmp" and {c.args[1], c.args[2]} == {
                    attr(r, own), param(names["tid"])} and v2 is (c.args[0] == "Eq")
                    for c, v2 in p.pc.items()) or "filter" in show(r)
                ctx.ob("trial-data", "files:" + src(r), ok, "files of another trial", f.site)
        ctx.ob("trial-data", "files", len(kinds) == 3, str(kinds), f.site)
    url = "/dataflow/evaluations/<tid>"
    f, names = handler(ctx, url)
    if f is not None:
        for p in returning(paths(ctx, f)):
            ctx.ob("trial-data", "evaluations", contains(p.value, param(names["tid"])) or
                   any(contains(c, param(names["tid"])) for c in p.pc), "of any trial", f.site)
    ctx.need("trial-data", 10)


DIFF = "/diff/<t1>/<t2>/"
DIFFS = {"info.json": {"trial1": "Diff.trial1", "trial2": "Diff.trial2", "trial": "Diff.trial"}}
for _url, _attr, _pre, _paths in (("dependencies.json", "modules", "modules", True),
                                  ("environment.json", "environment", "env", False),
                                  ("file_accesses.json", "file_accesses", "fa", True)):
    DIFFS[_url] = {_pre + "_" + k: "Diff.{}[{}]".format(_attr, i)
                   for i, k in enumerate(("added", "removed", "replaced"))}
    if _paths:
        DIFFS[_url].update(t1_path="Diff.trial1.path", t2_path="Diff.trial2.path")


def diff_data(ctx):
    ctx.rule("diff-data", "the answer about two trials has what was added, removed and replaced "
             "from the first to the second one")
    for url, keys in DIFFS.items():
        identified(ctx, "diff-data", DIFF + url, "Diff", ["t1", "t2"])
        for key, want in keys.items():
            check_answer(ctx, "diff-data", DIFF + url, key, want)
    ctx.need("diff-data", 8)


GRAPHS = {"/trials/<tid>/<mode>/<cache>.json": ("Trial", ["tid"]),
          "/diff/<t1>/<t2>/<mode>-<cache>.json": ("Diff", ["t1", "t2"])}


def graphs(ctx):
    ctx.rule("graphs", "the graph is the one that the URL names, read from the cache only if the "
             "request and the configuration allow it; histories are filtered as asked")
    for url, (name, ids) in GRAPHS.items():
        f, names = handler(ctx, url)
        if f is None:
            ctx.fail("graphs", url, "no handler", "noworkflow/now/vis/views.py")
            continue
        identified(ctx, "graphs", url, name, ids)
        for p in returning(paths(ctx, f)):
            got = [x for x in subterms(p.value) if x.tag == "call" and call_name(x) == "getattr"]
            ctx.ob("graphs", shape(url) + ":mode", len(got) == 1 and
                   src(got[0].args[1][0]) == name + ".graph" and
                   got[0].args[1][1] == param(names["mode"]) and
                   any(x.tag == "item" and is_const(x.args[1]) and x.args[1].args[1] == 1 and
                       x.args[0].tag == "call" and x.args[0].args[0] == got[0]
                       for x in subterms(p.value)), show(p.value)[:100], f.site)
            sets = [i for i, e in enumerate(p.events) if e.kind == "setattr" and
                    e.extra.args[0] == "use_cache"]
            used = [i for i, e in enumerate(p.events) if e.kind == "call" and
                    call_name(e.term) == "getattr"]
            if not ctx.ob("graphs", shape(url) + ":cache", len(sets) <= 1 and used and
                          (not sets or sets[0] < used[-1]), "is set too late", f.site):
                continue
            obj = p.events[sets[0]].term if sets else None
            if obj is None:
                obj = [x.args[1][0] for x in subterms(p.value)
                       if x.tag == "call" and call_name(x) == "getattr"][0]
            own = attr(obj, "use_cache")
            v = p.events[sets[0]].extra.args[1] if sets else own
            for a in (True, False):
                for b in (True, False):
                    env = lambda t: a if t == own else (int(b) if t == param(names["cache"])
                                                        else UNKNOWN)
                    if v.tag == "binop" and v.args[0] == "BitAnd":
                        x, y = fold(v.args[1], env), fold(v.args[2], env)
                        r = UNKNOWN if UNKNOWN in (x, y) else bool(x) and bool(y)
                    else:
                        r = fold(v, env)
                    r = r if possible(p, env) else (a and b)
                    ctx.ob("graphs", shape(url) + ":cache", r is not UNKNOWN and
                           bool(r) is (a and b), show(v)[:80], f.site)
    f, names = handler(ctx, "/experiments/<exp>/trials.json")
    if f is not None:
        for p in returning(paths(ctx, f)):
            hs = created(p, "History", None)
            if not ctx.ob("graphs", "history", len(hs) == 1 and
                          any(x.tag == "call" and src(x) == "History.graph.graph()"
                              for x in subterms(p.value)), show(p.value)[:80], f.site):
                continue
            given = {}
            for k, v in hs[0].args[2]:
                if v.tag == "dict":
                    given.update({x.args[0].args[1]: x.args[1] for x in v.args
                                  if x.tag == "pair" and is_const(x.args[0])})
                else:
                    given[k] = v
            for k, q in (("script", "script"), ("status", "execution"),
                         ("summarize", "summarize")):
                v = given.get(k, NONE)
                ctx.ob("graphs", "history:" + k, any(
                    x.tag == "call" and ".args.get" in show(x) and x.args[1] and
                    is_const(x.args[1][0]) and x.args[1][0].args[1] == q for x in subterms(v)) or
                    any(x.tag == "item" and is_const(x.args[1]) and x.args[1].args[1] == q
                        for x in subterms(v)) or
                    k == "summarize" and is_const(v), show(v)[:80], f.site)
            ctx.ob("graphs", "history:experiment", param(names["exp"]) in (
                given.get("expId"), ), show(given.get("expId", NONE))[:80], f.site)
    url = "/trials/<tid>/flow.pdf"
    identified(ctx, "graphs", url, "Trial", ["tid"])
    f, names = handler(ctx, url)
    if f is not None:
        for p in returning(paths(ctx, f)):
            ctx.ob("graphs", "dataflow", any("Trial.dot.export_text()" in src(x)
                                             for x in created(p, "DotDisplay", None)
                                             for x in ctor_args(x)), "another graph", f.site)
    ctx.need("graphs", 5)


FILES = {"/trials/<tid>/<hash>/<name>": ("hash", ["name"]),
         "/trials/files/<hash>/<ext>": ("hash", ["ext"]),
         "/experiments/<exp>/collab/files/<hash>": ("hash", [])}


def files(ctx):
    ctx.rule("files", "a file is answered with the content of the hash that its URL names, and "
             "received files are stored under their names and committed")
    for url, (h, named) in FILES.items():
        f, names = handler(ctx, url)
        if f is None:
            ctx.fail("files", url, "no handler", "noworkflow/now/vis/views.py")
            continue
        for p in returning(paths(ctx, f)):
            sent = calls(p, "send_file")
            if not sent:
                continue
            v = src(arg(sent[0].term, "path_or_file", 0), {v: k for k, v in names.items()})
            ctx.ob("files", shape(url), v.endswith("get(<hash>)"), v[:80], f.site)
            dn = dict(sent[0].term.args[2]).get("download_name", NONE)
            for n in named:
                ctx.ob("files", shape(url) + ":" + n, contains(dn, param(names[n])),
                       show(dn)[:80], f.site)
    f, names = handler(ctx, "/experiments/<exp>/collab/files", "POST")
    if f is not None:
        n = 0
        for p in returning(paths(ctx, f)):
            puts = [e for e in calls(p, "put") if "content" in show(e.term.args[0])]
            names_ = [v for c, v in p.pc.items() if c.tag == "niter" and "namelist" in show(c)]
            done = [e for e in calls(p, "commit_content")]
            if names_ and names_[0]:
                n += 1
                ok = len(puts) == 1
                if ok:
                    a = list(puts[0].term.args[1]) + [v for _, v in puts[0].term.args[2]]
                    el = [x for x in a if x.tag == "elem" and "namelist" in show(x)]
                    ok = bool(el) and any(x.tag == "call" and last(call_name(x)) == "read" and
                                          el[0] in x.args[1] for x in a)
                ctx.ob("files", "received", ok, "not stored under its name", f.site)
                ctx.ob("files", "committed", len(done) == 1 and puts and
                       index_of(p, done[0]) > index_of(p, puts[-1]), "not committed", f.site)
        ctx.ob("files", "receives", n > 0, "no path", f.site)
    ctx.need("files", 4)


def annotations(ctx):
    ctx.rule("annotations", "annotations are stored for, and listed from, the trial or experiment "
             "that the URL names; records are answered with their own fields")
    for url, kind, field, other in (
            ("/experiments/<id>/extendedAnnotation", "Experiment", "relatedExperiment",
             "relatedTrial"),
            ("/trials/<id>/extendedAnnotation", "Trial", "relatedTrial", "relatedExperiment")):
        f, names = handler(ctx, url)
        if f is not None:
            for p in returning(paths(ctx, f)):
                got = [e for e in calls(p) if last(cname(e)).startswith("GetInfoBy")]
                ctx.ob("annotations", kind + ":listed", len(got) == 1 and
                       last(cname(got[0])) == "GetInfoBy{}Id".format(kind) and
                       contains(got[0].term, param(names["id"])), "others", f.site)
                for t in created(p, "ExtendedAnnotationLW", None):
                    kw = dict(t.args[2])
                    ctx.ob("annotations", kind + ":owner", kw.get(field, NONE).tag == "attr" and
                           kw[field].args[1] == field, show(kw.get(field, NONE)), f.site)
        f, names = handler(ctx, url, "POST")
        if f is not None:
            n = 0
            for p in returning(paths(ctx, f)):
                made = [e for e in calls(p, "create") if "ExtendedAnnotation" in cname(e)]
                for t in created(p, "ExtendedAnnotationLW", None):
                    n += 1
                    kw = dict(t.args[2])
                    ctx.ob("annotations", kind + ":level", strval(
                        kw.get("annotationLevel", NONE)) == kind, "", f.site)
                    o = kw.get(other, NONE)
                    ctx.ob("annotations", kind + ":related", kw.get(field) == param(
                        names["id"]) and is_const(o) and not o.args[1], show(t)[:100], f.site)
                    for k in ("annotation", "description", "annotationFormat"):
                        v = kw.get(k, NONE)
                        ctx.ob("annotations", kind + ":" + k, is_const(v) or any(
                            x.tag == "item" and strval(x.args[1]) == k or
                            x.tag == "call" and x.args[1] and strval(x.args[1][0]) == k
                            for x in subterms(v)), show(v)[:80], f.site)
                    ctx.ob("annotations", kind + ":stored", len(made) == 1 and
                           contains(made[0].term, t), "not stored", f.site)
            ctx.ob("annotations", kind + ":stores", n > 0, "no path", f.site)
    # records -> fields of the same name
    n = 0
    for f in {id(f): f for _, _, f in handlers(ctx)}.values():
        for p in returning(paths(ctx, f)):
            for t in [e.term for e in p.events if e.kind == "new" and cname(e).endswith("LW")]:
                for k, v in t.args[2]:
                    if v.tag == "attr" and v.args[0].tag == "elem":
                        n += 1
                        ctx.ob("annotations", "field:" + last(call_name(t)) + "." + k,
                               v.args[1].lower().endswith(k.lower()) or
                               k.lower().endswith(v.args[1].lower()), show(v)[-60:], f.site)
    ctx.need("annotations", 8)


def groups(ctx):
    ctx.rule("groups", "groups answer with their own members, and change only as the URL names")
    f, names = handler(ctx, "/groups/<id>", "DELETE")
    if f is not None:
        for p in returning(paths(ctx, f)):
            d = [e for e in calls(p, "delete") if "Group" in cname(e)]
            ctx.ob("groups", "delete", len(d) == 1 and contains(d[0].term, param(names["id"])),
                   "another group", f.site)
    f, names = handler(ctx, "/groups/<id>/users", "POST")
    if f is not None:
        n = 0
        for p in returning(paths(ctx, f)):
            for t in created(p, "MemberOfGroupLW", None):
                n += 1
                kw = dict(t.args[2])
                ctx.ob("groups", "member", kw.get("groupId") == param(names["id"]) and
                       "userId" in show(kw.get("userId", NONE)), show(t)[:100], f.site)
                made = [e for e in calls(p, "create") if "MemberOfGroup" in cname(e)]
                ctx.ob("groups", "member:stored", len(made) == 1 and contains(made[0].term, t),
                       "not stored", f.site)
        ctx.ob("groups", "members", n > 0, "no path", f.site)
    f, names = handler(ctx, "/groups")
    if f is not None:
        for p in returning(paths(ctx, f)):
            for t in created(p, "GroupLW", None):
                own = dict(t.args[2]).get("id", NONE)
                got = calls(p, "list_members_Of_Group")
                ctx.ob("groups", "members of", len(got) == 1 and own.tag == "attr" and
                       contains(got[0].term, own), "another group", f.site)
    f, names = handler(ctx, "/groups", "POST")
    if f is not None:
        for p in returning(paths(ctx, f)):
            for t in created(p, "GroupLW", None):
                made = [e for e in calls(p, "create") if "Group" in cname(e)]
                ctx.ob("groups", "create", len(made) == 1 and contains(made[0].term, t),
                       "not stored", f.site)
    ctx.need("groups", 3)


READS = {"get", "put", "commit_content", "listAll", "export_bundle", "import_bundle",
         "list_from_experiment"}


def experiments(ctx):
    ctx.rule("experiments", "what is asked under the URL of an experiment that does not exist is "
             "refused before anything is read or changed, and what is asked under an existing one "
             "uses that experiment")
    n = 0
    for url, ms, f in handlers(ctx):
        if not shape(url).startswith("/experiments/<>/collab/") or \
                shape(url) == "/experiments/<>/collab/files/<>":
            continue
        exp = param(PART.findall(url)[0])
        n += 1
        kinds = set()
        for p in paths(ctx, f):
            known = None
            for c, v in p.pc.items():
                if contains(c, exp) and "Experiment" in show_query(ctx, c, f):
                    e = lambda k: (lambda t: k if t.tag == "call" and last(call_name(t)) in ("len", "count")
                                   else UNKNOWN)
                    a, b = fold(c, e(1)), fold(c, e(0))
                    if a is not UNKNOWN and b is not UNKNOWN and bool(a) is not bool(b):
                        known = bool(a) is v
                    elif c.tag in ("truth", "bool"):
                        known = v if not (c.tag == "bool" and not c.args[1]) else not v
                    elif c.tag == "cmp" and is_const(c.args[2]) and c.args[2].args[1] is None:
                        known = v is (c.args[0] in ("IsNot", "NotEq"))
            used = [e for e in p.events if e.kind == "call" and last(cname(e)) in READS and
                    ("content" in cname(e) or last(cname(e)) not in ("get", "put")) or
                    e.kind == "call" and show(e.term).endswith("User.all()")]
            status = [x.args[1] for x in (p.value.args if p.value.tag == "tuple" else ())
                      if is_const(x) and isinstance(x.args[1], int)]
            if known is None:
                ctx.ob("experiments", shape(url) + ":checked", not used and p.outcome == "return",
                       "is not checked", f.site)
            elif known:
                kinds.add(True)
                ctx.ob("experiments", shape(url) + ":answered", bool(used) and status != [400],
                       "not answered", f.site)
                imp = calls(p, "import_bundle") + calls(p, "list_from_experiment")
                for e in imp:
                    ctx.ob("experiments", shape(url) + ":its own", contains(e.term, exp),
                           "another experiment", f.site)
            else:
                kinds.add(False)
                ctx.ob("experiments", shape(url) + ":refused", not used and status == [400],
                       "status {}".format(status), f.site)
        ctx.ob("experiments", shape(url), kinds == {True, False}, str(kinds), f.site)
    f, names = handler(ctx, "/experiments/<exp>/collab/bundle")
    if f is not None:
        for p in returning(paths(ctx, f)):
            for e in calls(p, "export_bundle"):
                ctx.ob("experiments", "trials", ".args.getlist('id')" in show(e.term),
                       show(e.term)[:80], f.site)
    f, names = handler(ctx, "/experiments/<exp>/collab/bundle", "POST")
    if f is not None:
        for p in returning(paths(ctx, f)):
            imp = calls(p, "import_bundle")
            fj = calls(p, "from_json")
            if imp:
                ctx.ob("experiments", "received bundle", len(fj) == 1 and any(
                    x.tag == "attr" and show(x.args[0]).endswith("request") or
                    x.tag == "call" and "request" in show(x) for x in subterms(fj[0].term)) and
                    index_of(p, fj[0]) < index_of(p, imp[0]), "is not read", f.site)
    ctx.need("experiments", 6)


def show_query(ctx, c, f):
    """Conditions over a query name the model only in the source"""
    m = f.module
    return " ".join(ast.unparse(g.node) for g in m.funcs.values()
                    if any(isinstance(n, ast.Attribute) and n.attr == "m" and
                           isinstance(n.value, ast.Name) and n.value.id == "Experiment"
                           for n in ast.walk(g.node)))


def remotes(ctx):
    ctx.rule("remotes", "a remote is looked up by its URL; one that does not exist is answered "
             "as an error, and changes reach the database")
    for url, what in (("/collab/remotes/edit/<name>/<path:url>", "edit"),
                      ("/collab/remotes/delete/<path:url>", "delete")):
        f, names = handler(ctx, url)
        if f is None:
            ctx.fail("remotes", url, "no handler", "noworkflow/now/vis/views.py")
            continue
        kinds = set()
        for p in returning(paths(ctx, f)):
            status = [x.args[1] for x in (p.value.args if p.value.tag == "tuple" else ())
                      if is_const(x) and isinstance(x.args[1], int)]
            firsts = {x for e in p.events for t in ((e.term, e.extra) if isinstance(e.extra, T)
                                                    else (e.term, ))
                      for x in subterms(t) if x.tag == "item" and is_const(x.args[1]) and
                      x.args[1].args[1] == 0 and "query" in show(x)}
            changed = [e for e in p.events if e.kind == "setattr" and e.extra.args[0] in (
                "name", "hide") or e.kind == "call" and show(e.term.args[0]).endswith(
                    "session.delete")]
            commits = [e for e in p.events if e.kind == "call" and last(cname(e)) == "commit"]
            guard = None
            for c, v in p.pc.items():
                if "query" not in show(c):
                    continue
                vals = {}
                for k in (0, 1, 2):
                    env = lambda t: k if t.tag == "call" and call_name(t) == "len" else (
                        bool(k) if t.tag == "truth" and last(call_name(t.args[0]))
                        in ("all", "first") else UNKNOWN) if t.tag in ("call", "truth") else UNKNOWN
                    vals[k] = fold(c, env)
                if UNKNOWN not in vals.values():
                    if bool(vals[0]) is not bool(vals[1]):
                        guard = bool(vals[1]) is v
                elif c.tag == "cmp" and is_const(c.args[2]) and c.args[2].args[1] is None:
                    guard = v is (c.args[0] in ("IsNot", "NotEq"))
            if guard is False:
                kinds.add(False)
                ctx.ob("remotes", what + ":unknown", not changed and status and
                       status[0] >= 400, "status {}".format(status), f.site)
            else:
                ctx.ob("remotes", what + ":exists", guard is True, "is not checked", f.site)
                kinds.add(True)
                ctx.ob("remotes", what + ":changed", len(changed) == 1 and
                       contains(changed[0].term, param(names["url"])), "{} changes".format(
                           len(changed)), f.site)
                ctx.ob("remotes", what + ":by url", any(
                    x.tag == "cmp" and x.args[0] == "Eq" and param(names["url"]) in x.args and
                    any(y.tag == "attr" and y.args[1] == "server_url" for y in x.args
                        if isinstance(y, T)) for e in p.events for x in subterms(e.term)) or any(
                            k == "server_url" and v == param(names["url"]) for e in p.events
                            if e.kind == "call" for k, v in e.term.args[2]),
                       "another remote", f.site)
                ctx.ob("remotes", what + ":committed", commits and changed and
                       index_of(p, commits[-1]) > index_of(p, changed[-1]), "not committed",
                       f.site)
                if changed and what == "edit":
                    e = changed[0]
                    ctx.ob("remotes", "renamed", e.kind == "setattr" and e.extra.args[0] ==
                           "name" and e.extra.args[1] == param(names["name"]), "", f.site)
                if changed and what == "delete":
                    used = [v is not (c.tag == "bool" and not c.args[1])
                            for c, v in p.pc.items() if ".used" in show(c)]
                    e = changed[0]
                    hidden = e.kind == "setattr" and e.extra.args[0] == "hide" and \
                        is_const(e.extra.args[1]) and e.extra.args[1].args[1] is True
                    ctx.ob("remotes", "used ones are hidden", bool(used) and
                           hidden is used[-1] and (hidden or e.kind == "call"), "", f.site)
        ctx.ob("remotes", what, kinds == {True, False}, str(kinds), f.site)
    f, names = handler(ctx, "/collab/remotes/getall")
    if f is not None:
        for p in returning(paths(ctx, f)):
            for t in created(p, "RemoteLW", None):
                hid = [(c, v) for c, v in p.pc.items() if ".hide" in show(c)]
                env = lambda t: True if t.tag == "attr" and t.args[1] == "hide" else UNKNOWN
                rs = [(fold(c, env), v) for c, v in hid if c.tag in ("cmp", "truth", "bool")]
                ok = any(r is not UNKNOWN and bool(r) is not v for r, v in rs)
                ctx.ob("remotes", "hidden", ok, "hidden remotes are listed", f.site)
    f, names = handler(ctx, "/collab/remotes/add/<name>/<path:url>", "POST")
    if f is not None:
        for p in returning(paths(ctx, f)):
            made = [e for e in calls(p, "create") if "Remote" in cname(e)]
            ok = len(made) == 1
            if ok:
                kw = dict(made[0].term.args[2])
                ok = kw.get("server_url") == param(names["url"]) and \
                    kw.get("name") == param(names["name"])
            ctx.ob("remotes", "add", ok, show(made[0].term) if made else "not stored", f.site)
    ctx.need("remotes", 8)


def numbers(ctx):
    ctx.rule("numbers", "a number that a request may leave out has a default")
    m = ctx.project.module("now.vis.views")
    n = 0
    for f in {id(f): f for _, _, f in handlers(ctx)}.values():
        for p in paths(ctx, f):
            for e in p.events:
                if e.kind == "call" and call_name(e.term) in ("int", "float") and e.term.args[1]:
                    x = e.term.args[1][0]
                    if x.tag == "call" and show(x.args[0]).endswith("request.args.get"):
                        n += 1
                        ctx.ob("numbers", f.name + ":" + show(x.args[1][0]),
                               len(x.args[1]) + len(x.args[2]) > 1, "no default", f.site)
                    elif x.tag == "item" and "request.args" in show(x):
                        n += 1
                        ctx.ob("numbers", f.name + ":" + show(x.args[1]), any(
                            c.tag == "cmp" and c.args[0] in ("In", "NotIn") and
                            c.args[1] == x.args[1] for c in p.pc), "is required", f.site)
    ctx.ob("numbers", "module", True, "", m.rel)
    ctx.need("numbers", 1)
