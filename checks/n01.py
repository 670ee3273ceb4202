"""N01: the dataflow graph and its files.

Construction (nodes, arrows, arrows through hidden nodes) is decided on the abstract paths of the
steps of the clusterizer; the files by following the texts of the trial to the quotes that they are
written between.
"""
import ast
import re

from vlib.absint import const, mk
from vlib.rules import *

RULES = ["nodes", "evaluations", "accesses", "arrows", "hidden", "edges", "steps", "quoted",
         "declared"]
ASSUMPTIONS = ["A quoted string of DOT and of PROV-N ends at the first quote that no backslash escapes."]
B = "now.models.dependency_graph."
C = B + "clusterizer:Clusterizer."
TEXTS = {"name", "value", "activation_name", "repr", "key"}
SMALL = ("add_node", "add_evaluation_node", "process_evaluation", "process_activation", "add_cluster_node",
         "process_access", "process_cluster", "add_dependency", "recursive_accesses", "get_node_id",
         "from_node_id", "dep_iter", "member_iter", "_all_nodes")


def paths(ctx, q, loops=(0, 1), keep=(), raiser=None):
    f = ctx.project.func(q)
    it = ctx.interp(loops=loops, max_states=4000,
                    opaque_fn=lambda g: g is not f and (g.module is not f.module or g.name in SMALL))
    it.keep_pc = True
    return f, returning(ctx.paths_of(it, f))


def calls(p, *names):
    return [e.term for e in p.events if e.kind in ("call", "new") and
            last(call_name(e.term)).split(".")[-1] in names]


def argument(t, name, pos):
    for k, v in t.args[2]:
        if k == name:
            return v
    return t.args[1][pos] if len(t.args[1]) > pos else None


def members(p, pattern):
    """[is in] of the membership tests whose container matches"""
    return [v == (k.args[0] == "In") for k, v in p.pc.items() if k.tag == "cmp" and
            k.args[0] in ("In", "NotIn") and re.search(pattern, show(k.args[2]))]


def nodes(ctx):
    ctx.rule("nodes", "a node is added once, to its cluster and under its own id, if the filters "
             "accept it before and after it is replaced by its synonym")
    f, ps = paths(ctx, C + "add_node")
    node, cluster = [mk("param", x) for x in f.params()[1:3]]
    for p in ps:
        before = members(p, r"before_synonym$")
        after = members(p, r"after_synonym$")
        exists = members(p, r"\.created$")
        put = [e for e in p.events if e.kind == "setitem" and show(e.term).endswith(".created")]
        add = [t for t in calls(p, "add") if show(t.args[0]) == show(cluster) + ".add"]
        told = calls(p, "set")
        want = before == [True] and after == [True] and exists == [False]
        how = "accepted {} {}, exists {}".format(before, after, exists)
        ctx.ob("nodes", "created: " + how, len(put) == (1 if want else 0), str(len(put)), f.site)
        ctx.ob("nodes", "in its cluster: " + how, len(add) == (1 if want else 0), str(len(add)), f.site)
        ctx.ob("nodes", "synonym: " + how, len(told) == (1 if want else 0), str(len(told)), f.site)
        res = p.value.args[0] if p.value.tag == "tuple" else None
        if want and put and add:
            new = calls(p, "get")[0] if calls(p, "get") else None
            ok = add[0].args[1][0] is new and show(put[0].extra.args[0]).endswith(".node_id") and \
                contains(put[0].extra.args[0], new) and contains(put[0].extra.args[1], new) and \
                contains(put[0].extra.args[1], cluster) and res is new
            ctx.ob("nodes", "what is added", new is not None and ok, show(put[0].extra.args[0]), f.site)
        elif exists == [True]:
            ctx.ob("nodes", "what exists", res is not None and not is_const(res), show(p.value), f.site)
        else:
            ctx.ob("nodes", "what is hidden", res is const(None), show(p.value), f.site)
    ctx.need("nodes", 9)


def evaluations(ctx):
    ctx.rule("evaluations", "evaluations of calls become nodes or clusters of their activations, and "
             "other evaluations become nodes; the parts of collections and the collections of parts follow")
    f, ps = paths(ctx, C + "process_evaluation")
    ev, cluster = [mk("param", x) for x in f.params()[1:3]]
    for p in ps:
        none = [v == (k.args[0] in ("Is", "Eq")) for k, v in p.pc.items()
                if k.tag == "cmp" and const(None) in k.args and "this_activation" in show(k)]
        made = calls(p, "add_evaluation_node", "process_activation")
        name = [last(call_name(t)).split(".")[-1] for t in made]
        want = ["add_evaluation_node"] if none == [True] else ["process_activation"]
        ctx.ob("evaluations", "activation {}".format(none != [True]), name == want and p.value is made[0] and
               contains(made[0], ev) and contains(made[0], cluster), str(name), f.site)
    f, ps = paths(ctx, C + "add_evaluation_node")
    for p in ps:
        added = calls(p, "add_node")
        sub = calls(p, "process_evaluation")
        done = [v == (k.args[0] == "Eq") for k, v in p.pc.items() if k.tag == "cmp" and
                const("done") in k.args]
        for t in sub:
            s = show(argument(t, "evaluation", 0))
            ctx.ob("evaluations", "parts " + ("member" if "as_collection" in s else "collection"),
                   done == [True] and s.endswith(".member" if "as_collection" in s else ".collection") and
                   argument(t, "is_type", 2) is const("as_collection" in s),
                   "{} {}".format(s[-60:], done), f.site)
        ctx.ob("evaluations", "added", len(added) == 1, str(len(added)), f.site)
    ctx.need("evaluations", 5)


def accesses(ctx):
    ctx.rule("accesses", "an activation depends on the files that it reads, and the files that it "
             "writes depend on it")
    f, ps = paths(ctx, C + "process_activation")
    seen = set()
    for p in ps:
        arrows = {}
        for t in calls(p, "add"):
            s = show(t.args[0])
            m = re.search(r"\.(departing_arrows|arriving_arrows)\[(.*)\]\.add$", s)
            if m:
                first, second = t.args[0].args[0].args[0].args[1], t.args[0].args[0].args[1]
                arrows.setdefault(m.group(1), []).append(("process_access" in show(first),
                                                          "process_access" in show(second)))
        modes = {}
        for k, v in p.pc.items():
            s = show(k)
            if ".mode" not in s or "BitAnd" not in s:
                continue
            chars = {c for t in subterms(k) if is_const(t) and isinstance(t.args[1], str) for c in t.args[1]}
            modes["r" if "r" in chars else "w"] = (chars, v)
        for kind, want, chars in (("r", (False, True), {"r", "+"}), ("w", (True, False), {"w", "x", "a", "+"})):
            if kind not in modes:
                ctx.ob("accesses", "modes {} alone".format("r" if kind == "w" else "w"), not modes,
                       "the mode of an access is asked for one of the directions only", f.site)
                continue
            got, v = modes[kind]
            if not got:
                continue
            ctx.ob("accesses", "modes " + kind, got == chars, str(sorted(got)), f.site)
            seen.add((kind, v))
            dep, arr = arrows.get("departing_arrows", []), arrows.get("arriving_arrows", [])
            ctx.ob("accesses", "arrow {} {}".format(kind, v), (want in dep) == v and
                   (want[::-1] in arr) == v, "{} {}".format(dep, arr), f.site)
    ctx.ob("accesses", "modes are asked", len(seen) == 4, str(seen), f.site)
    ctx.need("accesses", 5)


def pair(t):
    """(kind, first key, second key) of departing_arrows[a][b]"""
    if t.tag == "item" and t.args[0].tag == "item":
        m = re.search(r"\.(departing_arrows|arriving_arrows)$", show(t.args[0].args[0]))
        if m:
            return m.group(1)[:3], t.args[0].args[1], t.args[1]
    return None


def added(p):
    """Arrows that a path adds: [(kind, first, second, value)]"""
    out = []
    for t in calls(p, "add", "update"):
        if t.args[0].tag in ("attr", "bound"):
            k = pair(t.args[0].args[0])
            if k:
                out.append(k + (t.args[1][0] if t.args[1] else None,))
    for e in p.events:
        if e.kind == "setitem" and e.term.tag == "item":
            m = re.search(r"\.(departing_arrows|arriving_arrows)$", show(e.term.args[0]))
            if m:
                out.append((m.group(1)[:3], e.term.args[1], e.extra.args[0], e.extra.args[1]))
    return out


def arrows(ctx):
    ctx.rule("arrows", "each dependency and each part of a collection is an arrow from the dependent "
             "to what it depends on, known from both ends, with its type and key")
    f, ps = paths(ctx, C + "_create_evaluation_dependencies")
    for p in ps:
        got = added(p)
        for src in ("dep_iter", "member_iter"):
            mine = [g for g in got if src in show(g[1])]
            n = [v for k, v in p.pc.items() if k.tag == "niter" and src in show(k)]
            if n and n[0] == 0:
                ctx.ob("arrows", src + ":none", not mine, str(len(mine)), f.site)
                continue
            dep = [g for g in mine if g[0] == "dep"]
            arr = [g for g in mine if g[0] == "arr"]
            ok = len(dep) == 1 and len(arr) == 1 and dep[0][1] is arr[0][2] and dep[0][2] is arr[0][1] and \
                dep[0][1] is not dep[0][2] and dep[0][3] is arr[0][3]
            ctx.ob("arrows", src + ":both ends", ok, str([(g[0], show(g[1])[-40:], show(g[2])[-40:])
                                                          for g in mine]), f.site)
            if ok:
                a, b = show(dep[0][1]), show(dep[0][2])
                ctx.ob("arrows", src + ":direction", re.search(r"\D1\D*$", a) is not None and
                       re.search(r"\D2\D*$", b) is not None, a[-20:] + " -> " + b[-20:], f.site)
                s = show(dep[0][3])
                ctx.ob("arrows", src + ":type", ".type" in s if src == "dep_iter" else
                       "'member'" in s and ".key" in s, s[:200], f.site)
    for name, (first, second) in (("dep_iter", ("dependent_id", "dependency_id")),
                                  ("member_iter", ("collection_id", "member_id"))):
        f, ps = paths(ctx, C + name)
        ys = [e for p in ps for e in p.events if e.kind == "yield"]
        for e in ys:
            v = e.term
            ok = v.tag == "tuple" and len(v.args) == 3 and "." + first in show(v.args[1]) and \
                "." + second in show(v.args[2]) and all("from_node_id" in show(x) for x in v.args[1:])
            ctx.ob("arrows", name, ok, show(v)[:200], f.site)
    ctx.need("arrows", 6)


def hidden(ctx):
    ctx.rule("hidden", "a node that is not in the graph is replaced by arrows from all that depend on "
             "it to all that it depends on, known from both ends, with the attributes of both")
    f, ps = paths(ctx, C + "_fix_dependencies")
    full = 0
    for p in ps:
        inside = members(p, r"\.created$")
        got = added(p)
        if True in inside and False not in inside:
            ctx.ob("hidden", "nodes of the graph", not got and not any(
                e.kind == "delitem" for e in p.events), str(len(got)), f.site)
            continue
        if not got:
            continue
        full += 1
        dep = [g for g in got if g[0] == "dep"]
        arr = [g for g in got if g[0] == "arr"]
        ok = len(dep) >= 1 and len(dep) == len(arr) and all(
            any(d[1] is a[2] and d[2] is a[1] for a in arr) for d in dep)
        ctx.ob("hidden", "both ends", ok, str(len(dep)), f.site)
        for g in dep:
            ctx.ob("hidden", "direction", "arriving" in show(g[1]) and "departing" in show(g[2]),
                   "{} -> {}".format(show(g[1])[-80:], show(g[2])[-80:]), f.site)
            ctx.ob("hidden", "attributes", "arriving" in show(g[3]) and "departing" in show(g[3]) and
                   "PROPAGATED" in show(g[3]), show(g[3])[:200], f.site)
    ctx.ob("hidden", "arrows", full > 0, "no arrow is propagated", f.site)
    f, ps = paths(ctx, C + "_all_nodes")
    for p in ps:
        for e in p.events:
            if e.kind == "yield":
                ctx.ob("hidden", "all evaluations", ".evaluations)" in show(e.term) and ".id" in show(e.term),
                       show(e.term), f.site)
    order = []
    f, ps = paths(ctx, C + "process_dependencies")
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "_create_evaluation_dependencies", "_fix_dependencies"):
            order.append((n.lineno, n.func.attr))
    if order:
        ctx.ob("hidden", "after the arrows", [n for _, n in sorted(order)] == [
            "_create_evaluation_dependencies", "_fix_dependencies"], str(order), f.site)
    ctx.need("hidden", 5)


def edges(ctx):
    ctx.rule("edges", "the edges of the graph are the arrows between nodes of the graph that the "
             "filters accept")
    f = ctx.project.func(C + "process_dependencies")
    it = ctx.interp(loops=(0, 1), max_states=4000, opaque_fn=lambda g: g is not f,
                    opaque_names=SMALL + ("_create_evaluation_dependencies", "_fix_dependencies"))
    it.keep_pc = True
    made = 0
    for p in returning(ctx.paths_of(it, f)):
        for t in calls(p, "add_dependency"):
            made += 1
            source, target, attrs = [argument(t, n, i) for i, n in enumerate(("source", "target", "attrs"))]
            for what, x in (("source", source), ("target", target)):
                none = [v == (k.args[0] in ("Is", "Eq")) for k, v in p.pc.items() if k.tag == "cmp" and
                        const(None) in k.args and x in k.args]
                shown = [v == (k.args[0] == "In") for k, v in p.pc.items() if k.tag == "cmp" and
                         k.args[0] in ("In", "NotIn") and k.args[1] is x and
                         show(k.args[2]).endswith("after_synonym")]
                ctx.ob("edges", what + " is a node", (none == [False] or ".created" in show(x) and not none
                       and "get" not in show(x)), "{} {}".format(show(x)[-60:], none), f.site)
                ctx.ob("edges", what + " is accepted", shown == [True], str(shown), f.site)
            deep = [len(set(re.findall(r"elem\(", show(x)))) and show(x).count("elem(") for x in (source, target)]
            ctx.ob("edges", "ends", source is not target and deep[0] < deep[1], "{} -> {}".format(
                show(source)[-80:], show(target)[-80:]), f.site)
    ctx.ob("edges", "made", made > 0, str(made), f.site)
    f, ps = paths(ctx, C + "add_dependency")
    for p in ps:
        ok = members(p, r"\.dependencies$")
        put = [e for e in p.events if e.kind == "setitem" and show(e.term).endswith(".dependencies")]
        g = ctx.project.func(C + "add_dependency")
        src, dst, at = [mk("param", x) for x in g.params()[1:4]]
        ctx.ob("edges", "filter", len(put) == (1 if ok == [True] else 0), "{} {}".format(ok, len(put)), f.site)
        for e in put:
            k = e.extra.args[0]
            ctx.ob("edges", "direction", k.tag == "tuple" and tuple(k.args) == (src, dst) and
                   e.extra.args[1] is at, show(k), f.site)
    ctx.need("edges", 7)


def steps(ctx):
    ctx.rule("steps", "the graph is built of all evaluations, dependencies and accesses: no step stops "
             "before the last of them or skips another than the root, and activations that have "
             "others are opened up to the depth that is asked for")
    for cls, names in (("Clusterizer", ("add_evaluation_node", "process_activation", "process_cluster", "dep_iter",
                                        "member_iter", "_create_evaluation_dependencies", "_all_nodes",
                                        "_fix_dependencies", "process_dependencies")),
                       ("DependencyClusterizer", ("process_cluster", "add_cluster_node")),
                       ("ActivationClusterizer", ("process_cluster",))):
        for name in names:
            f, ps = paths(ctx, "{}clusterizer:{}.{}".format(B, cls, name))
            for p in ps:
                for k, v in p.pc.items():
                    if k.tag == "niter":
                        ctx.ob("steps", "all of {}.{}".format(cls, name), not any(
                            x.tag == "item" and re.search(r"slice|:", show(x.args[1])) for x in subterms(k)),
                            show(k)[-80:], f.site)
            if name == "process_cluster":
                for p in ps:
                    n = [v for k, v in p.pc.items() if k.tag == "niter"]
                    root = [v == (k.args[0] == "Eq") for k, v in p.pc.items() if k.tag == "cmp" and
                            k.args[0] in ("Eq", "NotEq", "Is", "IsNot") and "elem(" in show(k)]
                    got = calls(p, "process_evaluation", "process_activation")
                    want = 1 if n and n[0] == 1 and root != [True] else 0
                    ctx.ob("steps", "{}:{}:{}".format(cls, n, root), len(got) == want, str(len(got)), f.site)
                    ctx.ob("steps", cls + " ranks", len(calls(p, "rank")) == 1, "", f.site)
    for cls, what in (("Clusterizer", "has_evaluations"), ("ActivationClusterizer", "has_activations")):
        f, ps = paths(ctx, "{}clusterizer:{}._activation_node_condition".format(B, cls))
        for p in ps:
            has = [v for k, v in p.pc.items() if show(k) in ("bool(activation.{})".format(what),
                                                             "activation." + what)]
            deep = [(k, v) for k, v in p.pc.items() if k.tag == "cmp"]
            for x in subterms(p.value):
                if x.tag == "cmp" and not deep:
                    neg = show(p.value).replace(" ", "").endswith(",False)") and p.value.tag != "cmp"
                    deep.append((x, not neg))
            for k, v in deep:
                # value of the path where the comparison is v (or the value is the comparison)
                a, b = k.args[1:]
                over = {"Gt": ("depth", "max"), "LtE": ("depth", "max"), "Lt": ("max", "depth"),
                        "GtE": ("max", "depth")}.get(k.args[0])
                kinds = tuple("max" if "max_depth" in show(x) else "depth" for x in (a, b))
                ok = over is not None and kinds == over and "1" in show(a if kinds[0] == "depth" else b)
                ctx.ob("steps", cls + " depth", ok, show(k), f.site)
            ctx.ob("steps", "{} {} of the activation".format(cls, what), has == [False] and not deep and
                   p.value is const(True) or has == [True] and len(deep) == 1,
                   "{} {} {}".format(has, len(deep), show(p.value)[:80]), f.site)
    f, ps = paths(ctx, C + "process_activation")
    for p in ps:
        none = [v == (k.args[0] in ("Is", "Eq")) for k, v in p.pc.items() if k.tag == "cmp" and
                const(None) in k.args and "process_access" not in show(k)]
        shown = [v for k, v in p.pc.items() if show(k).rstrip(")").endswith(".show_accesses")]
        want = none == [False] and shown == [True]
        got = calls(p, "recursive_accesses")
        ctx.ob("steps", "accesses {} {}".format(none, shown), len(got) == (1 if want else 0), str(len(got)), f.site)
        for k, v in p.pc.items():
            if k.tag == "niter" and v == 1:
                acc = calls(p, "process_access")
                hide = [b == (c.args[0] in ("Is", "Eq")) for c, b in p.pc.items() if c.tag == "cmp" and
                        const(None) in c.args and "process_access" in show(c)]
                added_ = [t for t in calls(p, "add") if "_arrows[" in show(t.args[0])]
                ctx.ob("steps", "node of the access", len(acc) == 1 and len(hide) == 1 and
                       not (hide[0] and added_), "{} {}".format(hide, len(added_)), f.site)
    f, ps = paths(ctx, C + "process_access")
    for p in ps:
        for t in calls(p, "add_node"):
            s = show(t)
            a = f.params()[1]
            ctx.ob("steps", "file access", "{0}.trial_id, {0}.id".format(a) in s, s[:200], f.site)
    ctx.need("steps", 20)


def escaped(t):
    """Whether t escapes the quotes of a text whose backslashes it has escaped before"""
    if t.tag != "call" or last(call_name(t)).split(".")[-1] != "replace" or \
            [a.args[1] for a in t.args[1] if is_const(a)] != ['"', '\\"']:
        return False
    return any(x.tag == "call" and last(call_name(x)).split(".")[-1] == "replace" and
               [a.args[1] for a in x.args[1] if is_const(a)] == ["\\", "\\\\"]
               for x in subterms(t.args[0]))


def texts(t, attrs_safe):
    """Texts of the trial in a term that are not escaped"""
    out = []

    def walk(x):
        if isinstance(x, T):
            if escaped(x) or attrs_safe and x.tag in ("call", "new") and \
                    last(call_name(x)).split(".")[-1].split("(")[0] == "Attributes":
                return
            if x.tag == "item" and escaped(x.args[0]) and not (
                    is_const(x.args[1]) and isinstance(x.args[1].args[1], str)):
                out.append(x)
                return
            if x.tag == "attr" and x.args[1] in TEXTS:
                out.append(x)
                return
            if x.tag == "call" and last(call_name(x)).split(".")[-1] == "get" and \
                    any(is_const(a) and a.args[1] in ("_key", "label") for a in x.args[1]):
                out.append(x)
                return
            for a in x.args:
                walk(a)
        elif isinstance(x, (tuple, list)):
            for a in x:
                walk(a)
    walk(t)
    return out


def quoted(ctx):
    ctx.rule("quoted", "texts of the trial that are written between quotes have their backslashes and "
             "quotes escaped, so that they end where the text ends")
    dot = ctx.project.func(B + "attributes:Attributes.dot")
    it = ctx.interp(loops=(0, 1))
    attrs_safe = True
    for p in returning(ctx.paths_of(it, dot)):
        if is_const(p.value):
            continue
        good = any(escaped(x) for x in subterms(p.value))
        ctx.ob("quoted", "attributes of nodes and edges", good, show(p.value)[:200], dot.site)
        attrs_safe = attrs_safe and good
    for mod, cls in (("dot_visitor", "DotVisitor"), ("prov_visitor", "ProvVisitor")):
        c = ctx.project.cls("{}{}:{}".format(B, mod, cls))
        for name, f in sorted(c.methods.items()):
            if name.startswith("__") or name in ("insert", "subgroup"):
                continue
            it = ctx.interp(loops=(0, 1), max_states=2000, opaque_fn=lambda g: g is not f and (
                g.name in ("insert", "subgroup", "visit") or
                g.name.startswith(("visit_", "create_", "process_")) or g.cls is not None and g.cls is not c and g.cls.name == "Attributes"))
            for p in returning(ctx.paths_of(it, f)):
                for t in calls(p, "insert"):
                    line = argument(t, "text", 0)
                    loose = texts(line, attrs_safe)
                    ctx.ob("quoted", "{}.{}:{}".format(cls, name, re.sub(r"\W.*", "", show(line)[4:30].strip("'\" "))),
                           not loose, ", ".join(show(x)[-60:] for x in loose), f.site)
    ctx.need("quoted", 12)


def declared(ctx):
    ctx.rule("declared", "every node of a cluster is written, every edge of the graph is written from its "
             "source to its target, and every kind of node has its own form")
    f = ctx.project.func(B + "dot_visitor:DotVisitor.visit_initial")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
    n = 0
    for p in returning(ctx.paths_of(it, f)):
        ins = [argument(t, "text", 0) for t in calls(p, "insert")]
        arrow = [x for x in ins if "->" in show(x)]
        cnt = [v for k, v in p.pc.items() if k.tag == "niter" and "dependencies" in show(k)]
        want = 0 if cnt and cnt[0] == 0 else 1
        ctx.ob("declared", "edges {}".format(want), len(arrow) == want, str(len(arrow)), f.site)
        ctx.ob("declared", "content", len(calls(p, "process_cluster_content")) == 1, "", f.site)
        for x in arrow:
            n += 1
            s = show(x)
            left, _, right = s.partition("->")
            right = right.split("]")[0] + "]" if "[0][" not in right else right
            which = [re.findall(r"dependencies\)+(?:\[0\])?\[(\d)\]", h) for h in (left, right)]
            ctx.ob("declared", "ends of edges", which[0] == ["0"] and which[1] == ["1"], s[:200], f.site)
    f = ctx.project.func(B + "dot_visitor:DotVisitor.process_cluster_content")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
    for p in returning(ctx.paths_of(it, f)):
        cnt = [v for k, v in p.pc.items() if k.tag == "niter" and ".elements" in show(k)]
        want = 0 if cnt and cnt[0] == 0 else 1
        got = calls(p, "visit")
        ctx.ob("declared", "nodes {}".format(want), len(got) == want and all(
            ".elements)" in show(argument(t, "node", 0)) for t in got), str(len(got)), f.site)
    f = ctx.project.func(B + "base_visitor:ClusterVisitor.__init__")
    kinds = {}
    for n in (n for n in ast.walk(f.node) if isinstance(n, ast.Dict)):
        for k, v in zip(n.keys, n.values):
            if isinstance(v, ast.Attribute):
                kinds[ast.unparse(k).split(".")[-1]] = v.attr
    for kind, want in (("ClusterNode", "visit_cluster"), ("EvaluationNode", "visit_evaluation"),
                       ("ActivationNode", "visit_activation"), ("AccessNode", "visit_access")):
        if kinds:
            ctx.ob("declared", kind, kinds.get(kind) == want, str(kinds), f.site)
    ctx.need("declared", 4)
