"""The history graph: which trials it has, how far they are and what its edges join.

Each step of the construction is executed abstractly on its own (and together
with the functions it is extracted to); the facts below are decided on the
branch facts, the stores and the values of every path.
"""
import ast
import re

from vlib.absint import const, mk
from vlib.rules import *
from checks.common import parts
from checks.d03 import facts

RULES = ["cached", "composed", "distance", "shortest", "filtered", "edges", "summarized", "versions"]
ASSUMPTIONS = ["Trials are matched by the status and script that are stored in them."]
GM = "now.models.graphs.history_graph:"
G = GM + "HistoryGraph."
STEPS = ("history_data", "_load_trials", "_create_graph", "_summarize", "_calculate_distances",
         "_filter_graph", "_create_edges", "_edges", "_set_trials_level")
LOOSE = re.compile(r"^(list|tuple|reversed|sorted|iter)$|viewvalues$|^\.?values$")


def paths(ctx, q, loops=(0, 1), args=None):
    f = ctx.project.func(q)
    it = ctx.interp(loops=loops, opaque_fn=lambda g: g is not f and g.parent is None and g.name != "<lambda>",
                    opaque_names=STEPS)
    it.keep_pc = True
    return it, f, it.run(f, args=args) if args else it.run(f)


def short(t):
    return re.sub(r"self\(\w+\)", "self", show(t))


def stores(p, what=None):
    """[(object, key, value)] of the items that a path stores"""
    return [(e.term, e.extra.args[0], e.extra.args[1]) for e in p.events if e.kind == "setitem"]


def method_calls(p, name):
    return [e.term for e in p.events if e.kind in ("call", "new") and
            last(call_name(e.term)).split(".")[-1] == name]


def argument(t, name, pos):
    for k, v in t.args[2]:
        if k == name:
            return v
    return t.args[1][pos] if len(t.args[1]) > pos else None


def truth(p, pred):
    """The truth of the first condition whose text matches"""
    for k, v in facts(p).items():
        if pred(k):
            return v
    return None


def iterated(p):
    return all(v for c, v in p.pc.items() if c.tag == "niter")


def cached(ctx):
    ctx.rule("cached", "the cached history is used only for the same script, status, summarization "
                       "and experiment with the same number of trials")
    it, f, ps = paths(ctx, G + "history_data")
    keys = set()
    for p in ps:
        if p.outcome != "return":
            continue
        used = truth(p, lambda k: k.endswith("use_cache"))
        for obj, key, value in stores(p):
            if "cache" in show(obj):
                keys.add(key)
                ctx.ob("cached", "HistoryGraph.history_data store", value == p.value and used is True,
                       "the cache gets {} when the cache {} used".format(
                           short(value)[:100], "is" if used else "is not"), f.site)
        v = p.value
        got = v.tag in ("item", "getitem") and "cache" in show(v.args[0])
        if v.tag == "call" and last(call_name(v)).endswith("get") and "cache" in show(v):
            got = True
        if got:
            key = v.args[1] if v.tag != "call" else v.args[1][0]
            keys.add(key)
            ctx.ob("cached", "HistoryGraph.history_data read", used is True,
                   "the cached history is used although the cache is disabled", f.site)
    for key in keys:
        text = short(key)
        have = re.sub(r"count\([^)]*\)", "", text)
        for name in ("script", "status", "summarize", "expId"):
            ctx.ob("cached", "HistoryGraph.history_data key " + name,
                   "self.history." + name in have,
                   "the history is cached under {}, without the {}".format(text, name), f.site)
        counts = [t for t in subterms(key) if t.tag == "call" and
                  last(call_name(t)).split(".")[-1] == "count"]
        ctx.ob("cached", "HistoryGraph.history_data key count", any(
            short(argument(t, "expId", 1) or const(None)) == "self.history.expId" for t in counts),
            "the history is cached under {}, without the number of trials".format(text), f.site)
    ctx.ob("cached", "HistoryGraph.history_data one key", len(keys) <= 1,
           "the history is stored and read under different keys", f.site)
    ctx.need("cached", 1)


def composed(ctx):
    ctx.rule("composed", "the history has the trials of the experiment from the oldest to the newest "
                         "and the edges of the graph that is summarized, measured and filtered")
    it, f, ps = paths(ctx, G + "history_data")
    for p in ps:
        if p.outcome != "return" or p.value.tag != "dict":
            continue
        d = {pr.args[0].args[1] if pr.args[0].tag == "const" else show(pr.args[0]): pr.args[1]
             for pr in p.value.args if pr.tag == "pair"}
        c = {n: method_calls(p, n) for n in STEPS}
        if not all(len(c[n]) == 1 for n in STEPS[1:7]):
            continue
        load, create, summ, dist, filt, edge = [c[n][0] for n in STEPS[1:7]]
        trials = argument(load, "trial_gen", 0)
        limit = argument(trials, "limit", 0) if trials.tag == "call" else None
        ctx.ob("composed", "HistoryGraph.history_data trials",
               trials.tag == "call" and call_name(trials).endswith("reverse_trials") and
               short(argument(trials, "expId", 2) or const(None)) == "self.history.expId" and
               (limit is None or limit.tag != "const" or limit.args[1] is None or
                limit.args[1] >= 1000000),
               "the trials are " + short(trials), f.site)
        item = lambda t, n: mk("item", t, const(n))
        same = lambda a, b: a is not None and show(a) == show(b)
        created = [show(create)]
        ctx.ob("composed", "HistoryGraph.history_data graph",
               same(argument(create, "trial_map", 0), load) and
               same(argument(summ, "graph", 1), create) and same(argument(summ, "trial_map", 0), load),
               "the graph is summarized from " + short(summ)[:200], f.site)
        tmap, graph = show(summ) + "[0]", show(summ) + "[1]"
        ctx.ob("composed", "HistoryGraph.history_data distances",
               show(argument(dist, "graph", 0)) == graph,
               "the distances are calculated in " + short(dist)[:200], f.site)
        order = [last(call_name(e.term)).split(".")[-1] for e in p.events if e.kind == "call"]
        ctx.ob("composed", "HistoryGraph.history_data order",
               order.index("_summarize") < order.index("_calculate_distances") <
               order.index("_filter_graph") < order.index("_create_edges"),
               "the steps run in the order " + ", ".join(o for o in order if o in STEPS), f.site)
        ctx.ob("composed", "HistoryGraph.history_data filter",
               show(argument(filt, "trial_map", 0)) == tmap and
               show(argument(filt, "graph", 1)) == graph,
               "the filtered graph is " + short(filt)[:200], f.site)
        ctx.ob("composed", "HistoryGraph.history_data edges",
               show(argument(edge, "graph", 0)) == graph and
               show(argument(edge, "nodes", 1)) == show(filt) + "[0]" and
               show(argument(edge, "trial_map", 2)) == tmap,
               "the edges are created from " + short(edge)[:200], f.site)
        ctx.ob("composed", "HistoryGraph.history_data result",
               show(d.get("nodes", const(None))) == show(filt) + "[0]" and
               show(d.get("edges", const(None))) == show(edge) + "[0]",
               "the result is " + short(p.value)[:200], f.site)
    it, f, ps = paths(ctx, G + "_load_trials")
    for p in ps:
        if p.outcome != "return" or not iterated(p):
            continue
        s = [(show(k), show(v)) for o, k, v in stores(p)]
        ctx.ob("composed", "HistoryGraph._load_trials", any(
            k == "elem(trial_gen).id" and v == "elem(trial_gen)" for k, v in s),
            "a trial is not kept under its id ({})".format(s), f.site)
    ctx.need("composed", 3)


def matrix(o, k):
    """(graph, row, column) of graph[row][column] = ..."""
    if o.tag in ("item", "getitem"):
        return show(o.args[0]), show(o.args[1]), show(k)
    return None, show(o), show(k)


def distance(ctx):
    ctx.rule("distance", "a trial is at distance 0 of itself and 1 of its parent in the history")
    it, f, ps = paths(ctx, G + "_create_graph")
    for p in ps:
        if p.outcome != "return" or not iterated(p):
            continue
        cells = {matrix(o, k)[1:]: v for o, k, v in stores(p)}
        ids = {r for r, c in cells}
        own = {r for r, c in cells if r == c}
        ctx.ob("distance", "HistoryGraph._create_graph self",
               len(own) == 1 and all(cells[(r, r)] == const(0) for r in own),
               "the distances of a trial are {}".format(
                   {k: show(v) for k, v in cells.items()}), f.site)
        have = facts(p)
        none = truth(p, lambda k: k.endswith(".parent_id Is None") or k.endswith(".parent_id is None"))
        if none is None:
            v = truth(p, lambda k: k.endswith(".parent_id"))
            none = None if v is None else not v
        inside = truth(p, lambda k: re.search(r"parent_id (In|in) (trial_map|.*keys\(\))", k))
        edges = {k: v for k, v in cells.items() if k[0] != k[1]}
        if none is True or inside is False:
            ctx.ob("distance", "HistoryGraph._create_graph no parent", not edges,
                   "a trial without a parent in the history gets the distances {}".format(
                       sorted(edges)), f.site)
            continue
        ctx.ob("distance", "HistoryGraph._create_graph known parent", inside is True,
               "the parent of a trial is used when it is not in the history", f.site)
        ctx.ob("distance", "HistoryGraph._create_graph parent",
               len(edges) == 1 and all(c == r[:-len(".id")] + ".parent_id" and v == const(1)
                                       for (r, c), v in edges.items()),
               "the distances of a trial with a parent are {}".format(
                   {k: show(v) for k, v in edges.items()}), f.site)
    # The distances that are not known are infinite
    for p in ps:
        if p.outcome != "return":
            continue
        v = p.value
        if v.tag == "call" and call_name(v).endswith("defaultdict") and v.args[1]:
            inner = v.args[1][0]
            values = set()
            for q in ctx.closure_paths(it, inner, [], p.state) if inner.tag in ("closure", "func") else []:
                d = q.value
                if d.tag == "call" and call_name(d).endswith("defaultdict") and d.args[1]:
                    values |= {show(r.value) for r in ctx.closure_paths(it, d.args[1][0], [], q.state)}
            for x in values:
                ctx.ob("distance", "HistoryGraph._create_graph unknown", "inf" in x.lower() or
                       x == "MAX_IN_GRAPH", "unknown distances are " + x, f.site)
    ctx.need("distance", 2)


def indexes(node):
    """(base, first index, second index) of base[a][b]"""
    if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Subscript):
        return (ast.unparse(node.value.value), ast.unparse(node.value.slice), ast.unparse(node.slice))
    return None


def shortest(ctx):
    ctx.rule("shortest", "distances go through every intermediate trial: the intermediate is the "
                         "outermost of three loops over all the trials of the graph")
    f = ctx.project.func(G + "_calculate_distances")
    updates = []

    def visit(node, loops):
        for child in ast.iter_child_nodes(node):
            inner = loops
            if isinstance(child, (ast.For, ast.While)):
                inner = loops + [child]
            if isinstance(child, ast.Assign) and indexes(child.targets[0]):
                updates.append((child, loops))
            visit(child, inner)
    visit(f.node, [])
    for assign, loops in updates:
        base, i, j = indexes(assign.targets[0])
        sums = [n for n in ast.walk(f.node) if isinstance(n, ast.BinOp) and
                indexes(n.left) and indexes(n.right)]
        for n in sums:
            if n not in ast.walk(assign) and not isinstance(assign.value, ast.Name) and \
                    any(m in sums for m in ast.walk(assign)):
                continue
            a, b = indexes(n.left), indexes(n.right)
            if a[1] != i:
                a, b = b, a
            ok = isinstance(n.op, ast.Add) and a[1] == i and b[2] == j and a[2] == b[1]
            ctx.ob("shortest", "HistoryGraph._calculate_distances sum", ok,
                   "the distance from {} to {} is {}".format(i, j, ast.unparse(n)),
                   "{}:{}".format(f.site.split(":")[0], n.lineno))
            if not ok:
                continue
            names = [ast.unparse(x.target) for x in loops if isinstance(x, ast.For)]
            k = a[2]
            if not all(x in names for x in (i, j, k)):
                continue
            ctx.ob("shortest", "HistoryGraph._calculate_distances loops",
                   names.index(k) < names.index(i) and names.index(k) < names.index(j),
                   "the intermediate {} is bound by loop {} of {}".format(k, names.index(k) + 1, names),
                   "{}:{}".format(f.site.split(":")[0], n.lineno))
    it, f, ps = paths(ctx, G + "_calculate_distances")
    for p in ps:
        if p.outcome != "return" or not iterated(p):
            continue
        s = stores(p)
        for c, v in p.pc.items():
            if c.tag != "cmp" or c.args[0] not in ("Gt", "Lt", "GtE", "LtE"):
                continue
            op, l, r = c.args
            plus = [x.tag == "binop" for x in (l, r)]
            if plus[0] == plus[1]:
                continue
            if plus[0]:
                op = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE"}[op]
            # op compares the known distance with the sum
            longer = {"Gt": v, "GtE": v, "Lt": not v, "LtE": not v}[op]
            strict = (op == "Gt") == bool(v) if op in ("Gt", "LtE") else None
            ctx.ob("shortest", "HistoryGraph._calculate_distances " +
                   ("shorter" if longer else "keep"), bool(s) == longer,
                   "the distance is {} when {} is {}".format(
                       "replaced" if s else "kept", short(c)[:150], v), f.site)
    ctx.need("shortest", 0)


def filtered(ctx):
    ctx.rule("filtered", "a trial is shown iff it matches the status and the script; the shown are "
                         "numbered from the oldest, and no trial is near a hidden one")
    it, f, ps = paths(ctx, G + "_filter_graph")
    for p in ps:
        if p.outcome != "return" or not any(c.tag == "niter" and v and "values" in show(c)
                                            for c, v in p.pc.items()):
            continue
        conds = {}
        for c in list(p.pc):
            for t in subterms(c):
                if t.tag == "call" and last(call_name(t)).split(".")[-1] in (
                        "match_status", "match_script") and c.tag != "niter":
                    conds[last(call_name(t)).split(".")[-1]] = (t, p.pc[c] if c.tag != "bool" else
                                                               p.pc[c] == c.args[1])
        for n, (t, v) in conds.items():
            want = {"match_status": "self.history.status.lower()",
                    "match_script": "self.history.script"}[n]
            ctx.ob("filtered", "HistoryGraph._filter_graph " + n,
                   short(t.args[1][0] if t.args[1] else t.args[2][0][1]) == want,
                   "a trial is matched by " + short(t)[:200], f.site)
        shown = all(n in conds and facts_true(p, conds[n][0]) for n in ("match_status", "match_script"))
        nodes = p.value.args[0] if p.value.tag == "tuple" else p.value
        has = [a for a in nodes.args] if nodes.tag == "list" else []
        ctx.ob("filtered", "HistoryGraph._filter_graph " + ("shown" if shown else "hidden"),
               bool(has) == shown,
               "a trial is {} when {}".format("shown" if has else "hidden", {
                   n: facts_true(p, t) for n, (t, v) in conds.items()}), f.site)
        far = [(matrix(o, k), v) for o, k, v in stores(p) if o.tag in ("item", "getitem")]
        if shown:
            ctx.ob("filtered", "HistoryGraph._filter_graph kept", not far,
                   "the distances to a trial that is shown are changed", f.site)
            nid = [e.extra.args[1] for e in p.events if e.kind == "setattr" and
                   e.extra.args[0] == "nid"]
            ctx.ob("filtered", "HistoryGraph._filter_graph number", len(nid) == 1 and
                   (nid[0] == const(0) or nid[0].tag != "const"),
                   "the number of the first trial that is shown is {}".format(
                       [show(x) for x in nid]), f.site)
        elif all(v for c, v in p.pc.items() if c.tag == "niter"):
            ctx.ob("filtered", "HistoryGraph._filter_graph hidden number", not any(
                e.kind == "aug" and e.term == const(0) for e in p.events),
                "a hidden trial has a number", f.site)
            ctx.ob("filtered", "HistoryGraph._filter_graph far", len(far) == 1 and all(
                g == "graph" and re.match(r"elem\((trial_map|graph)(\.keys\(\))?\)$", r) and
                c.endswith(".id") and "inf" in str(v.args).lower() + show(v).lower() or
                show(v) == "MAX_IN_GRAPH" and g == "graph" and
                re.match(r"elem\((trial_map|graph)(\.keys\(\))?\)$", r) and c.endswith(".id")
                for (g, r, c), v in far),
                "the distances to a hidden trial are {}".format(
                    [(x, show(v)) for x, v in far]), f.site)
    # From the oldest to the newest: the map is from the newest to the oldest
    for p in ps:
        for c, v in p.pc.items():
            if c.tag == "niter" and "values" in show(c) and v:
                ctx.ob("filtered", "HistoryGraph._filter_graph order",
                       sum(reversals(g.node) for g in parts(f)) % 2 == 1,
                       "the trials are not numbered from the oldest to the newest", f.site)
    it, f, ps = paths(ctx, G + "_filter_graph", loops=(2,))
    for p in ps:
        nid = [e.extra.args[1] for e in p.events if e.kind == "setattr" and e.extra.args[0] == "nid"]
        if p.outcome == "return" and len(nid) == 2:
            ctx.ob("filtered", "HistoryGraph._filter_graph count", nid == [const(0), const(1)] or
                   not all(x.tag == "const" for x in nid),
                   "two shown trials are numbered {}".format([show(x) for x in nid]), f.site)
    for cls in ("Trial",):
        for name, field in (("match_status", "status"), ("match_script", "script")):
            q = "now.persistence.models.trial:Trial." + name
            it, f, ps = paths(ctx, q, args={name[6:]: const("*")})
            for p in ps:
                if p.outcome == "return":
                    ctx.ob("filtered", "Trial.{} any".format(name), known(p.value) is True,
                           "* matches {}".format(short(p.value)), f.site)
            it, f, ps = paths(ctx, q)
            for p in ps:
                if p.outcome != "return":
                    continue
                star = truth(p, lambda k: "'*'" in k)
                if not star and "'*'" not in show(p.value):
                    ctx.ob("filtered", "Trial.{}".format(name), set(re.findall(
                        r"[\w.]+", short(p.value))) - {"bool", "Eq", "True"} <= {
                            "self." + field, field} and "Eq" in short(p.value) and
                        "False" not in short(p.value) or p.value.tag == "const",
                        "a trial matches if " + short(p.value), f.site)
    for name in ("match_status", "match_script"):
        it, f, ps = paths(ctx, GM + "Node." + name)
        for p in ps:
            if p.outcome != "return":
                continue
            m = [t for c in p.pc for t in subterms(c) if t.tag == "call" and
                 last(call_name(t)).split(".")[-1].startswith("match_")]
            ctx.ob("filtered", "Node.{} by".format(name), all(
                last(call_name(t)).split(".")[-1] == name and
                show(t.args[1][0] if t.args[1] else t.args[2][0][1]) == name[6:] for t in m),
                "the trials of a node are matched by {}".format([short(t) for t in m]), f.site)
            kept = [e.extra.args[1] for e in p.events if e.kind == "setattr" and
                    e.extra.args[0] == "trials"]
            some = bool(m) and facts_true(p, m[0])
            if p.value.tag == "const":
                ctx.ob("filtered", "Node.{} {}".format(name, "some" if some else "none"),
                       p.value.args[1] is some and (not some or bool(kept)),
                       "a node {} when {} of its trials match".format(
                           "is shown" if p.value.args[1] else "is hidden",
                           "some" if some else "none"), f.site)
    ctx.need("filtered", 3)


def known(t):
    """The truth of a term whose comparisons have only constants"""
    if t.tag == "const":
        return t.args[1]
    if t.tag == "bool":
        v = known(t.args[0])
        return v if v is None else bool(v) == bool(t.args[1])
    if t.tag == "truth":
        return known(t.args[0])
    if t.tag == "cmp" and t.args[0] == "In" and t.args[2].tag in ("tuple", "list", "set") and \
            t.args[1] in t.args[2].args:
        return True
    return None


def facts_true(p, term):
    for c, v in p.pc.items():
        if c == term:
            return bool(v)
        if c.tag in ("truth",) and c.args[0] == term:
            return bool(v)
        if c.tag == "bool" and c.args[0] == term:
            return bool(v) == bool(c.args[1])
    return None


def reversals(node):
    n = 0
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "reversed":
            n += 1
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "reverse":
            n += 1
        if isinstance(x, ast.Slice) and x.step is not None and ast.unparse(x.step) == "-1":
            n += 1
    return n


def edges(ctx):
    ctx.rule("edges", "each shown trial has an edge to its nearest shown ancestor, if it has one, "
                      "and edges join the numbers of the trials")
    it, f, ps = paths(ctx, G + "_edges")
    for p in ps:
        if p.outcome != "return" or not iterated(p):
            continue
        ys = [e.term for e in p.events if e.kind == "yield"]
        near = [t for e in p.events for t in subterms(e.term) if t.tag == "call" and
                call_name(t) == "min"] if p.events else []
        far = None
        for c, v in p.pc.items():
            if c.tag == "cmp" and ("MAX_IN_GRAPH" in show(c) or "inf" in show(c)):
                far = bool(v) if c.args[0] in ("Eq", "GtE") else (not v)
        if far is not None:
            ctx.ob("edges", "HistoryGraph._edges " + ("far" if far else "near"),
                   len(ys) == (0 if far else 1),
                   "{} edges for a trial whose nearest one is {}".format(
                       len(ys), "infinitely far" if far else "near"), f.site)
        for y in ys:
            ctx.ob("edges", "HistoryGraph._edges guard", far is False,
                   "an edge to a trial that may be infinitely far", f.site)
            if y.tag != "tuple" or len(y.args) != 2:
                continue
            src, tgt = y.args
            ctx.ob("edges", "HistoryGraph._edges source",
                   re.match(r"elem\(.*nodes.*\)\.id$", show(src)) is not None,
                   "an edge starts in " + show(src)[:100], f.site)
            if tgt.tag != "call" or call_name(tgt) not in ("min", "max"):
                continue
            ctx.ob("edges", "HistoryGraph._edges nearest", call_name(tgt) == "min" and
                   show(tgt.args[1][0]) == "graph[{}]".format(show(src)),
                   "an edge ends in " + show(tgt)[:200], f.site)
            key = dict(tgt.args[2]).get("key")
            if key is None or key.tag not in ("closure", "func"):
                continue
            x = mk("param", "x")
            for q in ctx.closure_paths(it, key, [x], p.state):
                own = None
                for c, v in q.pc.items():
                    if c not in p.pc and c.tag == "cmp" and c.args[0] == "Eq":
                        own = bool(v)
                if own is None:
                    for c, v in q.pc.items():
                        if c.tag == "cmp" and c.args[0] == "Eq" and "x" in (
                                show(c.args[1]), show(c.args[2])):
                            own = bool(v)
                val = show(q.value)
                if own is None:
                    own = False
                    ctx.ob("edges", "HistoryGraph._edges not itself", False,
                           "the trial itself is a candidate to be its nearest one", f.site)
                ctx.ob("edges", "HistoryGraph._edges " + ("itself" if own else "other"),
                       ("inf" in val or val == "MAX_IN_GRAPH") if own else
                       re.match(r"(graph\[.*\]|\w+)\[x\]$", val) is not None,
                       "the distance that is compared is " + val[:200], f.site)
    it, f, ps = paths(ctx, G + "_create_edges")
    for p in ps:
        if p.outcome != "return" or not iterated(p) or p.value.tag != "tuple":
            continue
        ec = method_calls(p, "_edges")
        if len(ec) != 1:
            continue
        ctx.ob("edges", "HistoryGraph._create_edges of",
               show(argument(ec[0], "graph", 0)) == "graph" and
               show(argument(ec[0], "nodes", 1)) == "nodes",
               "the edges are " + short(ec[0])[:200], f.site)
        pairs = [t for t in subterms(p.value) if t.tag == "pair" and t.args[0].tag == "const"]
        d = {t.args[0].args[1]: t.args[1] for t in pairs}
        for name, i in (("source", 0), ("target", 1)):
            if name in d:
                ctx.ob("edges", "HistoryGraph._create_edges " + name,
                       re.match(r"trial_map\[elem\(.*\)\[%d\]\]\.nid$" % i, show(d[name])) is not None,
                       "the {} of an edge is {}".format(name, short(d[name])[:200]), f.site)
        s = [(show(k)[-3:], show(v)[-3:]) for o, k, v in stores(p)]
        if s:
            ctx.ob("edges", "HistoryGraph._create_edges actual", s == [("[0]", "[1]")],
                   "the edge of a trial is stored as {}".format(s), f.site)
        for t in method_calls(p, "append"):
            if "[" in show(t.args[0]) and t.args[1]:
                base = show(t.args[0])
                if base.count("elem(") and "defaultdict" in base:
                    ctx.ob("edges", "HistoryGraph._create_edges children",
                           re.search(r"\[1\]\]\.?(append)?", base) is not None and
                           show(t.args[1][0]).endswith("[0]"),
                           "the children are " + short(t)[:200], f.site)
    ctx.need("edges", 2)


def summarized(ctx):
    ctx.rule("summarized", "each trial with an automatic tag is in the node of the first two numbers "
                           "of its tag, and nodes are as near as their nearest trials")
    it, f, ps = paths(ctx, G + "_summarize")
    seen = 0
    for p in ps:
        if p.outcome != "return":
            continue
        have = facts(p)
        tags = method_calls(p, "auto_tags")
        inside = truth(p, lambda k: re.search(
            r"trial_id (In|in) trial_map|^trial_map\.get\(|^get\(", k))
        summ = truth(p, lambda k: k.endswith("summarize"))
        inserts = method_calls(p, "insert")
        tagged = any(c.tag == "niter" and v and "auto_tags" in show(c) for c, v in p.pc.items())
        if summ is False and p.value.tag == "tuple":
            ctx.ob("summarized", "HistoryGraph._summarize disabled",
                   [show(x) for x in p.value.args] == ["trial_map", "graph"],
                   "the trials that are not summarized are " + short(p.value)[:200], f.site)
        if summ is True and p.value.tag == "tuple":
            ctx.ob("summarized", "HistoryGraph._summarize enabled",
                   "graph" not in [show(x) for x in p.value.args] and
                   "trial_map" not in [show(x) for x in p.value.args],
                   "the summarized trials are " + short(p.value)[:200], f.site)
        if tagged and inside is False:
            ctx.ob("summarized", "HistoryGraph._summarize outside", not inserts,
                   "a tag of a trial that is not in the history is used", f.site)
            continue
        if not tagged:
            continue
        ctx.ob("summarized", "HistoryGraph._summarize inside", inside is True,
               "the tag of a trial is used when the trial is not in the history", f.site)
        versions = {show(argument(e.term, "numbers", 0)) for e in p.events if e.kind == "new" and
                    call_name(e.term).endswith("Version")}
        for v in versions:
            ctx.ob("summarized", "HistoryGraph._summarize node",
                   re.search(r"\.name\.split\('\.'\)\[slice\(None, 2, None\)\]$", v) is not None,
                   "the node of a trial is " + v[-120:], f.site)
        ctx.ob("summarized", "HistoryGraph._summarize insert", len(inserts) == 1 and
               re.match(r"trial_map(\[|\.get\().*\.trial_id(, None)?[\])]$", show(argument(inserts[0], "trial", 0)))
               is not None,
               "the trials that are inserted in the node are {}".format(
                   [short(t)[:150] for t in inserts]), f.site)
        shown = [e for e in p.events if e.kind == "setattr" and e.extra.args[0] == "display"]
        ctx.ob("summarized", "HistoryGraph._summarize display", any(
            show(e.extra.args[1]).endswith(".name") and
            re.match(r"trial_map(\[|\.get\().*\.trial_id(, None)?[\])]$", show(e.term)) for e in shown),
            "the label of a trial is {}".format([show(e.extra.args[1])[:100] for e in shown]), f.site)
        for o, k, v in stores(p):
            if v.tag == "call" and call_name(v) in ("min", "max"):
                ctx.ob("summarized", "HistoryGraph._summarize distance", call_name(v) == "min",
                       "the distance of two nodes is " + short(v)[:100], f.site)
    ctx.need("summarized", 2)


def versions(ctx):
    ctx.rule("versions", "versions are compared by their first different number, and the shorter of "
                         "two equal ones is smaller")
    it, f, ps = paths(ctx, GM + "Version.__gt__")
    for p in ps:
        if p.outcome != "return":
            continue
        none = {}
        same = None
        text = {}
        for c, v in p.pc.items():
            s = show(c)
            if c.tag == "cmp" and c.args[0] == "Is" and show(c.args[2]) == "None":
                i = 0 if show(c.args[1]).endswith("[0]") else 1
                none[i] = bool(v)
            elif c.tag == "cmp" and c.args[0] == "Eq" and "None" not in s:
                same = bool(v)
            elif "startswith" in s or "isinstance" in s:
                text[s] = bool(v)
        if same or not iterated(p):
            ctx.ob("versions", "Version.__gt__ equal", p.value == const(False),
                   "equal versions are compared as " + short(p.value)[:100], f.site)
            continue
        if none.get(0):
            ctx.ob("versions", "Version.__gt__ shorter", p.value == const(False) or
                   re.search(r"\[1\] Is None\)", show(p.value)) is not None,
                   "a shorter version is greater", f.site)
        elif none.get(1):
            ctx.ob("versions", "Version.__gt__ longer", p.value == const(True),
                   "a longer version is not greater", f.site)
        elif p.value.tag == "const" and text:
            beta = {i: [v for k, v in text.items() if "[%d]" % i in k] for i in (0, 1)}
            beta = {i: bool(v) and all(v) for i, v in beta.items()}
            if beta[0] != beta[1]:
                ctx.ob("versions", "Version.__gt__ beta", p.value == const(beta[1]),
                       "a beta version is {} than another one".format(
                           "greater" if beta[0] == p.value.args[1] else "smaller"), f.site)
        elif p.value.tag in ("cmp", "bool", "truth"):
            t, sign = p.value, True
            while t.tag in ("bool", "truth"):
                if t.tag == "bool":
                    sign = sign == bool(t.args[1])
                t = t.args[0]
            if t.tag != "cmp":
                continue
            op = t.args[0]
            l, r = show(t.args[1]), show(t.args[2])
            first = re.match(r"float\(.*\)\)\[0\](\[slice\(1, None, None\)\])?\)$", l) is not None
            if not sign:
                op = {"Gt": "LtE", "Lt": "GtE", "GtE": "Lt", "LtE": "Gt"}.get(op, op)
            if not first:
                op = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE"}.get(op, op)
            ctx.ob("versions", "Version.__gt__ numbers", op in ("Gt", "GtE") and
                   "float" in l and "float" in r,
                   "versions are compared by " + short(p.value)[:200], f.site)
    it, f, ps = paths(ctx, GM + "Version.__eq__")
    for p in ps:
        if p.outcome == "return":
            ctx.ob("versions", "Version.__eq__", set(re.findall(r"[\w.()]+", short(p.value))) >= {
                "other.numbers"} or "other.numbers" in short(p.value) and "False" not in
                short(p.value), "versions are equal if " + short(p.value), f.site)
    it, f, ps = paths(ctx, GM + "Version.__hash__")
    for p in ps:
        if p.outcome == "return":
            ctx.ob("versions", "Version.__hash__", "numbers" in short(p.value),
                   "the hash of a version is " + short(p.value), f.site)
    ctx.need("versions", 2)
