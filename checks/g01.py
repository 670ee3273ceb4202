"""G01: the graph of activations of a trial and its cache.

The loop that places activations, the creation of nodes and the steps that it is made of are
executed abstractly: the number of nodes that each activation of a path reaches is counted. The
function that the cache decorator returns is executed with every step that reads the cache failing.
"""
import ast

from vlib.absint import const, mk
from vlib.rules import *

RULES = ["placed", "steps", "trees", "whole", "created", "merged", "matched", "ordered", "modes", "cached", "failing", "keys"]
ASSUMPTIONS = ["Pickle gives back the result that was stored.",
               "The ids of the activations of a trial increase in the order of the calls."]
TG = "now.models.graphs.trial_graph"
DG = "now.models.graphs.diff_graph"
CACHE = "now.models.graphs.structures:prepare_cache"
STEPS = ("insert_node", "merge", "add_edge", "calculate_match")
FAILURES = ("KeyError", "OSError", "EOFError", "ValueError", "AttributeError")


def named(p, *names):
    return [e.term for e in p.events if e.kind in ("call", "new") and
            last(call_name(e.term)).split(".")[-1] in names]


def argument(t, name, pos):
    for k, v in t.args[2]:
        if k == name:
            return v
    return t.args[1][pos] if len(t.args[1]) > pos else None


def subclasses(ctx, name):
    out, todo = [], [name]
    while todo:
        c = todo.pop()
        for k in ctx.project.module(TG).classes.values():
            if c in [last(ast.unparse(b)).split(".")[-1] for b in k.node.bases]:
                out.append(k)
                todo.append(k.name)
    return out


def placed(ctx):
    ctx.rule("placed", "every activation that is traversed is merged into exactly one node: a new "
             "one, or one that matches it")
    f = ctx.project.func(TG + ":Summarization.__call__")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g.name in STEPS)
    it.keep_pc = True
    source = mk("param", f.params()[1])
    n = 0
    for p in ctx.paths_of(it, f):
        if p.outcome != "return":
            continue
        items = {t for k in p.pc for t in subterms(k) if t.tag == "elem" and t.args[0] is source}
        for x in items:
            n += 1
            got = [t for t in named(p, "insert_node") if argument(t, "activation", 0) is x] + \
                  [t for t in named(p, "merge") if argument(t, "activation", 1) is x]
            how = ", ".join(sorted("{} {}".format(show(k).replace(show(x), "call")[:60], v)
                                   for k, v in p.pc.items() if "caller_id" in show(k)))
            ctx.ob("placed", "activation when " + how.replace("self(Summarization)", "self")[:150],
                   len(got) == 1, "in {} nodes".format(len(got)), f.site)
    ctx.ob("placed", "paths", n > 3, str(n), f.site)
    ctx.need("placed", 4)


ORDERS = {"Lt": {"<"}, "LtE": {"<", "="}, "Gt": {">"}, "GtE": {">", "="}, "Eq": {"="},
          "NotEq": {"<", ">"}}
SWAPPED = {"<": ">", ">": "<", "=": "="}


def order(p, a, b):
    """How a may compare with b, given the facts of the path"""
    out = {"<", "=", ">"}
    for k, v in p.pc.items():
        if k.tag != "cmp" or k.args[0] not in ORDERS:
            continue
        got = ORDERS[k.args[0]] if v else {"<", "=", ">"} - ORDERS[k.args[0]]
        if (show(k.args[1]), show(k.args[2])) == (b, a):
            got = {SWAPPED[x] for x in got}
        elif (show(k.args[1]), show(k.args[2])) != (a, b):
            continue
        out &= got
    return out


def steps(ctx):
    ctx.rule("steps", "an activation whose caller is later than that of the last one is called by "
             "the last one; it follows it if they have the same caller, after the return from all "
             "activations of later callers")
    f = ctx.project.func(TG + ":Summarization.__call__")
    small = ("insert_call", "insert_sequence", "insert_return", "insert_first")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f, opaque_names=small)
    it.keep_pc = True
    source = mk("param", f.params()[1])
    want = {"insert_call": {">"}, "insert_sequence": {"="}, "insert_return": {"<"}}
    for p in returning(ctx.paths_of(it, f)):
        xs = {t for k in p.pc for t in subterms(k) if t.tag == "elem" and t.args[0] is source}
        for t in named(p, *small):
            what = last(call_name(t)).split(".")[-1]
            x = argument(t, "call", 0)
            if what == "insert_return":
                if not xs or ".insert_" in show(argument(t, "last", 0)) and \
                        "insert_return" not in show(argument(t, "last", 0)):
                    continue
                if any(contains(argument(t, "last", 0), y) for y in named(
                        p, "insert_call", "insert_sequence", "insert_first")):
                    continue
                before = []
                for e in p.events:
                    if e.term is t:
                        break
                    before.append(e)
                if any(e.kind == "call" and last(call_name(e.term)).split(".")[-1] in (
                        "insert_call", "insert_sequence", "insert_first") for e in before):
                    continue
                x = next(iter(xs))
                l = argument(t, "last", 0)
            elif what == "insert_first":
                v = truths(p, show(x) + ".caller_id")
                ctx.ob("steps", what, v is False, str(v), f.site)
                continue
            else:
                l = argument(t, "last", 1)
            got = order(p, show(x) + ".caller_id", show(l) + ".caller_id")
            if not got or got == {"<"} and what == "insert_sequence":
                continue         # the loop of returns has more steps than were executed
            ctx.ob("steps", what, got == want[what], "caller of the activation {} that of the last one"
                   .format("/".join(sorted(got))), f.site)
    ctx.need("steps", 4)


def truths(p, text):
    for k, v in p.pc.items():
        if show(k) in (text, "bool({})".format(text)):
            return v
    return None


def trees(ctx):
    ctx.rule("trees", "the edges of a tree join every node with each of its children, from the "
             "root down to the leaves")
    for name in ("TreeSummarization", "DefinitionSummarization"):
        f = ctx.project.func("{}:{}.__call__".format(TG, name))
        it = ctx.interp(loops=(0, 1, 2), max_states=3000, opaque_fn=lambda g: g is not f)
        it.keep_pc = True
        seen, below = 0, False
        for p in returning(ctx.paths_of(it, f)):
            edges = named(p, "add_edge")
            none = [v == (k.args[0] in ("Is", "Eq")) for k, v in p.pc.items() if k.tag == "cmp" and
                    const(None) in k.args and show(k).find(".root") >= 0]
            ctx.ob("trees", name + ":empty", not (edges and True in none),
                   "edges without a root", f.site)
            for e in edges:
                seen += 1
                source, target = argument(e, "source", 0), argument(e, "target", 1)
                ctx.ob("trees", name + ":edge", show(source) + ".children" in show(target)
                       and source is not target, show(e), f.site)
                below = below or ".children)" in show(source)
        ctx.ob("trees", name + ":below", below, "the children of the child are not visited", f.site)
        ctx.ob("trees", name + ":root", seen > 0, "no edge is made", f.site)
    ctx.need("trees", 6)


def whole(ctx):
    ctx.rule("whole", "all activations, components and children are traversed, not some of them")
    m = ctx.project.module(TG)
    n = 0
    for c in m.classes.values():
        for f in c.methods.values():
            for x in ast.walk(f.node):
                for it in [x.iter] if isinstance(x, (ast.For, ast.comprehension)) else []:
                    n += 1
                    part = [y for y in ast.walk(it) if isinstance(y, ast.Slice) and
                            (y.lower is not None or y.upper is not None) or
                            isinstance(y, ast.Call) and ast.unparse(y.func).split(".")[-1] == "islice"]
                    ctx.ob("whole", "{}:{}".format(f.name, ast.unparse(it)[:60]), not part,
                           ast.unparse(it), "{}:{}".format(m.path, it.lineno))
    ctx.need("whole", 8)


def created(ctx):
    ctx.rule("created", "a node that is created has its activation, its own index, and one place "
             "in the nodes and among the children of its parent")
    f = ctx.project.func(TG + ":Summarization.insert_node")
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g.name in STEPS and g is not f)
    it.keep_pc = True
    act, parent, match = [mk("param", n) for n in f.params()[1:4]]
    for p in returning(ctx.paths_of(it, f)):
        node = p.value
        here = "{} {}".format(*("without" if any(
            k.tag == "cmp" and const(None) in k.args and x in k.args and
            v == (k.args[0] in ("Is", "Eq")) for k, v in p.pc.items()) else "with"
            for x in (parent, match)))
        merges = [t for t in named(p, "merge") if argument(t, "node", 0) is node
                  and argument(t, "activation", 1) is act]
        ctx.ob("created", "activation of the node " + here, len(merges) == 1, str(len(merges)), f.site)
        adds = [show(t.args[0]) for t in named(p, "append") if t.args[1] and t.args[1][0] is node]
        nodes = [a for a in adds if a.endswith(").nodes.append")]
        kids = [a for a in adds if a == show(parent) + ".children.append"]
        given = here.startswith("with ")
        ctx.ob("created", "nodes " + here, len(nodes) == 1, str(adds), f.site)
        ctx.ob("created", "children " + here, len(kids) == (1 if given else 0), str(adds), f.site)
        stored = {e.extra.args[0]: e.extra.args[1] for e in p.events
                  if e.kind == "setattr" and e.term is node}
        if given:
            v = stored.get("parent_index")
            ctx.ob("created", "parent of the node " + here,
                   v is not None and show(v) == show(parent) + ".index", show(v), f.site)
            found = [e for e in p.events if e.kind == "setitem" and e.extra.args[1] is node and
                     e.extra.args[0] is match]
            want = here.endswith("with")
            ctx.ob("created", "match of the node " + here, len(found) == (1 if want else 0) and
                   all(show(e.term).endswith(".matches[{}.index]".format(show(parent)))
                       for e in found), str(found), f.site)
        index = [v for t in subterms(node) if t.tag in ("new", "call") for k, v in t.args[2]
                 if k == "index"]
        nid = [e.extra.args[1] for e in p.events if e.kind == "setattr" and e.extra.args[0] == "nid"]
        ctx.ob("created", "index of the node " + here, bool(index) and show(index[0]).endswith(").nid")
               and len(nid) == 1 and "1" in show(nid[0]) and "Add" in show(nid[0]),
               show(index[0]) if index else "none", f.site)
    ctx.need("created", 8)


def merged(ctx):
    ctx.rule("merged", "merging adds the activations and their durations to those of the node, "
             "under the trial they are of")
    n = 0
    for c in subclasses(ctx, "Summarization"):
        f = c.methods.get("merge")
        if f is None:
            continue
        n += 1
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
        it.keep_pc = True
        node, act = [mk("param", x) for x in f.params()[1:3]]
        for p in returning(ctx.paths_of(it, f)):
            counts = [v for k, v in p.pc.items() if k.tag == "niter"]
            want = 0 if counts and counts[0] == 0 else 1
            ids = [t for t in named(p, "append", "extend")
                   if show(t.args[0]).startswith(show(node) + ".activations[")]
            ok = len(ids) == want and all(contains(t.args[1][0], act) and (
                ".id" in show(t.args[1][0]) or "activations[" in show(t.args[1][0])) for t in ids)
            ctx.ob("merged", "{}:ids".format(c.name), ok, str([show(t) for t in ids]), f.site)
            time = [e for e in p.events if e.kind == "setitem" and
                    show(e.term) == show(node) + ".duration"]
            ok = len(time) == want and all(
                e.extra.args[1].tag == "binop" and e.extra.args[1].args[0] == "Add" and
                show(node) + ".duration[" in show(e.extra.args[1]) and
                show(act) + ".duration" in show(e.extra.args[1]) for e in time)
            ctx.ob("merged", "{}:duration".format(c.name), ok,
                   str([show(e.extra.args[1]) for e in time]), f.site)
            known = [v for k, v in p.pc.items() if k.tag == "cmp" and k.args[0] in ("In", "NotIn")
                     and show(k).find(show(node) + ".trial_ids") >= 0 for v in [v == (k.args[0] == "In")]]
            adds = [t for t in named(p, "append", "add") if show(t.args[0]).startswith(
                show(node) + ".trial_ids.")]
            if want:
                ctx.ob("merged", "{}:trial of the node".format(c.name), len(adds) == (
                    0 if True in known else 1), str([show(t) for t in adds]), f.site)
            keys = {show(e.extra.args[0]) for e in time}
            keys |= {show(t.args[0].args[0].args[1]) for t in ids
                     if t.args[0].tag in ("attr", "bound") and t.args[0].args[0].tag == "item"}
            ctx.ob("merged", "{}:trial".format(c.name), len(keys) <= 1 and all(
                "trial_id" in k for k in keys), str(keys), f.site)
    ctx.need("merged", 6)


KEYS = {"LineNameSummarization": {"line", "name"}, "StructureSummarization": {"repr"}}


def matched(ctx):
    ctx.rule("matched", "activations share a node only if they have the same line and name, or the "
             "same structure, and no activations share one in the tree and in the graph without matches")
    for name, want in sorted(KEYS.items()):
        f = ctx.project.func("{}:{}.calculate_match".format(TG, name))
        node = mk("param", f.params()[1])
        for p in returning(ctx.paths_of(ctx.interp(), f)):
            got = {t.args[1] for t in subterms(p.value) if t.tag == "attr" and t.args[0] is node}
            ctx.ob("matched", name, got == want, show(p.value), f.site)
    f = ctx.project.func(TG + ":NoMatchSummarization.calculate_match")
    for p in returning(ctx.paths_of(ctx.interp(), f)):
        names = {e.extra.args[0] for e in p.events if e.kind == "setattr"
                 and "Add" in show(e.extra.args[1])}
        ctx.ob("matched", "NoMatchSummarization", bool(names) and any(
            t.tag == "attr" and t.args[1] in names for t in subterms(p.value)) or
            any(p.value is e.extra.args[1] for e in p.events if e.kind == "setattr"),
            show(p.value), f.site)
    for name, place in (("insert_call", "index"), ("insert_sequence", "parent_index")):
        f = ctx.project.func("{}:Summarization.{}".format(TG, name))
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g.name in STEPS)
        it.keep_pc = True
        call, lastp = [mk("param", x) for x in f.params()[1:3]]
        for p in returning(ctx.paths_of(it, f)):
            match = [t for t in named(p, "calculate_match")]
            ctx.ob("matched", name + ":key", len(match) >= 1 and all(
                argument(t, "node", 0) is call for t in match), str(len(match)), f.site)
            made = named(p, "insert_node")
            merges = named(p, "merge")
            none = [v == (k.args[0] in ("Is", "Eq")) for k, v in p.pc.items() if k.tag == "cmp" and
                    const(None) in k.args and ".matches[" in show(k)]
            ctx.ob("matched", name + ":found", not none or bool(made) == (True in none) and
                   bool(merges) == (False in none), "created {} when there is none {}".format(
                       bool(made), none), f.site)
            key = ".matches[{}.{}]".format(show(lastp), place)
            if merges:
                node = argument(merges[0], "node", 0)
                ctx.ob("matched", name + ":node", key in show(node) and
                       any(contains(node, m) for m in match) and p.value is node, show(node), f.site)
            for t in made:
                par, m = argument(t, "parent", 1), argument(t, "match", 2)
                ok = (par is lastp if place == "index" else
                      show(par).endswith(".nodes[{}.parent_index]".format(show(lastp))))
                ctx.ob("matched", name + ":parent", ok and m in match and p.value is t,
                       "{} {}".format(show(par), show(m) if m is not None else None), f.site)
    ctx.need("matched", 8)


def ordered(ctx):
    ctx.rule("ordered", "the activations of the trial are traversed after their callers, each one "
             "before the activations called by others")
    c = ctx.project.cls(TG + ":TrialGraph")
    for name, f in sorted(c.methods.items()):
        if cached_name(f) is None:
            continue
        it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f and (
            g.module.name != TG or g.cls is not None and g.cls is not c))
        grouped, found = set(), False
        for p in ctx.paths_of(it, f):
            text = [show(k) for k in p.pc] + [show(e.term) for e in p.events] + [
                show(x) for e in p.events for x in getattr(e.extra, "args", ()) if isinstance(x, T)]
            for e in p.events:
                cls = last(call_name(e.term)).split(".")[-1] if e.kind in ("new", "call") else None
                if cls not in MODES.values() or cls == "DefinitionSummarization":
                    continue
                found = True
                src = argument(e.term, "preorder", 0)
                if src is None or show(src).endswith(".trial.activations"):
                    ctx.fail("ordered", name, show(src) if src is not None else "none", f.site)
                grouped |= {True for x in text if "caller_id" in x}
        if found:
            ctx.ob("ordered", name, bool(grouped), "callers are not considered", f.site)
    ctx.need("ordered", 4)


MODES = {"tree": "TreeSummarization", "no_match": "NoMatchSummarization",
         "exact_match": "StructureSummarization", "namespace_match": "LineNameSummarization",
         "definition_tree": "DefinitionSummarization"}


def cached_name(f):
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call) and d.args and isinstance(d.args[0], ast.Constant) and \
                isinstance(d.func, (ast.Name, ast.Attribute)):
            return d.args[0].value
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == "name" and isinstance(k.value, ast.Constant):
                    return k.value.value
    return None


def modes(ctx):
    ctx.rule("modes", "each mode is summarized its own way, from the trial (or from the same mode "
             "of the first and the second trial), and cached under its own name")
    for mod, cname in ((TG, "TrialGraph"), (DG, "DiffGraph")):
        c = ctx.project.cls("{}:{}".format(mod, cname))
        names = {}
        for mode, summary in sorted(MODES.items()):
            f = c.methods.get(mode)
            if f is None:
                ctx.fail("modes", "{}.{}".format(cname, mode), "there is no such mode", c.node.lineno)
                continue
            names.setdefault(cached_name(f), []).append(mode)
            it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g is not f)
            for p in returning(ctx.paths_of(it, f)):
                here = "{}.{}".format(cname, mode)
                if mod == TG:
                    used = [last(call_name(e.term)).split(".")[-1] for e in p.events
                            if e.kind in ("new", "call")]
                    ctx.ob("modes", here, [u for u in used if u in MODES.values()] == [summary],
                           str(used), f.site)
                    continue
                graphs = [show(e.term) for e in p.events
                          if e.kind == "call" and ".graph." in show(e.term.args[0])]
                ok = len(graphs) == 2 and all(
                    ".trial{}.graph.{}()".format(i, mode) in g for i, g in enumerate(graphs, 1))
                ctx.ob("modes", here, ok, str(graphs), f.site)
                made = named(p, "create_diff")
                ctx.ob("modes", here + ":order", len(made) == 1 and all(
                    ".trial{}.".format(i) in show(argument(made[0], "trial_graph%d" % i, i - 1))
                    for i in (1, 2)), str(graphs), f.site)
        for name, ms in sorted(names.items(), key=str):
            ctx.ob("modes", "{} cached as {}".format(cname, name), name is None or len(ms) == 1, str(ms),
                   c.methods[ms[0]].site)
    ctx.need("modes", 15)


def loaders(ctx, kwargs=(), raiser=None):
    """(paths, self, func, name, type) of the function that the decorator of cached graphs makes"""
    f = ctx.project.func(CACHE)
    opts = {"raiser": raiser} if raiser else {}
    it = ctx.interp(loops=(0, 1), opaque_fn=lambda g: g.module is not f.module, **opts)
    it.keep_pc = True
    out = []
    for a in ctx.paths_of(it, f):
        for b in it.run_value(a.value, [mk("param", "name"), mk("param", "attrs")], a.state):
            for c in it.run_value(b.value, [mk("param", "func")], b.state):
                out += it.run_value(c.value, [mk("param", "self")], c.state, kwargs)
    return f, out


READ = {"select_cache", "get", "loads"}


def is_graph(t):
    return isinstance(t, T) and t.tag == "call" and t.args[0] is mk("param", "func") and \
        t.args[1] and t.args[1][0] is mk("param", "self")


def cached(ctx):
    ctx.rule("cached", "the graph that is returned is the one of the cache only if the cache is used "
             "and its trial had finished; otherwise it is the graph that is calculated, which is "
             "stored for the next time")
    f, paths = loaders(ctx)
    for p in returning(paths):
        if is_graph(p.value):
            made = named(p, "create")
            puts = [t for t in named(p, "put") if t.args[1] and t.args[1][0].tag == "call" and
                    last(call_name(t.args[1][0])).split(".")[-1] == "dumps" and
                    t.args[1][0].args[1][0] is p.value]
            ctx.ob("cached", "stored", len(made) == 1 and len(puts) == 1 and
                   contains(argument(made[0], "hash_", 4), puts[0]) and
                   argument(made[0], "commit", 6) is const(True),
                   show(made[0]) if made else "not stored", f.site)
            order = [last(call_name(t)).split(".")[-1] for t in named(p, "remove", "create")]
            ctx.ob("cached", "replaced", order == ["remove", "create"], str(order), f.site)
            continue
        loads = [t for t in subterms(p.value) if t.tag == "call" and
                 last(call_name(t)).split(".")[-1] == "loads"]
        ctx.ob("cached", "value", p.value in loads and ".content_hash" in show(p.value) and
               "elem(" in show(p.value), show(p.value), f.site)
        done = use = False
        for k, v in p.pc.items():
            s = show(k)
            if s == "bool({}[0])".format(show(p.value)):
                done = v is True
            if s == "bool(self.use_cache)":
                use = v is True
        ctx.ob("cached", "finished", done, str([show(k) for k in p.pc]), f.site)
        ctx.ob("cached", "used", use, str([show(k) for k in p.pc]), f.site)
    for q in (p for p in paths if p.outcome == "raise"):
        ctx.fail("cached", "raises", show(q.value) if q.value is not None else "", f.site)
    ctx.need("cached", 5)
    for mod, cname in ((TG, "TrialGraph"),):
        g = ctx.project.func("{}:{}.result".format(mod, cname))
        for p in returning(ctx.paths_of(ctx.interp(), g)):
            first = p.value.args[0] if p.value.tag == "tuple" else None
            ctx.ob("cached", "state of the trial", first is not None and
                   show(first).endswith(".trial.finished"), show(p.value), g.site)


def failing(ctx):
    ctx.rule("failing", "a cache that cannot be read (content that was removed or is damaged, "
             "results of other versions, databases that fail) does not prevent the graph")
    for step in sorted(READ):
        for kind in FAILURES:
            def raiser(t):
                return (kind,) if last(call_name(t)).split(".")[-1] == step else ()
            f, paths = loaders(ctx, raiser=raiser)
            hit = [p for p in paths if any(e.kind == "raised" for e in p.events)]
            ctx.ob("failing", "{} fails with {}".format(step, kind), bool(hit) and all(
                p.outcome == "return" and is_graph(p.value) for p in hit),
                str({p.outcome for p in hit}), f.site)
    ctx.need("failing", 15)


def keys(ctx):
    ctx.rule("keys", "a graph is looked up and stored by its trials, its mode and its options, "
             "all of which are compared")
    f, paths = loaders(ctx)
    for p in paths:
        base = None
        for t in named(p, "select_cache", "remove", "create"):
            what = last(call_name(t)).split(".")[-1]
            typ = argument(t, "type_" if what == "create" else "gtype", 0)
            name = argument(t, "name", 1)
            attrs = argument(t, "attr", 3) if what == "create" else argument(t, "attributes", 2)
            ok = typ is not None and show(typ) == "get_type(self)" and name is mk("param", "name") and \
                attrs is not None
            ctx.ob("keys", what, ok, "{} {}".format(show(typ) if typ else None, show(name) if name else None),
                   f.site)
            key = (typ, name, attrs, argument(t, "session", 9))
            base = base or key
            ctx.ob("keys", what + ":same", key == base, str([show(x) for x in key if x is not None]), f.site)
    opt = mk("param", "option")
    f, paths = loaders(ctx, kwargs=[("option", opt)])
    for p in returning(paths):
        if any(k.tag == "niter" and v for k, v in p.pc.items() if "attrs" in show(k)):
            for t in named(p, "create"):
                s = show(argument(t, "attr", 3))
                has = [v == (k.args[0] == "In") for k, v in p.pc.items() if k.tag == "cmp" and
                       k.args[0] in ("In", "NotIn") and "attrs" in show(k)]
                if has:
                    ctx.ob("keys", "options", ("attrs" in s or "option" in s) == (True in has), s, f.site)
    for mod, want in ((TG, [".trial.id"]), (DG, [".trial1.id", ".trial2.id"])):
        m = ctx.project.module(mod)
        found = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and
                 ast.unparse(n.func).split(".")[-1] == "prepare_cache"]
        for n in found:
            arg = n.args[0] if n.args else n.keywords[0].value
            text = ast.unparse(arg)
            if isinstance(arg, ast.Name) and arg.id in m.funcs:
                text = ast.unparse(m.funcs[arg.id].node)
            places = [text.find(w) for w in want]
            ctx.ob("keys", mod.split(".")[-1], -1 not in places and places == sorted(places), text,
                   "{}:{}".format(m.path, n.lineno))
    q = ctx.project.func("now.persistence.models.graph_cache:GraphCache._query_select_cache")
    for p in returning(ctx.paths_of(ctx.interp(), q)):
        s = show(p.value)
        for par, col in zip(q.params()[1:4], ("type", "name", "attributes")):
            ok = any(t.tag == "cmp" and t.args[0] == "Eq" and mk("param", par) in t.args and
                     any(isinstance(x, T) and x.tag == "attr" and x.args[1] == col for x in t.args[1:])
                     for t in subterms(p.value))
            ctx.ob("keys", "compared:" + col, ok and "BitOr" not in s, s, q.site)
    ctx.need("keys", 8)
