"""Required effects of functions: what they call, store and return, with data from
where, and under which conditions.

An effect is a call of a function of the project (or of a method of a value that
the function does not create), an attribute or item that is stored, a value that is
returned or yielded, or an exception.  Its sources are the parameters, attributes,
constants and functions that its operands come from on an abstract path; how they
are combined, named or ordered does not matter.  Its conditions are the facts that
hold on every path that has the effect.

`spec/effects/<property>.json` has the effects that implement a property.  A
function breaks the specification if no path has one of them with (at least) its
sources, or if a path has it where one of its conditions does not hold or where
nothing that depends on the sources of the condition was decided.
"""
import ast
import json
import os
import signal

from .absint import T, call_name
from checks.common import nested_classes

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = set("""len str repr int float bool list dict set tuple frozenset sorted reversed enumerate zip
min max sum any all isinstance issubclass hasattr getattr iter next range format join split rsplit strip lstrip
rstrip startswith endswith lower upper items keys values viewitems viewkeys viewvalues iteritems itervalues
get copy deepcopy encode decode replace OrderedDict defaultdict namedtuple type id callable chain zip_longest
print print_msg partial cast map filter sort reverse capitalize title splitlines vars super property abs round
setdefault index count eqc proxy literal_eval unicode bytes hash islice debug warning info error warn
fetchall all first one scalar label""".split())
OUTER = set("""acquire release terminate task_done apply_async start Thread Process Pool Manager Lock
JoinableQueue Popen run check_output check_call kill insert wait post request setattr delattr open write read remove rename makedirs rmtree unlink copyfile exec execute executemany commit
rollback flush system exit chdir put delete add_argument connect dumps loads close""".split())
PUT = {"append": "put", "extend": "put", "add": "put", "update": "put", "insert": "put"}
TEXT = (" ", "\n", "\t")


class Sources(object):
    def __init__(self, func, known):
        self.memo = {}
        self.known = known
        names = func.params()
        self.index = {n: "p{}".format(i) for i, n in enumerate(names)}

    def of(self, t):
        if not isinstance(t, T):
            return frozenset()
        got = self.memo.get(t)
        if got is None:
            self.memo[t] = frozenset()
            got = self.memo[t] = frozenset(self.compute(t))
        return got

    def many(self, ts):
        out = set()
        for t in ts:
            out |= self.of(t)
        return out

    def compute(self, t):
        tag, a = t.tag, t.args
        if tag == "param":
            n = str(a[0])
            return {self.index.get(n, n)}
        if tag == "self":
            return {"self"}
        if tag == "const":
            v = a[1]
            if isinstance(v, str):
                if not v or any(c in v for c in TEXT) or not any(c.isalnum() for c in v):
                    return set()
                return {repr(v)}
            if v is None or isinstance(v, (bool, int, float, bytes)):
                return {repr(v)}
            return set()
        if tag == "attr":
            return {"." + a[1]} | self.of(a[0])
        if tag == "bound":
            return {"." + a[1].name} | self.of(a[0])
        if tag == "func" and (a[0].parent is not None or a[0].name == "<lambda>"):
            return set()
        if tag in ("func", "class"):
            return {"f:" + a[0].name}
        if tag in ("ext", "builtin", "name", "gvar"):
            n = str(a[-1] if tag == "gvar" else a[0]).rsplit(".", 1)[-1]
            return {"g:" + n} if tag == "gvar" else set()
        if tag == "new":
            return {"f:" + a[0].name} | self.operands(t)
        if tag == "call":
            n = call_name(t).rsplit(".", 1)[-1]
            fn = a[0]
            out = self.operands(t)
            if fn.tag in ("bound", "attr"):
                out |= self.of(fn.args[0])
            if fn.tag == "func" and fn.args[0].parent is not None:
                pass
            elif n in self.known and n not in PURE and n != "<lambda>":
                out |= {"f:" + n}
            elif fn.tag not in ("func", "bound", "attr", "ext", "builtin", "name", "gvar"):
                out |= self.of(fn)
            return out
        if tag == "binop":
            return self.many(a[1:]) | ({"op:" + str(a[0])} if a[0] in ("Sub", "Div", "BitAnd") else set())
        if tag in ("cmp", "bool", "truth"):
            op, toks, sign = self.literal(t, True)
            return set(toks)
        if tag in ("closure", "lambda"):
            return set()
        return self.many(x for x in _flat(a))

    def operands(self, t):
        out = set()
        for x in t.args[1:]:
            out |= self.many(_flat((x,)))
        return out

    def literal(self, c, value):
        """(operation, sources, truth) of a condition"""
        sign = bool(value)
        while True:
            if c.tag == "bool":
                sign = sign == bool(c.args[1])
                c = c.args[0]
            elif c.tag == "truth":
                c = c.args[0]
            else:
                break
        if c.tag == "niter":
            return "some", self.of(c.args[0]), sign
        if c.tag == "cmp" and len(c.args) == 3:
            op, l, r = c.args
            if op in ("NotEq", "IsNot", "NotIn"):
                op, sign = op[3:] if op != "IsNot" else "Is", not sign
            if op in ("Is", "Eq") and r.tag == "const" and r.args[1] is None:
                return "some", self.of(l), not sign
            if op in ("Is", "Eq"):
                return "Eq", self.of(l) | self.of(r), sign
            if op == "In":
                return "In", self.of(l) | self.of(r), sign
            return "order", self.of(l) | self.of(r), True
        if c.tag == "call" and call_name(c) == "isinstance":
            return "isinstance", self.operands(c), sign
        return "some", self.of(c), sign


def _flat(xs):
    for x in xs:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _flat(x):
                yield y


def local(t):
    """A container that the function creates"""
    while True:
        if t.tag in ("item", "elem"):
            t = t.args[0]
        elif t.tag == "call" and t.args[0].tag == "attr":
            t = t.args[0].args[0]
        else:
            break
    return t.tag in ("list", "dict", "set", "tuple", "const") or t.tag == "call" and t.args[0].tag in (
        "ext", "builtin", "name", "gvar")


def event_effects(src, p, names):
    """[(kind, name, {operand: sources})]"""
    out = []
    for e in p.events:
        t = e.term
        if e.kind in ("call", "new"):
            n = call_name(t).rsplit(".", 1)[-1]
            if n in PURE:
                continue
            slots = {}
            fn = t.args[0]
            project = e.kind == "new" or fn.tag in ("func", "bound")
            if not project and fn.tag == "attr" and fn.args[0].tag in ("list", "dict", "set"):
                continue
            if e.kind == "call" and fn.tag in ("attr", "bound"):
                slots["of"] = src.of(fn.args[0])
            elif not project and fn.tag not in ("ext", "builtin", "name", "gvar"):
                slots["of"] = src.of(fn)
                n = ""
            for i, x in enumerate(t.args[1]):
                slots[str(i)] = src.many(_flat((x,)))
            names_of = []
            g = fn.args[0] if isinstance(fn, T) and fn.tag == "func" else \
                fn.args[1] if isinstance(fn, T) and fn.tag == "bound" else None
            if g is not None and hasattr(g, "params"):
                names_of = [x for x in g.params() if x not in ("self", "cls")]
            for k, x in t.args[2]:
                at = "#{}".format(names_of.index(k)) if k in names_of else ""
                slots[str(k) + at] = src.of(x)
            if not project and n not in OUTER and not (
                    fn.tag == "attr" and PUT.get(n, n) in names):
                continue
            out.append(("call", PUT.get(n, n), slots))
        elif e.kind == "setattr":
            k, v = e.extra.args
            k = k if isinstance(k, str) else str(k.args[-1])
            out.append(("store", "." + k, {"of": src.of(t), "value": src.of(v)}))
        elif e.kind == "setitem":
            k, v = e.extra.args
            if local(t):
                continue
            out.append(("store", "item", {"of": src.of(t), "key": src.of(k), "value": src.of(v)}))
        elif e.kind == "delitem" and not local(t):
            out.append(("store", "del", {"of": src.of(t)}))
        elif e.kind == "yield":
            out.append(("yield", "", {"value": src.of(t)}))
    if p.outcome == "raise":
        v = p.value
        n = ""
        if isinstance(v, T):
            n = v.args[0].name if v.tag in ("new", "class") else call_name(v) if v.tag == "call" else ""
        if n:
            out.append(("raise", n.rsplit(".", 1)[-1], {}))
    elif p.outcome == "return" and isinstance(p.value, T):
        if p.value.tag not in ("cmp", "bool", "truth"):
            s = src.of(p.value)
            if s - {"None"}:
                out.append(("return", "", {"value": s}))
    return out


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def known_names(ctx):
    got = getattr(ctx.project, "effect_names", None)
    if got is None:
        got = ctx.project.effect_names = {f.name for f in ctx.project.all_funcs()} | {
            c.name for m in ctx.project.modules.values() for c in m.classes.values()} | {"put"}
    return got


def summary(ctx, f, limit=None):
    """[(effects, literals)] of the paths of a function"""
    names = known_names(ctx)
    for loops in ((0, 1), (1,)):
        it = ctx.interp(loops=loops, max_states=1500, opaque_fn=lambda g: g is not f and
                        g.parent is None and g.name != "<lambda>")
        it.keep_pc = True
        if limit:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            paths = it.run(f)
        finally:
            if limit:
                signal.setitimer(signal.ITIMER_REAL, 0)
        if not it.truncated:
            break
    else:
        return None
    src = Sources(f, names | OUTER)
    out = []
    for p in paths:
        lits = set()
        for c, v in p.pc.items():
            if c.tag == "niter" or c.tag == "call" and call_name(c) == "eqc":
                continue
            op, toks, sign = src.literal(c, v)
            if "g:version_info" in toks or op == "order":
                continue
            if toks:
                lits.add((op, frozenset(toks), sign))
        es = event_effects(src, p, names)
        v = p.value
        if p.outcome == "return" and isinstance(v, T) and v.tag in ("cmp", "bool", "truth"):
            op, toks, sign = src.literal(v, True)
            for value in (True, False):
                more = {(op, frozenset(toks), sign == value)} if toks and op != "order" else set()
                out.append((es + [("return", "", {"value": frozenset([repr(value)])})], lits | more))
        else:
            out.append((es, lits))
    return out


def covers(have, want):
    """The effect has the sources that are wanted"""
    if have[0] != want[0] or have[1] != want[1]:
        return False
    for slot, toks in want[2].items():
        toks = set(toks) - {"None"}
        if not toks or toks <= {"0", "1"} and want[0] == "store":
            continue
        if toks <= set(have[2].get(slot, ())):
            continue
        name, _, at = slot.partition("#")       # the parameter, or its position
        if not any(toks <= set(v) for k, v in have[2].items() if k.partition("#")[0] == name or
                   at and k.partition("#")[2] == at):
            return False
    return True


def signature(e):
    return (e[0], e[1], tuple(sorted((k, tuple(sorted(v))) for k, v in e[2].items())))


def specify(paths):
    """The effects of the paths, with the conditions that hold whenever they happen"""
    effects = {}
    for es, _ in paths:
        for e in es:
            effects.setdefault(signature(e), e)
    out = []
    for sig in sorted(effects):
        e = effects[sig]
        guards = None
        for es, lits in paths:
            if any(covers(x, e) for x in es):
                guards = set(lits) if guards is None else guards & lits
        for g in list(guards):          # decided both ways
            if (g[0], g[1], not g[2]) in guards and g[0] != "order":
                guards.discard(g)
                guards.discard((g[0], g[1], not g[2]))
        out.append({"kind": e[0], "name": e[1],
                    "from": {k: " ".join(sorted(v)) for k, v in sorted(e[2].items())},
                    "when": sorted([o, " ".join(sorted(t)), s] for o, t, s in guards)})
    for o, t in sorted((o, sorted(t)) for o, t in decisions(paths)):
        out.append({"kind": "decide", "name": o, "from": {"on": " ".join(t)}, "when": []})
    return out


def decisions(paths):
    """What a function decides about, in any way"""
    return {(o, t) for _, lits in paths for o, t, s in lits if any(x[0] in "p.s" for x in t)}


def text(e):
    return "{} {}({})".format(e["kind"], e["name"], ", ".join(
        "{}: {}".format(k, v) for k, v in e["from"].items())).strip()


def identifiers(ctx):
    """The names that the code base still has"""
    got = getattr(ctx.project, "effect_identifiers", None)
    if got is None:
        got = ctx.project.effect_identifiers = set(known_names(ctx))
        for m in ctx.project.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    got.add(n.attr)
                elif isinstance(n, ast.Name):
                    got.add(n.id)
                elif isinstance(n, ast.keyword):
                    got.add(n.arg)
    return got


def alive(ctx, toks):
    """Without what was renamed in the whole code base"""
    names = identifiers(ctx)
    return {t for t in toks if not (t[:1] == "." and t[1:] not in names or
                                    t[:2] in ("f:", "g:") and t[2:] not in names)}


def functions(ctx):
    """{name: function}, with the methods of the classes that functions define"""
    got = getattr(ctx.project, "effect_functions", None)
    if got is None:
        got = ctx.project.effect_functions = {}
        for f in ctx.project.all_funcs():
            q = f.module.name.replace("noworkflow.", "", 1) + ":" + f.short
            got.setdefault(q, f)
            for c in nested_classes(f):
                for n, g in c.methods.items():
                    got.setdefault("{}>{}.{}".format(q, c.name, n), g)
    return got


def load(prop):
    path = os.path.join(VERIF, "spec", "effects", prop + ".json")
    if not os.path.exists(path):
        return {}
    with open(path) as fil:
        return json.load(fil)


def check(ctx):
    spec = load(ctx.prop)
    if not spec:
        return
    ctx.rule("effects", "the functions that implement the property have their effects: calls, stores "
                        "and results with data from their sources, under their conditions")
    names = known_names(ctx)
    for qual, effects in sorted(spec.items()):
        f = functions(ctx).get(qual)
        if f is None:
            continue
        paths = summary(ctx, f)
        if paths is None:
            continue
        made = decisions(paths)
        for e in effects:
            want = (e["kind"], e["name"], {k: alive(ctx, v.split()) for k, v in e["from"].items()})
            if e.get("project") and e["name"] not in names:
                continue
            label = "{} {}".format(f.short, text(e))[:160]
            if e["kind"] == "decide":
                toks = want[2]["on"] - {"None"}
                ctx.ob("effects", label, any(o == e["name"] and toks <= t for o, t in made),
                       "nothing depends on it", f.site)
                continue
            having = [(es, lits) for es, lits in paths if any(covers(x, want) for x in es)]
            if not ctx.ob("effects", label, bool(having), "no path has this effect", f.site):
                continue
            bad = None
            for op, toks, sign in e["when"]:
                toks = frozenset(alive(ctx, toks.split()))
                against = [(op, toks, not sign) in lits and (op, toks, sign) not in lits for es, lits in having]
                if all(against) if e["kind"] == "return" else any(against):
                    bad = "it happens where [{} {}] is {}".format(op, " ".join(sorted(toks)), not sign)
                    break
                known = set()
                for es, lits in having:
                    for o, t, s in lits:
                        known |= t
                if not toks - {"None"} <= known:
                    bad = "it happens without a decision on [{} {}]".format(op, " ".join(sorted(toks)))
                    break
            ctx.ob("effects", label + " when", bad is None, bad or "", f.site)
