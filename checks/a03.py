"""Recording of one construct never disturbs the recording around it.

Each hook opens and closes records on a stack of its activation. Every path of
every hook is interpreted abstractly and its net effect on that stack is
computed. It may not depend on the path, and over the hooks that an emitted
construct combines the effects must cancel out. The hooks that are emitted must
exist and accept what they get, each argument in the role in which the
Collector uses it.
"""
import ast

from vlib.rules import *
from vlib import hooks as hk
from vlib import visitors as vs
from checks import a02
from checks.common import accepts

RULES = ["balanced", "arity", "roles"]
ASSUMPTIONS = ["An exception of the script leaves open records, which its handler discards "
               "(collect_exception); normal paths are balanced.",
               "The branch of Python 3.8 and later of version tests is taken."]
STACK = "dependencies"
OPENERS = {"append": 1, "pop": -1, "insert": 1}
HEAVY = hk.HEAVY - {"call"}
VARIABLE = {"collect_exception"}      # discards up to its handler


def activation_of(base):
    if base.tag == "param":
        return True
    if base.tag == "attr" and base.args[1] in ("activation", "last_activation"):
        return True
    if base.tag == "item":        # unpacked from the index of an access
        return not any(x.tag == "attr" and x.args[1] == STACK for x in subterms(base))
    return False


def net(path):
    n = 0
    for e in path.events:
        if e.kind != "call":
            continue
        fn = e.term.args[0] if e.term.tag == "call" else None
        if isinstance(fn, T) and fn.tag == "attr" and fn.args[1] in OPENERS and \
                isinstance(fn.args[0], T) and fn.args[0].tag == "attr" and \
                fn.args[0].args[1] == STACK and activation_of(fn.args[0].args[0]):
            n += OPENERS[fn.args[1]]
    return n


def interp(ctx, f):
    def opaque(fi):
        if fi is f or fi.parent is not None or fi.cls is None:
            return False
        return fi.name in HEAVY - {f.name} or fi.cls.name in ("DependencyAware", "Assign") or \
            fi.name.startswith("_repr")
    big = len(list(ast.walk(f.node))) > 900
    return ctx.interp(loops=(1,) if big else (0, 1), max_states=60 if big else 2000,
                      opaque_fn=opaque)


def version(node, val=True):
    """Static value of a test of the version of Python, or None"""
    if isinstance(node, ast.Constant):
        return bool(node.value)
    if isinstance(node, ast.Name) and node.id.startswith("PY3"):
        return True
    if isinstance(node, ast.Name) and node.id.startswith("PY2"):
        return False
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        v = version(node.operand)
        return None if v is None else not v
    return None


def defaults_of(func, given):
    """Static values of the parameters that a construct leaves to their defaults"""
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        v = version(d)
        if v is not None and (given is None or names.index(n) > given):
            out[n] = v
    return out


def feasible(path, defaults, lam):
    for t, val in path.pc.items():
        if t.tag in ("truth", "bool", "cond"):
            x = next((y for y in t.args if isinstance(y, T)), t)
            want = None
            if x.tag == "param" and x.args[0] in defaults:
                want = defaults[x.args[0]]
            elif show(x).split(".")[-1].startswith("PY3"):
                want = True
            if want is not None and bool(val) != want:
                return False
        if "<lambda>" in show(t) and val is not None and t.tag == "cmp":
            eq = t.args[0] in ("Eq", "==")
            if bool(val) != (lam if eq else not lam):
                return False
    return True


class Effects(object):
    def __init__(self, ctx):
        self.ctx, self.cache, self.totals = ctx, {}, {}

    def paths(self, f):
        if f not in self.cache:
            it = interp(self.ctx, f)
            ps = [p for p in self.ctx.paths_of(it, f)]
            if f.name == "__getitem__":
                ps = [p for p in ps if p.outcome != "return" or a02.access_kind(p) is not None]
            if f.name == "__setitem__":
                ps = [p for p in ps if p.outcome != "return" or
                      any(e.kind in ("setitem", "setattr") for e in p.events)]
            self.cache[f] = (it, ps)
        return self.cache[f]

    def of(self, f, lam, given=None, depth=0):
        """Possible net effects of f and of what it hands back, once called"""
        it, ps = self.paths(f)
        d = defaults_of(f, given)
        out = set()
        for p in ps:
            if p.outcome != "return" or not feasible(p, d, lam):
                continue
            n = net(p)
            v = p.value
            if v is not None and v.tag == "bound" and isinstance(v.args[1], type(f)) and depth < 3:
                if f.name not in ("match_arguments",):
                    out |= {("bound", n, v.args[1])}
                    continue
            if v is not None and v.tag in ("closure", "func") and v.args[0] is not None and \
                    getattr(v.args[0], "parent", None) is not None:
                for fi, q in a02.nested_paths(self.ctx, it, v, p, depth=2):
                    if q.outcome == "return" and feasible(q, {}, lam):
                        out.add(("done", net(q), None))
                continue
            if v is not None and v.tag == "param" and v.args[0] == "self" or show(v) == "self(Collector)":
                out.add(("self", n, None))
                continue
            out.add(("done", n, None))
        return out

    def total(self, name, second, lam):
        """Net effects of a hook that a construct calls completely"""
        key = (name, None if second is None else len(second), lam)
        if key not in self.totals:
            self.totals[key] = self.compute(name, second, lam)
        return self.totals[key]

    def compute(self, name, second, lam):
        ci = self.ctx.project.cls(hk.COLLECTOR)
        f = ci.find_method(name)
        if f is None:
            return set()
        out = set()
        work = [(n, kind, g, 1) for kind, n, g in self.of(f, lam)]
        while work:
            n, kind, g, level = work.pop()
            if kind == "done":
                out.add(n)
            elif kind == "self":
                for m in ("__getitem__", "__setitem__"):
                    for k2, n2, g2 in self.of(ci.find_method(m), lam):
                        out.add(n + n2)
            elif kind == "bound":
                given = len(second) if second is not None and level == 1 else None
                for k2, n2, g2 in self.of(g, lam, given):
                    if level < 3:
                        work.append((n + n2, k2, g2, level + 1))
        return out


def emitted(ctx):
    values = hk.Values(ctx)
    for e in vs.all_emissions(ctx):
        er = e.check(values)
        yield e, er


def balanced(ctx):
    ctx.rule("balanced", "over the hooks of a construct, what is opened is closed, on every path")
    fx = Effects(ctx)
    names = set()
    seen = {}
    for e, er in emitted(ctx):
        hooks = [h for h in er.hooks if isinstance(h[0], str)]
        lam = "Lambda" in e.func.name
        key = (e.func.name, lam, tuple((h[0], None if h[2] is None else len(h[2])) for h in hooks))
        if key in seen:
            continue
        seen[key] = True
        totals = {0}
        for h in hooks:
            if h[0] in VARIABLE:
                continue
            t = fx.total(h[0], h[2], lam)
            names.add((h[0], lam, None if h[2] is None else len(h[2])))
            totals = {a + b for a in totals for b in t} if t else totals
        if hooks:
            ctx.ob("balanced", "{} with {}".format(e.func.short, ", ".join(
                sorted({h[0] for h in hooks}))), totals == {0},
                "the open records change by {}".format(sorted(totals)), e.func.site)
    for name, lam, n in sorted(names, key=str):
        f = ctx.project.cls(hk.COLLECTOR).find_method(name)
        t = fx.total(name, [None] * n if n is not None else None, lam)
        ctx.ob("balanced", "paths of " + name + (" for lambdas" if lam else ""), len(t) == 1,
               "the number of open records depends on the path: {}".format(sorted(t)), f.site)
    ctx.need("balanced", 40)


def arity(ctx):
    ctx.rule("arity", "an emitted hook exists in the Collector and accepts its arguments")
    ci = ctx.project.cls(hk.COLLECTOR)
    for e, er in emitted(ctx):
        for name, first, second in er.hooks:
            if not isinstance(name, str):
                continue
            f = ci.find_method(name)
            ctx.ob("arity", "{} in {}".format(name, e.func.short), f is not None,
                   "the Collector has no such hook", e.func.site)
            if f is None:
                continue
            known = [a for a in first if a.tag not in ("star",)]
            ctx.ob("arity", "{} in {}".format(name, e.func.short),
                   accepts(f.node, len(known), []) or len(known) != len(first),
                   "{} arguments for {}".format(len(first), f.short), e.func.site)
            h = hk.summary(ctx, name)
            if second is not None and h is not None and h.after_func is not None:
                known = [a for a in second if a.tag not in ("star",)]
                ctx.ob("arity", "{}() in {}".format(name, e.func.short),
                       accepts(h.after_func.node, len(known), []) or len(known) != len(second),
                       "{} arguments for {}".format(len(second), h.after_func.short), e.func.site)
    ctx.need("arity", 60)


ACT_ATTRS = {"dependencies", "active", "context", "assignments", "conditions", "evaluation",
             "permanent_conditions"}
COMPONENT = ("create_code_component", "create_code_block", "_ast_num_from_component_id")


def roles_of(ctx, name, cache={}):
    """{phase: {index: role}} by the way in which the Collector uses the parameters"""
    key = (id(ctx), name)
    if key in cache:
        return cache[key]
    h = hk.summary(ctx, name)
    out = {}
    if h is not None:
        for phase, paths, params in ((0, h.before, h.params), (1, h.after, h.after_params)):
            if not paths:
                continue
            r = out.setdefault(phase, {})
            for p in paths:
                for e in p.events:
                    terms = [e.term] if isinstance(e.term, T) else []
                    for t in terms:
                        for x in subterms(t):
                            if x.tag == "attr" and x.args[0].tag == "param" and \
                                    x.args[1] in ACT_ATTRS and x.args[0].args[0] in params:
                                r.setdefault(params.index(x.args[0].args[0]), set()).add(
                                    x.args[1])
                            if x.tag in ("call", "new"):
                                kws = dict(x.args[2]) if x.tag == "call" else \
                                    dict(x.args[2]) if len(x.args) > 2 else {}
                                for k, role in (("exc_handler", "exc"), ("code_id", "code"),
                                                ("code_component_id", "code"),
                                                ("activation", "activation")):
                                    v = kws.get(k)
                                    if v is not None and v.tag == "param" and v.args[0] in params:
                                        r.setdefault(params.index(v.args[0]), set()).add(role)
    for r in out.values():
        for i, used in list(r.items()):
            if used & ACT_ATTRS - {STACK} or "activation" in used:
                r[i] = "activation"       # dependencies alone: a record or an activation
            elif "exc" in used or "code" in used:
                r[i] = "exc" if "exc" in used else "code"
            else:
                del r[i]
    cache[key] = out
    return out


def role_ok(role, t):
    text = show(t)
    if role == "activation":
        return text.startswith("activation(") or "__now_activation__" in text
    if role == "exc":
        return "exc_handler" in text or t.tag == "const" or "float('inf')" in text or \
            "exc" in text
    if role == "code":
        return "current_exc_handler" not in text.split("(")[1:2] and "create_exc_handler" not in text \
            and not text.endswith(".current_exc_handler)") and not text.startswith("activation(")
    return True


def roles(ctx):
    ctx.rule("roles", "the arguments of an emitted hook are what the Collector takes them for")
    for e, er in emitted(ctx):
        for name, first, second in er.hooks:
            if not isinstance(name, str):
                continue
            rs = roles_of(ctx, name)
            for phase, args in ((0, first), (1, second)):
                for i, role in rs.get(phase, {}).items():
                    if args is None or i >= len(args) or \
                            any(a.tag == "star" for a in args[:i + 1]):
                        continue
                    ctx.ob("roles", "{}{} #{} in {}".format(name, "()" * phase, i, e.func.short),
                           role_ok(role, args[i]),
                           "{} is passed as {}".format(show(args[i])[:120], role), e.func.site)
    ctx.need("roles", 60)
