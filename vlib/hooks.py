"""What the hooks of the Collector do, by abstract interpretation."""
from .absint import T, mk, param, show, arg, call_name, is_const, subterms
from .rules import returning, last

COLLECTOR = "now.collection.prov_execution.collector:Collector"
# large records that are never part of what a hook hands back
HEAVY = {"assign", "assign_single", "assign_access", "assign_multiple", "match_arguments",
         "evaluate", "evaluate_type", "add_type", "lookup", "store", "time", "get_value",
         "make_dependencies", "create_dependencies", "create_dependencies_id",
         "create_argument_dependencies", "find_reference_dependency", "sub_dependency",
         "start_activation", "close_activation", "dry_activation", "collect_exception",
         "after_dict_item", "eval_dep", "evaluate_depa", "remove_conditions",
         "reset_conditions", "full_member_lookup", "simple_member_lookup", "put_file",
         "call", "_loop_generator", "normalize_index"}


class Hook(object):
    """before: paths of the hook; after: paths of the callable that it returns"""

    def __init__(self, name, func):
        self.name, self.func = name, func
        self.before, self.after, self.after_func = [], None, None
        self.params, self.after_params = [], None
        self.after_value = None


def interp(ctx, loops=(0, 1), opaque=HEAVY, **kw):
    def opq(fi):
        return fi.parent is None and fi.cls is not None and fi.name in opaque or \
            fi.cls is not None and fi.cls.name in ("DependencyAware", "Assign")
    return ctx.interp(loops=loops, max_states=4000, opaque_fn=opq, **kw)


def method(ci, name):
    return ci.find_method(name)


def params(func):
    return [a.arg for a in func.node.args.posonlyargs + func.node.args.args][1:]


def summary(ctx, name, heavy=HEAVY):
    cache = getattr(ctx, "_hooks", None)
    if cache is None:
        cache = ctx._hooks = {}
    if name in cache:
        return cache[name]
    ci = ctx.project.cls(COLLECTOR)
    f = method(ci, name)
    if f is None:
        cache[name] = None
        return None
    h = Hook(name, f)
    h.params = params(f)
    skip = heavy - {name}
    if name == "match_arguments":     # only records: what it hands back is enough
        it = interp(ctx, loops=(0,), opaque=skip)
        it.max_states = 100
        h.before = it.run(f)
    else:
        h.before = ctx.paths_of(interp(ctx, opaque=skip), f)
    values = {p.value for p in h.before if p.outcome == "return"}
    if len(values) == 1:
        v = next(iter(values))
        if v.tag == "bound":
            g = v.args[1]
            h.after_func = g
            h.after_params = params(g)
            h.after = ctx.paths_of(interp(ctx, opaque=skip - {g.name}), g)
        elif v.tag == "closure":
            h.after_value = v
    cache[name] = h
    return h


def returned_param(paths, names):
    """Index of the parameter that every path hands back, or None"""
    idx = set()
    for p in paths:
        if p.outcome != "return":
            continue
        if p.value.tag == "param" and p.value.args[0] in names:
            idx.add(names.index(p.value.args[0]))
        else:
            return None
    return idx.pop() if len(idx) == 1 else None


def value_index(ctx, name, second):
    """Which argument of the hook is the value that the program gets"""
    h = summary(ctx, name)
    if h is None:
        return None
    if not second:
        i = returned_param(h.before, h.params)
        if i is not None:
            return i
        if h.after is not None:       # call(..., func, ...)(*args)
            return called_param(h)
        return None
    if h.after is not None:
        i = returned_param(h.after, h.after_params)
        if i is not None:
            return i
        return handed_to(h)
    return None


def called_param(h):
    """Parameter of a hook that what it hands back calls"""
    idx = set()
    for p in h.before:
        if p.outcome != "return":
            continue
        found = set()
        for e in p.events:
            if e.kind == "new" and last(call_name(e.term)) == "FutureActivation":
                v = arg(e.term, "func", 3)
                if v is not None and v.tag == "param" and v.args[0] in h.params:
                    found.add(h.params.index(v.args[0]))
        idx.add(frozenset(found))
    if len(idx) == 1 and len(next(iter(idx))) == 1:
        return next(iter(next(iter(idx))))
    return None


def handed_to(h):
    """Parameter that is wrapped by what the hook hands back: an object that
    delegates to it (with), a generator over it (for), the function that calls
    it (call), its truth value (conditions of comprehensions)"""
    idx = set()
    for p in h.after:
        if p.outcome != "return":
            continue
        found = set()
        v = p.value
        for x in wrapped(v):
            if x.tag == "param" and x.args[0] in h.after_params:
                found.add(h.after_params.index(x.args[0]))
        # a parameter that names the value, by what the wrapper does with it
        idx.add(frozenset(found))
    idx = {i for i in idx}
    if len(idx) == 1:
        one = next(iter(idx))
        if len(one) == 1:
            return next(iter(one))
    return None


WRAPPERS = {"WithContext": "context", "_loop_generator": "value", "call": "func", "bool": 0,
            "pyslice": None}


def wrapped(v):
    if v.tag == "bool" and v.args[1] is True:
        v = v.args[0]
        return wrapped(v) if v.tag == "bool" else [v.args[0] if v.tag == "truth" else v]
    if v.tag in ("call", "new"):
        n = last(call_name(v))
        if n in WRAPPERS:
            w = WRAPPERS[n]
            if w == 0:
                a = v.args[1][0] if v.args[1] else None
                return wrapped(a) if a is not None and a.tag in ("call", "new") else [a]
            if w is not None:
                a = arg(v, w, None)
                return [a] if a is not None else []
    return []


class Values(object):
    """Index of the value for each hook name, derived on demand"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.known = {}

    def get(self, name, second=None):
        key = (name, second)
        if key not in self.known:
            self.known[key] = value_index(self.ctx, name, second) if name else None
        return self.known[key]

    def __contains__(self, name):
        return True
