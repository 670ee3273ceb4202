"""Small vocabulary shared by the rules of the checks."""
from .absint import (T, mk, const, param, attr, show, subterms, contains, rebuild,
                     call_name, call_base, call_args, arg, is_const, NONE, TRUE, FALSE)
from .project import AnalysisBroken, FuncInfo, ClassInfo, Module

OPENERS = {"open", "std_open", "io_open", "codecs_open", "io.open", "codecs.open",
           "builtins.open", ".std_open", ".io_open", ".codecs_open", ".open"}


def returning(paths):
    return [p for p in paths if p.outcome == "return"]


def raising(paths):
    return [p for p in paths if p.outcome == "raise"]


def calls(path, *names):
    """Call (and instantiation) events by readable callee name"""
    out = []
    for e in path.events:
        if e.kind in ("call", "new"):
            if not names or call_name(e.term) in names or \
                    call_name(e.term).rsplit(".", 1)[-1] in names:
                out.append(e)
    return out


def cname(e):
    return call_name(e.term)


def last(name):
    return name.rsplit(".", 1)[-1]


def strval(t):
    return t.args[1] if is_const(t) and isinstance(t.args[1], str) else None


def is_open(t):
    """(path term, mode) when t is a call that opens a file"""
    if not isinstance(t, T) or t.tag != "call":
        return None
    if call_name(t) not in OPENERS:
        return None
    name = arg(t, "file", 0)
    if name is None:
        name = arg(t, "name", 0)
    mode = arg(t, "mode", 1)
    if name is None:
        return None
    return name, (strval(mode) if mode is not None else "r")


def writes_mode(mode):
    return mode is None or any(c in mode for c in "wax+")


def index_of(path, event):
    for i, e in enumerate(path.events):
        if e is event:
            return i
    return -1


def params_in(t):
    return {x.args[0] for x in subterms(t) if x.tag == "param"}


def kwarg(t, name, index=None):
    return arg(t, name, index)


def selfattr(t):
    """name when t is self.<name>"""
    if isinstance(t, T) and t.tag == "attr" and t.args[0].tag == "self":
        return t.args[1]
    return None


def cond_value(path, pred):
    """Truth value that the path assumes for the first condition with pred"""
    for k, v in path.pc.items():
        if pred(k):
            return v
    return None


def class_in(module, outer, name):
    """Class defined inside a module level function"""
    raise NotImplementedError


UNKNOWN = object()


def fold(t, env):
    """Value of a term where env(subterm) gives known values, or UNKNOWN"""
    v = env(t)
    if v is not UNKNOWN:
        return v
    if t.tag == "const":
        return t.args[1]
    if t.tag == "truth":
        v = fold(t.args[0], env)
        return v if v is UNKNOWN else bool(v)
    if t.tag == "bool":
        v = fold(t.args[0], env)
        return v if v is UNKNOWN else bool(v) is not (not t.args[1])
    if t.tag == "call" and call_name(t) in ("int", "bool", "abs") and len(t.args[1]) == 1:
        v = fold(t.args[1][0], env)
        return v if v is UNKNOWN else {"int": int, "bool": bool, "abs": abs}[call_name(t)](v)
    if t.tag in ("tuple", "list", "set"):
        vs = [fold(x, env) for x in t.args]
        return UNKNOWN if any(x is UNKNOWN for x in vs) else tuple(vs)
    if t.tag in ("cmp", "binop"):
        a, b = fold(t.args[1], env), fold(t.args[2], env)
        if a is UNKNOWN or b is UNKNOWN:
            return UNKNOWN
        op = t.args[0]
        try:
            return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b,
                    "GtE": lambda: a >= b, "Eq": lambda: a == b, "NotEq": lambda: a != b,
                    "Is": lambda: a is b, "IsNot": lambda: a is not b,
                    "In": lambda: a in b, "NotIn": lambda: a not in b,
                    "Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                    "FloorDiv": lambda: a // b, "Mod": lambda: a % b}[op]()
        except (KeyError, TypeError, ZeroDivisionError):
            return UNKNOWN
    return UNKNOWN


def possible(path, env):
    """False when a condition of the path is known to differ from env"""
    for c, v in path.pc.items():
        f = fold(c, env)
        if f is not UNKNOWN and bool(f) is not v:
            return False
    return True
