"""Canonical forms of the database queries that are built on abstract paths."""
import re

from vlib.absint import const, param, mk
from vlib.project import FuncInfo
from vlib.rules import *

FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
OPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!=",
       "Is": "==", "IsNot": "!="}
CHAIN = {"filter", "filter_by", "where", "join", "outerjoin", "order_by", "limit", "offset", "first",
         "all", "one", "one_or_none", "scalar", "count", "delete", "distinct", "select_from",
         "group_by", "get", "exists", "fetchall", "fetchone", "yield_per", "options", "having",
         "label", "as_scalar", "subquery", "values", "update", "with_entities", "prefix_with"}
MODELS = ("m", "t", "__model__", "__table__")


def model_of(t):
    """Trial.m -> Trial"""
    if t.tag == "attr" and t.args[1] in MODELS and t.args[0].tag == "class":
        return t.args[0].args[0].name
    if t.tag == "attr" and t.args[1] in MODELS and t.args[0].tag == "self":
        return re.sub(r"self\((\w+)\)", r"\1", show(t.args[0]))
    if t.tag == "attr" and t.args[1] in MODELS and t.args[0].tag == "param":
        return t.args[0].args[0]
    return None


def column_of(t):
    if t.tag != "attr":
        return None
    o = t.args[0]
    if o.tag == "attr" and o.args[1] in ("c", "columns") and model_of(o.args[0]):
        o = o.args[0]
    if model_of(o):
        return model_of(o) + "." + t.args[1]
    return None


def method(t):
    """(receiver, name) of the call of a method"""
    if t.tag == "call" and isinstance(t.args[0], T) and t.args[0].tag == "attr":
        return t.args[0].args[0], t.args[0].args[1]
    return None, None


def is_query(t):
    if t.tag != "call":
        return False
    r, n = method(t)
    if n == "query":
        return True
    if r is not None and n in CHAIN and is_query(r):
        return True
    if n == "execute" and any(is_query(a) for a in t.args[1]):
        return True
    return last(call_name(t)) == "select" and r is None or n == "select" and \
        r.tag in ("gvar", "global", "module")


def text(t):
    """Canonical text of a value in a query"""
    if t.tag == "const":
        return repr(t.args[1])
    if is_query(t):
        return "{" + spec(t) + "}"
    if column_of(t):
        return column_of(t)
    if t.tag == "attr":
        return text(t.args[0]) + "." + t.args[1]
    if t.tag == "self":
        return "self"
    if t.tag == "elem":
        return "each " + text(t.args[0])
    if t.tag == "item":
        return text(t.args[0]) + "[" + text(t.args[1]) + "]"
    if t.tag == "call":
        r, n = method(t)
        a = ",".join([text(x) for x in t.args[1]] + [k + "=" + text(v) for k, v in t.args[2]])
        if last(call_name(t)) == "bindparam" and t.args[1]:
            return strval(t.args[1][0]) or "?"
        if last(call_name(t)) in ("proxy", "list", "iter") and len(t.args[1]) + len(t.args[2]) == 1:
            return text((t.args[1] or [t.args[2][0][1]])[0])
        if r is not None and r.tag not in ("gvar", "global", "module"):
            return text(r) + "." + n + "(" + a + ")"
        return last(call_name(t)) + "(" + a + ")"
    return re.sub(r"#\d+", "", re.sub(r"self\(\w+\)", "self", show(t)))


def product(a, b):
    return {x | y for x in a for y in b}


def dnf(t, sign=True):
    """Disjunction (set) of conjunctions (frozensets) of (left, operator, right)"""
    if t.tag == "bool":
        return dnf(t.args[0], sign if t.args[1] in (True,) else not sign)
    if t.tag == "const" and t.args[1] is True:
        return {frozenset()} if sign else set()
    if t.tag == "not":
        return dnf(t.args[0], not sign)
    if t.tag == "unop" and t.args[0] == "Invert":
        return dnf(t.args[1], not sign)
    if t.tag == "binop" and t.args[0] in ("BitAnd", "BitOr"):
        a, b = dnf(t.args[1], sign), dnf(t.args[2], sign)
        return product(a, b) if (t.args[0] == "BitAnd") == sign else a | b
    if t.tag == "cmp" and t.args[0] in OPS:
        op, a, b = OPS[t.args[0]], text(t.args[1]), text(t.args[2])
        if not sign:
            op = NEG[op]
        if not column_of(t.args[1]) and column_of(t.args[2]) or \
                column_of(t.args[1]) and column_of(t.args[2]) and a > b:
            a, b, op = b, a, FLIP[op]
        return {frozenset({(a, op, b)})}
    if t.tag == "call":
        n = last(call_name(t))
        if n in ("and_", "or_"):
            out = {frozenset()} if (n == "and_") == sign else set()
            for x in flat(t.args[1]):
                d = dnf(x, sign)
                out = product(out, d) if (n == "and_") == sign else out | d
            return out
        if n == "not_" and t.args[1]:
            return dnf(t.args[1][0], not sign)
        if n == "true":
            return {frozenset()} if sign else set()
        r, m = method(t)
        if n == "is_none":
            v = (list(t.args[1]) + [x for _, x in t.args[2]])[0]
            return {frozenset({(text(v), "==" if sign else "!=", "None")})}
        if r is not None and m in ("is_", "isnot", "is_not", "__eq__", "__ne__"):
            op = "==" if (m in ("is_", "__eq__")) == sign else "!="
            return {frozenset({(text(r), op, text(t.args[1][0]))})}
        if r is not None and t.args[1]:
            return {frozenset({(text(r), ("" if sign else "not ") + m.rstrip("_"),
                                ",".join(text(x) for x in t.args[1]))})}
    return {frozenset({(text(t), "is", str(sign))})}


def flat(args):
    for a in args:
        if a.tag == "star":
            a = a.args[0]
        if a.tag in ("list", "tuple"):
            for x in flat(a.args):
                yield x
        else:
            yield a


class Query(object):
    """What a query selects"""

    def __init__(self, t):
        self.what, self.joins, self.order, self.limit, self.end = [], [], [], None, ""
        self.where = {frozenset()}
        self.keys = []
        self.walk(t)

    def conditions(self, args):
        for a in flat(args):
            self.where = product(self.where, dnf(a))

    def joined(self, t):
        """join(A, B, condition) of sqlalchemy"""
        r, n = method(t)
        args = list(flat(t.args[1])) if t.tag == "call" else []
        if "join" in last(call_name(t) if t.tag == "call" else "").lower():
            args = args if r is None or r.tag in ("gvar", "global", "module") else [r] + args
            for a in args[:2]:
                self.joined(a)
            self.conditions(args[2:] + [v for k, v in t.args[2] if k == "onclause"])
        else:
            self.joins.append(model_of(t) or text(t))

    def walk(self, t):
        r, n = method(t)
        name = last(call_name(t))
        if n == "query" or name == "select":
            self.what += [model_of(a) or text(a) for a in flat(t.args[1])]
            return
        if n == "execute":
            return self.walk([a for a in t.args[1] if is_query(a)][0])
        self.walk(r)
        if n in ("filter", "where", "having"):
            self.conditions(t.args[1])
        elif n == "filter_by":
            for k, v in t.args[2]:
                self.where = product(self.where, {frozenset({(
                    (self.what or ["?"])[0] + "." + k, "==", text(v))})})
        elif n in ("join", "outerjoin"):
            a = list(flat(t.args[1]))
            if len(a) > 1:
                self.conditions(a[1:])
                self.joins.append((("outer " if n == "outerjoin" else "") + (
                    model_of(a[0]) or text(a[0]))))
            else:
                self.joins.append(("outer " if n == "outerjoin" else "") + "related " + (
                    model_of(a[0]) or text(a[0])))
        elif n == "select_from":
            for a in flat(t.args[1]):
                self.joined(a)
        elif n == "order_by":
            self.order += [text(a) for a in flat(t.args[1])]
        elif n == "limit":
            self.limit = text(t.args[1][0])
        elif n == "get":
            self.end = "get " + text(t.args[1][0])
        elif n == "fetchone":
            self.end = "first"
        elif n in ("first", "one", "one_or_none", "scalar", "count", "delete", "distinct", "update",
                   "exists"):
            self.end = n

    def text(self):
        out = "+".join(sorted(self.what))
        if self.joins:
            out += " join " + ",".join(sorted(self.joins))
        dis = sorted(" & ".join(sorted(" ".join(x) for x in c)) for c in self.where)
        if dis != [""]:
            out += " where " + " | ".join(dis)
        if self.order:
            out += " order " + ",".join(self.order)
        if self.limit:
            out += " limit " + self.limit
        if self.end:
            out += " " + self.end
        return out


def spec(t):
    return re.sub(r"(\w+)\.(start|checkpoint)\.desc\(\)", r"desc \1.\2", Query(t).text())


def queries(p):
    """{canonical text: term} of the complete queries of a path"""
    found = {}
    terms = [e.term for e in p.events if isinstance(e.term, T)] + (
        [p.value] if isinstance(p.value, T) else []) + list(p.pc)
    inner = set()
    allq = []
    for t in terms:
        for x in subterms(t):
            if is_query(x):
                allq.append(x)
                r, n = method(x)
                if r is not None and is_query(r):
                    inner.add(show(r))
                for a in list(x.args[1]) + [v for _, v in x.args[2]]:
                    for y in subterms(a):
                        if y is not x and is_query(y):
                            inner.add(show(y)) if n == "execute" else None
    for x in allq:
        if show(x) not in inner:
            found[spec(x)] = x
    return found


def analyse_queries(ctx, f, inline=None, args=None, cls=None, loops=(0, 1)):
    it = ctx.interp(loops=loops, opaque_fn=lambda g: g is not f and not (inline and inline(g)))
    it.keep_pc = True
    it.symbolic = set(MODELS)
    return it.run(f, args=args or {}, cls=cls)
