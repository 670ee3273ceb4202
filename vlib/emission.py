"""What the visitors of the transformer emit, with the instrumentation erased.

A visitor is interpreted abstractly; the term that it returns (or appends to
the statement list that it is given) describes the tree that it emits: node
constructors, copies of the source node with replaced fields, captured parts
of the source, and calls of hooks. Erasing a hook leaves the argument that the
Collector hands back for it; what remains must be the construct of the source.
"""
import ast

from .absint import T, mk, const, attr, show, subterms, call_name, call_args, arg, is_const, NONE
from .absint import TRUE, FALSE
from .rules import last, strval

HELPERS = {"ast_copy", "noworkflow", "double_noworkflow", "capture", "create_code_component",
           "create_ast_component", "create_composition", "_ast_num_from_component_id",
           "process_body", "activation", "none", "true", "false", "true_false", "L", "S",
           "param", "call", "create_code_block", "extract_code", "act_attribute",
           "process_parameters", "composition_edge", "container", "mangle", "fill_super",
           "first_param", "depends_on_frame", "is_frame_call", "generic_visit", "visit",
           "docstring", "add_first_params", "create_exc_handler", "context", "maybe"}
COPY = {"ast_copy": "new_node", "copy_location": None, "fix_missing_locations": None}
CAPTURE = {"capture": ("node", 0), "visit": ("node", 0), "generic_visit": ("node", 0),
           "process_body": ("body", 0)}
IGNORED = {"type_comment", "kind", "type_ignores"}
LEGACY = {"Num": ("n",), "Str": ("s",), "NameConstant": ("value",), "Bytes": ("s",),
          "Index": ("value",), "ExtSlice": ("dims",), "Ellipsis": ()}
# class of the elements of a field
FIELD_CLASS = {"keywords": "keyword", "generators": "comprehension", "handlers": "ExceptHandler",
               "items": "withitem", "args": None}


def name_of(t):
    return last(call_name(t)) if t.tag in ("call", "new") else None


def kw(t, name, i):
    return arg(t, name, i)


def strip(t):
    """Without location copies"""
    while isinstance(t, T) and t.tag == "call" and name_of(t) in COPY:
        key = COPY[name_of(t)]
        t = arg(t, key, 0) if key else t.args[1][0]
    return t


def hook(t):
    """(name, [args]) of a call of noworkflow"""
    if t.tag == "call" and name_of(t) == "noworkflow":
        return strval(arg(t, "name", 0)), items(arg(t, "args", 1))
    return None


def hook2(t):
    """(name, [external args], [args]) of a call of double_noworkflow"""
    if t.tag == "call" and name_of(t) == "double_noworkflow":
        return (strval(arg(t, "name", 0)), items(arg(t, "external_args", 1)),
                items(arg(t, "args", 2)))
    return None


def items(t):
    """Elements of a list display, or None"""
    if isinstance(t, T) and t.tag in ("list", "tuple"):
        return list(t.args)
    return None


NOT_CAPTURES = HELPERS - set(CAPTURE)


def rooted(t, depth=0):
    """t is a part of the source node"""
    t = unwrap_source(t)
    while isinstance(t, T) and t.tag in ("attr", "elem", "item"):
        if t.tag == "attr" and t.args[1] not in ALL_FIELDS:
            return False
        depth += 1
        t = unwrap_source(t.args[0])
    return isinstance(t, T) and t.tag == "param" and depth > 0


def captured(t):
    """Source part that t captures"""
    t = strip(t)
    if t.tag == "star":
        return captured(t.args[0])
    if t.tag == "attr":       # part of a captured node
        if t.args[1] not in ALL_FIELDS or copied(strip(t.args[0])) is not None:
            return None
        c = captured(t.args[0])
        return attr(c, t.args[1]) if c is not None else None
    if t.tag == "call" and name_of(t) in CAPTURE:
        n, i = CAPTURE[name_of(t)]
        v = arg(t, n, i)
        return v if v is not None else (t.args[1][0] if t.args[1] else None)
    if t.tag == "call" and name_of(t) not in NOT_CAPTURES and \
            t.args[0].tag in ("func", "bound", "attr", "closure"):
        # a visitor of a part, analysed by itself (recursion, other visitors)
        if t.args[0].tag == "attr" and not show(t.args[0]).startswith(("self", "RewriteDep")):
            return None
        parts = [a for a in list(t.args[1]) + [v for _, v in t.args[2]] if rooted(a)]
        if len(parts) == 1:
            return parts[0]
    return None


def ast_class(t):
    """Name of the ast class whose constructor t calls"""
    if t.tag in ("call", "new"):
        n = call_name(t)
        if n.startswith("ast.") and n.count(".") == 1 and (
                n[4:] in LEGACY or isinstance(getattr(ast, n[4:], None), type)):
            return n[4:]
    return None


def fields_of(cls):
    if cls in LEGACY and not hasattr(ast, cls):
        return LEGACY[cls]
    if cls in LEGACY:
        return LEGACY[cls]
    c = getattr(ast, cls, None)
    return c._fields if c is not None else ()


def copied(t):
    """Source of a copy"""
    if t.tag == "call" and call_name(t) in ("copy", "copy.copy", "deepcopy", "copy.deepcopy") \
            and t.args[1]:
        return t.args[1][0]
    return None


def feasible(path):
    """Loops over the same source list run equally often"""
    seen, truth = {}, {}
    for k, v in path.pc.items():
        if k.tag == "truth" and rooted(k.args[0]):
            if truth.setdefault(unwrap_source(k.args[0]), v) != v:
                return False
        if k.tag == "niter" and isinstance(v, int):
            for x in source_lists(k.args[0]):
                if rooted(x):
                    if seen.setdefault(unwrap_source(x), v) != v:
                        return False
        if k.tag == "truth" and v is False and show(k.args[0]) in VERSIONS:
            return False
        if k.tag == "truth" and v is False and k.args[0].tag in ("param",):
            return False
    for x, n in seen.items():
        if x in truth and truth[x] != (n > 0):
            return False
        for k, v in path.pc.items():
            if k.tag == "cmp" and k.args[1].tag == "call" and call_name(k.args[1]) == "len" \
                    and same(k.args[1].args[1][0], x) and is_const(k.args[2]):
                m = k.args[2].args[1]
                true = {"Eq": n == m, "Gt": n > m, "Lt": n < m, "GtE": n >= m, "LtE": n <= m,
                        "NotEq": n != m}.get(k.args[0])
                if true is not None and true != v:
                    return False
    return True


def opaque(fi):
    """Helpers that the rules know by name (not functions nested in visitors)"""
    return fi.name in HELPERS and fi.parent is None


VERSIONS = ("PY3", "PY35", "PY36", "PY38")


class Erasure(object):
    """Comparison of one emitted term with the source, on one path"""

    def __init__(self, path, values, node_class=None):
        self.path = path
        self.values = values         # hook -> index of the argument it hands back
        self.problems = []
        self.hooks = []              # (name, number of arguments, second arguments or None)
        self.over = {}
        self.lists = {}
        for e in path.events:
            if e.kind == "setattr":
                name, value = e.extra.args
                name = name if isinstance(name, str) else strval(name)
                self.over.setdefault(e.term, {})[name] = value

    # ------------------------------------------------------------- utilities
    def bad(self, text):
        if text not in self.problems:
            self.problems.append(text)
        return False

    def falsy(self, s):
        """The path knows that the source part s is absent"""
        for k, v in self.path.pc.items():
            if k.tag == "truth" and same(k.args[0], s) and v is False:
                return True
            if k.tag == "truth" and v is False and k.args[0].tag == "call" and \
                    call_name(k.args[0]) == "hasattr" and s.tag == "attr" and \
                    same(k.args[0].args[1][0], s.args[0]) and \
                    strval(k.args[0].args[1][1]) == s.args[1]:
                return True
            if k.tag == "cmp" and same(k.args[1], s) and k.args[2] is NONE:
                if (k.args[0] in ("Is", "Eq")) is v:
                    return True
        return False

    def truthy(self, s):
        for k, v in self.path.pc.items():
            if k.tag == "truth" and same(k.args[0], s) and v is True:
                return True
            if k.tag == "cmp" and same(k.args[1], s) and k.args[2] is NONE:
                if (k.args[0] in ("Is", "Eq")) is (not v):
                    return True
        return False

    def isinstance_of(self, s):
        """ast class that the path assumes for s"""
        for k, v in self.path.pc.items():
            if k.tag == "truth" and v is True:
                k = k.args[0]
                if k.tag == "call" and call_name(k) == "isinstance":
                    x = k.args[1][0]
                    c = captured(x)
                    x = c if c is not None else strip(x)
                    if same(x, s):
                        n = show(k.args[1][1])
                        if n.startswith("ast."):
                            return n[4:]
        return None

    def note(self, name, first, second):
        self.hooks.append((name, first, second))

    # ----------------------------------------------------------- expressions
    def erase(self, e):
        """The argument that stays when the hooks around e are erased"""
        e = strip(e)
        while True:
            h2 = hook2(e)
            h = hook(e) if h2 is None else None
            if h2 is not None:
                name, first, second = h2
                self.note(name, first, second)
                i = self.values.get(name, True)
                if not isinstance(i, int) or second is None or i >= len(second):
                    return ("special", name, first, second)
                self.spare(name, [a for j, a in enumerate(second) if j != i] + (first or []))
                e = strip(second[i])
            elif h is not None:
                name, first = h
                self.note(name, first, None)
                i = self.values.get(name, False)
                if not isinstance(i, int) or first is None or i >= len(first):
                    return ("special", name, first, None)
                self.spare(name, [a for j, a in enumerate(first) if j != i])
                e = strip(first[i])
            else:
                return e

    def spare(self, name, args):
        """Arguments that are only recorded evaluate nothing of the program"""
        for a in args:
            for x in emitted_terms(a):
                if captured(x) is not None and not self.harmless(name, x):
                    self.bad("the hook {} evaluates {} in addition to its value".format(
                        name, show(captured(x))))

    def harmless(self, name, x):
        c = captured(x)
        if c is not None and c.tag == "call" and name_of(c) == "visit":
            # load of the target of an augmented assignment: only a name
            return self.not_access()
        if name == "function_def":
            return True      # the defaults of the parameters: see arguments
        return False

    def not_access(self):
        for k, v in self.path.pc.items():
            if k.tag == "truth" and k.args[0].tag == "call" and \
                    call_name(k.args[0]) == "isinstance" and \
                    "Subscript" in show(k.args[0].args[1][1]):
                return v is False
        return False

    def eq(self, e, s, cls=None, what=""):
        """The emitted e, erased, is the source part s (of class cls)"""
        what = what or show(s)
        if e is None:
            return self.bad("{} is not emitted".format(what))
        e = self.erase(e)
        if e is None:
            return False
        if isinstance(e, tuple) and e and e[0] == "special":
            return self.special(e, s, cls, what)
        c = captured(e)
        if c is not None:
            if cls == "Index" and same(c, attr(s, "value")):
                return True
            return self.same_source(c, s, what)
        if same(e, s) and copied(e) is None:
            return True
        if is_const(e) and e.args[1] is None or name_of(e) == "none":
            if self.falsy(s):
                return True
            return self.bad("{} is dropped".format(what))
        src = copied(e)
        if src is not None:
            cc = captured(src)
            if not same(cc if cc is not None else src, s):
                return self.bad("a copy of {} is emitted for {}".format(show(src), what))
            known = cls or self.isinstance_of(s)
            for f, v in self.over.get(e, {}).items():
                if known and f in fields_of(known) or not known and f in ALL_FIELDS:
                    self.field(known, f, v, attr(s, f), what)
            return True
        if e.tag == "call" and name_of(e) == "call":     # ast_elements.call
            return self.call_node(e, s, cls, what)
        k = ast_class(e)
        if k == "Subscript":
            a = self.accessed(e, s, cls, what)
            if a is not None:
                return a
        if k == "FormattedValue" and (cls or self.isinstance_of(s)) == k and len(e.args[1]) == 3:
            # {hook(f"{value!r:spec}")} formats the string of the hook as it is
            inner = self.erase(e.args[1][0])
            if isinstance(inner, T) and ast_class(inner) == "JoinedStr" and \
                    e.args[1][1] is const(-1) and e.args[1][2] is NONE:
                vals = items(inner.args[1][0])
                if vals is not None and len(vals) == 1:
                    return self.eq(vals[0], s, cls, what)
        if k is not None:
            return self.constructed(k, e, s, cls, what)
        if e.tag == "call" and name_of(e) == "add_first_params":
            return self.eq(arg(e, "args", 0), s, cls, what)
        if e.tag in ("list", "tuple", "binop"):
            return self.sequence(e, s, what)
        return self.bad("{} is emitted for {}".format(show(e)[:160], what))

    def same_source(self, c, s, what):
        c = strip(c)
        cc = captured(c)
        if cc is not None:
            c = cc
        if same(c, s):
            return True
        src = copied(c)
        if src is not None and same(src, s):
            for f, v in self.over.get(c, {}).items():
                if f in ALL_FIELDS and f != "ctx":
                    self.field(None, f, v, attr(s, f), what)
            return True
        return self.bad("{} is captured in the place of {}".format(show(c)[:120], what))

    def constructed(self, k, e, s, cls, what):
        known = cls or self.isinstance_of(s)
        if k == "Index" or k == "Expr" and known != "Expr":
            return self.eq(e.args[1][0], s, cls, what)
        if known is None:
            return self.bad("a new {} is emitted for {}".format(k, what))
        if k != known:
            if k == "Tuple" and known == "ExtSlice":
                return self.field(known, "dims", e.args[1][0], attr(s, "dims"), what)
            if k == "FormattedValue" or known == "FormattedValue":
                pass
            return self.bad("{} is emitted for the {} {}".format(k, known, what))
        names = fields_of(k)
        given = dict(zip(names, e.args[1]))
        given.update({n: v for n, v in e.args[2]})
        given.update({n: v for n, v in self.over.get(e, {}).items() if n in names})
        for f in names:
            if f in IGNORED:
                continue
            if f not in given:
                if f == "type_params" or f == "ctx":
                    continue
                self.bad("{} of {} is lost".format(f, what))
                continue
            self.field(k, f, given[f], attr(s, f), what)
        return not self.problems

    def call_node(self, e, s, cls, what):
        known = cls or self.isinstance_of(s)
        if known == "Lambda":
            h2 = hook2(strip(arg(e, "func", 0)))
            if h2 is not None and h2[0] == "function_def":
                self.note(*h2)
                inner = items(arg(e, "args", 1))
                if inner is not None and len(inner) == 1:
                    return self.eq(inner[0], s, cls, what)
        if known != "Call":
            return self.bad("a call is emitted for {}".format(what))
        self.field("Call", "func", arg(e, "func", 0), attr(s, "func"), what)
        self.field("Call", "args", arg(e, "args", 1), attr(s, "args"), what)
        self.field("Call", "keywords", arg(e, "keywords", 2), attr(s, "keywords"), what)
        return not self.problems

    def accessed(self, e, s, cls, what):
        """access(...)['attribute', (act, id, value, name, '.', mode)]"""
        a = e.args[1]
        if len(a) < 2 or hook(strip(a[0])) is None:
            return None
        name, first = hook(strip(a[0]))
        if name == "augaccess":
            inner = strip(first[1])
            first = hook(inner)[1] if hook(inner) else None
        elif name != "access":
            return None
        self.note(name, first, None)
        index = strip(a[1])
        if ast_class(index) == "Index":
            index = strip(index.args[1][0])
        parts = items(index.args[1][0]) if ast_class(index) == "Tuple" else None
        sub = items(strip(parts[1]).args[1][0]) if parts and len(parts) == 2 and \
            ast_class(strip(parts[1])) == "Tuple" else None
        kind = string(parts[0]) if parts else None
        if sub is None or len(sub) != 6:
            return self.bad("access to {} without its six parts".format(what))
        known = cls or self.isinstance_of(s)
        want = {"attribute": ("Attribute", "."), "subscript": ("Subscript", "[]")}.get(kind)
        if want is None or known != want[0] or string(sub[4]) != want[1]:
            return self.bad("{} access is emitted for the {} {}".format(kind, known, what))
        self.eq(sub[2], attr(s, "value"), None, what + ".value")
        if kind == "attribute":
            n = strip(sub[3])
            n = n.args[1][0] if ast_class(n) == "Str" else n
            if n.tag == "call" and name_of(n) == "mangle":
                n = arg(n, "name", 0)
            if not same(n, attr(s, "attr")):
                self.bad("the attribute {} is accessed for {}".format(show(n), what))
        else:
            self.eq(sub[3], attr(s, "slice"), None, what + ".slice")
        ctx = a[2] if len(a) > 2 else dict(e.args[2]).get("ctx")
        if ctx is None or not same(ctx, attr(s, "ctx")):
            self.bad("{} loses its context".format(what))
        return not self.problems

    # -------------------------------------------------------- special hooks
    def special(self, e, s, cls, what):
        _, name, first, second = e
        known = cls or self.isinstance_of(s)
        if name in ("ifexp", "genexp"):
            body = [strip(a) for a in first or ()
                    if strip(a).tag == "call" and name_of(strip(a)) in ("nlambda", "Lambda")]
            if len(body) == 1:
                rest = [a for a in first if strip(a) is not body[0]]
                self.spare(name, rest)
                b = arg(body[0], "body", 1)
                return self.eq(b, s, cls, what)
            return self.bad("{} without a function for {}".format(name, what))
        if name == "slice" and second and known == "Slice":
            for i, f in ((2, "lower"), (3, "upper"), (4, "step")):
                if i >= len(second):
                    self.bad("{} of {} is lost".format(f, what))
                else:
                    self.eq(second[i], attr(s, f), None, what + "." + f)
            return not self.problems
        return self.bad("the hook {} does not stand for {}".format(name, what))

    # ---------------------------------------------------------------- fields
    def field(self, cls, f, e, sf, what):
        what = what + "." + f if not what.endswith("." + f) else what
        if f == "ctx":
            n = name_of(e) if isinstance(e, T) else None
            if same(e, sf) or n in ("L", "S", "Load", "Store") and cls in (
                    "List", "Tuple", "Starred", "Name", None):
                return True
            return self.bad("{} becomes {}".format(what, show(e)))
        if cls == "ExceptHandler" and f in ("type", "name") and self.falsy(sf):
            # `except:` catches BaseException; hidden names are not of the program
            n = string_id(strip(e)) or strval(e)
            if n == "BaseException" and f == "type" or \
                    f == "name" and n is not None and n.startswith("__now_"):
                return True
        if f == "decorator_list":
            return self.decorators(e, sf, what)
        if f in ("body", "orelse", "finalbody") and cls not in ("IfExp", "Lambda", "Expression"):
            return self.body(e, sf, what)
        if f == "ifs":
            return self.ifs(e, sf, what)
        if f == "args" and cls in ("Lambda", "FunctionDef", "AsyncFunctionDef"):
            return self.arguments(e, sf, what)
        if f == "type_params":
            return True
        if f == "returns" and e.tag == "call" and name_of(e) == "maybe":
            e = attr(arg(e, "obj", 0), f)
            src = copied(e.args[0])
            if same(e, sf) or src is not None and attr(src, f) is sf:
                return True
        e0 = strip(e)
        if e0.tag in ("list", "tuple", "binop"):
            return self.sequence(e0, sf, what)
        return self.eq(e, sf, FIELD_CLASS.get(f), what)

    def count(self, s):
        """Number of elements that the path assumes for the source list s"""
        for k, v in self.path.pc.items():
            if k.tag == "niter" and isinstance(v, int):
                for x in source_lists(k.args[0]):
                    if same(x, s):
                        return v
        return None

    def sequence(self, e, s, what):
        parts = flatten(e)
        n = self.count(s)
        got = []
        for p in parts:
            x = self.peek(p)
            got.append(p)
        expected = []
        if n is not None:
            base = self.list_term(s)
            for i in range(n):
                expected.append(elem(base, i))
        if n is not None and len(got) != n:
            return self.bad("{} of the {} elements of {} are emitted".format(len(got), n, what))
        if n is None and got:
            if len(got) == 1 and captured(got[0]) is not None:
                return self.same_source(captured(got[0]), s, what)
            return self.bad("{} is emitted for {}".format(show(e)[:100], what))
        f = s.args[1] if s.tag == "attr" else None
        for g, x in zip(got, expected):
            cls = FIELD_CLASS.get(f)
            if not self.element(g, x, cls, what):
                pass
        return not self.problems

    def list_term(self, s):
        return s

    def element(self, g, x, cls, what):
        return self.eq(g, x, cls, show(x))

    def peek(self, p):
        return p

    def ifs(self, e, s, what):
        """Conditions of a comprehension, after the record of its assignment"""
        parts = [strip(p) for p in flatten(e)]
        rest = []
        for p in parts:
            h = hook(p)
            if h and h[0] == "assign":
                self.note(h[0], h[1], None)
                self.spare("assign", h[1])
                continue
            rest.append(p)
        n = self.count(s)
        if n is None:
            # emptiness and size tests instead of a loop
            if self.falsy(s):
                n = 0
            elif any(k.tag == "cmp" and k.args[1].tag == "call" and
                     call_name(k.args[1]) == "len" and same(k.args[1].args[1][0], s)
                     for k in self.path.pc):
                n = 1
        if n == 0 or self.falsy(s):
            return True if not rest else self.bad("conditions are invented for " + what)
        if len(rest) != 1:
            return self.bad("{} conditions for {}".format(len(rest), what))
        v = self.erase(rest[0])
        if v is None or isinstance(v, tuple):
            return False
        if ast_class(v) == "BoolOp":
            op, vals = self.over.get(v, {}).get("op"), self.over.get(v, {}).get("values")
            a = list(v.args[1])
            op = op if op is not None else (a[0] if a else None)
            vals = vals if vals is not None else (a[1] if len(a) > 1 else None)
            if op is None or ast_class(strip(op)) != "And":
                return self.bad("the conditions of {} are not joined with and".format(what))
            return self.sequence(strip(vals), s, what)
        c = captured(v)
        x = c if c is not None else v
        if x.tag in ("elem", "item") and same(x.args[0], s) or same(x, elem(s, 0)):
            return True
        return self.bad("{} stands for the conditions {}".format(show(x)[:80], what))

    def arguments(self, e, s, what):
        """Parameters: the defaults are evaluated by process_parameters"""
        e = strip(e)
        if e.tag == "call" and name_of(e) == "add_first_params":
            base = strip(arg(e, "args", 0))
        else:
            return self.bad("the parameters {} do not get the hidden ones".format(show(e)[:80]))
        src = copied(base.args[0]) if base.tag == "attr" else None
        if not (same(base, s) or src is not None and attr(src, base.args[1]) is s):
            return self.bad("{} are the parameters of {}".format(show(base)[:80], what))
        pp = [x for ev in self.path.events if ev.kind == "call"
              for x in [ev.term] if name_of(x) == "process_parameters"]
        if len(pp) != 1:
            self.bad("the defaults of {} are evaluated {} times".format(what, len(pp)))
        over = {}
        for t, d in self.over.items():
            if t is e or t is base or (t.tag == "attr" and t.args[1] == "args") or \
                    (t.tag == "call" and name_of(t) == "add_first_params"):
                over.update(d)
        if "defaults" not in over:
            self.bad("the defaults of {} are evaluated again".format(what))
        else:
            for x in subterms(over["defaults"]):
                if captured(x) is not None:
                    self.bad("the defaults of {} are evaluated again".format(what))
        if "kw_defaults" not in over:
            self.bad("the keyword defaults of {} are evaluated again".format(what))
        return not self.problems

    def decorators(self, e, s, what):
        parts = [strip(p) for p in flatten(e)]
        rest = []
        for p in parts:
            h2, h = hook2(p), hook(p)
            if h2 and h2[0] in ("function_def", "class_def"):
                self.note(*h2)
                self.spare(h2[0], h2[1] + h2[2])
            elif h and h[0] in ("collect_function_def", "collect_class_def"):
                self.note(h[0], h[1], None)
                self.spare(h[0], h[1])
            else:
                rest.append(p)
        n = self.count(s)
        if n is None:
            n = 0 if not rest else None
        if n is None or len(rest) != n:
            return self.bad("{} of the decorators {} are emitted".format(len(rest), what))
        for i, p in enumerate(rest):
            self.eq(p, elem(s, i), None, show(elem(s, i)))
        return not self.problems

    # ------------------------------------------------------------ statements
    def statements(self, parts):
        """Statements that stay when the hooks are erased"""
        out = []
        for p in parts:
            p = strip(p)
            if self.is_record(p):
                continue
            if ast_class(p) == "Try" or p.tag == "call" and name_of(p) == "try_def":
                inner = self.wrapper(p)
                if inner is not None:
                    out.extend(self.statements(inner))
                    continue
            out.append(p)
        return out

    def is_record(self, p):
        """A statement that only records"""
        k = ast_class(p)
        if k == "Expr":
            v = strip(p.args[1][0])
            h, h2 = hook(v), hook2(v)
            if h is not None:
                self.note(h[0], h[1], None)
                self.spare(h[0], h[1] or [])
                return True
            if h2 is not None and not any(captured(x) is not None for a in h2[2] or ()
                                          for x in subterms(a)):
                self.note(*h2)
                return True
            return False
        if k == "Assign":
            targets = items(p.args[1][0])
            names = [string_id(strip(t)) for t in targets or ()]
            if names and all(n and n.startswith("__now_") for n in names):
                for x in subterms(p.args[1][1]):
                    if captured(x) is not None:
                        return False
                v = strip(p.args[1][1])
                if hook(v):
                    self.note(hook(v)[0], hook(v)[1], None)
                return True
        return False

    def wrapper(self, p):
        """Body of a try statement that only records and raises again"""
        if name_of(p) == "try_def":
            b, h, o, f = (arg(p, n, i) for i, n in enumerate(
                ("body", "handlers", "orelse", "finalbody")))
        else:
            b, h, o, f = (list(p.args[1]) + [None] * 4)[:4]
        if items(o) is None or items(o):
            return None
        for s in items(f) or ():
            if not self.is_record(strip(s)):
                return None
        for s in items(h) or ():
            if not self.reraises(strip(s)):
                return None
        return flatten(b)

    def reraises(self, h):
        """A handler that records and raises the same exception"""
        if ast_class(h) != "ExceptHandler":
            return False
        a = list(h.args[1])
        body = flatten(a[2]) if len(a) > 2 else []
        if not body:
            return False
        end = strip(body[-1])
        if ast_class(end) != "Raise" or any(x is not NONE for x in end.args[1]):
            return False
        return all(self.is_record(strip(x)) for x in body[:-1])

    def body(self, e, s, what):
        parts = flatten(e)
        rest = self.statements(parts)
        keep = []
        for p in rest:
            if p.tag == "call" and name_of(p) == "docstring":
                continue
            if p.tag == "item" and len(rest) > 1:      # docstring, old_body = body[:1], body[1:]
                keep.append(p)
                continue
            keep.append(p)
        if len(keep) == 1:
            c = captured(keep[0])
            if c is not None:
                first = unwrap_source(c)
                if first.tag == "item" and same(first.args[0], s) and single(self, s) and \
                        is_const(first.args[1]) and first.args[1].args[1] in (0, -1):
                    return True
                return self.same_source(c, s, what)
            if same(keep[0], s):
                return True
        # split in parts that are emitted in order
        spans = [span(self, p, s) for p in keep]
        if spans and None not in spans and contiguous(spans):
            return True
        if not keep and self.falsy(s):
            return True
        one = [k for k in keep if not isinstance(k, str)]
        if len(one) == 1 and self.path is not None:
            n = single(self, s)
            if n:
                return self.eq(one[0], elem(s, 0), self.isinstance_of(elem(s, 0)), what)
        return self.bad("{} is emitted for the body {}".format(
            "; ".join(show(k)[:80] for k in keep) or "nothing", what))

    def mutated(self, s):
        """Parts of the source that are replaced in place"""
        for o, d in self.over.items():
            if copied(strip(o)) is None and rooted(o) and o.tag in ("attr", "elem", "item"):
                for f, v in d.items():
                    if f in ALL_FIELDS and f not in ("ctx", "name") and not rooted(v):
                        self.field(None, f, v, attr(o, f), show(o))

    def statement(self, parts, s, cls):
        """The statements in parts stand for the statement s"""
        rest = self.statements(parts)
        self.mutated(s)
        if cls == "Pass" and not rest:
            return True
        if len(rest) != 1:
            return self.bad("{} statements are emitted for one {}: {}".format(
                len(rest), cls, "; ".join(show(r)[:60] for r in rest)))
        return self.eq(rest[0], s, cls, cls)


INFORMATION = {"_ast_num_from_component_id", "create_code_component", "create_ast_component",
               "extract_code", "create_code_block", "mangle"}


def emitted_terms(t):
    """Subterms that are in the emitted tree (not those that helpers only look at)"""
    if not isinstance(t, T):
        return
    yield t
    if t.tag == "call" and name_of(t) in INFORMATION:
        return
    if t.tag == "call" and name_of(t) in COPY:
        t2 = strip(t)
        for x in emitted_terms(t2):
            yield x
        return
    if captured(t) is not None:
        return
    if t.tag == "attr" and t.args[1] not in ALL_FIELDS:
        return
    for a in t.args:
        for x in nested(a):
            yield x


def nested(a):
    if isinstance(a, T):
        for x in emitted_terms(a):
            yield x
    elif isinstance(a, tuple):
        for b in a:
            for x in nested(b):
                yield x


def single(er, s):
    for k, v in er.path.pc.items():
        if k.tag == "cmp" and v is True and k.args[0] == "Eq" and k.args[1].tag == "call" and \
                call_name(k.args[1]) == "len" and same(k.args[1].args[1][0], s):
            return is_const(k.args[2]) and k.args[2].args[1] == 1
    return False


def span(er, p, s):
    c = captured(p)
    x = c if c is not None else p
    if same(x, s):
        return (0, None)
    if x.tag == "item" and same(x.args[0], s):
        i = x.args[1]
        if i.tag == "slice":
            lo, hi = i.args[0], i.args[1]
            lo = lo.args[1] if is_const(lo) and lo.args[1] is not None else (
                0 if is_const(lo) else lo)
            hi = hi.args[1] if is_const(hi) else hi
            return (lo, hi)
    if x.tag == "list" and not x.args:
        return "empty"
    return None


def contiguous(spans):
    spans = [s for s in spans if s != "empty"]
    at = 0
    for lo, hi in spans:
        if lo != at:
            return False
        at = hi
    return at is None


def string(t):
    t = strip(t)
    if ast_class(t) in ("Str", "Constant") and t.args[1]:
        return strval(t.args[1][0])
    return strval(t) if is_const(t) else None


def string_id(t):
    if ast_class(t) == "Name" and t.args[1]:
        return strval(t.args[1][0])
    return None


def elem(s, i):
    return mk("elem", s, i)


def source_lists(t):
    out = [t]
    if t.tag == "call" and call_name(t) in ("enumerate", "zip", "list", "iter", "tuple"):
        for a in t.args[1]:
            out.extend(source_lists(a))
    return out


def unwrap_source(t):
    """Copies stand for their source"""
    if not isinstance(t, T):
        return t
    if t.tag == "attr":
        b = unwrap_source(t.args[0])
        return attr(b, t.args[1]) if isinstance(b, T) else t
    src = copied(t)
    if src is not None:
        return unwrap_source(src)
    if t.tag == "elem":
        return mk("elem", unwrap_source(t.args[0]), *t.args[1:])
    s = strip(t)
    if s is not t:
        return unwrap_source(s)
    return t


def same(a, b):
    if a is b:
        return True
    return unwrap_source(a) is unwrap_source(b)


def flatten(t):
    """Elements of a concatenation of lists; splices stay as they are"""
    t = strip(t)
    if t.tag in ("list", "tuple"):
        out = []
        for a in t.args:
            out.extend(flatten(a.args[0]) if a.tag == "star" else [a])
        return out
    if t.tag == "binop" and t.args[0] == "Add":
        return flatten(t.args[1]) + flatten(t.args[2])
    return [t]


ALL_FIELDS = set()
for _c in vars(ast).values():
    if isinstance(_c, type) and issubclass(_c, ast.AST):
        ALL_FIELDS |= set(_c._fields)
