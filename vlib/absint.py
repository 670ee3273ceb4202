"""Abstract interpreter over Python syntax trees.

A forward dataflow analysis with trace partitioning.  Values are symbolic
*origin terms* (which parameter, attribute, call result, constant ... a value
flows from); no value of the analysed program is ever computed, nothing is
solved, loops are summarised by a bounded number of abstract iterations and
helper functions of the repository are followed through their bodies, so the
result does not depend on how the code is divided into helpers.

The result of an analysis is a list of abstract paths.  A path has the ordered
events (calls, stores, context entries/exits, raises), the assumptions made
on branch conditions, and the way in which the function is left.
"""
import ast
import builtins
import os
import string

from .project import (FuncInfo, ClassInfo, Module, AnalysisBroken, dotted)

# --------------------------------------------------------------------- terms
_INTERN = {}


class T(object):
    """Interned term: structural equality is identity"""
    __slots__ = ("tag", "args", "_r", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return repr(self) < repr(other)


def mk(tag, *args):
    key = (tag,) + args
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.tag = tag
        t.args = args
        t._r = None
        _INTERN[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def param(name):
    return mk("param", name)


def attr(base, *names):
    for n in names:
        base = mk("attr", base, n)
    return base


def is_const(t):
    return isinstance(t, T) and t.tag == "const"


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        if isinstance(t, (FuncInfo, ClassInfo)):
            return t.name
        return repr(t) if not isinstance(t, str) else t
    if t._r is not None:
        return t._r
    if depth > 40:
        return "..."
    d = depth + 1
    g = t.tag
    a = t.args
    if g == "const":
        r = repr(a[1])
    elif g == "param":
        r = a[0]
    elif g == "attr":
        r = "{}.{}".format(show(a[0], d), a[1])
    elif g == "item":
        r = "{}[{}]".format(show(a[0], d), show(a[1], d))
    elif g == "call":
        fn, pos, kw, n = a
        parts = [show(p, d) for p in pos] + [
            "{}={}".format(k, show(v, d)) for k, v in kw]
        r = "{}({}){}".format(show(fn, d), ", ".join(parts),
                              "" if not n else "#{}".format(n))
    elif g == "new":
        ci, pos, kw, n = a
        parts = [show(p, d) for p in pos] + [
            "{}={}".format(k, show(v, d)) for k, v in kw]
        r = "{}({}){}".format(ci.name, ", ".join(parts),
                              "" if not n else "#{}".format(n))
    elif g in ("func",):
        r = a[0].short if a[0].name != "<lambda>" else "<lambda>"
    elif g == "bound":
        r = "{}.{}".format(show(a[0], d), a[1].name)
    elif g == "class":
        r = a[0].name
    elif g == "ext" or g == "builtin" or g == "name":
        r = a[0]
    elif g == "gvar":
        r = a[1]
    elif g == "module":
        r = a[0].name.split(".")[-1]
    elif g == "fmt":
        r = "fmt(" + " ".join(show(x, d) for x in a) + ")"
    elif g == "cmp":
        r = "({} {} {})".format(show(a[1], d), a[0], show(a[2], d))
    elif g == "truth":
        r = "bool({})".format(show(a[0], d))
    elif g == "elem":
        r = "elem({})".format(show(a[0], d)) + ("" if a[1] == 0 else "#%d" % a[1])
    else:
        r = "{}({})".format(g, ", ".join(show(x, d) for x in a))
    if depth == 0 or len(r) < 300:
        t._r = r
    return r


def subterms(t, _seen=None):
    """All the terms that are inside of t (including t)"""
    seen = set() if _seen is None else _seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def contains(t, sub):
    return any(x is sub for x in subterms(t))


def rebuild(t, fn, memo=None):
    """Bottom-up rewrite"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(rebuild(x, fn, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    nargs = tuple(rebuild(x, fn, memo) if isinstance(x, (T, tuple)) else x
                  for x in t.args)
    n = mk(t.tag, *nargs) if nargs != t.args else t
    r = fn(n)
    memo[t] = r
    return r


# ------------------------------------------------------------------- helpers
class Event(object):
    __slots__ = ("kind", "term", "extra", "site", "func", "pc")

    def __init__(self, kind, term, extra, site, func):
        self.kind = kind
        self.term = term
        self.extra = extra
        self.site = site
        self.func = func

    def __repr__(self):
        ex = "" if self.extra is None else " " + show(self.extra)
        return "{}:{}{} @{}".format(self.kind, show(self.term), ex, self.site)


class Frame(object):
    def __init__(self, func, module, closure, cls):
        self.func = func
        self.module = module
        self.closure = closure
        self.cls = cls
        self.yield_handler = None
        self.globals = set()
        self.nonlocals = set()
        self.locals = ()
        self.self_val = None
        self.keep = False


class State(object):
    __slots__ = ("frames", "heap", "over", "pc", "ev", "counts", "nref", "exc")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.over = {}
        self.pc = {}
        self.ev = None
        self.counts = {}
        self.nref = 0
        self.exc = ()

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.over = dict(self.over)
        s.pc = dict(self.pc)
        s.ev = self.ev
        s.counts = dict(self.counts)
        s.nref = self.nref
        s.exc = self.exc
        return s

    def key(self):
        return (
            frozenset((k, frozenset(v.items())) for k, v in self.frames.items()),
            frozenset(self.heap.items()), frozenset(self.over.items()),
            self.ev, self.exc, frozenset(self.counts.items()),
        )

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e.args[1])
            e = e.args[0]
        out.reverse()
        return out


class Path(object):
    def __init__(self, st, outcome, value):
        self.state = st
        self.outcome = outcome      # 'return' | 'raise'
        self.value = value
        self.pc = st.pc
        self.events = st.events()

    def calls(self):
        return [e for e in self.events if e.kind == "call"]

    def cond(self):
        return ", ".join("{}{}".format("" if v is True else
                                       "not " if v is False else "%s=" % (v,), show(k))
                         for k, v in self.pc.items())

    def __repr__(self):
        return "Path({} {} | {} | {})".format(
            self.outcome, show(self.value), self.events, self.cond())


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.txt")) as _f:
    BASELINE = frozenset(_f.read().split())     # see tools/baseline.py
BUILTIN_NAMES = set(dir(builtins))
PURE_BUILTINS = {
    "len", "isinstance", "issubclass", "str", "repr", "bool", "int", "float",
    "type", "getattr", "hasattr", "callable", "id", "hash", "abs", "min",
    "max", "sum", "sorted", "reversed", "list", "tuple", "set", "frozenset",
    "dict", "range", "enumerate", "zip", "map", "filter", "vars", "bytes",
    "ord", "chr", "any", "all", "round", "iter", "slice",
}
PURE_EXT_PREFIX = ("os.path.", "itertools.", "operator.", "posixpath.")
PURE_METHODS = {
    "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "encode",
    "decode", "startswith", "endswith", "replace", "join", "format", "items",
    "keys", "values", "hexdigest", "isoformat", "total_seconds", "strftime",
    "title", "splitlines", "partition", "rpartition", "find", "rfind", "index",
    "count", "isdigit", "copy", "as_posix", "zfill",
}
IDENTITY_ITER = {"list", "tuple", "iter", "set", "frozenset"}
DICT_VIEWS = {"future.utils.viewitems": "items", "future.utils.iteritems": "items",
              "future.utils.viewvalues": "values", "future.utils.itervalues": "values",
              "future.utils.viewkeys": "keys", "future.utils.iterkeys": "keys"}

_LISTM = {"append", "extend", "insert", "pop", "remove", "clear", "sort",
          "reverse", "index", "count", "copy"}


def _assigned_names(node):
    """Local names of a function (not descending into nested scopes)"""
    names = set()
    glob = set()
    nonl = set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # iteration variables belong to the comprehension
            for g in n.generators:
                visit(g.iter)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        pass
    else:
        for s in node.body:
            visit(s)
    return names - glob - nonl, glob, nonl


_GEN_CACHE = {}


def is_generator(node):
    if node in _GEN_CACHE:
        return _GEN_CACHE[node]

    def visit(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))
    body = node.body if isinstance(node.body, list) else [node.body]
    r = any(visit(s) for s in body)
    _GEN_CACHE[node] = r
    return r


def has_nested(node):
    for n in ast.walk(node):
        if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return True
    return False


class Interp(object):
    """One configuration of the analysis."""

    # attributes of classes that are replaced when the class is decorated
    symbolic = frozenset()

    def __init__(self, project, loops=(0, 1), max_depth=8, max_states=3000):
        self.project = project
        self.loops = loops
        self.max_depth = max_depth
        self.max_states = max_states
        self.truncated = False
        self.stack = []
        self.ptypes = {}        # param name -> ClassInfo
        self.atypes = {}        # (class name, attr) -> ClassInfo
        self.gtypes = {}        # gvar name -> ClassInfo
        self.opaque_names = set()     # short or qualified names
        self.opaque_fn = None
        self.inline_init = set()      # class names
        self.inline_only = None       # callable(FuncInfo) -> bool
        self.raiser = None            # callable(T call) -> [names]
        self.want = None              # callable(kind, term) -> bool
        self.pure = set()
        self.functions_seen = {}
        self.transparent_decorators = {
            "wraps", "functools.wraps", "staticmethod", "classmethod", "property",
            "contextmanager", "contextlib.contextmanager", "meta_profiler",
        }
        self._attr_types = None

    # ------------------------------------------------------------ entry
    def run(self, func, args=None, self_val=None, pre=None, cls=None):
        """Analyse one function with symbolic parameters"""
        st = State()
        if pre:
            pre(st)
        node = func.node
        names = [a.arg for a in node.args.posonlyargs + node.args.args]
        bound = {}
        args = args or {}
        for n in names + [a.arg for a in node.args.kwonlyargs]:
            bound[n] = args.get(n, param(n))
        if node.args.vararg:
            bound[node.args.vararg.arg] = args.get(
                node.args.vararg.arg, param("*" + node.args.vararg.arg))
        if node.args.kwarg:
            bound[node.args.kwarg.arg] = args.get(
                node.args.kwarg.arg, param("**" + node.args.kwarg.arg))
        fcls = cls or func.cls
        if fcls is not None and names and "staticmethod" not in func.decorators:
            if "classmethod" in func.decorators:
                bound[names[0]] = self_val or mk("class", fcls)
            else:
                bound[names[0]] = self_val or mk("self", fcls)
        outs = self.exec_function(func, None, bound, st)
        paths = []
        for s, o in outs:
            if o[0] == "ret":
                paths.append(Path(s, "return", self.mat(o[1], s)))
            elif o[0] == "raise":
                paths.append(Path(s, "raise", o[1]))
            else:
                paths.append(Path(s, o[0], NONE))
        return paths

    def run_value(self, fval, args, st=None, kwargs=()):
        """Call a function value (closure) found during an analysis"""
        st = st.fork() if st is not None else State()
        rz = []
        res = self.call(fval, list(args), list(kwargs), st, self.root_frame(), rz, None)
        paths = [Path(s, "return", self.mat(v, s)) for s, v in res]
        paths += [Path(s, "raise", o[1]) for s, o in rz]
        return paths

    def root_frame(self):
        return Frame(None, None, None, None)

    # ------------------------------------------------------------ functions
    def exec_function(self, func, closure, bound, st, yield_handler=None, cls=None):
        node = func.node
        fr = Frame(func, func.module, closure, cls or func.cls)
        fr.yield_handler = yield_handler
        self.functions_seen[func.qual] = func.site
        if isinstance(node, ast.Lambda):
            fr.locals = set()
        else:
            fr.locals, fr.globals, fr.nonlocals = _assigned_names(node)
        fr.locals = set(fr.locals) | set(bound)
        fr.keep = has_nested(node)
        st.frames[fr] = dict(bound)
        self.stack.append(func)
        try:
            if isinstance(node, ast.Lambda):
                rz = []
                res = self.ev(node.body, st, fr, rz)
                outs = [(s, ("ret", v)) for s, v in res] + rz
            else:
                outs = self.block(node.body, st, fr)
                outs = [(s, o if o is not None else ("ret", NONE)) for s, o in outs]
        finally:
            self.stack.pop()
        if not fr.keep:
            for s, _ in outs:
                s.frames.pop(fr, None)
        return self.merge(outs)

    keep_pc = False       # do not join states that differ in their conditions

    def merge(self, outs):
        if len(outs) <= 1:
            return outs
        groups = {}
        order = []
        for s, o in outs:
            k = (s.key(), o, tuple(s.pc.items())) if self.keep_pc else (s.key(), o)
            if k in groups:
                g = groups[k][0]
                if g.pc != s.pc:
                    g.pc = {a: b for a, b in g.pc.items() if s.pc.get(a, self) == b}
            else:
                groups[k] = (s, o)
                order.append(k)
        res = [groups[k] for k in order]
        if len(res) > self.max_states:
            self.truncated = True
            res = res[:self.max_states]
        return res

    # ------------------------------------------------------------ events
    def event(self, st, kind, term, node, fr, extra=None):
        if self.want is not None and not self.want(kind, term):
            return
        func = fr.func if fr is not None else None
        if func is not None and node is not None:
            site = "{}:{}".format(func.module.rel, getattr(node, "lineno", 0))
        else:
            site = "?"
        key = ("ev", kind, term, extra, site, func.qual if func else None)
        e = self._ev_intern.get(key)
        if e is None:
            e = Event(kind, term, extra, site, func)
            self._ev_intern[key] = e
        st.ev = mk("evl", st.ev, e)

    _ev_intern = {}

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        states = [st]
        done = []
        for stmt in stmts:
            nxt = []
            for s in states:
                for s2, o in self.stmt(stmt, s, fr):
                    if o is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, o))
            nxt = self.merge(nxt)
            states = [s for s, _ in nxt]
            if not states:
                break
        return self.merge([(s, None) for s in states] + done)

    def stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken("statement {} not supported ({}:{})".format(
                type(n).__name__, fr.module.rel if fr.module else "?", n.lineno))
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        rz = []
        res = self.ev(n.value, st, fr, rz)
        return [(s, None) for s, _ in res] + rz

    def s_Assign(self, n, st, fr):
        rz = []
        out = []
        for s, v in self.ev(n.value, st, fr, rz):
            cur = [s]
            for t in n.targets:
                nxt = []
                for c in cur:
                    nxt.extend(self.assign(t, v, c, fr, rz))
                cur = nxt
            out.extend((c, None) for c in cur)
        return out + rz

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, None)]
        rz = []
        out = []
        for s, v in self.ev(n.value, st, fr, rz):
            out.extend((c, None) for c in self.assign(n.target, v, s, fr, rz))
        return out + rz

    def s_AugAssign(self, n, st, fr):
        rz = []
        out = []
        load = _as_load(n.target)
        for s, l in self.ev(load, st, fr, rz):
            for s2, r in self.ev(n.value, s, fr, rz):
                op = type(n.op).__name__
                if l.tag == "ref" and op == "Add" and s2.heap[l][0] == "list":
                    elts, _ = self.iter_known(r, s2)
                    extra = elts if elts is not None else [mk("star", r)]
                    s2.heap[l] = ("list", s2.heap[l][1] + tuple(extra))
                    out.append((s2, None))
                    continue
                v = self.binop(op, l, r, s2)
                self.event(s2, "aug", l, n, fr, mk("augv", op, self.mat(r, s2)))
                for s3 in self.assign(n.target, v, s2, fr, rz, aug=True):
                    out.append((s3, None))
        return out + rz

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ("ret", NONE))]
        rz = []
        res = self.ev(n.value, st, fr, rz)
        return [(s, ("ret", v)) for s, v in res] + rz

    def s_If(self, n, st, fr):
        rz = []
        ts, fs = self.branch(n.test, st, fr, rz)
        out = []
        for s in ts:
            out.extend(self.block(n.body, s, fr))
        for s in fs:
            if n.orelse:
                out.extend(self.block(n.orelse, s, fr))
            else:
                out.append((s, None))
        return self.merge(out + rz)

    def s_Assert(self, n, st, fr):
        rz = []
        ts, fs = self.branch(n.test, st, fr, rz)
        out = [(s, None) for s in ts]
        out += [(s, ("raise", mk("exc", "AssertionError", NONE))) for s in fs]
        return out + rz

    def s_While(self, n, st, fr):
        rz = []
        done = []
        cur = [st]
        maxit = max(self.loops)
        exits = []
        const_true = isinstance(n.test, ast.Constant) and bool(n.test.value)
        for i in range(maxit + 1):
            nxt = []
            for s in cur:
                ts, fs = self.branch(n.test, s, fr, rz)
                exits.extend(fs)
                if i == maxit:
                    if not const_true:
                        exits.extend(t for t in ts)
                    continue
                for t in ts:
                    for s2, o in self.block(n.body, t, fr):
                        if o is None or o == ("cont",):
                            nxt.append(s2)
                        elif o == ("brk",):
                            done.append((s2, None))
                        else:
                            done.append((s2, o))
            cur = [s for s, _ in self.merge([(s, None) for s in nxt])]
        out = []
        for s in exits:
            if n.orelse:
                out.extend(self.block(n.orelse, s, fr))
            else:
                out.append((s, None))
        return self.merge(out + done + rz)

    def s_For(self, n, st, fr):
        rz = []
        out = []
        for s, it in self.ev(n.iter, st, fr, rz):
            def body(s2, val):
                res = []
                rz2 = []
                for s3 in self.assign(n.target, val, s2, fr, rz2):
                    res.extend(self.block(n.body, s3, fr))
                return res + rz2
            for s2, o in self.iterate(it, s, fr, body, n):
                if o == ("brk",):
                    out.append((s2, None))
                elif o is None:
                    if n.orelse:
                        out.extend(self.block(n.orelse, s2, fr))
                    else:
                        out.append((s2, None))
                else:
                    out.append((s2, o))
        return self.merge(out + rz)

    s_AsyncFor = s_For

    def iterate(self, it, st, fr, body, node):
        """Run body(state, element) for the elements of it.

        Returns [(state, outcome)], with None for exhausted iteration"""
        if it.tag == "gen":
            fval, args, kwargs = it.args

            def handler(s, v):
                outs = []
                for s2, o in body(s, v):
                    if o == ("cont",):
                        o = None
                    outs.append((s2, o))
                return outs
            res = []
            for s2, o in self.call_generator(fval, args, kwargs, st, fr, handler):
                if o[0] == "ret":
                    res.append((s2, None))
                elif o[0] == "pending":
                    res.append((s2, o[1]))
                else:
                    res.append((s2, o))
            return res
        if it.tag == "mapgen":
            fval, inner, cond = it.args

            def mapped(s, v):
                rz = []
                out = []
                for s2, r in self.call(fval, [v], [], s, fr, rz, node):
                    if cond:
                        for s3, b in self.truth(r, s2):
                            if b:
                                out.extend(body(s3, v))
                            else:
                                out.append((s3, None))
                    else:
                        out.extend(body(s2, r))
                return out + rz
            return self.iterate(inner, st, fr, mapped, node)
        known, elem = self.iter_known(it, st)
        if known is not None and len(known) <= 24 and \
                not any(isinstance(k, T) and k.tag == "star" for k in known):
            cur = [(st, None)]
            done = []
            for k in known:
                nxt = []
                for s, _ in cur:
                    for s2, o in body(s, k):
                        if o is None or o == ("cont",):
                            nxt.append((s2, None))
                        else:
                            done.append((s2, o))
                cur = self.merge(nxt)
                if not cur:
                    break
            return cur + done
        # symbolic number of iterations
        nk = mk("niter", self.mat(it, st))
        fixed = st.pc.get(nk)
        counts = [fixed] if fixed is not None else list(self.loops)
        done = []
        out = []
        if known is not None:      # known prefix with splats
            def elem(i, known=known):
                k = known[i % len(known)]
                if k.tag == "star":
                    return mk("elem", k.args[0], i // len(known))
                return k
        cur = [(st, None)]
        for i in range(max(counts) + 1):
            if i in counts:
                for s, _ in cur:
                    s2 = s.fork() if i < max(counts) else s
                    s2.pc[nk] = i
                    out.append((s2, None))
            if i == max(counts):
                break
            nxt = []
            for s, _ in cur:
                s = s if i not in counts else s.fork()
                s.pc.setdefault(mk("miniter", nk), True)
                for s2, o in body(s, elem(i)):
                    if o is None or o == ("cont",):
                        nxt.append((s2, None))
                    else:
                        s2.pc.pop(mk("miniter", nk), None)
                        if o == ("brk",):
                            s2.pc[nk] = i + 1
                        done.append((s2, o))
            cur = self.merge(nxt)
        for s, _ in out:
            s.pc.pop(mk("miniter", nk), None)
        return self.merge(out + done)

    def iter_known(self, it, st):
        """-> (list of elements | None, function(index) -> element term)"""
        g = it.tag
        if g == "tuple" or g == "list":
            return list(it.args), None
        if g == "ref":
            kind, content = st.heap[it][:2]
            if kind in ("list", "set"):
                return list(content), None
            if kind == "dict":
                if any(k.tag == "star" for k, _ in content):
                    return None, lambda i: mk("elem", self.mat(it, st), i)
                return [k for k, _ in content], None
        if g == "const" and isinstance(it.args[1], (str, bytes, tuple)) and len(it.args[1]) <= 24:
            return [const(x) for x in it.args[1]], None
        if g == "gvar":
            lit = self.gvar_literal(it)
            if lit is not None and isinstance(lit, (list, tuple, set, dict)):
                try:
                    return [self.lit_val(x) for x in lit], None
                except TypeError:
                    pass
        if g == "call":
            fn, pos, kw, _ = it.args
            if fn.tag == "builtin" and pos:
                nm = fn.args[0]
                if nm == "enumerate":
                    k, e = self.iter_known(pos[0], st)
                    start = pos[1] if len(pos) > 1 else dict(kw).get("start")
                    if k is not None:
                        if start is None or is_const(start):
                            b = 0 if start is None else start.args[1]
                            return [mk("tuple", const(i + b), x)
                                    for i, x in enumerate(k)], None
                        return [mk("tuple", mk("binop", "Add", start, const(i)), x)
                                for i, x in enumerate(k)], None
                    base = pos[0]
                    if start is None or (is_const(start) and start.args[1] == 0):
                        return None, lambda i: mk("tuple", mk("idx", base, i), e(i))
                    return None, lambda i: mk(
                        "tuple", mk("binop", "Add", start, mk("idx", base, i)), e(i))
                if nm == "zip":
                    ks = [self.iter_known(p, st) for p in pos]
                    if all(k is not None for k, _ in ks):
                        return [mk("tuple", *x) for x in zip(*[k for k, _ in ks])], None
                    def ez(i):
                        parts = []
                        for k, e in ks:
                            if k is not None:
                                parts.append(k[i] if i < len(k) else mk("past", i))
                            else:
                                parts.append(e(i))
                        return mk("tuple", *parts)
                    return None, ez
                if nm in IDENTITY_ITER and len(pos) == 1:
                    return self.iter_known(pos[0], st)
                if nm == "range":
                    a = [x.args[1] for x in pos if is_const(x)]
                    if len(a) == len(pos):
                        r = list(range(*a))
                        if len(r) <= 24:
                            return [const(x) for x in r], None
                    if len(pos) == 1 and pos[0].tag == "call" and \
                            pos[0].args[0] is mk("builtin", "len"):
                        x = pos[0].args[1][0]
                        return None, lambda i: mk("idx", x, i)
            view = None
            if fn.tag == "ext" and fn.args[0] in DICT_VIEWS and pos:
                view, d = DICT_VIEWS[fn.args[0]], pos[0]
            elif fn.tag == "attr" and fn.args[1] in ("items", "values", "keys") and not pos:
                view, d = fn.args[1], fn.args[0]
            if view is not None:
                pairs = None
                if d.tag == "gvar":
                    lit = self.gvar_literal(d)
                    if isinstance(lit, dict):
                        pairs = [(self.lit_val(k), self.lit_val(v)) for k, v in lit.items()]
                elif d.tag == "dict":
                    pairs = [tuple(p.args) for p in d.args]
                    if any(p[0].tag == "star" for p in pairs):
                        pairs = None
                if pairs is not None:
                    if view == "items":
                        return [mk("tuple", k, v) for k, v in pairs], None
                    if view == "values":
                        return [v for _, v in pairs], None
                    return [k for k, _ in pairs], None
                if view == "items":
                    return None, lambda i: mk("tuple", mk("elem", d, i),
                                              mk("item", d, mk("elem", d, i)))
                if view == "values":
                    return None, lambda i: mk("item", d, mk("elem", d, i))
                return None, lambda i: mk("elem", d, i)
        if g == "dictview":
            view, ref = it.args
            if ref.tag == "ref":
                content = st.heap[ref][1]
                if not any(k.tag == "star" for k, _ in content):
                    if view == "items":
                        return [mk("tuple", k, v) for k, v in content], None
                    if view == "values":
                        return [v for _, v in content], None
                    return [k for k, _ in content], None
        mit = self.mat(it, st)
        return None, lambda i: mk("elem", mit, i)

    def lit_val(self, x):
        if isinstance(x, (list, tuple)):
            return mk("tuple", *[self.lit_val(y) for y in x])
        hash(x)
        return const(x)

    def gvar_literal(self, gv):
        mod = self.project.modules.get(gv.args[0])
        if mod is None:
            return None
        vals = mod.assigns.get(gv.args[1])
        if not vals or len(vals) != 1 or vals[0] is None:
            return None
        try:
            return ast.literal_eval(vals[0])
        except (ValueError, TypeError, SyntaxError):
            return None

    def s_Break(self, n, st, fr):
        return [(st, ("brk",))]

    def s_Continue(self, n, st, fr):
        return [(st, ("cont",))]

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            exc = st.exc[-1] if st.exc else mk("exc", "RuntimeError", NONE)
            self.event(st, "raise", exc, n, fr)
            return [(st, ("raise", exc))]
        rz = []
        out = []
        for s, v in self.ev(n.exc, st, fr, rz):
            exc = v if v.tag == "exc" else mk("exc", self.exc_name(v), v)
            self.event(s, "raise", exc, n, fr)
            out.append((s, ("raise", exc)))
        return out + rz

    def exc_name(self, v):
        if v.tag == "call":
            v = v.args[0]
        if v.tag == "new":
            return v.args[0].name
        if v.tag == "class":
            return v.args[0].name
        if v.tag in ("builtin", "ext", "name"):
            return v.args[0].split(".")[-1]
        return "?"

    def s_Delete(self, n, st, fr):
        rz = []
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.frames[fr].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s, fr, rz):
                        s2.over.pop((b, t.attr), None)
                        self.event(s2, "delattr", b, n, fr, const(t.attr))
                        nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s, fr, rz):
                        for s3, k in self.ev(t.slice, s2, fr, rz):
                            if b.tag == "ref" and s3.heap[b][0] == "dict":
                                s3.heap[b] = ("dict", tuple(
                                    p for p in s3.heap[b][1] if p[0] is not k))
                            else:
                                s3.over.pop((b, k), None)
                                self.event(s3, "delitem", self.mat(b, s3), n, fr, k)
                            nxt.append(s3)
                else:
                    nxt.append(s)
            cur = nxt
        return [(s, None) for s in cur] + rz

    def s_Import(self, n, st, fr):
        table = {}
        fr.module.collect_import(n, table)
        for k, imp in table.items():
            r = fr.module.resolve_import(imp)
            st.frames[fr][k] = self.sym(r) if r is not None else mk("name", k)
        return [(st, None)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st, fr):
        fi = FuncInfo(fr.module, n, None, fr.func)
        v = mk("func", _func_intern(fi, n), fr)
        rz = []
        cur = [(st, v)]
        for d in reversed(n.decorator_list):
            name = _decname(d)
            if name in self.transparent_decorators or name.split(".")[-1] in self.transparent_decorators:
                continue
            nxt = []
            for s, val in cur:
                for s2, dv in self.ev(d, s, fr, rz):
                    nxt.extend(self.call(dv, [val], [], s2, fr, rz, n))
            cur = nxt
        for s, val in cur:
            self.set_name(n.name, val, s, fr)
        return [(s, None) for s, _ in cur] + rz

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        qual = (fr.func.qual if fr.func else fr.module.name) + "." + n.name
        ci = _class_intern(n, fr.module, qual)
        self.set_name(n.name, mk("class", ci), st, fr)
        return [(st, None)]

    def s_Try(self, n, st, fr):
        outs = self.block(n.body, st, fr)
        after = []
        for s, o in outs:
            if o is None:
                if n.orelse:
                    after.extend(self.block(n.orelse, s, fr))
                else:
                    after.append((s, None))
            elif o[0] == "raise" and n.handlers:
                after.extend(self.handle(n.handlers, s, o[1], fr))
            else:
                after.append((s, o))
        after = self.merge(after)
        if n.finalbody:
            fin = []
            for s, o in after:
                pend = o is not None and o[0] == "raise"
                if pend:
                    s.exc = s.exc + (o[1],)
                for s2, o2 in self.block(n.finalbody, s, fr):
                    if pend and s2.exc:
                        s2.exc = s2.exc[:-1]
                    fin.append((s2, o if o2 is None else o2))
            after = self.merge(fin)
        return after

    s_TryStar = s_Try

    def handle(self, handlers, st, exc, fr):
        out = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                m = self.exc_match(exc, h.type, fr, s)
                if m == "no":
                    nxt.append(s)
                    continue
                hs = s
                if m == "maybe":
                    nxt.append(s.fork())
                hs.exc = hs.exc + (exc,)
                if h.name:
                    self.set_name(h.name, exc, hs, fr)
                self.event(hs, "caught", exc, h, fr)
                for s2, o in self.block(h.body, hs, fr):
                    s2.exc = s2.exc[:-1]
                    out.append((s2, o))
            cur = nxt
        out.extend((s, ("raise", exc)) for s in cur)
        return out

    def exc_match(self, exc, htype, fr, st):
        if htype is None:
            return "yes"
        names = []
        elts = htype.elts if isinstance(htype, ast.Tuple) else [htype]
        for e in elts:
            d = dotted(e)
            names.append(d.split(".")[-1] if d else "?")
        en = exc.args[0]
        results = [self.exc_sub(en, nm, fr) for nm in names]
        if "yes" in results:
            return "yes"
        if "maybe" in results:
            return "maybe"
        return "no"

    def exc_sub(self, en, hn, fr):
        """is exception kind en caught by a handler of hn?"""
        if hn in ("BaseException",):
            return "yes"
        if en == "Exception*":
            return "yes" if hn == "Exception" else (
                "no" if hn in ("KeyboardInterrupt", "SystemExit", "GeneratorExit") else "maybe")
        if en == "BaseException*":
            return "maybe" if hn in ("KeyboardInterrupt", "SystemExit", "GeneratorExit") else "no"
        if en == "?":
            return "maybe"
        ec = getattr(builtins, en, None)
        hc = getattr(builtins, hn, None)
        if isinstance(ec, type) and isinstance(hc, type):
            return "yes" if issubclass(ec, hc) else "no"
        if hn == "Exception":
            return "no" if en in ("KeyboardInterrupt", "SystemExit") else "yes"
        if en == hn:
            return "yes"
        return "no" if isinstance(ec, type) else "maybe"

    def s_With(self, n, st, fr):
        return self.with_items(n.items, n.body, st, fr, n)

    s_AsyncWith = s_With

    def with_items(self, items, body, st, fr, n):
        if not items:
            return self.block(body, st, fr)
        item = items[0]
        rz = []
        out = []
        for s, ctx in self.ev(item.context_expr, st, fr, rz):
            def cont(s2, val):
                res = []
                rz2 = []
                cur = [s2]
                if item.optional_vars is not None:
                    cur = self.assign(item.optional_vars, val, s2, fr, rz2)
                for s3 in cur:
                    res.extend(self.with_items(items[1:], body, s3, fr, n))
                return res + rz2
            if ctx.tag == "cm":
                fval, args, kwargs = ctx.args
                self.event(s, "enter", ctx, n, fr)
                for s2, o in self.call_generator(fval, args, kwargs, s, fr, cont):
                    self.event(s2, "exit", ctx, n, fr)
                    if o[0] == "ret":
                        out.append((s2, None))
                    elif o[0] == "pending":
                        out.append((s2, o[1]))
                    else:
                        out.append((s2, o))
                continue
            ty = self.type_of(ctx, s)
            enter = ty.find_method("__enter__") if ty else None
            leave = ty.find_method("__exit__") if ty else None
            mctx = self.mat(ctx, s)
            if enter and leave and not self.is_opaque(enter):
                for s2, v in self.call(mk("bound", ctx, enter), [], [], s, fr, rz, n):
                    for s3, o in cont(s2, v):
                        ex = o[1] if o is not None and o[0] == "raise" else NONE
                        rz3 = []
                        for s4, r in self.call(mk("bound", ctx, leave),
                                               [ex, ex, ex], [], s3, fr, rz3, n):
                            if o is not None and o[0] == "raise" and r is TRUE:
                                out.append((s4, None))
                            else:
                                out.append((s4, o))
                        out.extend(rz3)
                continue
            self.event(s, "enter", mctx, n, fr)
            for s2, o in cont(s, mk("entered", mctx)):
                self.event(s2, "exit", mctx, n, fr)
                out.append((s2, o))
        return self.merge(out + rz)

    def s_Match(self, n, st, fr):
        raise AnalysisBroken("match statement in analysed code")

    # ------------------------------------------------------------ assignment
    def set_name(self, name, val, st, fr):
        if name in fr.globals:
            st.over[(mk("gvar", fr.module.name, name), "=")] = val
            return
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if name in f.locals and f in st.frames:
                    st.frames[f][name] = val
                    return
                f = f.closure
        st.frames.setdefault(fr, {})[name] = val

    def assign(self, target, val, st, fr, rz, aug=False):
        if isinstance(target, ast.Name):
            self.set_name(target.id, val, st, fr)
            if target.id in fr.globals:
                self.event(st, "setglobal", mk("gvar", fr.module.name, target.id),
                           target, fr, self.mat(val, st))
            return [st]
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st, fr, rz):
                out.extend(self.store_attr(b, target.attr, val, s, fr, rz, target))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.ev(target.value, st, fr, rz):
                for s2, k in self.ev(target.slice, s, fr, rz):
                    self.store_item(b, k, val, s2, fr, target)
                    out.append(s2)
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            elts = target.elts
            starred = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            known, elem = self.iter_known(val, st) if val.tag in (
                "tuple", "list", "ref", "const") else (None, None)
            if known is not None and any(k.tag == "star" for k in known):
                known = None
            cur = [st]
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    if known is not None:
                        rest = len(elts) - i - 1
                        v = mk("list", *known[i:len(known) - rest])
                    else:
                        v = mk("item", self.mat(val, st),
                               mk("slice", const(i), const(-(len(elts) - i - 1)), NONE))
                    tgt = e.value
                else:
                    tgt = e
                    if known is not None:
                        j = i if not starred or i < starred[0] else i - len(elts)
                        v = known[j] if -len(known) <= j < len(known) else mk("unpack_error", i)
                    else:
                        j = i if not starred or i < starred[0] else i - len(elts)
                        v = self.item(val, const(j), st)
                nxt = []
                for s in cur:
                    nxt.extend(self.assign(tgt, v, s, fr, rz))
                cur = nxt
            return cur
        if isinstance(target, ast.Starred):
            return self.assign(target.value, val, st, fr, rz)
        raise AnalysisBroken("assignment target " + type(target).__name__)

    def store_attr(self, base, name, val, st, fr, rz, node):
        ty = self.type_of(base, st)
        if ty is not None:
            for c in ty.mro():
                if name + "=set" in c.methods:
                    setter = c.methods[name + "=set"]
                    if not self.is_opaque(setter):
                        return [s for s, _ in self.call(
                            mk("bound", base, setter), [val], [], st, fr, rz, node)]
        st.over[(base, name)] = val
        self.event(st, "setattr", self.mat(base, st), node, fr,
                   mk("kv", name, self.mat(val, st)))
        return [st]

    def store_item(self, base, key, val, st, fr, node):
        if base.tag == "ref":
            kind, content = st.heap[base][:2]
            if kind == "dict":
                new = tuple((k, v) for k, v in content if k is not key)
                st.heap[base] = ("dict", new + ((key, val),))
                return
            if kind == "list" and is_const(key) and isinstance(key.args[1], int):
                c = list(content)
                try:
                    c[key.args[1]] = val
                    st.heap[base] = ("list", tuple(c))
                except IndexError:
                    pass
                return
        st.over[(base, key)] = val
        self.event(st, "setitem", self.mat(base, st), node, fr,
                   mk("kv", self.mat(key, st), self.mat(val, st)))

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr, rz):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken("expression {} not supported".format(type(n).__name__))
        return m(n, st, fr, rz)

    def ev_many(self, nodes, st, fr, rz):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in cur:
                for s2, v in self.ev(n, s, fr, rz):
                    nxt.append((s2, vals + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st, fr, rz):
        return [(st, const(n.value))]

    def e_Name(self, n, st, fr, rz):
        return [(st, self.load_name(n.id, st, fr, n))]

    def load_name(self, name, st, fr, node=None):
        f = fr
        first = True
        while f is not None:
            loc = st.frames.get(f)
            if loc is not None and name in loc and not (first and name in fr.globals):
                return loc[name]
            if first and name in f.locals and name not in f.globals and loc is not None:
                self.event(st, "unbound", const(name), node, fr)
                return mk("unbound", name)
            first = False
            f = f.closure
        if fr.module is not None:
            r = fr.module.resolve(name)
            if r is not None:
                v = self.sym(r)
                if v.tag == "gvar" and (v, "=") in st.over:
                    return st.over[(v, "=")]
                return v
        if name in ("__file__", "__name__"):
            return mk("name", name)
        if name in BUILTIN_NAMES:
            return mk("builtin", name)
        return mk("name", name)

    def sym(self, r):
        if isinstance(r, FuncInfo):
            return mk("func", r, None)
        if isinstance(r, ClassInfo):
            return mk("class", r)
        if isinstance(r, Module):
            return mk("module", r)
        if r[0] == "ext":
            return mk("ext", r[1])
        gv = mk("gvar", r[1], r[2])
        mod = self.project.modules[r[1]]
        vals = mod.assigns.get(r[2], [])
        if len(vals) == 1 and vals[0] is not None:
            v = vals[0]
            if isinstance(v, ast.Constant):
                return const(v.value)
            d = dotted(v)
            if d and "." in d:
                rr = mod.resolve_expr(v)
                if isinstance(rr, tuple) and rr[0] == "ext":
                    return gv
        return gv

    def type_of(self, v, st=None):
        g = v.tag
        if g == "self":
            return v.args[0]
        if g == "new":
            return v.args[0]
        if g == "param":
            return self.ptypes.get(v.args[0])
        if g == "typed":
            return v.args[0]
        if g == "gvar":
            t = self.gtypes.get(v.args[1])
            if t is not None:
                return t
            mod = self.project.modules.get(v.args[0])
            vals = mod.assigns.get(v.args[1], []) if mod else []
            if len(vals) == 1 and isinstance(vals[0], ast.Call):
                r = mod.resolve_expr(vals[0].func)
                if isinstance(r, ClassInfo):
                    return r
            return None
        if g == "attr":
            t = self.atypes.get(v.args[1])
            if t is not None:
                return t
            bt = self.type_of(v.args[0], st)
            if bt is not None:
                for c in bt.mro():
                    t = self.atypes.get((c.name, v.args[1]))
                    if t is not None:
                        return t
                return self.inferred_attr(bt, v.args[1])
            return None
        if g == "call":
            t = self.atypes.get(("call", show(v.args[0])))
            return t
        return None

    def inferred_attr(self, ci, name):
        if self._attr_types is None:
            self._attr_types = {}
        key = (ci, name)
        if key in self._attr_types:
            return self._attr_types[key]
        cands = set()
        for c in ci.mro():
            for m in c.methods.values():
                selfname = m.params()[0] if m.params() else None
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == name and \
                                    isinstance(t.value, ast.Name) and t.value.id == selfname:
                                if isinstance(n.value, ast.Call):
                                    r = c.module.resolve_expr(n.value.func)
                                    cands.add(r if isinstance(r, ClassInfo) else None)
                                elif isinstance(n.value, ast.Constant) and n.value.value is None:
                                    pass
                                else:
                                    cands.add(None)
        r = cands.pop() if len(cands) == 1 else None
        self._attr_types[key] = r
        return r

    def e_Attribute(self, n, st, fr, rz):
        out = []
        for s, b in self.ev(n.value, st, fr, rz):
            out.extend(self.load_attr(b, n.attr, s, fr, rz, n))
        return out

    def load_attr(self, b, name, st, fr, rz, node):
        if (b, name) in st.over:
            return [(st, st.over[(b, name)])]
        g = b.tag
        if g == "module":
            r = b.args[0].resolve(name)
            if r is not None:
                v = self.sym(r)
                if v.tag == "gvar" and (v, "=") in st.over:
                    v = st.over[(v, "=")]
                return [(st, v)]
            return [(st, mk("attr", b, name))]
        if g == "ext":
            return [(st, mk("ext", b.args[0] + "." + name))]
        if g == "ref":
            return [(st, mk("bmeth", b, name))]
        if g == "super":
            ci, sv = b.args
            if ci is not None:
                mro = (self.type_of(sv, st) or ci).mro()
                rest = mro[mro.index(ci) + 1:] if ci in mro else ci.mro()[1:]
                for c in rest:
                    if name in c.methods:
                        return [(st, mk("bound", sv, c.methods[name]))]
            return [(st, mk("attr", b, name))]
        if g == "class":
            ci = b.args[0]
            m = ci.find_method(name)
            if m is not None:
                if "classmethod" in m.decorators:
                    return [(st, mk("bound", b, m))]
                return [(st, mk("func", m, None))]
            for c in ci.mro():
                if name in c.inner:
                    return [(st, mk("class", c.inner[name]))]
            fa = ci.find_attr(name)
            if fa is not None and isinstance(fa[1], ast.Constant) and name not in self.symbolic:
                return [(st, const(fa[1].value))]
            return [(st, mk("attr", b, name))]
        ty = self.type_of(b, st)
        if ty is not None:
            m = ty.find_method(name)
            if m is not None:
                if "staticmethod" in m.decorators:
                    return [(st, mk("func", m, None))]
                if "classmethod" in m.decorators:
                    return [(st, mk("bound", mk("class", ty), m))]
                if any(d == "property" or d.endswith("reference_property") for d in m.decorators):
                    if self.is_opaque(m):
                        return [(st, mk("attr", b, name))]
                    return self.call(mk("bound", b, m), [], [], st, fr, rz, node)
                return [(st, mk("bound", b, m))]
            fa = ty.find_attr(name)
            if fa is not None:
                if isinstance(fa[1], ast.Constant) and name not in self.symbolic:
                    return [(st, const(fa[1].value))]
        return [(st, mk("attr", b, name))]

    def e_Subscript(self, n, st, fr, rz):
        out = []
        for s, b in self.ev(n.value, st, fr, rz):
            for s2, k in self.ev(n.slice, s, fr, rz):
                ty = self.type_of(b, s2)
                m = ty.find_method("__getitem__") if ty is not None else None
                if m is not None and not self.is_opaque(m):
                    out.extend(self.call(mk("bound", b, m), [k], [], s2, fr, rz, n))
                    continue
                v = self.item(b, k, s2)
                if v.tag == "item" and v.args[1].tag != "const":
                    self.event(s2, "getitem", v, n, fr)
                if self.raiser is not None and v.tag == "item":
                    for nm in self.raiser(v) or ():
                        rz.append((s2.fork(), ("raise", mk("exc", nm, v))))
                out.append((s2, v))
        return out

    def item(self, b, k, st):
        if (b, k) in st.over:
            return st.over[(b, k)]
        if b.tag == "ref":
            kind, content = st.heap[b][:2]
            if kind == "dict":
                for kk, v in reversed(content):
                    if kk is k:
                        return v
                b = self.mat(b, st)
            elif kind == "list":
                r = self._seq_item(list(content), k, "list")
                if r is not None:
                    return r
                b = self.mat(b, st)
        elif b.tag in ("tuple", "list"):
            r = self._seq_item(list(b.args), k, b.tag)
            if r is not None:
                return r
        elif b.tag == "dict":
            for p in b.args:
                if p.args[0] is k:
                    return p.args[1]
        elif b.tag == "gvar" and is_const(k):
            lit = self.gvar_literal(b)
            try:
                if lit is not None and isinstance(lit, (dict, list, tuple)):
                    return self.lit_val(lit[k.args[1]])
            except (KeyError, IndexError, TypeError):
                pass
        elif b.tag == "const" and is_const(k) and isinstance(b.args[1], (str, bytes, tuple)):
            try:
                return const(b.args[1][k.args[1]])
            except (IndexError, TypeError):
                pass
        elif b.tag == "call" and b.args[0].tag == "builtin" and \
                b.args[0].args[0] in ("list", "tuple") and len(b.args[1]) == 1:
            return self.item(b.args[1][0], k, st)
        if k.tag == "idx" and k.args[0] is b:
            return mk("elem", b, k.args[1])
        return mk("item", self.mat(b, st), self.mat(k, st))

    def _seq_item(self, content, k, kind):
        if any(c.tag == "star" for c in content):
            return None
        if is_const(k) and isinstance(k.args[1], int):
            try:
                return content[k.args[1]]
            except IndexError:
                return mk("index_error", k)
        if k.tag == "slice" and all(is_const(x) for x in k.args):
            return mk(kind, *content[slice(*[x.args[1] for x in k.args])])
        return None

    def e_Slice(self, n, st, fr, rz):
        parts = [n.lower, n.upper, n.step]
        nodes = [p if p is not None else ast.Constant(value=None) for p in parts]
        return [(s, mk("slice", *[self.mat(v, s) for v in vs]))
                for s, vs in self.ev_many(nodes, st, fr, rz)]

    def e_Tuple(self, n, st, fr, rz):
        return [(s, mk("tuple", *vs)) for s, vs in self.ev_elts(n.elts, st, fr, rz)]

    def ev_elts(self, elts, st, fr, rz):
        cur = [(st, [])]
        for e in elts:
            nxt = []
            for s, vals in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr, rz):
                        k, _ = self.iter_known(v, s2)
                        if k is not None:
                            nxt.append((s2, vals + k))
                        else:
                            nxt.append((s2, vals + [mk("star", self.mat(v, s2))]))
                else:
                    for s2, v in self.ev(e, s, fr, rz):
                        nxt.append((s2, vals + [v]))
            cur = nxt
        return cur

    def alloc(self, st, kind, content):
        st.nref += 1
        r = mk("ref", st.nref)
        st.heap[r] = (kind, tuple(content))
        return r

    def e_List(self, n, st, fr, rz):
        return [(s, self.alloc(s, "list", vs)) for s, vs in self.ev_elts(n.elts, st, fr, rz)]

    def e_Set(self, n, st, fr, rz):
        return [(s, self.alloc(s, "set", vs)) for s, vs in self.ev_elts(n.elts, st, fr, rz)]

    def e_Dict(self, n, st, fr, rz):
        cur = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, items in cur:
                if k is None:
                    for s2, d in self.ev(v, s, fr, rz):
                        if d.tag == "ref" and s2.heap[d][0] == "dict":
                            nxt.append((s2, items + list(s2.heap[d][1])))
                        else:
                            nxt.append((s2, items + [(mk("star", self.mat(d, s2)), NONE)]))
                else:
                    for s2, kv in self.ev(k, s, fr, rz):
                        for s3, vv in self.ev(v, s2, fr, rz):
                            nxt.append((s3, [p for p in items if p[0] is not kv] + [(kv, vv)]))
            cur = nxt
        return [(s, self.alloc(s, "dict", items)) for s, items in cur]

    def e_Starred(self, n, st, fr, rz):
        return [(s, mk("star", v)) for s, v in self.ev(n.value, st, fr, rz)]

    def e_BinOp(self, n, st, fr, rz):
        out = []
        for s, (l, r) in self.ev_many([n.left, n.right], st, fr, rz):
            out.append((s, self.binop(type(n.op).__name__, l, r, s)))
        return out

    def binop(self, op, l, r, st):
        l0, r0 = l, r
        if op == "Add":
            kl = self.seq_known(l, st)
            kr = self.seq_known(r, st)
            if kl is not None and kr is not None and kl[0] == kr[0]:
                if kl[0] == "tuple":
                    return mk("tuple", *(kl[1] + kr[1]))
                return self.alloc(st, "list", kl[1] + kr[1])
            if kl is not None and kr is None and kl[0] == "list":
                return self.alloc(st, "list", kl[1] + [mk("star", self.mat(r, st))])
            if kr is not None and kl is None and kr[0] == "list":
                return self.alloc(st, "list", [mk("star", self.mat(l, st))] + kr[1])
        l, r = self.mat(l, st), self.mat(r, st)
        if is_const(l) and is_const(r):
            a, b = l.args[1], r.args[1]
            try:
                if op == "Add":
                    return const(a + b)
                if op == "Sub":
                    return const(a - b)
                if op == "Mult":
                    return const(a * b)
                if op == "Mod" and not isinstance(a, str):
                    return const(a % b)
                if op == "BitOr":
                    return const(a | b)
            except TypeError:
                pass
        if op == "Add" and (self.is_strish(l) or self.is_strish(r)):
            return fmt([_bytes_text(l), _bytes_text(r)])
        if op == "Mod" and is_const(l) and isinstance(l.args[1], str):
            f = percent_format(l.args[1], r)
            if f is not None:
                return f
        return mk("binop", op, l, r)

    def seq_known(self, v, st):
        if v.tag in ("tuple", "list"):
            return v.tag, list(v.args)
        if v.tag == "ref" and st.heap[v][0] == "list":
            return "list", list(st.heap[v][1])
        return None

    def is_strish(self, v):
        if v.tag == "fmt":
            return True
        if v.tag == "call" and v.args[0] is mk("builtin", "str"):
            return True
        return is_const(v) and isinstance(v.args[1], (str, bytes))

    def e_UnaryOp(self, n, st, fr, rz):
        if isinstance(n.op, ast.Not):
            ts, fs = self.branch(n.operand, st, fr, rz)
            return [(s, FALSE) for s in ts] + [(s, TRUE) for s in fs]
        out = []
        for s, v in self.ev(n.operand, st, fr, rz):
            if is_const(v) and isinstance(n.op, ast.USub) and isinstance(v.args[1], (int, float)):
                out.append((s, const(-v.args[1])))
            else:
                out.append((s, mk("unop", type(n.op).__name__, self.mat(v, s))))
        return out

    def e_BoolOp(self, n, st, fr, rz):
        is_or = isinstance(n.op, ast.Or)
        cur = [st]
        out = []
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for s2, v in self.ev(e, s, fr, rz):
                    if last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2):
                        if b == is_or:
                            out.append((s3, v))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    def e_IfExp(self, n, st, fr, rz):
        ts, fs = self.branch(n.test, st, fr, rz)
        out = []
        for s in ts:
            out.extend(self.ev(n.body, s, fr, rz))
        for s in fs:
            out.extend(self.ev(n.orelse, s, fr, rz))
        return out

    def e_Compare(self, n, st, fr, rz):
        if len(n.ops) == 1:
            out = []
            for s, (l, r) in self.ev_many([n.left, n.comparators[0]], st, fr, rz):
                res = self.compare(type(n.ops[0]).__name__, l, r, s)
                if isinstance(res, list):
                    out.extend((s2, const(b)) for s2, b in res)
                else:
                    atom, pos = res
                    # keep comparisons symbolic as values
                    known = self.lookup_pc(atom, s)
                    if known is not None:
                        out.append((s, const(known == pos)))
                    else:
                        out.append((s, mk("bool", atom, pos)))
            return out
        ts, fs = self.branch(n, st, fr, rz)
        return [(s, TRUE) for s in ts] + [(s, FALSE) for s in fs]

    def e_Lambda(self, n, st, fr, rz):
        fi = _lambda_intern(n, fr)
        return [(st, mk("func", fi, fr))]

    def e_JoinedStr(self, n, st, fr, rz):
        cur = [(st, [])]
        for v in n.values:
            nxt = []
            for s, parts in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((s, parts + [const(v.value)]))
                else:
                    for s2, x in self.ev(v.value, s, fr, rz):
                        x = self.mat(x, s2)
                        spec = None
                        if v.format_spec is not None:
                            spec = ast.unparse(v.format_spec)
                        if v.conversion == 114:
                            x = mk("call", mk("builtin", "repr"), (x,), (), 0)
                        if spec:
                            x = mk("fspec", spec, x)
                        nxt.append((s2, parts + [strv(x)]))
            cur = nxt
        return [(s, fmt(p)) for s, p in cur]

    def e_FormattedValue(self, n, st, fr, rz):
        return self.ev(n.value, st, fr, rz)

    def e_NamedExpr(self, n, st, fr, rz):
        out = []
        for s, v in self.ev(n.value, st, fr, rz):
            self.set_name(n.target.id, v, s, fr)
            out.append((s, v))
        return out

    def e_Await(self, n, st, fr, rz):
        return self.ev(n.value, st, fr, rz)

    # comprehensions as loops
    def comp(self, n, st, fr, rz, kind, elts):
        cf = Frame(fr.func, fr.module, fr, None)
        cf.yield_handler = None
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        cf.locals = names
        st.frames[cf] = {}
        acc = self.alloc(st, kind, ())

        def emit(s):
            res = []
            rz2 = []
            for s2, vals in self.ev_many(elts, s, cf, rz2):
                if kind == "dict":
                    k, v = vals
                    s2.heap[acc] = ("dict", tuple(
                        p for p in s2.heap[acc][1] if p[0] is not k) + ((k, v),))
                else:
                    s2.heap[acc] = (kind, s2.heap[acc][1] + (vals[0],))
                res.append((s2, None))
            return res + rz2

        def level(i, s):
            if i == len(n.generators):
                return emit(s)
            g = n.generators[i]
            out = []
            rz2 = []
            src = fr if i == 0 else cf
            for s2, it in self.ev(g.iter, s, src, rz2):
                def body(s3, val):
                    res = []
                    rz3 = []
                    for s4 in self.assign(g.target, val, s3, cf, rz3):
                        cur = [s4]
                        skipped = []
                        for cond in g.ifs:
                            nxt = []
                            for s5 in cur:
                                ts, fs = self.branch(cond, s5, cf, rz3)
                                nxt.extend(ts)
                                skipped.extend(fs)
                            cur = nxt
                        for s5 in cur:
                            res.extend(level(i + 1, s5))
                        res.extend((s5, None) for s5 in skipped)
                    return self.merge(res + rz3)
                out.extend(self.iterate(it, s2, cf, body, n))
            return self.merge(out + rz2)

        out = []
        for s, o in level(0, st):
            if not has_nested(n):
                s.frames.pop(cf, None)
            if o is None:
                out.append((s, acc))
            else:
                rz.append((s, o))
        return out

    def e_ListComp(self, n, st, fr, rz):
        return self.comp(n, st, fr, rz, "list", [n.elt])

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fr, rz):
        return self.comp(n, st, fr, rz, "set", [n.elt])

    def e_DictComp(self, n, st, fr, rz):
        return self.comp(n, st, fr, rz, "dict", [n.key, n.value])

    # generators
    def e_Yield(self, n, st, fr, rz):
        out = []
        src = [(st, NONE)] if n.value is None else self.ev(n.value, st, fr, rz)
        f = fr
        for s, v in src:
            if f.yield_handler is None:
                self.event(s, "yield", self.mat(v, s), n, fr)
                out.append((s, mk("sent", self.mat(v, s))))
                continue
            saved = self.stack
            for s2, o in f.yield_handler(s, v):
                if o is None:
                    out.append((s2, NONE))
                elif o[0] == "raise":
                    rz.append((s2, o))
                else:
                    rz.append((s2, ("pending", o)))
        return out

    def e_YieldFrom(self, n, st, fr, rz):
        out = []
        for s, v in self.ev(n.value, st, fr, rz):
            if fr.yield_handler is None:
                self.event(s, "yieldfrom", self.mat(v, s), n, fr)
                out.append((s, mk("sent", self.mat(v, s))))
                continue
            for s2, o in self.iterate(v, s, fr, fr.yield_handler, n):
                if o is None:
                    out.append((s2, NONE))
                elif o[0] in ("raise", "pending"):
                    rz.append((s2, o))
                else:
                    rz.append((s2, ("pending", o)))
        return out

    def call_generator(self, fval, args, kwargs, st, fr, handler):
        fi = fval.args[0] if fval.tag == "func" else fval.args[1]
        closure = fval.args[1] if fval.tag == "func" else None
        pos = list(args)
        if fval.tag == "bound":
            pos.insert(0, fval.args[0])
        bound = self.bind(fi, pos, list(kwargs), st)
        if bound is None:
            return [(st, ("ret", NONE))]
        bound = self.fill_defaults(fi, bound, st, fr)
        if len(self.stack) > self.max_depth * 3 or self.stack.count(fi) > 1:
            return [(st, ("ret", NONE))]
        # the consumer runs while the generator is on the stack
        return self.exec_function(fi, closure, bound, st, yield_handler=handler)

    # ------------------------------------------------------------ conditions
    def branch(self, n, st, fr, rz):
        """-> (true states, false states)"""
        if isinstance(n, ast.BoolOp):
            is_or = isinstance(n.op, ast.Or)
            cur = [st]
            ts, fs = [], []
            for e in n.values:
                nxt = []
                for s in cur:
                    t, f = self.branch(e, s, fr, rz)
                    if is_or:
                        ts.extend(t)
                        nxt.extend(f)
                    else:
                        fs.extend(f)
                        nxt.extend(t)
                cur = nxt
            (fs if is_or else ts).extend(cur)
            return ts, fs
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.branch(n.operand, st, fr, rz)
            return f, t
        if isinstance(n, ast.Compare):
            cur = []
            for s, l in self.ev(n.left, st, fr, rz):
                cur.append((s, l))
            fs = []
            for op, c in zip(n.ops, n.comparators):
                nxt = []
                for s, l in cur:
                    for s2, r in self.ev(c, s, fr, rz):
                        for s3, b in self.cmp_branch(type(op).__name__, l, r, s2):
                            if b:
                                nxt.append((s3, r))
                            else:
                                fs.append(s3)
                cur = nxt
            return [s for s, _ in cur], fs
        ts, fs = [], []
        for s, v in self.ev(n, st, fr, rz):
            for s2, b in self.truth(v, s):
                (ts if b else fs).append(s2)
        return ts, fs

    def cmp_branch(self, op, l, r, st):
        res = self.compare(op, l, r, st)
        if isinstance(res, list):
            return res
        atom, pos = res
        return [(s, b == pos) for s, b in self.assume(atom, st)]

    def compare(self, op, l, r, st):
        """-> [(state, bool)] when decided or expanded, or (atom, polarity)"""
        neg = False
        if op in ("NotEq", "IsNot", "NotIn"):
            neg = True
            op = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[op]
        if op == "In":
            known = None
            if r.tag in ("tuple", "list") or (r.tag == "ref" and st.heap[r][0] != "obj"):
                known, _ = self.iter_known(r, st)
            if known is None and r.tag == "gvar":
                known, _ = self.iter_known(r, st)
            if known is not None and not any(k.tag == "star" for k in known) and len(known) <= 16:
                out = []
                cur = [st]
                for k in known:
                    nxt = []
                    for s in cur:
                        for s2, b in self.cmp_branch("Eq", l, k, s):
                            if b:
                                out.append((s2, not neg))
                            else:
                                nxt.append(s2)
                    cur = nxt
                out.extend((s, neg) for s in cur)
                return out
        lm, rm = self.mat(l, st), self.mat(r, st)
        if op in ("Gt", "GtE"):
            op = {"Gt": "Lt", "GtE": "LtE"}[op]
            lm, rm = rm, lm
        if is_const(lm) and is_const(rm):
            a, b = lm.args[1], rm.args[1]
            try:
                v = {"Eq": lambda: a == b, "Is": lambda: a is b or (type(a) is type(b) and a == b),
                     "Lt": lambda: a < b, "LtE": lambda: a <= b, "In": lambda: a in b}[op]()
                return [(st, bool(v) != neg)]
            except TypeError:
                pass
        if op in ("Eq", "Is"):
            if lm is rm and lm.tag not in ("unbound",):
                return [(st, not neg)]
            if is_const(lm) and not is_const(rm):
                lm, rm = rm, lm
            elif not is_const(rm) and repr(lm) > repr(rm):
                lm, rm = rm, lm
            if rm is NONE:
                if self.never_none(l if l.tag != "const" else r, st) or self.never_none(lm, st):
                    return [(st, neg)]
                op = "Is"
            if rm is TRUE and op == "Is" and lm.tag == "bool":
                return self._maybe_neg(lm.args[0], lm.args[1], neg)
            # length tests
            if op == "Eq" and is_const(rm) and rm.args[1] == 0 and rm.args[0] == "int" and is_len(lm):
                return (mk("truth", lm.args[1][0]), neg)
        if op in ("Lt", "LtE"):
            z = is_const(lm) and lm.args[0] == "int" and is_len(rm)
            if z and ((op == "Lt" and lm.args[1] == 0) or (op == "LtE" and lm.args[1] == 1)):
                return (mk("truth", rm.args[1][0]), not neg)
            z = is_const(rm) and rm.args[0] == "int" and is_len(lm)
            if z and ((op == "LtE" and rm.args[1] == 0) or (op == "Lt" and rm.args[1] == 1)):
                return (mk("truth", lm.args[1][0]), neg)
            # a < b  <=>  not b <= a : canonical on Lt/LtE with repr order
            if repr(lm) > repr(rm):
                return (mk("cmp", "LtE" if op == "Lt" else "Lt", rm, lm), neg)
        return (mk("cmp", op, lm, rm), not neg)

    def _maybe_neg(self, atom, pol, neg):
        return (atom, pol != neg)

    def never_none(self, v, st):
        return v.tag in ("new", "func", "bound", "class", "ref", "tuple", "list", "dict",
                         "fmt", "bool", "self", "module", "gen", "cm", "ext", "builtin",
                         "idx", "exc") or \
            (v.tag == "const" and v.args[1] is not None)

    def lookup_pc(self, atom, st):
        v = st.pc.get(atom)
        if v is not None:
            return v
        if atom.tag == "truth":
            x = atom.args[0]
            if st.pc.get(mk("cmp", "Is", x, NONE)) is True:
                return False
            n = st.pc.get(mk("niter", x))
            if n is not None:
                return n > 0
            if st.pc.get(mk("miniter", mk("niter", x))):
                return True
        if atom.tag == "cmp" and atom.args[0] in ("Is", "Eq"):
            op, x, y = atom.args
            if y is NONE and st.pc.get(mk("truth", x)) is True:
                return False
            if is_const(y):
                eq = st.pc.get(mk("eqc", x))
                if eq is not None:
                    return eq is y or (eq.args[1] == y.args[1])
        return None

    def assume(self, atom, st):
        """Fork on an atom -> [(state, bool)]"""
        known = self.lookup_pc(atom, st)
        if known is not None:
            return [(st, known)]
        s2 = st.fork()
        st.pc[atom] = True
        s2.pc[atom] = False
        if atom.tag == "cmp" and atom.args[0] in ("Is", "Eq") and is_const(atom.args[2]):
            st.pc[mk("eqc", atom.args[1])] = atom.args[2]
        return [(st, True), (s2, False)]

    def truth(self, v, st):
        g = v.tag
        if g == "const":
            return [(st, bool(v.args[1]))]
        if g == "bool":
            return [(s, b == v.args[1]) for s, b in self.assume(v.args[0], st)]
        if g == "ref":
            content = st.heap[v][1]
            if not content:
                return [(st, False)]
            if not any((c[0] if isinstance(c, tuple) else c).tag == "star" for c in content):
                return [(st, True)]
            v = self.mat(v, st)
        if g in ("tuple", "list", "dict"):
            if not v.args:
                return [(st, False)]
            if not any(c.tag == "star" for c in v.args):
                return [(st, True)]
        if g in ("func", "bound", "class", "module", "gen", "cm", "self", "exc"):
            return [(st, True)]
        if g == "new":
            ci = v.args[0]
            if ci.find_method("__bool__") is None and ci.find_method("__len__") is None:
                return [(st, True)]
        if g == "fmt" and any(is_const(p) and p.args[1] for p in v.args):
            return [(st, True)]
        if g == "call" and is_len(v):
            v = v.args[1][0]
        elif g == "call" and v.args[0] is mk("builtin", "bool") and len(v.args[1]) == 1:
            return self.truth(v.args[1][0], st)
        elif g == "call" and v.args[0].tag == "builtin" and v.args[0].args[0] in IDENTITY_ITER \
                and len(v.args[1]) == 1:
            v = v.args[1][0]
        return self.assume(mk("truth", self.mat(v, st)), st)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fr, rz):
        # zero-argument super
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return self.ev_super(n, st, fr, rz)
        out = []
        for s, fn in self.ev(n.func, st, fr, rz):
            for s2, args in self.ev_elts(n.args, s, fr, rz):
                cur = [(s2, [])]
                for kw in n.keywords:
                    nxt = []
                    for s3, kws in cur:
                        for s4, v in self.ev(kw.value, s3, fr, rz):
                            if kw.arg is None:
                                if v.tag == "ref" and s4.heap[v][0] == "dict" and all(
                                        is_const(k) for k, _ in s4.heap[v][1]):
                                    nxt.append((s4, kws + [
                                        (k.args[1], x) for k, x in s4.heap[v][1]]))
                                else:
                                    nxt.append((s4, kws + [("**", v)]))
                            else:
                                nxt.append((s4, kws + [(kw.arg, v)]))
                    cur = nxt
                for s3, kws in cur:
                    out.extend(self.call(fn, args, kws, s3, fr, rz, n))
        return out

    def ev_super(self, n, st, fr, rz):
        f = fr
        while f is not None and f.cls is None:
            f = f.closure
        cls = fr.cls or (f.cls if f else None)
        sv = None
        if n.args:
            a = dotted(n.args[0])
            r = fr.module.resolve(a) if a else None
            if isinstance(r, ClassInfo):
                cls = r
            if len(n.args) > 1:
                res = self.ev(n.args[1], st, fr, rz)
                st, sv = res[0]
        if sv is None:
            func = (f or fr).func
            pars = func.params() if func else []
            sv = st.frames[f or fr].get(pars[0]) if pars else NONE
        return [(st, mk("super", cls, sv))]

    def is_opaque(self, fi):
        if fi.qual in self.opaque_names or fi.short in self.opaque_names or \
                fi.name in self.opaque_names:
            return True
        if fi.qual not in BASELINE and isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return False    # extracted later: a part of the functions that call it
        if self.opaque_fn is not None and self.opaque_fn(fi):
            return True
        if self.inline_only is not None and not self.inline_only(fi):
            return True
        return False

    def bind(self, fi, pos, kws, st):
        """Bind arguments -> dict name -> value, or None if impossible"""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        pos = list(pos)
        rest = []
        i = 0
        for v in pos:
            if v.tag == "star":
                # unknown splat: fill the remaining parameters from it
                if a.vararg is not None:
                    rest.append(v)
                    continue
                j = 0
                while i < len(names):
                    if any(k == names[i] for k, _ in kws):
                        break
                    bound[names[i]] = mk("item", v.args[0], const(j))
                    i += 1
                    j += 1
                continue
            if i < len(names):
                bound[names[i]] = v
                i += 1
            else:
                rest.append(v)
        if rest and a.vararg is None:
            return None
        if a.vararg is not None:
            if len(rest) == 1 and rest[0].tag == "star":
                bound[a.vararg.arg] = rest[0].args[0]
            else:
                bound[a.vararg.arg] = mk("tuple", *rest)
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kws:
            if k != "**" and (k in names or k in kwonly) and k not in bound:
                bound[k] = v
            else:
                extra.append((k, v))
        if a.kwarg is not None:
            if len(extra) == 1 and extra[0][0] == "**":
                bound[a.kwarg.arg] = extra[0][1]
            else:
                items = [(const(k), v) if k != "**" else (mk("star", self.mat(v, st)), NONE)
                         for k, v in extra]
                bound[a.kwarg.arg] = self.alloc(st, "dict", items)
        elif extra and any(k != "**" for k, _ in extra):
            return None
        return bound

    def fill_defaults(self, fi, bound, st, fr):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dfr = Frame(None, fi.module, None, fi.cls)
        dfr.locals = set()
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if nm not in bound:
                bound[nm] = self.default_value(d, st, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in bound and d is not None:
                bound[x.arg] = self.default_value(d, st, dfr)
        for nm in names:
            if nm not in bound:
                bound[nm] = mk("missing", nm)
        return bound

    def default_value(self, d, st, dfr):
        st.frames.setdefault(dfr, {})
        try:
            res = self.ev(d, st, dfr, [])
            return res[0][1] if res else NONE
        finally:
            st.frames.pop(dfr, None)

    def call(self, fn, args, kws, st, fr, rz, node):
        g = fn.tag
        if g == "func" or g == "bound":
            fi = fn.args[0] if g == "func" else fn.args[1]
            return self.call_repo(fn, fi, args, kws, st, fr, rz, node)
        if g == "partial":
            f0, a0, k0 = fn.args
            kk = dict(k0)
            kk.update(dict(kws))
            return self.call(f0, list(a0) + args, list(kk.items()), st, fr, rz, node)
        if g == "class":
            return self.instantiate(fn, args, kws, st, fr, rz, node)
        if g == "builtin":
            r = self.call_builtin(fn.args[0], args, kws, st, fr, rz, node)
            if r is not None:
                return r
        if g == "bmeth":
            r = self.call_bmeth(fn, args, kws, st, fr, rz, node)
            if r is not None:
                return r
        if g == "attr":
            r = self.call_strmeth(fn, args, kws, st)
            if r is not None:
                return r
        if g == "ext":
            nm = fn.args[0]
            if nm in ("functools.partial",) and args:
                return [(st, mk("partial", args[0], tuple(args[1:]), tuple(kws)))]
            if nm == "copy.copy" and len(args) == 1 and args[0].tag == "ref" and \
                    st.heap[args[0]][0] in ("dict", "list", "set"):
                return [(st, self.alloc(st, *st.heap[args[0]][:2]))]
            if nm in ("weakref.proxy", "copy.copy_") and len(args) == 1:
                return [(st, args[0])]
            if nm in ("os.path.join", "posixpath.join"):
                parts = []
                for a in args:
                    a = self.mat(a, st)
                    if a.tag == "pjoin":
                        parts.extend(a.args)
                    else:
                        parts.append(a)
                return [(st, mk("pjoin", *parts))]
        t = self.type_of(fn, st)
        if t is not None:
            m = t.find_method("__call__")
            if m is not None:
                return self.call_repo(mk("bound", fn, m), m, args, kws, st, fr, rz, node)
        return self.call_symbolic(fn, args, kws, st, fr, rz, node)

    def call_symbolic(self, fn, args, kws, st, fr, rz, node, tag="call"):
        if fn.tag == "bmeth":
            fn = mk("attr", self.mat(fn.args[0], st), fn.args[1])
        pos = tuple(self.mat(a, st) for a in args)
        kw = tuple(sorted(((k, self.mat(v, st)) for k, v in kws), key=lambda p: (p[0], repr(p[1]))))
        n = 0
        if not self.is_pure(fn):
            key = (fn, pos, kw)
            n = st.counts.get(key, 0)
            st.counts[key] = n + 1
        t = mk("call", fn, pos, kw, n)
        self.event(st, "call", t, node, fr)
        self.maybe_raise(t, st, rz, node, fr)
        return [(st, t)]

    def maybe_raise(self, t, st, rz, node, fr):
        if self.raiser is not None:
            for nm in self.raiser(t) or ():
                s2 = st.fork()
                self.event(s2, "raised", t, node, fr, const(nm))
                rz.append((s2, ("raise", mk("exc", nm, t))))

    def is_pure(self, fn):
        if fn.tag == "builtin":
            return fn.args[0] in PURE_BUILTINS
        if fn.tag == "ext":
            return fn.args[0].startswith(PURE_EXT_PREFIX) or fn.args[0] in self.pure \
                or fn.args[0] in DICT_VIEWS
        if fn.tag == "attr":
            return fn.args[1] in PURE_METHODS
        if fn.tag in ("func", "bound"):
            fi = fn.args[0] if fn.tag == "func" else fn.args[1]
            return fi.name in self.pure or fi.short in self.pure
        return False

    def call_repo(self, fn, fi, args, kws, st, fr, rz, node):
        pos = list(args)
        if fn.tag == "bound":
            pos.insert(0, fn.args[0])
        opaque = self.is_opaque(fi) or self.stack.count(fi) >= 1 or \
            len(self.stack) >= self.max_depth
        isgen = not isinstance(fi.node, ast.Lambda) and is_generator(fi.node)
        if not opaque and isgen:
            if any(d.endswith("contextmanager") for d in fi.decorators):
                return [(st, mk("cm", fn, tuple(args), tuple(kws)))]
            return [(st, mk("gen", fn, tuple(args), tuple(kws)))]
        if not opaque:
            # unresolved decorators hide the function
            bound = self.bind(fi, pos, kws, st)
            if bound is None:
                self.event(st, "badcall", mk("call", fn, tuple(self.mat(a, st) for a in args),
                                             tuple((k, self.mat(v, st)) for k, v in kws), 0),
                           node, fr)
                rz.append((st, ("raise", mk("exc", "TypeError", fn))))
                return []
            bound = self.fill_defaults(fi, bound, st, fr)
            closure = fn.args[1] if fn.tag == "func" else None
            out = []
            for s, o in self.exec_function(fi, closure, bound, st):
                if o[0] == "ret":
                    out.append((s, o[1]))
                else:
                    rz.append((s, o))
            return out
        # canonical keyword form through the signature
        bound = self.bind(fi, pos, kws, st)
        if bound is None:
            return self.call_symbolic(fn, args, kws, st, fr, rz, node)
        names = fi.params()
        selfname = names[0] if fn.tag == "bound" and names else None
        kw = [(k, v) for k, v in bound.items() if k != selfname]
        return self.call_symbolic(fn, [], kw, st, fr, rz, node)

    def instantiate(self, fn, args, kws, st, fr, rz, node):
        ci = fn.args[0]
        init = ci.find_method("__init__")
        kwc = list(kws)
        pos = list(args)
        if init is not None:
            b = self.bind(init, [NONE] + pos, kwc, st)
            if b is not None:
                names = init.params()
                kwc = [(k, v) for k, v in b.items() if k != names[0]]
                pos = []
        post = tuple(self.mat(a, st) for a in pos)
        kwt = tuple(sorted(((k, self.mat(v, st)) for k, v in kwc), key=lambda p: (p[0], repr(p[1]))))
        key = ("new", ci, post, kwt)
        n = st.counts.get(key, 0)
        st.counts[key] = n + 1
        obj = mk("new", ci, post, kwt, n)
        self.event(st, "new", obj, node, fr)
        self.maybe_raise(obj, st, rz, node, fr)
        if init is not None and (ci.name in self.inline_init or self.inline_init is True) \
                and self.stack.count(init) < 1:
            out = []
            for s, _ in self.call_repo(mk("bound", obj, init), init, args, kws, st, fr, rz, node):
                out.append((s, obj))
            return out
        return [(st, obj)]

    def call_builtin(self, name, args, kws, st, fr, rz, node):
        if name == "getattr" and len(args) >= 2 and is_const(args[1]) and not kws:
            if len(args) == 2:
                return self.load_attr(args[0], args[1].args[1], st, fr, rz, node)
            res = self.load_attr(args[0], args[1].args[1], st, fr, rz, node)
            if len(res) == 1 and res[0][1].tag != "attr":
                return res
            return None
        if name == "setattr" and len(args) == 3:
            if is_const(args[1]):
                return [(s, NONE) for s in self.store_attr(
                    args[0], args[1].args[1], args[2], st, fr, rz, node)]
            self.event(st, "setattr", self.mat(args[0], st), node, fr,
                       mk("kv", self.mat(args[1], st), self.mat(args[2], st)))
            return [(st, NONE)]
        if name == "len" and len(args) == 1:
            k = self.seq_known(args[0], st)
            if k is None and args[0].tag == "ref":
                k = (None, list(st.heap[args[0]][1]))
            if k is not None and not any(
                    (x[0] if isinstance(x, tuple) else x).tag == "star" for x in k[1]):
                return [(st, const(len(k[1])))]
            return None
        if name in ("list", "tuple", "set", "frozenset") and not kws:
            if not args:
                return [(st, mk("tuple") if name == "tuple" else
                         self.alloc(st, "set" if "set" in name else "list", ()))]
            v = args[0]
            if v.tag in ("gen", "mapgen"):
                acc = self.alloc(st, "list", ())

                def body(s, x):
                    s.heap[acc] = ("list", s.heap[acc][1] + (x,))
                    return [(s, None)]
                out = []
                for s, o in self.iterate(v, st, fr, body, node):
                    if o is None:
                        out.append((s, mk("tuple", *s.heap[acc][1]) if name == "tuple" else acc))
                    else:
                        rz.append((s, o))
                return out
            k, _ = self.iter_known(v, st)
            if k is not None:
                if name == "tuple":
                    return [(st, mk("tuple", *k))]
                return [(st, self.alloc(st, "set" if "set" in name else "list", k))]
            if name == "list":
                return [(st, self.alloc(st, "list", (mk("star", self.mat(v, st)),)))]
            return None
        if name == "dict" and not args:
            return [(st, self.alloc(st, "dict", [
                (const(k), v) if k != "**" else (mk("star", self.mat(v, st)), NONE)
                for k, v in kws]))]
        if name == "dict" and len(args) == 1 and args[0].tag == "ref" and \
                st.heap[args[0]][0] == "dict":
            return [(st, self.alloc(st, "dict", st.heap[args[0]][1] + tuple(
                (const(k), v) for k, v in kws)))]
        if name in ("map", "filter") and len(args) == 2:
            return [(st, mk("mapgen", args[0], args[1], name == "filter"))]
        if name in ("any", "all") and len(args) == 1:
            k, _ = self.iter_known(args[0], st)
            if k is not None and len(k) <= 12 and not any(x.tag == "star" for x in k):
                cur = [st]
                out = []
                for x in k:
                    nxt = []
                    for s in cur:
                        for s2, b in self.truth(x, s):
                            if b == (name == "any"):
                                out.append((s2, const(b)))
                            else:
                                nxt.append(s2)
                    cur = nxt
                out.extend((s, const(name == "all")) for s in cur)
                return out
            return None
        if name == "str" and len(args) == 1 and not kws:
            v = self.mat(args[0], st)
            if is_const(v) and isinstance(v.args[1], str):
                return [(st, v)]
            if v.tag == "fmt":
                return [(st, v)]
            return None
        if name == "isinstance" and len(args) == 2 and args[0].tag == "const":
            c = args[1]
            if c.tag == "builtin" and isinstance(getattr(builtins, c.args[0], None), type):
                return [(st, const(isinstance(args[0].args[1], getattr(builtins, c.args[0]))))]
            return None
        if name == "print":
            self.event(st, "print", mk("tuple", *[self.mat(a, st) for a in args]), node, fr)
            return [(st, NONE)]
        if name == "bool" and len(args) == 1:
            if is_const(args[0]):
                return [(st, const(bool(args[0].args[1])))]
            if args[0].tag == "bool":
                return [(st, args[0])]
            return [(st, mk("bool", mk("truth", self.mat(args[0], st)), True))]
        if name == "next" and len(args) >= 1:
            v = args[0]
            if v.tag == "ref" and st.heap[v][0] == "list" and st.heap[v][1]:
                return [(st, st.heap[v][1][0])]
            return None
        if name in ("sorted", "reversed") and args:
            k, _ = self.iter_known(args[0], st)
            if k is not None and len(k) <= 1:
                return [(st, self.alloc(st, "list", k))]
            if k is not None and name == "reversed":
                return [(st, self.alloc(st, "list", k[::-1]))]
            return None
        return None

    def call_bmeth(self, fn, args, kws, st, fr, rz, node):
        ref, name = fn.args
        kind, content = st.heap[ref][:2]
        if name == "__len__" and not any(
                (x[0] if isinstance(x, tuple) else x).tag == "star" for x in content):
            return [(st, const(len(content)))]
        if kind == "list":
            if name == "append":
                st.heap[ref] = ("list", content + (args[0],))
                return [(st, NONE)]
            if name == "extend" and args:
                if args[0].tag in ("gen", "mapgen"):
                    return [(s, NONE) for s, _ in self._extend_gen(ref, args[0], st, fr, rz, node)]
                k, _ = self.iter_known(args[0], st)
                st.heap[ref] = ("list", content + (
                    tuple(k) if k is not None else (mk("star", self.mat(args[0], st)),)))
                return [(st, NONE)]
            if name == "insert" and len(args) == 2 and is_const(args[0]):
                c = list(content)
                c.insert(args[0].args[1], args[1])
                st.heap[ref] = ("list", tuple(c))
                return [(st, NONE)]
            if name == "pop":
                i = args[0].args[1] if args and is_const(args[0]) else -1
                if content and not any(c.tag == "star" for c in content) and isinstance(i, int):
                    c = list(content)
                    try:
                        v = c.pop(i)
                    except IndexError:
                        return None
                    st.heap[ref] = ("list", tuple(c))
                    return [(st, v)]
                return None
            if name == "copy":
                return [(st, self.alloc(st, "list", content))]
            if name == "clear":
                st.heap[ref] = ("list", ())
                return [(st, NONE)]
        if kind == "set":
            if name == "add":
                if args[0] not in content:
                    st.heap[ref] = ("set", content + (args[0],))
                return [(st, NONE)]
            if name == "update" and len(args) == 1:
                k, _ = self.iter_known(args[0], st)
                st.heap[ref] = ("set", content + (
                    tuple(k) if k is not None else (mk("star", self.mat(args[0], st)),)))
                return [(st, NONE)]
        if kind == "dict":
            if name in ("items", "values", "keys"):
                return [(st, mk("dictview", name, ref))]
            if name == "update":
                items = list(content)
                for a in args:
                    if a.tag == "ref" and st.heap[a][0] == "dict":
                        for k, v in st.heap[a][1]:
                            items = [p for p in items if p[0] is not k] + [(k, v)]
                    else:
                        items.append((mk("star", self.mat(a, st)), NONE))
                for k, v in kws:
                    ck = const(k) if k != "**" else mk("star", self.mat(v, st))
                    items = [p for p in items if p[0] is not ck] + [(ck, v)]
                st.heap[ref] = ("dict", tuple(items))
                return [(st, NONE)]
            if name == "get" and args:
                for k, v in content:
                    if k is args[0]:
                        return [(st, v)]
                if all(is_const(k) for k, _ in content) and is_const(args[0]):
                    return [(st, args[1] if len(args) > 1 else NONE)]
                return None
            if name == "pop" and args:
                for k, v in content:
                    if k is args[0]:
                        st.heap[ref] = ("dict", tuple(p for p in content if p[0] is not k))
                        return [(st, v)]
                return None
            if name == "setdefault" and args:
                for k, v in content:
                    if k is args[0]:
                        return [(st, v)]
                v = args[1] if len(args) > 1 else NONE
                st.heap[ref] = ("dict", content + ((args[0], v),))
                return [(st, v)]
            if name == "copy":
                return [(st, self.alloc(st, "dict", content))]
        return None

    def _extend_gen(self, ref, gen, st, fr, rz, node):
        def body(s, x):
            s.heap[ref] = ("list", s.heap[ref][1] + (x,))
            return [(s, None)]
        out = []
        for s, o in self.iterate(gen, st, fr, body, node):
            if o is None:
                out.append((s, None))
            else:
                rz.append((s, o))
        return out

    def call_strmeth(self, fn, args, kws, st):
        base, name = fn.args
        if is_const(base) and isinstance(base.args[1], str):
            if name == "format":
                f = str_format(base.args[1], [self.mat(a, st) for a in args],
                               {k: self.mat(v, st) for k, v in kws})
                if f is not None:
                    return [(st, f)]
                return None
            if name == "join" and len(args) == 1:
                k, _ = self.iter_known(args[0], st) if args[0].tag in (
                    "ref", "tuple", "list") else (None, None)
                if k is not None and not any(x.tag == "star" for x in k):
                    parts = []
                    for i, x in enumerate(k):
                        if i:
                            parts.append(base)
                        parts.append(self.mat(x, st))
                    return [(st, fmt(parts))]
                return None
            if name in ("split", "strip", "lower", "upper", "startswith", "endswith", "replace") and \
                    all(is_const(a) for a in args) and not kws:
                try:
                    r = getattr(base.args[1], name)(*[a.args[1] for a in args])
                except (TypeError, ValueError):
                    return None
                if isinstance(r, list):
                    return [(st, self.alloc(st, "list", [const(x) for x in r]))]
                return [(st, const(r))]
        return None

    # ------------------------------------------------------------ heap
    def mat(self, v, st, seen=()):
        """Replace heap references by their current contents"""
        if not isinstance(v, T):
            return v
        if v.tag == "ref":
            if v in seen:
                return mk("cycle")
            kind, content = st.heap[v][:2]
            seen = seen + (v,)
            if kind == "dict":
                return mk("dict", *[mk("pair", self.mat(k, st, seen), self.mat(x, st, seen))
                                    for k, x in content])
            return mk(kind, *[self.mat(x, st, seen) for x in content])
        if v.tag in ("tuple", "list", "set", "star", "dictview", "bmeth", "gen", "cm", "mapgen",
                     "item", "attr", "bool", "truth", "cmp", "partial"):
            new = tuple(self._mat_arg(a, st, seen) for a in v.args)
            if new != v.args:
                return mk(v.tag, *new)
        return v

    def _mat_arg(self, a, st, seen):
        if isinstance(a, T):
            return self.mat(a, st, seen)
        if isinstance(a, tuple):
            return tuple(self._mat_arg(x, st, seen) for x in a)
        return a


# ---------------------------------------------------------------- formatting
def strv(x):
    if x.tag == "call" and x.args[0] is mk("builtin", "str") and len(x.args[1]) == 1:
        return x.args[1][0]
    return x


def _bytes_text(x):
    if is_const(x) and isinstance(x.args[1], bytes):
        return const(x.args[1].decode("latin1"))
    return x


def fmt(parts):
    flat = []
    for p in parts:
        if p.tag == "fmt":
            flat.extend(p.args)
        else:
            flat.append(strv(p))
    out = []
    for p in flat:
        if is_const(p):
            if p.args[1] == "" and p.args[0] == "str":
                continue
            txt = p.args[1] if isinstance(p.args[1], str) else str(p.args[1])
            if out and is_const(out[-1]):
                out[-1] = const(out[-1].args[1] + txt)
            else:
                out.append(const(txt))
        else:
            out.append(p)
    if not out:
        return const("")
    if len(out) == 1 and is_const(out[0]):
        return out[0]
    return mk("fmt", *out)


def str_format(text, args, kws):
    parts = []
    auto = 0
    try:
        pieces = list(string.Formatter().parse(text))
    except ValueError:
        return None
    for lit, field, spec, conv in pieces:
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        name = field
        rest = ""
        for i, ch in enumerate(field):
            if ch in ".[":
                name, rest = field[:i], field[i:]
                break
        if name == "":
            idx = auto
            auto += 1
            if idx >= len(args):
                return None
            v = args[idx]
        elif name.isdigit():
            if int(name) >= len(args):
                return None
            v = args[int(name)]
        elif name in kws:
            v = kws[name]
        elif "**" in kws:
            v = mk("item", kws["**"], const(name))
        else:
            return None
        while rest:
            if rest[0] == ".":
                j = 1
                while j < len(rest) and rest[j] not in ".[":
                    j += 1
                v = mk("attr", v, rest[1:j])
            else:
                j = rest.index("]") + 1
                k = rest[1:j - 1]
                v = mk("item", v, const(int(k) if k.isdigit() else k))
            rest = rest[j:]
        if conv == "r":
            v = mk("call", mk("builtin", "repr"), (v,), (), 0)
        if spec:
            v = mk("fspec", spec, v)
        parts.append(v)
    return fmt(parts)


def percent_format(text, r):
    import re
    toks = re.split(r"(%(?:\([^)]*\))?[-#0 +]*\d*(?:\.\d+)?[sdrfxi%])", text)
    vals = list(r.args) if r.tag == "tuple" else None
    single = vals is None
    parts = []
    i = 0
    for tok in toks:
        if not tok:
            continue
        if tok == "%%":
            parts.append(const("%"))
            continue
        if tok.startswith("%") and len(tok) > 1:
            if tok.startswith("%("):
                return None
            if single:
                if i > 0:
                    return None
                v = r
            else:
                if i >= len(vals):
                    return None
                v = vals[i]
            i += 1
            if tok == "%r":
                v = mk("call", mk("builtin", "repr"), (v,), (), 0)
            elif tok not in ("%s", "%d", "%i"):
                v = mk("fspec", tok, v)
            parts.append(v)
        else:
            if "%" in tok:
                return None
            parts.append(const(tok))
    return fmt(parts)


def is_len(t):
    return t.tag == "call" and t.args[0] is mk("builtin", "len") and len(t.args[1]) == 1


def _as_load(node):
    import copy
    n = copy.deepcopy(node)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


_FUNCS = {}


def _func_intern(fi, node):
    k = (node, fi.qual)
    if k not in _FUNCS:
        _FUNCS[k] = fi
    return _FUNCS[k]


def _lambda_intern(n, fr):
    if n not in _FUNCS:
        fi = FuncInfo.__new__(FuncInfo)
        fi.module = fr.module
        fi.node = n
        fi.cls = None
        fi.parent = fr.func
        fi.name = "<lambda>"
        fi.qual = (fr.func.qual if fr.func else fr.module.name) + ".<lambda>"
        fi.decorators = []
        _FUNCS[n] = fi
    return _FUNCS[n]


_CLASSES = {}


def _class_intern(n, module, qual):
    if n not in _CLASSES:
        _CLASSES[n] = ClassInfo(module, n, qual)
    return _CLASSES[n]


def _decname(node):
    if isinstance(node, ast.Call):
        node = node.func
    return dotted(node) or ""


# ------------------------------------------------------------- term queries
def call_name(t):
    """Readable name of the callee: 'os.remove', '.append', 'Cls.meth', ..."""
    if t.tag == "new":
        return t.args[0].name
    if t.tag != "call":
        return ""
    fn = t.args[0]
    if fn.tag in ("ext", "builtin", "name"):
        return fn.args[0]
    if fn.tag == "func":
        return fn.args[0].short
    if fn.tag == "bound":
        return fn.args[1].short
    if fn.tag == "attr":
        return "." + fn.args[1]
    if fn.tag == "gvar":
        return fn.args[1]
    return show(fn)


def call_base(t):
    """Receiver of a method call"""
    fn = t.args[0]
    if fn.tag in ("attr", "bound"):
        return fn.args[0]
    return None


def call_args(t):
    return (t.args[1], dict(t.args[2]))


def arg(t, name, index=None):
    pos, kw = call_args(t)
    if name in kw:
        return kw[name]
    if index is not None and index < len(pos):
        return pos[index]
    return None
