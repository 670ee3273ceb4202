"""The visitors of the transformer, interpreted abstractly.

`visitors(ctx)` yields (function, ast class) for every visitor; `emissions`
yields the abstract paths of one visitor with the list of statements or the
expression that it emits.
"""
import ast

from .absint import T, mk, param, show, arg, call_name
from .rules import returning, last
from . import emission as em

EXPR = "now.collection.prov_definition.transformer_expr:RewriteDependencies"
STMT = "now.collection.prov_definition.transformer_stmt:RewriteAST"

NAMED = {"visit_assign": "Assign", "visit_augassign": "AugAssign",
         "visit_annassign": "AnnAssign", "visit_break": "Break",
         "visit_continue": "Continue", "visit_exchandler": "ExceptHandler"}
# parts that are analysed inside of the visitors that use them
INSIDE = {"visit_generator", "visit_Module", "visit_Interactive",
          "visit_Repr", "visit_Print", "visit_Exec", "visit_TryFinally", "visit_TryExcept",
          "generic_visit", "visit"}
# node in a parameter, value expected: (method, parameter, class)
PARTS = [(STMT, "process_default", "default", None),
         (STMT, "process_decorator", "decorator", None),
         (EXPR, "process_call_arg", "node", None),
         (EXPR, "process_call_keyword", "node", "keyword")]
# separate functions, each analysed by itself
CUT = {"visit_exchandler", "process_arg", "process_default", "process_decorator",
       "process_call_arg", "process_call_keyword", "process_script", "process_if"}


class Emission(object):
    def __init__(self, func, cls, path, node, statements=None, value=None):
        self.func, self.cls, self.path, self.node = func, cls, path, node
        self.statements = statements
        self.value = value

    @property
    def name(self):
        return "{}.{}".format(self.func.cls.name, self.func.name)

    def check(self, values):
        er = em.Erasure(self.path, values)
        if self.statements is not None:
            er.statement(self.statements, self.node, self.cls)
        else:
            er.eq(self.value, self.node, self.cls, self.cls or show(self.node))
            er.mutated(self.node)
        return er


def node_params(func):
    return [a.arg for a in func.node.args.args][1:]


def defaults(ctx, func):
    """Parameters with a default value have it when a visitor is called by visit"""
    args = {}
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            args[n] = mk("const", type(d.value).__name__, d.value)
        elif isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id == "ast":
            args[n] = mk("ext", "ast." + d.attr)
    return args


def visitors(ctx):
    for cname in (EXPR, STMT):
        ci = ctx.project.cls(cname)
        names = sorted(n for n in ci.methods if n.startswith("visit_"))
        for n in names:
            f = ci.methods[n]
            if n in INSIDE or n == "visit_Call" and cname == STMT:
                continue
            cls = NAMED.get(n, n[len("visit_"):])
            if cls not in em.LEGACY and not hasattr(ast, cls):
                continue
            yield f, cls


def interp(ctx, func):
    def opaque(fi):
        if fi is func:
            return False
        return em.opaque(fi) or fi.name in CUT and fi.name != "process_if"
    it = ctx.interp(loops=(0, 1, 2) if ctx.thorough else (0, 2), max_states=6000, opaque_fn=opaque)
    return it


def emissions(ctx, func, cls):
    it = interp(ctx, func)
    names = node_params(func)
    pre = None
    for p in returning(ctx.paths_of(it, func, args=defaults(ctx, func))):
        if not em.feasible(p):
            continue
        if "new_body" in names or cls in ("Assign", "AugAssign", "AnnAssign", "Break", "Continue") \
                and len(names) == 2:
            body, node = names[0], param(names[1])
            apps = []
            for e in p.events:
                if e.kind == "call" and e.term.tag == "call" and e.term.args[1] and \
                        show(e.term.args[0]) == body + ".append":
                    apps.append(e.term.args[1][0])
            yield Emission(func, cls, p, node, statements=apps)
        else:
            node = param(names[0])
            is_stmt = func.cls.name == "RewriteAST" and cls != "ExceptHandler"
            if is_stmt:
                yield Emission(func, cls, p, node, statements=[p.value])
            else:
                yield Emission(func, cls, p, node, value=p.value)


def part_emissions(ctx):
    for cname, meth, pname, cls in PARTS:
        ci = ctx.project.cls(cname)
        f = ci.find_method(meth)
        if f is None:
            continue
        it = interp(ctx, f)
        for p in returning(ctx.paths_of(it, f)):
            if em.feasible(p):
                yield Emission(f, cls, p, param(pname), value=p.value)


def all_emissions(ctx):
    cache = getattr(ctx, "_emissions", None)
    if cache is None:
        cache = []
        for f, cls in visitors(ctx):
            cache.extend(emissions(ctx, f, cls))
        cache.extend(part_emissions(ctx))
        ctx._emissions = cache
    return cache
