"""Loads the Python sources of noWorkflow and resolves their symbols.

Nothing in here imports or runs the analysed code: modules are parsed, and
names are resolved through the import statements that the sources contain.
"""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor of an analysis vanished: the check cannot give a verdict."""


REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "noworkflow"
SKIP_DIRS = {"tests", "demo", "__pycache__", "node_modules", "build", "dist"}


class FuncInfo(object):
    def __init__(self, module, node, cls=None, parent=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        if parent is not None:
            self.qual = parent.qual + "." + self.name
        elif cls is not None:
            self.qual = cls.qual + "." + self.name
        else:
            self.qual = module.name + "." + self.name
        self.decorators = [dec_name(d) for d in
                           getattr(node, "decorator_list", [])]

    @property
    def short(self):
        """Qualified name without the module path"""
        return self.qual[len(self.module.name) + 1:]

    @property
    def site(self):
        return "{}:{}".format(self.module.rel, self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return "<func {}>".format(self.qual)


def dec_name(node):
    if isinstance(node, ast.Call):
        node = node.func
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
    return ".".join(reversed(parts))


class ClassInfo(object):
    def __init__(self, module, node, qual=None):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = qual or module.name + "." + node.name
        self.methods = {}
        self.attrs = {}      # name -> last assigned expression
        self.inner = {}
        self._mro = None
        self.decorators = [dec_name(d) for d in node.decorator_list]
        self._collect(node.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(self.module, st, cls=self)
                # keep property getter rather than setter
                if any(d.endswith((".setter", ".deleter")) for d in fi.decorators):
                    self.methods.setdefault(st.name + "=set", fi)
                else:
                    self.methods[st.name] = fi
                    self.attrs.pop(st.name, None)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
                        self.methods.pop(t.id, None)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                sub = ast.Subscript(
                                    value=st.value,
                                    slice=ast.Constant(value=i),
                                    ctx=ast.Load())
                                ast.copy_location(sub, st)
                                ast.copy_location(sub.slice, st)
                                self.attrs[e.id] = sub
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = ClassInfo(
                    self.module, st, self.qual + "." + st.name)
            elif isinstance(st, (ast.If, ast.Try)):
                self._collect(st.body)

    @property
    def site(self):
        return "{}:{}".format(self.module.rel, self.node.lineno)

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.module.resolve_expr(b)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def base_names(self):
        return [dotted(b) for b in self.node.bases]

    def mro(self):
        if self._mro is None:
            self._mro = [self]
            out = [self]
            for b in self.bases():
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                e = c.attrs[name]
                if isinstance(e, ast.Name):
                    for c2 in c.mro():
                        if e.id in c2.methods:
                            return c2.methods[e.id]
                return None
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.methods:
                return None
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class {}>".format(self.qual)


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Module(object):
    def __init__(self, project, name, path, rel, is_pkg):
        self.project = project
        self.name = name
        self.path = path
        self.rel = rel
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as fil:
            self.source = fil.read()
        self.tree = ast.parse(self.source, path)
        self.funcs = {}
        self.classes = {}
        self.imports = {}    # local name -> ('mod', dotted) | ('from', mod, name)
        self.assigns = {}    # name -> list of expressions
        self.stars = []
        self._collect(self.tree.body)

    def _abs(self, level, modname):
        if level == 0:
            return modname or ""
        base = self.name.split(".")
        if not self.is_pkg:
            base = base[:-1]
        if level > 1:
            base = base[:-(level - 1)]
        return ".".join(base + ([modname] if modname else []))

    def _collect(self, body):
        for st in body:
            self._collect_stmt(st)

    def collect_import(self, st, table):
        if isinstance(st, ast.Import):
            for al in st.names:
                if al.asname:
                    table[al.asname] = ("mod", al.name)
                else:
                    table[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            mod = self._abs(st.level, st.module)
            for al in st.names:
                if al.name == "*":
                    self.stars.append(mod)
                else:
                    table[al.asname or al.name] = ("from", mod, al.name)

    def _collect_stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs[st.name] = FuncInfo(self, st)
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = ClassInfo(self, st)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            self.collect_import(st, self.imports)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.assigns.setdefault(t.id, []).append(st.value)
                elif isinstance(t, ast.Tuple):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            self.assigns.setdefault(e.id, []).append(None)
        elif isinstance(st, ast.AnnAssign):
            if isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns.setdefault(st.target.id, []).append(st.value)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                self.assigns.setdefault(st.target.id, []).append(None)
        elif isinstance(st, ast.If):
            self._collect(st.body)
            self._collect(st.orelse)
        elif isinstance(st, ast.Try):
            self._collect(st.body)
            for h in st.handlers:
                self._collect(h.body)
            self._collect(st.orelse)
            self._collect(st.finalbody)
        elif isinstance(st, (ast.With, ast.For, ast.While)):
            self._collect(st.body)

    # resolution -----------------------------------------------------
    def resolve(self, name, _seen=None):
        """FuncInfo | ClassInfo | Module | ('gvar', module, name) | ('ext', dotted) | None"""
        _seen = _seen or set()
        if (self.name, name) in _seen:
            return None
        _seen.add((self.name, name))
        if name in self.funcs:
            return self.funcs[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.assigns:
            vals = self.assigns[name]
            if len(vals) == 1 and isinstance(vals[0], ast.Name) and \
                    vals[0].id != name:
                r = self.resolve(vals[0].id, _seen)
                if r is not None:
                    return r
            return ("gvar", self.name, name)
        if name in self.imports:
            return self.resolve_import(self.imports[name], _seen)
        for mod in self.stars:
            m = self.project.modules.get(mod)
            if m is not None:
                r = m.resolve(name, _seen)
                if r is not None:
                    return r
        if self.is_pkg:
            sub = self.project.modules.get(self.name + "." + name)
            if sub is not None:
                return sub
        return None

    def resolve_import(self, imp, _seen=None):
        proj = self.project
        if imp[0] == "mod":
            m = proj.modules.get(imp[1])
            return m if m is not None else ("ext", imp[1])
        _, mod, nm = imp
        m = proj.modules.get(mod)
        if m is None:
            if mod == PKG or mod.startswith(PKG + "."):
                return None
            return ("ext", mod + "." + nm if mod else nm)
        r = m.resolve(nm, _seen)
        if r is not None:
            return r
        sub = proj.modules.get(mod + "." + nm)
        return sub

    def resolve_expr(self, node):
        if isinstance(node, ast.Name):
            return self.resolve(node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr(node.value)
            if isinstance(base, Module):
                return base.resolve(node.attr)
            if isinstance(base, ClassInfo):
                return base.inner.get(node.attr)
            if isinstance(base, tuple) and base[0] == "ext":
                return ("ext", base[1] + "." + node.attr)
        return None


class Project(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "capture", PKG)
        self.modules = {}
        self.unparsed = []
        if not os.path.isdir(self.root):
            raise AnalysisBroken("no package directory " + self.root)
        for dirpath, dirs, files in os.walk(self.root):
            dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
            relp = os.path.relpath(dirpath, self.root)
            if relp.split(os.sep)[0] == "resources":
                continue
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dirpath, f)
                parts = [PKG] + ([] if relp == "." else relp.split(os.sep))
                is_pkg = f == "__init__.py"
                if not is_pkg:
                    parts.append(f[:-3])
                name = ".".join(parts)
                try:
                    self.modules[name] = Module(
                        self, name, path, os.path.relpath(path, self.repo),
                        is_pkg)
                except SyntaxError:
                    # Python 2 only module (py2module); never imported on 3
                    self.unparsed.append(os.path.relpath(path, self.repo))

    def module(self, name):
        full = name if name.startswith(PKG) else PKG + "." + name
        if full not in self.modules:
            raise AnalysisBroken("module {} not found".format(full))
        return self.modules[full]

    def cls(self, dotted_name):
        """'now.cmd.cmd_run:Run'"""
        mod, name = dotted_name.split(":")
        r = self.module(mod).resolve(name)
        if not isinstance(r, ClassInfo):
            raise AnalysisBroken("class {} not found".format(dotted_name))
        return r

    def func(self, dotted_name):
        """'now.cmd.cmd_run:run' or 'now.x:Class.method'"""
        mod, name = dotted_name.split(":")
        m = self.module(mod)
        if "." in name:
            c, meth = name.split(".", 1)
            ci = m.resolve(c)
            if not isinstance(ci, ClassInfo):
                raise AnalysisBroken("class {}:{} not found".format(mod, c))
            fi = ci.find_method(meth)
        else:
            fi = m.resolve(name)
        if not isinstance(fi, FuncInfo):
            raise AnalysisBroken("function {} not found".format(dotted_name))
        return fi

    def all_funcs(self, prefix=None):
        """All functions and methods (not nested ones)"""
        for mname in sorted(self.modules):
            if prefix and not mname.startswith(PKG + "." + prefix):
                continue
            m = self.modules[mname]
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in self._class_funcs(c):
                    yield f

    def _class_funcs(self, c):
        for f in c.methods.values():
            yield f
        for i in c.inner.values():
            for f in self._class_funcs(i):
                yield f

    def all_classes(self, prefix=None):
        for mname in sorted(self.modules):
            if prefix and not mname.startswith(PKG + "." + prefix):
                continue
            for c in self.modules[mname].classes.values():
                yield c
