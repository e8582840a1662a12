"""Program model of /repo/thetis built from its current source text only.

Loads every module of the package as a syntax tree, resolves names through
(local) imports and star imports, and linearises the class hierarchy.  Nothing
of the analysed program is imported or executed.
"""
import ast
import os

BUILTIN_NAMES = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class AnalysisError(Exception):
    """The analysis cannot give an answer (missing anchor, unsupported code)."""


class FuncInfo:
    def __init__(self, node, module, cls=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            self.decorators.append(deco_name(d))

    @property
    def qualname(self):
        q = self.name if self.cls is None else self.cls.name + '.' + self.name
        return self.module.name + ':' + q

    @property
    def is_property(self):
        return any(d in ('property', 'abstractproperty') or d.endswith('cached_property') for d in self.decorators)

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_abstract(self):
        return any(d in ('abstractmethod', 'abstractproperty') for d in self.decorators)

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def loc(self, node=None):
        n = node if node is not None else self.node
        return '%s:%d' % (self.module.relpath, getattr(n, 'lineno', 0))

    def __repr__(self):
        return '<F %s>' % self.qualname


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return '.'.join(reversed(parts))


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.attrs = {}          # class-level assignments: name -> value expr
        self.setters = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(st, module, self)
                if any(d.endswith('.setter') for d in f.decorators):
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.attrs[a.id] = b
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
        self._mro = None

    @property
    def qualname(self):
        return self.module.name + ':' + self.name

    def loc(self, node=None):
        n = node if node is not None else self.node
        return '%s:%d' % (self.module.relpath, getattr(n, 'lineno', 0))

    def bases(self):
        """Resolved bases: ClassInfo or dotted-name string for external ones."""
        out = []
        for b in self.node.bases:
            r = self.module.repo.resolve_expr(self.module, b)
            if isinstance(r, ClassInfo):
                out.append(r)
            else:
                out.append(ast.unparse(b))
        return out

    def mro(self):
        if self._mro is None:
            self._mro = self._c3()
        return self._mro

    def _c3(self):
        seqs = []
        bases = self.bases()
        for b in bases:
            if isinstance(b, ClassInfo):
                seqs.append(list(b.mro()))
            else:
                seqs.append([b])
        seqs.append(list(bases))
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                cand = s[0]
                if not any(cand in o[1:] for o in seqs):
                    break
            else:  # inconsistent (only possible with unresolved externals)
                cand = seqs[0][0]
            res.append(cand)
            for s in seqs:
                if s and s[0] == cand:
                    del s[0]
            for i, s in enumerate(seqs):
                seqs[i] = [x for x in s if x != cand]

    def find_method(self, name, after=None):
        """Method `name` along the MRO (optionally starting after a class)."""
        mro = self.mro()
        start = 0
        if after is not None:
            start = mro.index(after) + 1 if after in mro else 0
        for c in mro[start:]:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if name in c.attrs:
                    return c, c.attrs[name]
        return None

    def is_subclass(self, other):
        if isinstance(other, ClassInfo):
            return other in self.mro()
        return other in [c if isinstance(c, str) else c.name for c in self.mro()]

    def external_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def __repr__(self):
        return '<C %s>' % self.qualname


class Module:
    def __init__(self, repo, name, path):
        self.repo = repo
        self.name = name
        self.path = path
        self.relpath = os.path.relpath(path, repo.root)
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.classes = {}
        self.functions = {}
        self.assigns = {}
        self.imports = {}     # local name -> ('mod', modname) | ('from', modname, name)
        self.stars = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.assigns[st.target.id] = st.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = self._absmod(st)
                for a in st.names:
                    if a.name == '*':
                        self.stars.append(mod)
                    else:
                        self.imports[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    self._collect(h.body)

    def _absmod(self, st):
        if st.level:
            pkg = self.name.split('.')[:-1] if not self.path.endswith('__init__.py') else self.name.split('.')
            if st.level > 1:
                pkg = pkg[:-(st.level - 1)]
            return '.'.join(pkg + ([st.module] if st.module else []))
        return st.module

    def exported(self):
        if not hasattr(self, '_exp'):
            self._exp = None
            if '__all__' in self.assigns:
                try:
                    self._exp = set(ast.literal_eval(self.assigns['__all__']))
                except Exception:
                    pass
        return self._exp


class Repo:
    def __init__(self, root='/repo', package='thetis'):
        self.root = root
        self.package = package
        self.modules = {}
        pdir = os.path.join(root, package)
        for fn in sorted(os.listdir(pdir)):
            if fn.endswith('.py'):
                name = package if fn == '__init__.py' else package + '.' + fn[:-3]
                self.modules[name] = Module(self, name, os.path.join(pdir, fn))

    def mod(self, short):
        m = self.modules.get(self.package + '.' + short)
        if m is None:
            raise AnalysisError('module %s.%s not found' % (self.package, short))
        return m

    def lookup(self, module, name, _seen=None):
        """Resolve a global name in a module.

        Returns ClassInfo | FuncInfo | Module | ('assign', module, expr) |
        ('ext', dotted) | None.
        """
        if _seen is None:
            ck = (module.name, name)
            cache = self.__dict__.setdefault('_lookup_cache', {})
            if ck not in cache:
                cache[ck] = self.lookup(module, name, set())
            return cache[ck]
        if (module.name, name) in _seen:
            return None
        _seen.add((module.name, name))
        if name in module.classes:
            return module.classes[name]
        if name in module.functions:
            return module.functions[name]
        if name in module.assigns:
            return ('assign', module, module.assigns[name])
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ('ext', imp[1])
            _, m, n = imp
            full = (m + '.' + n) if m else n
            if full in self.modules:
                return self.modules[full]
            if m in self.modules:
                r = self.lookup(self.modules[m], n, _seen)
                if r is not None:
                    return r
            return ('ext', full)
        for m in module.stars:
            if m in self.modules:
                exp = self.modules[m].exported()
                if exp is not None and name not in exp:
                    continue
                r = self.lookup(self.modules[m], name, _seen)
                if r is not None and not (isinstance(r, tuple) and r[0] == 'ext' and r[1] == name):
                    return r
        return None

    def resolve_expr(self, module, expr):
        if isinstance(expr, ast.Name):
            return self.lookup(module, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(module, expr.value)
            if isinstance(b, Module):
                return self.lookup(b, expr.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + expr.attr)
        return None

    def cls(self, short, name):
        m = self.mod(short)
        c = m.classes.get(name)
        if c is None:
            raise AnalysisError('class %s not found in %s' % (name, m.name))
        return c

    def func(self, short, name):
        m = self.mod(short)
        f = m.functions.get(name)
        if f is None:
            raise AnalysisError('function %s not found in %s' % (name, m.name))
        return f

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def subclasses(self, base, include_self=False):
        for c in self.all_classes():
            if base in c.mro() and (include_self or c is not base):
                yield c

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f


def walk_local(node):
    """ast.walk that does not descend into nested function/class scopes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return '.'.join(reversed(parts))
    return None
