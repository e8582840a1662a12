"""Single program, multiple data: which values differ between processes, which
calls every process has to make together, and what is written by whom.

Values are classified as
  None   the same on every process (or a distributed object, used collectively)
  'RANK' the process number
  'ROOT' a truth value that holds on exactly one process
  'NROOT' its negation
  'SHAPE' the shape of a local array (its length is the same everywhere)
  'LOC'  anything else that may differ between processes (the rank, local
         arrays, their sizes)
  'RED:<op>' a scalar obtained by reducing local data (min, max, sum ...)

The classification flows through assignments, arithmetic, attributes of self
and return values of functions of the package (a fixed point), and is removed
by a reduction over the communicator.
"""
import ast

from .repo import FuncInfo, ClassInfo, Module

COMM_CALLS = {'allreduce', 'Allreduce', 'bcast', 'Bcast', 'gather', 'Gather', 'allgather', 'Allgather', 'reduce', 'Reduce', 'scatter',
              'Scatter', 'alltoall', 'Alltoall', 'barrier', 'Barrier', 'exscan', 'scan', 'Dup', 'Split'}
MAKES_GLOBAL = {'allreduce', 'Allreduce', 'bcast', 'allgather', 'alltoall'}
# functions of the finite element library that all processes of a mesh call together
LIB_COLLECTIVE = {'assemble', 'solve', 'project', 'interpolate', 'errornorm', 'norm', 'par_loop', 'CheckpointFile', 'VTKFile', 'FunctionSpace',
                  'VectorFunctionSpace', 'TensorFunctionSpace', 'Mesh', 'ExtrudedMesh', 'SubMesh', 'VertexOnlyMesh', 'Function', 'Cofunction',
                  'RectangleMesh', 'LinearVariationalSolver', 'NonlinearVariationalSolver', 'LinearSolver', 'Projector', 'Interpolator',
                  'LinearVariationalProblem', 'NonlinearVariationalProblem', 'DirichletBC', 'VertexBasedLimiter', 'PointEvaluator',
                  'get_facet_mask_none'}
# attributes whose access exchanges halo data
HALO = {'data_with_halos', 'data_ro_with_halos', 'data_wo_with_halos'}
LOCAL_DATA = {'data', 'data_ro', 'data_wo', 'array', 'array_r'} | HALO
METHOD_COLLECTIVE = {'save_function', 'load_function', 'save_mesh', 'load_mesh', 'global_to_local_begin', 'solve', 'project', 'at',
                     'interpolate', 'assemble', 'save_timestepping_history', 'get_timestepping_history'}
FOREIGN = {'numpy', 'np', 'os', 'math', 'scipy', 'h5py', 'netCDF4', 'datetime', 'itertools', 're', 'sys', 'logging', 'io', 'pytz',
           'cftime', 'json', 'copy', 'time', 'string', 'warnings', 'glob', 'functools', 'collections', 'pyproj', 'shutil', 'time_mod',
           'traceback', 'builtins', 'uptide', 'uptide_tidal', 'csv', 'qhull'}
CONTAINER = {'append', 'extend', 'update', 'get', 'items', 'keys', 'values', 'pop', 'copy', 'format', 'join', 'close', 'insert', 'split', 'strip',
             'sort', 'index', 'count', 'replace', 'setdefault', 'remove', 'clear', 'add', 'startswith', 'endswith', 'flush', 'write', 'read',
             'flatten', 'astype', 'min', 'max', 'sum', 'mean', 'any', 'all', 'argmin', 'argmax', 'lower', 'upper', 'resize', 'reshape',
             'create_dataset', 'info', 'warning', 'debug', 'error', 'decode', 'encode'}
REDUCERS = {'min': 'MIN', 'max': 'MAX', 'sum': 'SUM', 'amin': 'MIN', 'amax': 'MAX', 'nanmin': 'MIN', 'nanmax': 'MAX', 'mean': 'MEAN',
            'nansum': 'SUM', 'std': 'STD', 'prod': 'PROD', 'average': 'MEAN', 'median': 'MEDIAN', 'var': 'VAR', 'any': 'LOR', 'all': 'LAND'}
PASS_CALLS = {'float', 'int', 'abs', 'str', 'list', 'tuple', 'array', 'asarray', 'sqrt', 'numpy', 'bool', 'reversed', 'sorted', 'enumerate', 'zip',
              'range', 'len', 'set', 'arange', 'isfinite', 'round', 'ceil', 'floor'}


def is_red(t):
    return isinstance(t, str) and t.startswith('RED')


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if is_red(a):
        return a
    if is_red(b):
        return b
    if a == b:
        return a
    return 'LOC'


class Fn:
    """one function or method, with its nested functions"""

    def __init__(self, node, module, cls, outer, qual):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.qual = qual
        self.nested = {}
        self.ret = None           # classification of the returned value
        self.env = {}
        self.colls = False        # makes collective calls (transitively)
        self.ext = set()          # local names bound to objects of foreign libraries

    @property
    def name(self):
        return self.node.name

    def loc(self, n=None):
        return '%s:%s' % (self.module.relpath, (n or self.node).lineno)


class Spmd:
    def __init__(self, repo):
        self.repo = repo
        self.fns = []
        self.by_node = {}
        self.methods = {}          # name -> [Fn]
        self.cls_fns = {}          # (ClassInfo, name) -> Fn
        self.attr = {}             # (class name, attr) -> classification
        for m in repo.modules.values():
            for f in m.functions.values():
                self._add(f.node, m, None, None, m.name + '.' + f.node.name)
            for c in m.classes.values():
                for d in (c.methods, c.setters):
                    for f in d.values():
                        fn = self._add(f.node, m, c, None, '%s.%s.%s' % (m.name, c.name, f.node.name))
                        self.methods.setdefault(f.node.name, []).append(fn)
                        self.cls_fns.setdefault((c.qualname, f.node.name), fn)
        self.solve()

    def _add(self, node, module, cls, outer, qual):
        fn = Fn(node, module, cls, outer, qual)
        self.fns.append(fn)
        self.by_node[id(node)] = fn
        for n in local_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn.nested[n.name] = self._add(n, module, cls, fn, qual + '.' + n.name)
        return fn

    # ------------------------------------------------------------- resolution
    def callees(self, fn, call):
        """functions of the package a call may reach; None when it is foreign/unknown"""
        f = call.func
        if isinstance(f, ast.Name):
            o = fn
            while o is not None:
                if f.id in o.nested:
                    return [o.nested[f.id]]
                o = o.outer
            r = self.repo.lookup(fn.module, f.id)
            if isinstance(r, FuncInfo):
                return [self.by_node[id(r.node)]]
            if isinstance(r, ClassInfo):
                i = r.find_method('__init__')
                return [self.by_node[id(i.node)]] if i is not None and id(i.node) in self.by_node else []
            return None
        if isinstance(f, ast.Attribute):
            b = f.value
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and fn.cls is not None:
                r = fn.cls.find_method(f.attr, after=fn.cls)
                return [self.by_node[id(r.node)]] if r is not None and id(r.node) in self.by_node else None
            if isinstance(b, ast.Name) and b.id in ('self', 'cls') and fn.cls is not None:
                out = []
                r = fn.cls.find_method(f.attr)
                if r is not None and id(r.node) in self.by_node:
                    out.append(self.by_node[id(r.node)])
                for c in self.repo.subclasses(fn.cls):
                    if f.attr in c.methods:
                        out.append(self.by_node[id(c.methods[f.attr].node)])
                if out:
                    return out
            root = b
            while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                root = root.func if isinstance(root, ast.Call) else root.value
            if isinstance(root, ast.Name):
                if root.id in FOREIGN or root.id in fn.ext:
                    return None
                r = self.repo.resolve_expr(fn.module, b)
                if isinstance(r, Module):
                    t = self.repo.lookup(r, f.attr)
                    if isinstance(t, FuncInfo):
                        return [self.by_node[id(t.node)]]
                if isinstance(r, tuple) and r[0] == 'ext' and not r[1].startswith('firedrake'):
                    return None
            if f.attr in CONTAINER:
                return None
            return self.methods.get(f.attr)
        return None

    def external_collective(self, fn, call):
        f = call.func
        if isinstance(f, ast.Name):
            r = self.repo.lookup(fn.module, f.id)
            if isinstance(r, (FuncInfo, ClassInfo)):
                if isinstance(r, ClassInfo):
                    names = {b.split('.')[-1] for b in r.external_bases()}
                    return r.name if names & LIB_COLLECTIVE else None
                return None
            return f.id if f.id in LIB_COLLECTIVE else None
        if isinstance(f, ast.Attribute):
            if f.attr in COMM_CALLS and comm_like(f.value):
                return f.attr
            root = f.value
            while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                root = root.func if isinstance(root, ast.Call) else root.value
            if isinstance(root, ast.Name) and (root.id in FOREIGN or root.id in fn.ext):
                return None
            if f.attr in LIB_COLLECTIVE or f.attr in METHOD_COLLECTIVE:
                return f.attr
        return None

    def token(self, fn, call):
        """name of the collective operation a call performs, or None"""
        e = self.external_collective(fn, call)
        if e:
            return e
        cs = self.callees(fn, call)
        if cs:
            for c in cs:
                if c.colls:
                    return c.qual
        return None

    # ------------------------------------------------------------- fixed point
    def solve(self):
        for fn in self.fns:
            for n in local_nodes(fn.node):
                if isinstance(n, (ast.Assign, ast.withitem)):
                    v = n.value if isinstance(n, ast.Assign) else n.context_expr
                    t = n.targets if isinstance(n, ast.Assign) else [n.optional_vars]
                    root = v
                    while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                        root = root.func if isinstance(root, ast.Call) else root.value
                    if isinstance(root, ast.Name) and (root.id in FOREIGN or root.id in fn.ext or root.id == 'open') and isinstance(v, ast.Call):
                        for x in t:
                            if isinstance(x, ast.Name):
                                fn.ext.add(x.id)
        changed = True
        rounds = 0
        while changed and rounds < 20:
            changed = False
            rounds += 1
            for fn in self.fns:
                if not fn.colls:
                    for n in local_nodes(fn.node):
                        if isinstance(n, ast.Call) and self.token(fn, n) or isinstance(n, ast.Attribute) and n.attr in HALO:
                            fn.colls = True
                            changed = True
                            break
        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed = False
            rounds += 1
            for fn in self.fns:
                old = (fn.ret, dict(fn.env), len([1 for v in self.attr.values() if v]))
                self.flow(fn)
                if old != (fn.ret, fn.env, len([1 for v in self.attr.values() if v])):
                    changed = True

    def implicit(self, fn, st, env):
        """what is bound or filled under a process dependent condition is process dependent"""
        if isinstance(st, (ast.If, ast.While)):
            c = self.val(fn, st.test, env)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            c = self.val(fn, st.iter, env)
        else:
            return
        if not c:
            return
        for n in local_nodes(st):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, (ast.Name, ast.Attribute)):
                        self.bind(fn, t, 'LOC', env)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'add', 'insert'):
                self.bind(fn, n.func.value, 'LOC', env)

    def flow(self, fn):
        env = fn.env
        args = fn.node.args
        for _ in range(2):
            for a in args.posonlyargs + args.args + args.kwonlyargs:
                env.pop(a.arg, None)
            for st in ordered_statements(fn.node):
                self.stmt(fn, st, env)
                self.implicit(fn, st, env)

    def bind(self, fn, t, v, env, weak=True):
        if isinstance(t, ast.Name):
            env[t.id] = join(env.get(t.id), v) if weak else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(fn, x, v, env, weak)
        elif isinstance(t, ast.Starred):
            self.bind(fn, t.value, v, env, weak)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and fn.cls is not None:
            if v:
                k = (fn.cls.name, t.attr)
                self.attr[k] = join(self.attr.get(k), v)

    def self_attr(self, fn, a):
        out = None
        names = {getattr(c, 'name', c) for c in fn.cls.mro()} if fn.cls is not None else set()
        for (c, n), v in self.attr.items():
            if n == a and c in names:
                out = join(out, v)
        return out

    def stmt(self, fn, st, env):
        if isinstance(st, ast.Assign):
            # an assignment whose targets and values match componentwise
            for t in st.targets:
                if isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        self.bind(fn, a, self.val(fn, b, env), env)
                else:
                    v = self.val(fn, st.value, env)
                    # x = reduce(x): the reduced value replaces the local one
                    self.bind(fn, t, v, env, weak=not isinstance(t, ast.Name))
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.bind(fn, st.target, self.val(fn, st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            self.bind(fn, st.target, self.val(fn, st.value, env), env)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            v = self.val(fn, st.iter, env)
            self.bind(fn, st.target, 'LOC' if v and not is_red(v) else v, env)
        elif isinstance(st, ast.Return) and st.value is not None:
            v = self.val(fn, st.value, env)
            fn.ret = join(fn.ret, v)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                if i.optional_vars is not None:
                    self.bind(fn, i.optional_vars, self.val(fn, i.context_expr, env), env)

    def val_at(self, fn, e, st):
        """classification of an expression at a statement (names as bound by the statements before it)"""
        env = {}
        hit = []

        def go(body):
            for x in body:
                if hit:
                    return
                if x is st or (not isinstance(x, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.AsyncFor, ast.AsyncWith, ast.FunctionDef,
                                                  ast.ClassDef, ast.AsyncFunctionDef)) and any(n is st for n in ast.walk(x))):
                    hit.append(self.val(fn, e, env))
                    return
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
                    for y in ordered_statements(x):
                        self.stmt(fn, y, env)
                self.stmt(fn, x, env)
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(x, f, None)
                    if isinstance(b, list):
                        go(b)
                for h in getattr(x, 'handlers', []) or []:
                    go(h.body)
        go(fn.node.body)
        return hit[0] if hit else self.val(fn, e, fn.env)

    def val(self, fn, e, env):
        v = lambda x: self.val(fn, x, env)   # noqa
        if e is None or isinstance(e, (ast.Constant, ast.Lambda)):
            return None
        if isinstance(e, ast.Name):
            o = fn
            while o is not None:
                ev = env if o is fn else o.env
                if e.id in ev:
                    return ev[e.id]
                o = o.outer
            return None
        if isinstance(e, ast.Attribute):
            if e.attr == 'rank' and comm_like(e.value):
                return 'RANK'
            if e.attr in LOCAL_DATA and isinstance(e.value, ast.Attribute) and e.value.attr == 'dat':
                return 'LOC'
            if e.attr in ('values', 'offset') and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) \
                    and e.value.func.attr.endswith('node_map'):
                return 'LOC'
            if e.attr in ('size', 'total_size', 'core_size', 'sizes') and isinstance(e.value, ast.Attribute) \
                    and e.value.attr in ('dof_dset', 'cell_set', 'node_set', 'set'):
                return 'LOC'
            if isinstance(e.value, ast.Name) and e.value.id == 'self':
                return self.self_attr(fn, e.attr)
            b = v(e.value)
            if e.attr in ('ndim', 'ufl_shape', 'dtype'):
                return None
            if e.attr == 'shape' and b == 'LOC':
                return 'SHAPE'
            return b if b in ('LOC',) else None
        if isinstance(e, ast.Subscript):
            b = v(e.value)
            if b == 'SHAPE' and isinstance(e.slice, ast.Constant) and e.slice.value != 0:
                return None
            return 'LOC' if b and not is_red(b) else b or ('LOC' if v(e.slice) else None)
        if isinstance(e, ast.UnaryOp):
            b = v(e.operand)
            if isinstance(e.op, ast.Not):
                return {'ROOT': 'NROOT', 'NROOT': 'ROOT'}.get(b, b)
            return b
        if isinstance(e, ast.BinOp):
            b = join(v(e.left), v(e.right))
            return 'LOC' if b == 'RANK' else b
        if isinstance(e, ast.BoolOp):
            vs = [v(x) for x in e.values]
            if isinstance(e.op, ast.And):
                if 'ROOT' in vs:
                    return 'ROOT'
            elif 'NROOT' in vs:
                return 'NROOT'
            out = None
            for x in vs:
                out = join(out, x)
            return out
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                sides = [e.left, e.comparators[0]]
                r = [x for x in sides if v(x) == 'RANK']
                if len(r) == 1 and not v([x for x in sides if x is not r[0]][0]):
                    if isinstance(e.ops[0], (ast.Eq, ast.Is)):
                        return 'ROOT'
                    if isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
                        return 'NROOT'
                    c = [x for x in sides if x is not r[0]][0]
                    if isinstance(c, ast.Constant) and r[0] is e.left and (isinstance(e.ops[0], ast.Lt) and c.value == 1
                                                                           or isinstance(e.ops[0], ast.LtE) and c.value == 0):
                        return 'ROOT'
                    if isinstance(c, ast.Constant) and r[0] is e.left and (isinstance(e.ops[0], ast.Gt) and c.value == 0
                                                                           or isinstance(e.ops[0], ast.GtE) and c.value == 1):
                        return 'NROOT'
            out = v(e.left)
            for c in e.comparators:
                out = join(out, v(c))
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
                return None
            return out
        if isinstance(e, ast.IfExp):
            return join(v(e.test) and 'LOC', join(v(e.body), v(e.orelse)))
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = None
            for x in e.elts:
                out = join(out, v(x))
            return out
        if isinstance(e, ast.Dict):
            out = None
            for x in e.values:
                out = join(out, v(x))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for g in e.generators:
                b = v(g.iter)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        env2[n.id] = 'LOC' if b and not is_red(b) else b
            parts = [e.elt] if not isinstance(e, ast.DictComp) else [e.key, e.value]
            out = None
            for g in e.generators:
                b = v(g.iter)
                out = join(out, 'LOC' if b and not is_red(b) else b)
            for p in parts:
                out = join(out, self.val(fn, p, env2))
            return out
        if isinstance(e, ast.JoinedStr):
            return None
        if isinstance(e, (ast.Starred, ast.FormattedValue, ast.Await)):
            return v(e.value)
        if isinstance(e, ast.NamedExpr):
            b = v(e.value)
            env[e.target.id] = b
            return b
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                if f.attr in MAKES_GLOBAL and comm_like(f.value):
                    return None
                if f.attr in ('Get_rank',) and comm_like(f.value):
                    return 'RANK'
                recv = v(f.value)
                if f.attr in REDUCERS and recv and not is_red(recv) and not e.args:
                    return 'RED:' + REDUCERS[f.attr]
                if f.attr in REDUCERS and e.args and v(e.args[0]) and not is_red(v(e.args[0])):
                    return 'RED:' + REDUCERS[f.attr]
                if f.attr in LOCAL_DATA:
                    pass
            elif isinstance(f, ast.Name) and f.id in REDUCERS and len(e.args) == 1 and v(e.args[0]) and not is_red(v(e.args[0])):
                return 'RED:' + REDUCERS[f.id]
            cs = self.callees(fn, e)
            if cs is not None:
                out = None
                for c in cs:
                    out = join(out, c.ret)
                return out
            if isinstance(f, ast.Name) and f.id == 'len' and len(e.args) == 1 and v(e.args[0]) == 'SHAPE':
                return None
            if (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)) == 'shape' and len(e.args) == 1:
                return 'SHAPE' if v(e.args[0]) else None
            out = None
            if isinstance(f, ast.Attribute):
                out = v(f.value)
                if out in ('ROOT', 'NROOT'):
                    out = 'LOC'
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            root = f
            while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                root = root.func if isinstance(root, ast.Call) else root.value
            if nm in PASS_CALLS or (isinstance(root, ast.Name) and root.id in ('numpy', 'np', 'math', 'scipy')):
                for a in e.args:
                    out = join(out, v(a))
                for k in e.keywords:
                    out = join(out, v(k.value))
                if nm in ('min', 'max') and len(e.args) > 1:
                    return out
            return out
        return None

    # ----------------------------------------------------------- sequences
    def expr_tokens(self, fn, e, report):
        """collective operations of an expression in evaluation order"""
        out = []

        def go(n):
            if n is None or isinstance(n, ast.Lambda):
                return
            if isinstance(n, ast.BoolOp):
                go(n.values[0])
                bad = self.val(fn, n.values[0], fn.env)
                for x in n.values[1:]:
                    k = len(out)
                    go(x)
                    if bad and len(out) > k:
                        report(x, out[k], 'is evaluated only where %s' % ast.unparse(n.values[0])[:60])
                    bad = bad or self.val(fn, x, fn.env)
                return
            if isinstance(n, ast.IfExp):
                go(n.test)
                k = len(out)
                go(n.body)
                a = out[k:]
                del out[k:]
                go(n.orelse)
                b = out[k:]
                del out[k:]
                if a != b and self.val(fn, n.test, fn.env):
                    report(n, (a + b)[0], 'depends on %s' % ast.unparse(n.test)[:60])
                out.extend(max(a, b, key=len))
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                k = len(out)
                for g in n.generators:
                    go(g.iter)
                k2 = len(out)
                for c in ast.iter_child_nodes(n):
                    if not isinstance(c, ast.comprehension):
                        go(c)
                for g in n.generators:
                    for i in g.ifs:
                        go(i)
                if len(out) > k2 and any(self.val(fn, g.iter, fn.env) or any(self.val(fn, i, fn.env) for i in g.ifs) for g in n.generators):
                    report(n, out[k2], 'is repeated over process local data')
                del k
                return
            for c in ast.iter_child_nodes(n):
                go(c)
            if isinstance(n, ast.Call):
                t = self.token(fn, n)
                if t:
                    out.append(t)
            elif isinstance(n, ast.Attribute) and n.attr in HALO:
                out.append(n.attr)
        go(e)
        return out

    def check_sequences(self, fn):
        """[(node, collective, why)] and the number of rank dependent branches"""
        found = {}
        stats = dict(branches=0, tokens=0)

        def report(node, tok, why):
            found.setdefault((node.lineno, tok), (node, tok, why))

        def real(seq):
            for t in seq:
                if isinstance(t, tuple):
                    r = real(t)
                    if r:
                        return r
                elif not t.startswith('#'):
                    return t
            return None

        memo = {}

        def seq(stmts, i, k, loop):
            """operations of stmts[i:] followed by continuation k = (after, on_continue, on_break, loop_has)"""
            if i >= len(stmts):
                return k
            key = (id(stmts), i, k, loop)
            if key in memo:
                return memo[key]
            memo[key] = r = seq1(stmts, i, k, loop)
            return r

        def seq1(stmts, i, k, loop):
            st = stmts[i]
            if isinstance(st, ast.Return):
                return tuple(self.expr_tokens(fn, st.value, report)) + ('#return',)
            if isinstance(st, ast.Raise):
                return ('#raise',)
            if isinstance(st, ast.Break):
                return ('#break',)
            if isinstance(st, ast.Continue):
                return ('#next',)
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
                return seq(stmts, i+1, k, loop)
            if isinstance(st, ast.If):
                pre = tuple(self.expr_tokens(fn, st.test, report))
                dep = self.val(fn, st.test, fn.env)
                exits = any(isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for n in local_nodes(st))
                if exits or dep:
                    rest = seq(stmts, i+1, k, loop)
                    a = seq(st.body, 0, rest, loop)
                    b = seq(st.orelse, 0, rest, loop)
                    if dep:
                        stats['branches'] += 1
                        # drop the common tail
                        x, y = list(a), list(b)
                        while x and y and x[0] == y[0]:
                            x.pop(0)
                            y.pop(0)
                        if x != y and (real(x) or real(y) or loop):
                            t = real(x) or real(y) or loop
                            report(st, t, 'is reached by some processes only: the branch depends on %s' % ast.unparse(st.test)[:80])
                    if a == b:
                        return pre + a
                    return pre + (('#alt', a, b),)
                a = seq(st.body, 0, (), loop)
                b = seq(st.orelse, 0, (), loop)
                mid = a if a == b else (('#alt', a, b),)
                return pre + mid + seq(stmts, i+1, k, loop)
            if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
                it = st.iter if not isinstance(st, ast.While) else st.test
                pre = tuple(self.expr_tokens(fn, it, report))
                has = None
                for n in local_nodes(st):
                    if isinstance(n, ast.Call) and self.token(fn, n):
                        has = self.token(fn, n)
                        break
                    if isinstance(n, ast.Attribute) and n.attr in HALO:
                        has = n.attr
                body = seq(st.body, 0, ('#next',), has)
                dep = self.val(fn, it, fn.env)
                if dep:
                    stats['branches'] += 1
                    if has and (real(body)):
                        report(st, real(body), 'is repeated a process dependent number of times: %s' % ast.unparse(it)[:80])
                mid = (('#loop', body),) if real(body) else ()
                return pre + mid + seq(st.orelse, 0, (), loop) + seq(stmts, i+1, k, loop)
            if isinstance(st, (ast.With, ast.AsyncWith)):
                pre = ()
                for it in st.items:
                    pre += tuple(self.expr_tokens(fn, it.context_expr, report))
                rest = seq(stmts, i+1, k, loop)
                return pre + seq(st.body, 0, rest, loop)
            if isinstance(st, ast.Try):
                rest = seq(stmts, i+1, k, loop)
                if st.finalbody:
                    rest = seq(st.finalbody, 0, rest, loop)
                a = seq(list_plus(st), 0, rest, loop)
                hs = tuple(seq(h.body, 0, rest, loop) for h in st.handlers)
                return (('#try', a, hs),) if any(real(h) for h in hs) or real(a) else a
            toks = ()
            for c in ast.iter_child_nodes(st):
                if isinstance(st, ast.Assert):
                    break
                toks += tuple(self.expr_tokens(fn, c, report))
            stats['tokens'] += len(toks)
            return toks + seq(stmts, i+1, k, loop)

        cache = {}

        def list_plus(st):
            if id(st) not in cache:
                cache[id(st)] = st.body + st.orelse
            return cache[id(st)]

        seq(fn.node.body, 0, (), None)
        return list(found.values()), stats


def comm_like(e):
    """an expression that names a communicator"""
    if isinstance(e, ast.Name):
        return e.id.lower().endswith('comm') or 'COMM' in e.id or e.id.startswith('comm')
    if isinstance(e, ast.Attribute):
        return e.attr.lower().endswith('comm') or 'COMM' in e.attr or e.attr.startswith('_comm')
    return False


def local_nodes(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


def ordered_statements(node):
    """simple and compound statements of a function in source order, nested scopes excluded"""
    out = []

    def go(body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            out.append(st)
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(st, f, None)
                if b and isinstance(b, list):
                    go(b)
            for h in getattr(st, 'handlers', []) or []:
                go(h.body)
    go(node.body)
    return out
