"""Abstract execution of the solver classes (object graph, wiring, call order).

The solver object is built from the real class without running its
constructor; fields, function spaces and equations are stores with attribute
and item access; options are opaque symbols whose truth values partition the
traces.  Fields are abstract functions with a version counter; every write is
an event.  Time integrators and the field utilities (integrators, extruders,
projectors ...) are abstract objects that remember the arguments of their
construction by parameter name.
"""
from .absint import (Policy, Sy, Ex, Ext, Ob, Fv, Cv, Mv, Ev, key, show, explore, call_parts, callee_name, is_call, freeze,
                     is_conc, RaiseSig)
from .repo import AnalysisError, ClassInfo

STORE = ('AttrDict', 'FieldDict')
FN_WRITES = ('assign', 'interpolate', 'project')


def is_fn(v):
    return isinstance(v, Ob) and v.meta.get('fn')


def bind_args(cls, args, kwargs):
    """constructor arguments by parameter name"""
    m = cls.find_method('__init__')
    if m is None:
        return dict(kwargs)
    a = m.node.args
    names = [p.arg for p in a.posonlyargs + a.args][1:]
    d = {}
    for i, v in enumerate(args):
        d[names[i] if i < len(names) else '*%d' % i] = v
    d.update(kwargs)
    return d


def mro_names(cls):
    return [c.name if isinstance(c, ClassInfo) else str(c) for c in cls.mro()]


class SysPolicy(Policy):
    loop_mode = 'once'
    max_depth = 60
    # classes that are executed; all other package classes become abstract objects
    concrete = ()
    ts_bases = ('TimeIntegrator', 'RungeKuttaTimeIntegrator')
    # options pinned to a value: dotted name -> value
    pins = {}
    skip_methods = ()       # methods of the solver that are not analysed here
    quiet = ('print_output', 'warning', 'info', 'debug', 'set_log_directory')

    def __init__(self, pins=None):
        self.pins = dict(self.pins, **(pins or {}))
        self.fnames = 0

    # ---------------------------------------------------------- functions
    def function(self, it, name=None, space=None, val=None):
        o = it.obj('Function', name)
        o.meta.update(fn=True, isa=('Function',), space=space, ver=0, val=val)
        if name is None:
            self.fnames += 1
            o.name = 'f%d' % self.fnames
        return o

    def root(self, o):
        while o.meta.get('parent') is not None:
            o = o.meta['parent']
        return o

    def wrote(self, it, o, how, src, node):
        o.meta['ver'] += 1
        p = o
        while p.meta.get('parent') is not None:
            p = p.meta['parent']
            p.meta['ver'] += 1
        for c in o.meta.get('subs') or ():
            c.meta['ver'] += 1
        it.event('write', how, [o, src], {}, node)

    def store(self, it, cls, name=None):
        o = it.obj(cls, name)
        o.meta['dictlike'] = True
        o.meta['store'] = True
        return o

    # -------------------------------------------------------------- hooks
    def decide(self, it, cond):
        if isinstance(cond, Ob):
            return True
        s = show(cond)
        if s in self.pins:
            v = self.pins[s]
            return bool(v) if not isinstance(v, Ex) else None
        return None

    def attr(self, it, base, name, node):
        if isinstance(base, Ob):
            if base.meta.get('store'):
                if name in base.attrs:
                    return base.attrs[name]
                if name in ('get', 'keys', 'items', 'values', 'update', 'pop', 'copy'):
                    return ('method', base, name)
                return self.missing(it, base, name, node)
            if is_fn(base):
                if name == 'subfunctions':
                    if base.meta.get('subs') is None:
                        subs = []
                        for i in range(base.meta.get('nsub', 2)):
                            f = self.function(it, '%s[%d]' % (base.name, i))
                            f.meta['parent'] = base
                            subs.append(f)
                        base.meta['subs'] = tuple(subs)
                    return base.meta['subs']
                if name == 'view_3d':
                    return base
                if name in ('assign', 'interpolate', 'project', 'function_space', 'copy', 'rename', 'sub', 'name', 'split'):
                    return ('method', base, name)
        if isinstance(base, (Sy, Ex)):
            s = show(base) + '.' + name
            if s in self.pins and not isinstance(self.pins[s], bool):
                return self.pins[s]
        return NotImplemented

    def missing(self, it, base, name, node, how='attr'):
        """an entry that the store does not have"""
        if base.meta.get('lazy'):
            v = base.meta['lazy'](it, name)
            if v is not None:
                base.attrs[name] = v
                return v
        raise RaiseSig('KeyError' if how == 'item' else 'AttributeError', it.loc(node))

    def setattr(self, it, base, name, value, node):
        if isinstance(base, Ob) and base.meta.get('store'):
            self.put(it, base, name, value)
            return None
        return NotImplemented

    def put(self, it, base, name, value):
        if is_fn(value) and isinstance(name, str) and base.clsname == 'FieldDict':
            value.name = name
        base.attrs[name] = value
        it.event('store', 'store', [base, name, value])

    def index(self, it, base, idx, node):
        if isinstance(base, Ob) and base.meta.get('store'):
            if isinstance(idx, str):
                if idx in base.attrs:
                    return base.attrs[idx]
                return self.missing(it, base, idx, node, 'item')
            for k, v in base.attrs.items():
                if key(k) == key(idx):
                    return v
            return Ex('idx', base, idx)
        return NotImplemented

    def setindex(self, it, base, idx, value, node):
        if isinstance(base, Ob) and base.meta.get('store'):
            self.put(it, base, idx if isinstance(idx, str) else show(idx), value)
            return None
        return NotImplemented

    def compare(self, it, op, a, b):
        if op in ('in', 'not in') and isinstance(b, Ob) and b.meta.get('store'):
            if isinstance(a, str):
                if b.meta.get('lazy') and a not in b.attrs:
                    r = it.truth(Ex('in', a, b))
                else:
                    r = a in b.attrs
                return r if op == 'in' else not r
        return NotImplemented

    def iterate(self, it, value, node):
        if isinstance(value, Ob) and value.meta.get('store'):
            return list(value.attrs)
        return None

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name in STORE:
            return self.store(it, cls)
        names = mro_names(cls)
        if cls.name in self.concrete or any(n in self.concrete for n in names):
            return NotImplemented
        o = it.obj(cls)
        o.meta['args'] = bind_args(cls, args, kwargs)
        o.meta['raw'] = (list(args), dict(kwargs))
        o.meta['stub'] = True
        o.meta['ts'] = any(b in names for b in self.ts_bases)
        o.name = '%s#%d' % (cls.name, o.oid)
        it.event('new', cls.name, [o] + list(args), kwargs, node)
        return o

    def inline(self, it, func, self_):
        if isinstance(self_, Ob) and self_.meta.get('stub'):
            return False
        return True

    def iop(self, it, op, target, value, node):
        if is_fn(target):
            self.wrote(it, target, op + '=', value, node)
            return target
        return NotImplemented

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Ext):
            s = fn.short
            if s in ('proxy',) or fn.name in ('weakref.proxy',):
                return args[0]
            if s == 'Function':
                if args and is_fn(args[0]):
                    f = self.function(it, kwargs.get('name'))
                    f.meta['val'] = ('copy', args[0], args[0].meta['ver'])
                    return f
                return self.function(it, kwargs.get('name') if isinstance(kwargs.get('name'), str) else None,
                                     space=args[0] if args else None)
            if s in self.quiet:
                return None
            if s == 'sorted' and args and isinstance(args[0], Ob) and args[0].meta.get('store'):
                return sorted(args[0].attrs)
            if s == 'len' and args and isinstance(args[0], Ob) and args[0].meta.get('store'):
                return len(args[0].attrs)
            if s == 'hasattr' and isinstance(args[0], Ob):
                o, a = args
                if o.meta.get('store') and isinstance(a, str):
                    return a in o.attrs if not o.meta.get('lazy') else True
                if o.meta.get('stub') and isinstance(a, str):
                    if a in o.attrs:
                        return True
                    return self.stub_hasattr(it, o, a)
            if s == 'getattr' and len(args) == 3 and isinstance(args[0], Ob) and args[0].meta.get('store') and not args[0].meta.get('lazy'):
                return args[0].attrs.get(args[1], args[2])
            if s == 'split' and args and is_fn(args[0]):
                return tuple(it.getattr(args[0], 'subfunctions'))
            if s in ('list', 'tuple') and args and isinstance(args[0], Ob) and args[0].meta.get('store'):
                return list(args[0].attrs)
        if isinstance(fn, Fv) and fn.func.name in self.quiet and fn.func.cls is None:
            return None
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and isinstance(fn[1], Ob):
            o, name = fn[1], fn[2]
            if o.meta.get('store'):
                it.event('call', name, [o] + list(args), kwargs, node)
                if name == 'get':
                    k = args[0]
                    if isinstance(k, str):
                        if k in o.attrs:
                            return o.attrs[k]
                        if o.meta.get('lazy'):
                            return o.meta['lazy'](it, k)
                        return args[1] if len(args) > 1 else kwargs.get('default')
                    return Ex('call', Ex('attr', o, 'get'), tuple(args), ())
                if name == 'keys':
                    return list(o.attrs)
                if name == 'values':
                    return list(o.attrs.values())
                if name == 'items':
                    return list(o.attrs.items())
                if name == 'update' and args and isinstance(args[0], dict):
                    for k, v in args[0].items():
                        self.put(it, o, k, v)
                    return None
                if name == 'pop':
                    return o.attrs.pop(args[0], args[1] if len(args) > 1 else None)
            if is_fn(o):
                if name in FN_WRITES and args and not (name != 'assign' and False):
                    self.wrote(it, o, name, args[0], node)
                    return o
                if name == 'function_space':
                    return o.meta.get('space') if o.meta.get('space') is not None else Ex('space', o)
                if name == 'copy':
                    f = self.function(it)
                    f.meta['val'] = ('copy', o, o.meta['ver'])
                    return f
                if name == 'rename':
                    return None
                if name == 'sub' and args and isinstance(args[0], int):
                    return it.getattr(o, 'subfunctions')[args[0]]
                if name == 'name':
                    return o.name
        if isinstance(fn, Fv) and fn.func.name in self.skip_methods:
            return None
        if isinstance(fn, Fv) and isinstance(fn.self_, Ob) and fn.self_.meta.get('stub'):
            e = it.event('do', fn.func.name, [fn.self_] + list(args), kwargs, node)
            self.effect(it, fn.self_, fn.func, args, kwargs, node)
            e.res = Ex('call', Ex('attr', fn.self_, fn.func.name), tuple(args), tuple(sorted(kwargs.items())))
            return e.res
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Ob) and fn.args[0].meta.get('stub'):
            e = it.event('do', fn.args[1], [fn.args[0]] + list(args), kwargs, node)
            e.res = Ex('call', fn, tuple(args), tuple(sorted(kwargs.items())))
            return e.res
        return NotImplemented

    def effect(self, it, o, func, args, kwargs, node):
        """what a method of an abstract object does to fields"""

    def stub_hasattr(self, it, o, a):
        return bool(o.cls.find_method(a) or o.cls.find_attr(a)) or Ex('hasattr', o, a)


def bind_method(func, args, kwargs):
    """arguments of a method call by parameter name (without self)"""
    a = func.node.args
    names = [p.arg for p in a.posonlyargs + a.args][1:]
    d = {}
    for n, dv in zip(reversed(names), reversed(a.defaults)):
        d[n] = ('default', dv)
    for i, v in enumerate(args):
        d[names[i] if i < len(names) else '*%d' % i] = v
    d.update(kwargs)
    return d


def make_solver(it, modname, clsname, tracers=None):
    """solver object as it is after create_fields"""
    repo = it.repo
    pol = it.policy
    cls = repo.cls(modname, clsname)
    S = it.obj(cls, 'solver')
    S.attrs['options'] = Sy('options')
    S.attrs['_isfrozen'] = False
    fs = pol.store(it, repo.cls('utility', 'AttrDict'), 'function_spaces')
    fs.meta['lazy'] = lambda it, n: Sy(n, space=True)
    S.attrs['function_spaces'] = fs
    f = pol.store(it, repo.cls('utility', 'FieldDict'), 'fields')
    S.attrs['fields'] = f
    S.attrs['equations'] = pol.store(it, repo.cls('utility', 'AttrDict'), 'equations')
    S.attrs['dt'] = Sy('dt')
    S.attrs['mesh2d'] = Sy('mesh2d')
    S.attrs['depth'] = Sy('depth')
    S.attrs['comm'] = Sy('comm')
    S.attrs['bnd_functions'] = Sy('bnd_functions')
    return S
