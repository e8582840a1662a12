"""Abstract execution of pointwise array code.

Every `Function`, and every array taken from or written to one, is followed as
one generic nodal value: a canonical `Poly` over the values on entry.  Array
views alias the function they come from; masks become indicators; in-place
operations, `out=` arguments and masked assignments update the value.  Nothing
is run: loops over nodes do not exist in this code, so one symbolic node
stands for all of them.
"""
import itertools
from fractions import Fraction
from .absint import Policy, Sy, Ex, Ob, Ext, Fv, Cv, callee_name, show, is_num, call_parts
from .forms import FormEval, T, fatom
from .poly import Poly, make_fn, sampled_zero, tofrac
from .repo import AnalysisError

ARRS = ('data', 'data_ro', 'data_with_halos', 'data_ro_with_halos', 'data_wo', 'data_wo_with_halos')
QUIET = ('print_output', 'warning', 'info', 'debug')


def sym(name):
    return Poly.atom(fatom(name))


def same(a, b):
    """equality of two canonical values: identical normal forms, or (piecewise,
    rational and radical expressions) identity testing of the difference"""
    d = a - b
    if not d.t:
        return True
    if all(x[0] == 'f' for x in d.atoms()):
        return False            # polynomials are canonical
    return sampled_zero(d, 40)


def short(p, n=5):
    """abbreviate a long intermediate expression (identity testing sees through it)"""
    if len(p.t) > n:
        return Poly.atom(('fn', 'def', (p.key(),), None))
    return p


def pmax(a, b):
    return make_fn('max', [a, b])


def pmin(a, b):
    return make_fn('min', [a, b])


class PW(Policy):
    max_depth = 60
    stub_effects = {}
    concrete = ()
    pins = {}

    def __init__(self, pins=None, hdim=2):
        self.pins = dict(self.pins, **(pins or {}))
        self.hdim = hdim
        self.n = 0

    # ------------------------------------------------------------ values
    def function(self, it, name=None, value=None, shape=()):
        o = it.obj('Function', name)
        self.n += 1
        if name is None:
            o.name = 'f%d' % self.n
        o.meta.update(fn=True, isa=('Function',), shape=shape, writes=0)
        if value is None:
            value = T(shape, {i: Poly.atom(fatom(o.name, i)) for i in itertools.product(*[range(n) for n in shape])})
        o.meta['c'] = value if isinstance(value, T) else T.scalar(value)
        return o

    def arr(self, it, value):
        o = it.obj('Arr', None)
        o.meta['arr'] = True
        o.meta['c'] = short(value)
        return o

    def view(self, it, f):
        if 'view' not in f.meta:
            o = it.obj('Arr', None)
            o.meta['arr'] = True
            o.meta['of'] = f
            f.meta['view'] = o
        return f.meta['view']

    def content(self, o):
        if o.meta.get('of') is not None:
            return o.meta['of'].meta['c'].s()
        c = o.meta['c']
        return c.s() if isinstance(c, T) else c

    def put(self, it, o, p, node=None):
        if isinstance(p, Poly):
            p = short(p)
        if o.meta.get('of') is not None:
            o = o.meta['of']
        if o.meta.get('fn'):
            o.meta['c'] = p if isinstance(p, T) else T.scalar(p)
            o.meta['writes'] += 1
            it.event('write', 'write', [o], {}, node)
        else:
            o.meta['c'] = p

    def evaluator(self, it):
        def res(fe, v):
            if isinstance(v, Ob):
                if v.meta.get('fn'):
                    return v.meta['c']
                if v.meta.get('arr') or v.meta.get('mask'):
                    return T.scalar(self.content(v))
                if v.meta.get('const') is not None:
                    return fe.ev(v.meta['const'])
            if isinstance(v, Ex):
                cp = call_parts(v)
                if cp and callee_name(cp[0]) in ('float', 'Constant') and len(cp[1]) == 1:
                    return fe.ev(cp[1][0])
            return self.resolve(it, fe, v)
        return FormEval(self.hdim, shapes=self.shapes(), resolver=res)

    def shapes(self):
        return {}

    def resolve(self, it, fe, v):
        return None

    def value(self, it, v):
        """T of any value"""
        if isinstance(v, Poly):
            return T.scalar(v)
        if isinstance(v, T):
            return v
        return self.evaluator(it).ev(v)

    def scalar(self, it, v):
        return self.value(it, v).s()

    # ------------------------------------------------------------- hooks
    def isarr(self, v):
        return isinstance(v, Ob) and (v.meta.get('arr') or v.meta.get('mask'))

    def decide(self, it, cond):
        s = show(cond)
        if s in self.pins and isinstance(self.pins[s], bool):
            return self.pins[s]
        return None

    def name(self, it, name, module):
        if name == 'physical_constants':
            return Sy('physical_constants')
        return NotImplemented

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.meta.get('fn'):
            if name == 'dat':
                return Ex('attr', base, 'dat')
            if name in ('assign', 'interpolate', 'project', 'function_space', 'copy', 'rename', 'name', 'sub', 'ufl_shape', 'dx', 'subfunctions'):
                return ('method', base, name) if name not in ('ufl_shape', 'subfunctions') else base.meta['shape']
        if isinstance(base, Ex) and base.op == 'attr' and base.args[1] == 'dat' and isinstance(base.args[0], Ob) and name in ARRS:
            return self.view(it, base.args[0])
        if self.isarr(base):
            if name in ('shape', 'size', 'dtype', 'ndim'):
                return Ex('attr', Sy('array'), name)
            return ('method', base, name)
        if isinstance(base, (Sy, Ex)):
            s = show(base) + '.' + name
            if s in self.pins:
                return self.pins[s]
        return NotImplemented

    def index(self, it, base, idx, node):
        if isinstance(base, Sy) and base.name == 'physical_constants' and isinstance(idx, str):
            return Sy(idx)
        if self.isarr(base):
            if isinstance(idx, slice) or idx is Ellipsis or show(idx) in ('...', 'Ellipsis'):
                return base
            if isinstance(idx, Ob) and idx.meta.get('mask'):
                o = self.arr(it, self.content(base))
                o.meta['masked'] = (base, self.content(idx))
                return o
            raise AnalysisError('array indexed by %s at %s' % (show(idx), it.loc(node)))
        if isinstance(base, Ob) and base.meta.get('fn') and isinstance(idx, int):
            return Ex('idx', base, idx)
        return NotImplemented

    def setindex(self, it, base, idx, value, node):
        if self.isarr(base):
            if value is base or isinstance(value, Ob) and value.meta.get('wrote') and value.meta.get('masked', (None,))[0] is base:
                return None         # second half of an in-place operation
            if isinstance(idx, slice) or show(idx) in ('...', 'Ellipsis') or idx is Ellipsis:
                self.put(it, base, self.scalar(it, value), node)
                return None
            if isinstance(idx, Ob) and idx.meta.get('mask'):
                self.put(it, base, self.where(self.content(idx), self.scalar(it, value), self.content(base)), node)
                return None
            raise AnalysisError('array written at %s (%s)' % (show(idx), it.loc(node)))
        return NotImplemented

    def where(self, ind, a, b):
        """value a where the indicator is 1, else b"""
        ats = [x for x in ind.atoms()]
        if len(ats) == 1 and ats[0][0] == 'fn' and ats[0][1] == 'pos' and len(ind.t) <= 2:
            p = Poly.from_key(ats[0][2][0])
            d = b - a
            on = a if ind.t.get((), 0) == 0 else b      # taken where p > 0
            off = b if on is a else a
            # max(on, off): on where on - off has the sign of p
            for f, r in ((1, pmax), (-1, pmin)):
                q = (on - off) * f
                if not q.is_zero_raw():
                    # same sign by a positive rational factor
                    l1, l2 = p.key()[0][1], dict(q.t).get(p.key()[0][0])
                    if l2 and Fraction(l2) / Fraction(l1) > 0 and q.equals(p * (Fraction(l2) / Fraction(l1))):
                        return r(on, off)
        return ind * a + (1 - ind) * b

    def compare(self, it, op, a, b):
        if self.isarr(a) or self.isarr(b):
            if op in ('<', '<=', '>', '>='):
                x, y = self.scalar(it, a), self.scalar(it, b)
                p = make_fn('pos', [y - x if op in ('<', '<=') else x - y])
                o = it.obj('Mask', None)
                o.meta.update(mask=True, c=p)
                return o
            if op in ('is', 'is not') and (a is None or b is None):
                return op == 'is not'
            if op in ('==', '!='):
                raise AnalysisError('arrays compared for equality at %s' % it.loc())
        return NotImplemented

    def binop(self, it, op, a, b, node):
        if self.isarr(a) or self.isarr(b):
            if op in ('&', '|'):
                x, y = self.content(a), self.content(b)
                o = it.obj('Mask', None)
                o.meta.update(mask=True, c=x * y if op == '&' else x + y - x * y)
                return o
            x, y = self.scalar(it, a), self.scalar(it, b)
            return self.arr(it, self.arith(op, x, y))
        if is_num(a) and is_num(b) and (isinstance(a, float) or isinstance(b, float)):
            a, b = tofrac(a), tofrac(b)
            try:
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
                if op == '/':
                    return Fraction(a) / b
                if op == '**' and Fraction(b).denominator == 1:
                    return Fraction(a) ** int(b)
            except ZeroDivisionError:
                return NotImplemented
            return Ex(op, a, b)
        if op == '**' and is_num(a) and is_num(b) and Fraction(b).denominator != 1:
            return Ex(op, a, b)
        return NotImplemented

    def arith(self, op, x, y):
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            return x / y
        if op == '**':
            if y.is_const():
                return x.pow(y.const_value())
            return make_fn('pow', [x, y])
        raise AnalysisError('array operation %s' % op)

    def neg(self, it, a):
        if self.isarr(a):
            return self.arr(it, -self.content(a))
        return NotImplemented

    def invert(self, it, a):
        o = it.obj('Mask', None)
        o.meta.update(mask=True, c=1 - self.content(a))
        return o

    def iop(self, it, op, target, value, node):
        if self.isarr(target):
            x = self.arith(op, self.content(target), self.scalar(it, value))
            if target.meta.get('masked'):
                base, ind = target.meta['masked']
                self.put(it, base, self.where(ind, x, self.content(base)), node)
                target.meta['wrote'] = True
            else:
                self.put(it, target, x, node)
            return target
        if isinstance(target, Ob) and target.meta.get('fn'):
            t, v = target.meta['c'], self.value(it, value)
            c = {}
            for i in itertools.product(*[range(n) for n in t.shape]):
                c[i] = self.arith(op, t.c.get(i, Poly()), (v.c.get(i, Poly()) if v.shape else v.s()))
            self.put(it, target, T(t.shape, c), node)
            return target
        return NotImplemented

    # ------------------------------------------------------------- calls
    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name in self.concrete:
            return NotImplemented
        o = it.obj(cls)
        from .sysim import bind_args
        o.meta['stub'] = True
        o.meta['args'] = bind_args(cls, args, kwargs)
        it.event('new', cls.name, [o] + list(args), kwargs, node)
        return o

    def written(self, it, f, how, v, node):
        t = self.value(it, v)
        if how == 'project':
            t = t.map(lambda p: make_fn('proj', [p]) if not p.is_const() else p)
        if t.shape != f.meta['shape'] and f.meta['shape'] and not t.shape:
            t = T(f.meta['shape'], {i: t.s() for i in itertools.product(*[range(n) for n in f.meta['shape']])})
        self.put(it, f, t, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and isinstance(fn[1], Ob):
            o, name = fn[1], fn[2]
            if o.meta.get('fn'):
                if name in ('assign', 'interpolate', 'project'):
                    self.written(it, o, name, args[0], node)
                    return o
                if name == 'function_space':
                    return Sy('space:%s' % o.name)
                if name == 'copy':
                    return self.function(it, None, o.meta['c'], o.meta['shape'])
                if name == 'rename':
                    return None
                if name == 'name':
                    return o.name
                if name == 'dx':
                    return Ex('call', Ex('attr', o, 'dx'), tuple(args), ())
            if self.isarr(o):
                if name == 'copy' or name == 'astype' or name == 'flatten':
                    return self.arr(it, self.content(o))
                if name in ('min', 'max', 'sum', 'mean', 'any', 'all'):
                    return Ex('call', Ext('numpy.' + name), (Sy('array:%s' % name),), ())
                if name == 'clip':
                    return self.np(it, 'clip', [o] + list(args), kwargs, node)
                if name == 'fill':
                    self.put(it, o, self.scalar(it, args[0]), node)
                    return None
        if isinstance(fn, Ext):
            s = fn.short
            if s in QUIET:
                return None
            if s == 'Function':
                return self.newfunction(it, args, kwargs, node)
            if s in ('float', 'Constant') and len(args) == 1 and is_num(args[0]):
                return args[0]
            if s in ('float', 'Constant', 'int') and len(args) == 1 and isinstance(args[0], (Sy, Ex)):
                return args[0]
            r = self.np(it, s, list(args), kwargs, node)
            if r is not NotImplemented:
                return r
        if isinstance(fn, Fv) and fn.func.name in QUIET and fn.func.cls is None:
            return None
        if isinstance(fn, Fv) and isinstance(fn.self_, Ob) and fn.self_.meta.get('stub'):
            return self.stubcall(it, fn.self_, fn.func.name, args, kwargs, node)
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Ob) and fn.args[0].meta.get('stub'):
            return self.stubcall(it, fn.args[0], fn.args[1], args, kwargs, node)
        return NotImplemented

    def newfunction(self, it, args, kwargs, node):
        if args and isinstance(args[0], Ob) and args[0].meta.get('fn'):
            return self.function(it, None, args[0].meta['c'], args[0].meta['shape'])
        nm = kwargs.get('name')
        return self.function(it, nm if isinstance(nm, str) else None, Poly(), ())

    def stubcall(self, it, o, name, args, kwargs, node):
        e = it.event('do', name, [o] + list(args), kwargs, node)
        e.res = Ex('call', Ex('attr', o, name), tuple(args), tuple(sorted(kwargs.items())))
        return e.res

    def np(self, it, s, args, kwargs, node):
        if not any(self.isarr(a) for a in list(args) + list(kwargs.values())):
            if s == 'sqrt' and len(args) == 1:
                return Ex('**', args[0], Fraction(1, 2)) if not is_num(args[0]) else Ex('call', Ext('sqrt'), (args[0],), ())
            return NotImplemented
        if s in ('maximum', 'minimum', 'fmax', 'fmin'):
            f = pmax if s.endswith('ax') or s == 'maximum' else pmin
            r = f(self.scalar(it, args[0]), self.scalar(it, args[1]))
        elif s == 'clip':
            r = self.scalar(it, args[0])
            lo = args[1] if len(args) > 1 else kwargs.get('a_min', kwargs.get('min'))
            hi = args[2] if len(args) > 2 else kwargs.get('a_max', kwargs.get('max'))
            if lo is not None:
                r = pmax(r, self.scalar(it, lo))
            if hi is not None:
                r = pmin(r, self.scalar(it, hi))
        elif s == 'sqrt':
            r = self.scalar(it, args[0]).pow(Fraction(1, 2))
        elif s in ('power', 'pow', 'float_power', 'add', 'subtract', 'multiply', 'divide', 'true_divide'):
            op = {'power': '**', 'pow': '**', 'float_power': '**', 'add': '+', 'subtract': '-', 'multiply': '*'}.get(s, '/')
            r = self.arith(op, self.scalar(it, args[0]), self.scalar(it, args[1]))
        elif s == 'square':
            r = self.scalar(it, args[0]).pow(2)
        elif s in ('abs', 'absolute', 'fabs', 'exp', 'sign'):
            r = make_fn('abs' if s not in ('exp', 'sign') else s, [self.scalar(it, args[0])])
        elif s in ('log',):
            r = make_fn('ln', [self.scalar(it, args[0])])
        elif s == 'where' and len(args) == 3:
            r = self.where(self.content(args[0]), self.scalar(it, args[1]), self.scalar(it, args[2]))
        elif s in ('zeros_like', 'ones_like', 'full_like'):
            r = Poly.const(0) if s[0] == 'z' else Poly.const(1) if s[0] == 'o' else self.scalar(it, args[1])
        elif s in ('array', 'asarray', 'copy', 'ascontiguousarray', 'asanyarray'):
            return args[0] if s in ('asarray', 'ascontiguousarray', 'asanyarray') else self.arr(it, self.content(args[0]))
        elif s in ('logical_not', 'invert'):
            return self.invert(it, args[0])
        elif s in ('logical_and', 'logical_or'):
            return self.binop(it, '&' if s.endswith('and') else '|', args[0], args[1], node)
        elif s in ('min', 'max', 'amin', 'amax', 'sum', 'mean', 'any', 'all', 'isnan', 'isfinite', 'len', 'isinstance', 'float'):
            if s == 'isinstance':
                return NotImplemented
            return Ex('call', Ext('numpy.' + s), (Sy('array:' + s),), ())
        elif s in ('copyto', 'putmask'):
            dst = args[0]
            if s == 'copyto':
                m, v = kwargs.get('where', args[2] if len(args) > 2 else None), args[1]
            else:
                m, v = args[1], args[2]
            p = self.scalar(it, v)
            self.put(it, dst, p if m is None else self.where(self.content(m), p, self.content(dst)), node)
            return None
        else:
            raise AnalysisError('array function %s at %s' % (s, it.loc(node)))
        n = {'clip': 3, 'sqrt': 1, 'square': 1, 'abs': 1, 'absolute': 1, 'exp': 1, 'sign': 1, 'fabs': 1, 'log': 1}.get(s, 2)
        out = kwargs.get('out', args[n] if len(args) > n and s != 'where' and not s.endswith('_like') else None)
        if isinstance(out, tuple):
            out = out[0]
        if out is not None:
            if 'where' in kwargs:
                r = self.where(self.content(kwargs['where']), r, self.content(out))
            self.put(it, out, r, node)
            return out
        return self.arr(it, r)
