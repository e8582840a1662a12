"""Abstract arrays: known shapes, symbolic entries.

Array code of the package (interpolation, rotation, constraints) is followed
over arrays whose shape is known and whose entries are symbolic expressions.
Comparisons between symbolic entries are decided by an ordering of the symbols
(`rep`), so that one run stands for all inputs with the same ordering.  Dates,
time differences and netCDF data sets are abstract objects: a date is its time
in seconds, a data set the file it belongs to.
"""
import calendar
import math
import os
import sys
from fractions import Fraction
from .absint import Policy, Sy, Ex, Ob, Ext, Fv, Cv, RaiseSig, callee_name, show, is_num, call_parts, key
from .forms import fatom
from .poly import Poly, make_fn, tofrac
from .repo import AnalysisError

try:
    import numpy as np
except ImportError:
    np = None

VT = '/opt/veriftools/pyvenv/bin/python3'


def need():
    """the array domain keeps its entries in numpy object arrays"""
    if np is None:
        if os.environ.get('SA_VT') or not os.path.exists(VT):
            raise AnalysisError('numpy is not available to the analysis')
        os.environ['SA_VT'] = '1'
        sys.stdout.flush()
        os.execv(VT, [VT] + sys.argv)


FN1 = {'cos': math.cos, 'sin': math.sin, 'sqrt': math.sqrt, 'exp': math.exp, 'abs': abs, 'absolute': abs, 'fabs': abs, 'log': math.log,
       'floor': math.floor, 'ceil': math.ceil, 'tan': math.tan, 'arctan': math.atan, 'deg2rad': math.radians, 'radians': math.radians}
FN2 = {'arctan2': math.atan2, 'hypot': math.hypot, 'mod': lambda a, b: a % b, 'fmod': math.fmod, 'minimum': min, 'maximum': max,
       'power': pow}


def poly(v):
    """canonical polynomial of a scalar expression"""
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        return Poly.const(int(v)) if hasattr(Poly, 'const') else Poly({(): int(v)})
    if is_num(v):
        v = tofrac(v)
        return Poly({(): v}) if v else Poly()
    if isinstance(v, Sy):
        return Poly.atom(fatom(v.name))
    if isinstance(v, Ext):
        return Poly.atom(fatom('pi' if v.short == 'pi' else v.name))
    if isinstance(v, Ex):
        a = v.args
        if v.op == 'neg':
            return -poly(a[0])
        if v.op in ('+', '-', '*', '/', '**') and len(a) == 2:
            x, y = poly(a[0]), poly(a[1])
            if v.op == '+':
                return x + y
            if v.op == '-':
                return x - y
            if v.op == '*':
                return x * y
            if v.op == '/':
                return x / y
            if y.is_const():
                return x.pow(y.const_value())
            return make_fn('pow', [x, y])
        if v.op == 'if':
            return poly(a[1])
        cp = call_parts(v)
        if cp:
            n = callee_name(cp[0])
            if n in ('float', 'Constant') and len(cp[1]) == 1:
                return poly(cp[1][0])
            x = [poly(y) for y in cp[1]]
            if n == 'sqrt':
                return x[0].pow(Fraction(1, 2))
            if n == 'hypot':
                return (x[0] * x[0] + x[1] * x[1]).pow(Fraction(1, 2))
            if n in ('cos', 'sin') and isinstance(cp[1][0], Ex):
                cq = call_parts(cp[1][0])
                if cq and callee_name(cq[0]) == 'arctan2':
                    s, c = poly(cq[1][0]), poly(cq[1][1])
                    return (c if n == 'cos' else s) / (s * s + c * c).pow(Fraction(1, 2))
            if n in ('absolute', 'fabs'):
                n = 'abs'
            if n == 'assemble' and len(x) == 1 and x[0].t:
                c = abs(Fraction(next(iter(sorted(x[0].key())))[1]))
                return c * make_fn(n, [x[0] / Poly.const(c)])
            if n:
                return make_fn(n, x)
        return Poly.atom(fatom(show(v)))
    raise AnalysisError('not a scalar: %s' % show(v))

STRUCT = ('moveaxis', 'swapaxes', 'rollaxis', 'flip', 'fliplr', 'flipud', 'roll', 'repeat', 'split', 'array_split', 'atleast_1d', 'atleast_2d',
          'broadcast_to', 'delete', 'append', 'insert', 'meshgrid', 'hsplit', 'vsplit', 'rot90', 'diag', 'eye', 'identity', 'row_stack', 'copy',
          'ascontiguousarray', 'broadcast_arrays', 'indices', 'shape', 'ndim', 'size', 'block', 'resize')


class NP(Policy):
    """rep: value of every symbol, used only to order expressions"""
    max_depth = 60

    def __init__(self, rep=None, pins=None):
        self.rep = dict(rep or {})
        self.pins = dict(pins or {})

    # ------------------------------------------------------------- values
    def nd(self, it, a, dtype=object):
        if not isinstance(a, np.ndarray):
            a = np.array(a, dtype=object)
        if a.dtype != object and a.dtype != bool:
            a = a.astype(object)
        o = it.obj('ndarray', None)
        o.meta['a'] = a
        o.meta['isa'] = ('ndarray',)
        return o

    @staticmethod
    def isnd(v):
        return isinstance(v, Ob) and 'a' in v.meta

    def arr(self, v):
        if self.isnd(v):
            return v.meta['a']
        if isinstance(v, (list, tuple)):
            x = [self.arr(e) for e in v]
            if x and all(isinstance(e, np.ndarray) and e.ndim for e in x):
                return np.array([e.tolist() for e in x], dtype=object)
            o = np.empty(len(x), dtype=object)
            for i, e in enumerate(x):
                o[i] = e
            return o
        return v

    def out(self, it, r):
        if isinstance(r, np.ndarray):
            return self.nd(it, r) if r.ndim else self.scal(r.item())
        return self.scal(r)

    @staticmethod
    def scal(v):
        if isinstance(v, (np.bool_,)):
            return bool(v)
        if isinstance(v, np.integer):
            return int(v)
        if isinstance(v, np.floating):
            return float(v)
        return v

    def ew(self, it, f, *arrs):
        """apply f entry by entry"""
        u = np.frompyfunc(f, len(arrs), 1)
        try:
            return self.out(it, u(*[self.obj0(a) for a in arrs]))
        except ValueError:
            raise RaiseSig('ValueError', it.loc())

    def obj0(self, v):
        v = self.arr(v)
        if isinstance(v, np.ndarray):
            return v.astype(object) if v.dtype != object else v
        o = np.empty((), dtype=object)
        o[()] = v
        return o

    def num(self, v):
        """position of a symbolic value in the assumed ordering"""
        if isinstance(v, bool) or is_num(v):
            return float(v)
        if isinstance(v, Sy):
            if v.name in self.rep:
                return float(self.rep[v.name])
            raise AnalysisError('no order known for %s' % v.name)
        if isinstance(v, Ob) and 'sec' in v.meta:
            return self.num(v.meta['sec'])
        if isinstance(v, Ext) and v.short in ('pi', 'inf'):
            return getattr(math, v.short)
        if isinstance(v, Ex):
            a = v.args
            s = show(v)
            if s in self.rep:
                return float(self.rep[s])
            if v.op == 'neg':
                return -self.num(a[0])
            if v.op in ('+', '-', '*', '/', '**', '%', '//') and len(a) == 2:
                x, y = self.num(a[0]), self.num(a[1])
                try:
                    return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '**': lambda: x ** y,
                            '%': lambda: x % y, '//': lambda: x // y}[v.op]()
                except ZeroDivisionError:
                    return float('nan')
            cp = call_parts(v)
            if cp:
                n = callee_name(cp[0])
                x = [self.num(y) for y in cp[1]]
                if n in FN1 and len(x) == 1:
                    return FN1[n](x[0])
                if n in FN2 and len(x) == 2:
                    return FN2[n](*x)
                if n in ('float', 'int') and len(x) == 1:
                    return x[0] if n == 'float' else float(int(x[0]))
        raise AnalysisError('no order known for %s' % show(v))

    # --------------------------------------------------------------- hooks
    def decide(self, it, cond):
        s = show(cond)
        if s in self.pins:
            return self.pins[s]
        if self.isnd(cond):
            a = cond.meta['a']
            if a.size == 1:
                return bool(it.truth(self.scal(a.reshape(-1)[0])))
            raise RaiseSig('ValueError', it.loc())
        if isinstance(cond, Ex) and cond.op == 'isinstance':
            if isinstance(cond.args[0], (Sy, Ex)):
                t = getattr(cond.args[1], 'short', None) or show(cond.args[1])
                return t in ('float', 'Number')
        if isinstance(cond, Ex) and cond.op in ('<', '=='):
            try:
                x, y = self.num(cond.args[0]), self.num(cond.args[1])
                return x < y if cond.op == '<' else x == y
            except AnalysisError:
                return None
        return None

    def notnone(self, it, v):
        return True

    def compare(self, it, op, a, b):
        if op in ('is', 'is not'):
            if isinstance(a, Ob) and isinstance(b, Ob):
                return (a is b) == (op == 'is')
            return NotImplemented
        if self.isnd(a) or self.isnd(b):
            if op in ('in', 'not in'):
                r = any(it.truth(it.compare('==', a, x)) for x in self.arr(b).reshape(-1))
                return r if op == 'in' else not r
            r = self.ew(it, lambda x, y: self.bool1(it, it.compare(op, x, y)), a, b)
            if self.isnd(r):
                r.meta['a'] = r.meta['a'].astype(bool)
            return r
        if isinstance(a, Ob) and isinstance(b, Ob) and 'sec' in a.meta and 'sec' in b.meta and op in ('<', '<=', '>', '>=', '==', '!='):
            return self.cmpnum(op, self.num(a), self.num(b))
        if op in ('<', '<=', '>', '>=', '==', '!=') and (isinstance(a, (Sy, Ex)) or isinstance(b, (Sy, Ex))):
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                return NotImplemented
            try:
                return self.cmpnum(op, self.num(a), self.num(b))
            except AnalysisError:
                return NotImplemented
        return NotImplemented

    @staticmethod
    def cmpnum(op, x, y):
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]

    def bool1(self, it, v):
        if isinstance(v, bool):
            return v
        return it.truth(v)

    def binop(self, it, op, a, b, node):
        if self.isnd(a) or self.isnd(b):
            if op in ('&', '|', '^', '+', '*') and all(self.isnd(x) and x.meta['a'].dtype == bool for x in (a, b)):
                x, y = a.meta['a'], b.meta['a']
                return self.nd(it, x & y if op in ('&', '*') else x | y if op in ('|', '+') else x ^ y)
            if op == '@':
                return self.out(it, self.einsum(it, 'ij,jk->ik', a, b))
            return self.ew(it, lambda x, y: it.binop(op, self.scal(x), self.scal(y), node), a, b)
        da, db = (isinstance(x, Ob) and 'sec' in x.meta for x in (a, b))
        if da or db:
            if op == '-' and da and db:
                return self.time(it, 'timedelta' if a.clsname == b.clsname else 'datetime', it.binop('-', a.meta['sec'], b.meta['sec'], node))
            if op == '+' and da and db:
                return self.time(it, 'timedelta' if a.clsname == b.clsname == 'timedelta' else 'datetime',
                                 it.binop('+', a.meta['sec'], b.meta['sec'], node))
            if op in ('*', '/') and da and a.clsname == 'timedelta':
                if db:
                    return it.binop(op, a.meta['sec'], b.meta['sec'], node)
                return self.time(it, 'timedelta', it.binop(op, a.meta['sec'], b, node))
        if isinstance(a, bool) and isinstance(b, bool) and op in '+-*':
            return int(a) * int(b) if op == '*' else int(a) + int(b) if op == '+' else int(a) - int(b)
        if is_num(a) and is_num(b) and (isinstance(a, float) or isinstance(b, float)) and op in '+-*/':
            try:
                return {'+': lambda: tofrac(a) + tofrac(b), '-': lambda: tofrac(a) - tofrac(b), '*': lambda: tofrac(a) * tofrac(b),
                        '/': lambda: Fraction(tofrac(a)) / tofrac(b)}[op]()
            except (ZeroDivisionError, ValueError, OverflowError):
                return NotImplemented
        return NotImplemented

    def neg(self, it, a):
        if self.isnd(a):
            return self.ew(it, it.neg, a)
        return NotImplemented

    def invert(self, it, a):
        if self.isnd(a):
            return self.nd(it, ~a.meta['a'].astype(bool))
        return NotImplemented

    def iop(self, it, op, target, value, node):
        if self.isnd(target):
            r = it.binop(op, target, value, node)
            if self.isnd(r) and r.meta['a'].shape == target.meta['a'].shape:
                if target.meta['a'].dtype == bool or r.meta['a'].dtype == bool:
                    target.meta['a'] = r.meta['a']
                else:
                    target.meta['a'][...] = r.meta['a']
                return target
            return r
        return NotImplemented

    def time(self, it, kind, sec):
        o = it.obj(kind, None)
        o.meta['sec'] = sec
        return o

    # ------------------------------------------------------------ indexing
    def pyidx(self, it, idx):
        if isinstance(idx, tuple):
            return tuple(self.pyidx(it, i) for i in idx)
        if self.isnd(idx):
            a = idx.meta['a']
            return a if a.dtype == bool else a.astype(int)
        if isinstance(idx, list):
            x = [self.pyidx(it, i) for i in idx]
            return np.array(x) if not any(isinstance(i, slice) for i in x) else tuple(x)
        if isinstance(idx, slice):
            return slice(*[self.pyint(it, x) for x in (idx.start, idx.stop, idx.step)])
        if idx is Ellipsis or isinstance(idx, (Sy, Ext)) and show(idx) in ('...', 'Ellipsis'):
            return Ellipsis
        if idx is None or isinstance(idx, Ext) and idx.short == 'newaxis':
            return None
        if isinstance(idx, (bool, int)):
            return idx
        raise AnalysisError('array index %s at %s' % (show(idx), it.loc()))

    def pyint(self, it, x):
        if x is None or isinstance(x, int):
            return x
        if isinstance(x, Fraction) and x.denominator == 1:
            return int(x)
        raise AnalysisError('slice bound %s at %s' % (show(x), it.loc()))

    def index(self, it, base, idx, node):
        if self.isnd(base):
            try:
                return self.out(it, base.meta['a'][self.pyidx(it, idx)])
            except IndexError:
                raise RaiseSig('IndexError', it.loc(node))
        if isinstance(base, (list, tuple)) and isinstance(idx, int) and not isinstance(idx, bool):
            return NotImplemented
        return NotImplemented

    def setindex(self, it, base, idx, value, node):
        if self.isnd(base):
            v = self.arr(value)
            try:
                base.meta['a'][self.pyidx(it, idx)] = v
            except IndexError:
                raise RaiseSig('IndexError', it.loc(node))
            except ValueError:
                raise RaiseSig('ValueError', it.loc(node))
            return None
        return NotImplemented

    # ---------------------------------------------------------- attributes
    def attr(self, it, base, name, node):
        if self.isnd(base):
            a = base.meta['a']
            if name == 'shape':
                return tuple(a.shape)
            if name == 'size':
                return int(a.size)
            if name == 'ndim':
                return a.ndim
            if name == 'T':
                return self.out(it, a.T)
            if name == 'dtype':
                return Sy('dtype')
            return ('nd', base, name)
        if isinstance(base, Ob) and 'sec' in base.meta:
            if base.clsname == 'datetime':
                if name == 'tzinfo':
                    return base.meta.get('tz', Sy('tz'))
                return ('date', base, name)
            if name == 'total_seconds':
                return ('date', base, name)
            return Sy('%s of a time difference' % name)
        return NotImplemented

    def isinst(self, v, t):
        return None

    # --------------------------------------------------------------- calls
    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'nd':
            return self.ndmethod(it, fn[1], fn[2], args, kwargs, node)
        if isinstance(fn, tuple) and fn and fn[0] == 'date':
            if fn[2] == 'total_seconds':
                return fn[1].meta['sec']
            if fn[2] in ('astimezone',):
                return fn[1]
            if fn[2] == 'timestamp':
                return fn[1].meta['sec']
            if fn[2] == 'replace':
                return Sy('replaced date')
            return Sy('date.%s' % fn[2])
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n is None:
            return NotImplemented
        full = fn.name if isinstance(fn, Ext) else show(fn)
        base = fn
        while isinstance(base, Ex) and base.op == 'attr':
            base = base.args[0]
        lib = isinstance(base, Ext)
        if full == 'int' and len(args) == 1 and isinstance(args[0], str):
            try:
                return int(args[0])
            except ValueError:
                raise RaiseSig('ValueError', it.loc(node))
        if full == 'slice':
            return slice(*args)
        if full in ('datetime.timedelta', 'timedelta'):
            s = 0
            for k, m in (('days', 86400), ('hours', 3600), ('minutes', 60), ('seconds', 1)):
                if k in kwargs:
                    s = it.binop('+', s, it.binop('*', kwargs[k], m))
            for v, m in zip(args, (86400, 1)):
                s = it.binop('+', s, it.binop('*', v, m))
            return self.time(it, 'timedelta', s)
        if full in ('datetime.datetime', 'datetime') and len(args) >= 3:
            a = [int(x) for x in args if isinstance(x, int)]
            if len(a) == len(args) or all(isinstance(x, int) for x in args):
                a += [0] * (6 - len(a))
                s = calendar.timegm((a[0], a[1], a[2], a[3], a[4], a[5], 0, 0, 0))
                tz = kwargs.get('tzinfo')
                if tz is not None and show(tz) != 'pytz.utc':
                    s = it.binop('-', s, Sy('offset(%s)' % show(tz)))
                o = self.time(it, 'datetime', s)
                o.meta['tz'] = tz
                return o
        if n == 'localize' and len(args) == 1 and isinstance(args[0], Ob):
            o = self.time(it, 'datetime', args[0].meta['sec'])
            o.meta['tz'] = Sy('tz')
            return o
        if lib and (full.startswith('numpy.') or full.startswith('np.')):
            return self.npcall(it, n, list(args), dict(kwargs), node)
        if n in ('len',) and self.isnd(args[0]):
            return len(args[0].meta['a'])
        if n in ('sum', 'any', 'all', 'min', 'max', 'abs') and len(args) == 1 and self.isnd(args[0]) and full == n:
            if n == 'abs':
                return self.npcall(it, 'abs', list(args), {}, node)
            if n in ('any', 'all'):
                r = [self.bool1(it, self.scal(x)) for x in args[0].meta['a']]
                return any(r) if n == 'any' else all(r)
            return self.ndmethod(it, args[0], n, [], {'axis': 0} if n == 'sum' else {}, node)
        if n in ('list', 'tuple', 'enumerate', 'zip', 'sorted', 'reversed', 'iter', 'map') and any(self.isnd(a) for a in args) and full == n:
            return it.call(fn, [self.items(it, a) if self.isnd(a) else a for a in args], kwargs, node)
        if n in ('max', 'min') and full == n and args:
            x = list(args[0]) if len(args) == 1 and isinstance(args[0], (list, tuple)) else list(args)
            try:
                return (max if n == 'max' else min)(x, key=self.num)
            except AnalysisError:
                return NotImplemented
        if n == 'sorted' and full == n and isinstance(args[0], (list, tuple)):
            k = kwargs.get('key')
            try:
                r = sorted(args[0], key=lambda x: self.num(it.call(k, [x], {}) if k is not None else x), reverse=bool(kwargs.get('reverse', False)))
                return r
            except AnalysisError:
                return NotImplemented
        if n in ('bisect_left', 'bisect_right', 'bisect'):
            return self.npcall(it, 'searchsorted', list(args), {'side': 'left' if n == 'bisect_left' else 'right'}, node)
        return NotImplemented

    def items(self, it, o):
        a = o.meta['a']
        return [self.out(it, x) if isinstance(x, np.ndarray) else self.scal(x) for x in a]

    def iterate(self, it, value, node):
        if self.isnd(value):
            return self.items(it, value)
        return None

    def reduce(self, it, op, a, axis, node=None):
        """fold the entries with a binary operation"""
        a = self.obj0(a)
        f = np.frompyfunc(lambda x, y: it.binop(op, x, y, node), 2, 1)
        if a.size == 0:
            return 0
        return f.reduce(a.reshape(-1) if axis is None else a, axis=0 if axis is None else axis)

    def pick(self, it, a, f, axis=None):
        a = self.obj0(a)
        g = np.frompyfunc(lambda x, y: f((x, y), key=self.num), 2, 1)
        return g.reduce(a.reshape(-1) if axis is None else a, axis=0 if axis is None else axis)

    def ndmethod(self, it, o, name, args, kwargs, node):
        a = o.meta['a']
        if name in ('ravel', 'flatten'):
            return self.nd(it, a.reshape(-1) if name == 'ravel' else a.reshape(-1).copy())
        if name == 'reshape':
            s = args[0] if len(args) == 1 else tuple(args)
            return self.nd(it, a.reshape(tuple(s) if isinstance(s, (list, tuple)) else s))
        if name in ('copy', 'astype', 'filled'):
            if name == 'astype' and args and (getattr(args[0], 'name', None) == 'bool' or args[0] is bool):
                return self.nd(it, np.array([self.bool1(it, self.scal(x)) for x in a.reshape(-1)], dtype=bool).reshape(a.shape))
            return self.nd(it, a.copy())
        if name in ('transpose',):
            return self.out(it, a.T)
        if name == 'tolist':
            return [self.scal(x) for x in a] if a.ndim == 1 else a.tolist()
        if name in ('sum', 'mean', 'min', 'max', 'any', 'all', 'argsort', 'argmin', 'argmax', 'nonzero', 'dot', 'squeeze', 'sort', 'searchsorted',
                    'prod', 'item', 'take', 'swapaxes', 'repeat', 'cumsum'):
            if name == 'squeeze':
                return self.out(it, np.squeeze(a))
            if name == 'item':
                return self.scal(a.item())
            return self.npcall(it, name, [o] + list(args), kwargs, node)
        return NotImplemented

    def einsum(self, it, spec, *ops):
        """explicit index notation"""
        spec = spec.replace(' ', '')
        ins, out = spec.split('->')
        ins = ins.split(',')
        arrs = [self.obj0(o) for o in ops]
        size = {}
        for s, a in zip(ins, arrs):
            if len(s) != a.ndim:
                raise RaiseSig('ValueError', it.loc())
            for c, n in zip(s, a.shape):
                if size.setdefault(c, n) != n:
                    raise RaiseSig('ValueError', it.loc())
        inner = [c for c in size if c not in out]
        res = np.empty(tuple(size[c] for c in out), dtype=object)
        for o in np.ndindex(*[size[c] for c in out]):
            e = dict(zip(out, o))
            tot = 0
            for i in np.ndindex(*[size[c] for c in inner]):
                e.update(zip(inner, i))
                x = 1
                for s, a in zip(ins, arrs):
                    x = it.binop('*', x, a[tuple(e[c] for c in s)])
                tot = it.binop('+', tot, x)
            res[o] = tot
        return res

    def npcall(self, it, n, args, kwargs, node):
        A = lambda i=0: self.obj0(args[i])
        axis = kwargs.get('axis')
        if n in ('array', 'asarray', 'asanyarray', 'float64', 'ascontiguousarray'):
            a = self.arr(args[0])
            if isinstance(a, np.ndarray) and a.dtype == bool and show(kwargs.get('dtype', '')) in ('float', 'int'):
                a = a.astype(int)
            return self.nd(it, np.array(a)) if isinstance(a, np.ndarray) else a
        if n in ('zeros', 'ones', 'empty', 'full'):
            s = args[0]
            s = tuple(s) if isinstance(s, (list, tuple)) else s
            v = {'zeros': 0, 'ones': 1, 'empty': Sy('undefined')}.get(n, args[1] if n == 'full' else None)
            if show(kwargs.get('dtype', '')) in ('bool',):
                return self.nd(it, np.full(s, bool(v)))
            return self.filled(it, s, v)
        if n in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
            a = self.arr(args[0])
            v = {'zeros_like': 0, 'ones_like': 1, 'empty_like': Sy('undefined')}.get(n, args[1] if len(args) > 1 else kwargs.get('fill_value'))
            if not isinstance(a, np.ndarray):
                return v
            if a.dtype == bool and n != 'full_like':
                return self.nd(it, np.full(a.shape, bool(v)))
            return self.filled(it, a.shape, v)
        if n == 'arange':
            return self.nd(it, np.arange(*args).astype(object))
        if n == 'linspace':
            a, b, m = args[0], args[1], args[2] if len(args) > 2 else kwargs.get('num', 50)
            d = it.binop('/', it.binop('-', b, a), m - 1)
            return self.nd(it, [it.binop('+', a, it.binop('*', i, d)) for i in range(m)])
        if n in FN1 and len(args) == 1:
            return self.ew(it, lambda x: self.fn(n, [x]), args[0])
        if n in ('square',):
            return self.ew(it, lambda x: it.binop('*', x, x), args[0])
        if n in ('add', 'subtract', 'multiply', 'divide', 'power'):
            return it.binop({'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'power': '**'}[n], args[0], args[1], node)
        if n in FN2 and len(args) == 2:
            return self.ew(it, lambda x, y: self.fn(n, [x, y]), *args)
        if n in ('isfinite', 'isnan'):
            return self.boolarr(self.ew(it, lambda x: self.finite(it, x) == (n == 'isfinite'), args[0]))
        if n in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or'):
            return self.boolarr(self.ew(it, lambda x, y: (bool(x) and bool(y)) if n.endswith('and') else (bool(x) or bool(y)), *args))
        if n == 'logical_not':
            return self.boolarr(self.ew(it, lambda x: not x, args[0]))
        if n == 'where' and len(args) == 3:
            c = self.arr(args[0])
            return self.ew(it, lambda k, x, y: x if self.bool1(it, k) else y, args[0], args[1], args[2])
        if n in ('nonzero', 'where', 'flatnonzero'):
            r = np.nonzero(self.arr(args[0]).astype(bool))
            r = tuple(self.nd(it, x) for x in r)
            return r[0] if n == 'flatnonzero' else r
        if n in ('any', 'all'):
            a = self.arr(args[0])
            if a.dtype != bool:
                a = np.frompyfunc(lambda x: self.bool1(it, self.scal(x)), 1, 1)(a).astype(bool)
            return self.out(it, getattr(np, n)(a, axis=axis if axis is not None else (args[1] if len(args) > 1 else None)))
        if n in ('sum', 'prod'):
            ax = axis if axis is not None else (args[1] if len(args) > 1 else None)
            r = self.reduce(it, '+' if n == 'sum' else '*', args[0], ax, node)
            if kwargs.get('keepdims') and isinstance(r, np.ndarray):
                r = np.expand_dims(r, ax)
            return self.out(it, r)
        if n in ('mean', 'average'):
            ax = axis if axis is not None else (args[1] if len(args) > 1 else None)
            a = A()
            c = a.size if ax is None else a.shape[ax]
            return it.binop('/', self.out(it, self.reduce(it, '+', a, ax, node)), c) if c else Sy('nan')
        if n in ('min', 'max', 'amin', 'amax'):
            return self.out(it, self.pick(it, args[0], min if 'min' in n else max, axis))
        if n == 'diff':
            a = A()
            return self.nd(it, [it.binop('-', a[i + 1], a[i]) for i in range(len(a) - 1)])
        if n in ('argsort', 'argmin', 'argmax', 'sort'):
            a = A()
            k = [self.num(x) for x in a]
            o = sorted(range(len(k)), key=lambda i: k[i])
            if n == 'sort':
                return self.nd(it, a[o])
            return self.nd(it, np.array(o)) if n == 'argsort' else (o[0] if n == 'argmin' else k.index(max(k)))
        if n == 'searchsorted':
            a = [self.num(x) for x in A()]
            side = kwargs.get('side', args[2] if len(args) > 2 else 'left')
            x = self.num(args[1])
            return sum(1 for y in a if (y < x if side == 'left' else y <= x))
        if n in ('hstack', 'vstack', 'stack', 'concatenate', 'column_stack', 'dstack'):
            x = [self.obj0(e) for e in (args[0] if isinstance(args[0], (list, tuple)) else self.items(it, args[0]))]
            try:
                return self.nd(it, getattr(np, n)(x, **({'axis': axis} if axis is not None else {})))
            except ValueError:
                raise RaiseSig('ValueError', it.loc(node))
        if n == 'take':
            return self.out(it, np.take(self.arr(args[0]), self.pyidx(it, args[1]), axis=axis))
        if n == 'einsum' and isinstance(args[0], str) and '->' in args[0]:
            return self.out(it, self.einsum(it, args[0], *args[1:]))
        if n in ('dot', 'matmul'):
            a, b = A(0), A(1)
            l = 'ab'[:a.ndim - 1] + 'k'
            r = 'k' if b.ndim == 1 else 'k' + 'cd'[:b.ndim - 1]
            return self.out(it, self.einsum(it, '%s,%s->%s' % (l, r, l[:-1] + r[1:]), a, b))
        if n == 'transpose':
            return self.out(it, A().T)
        if n in ('ravel', 'squeeze'):
            return self.out(it, getattr(np, n)(self.arr(args[0])))
        if n == 'reshape':
            return self.nd(it, A().reshape(args[1]))
        if n == 'unique':
            a = A().reshape(-1)
            return self.nd(it, sorted(set(a.tolist())))
        if n == 'expand_dims':
            return self.nd(it, np.expand_dims(A(), args[1] if len(args) > 1 else axis))
        if n == 'tile':
            return self.nd(it, np.tile(A(), tuple(args[1]) if isinstance(args[1], (list, tuple)) else args[1]))
        if n == 'allclose':
            r = self.ew(it, lambda x, y: abs(self.num(self.scal(x)) - self.num(self.scal(y))) < 1e-8, args[0], args[1])
            return bool(np.all(self.arr(r)))
        if n == 'isMaskedArray':
            return False
        if n in STRUCT:
            return self.struct(it, n, args, kwargs, node)
        if n in ('outer',):
            return self.nd(it, self.arr(it.binop('*', self.nd(it, A().reshape(-1, 1)), self.nd(it, A(1).reshape(1, -1)), node)))
        if n in ('cumsum', 'cumprod') and A().ndim == 1:
            r, t = [], None
            for x in A():
                t = x if t is None else it.binop('+' if n == 'cumsum' else '*', t, x, node)
                r.append(t)
            return self.nd(it, r)
        if n in ('negative', 'positive'):
            return it.neg(args[0]) if n == 'negative' else args[0]
        if n in ('count_nonzero',):
            return int(sum(1 for x in self.arr(args[0]).reshape(-1) if self.bool1(it, self.scal(x))))
        return NotImplemented

    def struct(self, it, n, args, kwargs, node):
        """functions that only rearrange entries"""
        def conv(v):
            if self.isnd(v):
                return v.meta['a']
            if isinstance(v, (list, tuple)):
                x = [conv(e) for e in v]
                return x if isinstance(v, list) else tuple(x)
            return v
        a = [conv(x) for x in args]
        k = {q: conv(v) for q, v in kwargs.items() if q != 'dtype'}
        try:
            if n in ('atleast_1d', 'atleast_2d') and a and not isinstance(a[0], np.ndarray):
                a[0] = self.obj0(args[0])
            r = getattr(np, n)(*a, **k)
        except (TypeError, ValueError, IndexError):
            raise RaiseSig('ValueError', it.loc(node))
        if isinstance(r, (list, tuple)):
            r = [self.out(it, x) for x in r]
            return r
        return self.out(it, r)

    def finite(self, it, x):
        if isinstance(x, Ext) and x.short == 'nan' or isinstance(x, float) and not math.isfinite(x):
            return False
        r = self.pins.get('isfinite(%s)' % show(x))
        if r is None and isinstance(x, (Ext, Ex)):
            try:
                return math.isfinite(self.num(x))
            except AnalysisError:
                pass
        return True if r is None else r

    @staticmethod
    def boolarr(o):
        if isinstance(o, Ob):
            o.meta['a'] = o.meta['a'].astype(bool)
        return o

    def filled(self, it, shape, v):
        a = np.empty(shape, dtype=object)
        a[...] = v
        return self.nd(it, a)

    def fn(self, n, x):
        x = [self.scal(v) for v in x]
        if n in ('abs', 'absolute', 'fabs'):
            if is_num(x[0]):
                return abs(x[0])
            try:
                return x[0] if self.num(x[0]) >= 0 else Ex('neg', x[0])
            except AnalysisError:
                pass
        if n == 'maximum' or n == 'minimum':
            return (max if n == 'maximum' else min)(x, key=self.num)
        return Ex('call', Ext('numpy.' + n), tuple(x), ())
