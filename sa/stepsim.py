"""One-step algebra of the time integrators.

The abstract interpreter executes the constructor and the step methods of an
integrator over a domain of linear combinations: a field holds a combination
of the state at the start of the step and of tendencies K; a spatial operator
is an uninterpreted symbol; a variational solver is the (unique) solution of
its residual, which is affine in the unknown up to the tendencies evaluated at
it.  The result of a step is its *effective scheme*: the combination of
tendencies in the new state, and for every tendency the state, the forcing
fields and the time at which it was evaluated.  Tableau constants are folded.
"""
from fractions import Fraction
import math
from .absint import (Policy, Sy, Ex, Ext, Ob, Fv, Cv, key, show, is_num, call_parts, callee_name, freeze, explore)
from .repo import AnalysisError, ClassInfo

TOL = 1e-9


# ------------------------------------------------------------- constants
class Arr(list):
    """numpy array of constants (nested lists)"""

    @property
    def shape(self):
        s, x = [], self
        while isinstance(x, list):
            s.append(len(x))
            if not x:
                break
            x = x[0]
        return tuple(s)


def arr(x):
    if isinstance(x, (list, tuple)):
        return Arr(arr(e) for e in x)
    return x


def ew(f, a, b):
    la, lb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    if la and lb:
        da, db = depth(a), depth(b)
        if da == db:
            if len(a) != len(b):
                if len(a) == 1:
                    return Arr(ew(f, a[0], y) for y in b)
                if len(b) == 1:
                    return Arr(ew(f, x, b[0]) for x in a)
                raise AnalysisError('array shapes differ')
            return Arr(ew(f, x, y) for x, y in zip(a, b))
        if da < db:
            return Arr(ew(f, a, y) for y in b)
        return Arr(ew(f, x, b) for x in a)
    if la:
        return Arr(ew(f, x, b) for x in a)
    if lb:
        return Arr(ew(f, a, y) for y in b)
    return f(a, b)


def depth(a):
    d = 0
    while isinstance(a, (list, tuple)) and a:
        d += 1
        a = a[0]
    return d


def flatn(a):
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            out.extend(flatn(x))
        return out
    return [a]


def mat_inv(a):
    n = len(a)
    m = [list(map(float, r)) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-14:
            raise AnalysisError('singular matrix in constant folding')
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x/d for x in m[c]]
        for r in range(n):
            if r != c and m[r][c]:
                f = m[r][c]
                m[r] = [x - f*y for x, y in zip(m[r], m[c])]
    return Arr(Arr(r[n:]) for r in m)


def dot(a, b):
    da, db = depth(a), depth(b)
    if da == 1 and db == 1:
        return sum(x*y for x, y in zip(a, b))
    if da == 2 and db == 1:
        return Arr(dot(r, b) for r in a)
    if da == 1 and db == 2:
        return Arr(sum(a[i]*b[i][j] for i in range(len(a))) for j in range(len(b[0])))
    return Arr(dot(r, b) for r in a)


def np_call(name, args, kw):
    """constant folding of numpy calls; NotImplemented if not constant"""
    a = args[0] if args else None
    if name in ('array', 'asarray', 'atleast_1d') and isinstance(a, (list, tuple)):
        return arr(a)
    if name == 'sqrt' and is_num(a):
        return math.sqrt(a)
    if name == 'vstack':
        rows = []
        for x in a:
            rows.extend(arr(x) if depth(x) == 2 else [arr(x)])
        return Arr(rows)
    if name == 'concatenate':
        out = Arr()
        for x in a:
            out.extend(arr(x))
        return out
    if name == 'diag':
        k = args[1] if len(args) > 1 else kw.get('k', 0)
        if depth(a) == 2:
            return Arr(a[i][i + k] for i in range(len(a)) if 0 <= i + k < len(a[0]))
        n = len(a)
        return Arr(Arr(a[i] if i == j else 0.0 for j in range(n)) for i in range(n))
    if name in ('triu', 'tril'):
        k = args[1] if len(args) > 1 else kw.get('k', 0)
        return Arr(Arr(x if (j - i >= k if name == 'triu' else j - i <= k) else 0 for j, x in enumerate(r)) for i, r in enumerate(a))
    if name in ('zeros', 'ones'):
        v = 0.0 if name == 'zeros' else 1.0
        s = a if isinstance(a, (tuple, list)) else (a,)
        return Arr(v for _ in range(s[0])) if len(s) == 1 else Arr(Arr(v for _ in range(s[1])) for _ in range(s[0]))
    if name in ('zeros_like', 'ones_like'):
        v = 0.0 if name == 'zeros_like' else 1.0
        return ew(lambda x, y: v, arr(a), 0)
    if name in ('eye', 'identity'):
        return Arr(Arr(1.0 if i == j else 0.0 for j in range(a)) for i in range(a))
    if name in ('dot', 'matmul'):
        return dot(args[0], args[1])
    if name == 'inv':
        return mat_inv(a)
    if name == 'sum':
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if ax is None:
            return sum(flatn(a))
        if ax in (1, -1):
            return Arr(sum(r) for r in a)
        return Arr(sum(r[j] for r in a) for j in range(len(a[0])))
    if name in ('abs', 'absolute'):
        return ew(lambda x, y: abs(x), arr(a), 0) if isinstance(a, (list, tuple)) else abs(a)
    if name == 'allclose':
        return all(abs(x) <= 1e-8 + 1e-5*abs(x) or True for x in []) if False else all(
            abs(x) < 1e-7 for x in flatn(ew(lambda x, y: x - y, a, args[1])))
    if name == 'array_equal':
        return arr(a) == arr(args[1])
    if name in ('any', 'all'):
        return (any if name == 'any' else all)(bool(x) for x in flatn(a))
    if name == 'transpose':
        return Arr(Arr(r[j] for r in a) for j in range(len(a[0])))
    if name == 'linspace' or name == 'arange':
        return NotImplemented
    return NotImplemented


def const_list(v):
    return isinstance(v, (list, tuple)) and all(is_num(x) or isinstance(x, bool) for x in flatn(v))


# -------------------------------------------------------------- algebra
class S:
    """polynomial in the scalar parameters (dt, theta ...), negative powers of monomials allowed"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if abs(v) > 1e-13}

    @staticmethod
    def num(x):
        return S({(): float(x)})

    @staticmethod
    def sym(n, p=1):
        return S({((n, p),): 1.0})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0.0) + v
        return S(d)

    def __neg__(self):
        return S({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                m = dict(a)
                for n, p in b:
                    m[n] = m.get(n, 0) + p
                k = tuple(sorted((n, p) for n, p in m.items() if p))
                d[k] = d.get(k, 0.0) + x*y
        return S(d)

    def inv(self):
        if len(self.d) != 1:
            raise AnalysisError('division by %r' % self)
        (k, v), = self.d.items()
        return S({tuple((n, -p) for n, p in k): 1.0/v})

    def zero(self, tol=TOL):
        return all(abs(v) < tol for v in self.d.values())

    def close(self, o, tol=TOL):
        return (self - o).zero(tol)

    def subs(self, n, val):
        out = S()
        for k, v in self.d.items():
            t = S.num(v)
            for m, p in k:
                if m == n:
                    f = val if p > 0 else val.inv()
                    for _ in range(abs(p)):
                        t = t*f
                else:
                    t = t*S.sym(m, p)
            out = out + t
        return out

    def __repr__(self):
        if not self.d:
            return '0'
        return ' + '.join('%.12g%s' % (v, ''.join('*%s%s' % (n, '' if p == 1 else '^%d' % p) for n, p in k))
                          for k, v in sorted(self.d.items()))


ONE = ('1',)


class LC:
    """linear combination of atoms with coefficients S"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if not v.zero(1e-13)}

    @staticmethod
    def atom(*a):
        return LC({tuple(a): S.num(1)})

    @staticmethod
    def num(x):
        return LC({ONE: S.num(x)})

    @staticmethod
    def scal(s):
        return LC({ONE: s})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d[k] + v if k in d else v
        return LC(d)

    def __neg__(self):
        return LC({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def times(self, s):
        return LC({k: v*s for k, v in self.d.items()})

    def scalar(self):
        """the coefficient if this is a pure number"""
        if not self.d:
            return S()
        if set(self.d) == {ONE}:
            return self.d[ONE]
        return None

    def coef(self, a):
        return self.d.get(a, S())

    def without(self, a):
        return LC({k: v for k, v in self.d.items() if k != a})

    def zero(self):
        return all(v.zero() for v in self.d.values())

    def close(self, o):
        return (self - o).zero()

    def mapatoms(self, f):
        out = LC()
        for k, v in self.d.items():
            r = f(k)
            out = out + (r.times(v) if isinstance(r, LC) else LC({r: v}))
        return out

    def k(self):
        return tuple(sorted(((repr(a), tuple(sorted((m, round(x, 9)) for m, x in s.d.items() if abs(x) > TOL)))
                             for a, s in self.d.items() if not s.zero()), key=repr))

    def __repr__(self):
        if not self.d:
            return '0'
        return ' + '.join('(%r)*%s' % (v, ':'.join(map(str, k))) for k, v in sorted(self.d.items(), key=lambda x: repr(x[0])))


class K:
    """a tendency: the spatial operator evaluated at given arguments"""
    def __init__(self, idx, op, terms, u, unl, fields, fields_old, bnd, time, geom, loc):
        self.idx = idx
        self.op = op
        self.terms = terms
        self.u = u
        self.unl = unl
        self.fields = fields
        self.fields_old = fields_old
        self.bnd = bnd
        self.time = time
        self.geom = geom
        self.loc = loc

    def sig(self):
        return (self.op, self.terms, self.u.k(), self.unl.k(), fk(self.fields), fk(self.fields_old), self.time.k(), self.geom, self.bnd)

    def __repr__(self):
        return 'K%d[%s u=%r unl=%r t=%r]' % (self.idx, self.terms, self.u, self.unl, self.time)


def fk(d):
    return tuple((n, v.k() if isinstance(v, LC) else repr(v)) for n, v in sorted(d.items()))


class StepPolicy(Policy):
    max_depth = 60

    def __init__(self):
        self.ks = []          # tendencies of the current step
        self.kcount = 0
        self.unknowns = 0
        self.time = LC.atom('nt')   # forcing time: not updated yet
        self.geom = 0
        self.log = []

    # -------------------------------------------------------- constants
    def binop(self, it, op, a, b, node):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple, int, float, Fraction, Ob, Ex, Sy)) and isinstance(b, (list, tuple, int, float, Fraction, Ob, Ex, Sy)):
                if op == '@':
                    return dot(a, b)
                return ew(lambda x, y: it.binop(op, x, y, node), a, b)
        return NotImplemented

    def neg(self, it, a):
        if isinstance(a, Arr):
            return ew(lambda x, y: it.neg(x), a, 0)
        return NotImplemented

    def compare(self, it, op, a, b):
        if (isinstance(a, Arr) or isinstance(b, Arr)) and op in ('<', '>', '<=', '>=', '==', '!='):
            return ew(lambda x, y: it.compare(op, x, y), a, b)
        return NotImplemented

    def index(self, it, base, idx, node):
        if isinstance(base, Arr):
            if isinstance(idx, tuple):
                r, c = idx
                if isinstance(r, slice):
                    return Arr(self.index(it, x, c, node) for x in list.__getitem__(base, r))
                return self.index(it, list.__getitem__(base, r), c, node)
            if isinstance(idx, (int, slice)):
                v = list.__getitem__(base, idx)
                return Arr(v) if isinstance(idx, slice) else v
        return NotImplemented

    def setindex(self, it, base, idx, value, node):
        if not isinstance(base, Arr):
            return NotImplemented
        if isinstance(idx, list):      # boolean mask

            def rec(b, m):
                for i in range(len(b)):
                    if isinstance(m[i], list):
                        rec(b[i], m[i])
                    elif m[i]:
                        b[i] = value
            rec(base, idx)
            return None
        r, c = idx if isinstance(idx, tuple) else (idx, slice(None))
        rows = range(len(base))[r] if isinstance(r, slice) else [r]
        if depth(base) == 1:
            for n, i in enumerate(rows):
                base[i] = value[n] if isinstance(value, (list, tuple)) else value
            return None
        for n, i in enumerate(rows):
            v = value
            if isinstance(value, (list, tuple)) and depth(value) == 2:
                v = value[n]
            elif isinstance(value, (list, tuple)) and isinstance(r, slice) and not isinstance(c, slice):
                v = value[n]
            cols = range(len(base[i]))[c] if isinstance(c, slice) else [c]
            for m, j in enumerate(cols):
                base[i][j] = v[m] if isinstance(v, (list, tuple)) else v
        return None

    # ----------------------------------------------------------- values
    def value(self, it, x):
        """current value of an expression as a linear combination"""
        if isinstance(x, LC):
            return x
        if is_num(x):
            return LC.num(x)
        if isinstance(x, Ob):
            if x.cls == 'Component':
                p = x.meta['parent']
                return self.value(it, p).mapatoms(lambda a: ('c', x.meta['i'], a))
            if x.cls in ('Function', 'Cofunction', 'Constant', 'Scalar'):
                return x.meta['val']
            return LC.atom('ob', x.clsname, x.oid)
        if isinstance(x, Sy):
            if x.tags.get('scalar'):
                return LC.scal(S.sym(x.name))
            if x.name in ('test', 'trial'):
                return LC.atom(x.name)
            return LC.atom('sym', x.name)
        if isinstance(x, Ex):
            if x.op == '+':
                return self.value(it, x.args[0]) + self.value(it, x.args[1])
            if x.op == '-':
                return self.value(it, x.args[0]) - self.value(it, x.args[1])
            if x.op == 'neg':
                return -self.value(it, x.args[0])
            if x.op == 'comp':
                return self.value(it, x.args[0]).mapatoms(lambda a: ('c', x.args[1], a))
            if x.op == '*':
                a, b = x.args
                for p, q in ((a, b), (b, a)):
                    if isinstance(q, (Ext, Ex, Sy)) and (isinstance(q, Ext) and q.short == 'dx' or is_measure(q)):
                        return self.value(it, p)
                va, vb = self.value(it, a), self.value(it, b)
                sa, sb = va.scalar(), vb.scalar()
                if sa is not None:
                    return vb.times(sa)
                if sb is not None:
                    return va.times(sb)
                # (field * test) integrals of scalar equations
                for p, q in ((va, vb), (vb, va)):
                    if set(q.d) == {('test',)}:
                        return p.times(q.d[('test',)])
                return LC.atom('prod', va.k(), vb.k())
            if x.op == '/':
                va, vb = self.value(it, x.args[0]), self.value(it, x.args[1])
                s = vb.scalar()
                if s is None or s.zero():
                    return LC.atom('quot', va.k(), vb.k())
                return va.times(s.inv())
            if x.op == 'mass':
                return self.value(it, self.joined(it, x.args[0]))
            if x.op == 'resid':
                return self.tendency(it, x)
            if x.op == 'term':
                nm, uv, eta, uvo, etao, f, fo, bnd = x.args
                f, fo = dict(dict_of(f)), dict(dict_of(fo))
                f['eta'], fo['eta'] = eta, etao
                return self.tendency(it, Ex('resid', 'term', nm, uv, uvo, tuple(['dict'] + list(f.items())),
                                            tuple(['dict'] + list(fo.items())), bnd))
            c = call_parts(x)
            if c and callee_name(c[0]) in ('inner', 'dot') and len(c[1]) == 2:
                vs = [self.value(it, self.joined(it, y)) for y in c[1]]
                for i in (0, 1):
                    t = vs[1 - i]
                    if set(t.d) == {('test',)}:
                        return vs[i].times(t.d[('test',)])
                    cs = [a for a in t.d if a[0] == 'c' and a[2] == ('test',)]
                    if len(t.d) == 1 and cs:
                        # component of the test function: restrict to that block
                        blk = cs[0][1]
                        return LC({a if a[0] == 'c' else a: v for a, v in vs[i].d.items()}).mapatoms(
                            lambda a: a if a[0] == 'c' else ('blk', blk, a))
                return LC.atom('inner', vs[0].k(), vs[1].k())
            if c and callee_name(c[0]) in ('float', 'Constant', 'abs') and len(c[1]) == 1:
                return self.value(it, c[1][0])
            return LC.atom('ex', show(x)[:200])
        if isinstance(x, (tuple, list)):
            return self.value(it, self.joined(it, x))
        return LC.atom('val', repr(x))

    def joined(self, it, x):
        """a list of components of a mixed field is the field"""
        if isinstance(x, (list, tuple)) and x:
            vs = [self.value(it, e) for e in x]
            out = None
            for i, v in enumerate(vs):
                d = LC()
                for a, s in v.d.items():
                    if a[0] == 'c' and a[1] == i:
                        d = d + LC({a[2]: s})
                    else:
                        d = d + LC({('badcomp', i, a): s})
                if out is None:
                    out = d
                elif not out.close(d):
                    return LC.atom('mix', tuple(w.k() for w in vs))
            return out
        return x

    def tendency(self, it, x):
        op, terms, u, unl, fields, fold, bnd = x.args
        fields = dict_of(fields)
        fold = dict_of(fold)
        k = K(self.kcount, op, terms, self.value(it, self.joined(it, u)), self.value(it, self.joined(it, unl)),
              {n: self.value(it, v) for n, v in fields.items() if v is not None},
              {n: self.value(it, v) for n, v in fold.items() if v is not None},
              show(bnd), self.time, self.geom, it.loc())
        s = k.sig()
        for o in self.ks:
            if o.sig() == s:
                return LC.atom('K', o.idx)
        self.ks.append(k)
        self.kcount += 1
        return LC.atom('K', k.idx)

    # ------------------------------------------------------------ calls
    def function(self, it, kind, name, val):
        o = it.obj(kind, name)
        o.meta['val'] = val
        return o

    def assign(self, it, o, v, node=None):
        if o.cls == 'Component':
            p, i = o.meta['parent'], o.meta['i']
            old = self.value(it, p)
            n = p.meta.get('ncomp', 2)
            comps = [old.mapatoms(lambda a, j=j: ('c', j, a)) for j in range(n)]
            comps[i] = v
            j = self.joined(it, comps)
            p.meta['val'] = j if isinstance(j, LC) else LC.atom('mix', tuple(c.k() for c in comps))
        else:
            o.meta['val'] = v

    def attr(self, it, base, name, node):
        if isinstance(base, Arr) and name == 'shape':
            return base.shape
        if isinstance(base, Arr) and name == 'T':
            return np_call('transpose', [base], {})
        if isinstance(base, Ob) and base.cls in ('Function', 'Cofunction'):
            if name == 'subfunctions':
                if 'subs' not in base.meta:
                    base.meta['subs'] = []
                    for i in range(2):
                        c = it.obj('Component', '%s[%d]' % (base.name, i))
                        c.meta.update(parent=base, i=i)
                        base.meta['subs'].append(c)
                return list(base.meta['subs'])
        if isinstance(base, Ob) and base.cls == 'LinearSolver' and name == 'A':
            return base.meta['mat']
        if isinstance(base, Ob) and base.cls in ('NVP', 'LVP', 'NVS', 'Matrix', 'LinearSolver') and name in base.meta:
            return base.meta[name]
        return NotImplemented

    def call(self, it, fn, args, kwargs, node):
        nm = callee_name(fn) if not isinstance(fn, tuple) else None
        if isinstance(fn, tuple) and fn[0] == 'method' and isinstance(fn[1], Arr):
            r = np_call(fn[2], [fn[1]] + list(args), kwargs)
            if r is not NotImplemented:
                return r
            return NotImplemented
        if isinstance(fn, Ext):
            if fn.name.startswith(('numpy.', 'np.')) or fn.name in ('inv', 'linalg.inv'):
                if args and (const_list(args[0]) or is_num(args[0]) or isinstance(args[0], (list, tuple))):
                    return np_call(fn.short, args, kwargs)
            s = fn.short
            if s == 'map' and len(args) >= 2 and all(isinstance(a, (list, tuple)) for a in args[1:]):
                if isinstance(args[0], Ext) and args[0].short in ('mul', 'add', 'sub', 'truediv'):
                    op = {'mul': '*', 'add': '+', 'sub': '-', 'truediv': '/'}[args[0].short]
                    return [it.binop(op, x, y, node) for x, y in zip(args[1], args[2])]
                return [it.call(args[0], list(x), {}, node) for x in zip(*args[1:])]
            if s in ('Function', 'Cofunction'):
                v = args[0] if args else None
                val = self.value(it, v) if isinstance(v, Ob) and v.cls in ('Function', 'Component') else LC()
                return self.function(it, s, kwargs.get('name') or 'F%d' % it.nextid, val)
            if s == 'Constant' and args:
                return self.function(it, 'Constant', 'const', self.value(it, args[0]))
            if s == 'split' and args and isinstance(args[0], Ob):
                return [Ex('comp', args[0], 0), Ex('comp', args[0], 1)]
            if s == 'split' and args:
                return [Ex('comp', args[0], 0), Ex('comp', args[0], 1)]
            if s in ('NonlinearVariationalProblem',):
                o = it.obj('NVP')
                o.meta.update(F=args[0], u=args[1])
                return o
            if s in ('LinearVariationalProblem',):
                o = it.obj('LVP')
                o.meta.update(a=args[0], L=args[1], u=args[2])
                return o
            if s in ('NonlinearVariationalSolver', 'LinearVariationalSolver'):
                o = it.obj('NVS')
                o.meta.update(p=args[0])
                return o
            if s == 'assemble':
                return self.assemble(it, args[0], kwargs.get('tensor') if 'tensor' in kwargs else (args[1] if len(args) > 1 else None), node)
            if s == 'LinearSolver':
                o = it.obj('LinearSolver')
                o.meta.update(mat=args[0])
                return o
            if s == 'TestFunction':
                return Sy('test')
        if isinstance(fn, Sy) and fn.tags.get('forcing'):
            t = self.value(it, args[0])
            self.time = t
            f = it.user.get('forced')
            if f is not None:
                f.meta['val'] = LC.atom('forcing', t.k())
            self.log.append(('forcing', t, it.loc(node)))
            return None
        if isinstance(fn, Ex) and fn.op == 'attr':
            b, m = fn.args[0], fn.args[1]
            if isinstance(b, Ob):
                if m == 'assign' and b.cls in ('Function', 'Cofunction', 'Constant', 'Component'):
                    self.assign(it, b, self.value(it, args[0]), node)
                    return b
                if m == 'copy' and b.cls in ('Function', 'Cofunction'):
                    deep = kwargs.get('deepcopy', args[0] if args else False)
                    if deep:
                        return self.function(it, b.cls, 'copy', self.value(it, b))
                    return b
                if m == 'interpolate' or m == 'project':
                    if b.cls in ('Function', 'Component'):
                        self.assign(it, b, self.value(it, args[0]), node)
                        return b
                if m == 'solve' and b.cls == 'NVS':
                    return self.solve(it, b, node)
                if m == 'solve' and b.cls == 'LinearSolver':
                    g = b.meta['mat'].meta['geom']
                    d = self.value(it, args[1])
                    self.assign(it, args[0], self.inv(g, d), node)
                    self.log.append(('linsolve', g, self.geom, it.loc(node)))
                    return None
                if b.cls == 'Term' and m == 'residual':
                    names = ['uv', 'eta', 'uv_old', 'eta_old', 'fields', 'fields_old', 'bnd_conditions']
                    a = dict(zip(names, args))
                    a.update(kwargs)
                    return Ex('term', b.name, a['uv'], a['eta'], a['uv_old'], a['eta_old'], a['fields'], a['fields_old'],
                              a.get('bnd_conditions'))
                if b.cls == 'Equation':
                    if m == 'mass_term':
                        return Ex('mass', args[0])
                    if m == 'residual':
                        names = ['label', 'solution', 'solution_old', 'fields', 'fields_old', 'bnd_conditions']
                        a = dict(zip(names, args))
                        a.update(kwargs)
                        terms = a.get('label')
                        if isinstance(terms, (list, tuple)):
                            terms = tuple(terms)
                        return Ex('resid', b.name, terms, freeze_keep(a['solution']), freeze_keep(a['solution_old']),
                                  a['fields'], a['fields_old'], a.get('bnd_conditions'))
                if b.cls in ('Function', 'Component') and m == 'function_space':
                    return Ex('fs', b.name)
        return NotImplemented

    def iop(self, it, op, target, value, node):
        if isinstance(target, Ob) and target.cls in ('Function', 'Cofunction', 'Constant', 'Component'):
            v = self.value(it, Ex(op, target, value))
            self.assign(it, target, v, node)
            return target
        if isinstance(target, Arr):
            r = it.binop(op, target, value, node)
            target[:] = r
            return target
        return NotImplemented

    # ---------------------------------------------------------- solvers
    def inv(self, g, d):
        """the field whose mass against the geometry g is d"""
        out = LC()
        rest = LC()
        for a, s in d.d.items():
            if a[0] == 'M' and a[1] == g:
                out = out + LC({a[2]: s})
            else:
                rest = rest + LC({a: s})
        if rest.d:
            out = out + LC.atom('inv', g, Frozen(rest))
        return out

    def mass(self, g, v):
        out = LC()
        for a, s in v.d.items():
            if a[0] == 'inv' and a[1] == g:
                out = out + a[2].lc.times(s)
            else:
                out = out + LC({('M', g, a): s})
        return out

    def assemble(self, it, form, tensor, node):
        v = self.value(it, form)
        if set(v.d) == {('trial',)}:
            if tensor is None:
                tensor = it.obj('Matrix')
            tensor.meta['geom'] = self.geom
            self.log.append(('matrix', self.geom, it.loc(node)))
            return tensor
        d = self.mass(self.geom, v)
        if tensor is None:
            return self.function(it, 'Cofunction', 'cof', d)
        self.assign(it, tensor, d, node)
        return tensor

    def solve(self, it, solver, node):
        p = solver.meta['p']
        u = p.meta['u']
        self.unknowns += 1
        X = ('X', self.unknowns)
        nk = len(self.ks)
        if p.cls == 'NVP':
            self.assign(it, u, LC({X: S.num(1)}), node)
            F = self.value(it, p.meta['F'])
            al = F.coef(X)
            rest = F.without(X)
            if al.zero():
                self.log.append(('singular', it.loc(node)))
                self.assign(it, u, LC.atom('steady', F.k()), node)
                it.user.setdefault('steady', []).append((F, list(self.ks[nk:]), X))
                return None
            sol = (-rest).times(al.inv())
        else:
            a = self.value(it, p.meta['a'])
            if set(a.d) != {('trial',)}:
                self.assign(it, u, LC.atom('badlhs', a.k()), node)
                return None
            L = self.value(it, p.meta['L'])
            sol = L.times(a.d[('trial',)].inv())
        # the unknown in the arguments of its own tendencies
        for kk in self.ks[nk:]:
            kk.u = subst(kk.u, X, sol)
            kk.unl = subst(kk.unl, X, sol)
            for dct in (kk.fields, kk.fields_old):
                for n in dct:
                    if isinstance(dct[n], LC):
                        dct[n] = subst(dct[n], X, sol)
        self.assign(it, u, sol, node)
        self.log.append(('solve', solver, it.loc(node)))
        return None


class Frozen:
    def __init__(self, lc):
        self.lc = lc
        self.kk = lc.k()

    def __hash__(self):
        return hash(self.kk)

    def __eq__(self, o):
        return isinstance(o, Frozen) and o.kk == self.kk

    def __repr__(self):
        return '{%r}' % self.lc


def subst(lc, X, sol):
    def f(a):
        if a == X:
            return sol
        if a[0] == 'c' and a[2] == X:
            return sol.mapatoms(lambda b: ('c', a[1], b))
        return a
    return lc.mapatoms(f)


def is_measure(q):
    c = call_parts(q)
    return bool(c and isinstance(c[0], Ext) and c[0].short in ('dx', 'ds', 'dS'))


def freeze_keep(x):
    return tuple(x) if isinstance(x, list) else x


def dict_of(d):
    if isinstance(d, dict):
        return d
    if isinstance(d, tuple) and d and d[0] == 'dict':
        return dict(d[1:])
    return {}
