"""Weak forms in component-wise canonical form.

`FormEval` maps the term graph produced by the abstract interpreter for a UFL
expression to `Form`: a map from measure to a canonical scalar integrand
(`Poly`).  All tensor algebra, facet restriction, jump/avg operators and
differentiation is expanded to components here, so two spellings of the same
integrand have the same canonical form.
"""
import itertools
from fractions import Fraction
from .absint import Ex, Sy, Ext, Ob, Fv, Cv, callee_name, show, key, is_num
from .poly import Poly, make_fn, show_poly
from .repo import AnalysisError


class FormError(AnalysisError):
    pass


class T:
    """Tensor of Polys."""
    __slots__ = ('shape', 'c')

    def __init__(self, shape, c):
        self.shape = tuple(shape)
        self.c = c            # dict index tuple -> Poly (missing = 0)

    @staticmethod
    def scalar(p):
        if not isinstance(p, Poly):
            p = Poly.const(p)
        return T((), {(): p})

    def at(self, *i):
        return self.c.get(tuple(i), Poly())

    def s(self):
        if self.shape:
            raise FormError('scalar expected, got shape %s' % (self.shape,))
        return self.at()

    def map(self, f):
        return T(self.shape, {i: f(p) for i, p in self.c.items()})

    def idx(self):
        return itertools.product(*[range(n) for n in self.shape])


class M:
    """Sum of integration measures."""
    __slots__ = ('keys',)

    def __init__(self, keys):
        self.keys = tuple(keys)


class Form:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = m or {}

    def add(self, k, p):
        q = self.m.get(k, Poly()) + p
        if q.t:
            self.m[k] = q
        else:
            self.m.pop(k, None)

    def __add__(self, o):
        r = Form(dict(self.m))
        for k, p in o.m.items():
            r.add(k, p)
        return r

    def scale(self, p):
        return Form({k: q * p for k, q in self.m.items()})

    def map(self, f):
        r = Form()
        for k, p in self.m.items():
            r.add(k, f(p))
        return r

    def get(self, k):
        return self.m.get(k, Poly())

    def zero(self):
        return all(p.zero() for p in self.m.values())

    def nonzero_parts(self):
        return [(k, p) for k, p in self.m.items() if not p.zero()]

    def __repr__(self):
        return '; '.join('%s: %s' % (mkey_str(k), show_poly(p)) for k, p in sorted(self.m.items(), key=repr)) or '0'


def mkey_str(k):
    return k[0] + ('(%s)' % k[1] if k[1] is not None else '')


MEASURES = {'dx', 'ds', 'dS', 'dS_h', 'dS_v', 'ds_v', 'ds_t', 'ds_b', 'ds_tb', 'ds_surf', 'ds_bottom'}
# firedrake aliases used in thetis
CANON_MEASURE = {'ds_t': 'ds_surf', 'ds_b': 'ds_bottom'}
INTERIOR = {'dS', 'dS_h', 'dS_v'}
EXTERIOR = {'ds', 'ds_v', 'ds_surf', 'ds_bottom', 'ds_tb'}

GEOM_SCALARS = {'CellSize', 'CellVolume', 'FacetArea', 'CellDiameter', 'Circumradius', 'MaxCellEdgeLength',
                'MinCellEdgeLength'}


def fatom(name, comp=(), der=(), side=None, const=False):
    return ('f', name, tuple(comp), tuple(sorted(der)), side, const)


class FormEval:
    def __init__(self, dim, shapes=None, consts=(), resolver=None, scalar_default=True):
        """shapes: name -> shape tuple for symbols; consts: names that are
        spatially constant."""
        self.dim = dim
        self.shapes = shapes or {}
        self.consts = set(consts)
        self.resolver = resolver
        self.memo = {}
        self.unknown = set()
        self.alias = {}

    # --------------------------------------------------------- atoms
    def sym(self, name, shape=None, const=None):
        name = self.alias.get(name, name)
        if shape is None:
            shape = self.shapes.get(name, ())
        if const is None:
            const = name in self.consts
        return T(shape, {i: Poly.atom(fatom(name, i, (), None, const))
                         for i in itertools.product(*[range(n) for n in shape])})

    # ---------------------------------------------------------- main
    def ev(self, v):
        if isinstance(v, bool):
            return T.scalar(int(v))
        if is_num(v):
            return T.scalar(Poly.const(v))
        if isinstance(v, (list, tuple)):
            return self.stack([self.ev(x) for x in v])
        if v is None:
            raise FormError('None used in a form')
        k = key(v)
        if k in self.memo:
            return self.memo[k]
        r = self.ev1(v)
        self.memo[k] = r
        return r

    def stack(self, xs):
        sh = xs[0].shape
        for x in xs:
            if x.shape:
                sh = x.shape
        c = {}
        for i, x in enumerate(xs):
            if x.shape != sh and x.shape == () and x.at().is_zero_raw():
                continue
            for j, p in x.c.items():
                c[(i,) + j] = p
        return T((len(xs),) + sh, c)

    def ev1(self, v):
        if self.resolver is not None:
            r = self.resolver(self, v)
            if r is not None:
                return r
        if isinstance(v, Sy):
            return self.sym(v.name)
        if isinstance(v, Ext):
            if v.short in MEASURES:
                return M([(CANON_MEASURE.get(v.short, v.short), None)])
            if v.short == 'pi':
                return T.scalar(Poly.atom(fatom('pi', const=True)))
            return self.sym(v.short)
        if isinstance(v, (Ob, Fv, Cv)):
            return self.auto(v)
        if isinstance(v, Ex):
            m = getattr(self, 'op_' + OPN.get(v.op, v.op), None)
            if m is not None:
                return m(v)
            return self.auto(v)
        if isinstance(v, str):
            raise FormError('string %r used in a form' % v)
        raise FormError('unsupported value %r in a form' % (v,))

    def auto(self, v):
        name = show(v)
        base = name
        self.unknown.add(name)
        if name not in self.shapes:
            # vector-ness by trailing attribute name
            if isinstance(v, Ex) and v.op == 'attr' and v.args[1] in self.shapes:
                return self.sym(base, self.shapes[v.args[1]], v.args[1] in self.consts)
            if isinstance(v, Ex) and v.op == 'attr' and v.args[1] in self.consts:
                return self.sym(base, (), True)
        return self.sym(base)

    # ------------------------------------------------------ arithmetic
    def op_add(self, v):
        a, b = self.ev(v.args[0]), self.ev(v.args[1])
        return self.plus(a, b)

    def plus(self, a, b, sgn=1):
        if isinstance(a, M) and isinstance(b, M):
            return M(a.keys + b.keys)
        if isinstance(a, Form) or isinstance(b, Form):
            if isinstance(a, T):
                if a.shape == () and a.at().is_zero_raw():
                    a = Form()
                else:
                    raise FormError('form + expression')
            if isinstance(b, T):
                if b.shape == () and b.at().is_zero_raw():
                    b = Form()
                else:
                    raise FormError('form + expression')
            return a + (b if sgn == 1 else b.scale(Poly.const(-1)))
        if a.shape != b.shape:
            a, b = self.coerce(a, b)
        c = dict(a.c)
        for i, p in b.c.items():
            c[i] = c.get(i, Poly()) + (p if sgn == 1 else -p)
        return T(a.shape, c)

    def coerce(self, a, b):
        if a.shape == () and a.at().is_zero_raw():
            return T(b.shape, {}), b
        if b.shape == () and b.at().is_zero_raw():
            return a, T(a.shape, {})
        if a.shape == () and b.shape:
            r = self.promote(a, b.shape)
            if r is not None:
                return r, b
        if b.shape == () and a.shape:
            r = self.promote(b, a.shape)
            if r is not None:
                return a, r
        raise FormError('shape mismatch %s %s: %r %r' % (a.shape, b.shape, a.c, b.c))

    def promote(self, a, shape):
        """An unknown scalar symbol used where a vector is needed is a vector."""
        p = a.at()
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'f' and m[0][0][2] == ():
                at = m[0][0]
                return T(shape, {i: Poly({((fatom(at[1], i, at[3], at[4], at[5]), Fraction(1)),): c})
                                 for i in itertools.product(*[range(n) for n in shape])})
        return None

    def op_sub(self, v):
        return self.plus(self.ev(v.args[0]), self.ev(v.args[1]), -1)

    def op_neg(self, v):
        a = self.ev(v.args[0])
        if isinstance(a, Form):
            return a.scale(Poly.const(-1))
        return a.map(lambda p: -p)

    def op_mul(self, v):
        return self.times(self.ev(v.args[0]), self.ev(v.args[1]))

    def times(self, a, b):
        if isinstance(a, M):
            a, b = b, a
        if isinstance(b, M):
            if isinstance(a, (Form, M)):
                raise FormError('form * measure')
            f = Form()
            for k in b.keys:
                f.add(k, a.s())
            return f
        if isinstance(a, Form) or isinstance(b, Form):
            if isinstance(a, Form) and isinstance(b, Form):
                raise FormError('form * form')
            if isinstance(a, T):
                a, b = b, a
            return a.scale(b.s())
        if a.shape == ():
            p = a.at()
            return b.map(lambda q: p * q)
        if b.shape == ():
            p = b.at()
            return a.map(lambda q: p * q)
        # UFL: matrix * vector is a dot product
        return self.dot(a, b)

    def op_div(self, v):
        a, b = self.ev(v.args[0]), self.ev(v.args[1])
        if isinstance(b, (Form, M)):
            raise FormError('division by a form')
        q = b.s().pow(-1)
        if isinstance(a, Form):
            return a.scale(q)
        if b.s().is_zero_raw():
            return a.map(lambda p: q)
        return a.map(lambda p: p * q)

    def op_pow(self, v):
        a, b = self.ev(v.args[0]), self.ev(v.args[1])
        e = b.s()
        if e.is_const():
            return T.scalar(a.s().pow(e.const_value()))
        return T.scalar(make_fn('pow', [a.s(), e]))

    # ---------------------------------------------------- comparisons
    def indicator(self, c):
        """Poly that is 1 where the condition holds and 0 elsewhere."""
        if isinstance(c, bool):
            return Poly.const(int(c))
        if isinstance(c, Ex):
            if c.op == 'not':
                return 1 - self.indicator(c.args[0])
            if c.op == '<':
                return make_fn('pos', [self.ev(c.args[1]).s() - self.ev(c.args[0]).s()])
            if c.op == 'call':
                n = callee_name(c.args[0])
                a = c.args[1]
                if n in ('gt', 'ge'):
                    return make_fn('pos', [self.ev(a[0]).s() - self.ev(a[1]).s()])
                if n in ('lt', 'le'):
                    return make_fn('pos', [self.ev(a[1]).s() - self.ev(a[0]).s()])
                if n in ('And',):
                    r = Poly.const(1)
                    for x in a:
                        r = r * self.indicator(x)
                    return r
                if n in ('Or',):
                    r = Poly.const(1)
                    for x in a:
                        r = r * (1 - self.indicator(x))
                    return 1 - r
                if n == 'Not':
                    return 1 - self.indicator(a[0])
        return Poly.atom(('fn', 'pos', (self.ev(c).s().key(),), None))

    def op_lt(self, v):
        return T.scalar(self.indicator(v))

    op_not = op_lt

    # -------------------------------------------------------- access
    def op_attr(self, v):
        base, name = v.args
        if name in MEASURES:
            return M([(CANON_MEASURE.get(name, name), show(base))])
        if name == 'T':
            return self.transpose(self.ev(base))
        return self.auto(v)

    def op_idx(self, v):
        base, i = v.args
        try:
            b = self.ev(base)
        except FormError:
            return self.auto(v)
        if isinstance(b, T):
            idx = i if isinstance(i, tuple) else (i,)
            if all(isinstance(x, int) for x in idx):
                if b.shape:
                    if len(idx) > len(b.shape):
                        raise FormError('bad index %s' % show(v))
                    c = {}
                    n = len(idx)
                    for j, p in b.c.items():
                        if j[:n] == idx:
                            c[j[n:]] = p
                    return T(b.shape[n:], c)
                r = self.promote(b, (max(self.dim, idx[0] + 1),))
                if r is not None:
                    return T((), {(): r.at(idx[0])})
        return self.auto(v)

    # ---------------------------------------------------------- calls
    def op_call(self, v):
        fn, args, kw = v.args[0], v.args[1], dict(v.args[2])
        n = callee_name(fn)
        # restriction  c('+')
        if len(args) == 1 and args[0] in ('+', '-') and isinstance(args[0], str):
            x = self.ev(fn)
            return x.map(lambda p: self.restrict(p, args[0]))
        # derivative   c.dx(i)
        if isinstance(fn, Ex) and fn.op == 'attr' and fn.args[1] == 'dx' and args \
                and all(isinstance(a, int) for a in args):
            x = self.ev(fn.args[0])
            for i in args:
                x = x.map(lambda p, i=i: self.diff(p, i))
            return x
        if isinstance(fn, Ex) and fn.op == 'attr':
            h = getattr(self, 'fn_' + str(n), None) if n in METHODS_OK else None
            if h is not None:
                return h(args, kw, v)
        if isinstance(fn, Ext):
            if n in MEASURES:
                tag = None
                if args:
                    tag = show(args[0])
                elif 'subdomain_id' in kw:
                    tag = show(kw['subdomain_id'])
                return M([(CANON_MEASURE.get(n, n), strip_int(tag))])
            h = getattr(self, 'fn_' + str(n), None)
            if h is not None:
                return h(args, kw, v)
            if n in GEOM_SCALARS:
                return self.sym(n, ())
        else:
            # a measure value that is called again: self.ds(marker)
            try:
                b = self.ev(fn)
            except FormError:
                b = None
            if isinstance(b, M):
                tag = show(args[0]) if args else None
                if tag is None:
                    return b
                return M([(k[0], strip_int(tag)) for k in b.keys])
        return self.auto(v)

    def fn_Constant(self, a, kw, v):
        x = self.ev(a[0])
        return x

    fn_float = fn_int = fn_Constant

    def fn_Function(self, a, kw, v):
        return self.auto(v)

    def fn_FacetNormal(self, a, kw, v):
        return self.sym('n', (self.dim,))

    def fn_CellNormal(self, a, kw, v):
        return self.sym('khat', (3,))

    def fn_SpatialCoordinate(self, a, kw, v):
        return self.sym('x', (self.dim,))

    def fn_Identity(self, a, kw, v):
        n = a[0]
        return T((n, n), {(i, i): Poly.const(1) for i in range(n)})

    def fn_zero(self, a, kw, v):
        return T.scalar(0)

    def fn_as_vector(self, a, kw, v):
        return self.ev(a[0])

    fn_as_matrix = fn_as_tensor = fn_as_vector

    def fn_split(self, a, kw, v):
        return self.auto(v)

    def fn_abs(self, a, kw, v):
        return self.ev(a[0]).map(lambda p: make_fn('abs', [p]))

    def _f1(name):
        def f(self, a, kw, v):
            return T.scalar(make_fn(name, [self.ev(a[0]).s()]))
        return f

    fn_sign = _f1('sign')
    fn_exp = _f1('exp')
    fn_ln = fn_log = _f1('ln')
    fn_tanh = _f1('tanh')
    fn_cosh = _f1('cosh')
    fn_sinh = _f1('sinh')
    fn_sin = _f1('sin')
    fn_cos = _f1('cos')
    fn_tan = _f1('tan')
    fn_atan = _f1('atan')
    fn_asin = _f1('asin')
    fn_acos = _f1('acos')

    def fn_sqrt(self, a, kw, v):
        return T.scalar(self.ev(a[0]).s().pow(Fraction(1, 2)))

    def fn_pow(self, a, kw, v):
        x, e = self.ev(a[0]).s(), self.ev(a[1]).s()
        if e.is_const():
            return T.scalar(x.pow(e.const_value()))
        return T.scalar(make_fn('pow', [x, e]))

    fn_power = fn_pow

    def fn_atan2(self, a, kw, v):
        return T.scalar(make_fn('atan2', [self.ev(a[0]).s(), self.ev(a[1]).s()]))

    def fn_max_value(self, a, kw, v):
        return T.scalar(make_fn('max', [self.ev(a[0]).s(), self.ev(a[1]).s()]))

    def fn_min_value(self, a, kw, v):
        return T.scalar(make_fn('min', [self.ev(a[0]).s(), self.ev(a[1]).s()]))

    def fn_conditional(self, a, kw, v):
        c, x, y = a
        X, Y = self.ev(x), self.ev(y)
        if isinstance(c, Ex):
            neg = False
            cc = c
            if cc.op == 'not':
                neg, cc = True, cc.args[0]
            lo = hi = None
            if isinstance(cc, Ex) and cc.op == '<':
                lo, hi = cc.args            # lo < hi
            elif isinstance(cc, Ex) and cc.op == 'call' and callee_name(cc.args[0]) in ('lt', 'le'):
                lo, hi = cc.args[1]
            elif isinstance(cc, Ex) and cc.op == 'call' and callee_name(cc.args[0]) in ('gt', 'ge'):
                hi, lo = cc.args[1]
            if lo is not None and X.shape == () and Y.shape == ():
                if neg:
                    lo, hi = hi, lo
                L, H = self.ev(lo).s(), self.ev(hi).s()
                if X.s().equals(H) and Y.s().equals(L):
                    return T.scalar(make_fn('max', [L, H]))
                if X.s().equals(L) and Y.s().equals(H):
                    return T.scalar(make_fn('min', [L, H]))
        i = self.indicator(c)
        if X.shape != Y.shape:
            X, Y = self.coerce(X, Y)
        r = {}
        for j in set(X.c) | set(Y.c):
            r[j] = i * X.c.get(j, Poly()) + (1 - i) * Y.c.get(j, Poly())
        return T(X.shape, r)

    def _cmp(self, a, kw, v):
        return T.scalar(self.indicator(v))

    fn_gt = fn_ge = fn_lt = fn_le = fn_And = fn_Or = fn_Not = _cmp

    # ------------------------------------------------ tensor algebra
    def dot(self, a, b):
        if a.shape == () and b.shape == ():
            return T.scalar(a.at() * b.at())
        if a.shape == () or b.shape == ():
            a, b = self.match(a, b)
            if a.shape == () or b.shape == ():
                return self.times(a, b)
        if a.shape[-1] != b.shape[0]:
            raise FormError('dot %s %s' % (a.shape, b.shape))
        c = {}
        for i, p in a.c.items():
            for j, q in b.c.items():
                if i[-1] == j[0]:
                    k = i[:-1] + j[1:]
                    c[k] = c.get(k, Poly()) + p * q
        return T(a.shape[:-1] + b.shape[1:], c)

    def match(self, a, b):
        if a.shape == () and b.shape:
            r = self.promote(a, b.shape)
            if r is not None and (a.at().t and not all(x[0][0] == 'f' and x[0][1] in self.shapes for x in a.at().t)):
                return r, b
        return a, b

    def fn_dot(self, a, kw, v):
        return self.dot(self.ev(a[0]), self.ev(a[1]))

    def fn_inner(self, a, kw, v):
        x, y = self.ev(a[0]), self.ev(a[1])
        if x.shape != y.shape:
            x, y = self.coerce(x, y)
        r = Poly()
        for i, p in x.c.items():
            if i in y.c:
                r = r + p * y.c[i]
        return T.scalar(r)

    def outer(self, x, y):
        c = {}
        for i, p in x.c.items():
            for j, q in y.c.items():
                c[i + j] = p * q
        return T(x.shape + y.shape, c)

    def fn_outer(self, a, kw, v):
        return self.outer(self.ev(a[0]), self.ev(a[1]))

    def fn_cross(self, a, kw, v):
        x, y = self.ev(a[0]), self.ev(a[1])
        if x.shape != (3,):
            x = self.promote(x, (3,)) or x
        if y.shape != (3,):
            y = self.promote(y, (3,)) or T((3,), dict(y.c))
        g = lambda t, i: t.at(i)
        return T((3,), {(0,): g(x, 1) * g(y, 2) - g(x, 2) * g(y, 1),
                        (1,): g(x, 2) * g(y, 0) - g(x, 0) * g(y, 2),
                        (2,): g(x, 0) * g(y, 1) - g(x, 1) * g(y, 0)})

    def fn_perp(self, a, kw, v):
        x = self.ev(a[0])
        return T((2,), {(0,): -x.at(1), (1,): x.at(0)})

    def transpose(self, x):
        return T(x.shape[::-1], {i[::-1]: p for i, p in x.c.items()})

    def fn_transpose(self, a, kw, v):
        return self.transpose(self.ev(a[0]))

    def fn_sym(self, a, kw, v):
        x = self.ev(a[0])
        y = self.transpose(x)
        return self.plus(x, y).map(lambda p: p / 2)

    def fn_tr(self, a, kw, v):
        x = self.ev(a[0])
        r = Poly()
        for i in range(x.shape[0]):
            r = r + x.at(i, i)
        return T.scalar(r)

    def fn_elem_mult(self, a, kw, v):
        x, y = self.ev(a[0]), self.ev(a[1])
        return T(x.shape, {i: x.c[i] * y.c[i] for i in x.c if i in y.c})

    # --------------------------------------------------- derivatives
    def diff(self, p, i):
        r = Poly()
        for m, c in p.t.items():
            for k, (a, e) in enumerate(m):
                d = self.diff_atom(a, i)
                if d.is_zero_raw():
                    continue
                rest = Poly({tuple(x for j, x in enumerate(m) if j != k): c})
                r = r + rest * Poly.const(e) * Poly.atom(a).pow(e - 1) * d
        return r

    def diff_atom(self, a, i):
        if a[0] == 'f':
            _, name, comp, der, side, const = a
            if const or name in GEOM_SCALARS or name == 'n':
                return Poly()
            if name == 'x' and not der:
                return Poly.const(1 if comp == (i,) else 0)
            return Poly.atom(fatom(name, comp, der + (i,), side, const))
        if a[0] == 'P':
            return self.diff(Poly.from_key(a[1]), i)
        if a[0] == 'fn':
            args = [Poly.from_key(k) for k in a[2] if isinstance(k, tuple)]
            ds = [self.diff(q, i) for q in args]
            if all(d.is_zero_raw() for d in ds):
                return Poly()
            n = a[1]
            if n == 'abs':
                return make_fn('sign', [args[0]]) * ds[0]
            if n == 'pos':
                return Poly()
            if n == 'exp':
                return Poly.atom(a) * ds[0]
            if n == 'ln':
                return ds[0] / args[0]
            if n == 'sin':
                return make_fn('cos', args) * ds[0]
            if n == 'cos':
                return -(make_fn('sin', args) * ds[0])
            if n == 'tanh':
                return (1 - Poly.atom(a) * Poly.atom(a)) * ds[0]
            r = Poly()
            for j, d in enumerate(ds):
                if not d.is_zero_raw():
                    r = r + d * Poly.atom(('fn', 'd%d_%s' % (j, n), a[2], a[3]))
            return r
        raise FormError('derivative of %r' % (a,))

    def grad(self, x):
        c = {}
        for j, p in x.c.items():
            for i in range(self.dim):
                d = self.diff(p, i)
                if d.t:
                    c[j + (i,)] = d
        return T(x.shape + (self.dim,), c)

    def fn_grad(self, a, kw, v):
        return self.grad(self.ev(a[0]))

    def fn_nabla_grad(self, a, kw, v):
        g = self.grad(self.ev(a[0]))
        if len(g.shape) > 1:
            return T((g.shape[-1],) + g.shape[:-1], {(i[-1],) + i[:-1]: p for i, p in g.c.items()})
        return g

    def fn_div(self, a, kw, v):
        x = self.ev(a[0])
        if x.shape == ():
            x = self.promote(x, (self.dim,)) or x
        c = {}
        for j, p in x.c.items():
            d = self.diff(p, j[-1])
            c[j[:-1]] = c.get(j[:-1], Poly()) + d
        return T(x.shape[:-1], c)

    def fn_nabla_div(self, a, kw, v):
        x = self.ev(a[0])
        if x.shape == ():
            x = self.promote(x, (self.dim,)) or x
        c = {}
        for j, p in x.c.items():
            d = self.diff(p, j[0])
            c[j[1:]] = c.get(j[1:], Poly()) + d
        return T(x.shape[1:], c)

    def fn_Dx(self, a, kw, v):
        x = self.ev(a[0])
        return x.map(lambda p: self.diff(p, a[1]))

    # ------------------------------------------------- facet operators
    def restrict(self, p, side):
        def f(a):
            if a[0] == 'f':
                _, name, comp, der, s, const = a
                if const:
                    return None
                if s is not None:
                    return None
                if name == 'FacetArea':
                    return Poly.atom(fatom(name, comp, der, '+', const))
                if name == 'n':
                    q = Poly.atom(fatom(name, comp, der, '+', const))
                    return q if side == '+' else -q
                return Poly.atom(fatom(name, comp, der, side, const))
            return None
        return p.map_atoms(f)

    def R(self, x, side):
        return x.map(lambda p: self.restrict(p, side))

    def fn_avg(self, a, kw, v):
        x = self.ev(a[0])
        return self.plus(self.R(x, '+'), self.R(x, '-')).map(lambda p: p / 2)

    def fn_jump(self, a, kw, v):
        x = self.ev(a[0])
        if len(a) == 1 and 'n' not in kw:
            return self.plus(self.R(x, '+'), self.R(x, '-'), -1)
        n = self.ev(a[1] if len(a) > 1 else kw['n'])
        xp, xm, np_, nm = self.R(x, '+'), self.R(x, '-'), self.R(n, '+'), self.R(n, '-')
        if x.shape == ():
            return self.plus(self.times(xp, np_), self.times(xm, nm))
        return self.plus(self.dot(xp, np_), self.dot(xm, nm))

    def fn_derivative(self, a, kw, v):
        return self.auto(v)


METHODS_OK = set()
OPN = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '**': 'pow', '<': 'lt', 'attr': 'attr', 'idx': 'idx',
       'call': 'call', 'neg': 'neg', 'not': 'not', '@': 'at'}


def strip_int(s):
    if s is None:
        return None
    while s.startswith('int(') and s.endswith(')'):
        s = s[4:-1]
    return s


# ----------------------------------------------------------------- analyses
def subst_fields(form, rule):
    """rule(name, comp, der, side, const) -> Poly | number | None"""
    def f(a):
        if a[0] == 'f':
            r = rule(a[1], a[2], a[3], a[4], a[5])
            if r is None:
                return None
            return r if isinstance(r, Poly) else Poly.const(r)
        return None
    memo = {}
    return form.map(lambda p: p.map_atoms(f, memo))


def const_test(name, value=None):
    """test function := constant (component-wise symbol)"""
    def rule(n, comp, der, side, const):
        if n == name:
            if der:
                return 0
            return Poly.atom(fatom('C_' + name, comp, (), None, True)) if comp else 1
        return None
    return rule


def continuous(names):
    """identify both facet restrictions of a field (value and gradient)"""
    def rule(n, comp, der, side, const):
        if n in names and side == '-':
            return Poly.atom(fatom(n, comp, der, '+', const))
        return None
    return rule


def uniform(names):
    """field := spatially constant"""
    def rule(n, comp, der, side, const):
        if n in names:
            if der:
                return 0
            return Poly.atom(fatom(n, comp, (), None, True))
        return None
    return rule
