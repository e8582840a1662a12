"""Green-formula calculus on canonical weak forms.

A weak form of a term with test function phi has a volume integrand
V = A . grad(phi) + B phi.  Its strong form is B - div A; the facet terms are
consistent when they cancel the element boundary flux phi A.n for states that
are continuous across the facet (or equal to the imposed boundary data).
"""
import itertools
from fractions import Fraction
from .poly import Poly, make_fn, norm_mono
from .forms import FormEval, Form, T, fatom, INTERIOR, EXTERIOR, subst_fields
from .repo import AnalysisError


class NotLinear(AnalysisError):
    pass


def split_test(p, test):
    """{(comp, derivs): coefficient} of an integrand linear in the test function."""
    out = {}
    for m, c in p.t.items():
        hit = None
        rest = []
        for a, e in m:
            if a[0] == 'f' and a[1] == test:
                if hit is not None or e != 1:
                    raise NotLinear('integrand is not linear in the test function: %r' % p)
                hit = (a[2], a[3], a[4])
            else:
                rest.append((a, e))
        if hit is None:
            raise NotLinear('integrand without the test function: %r' % Poly({m: c}))
        out.setdefault(hit, {})[tuple(rest)] = c
    r = {k: Poly(v) for k, v in out.items()}
    for k, v in r.items():
        for a in v.deep_atoms():
            if a[0] == 'f' and a[1] == test:
                raise NotLinear('test function inside a nonlinear expression')
    return r


def parts(p, test, dim):
    """A (dict (comp, i) -> Poly) and B (dict comp -> Poly)."""
    A, B = {}, {}
    for (comp, der, side), q in split_test(p, test).items():
        if len(der) == 0:
            B[comp] = B.get(comp, Poly()) + q
        elif len(der) == 1:
            A[(comp, der[0])] = A.get((comp, der[0]), Poly()) + q
        else:
            raise NotLinear('second derivative of the test function')
    return A, B


def strong(form, test, dim, fe):
    """{test component: strong form} from the dx part."""
    p = form.get(('dx', None))
    A, B = parts(p, test, dim)
    comps = set(B) | {c for c, _ in A}
    out = {}
    for c in comps:
        r = B.get(c, Poly())
        for i in range(dim):
            if (c, i) in A:
                r = r - fe.diff(A[(c, i)], i)
        if r.t:
            out[c] = r
    return out


def flux_n(form, test, dim, side=None):
    """phi A.n as an integrand (restricted to a side of an interior facet)."""
    p = form.get(('dx', None))
    A, B = parts(p, test, dim)
    r = Poly()
    for (c, i), q in A.items():
        r = r + q * Poly.atom(fatom(test, c, ())) * Poly.atom(fatom('n', (i,)))
    if side:
        r = restrict(r, side)
    return r


_fe = {}


def fe_of(dim, shapes=None, consts=()):
    k = (dim, tuple(sorted((shapes or {}).items())), tuple(sorted(consts)))
    if k not in _fe:
        _fe[k] = FormEval(dim, dict(shapes or {}), consts)
    return _fe[k]


def restrict(p, side):
    return FormEval(2).restrict(p, side)


def subst(p, rule, memo=None):
    def f(a):
        if a[0] == 'f':
            r = rule(a[1], a[2], a[3], a[4], a[5])
            if r is None:
                return None
            return r if isinstance(r, Poly) else Poly.const(r)
        return None
    return p.map_atoms(f, memo)


def old_to_new(names):
    def rule(n, comp, der, side, const):
        if n in names:
            return Poly.atom(fatom(names[n], comp, der, side, const))
        return None
    return rule


def chain(*rules):
    def rule(n, comp, der, side, const):
        for r in rules:
            v = r(n, comp, der, side, const)
            if v is not None:
                return v
        return None
    return rule


def unit_normal(p, dim, horizontal=False):
    """reduce with |n| = 1: n_{d-1}^2 -> 1 - sum(n_i^2)"""
    last = dim - 1
    for _ in range(8):
        again = False
        r = Poly()
        for m, c in p.t.items():
            d = dict(m)
            hit = None
            for a in d:
                if a[0] == 'f' and a[1] == 'n' and a[2] == (last,) and d[a] >= 2 and d[a].denominator == 1:
                    hit = a
                    break
            if hit is None:
                r = r + Poly({m: c})
                continue
            again = True
            e = d.pop(hit)
            rest = Poly({norm_mono(d): c})
            q = Poly.const(1)
            for i in range(last):
                q = q - Poly.atom(fatom('n', (i,), hit[3], hit[4], hit[5]), 2)
            rest = rest * q.pow(int(e) // 2)
            if int(e) % 2:
                rest = rest * Poly.atom(hit)
            r = r + rest
        p = r
        if not again:
            return p
    return p


def deep_unit_normal(p, dim):
    """also inside function arguments and powers"""
    from .poly import map_atom
    memo = {}

    def f(a):
        if a[0] == 'fn':
            args, ch = [], False
            for k in a[2]:
                if isinstance(k, tuple):
                    q = Poly.from_key(k)
                    r = deep_unit_normal(q, dim)
                    if r.key() != q.key():
                        ch = True
                    args.append(r)
                else:
                    args.append(k)
            return make_fn(a[1], args, a[3]) if ch else None
        if a[0] == 'P':
            q = Poly.from_key(a[1])
            r = deep_unit_normal(q, dim)
            return r if r.key() != q.key() else None
        return None
    return unit_normal(p.map_atoms(f, memo), dim)


# -------------------------------------------------- sign of an expression
POSITIVE = {'g_grav', 'rho0', 'rho_0', 'sipg', 'sipg_v', 'wd_alpha', 'CellVolume', 'FacetArea', 'CellSize', 'von_karman', 'bath', 'pi'}


def sign(p, positive=(), memo=None):
    """'+', '-', '0' or None: sign of a Poly when every monomial has it.

    Atoms with even exponent are >= 0; atoms named positive, |.|, indicator
    and even roots are >= 0."""
    pos = set(POSITIVE) | set(positive)
    if not p.t:
        return '0'
    s = None
    for m, c in p.t.items():
        sg = 1 if c > 0 else -1
        for a, e in m:
            if nonneg(a, e, pos):
                continue
            return None
        if s is None:
            s = sg
        elif s != sg:
            return None
    return '+' if s > 0 else '-'


def nonneg(a, e, pos):
    if e.denominator == 1 and e % 2 == 0:
        return True
    if e.denominator % 2 == 0:
        return True       # even root of something is a nonnegative number
    if a[0] == 'f':
        return a[1] in pos
    if a[0] == 'fn':
        if a[1] in ('abs', 'pos', 'exp', 'num', 'sqrt'):
            return True
        if a[1] == 'max':
            return any(sign(Poly.from_key(k), pos) in ('+', '0') for k in a[2] if isinstance(k, tuple))
        if a[1] == 'min':
            return all(sign(Poly.from_key(k), pos) in ('+', '0') for k in a[2] if isinstance(k, tuple))
        return False
    if a[0] == 'P':
        return sign(Poly.from_key(a[1]), pos) in ('+', '0')
    return False


class E:
    """Tensor expressions for the reference operators."""
    def __init__(self, fam, rec=None):
        self.fam = fam
        self.fe = fam.evaluator()
        self.rec = rec
        self.dim = fam.dim

    def s(self, name, shape=None):
        return X(self, self.fe.sym(name, shape))

    def const(self, name):
        return X(self, self.fe.sym(name, (), True))

    def num(self, x):
        return X(self, T.scalar(Poly.const(x)))

    def vec(self, *xs):
        return X(self, self.fe.stack([x.t if isinstance(x, X) else T.scalar(Poly.const(x)) for x in xs]))


class X:
    """T with operators."""
    def __init__(self, env, t):
        self.env = env
        self.t = t

    def _w(self, o):
        if isinstance(o, X):
            return o.t
        return T.scalar(o if isinstance(o, Poly) else Poly.const(o))

    def __add__(self, o):
        return X(self.env, self.env.fe.plus(self.t, self._w(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return X(self.env, self.env.fe.plus(self.t, self._w(o), -1))

    def __rsub__(self, o):
        return X(self.env, self.env.fe.plus(self._w(o), self.t, -1))

    def __neg__(self):
        return X(self.env, self.t.map(lambda p: -p))

    def __mul__(self, o):
        return X(self.env, self.env.fe.times(self.t, self._w(o)))

    def __rmul__(self, o):
        return X(self.env, self.env.fe.times(self._w(o), self.t))

    def __truediv__(self, o):
        q = self._w(o).s().pow(-1)
        return X(self.env, self.t.map(lambda p: p * q))

    def __rtruediv__(self, o):
        q = self.t.s().pow(-1)
        return X(self.env, self._w(o).map(lambda p: p * q))

    def __pow__(self, e):
        return X(self.env, T.scalar(self.t.s().pow(e)))

    def __getitem__(self, i):
        return X(self.env, T((), {(): self.t.at(*(i if isinstance(i, tuple) else (i,)))}))

    @property
    def p(self):
        return self.t.s()


def grad(x):
    return X(x.env, x.env.fe.grad(x.t))


def div(x):
    """contraction of the last index"""
    fe = x.env.fe
    c = {}
    for j, p in x.t.c.items():
        d = fe.diff(p, j[-1])
        c[j[:-1]] = c.get(j[:-1], Poly()) + d
    return X(x.env, T(x.t.shape[:-1], c))


def D(x, i):
    return X(x.env, x.t.map(lambda p: x.env.fe.diff(p, i)))


def dot(x, y):
    return X(x.env, x.env.fe.dot(x.t, y.t))


def tr(x):
    return X(x.env, x.env.fe.transpose(x.t))


def sqrt(x):
    return x ** Fraction(1, 2)


def fn(name, *xs):
    return X(xs[0].env, T.scalar(make_fn(name, [x.p for x in xs])))


def comps(x):
    """{comp: Poly} nonzero components of a T or X"""
    t = x.t if isinstance(x, X) else x
    return {i: p for i, p in t.c.items() if p.t}
