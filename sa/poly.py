"""Canonical form of scalar integrands.

A `Poly` is a sum of rational-coefficient monomials over atoms with rational
exponents.  Atoms are tuples:

  ('f', name, comp, derivs, side, const)   field / coefficient component
  ('fn', name, args, side)                 opaque function of canonical Polys
  ('P', polykey)                           multi-term polynomial (only with
                                           negative or fractional exponent)

All identities used by the checks are decided on this canonical form.
"""
from fractions import Fraction
import math

_skey = {}


def akey(a):
    r = _skey.get(a)
    if r is None:
        r = _skey[a] = crepr(a)
    return r


def crepr(a):
    """repr in which equal numbers look equal"""
    if type(a) is tuple:
        return '(' + ','.join([crepr(x) for x in a]) + ')'
    if type(a) is str:
        return repr(a)
    return str(a)


def red(x):
    """integral Fractions become ints (hashing and arithmetic are cheap)"""
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


def tofrac(x):
    if type(x) is int:
        return x
    if isinstance(x, Fraction):
        return red(x)
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise ValueError('not finite')
        f = Fraction(x)
        if f.denominator == 1:
            return f.numerator
        if f.denominator > 10**6:
            g = f.limit_denominator(100000)
            if g != 0 and abs(float(g) - x) <= 4e-16 * abs(x):
                return g
            return Fraction(repr(x))
        return f
    raise TypeError(x)


class Poly:
    __slots__ = ('t', '_k')

    def __init__(self, terms=None):
        self.t = terms or {}
        self._k = None

    # ------------------------------------------------------- constructors
    @staticmethod
    def const(c):
        c = tofrac(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, red(Fraction(e))),): 1})

    # ------------------------------------------------------------ queries
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=lambda kv: tuple((akey(a), e) for a, e in kv[0])))
        return self._k

    @staticmethod
    def from_key(k):
        p = Poly(dict(k))
        p._k = k
        return p

    def is_zero_raw(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0) if self.is_const() else None

    def atoms(self):
        out = set()
        for m in self.t:
            for a, e in m:
                out.add(a)
        return out

    def deep_atoms(self):
        out = set()
        todo = list(self.atoms())
        while todo:
            a = todo.pop()
            if a in out:
                continue
            out.add(a)
            for p in subpolys(a):
                todo.extend(p.atoms())
        return out

    # --------------------------------------------------------- arithmetic
    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v if type(v) is int else red(v)
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-(o if isinstance(o, Poly) else Poly.const(o)))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        t = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, p = mono_mul(m1, m2)
                c = c1 * c2
                if p is not None:
                    extra.append((m, c, p))
                    continue
                v = t.get(m, 0) + c
                if v:
                    t[m] = v if type(v) is int else red(v)
                else:
                    t.pop(m, None)
        r = Poly(t)
        for m, c, p in extra:
            r = r + Poly({m: c}) * p
        return r

    __rmul__ = __mul__

    def content(self):
        """(coefficient, monomial) common factor of all terms."""
        ms = list(self.t)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(common):
                if a in d:
                    common[a] = min(common[a], d[a])
                else:
                    # a missing atom has exponent 0
                    if common[a] > 0:
                        del common[a]
                    # negative exponents stay (min with 0 is itself)
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
        k = self.key()
        lead = k[0][1]
        mono = tuple(sorted(((a, e) for a, e in common.items() if e), key=lambda x: akey(x[0])))
        return lead, mono

    def pow(self, e):
        e = tofrac(e)
        if e == 0:
            return Poly.const(1)
        if e == 1:
            return self
        if self.is_zero_raw():
            if e > 0:
                return Poly()
            return Poly.atom(('fn', 'divzero', (), None))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if e.denominator == 1:
                return expand({a: x * e for a, x in m}) * red(Fraction(c) ** int(e))
            # fractional power of a monomial: numeric part kept as number atom
            r = expand({a: x * e for a, x in m if not iseven_unsafe(x, e)})
            for a, x in m:
                if iseven_unsafe(x, e):
                    r = r * Poly.atom(('fn', 'abs', (Poly.atom(a).key(),), None), x * e)
            if c != 1:
                r = r * num_pow(c, e)
            return r
        if e.denominator == 1 and e > 0:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        lead, mono = self.content()
        prim = Poly({mono_div(m, mono): red(Fraction(c) / lead) for m, c in self.t.items()})
        if any(a[0] == 'P' and x >= 1 for m in prim.t for a, x in m):
            # clearing a common denominator left a power of a sum: multiply out
            q = Poly()
            for m, c in prim.t.items():
                q = q + expand(dict(m)) * c
            r = q.pow(e)
            if mono:
                r = r * Poly({mono: 1}).pow(e)
            if lead != 1:
                if lead < 0 and e.denominator != 1:
                    return (-q).pow(e) * (Poly({mono: 1}).pow(e) if mono else 1) * num_pow(-lead, e)
                r = r * Poly.const(lead).pow(e)
            return r
        if e.denominator != 1 and lead < 0:
            prim = -prim
            lead = -lead
        fl = math.floor(e)
        fr = e - fl
        r = Poly.const(1)
        base = ('P', prim.key())
        if e.denominator == 1:
            r = Poly({((base, e),): 1})
        else:
            r = Poly({((base, fr),): 1})
            if fl > 0:
                r = r * prim.pow(fl)
            elif fl < 0:
                r = r * Poly({((base, fl),): 1})
        if mono:
            r = r * Poly({mono: 1}).pow(e)
        if e.denominator == 1:
            r = r * Poly.const(Fraction(lead) ** int(e))
        elif lead != 1:
            r = r * num_pow(lead, e)
        return r

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if o.is_zero_raw():
            return o.pow(-1)
        if o.is_const():
            c = o.const_value()
            return Poly({m: red(Fraction(v) / c) for m, v in self.t.items()})
        return self * o.pow(-1)

    # ------------------------------------------------------- substitution
    def map_atoms(self, f, memo=None):
        """Replace atoms: f(atom) -> Poly or None (keep, but descend)."""
        if memo is None:
            memo = {}
        r = Poly()
        for m, c in self.t.items():
            plain = {}
            qs = []
            for a, e in m:
                q = map_atom(a, f, memo)
                if q is None:
                    plain[a] = plain.get(a, 0) + e
                else:
                    qs.append(q.pow(e))
            # the kept part first: inverse powers of sums cancel before
            # anything is multiplied out
            p = Poly({norm_mono(plain): c})
            for q in qs:
                p = p * q
            r = r + p
        return r

    def zero(self):
        """Exact test for the zero function (clears denominators)."""
        p = self
        if not p.t:
            return True
        if any(a[0] == 'P' and e < 0 for m in p.t for a, e in m) and sampled_nonzero(p):
            return False
        for _ in range(12):
            if not p.t:
                return True
            neg = {}
            for m in p.t:
                for a, e in m:
                    if a[0] == 'P' and e < 0:
                        # integer part of the exponent
                        neg[a] = min(neg.get(a, 0), e)
            if not neg:
                break
            for a, e in neg.items():
                k = math.ceil(-e)
                base = Poly.from_key(a[1])
                q = Poly()
                for m, c in p.t.items():
                    d = dict(m)
                    x = red(d.pop(a, 0) + k)
                    rest = Poly({norm_mono(d): c})
                    fl = math.floor(x)
                    if x - fl:
                        rest = rest * Poly({((a, x - fl),): 1})
                    for _i in range(fl):
                        rest = rest * base
                    q = q + rest
                p = q
        if not p.t:
            return True
        # nested radicals have no canonical form here: identity test of the
        # (already symbolic) expression at algebraically unrelated points
        if any(a[0] == 'P' and any(e2.denominator != 1 for q in subpolys(a) for m in q.t for b, e2 in m if b[0] == 'P')
               for a in self.deep_atoms()):
            return sampled_zero(self)
        return False

    def equals(self, o):
        return (self - o).zero()

    def __repr__(self):
        return show_poly(self)


def iseven_unsafe(x, e):
    """sqrt(a**2) is abs(a), not a."""
    return x.denominator == 1 and x % 2 == 0 and (x * e).denominator == 1 and (x * e) % 2 == 1


def num_pow(c, e):
    """c**e for a rational c: rational part times prime roots in (0, 1)"""
    c = Fraction(c)
    e = Fraction(e)
    if c <= 0 or e.denominator > 64:
        return Poly.atom(('fn', 'num', (Poly.const(c).key(),), None), e)
    rat = Fraction(1)
    roots = {}
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while n > 1:
            if d * d > n or d > 100000:
                d = n
            k = 0
            while n % d == 0:
                n //= d
                k += 1
            if k:
                x = e * k * sgn
                roots[d] = roots.get(d, Fraction(0)) + x
            d += 1
    r = Poly.const(1)
    for d in sorted(roots):
        x = roots[d]
        fl = math.floor(x)
        rat *= Fraction(d) ** fl
        if x != fl:
            r = r * Poly.atom(('fn', 'num', (Poly.const(d).key(),), None), x - fl)
    return r * Poly.const(rat)


def subpolys(a):
    if a[0] == 'fn':
        for k in a[2]:
            if isinstance(k, tuple):
                yield Poly.from_key(k)
    elif a[0] == 'P':
        yield Poly.from_key(a[1])


def map_atom(a, f, memo):
    if a in memo:
        return memo[a]
    r = f(a)
    if r is None and a[0] in ('fn', 'P'):
        if a[0] == 'P':
            old = Poly.from_key(a[1])
            new = old.map_atoms(f, memo)
            r = new if new.key() != old.key() else None
        else:
            changed = False
            args = []
            for k in a[2]:
                if not isinstance(k, tuple):
                    args.append(k)
                    continue
                old = Poly.from_key(k)
                new = old.map_atoms(f, memo)
                if new.key() != old.key():
                    changed = True
                args.append(new)
            if changed:
                r = make_fn(a[1], [x if isinstance(x, Poly) or isinstance(x, str) else x for x in args], a[3])
    memo[a] = r
    return r


INDICATOR = ('pos',)


def norm_mono(d):
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a[0] == 'fn' and a[1] in INDICATOR and e > 0:
            e = 1
        out.append((a, e if type(e) is int else red(Fraction(e))))
    out.sort(key=lambda x: akey(x[0]))
    return tuple(out)


def expand(d):
    mono, p = expand_mono(d)
    r = Poly({mono: 1})
    return r if p is None else r * p


def mono_mul(m1, m2):
    """product monomial, plus a Poly factor when a 'P' atom becomes expandable"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return expand_mono(d)


def expand_mono(d):
    """powers >= 1 of sums are multiplied out, radicals of numbers reduced"""
    p = None
    for a in list(d):
        if a[0] == 'P':
            e = d[a]
            if e >= 1:
                fl = math.floor(e)
                d[a] = e - fl
                q = Poly.from_key(a[1]).pow(fl)
                p = q if p is None else p * q
        elif a[0] == 'fn' and a[1] == 'num':
            e = d[a]
            if e >= 1 or e < 0:
                fl = math.floor(e)
                c = Poly.from_key(a[2][0]).const_value()
                if c is not None and c > 0:
                    d[a] = e - fl
                    q = Poly.const(Fraction(c) ** fl)
                    p = q if p is None else p * q
    return norm_mono(d), p


def unexpanded(p):
    """p as a single monomial (a power of a sum is not multiplied out)"""
    q = p.pow(-1)
    if len(q.t) != 1:
        return p
    (m, c), = q.t.items()
    return Poly({tuple((a, -e) for a, e in m): red(1 / Fraction(c))})


def mono_div(m, g):
    d = dict(m)
    for a, e in g:
        d[a] = d.get(a, 0) - e
    return norm_mono(d)


def make_fn(name, args, side=None):
    """Opaque function of Polys with a few exact simplifications."""
    a = [x if isinstance(x, (Poly, str)) else Poly.from_key(x) for x in args]
    if name == 'sqrt':
        return a[0].pow(Fraction(1, 2))
    if name in ('abs', 'pos', 'sign') and isinstance(a[0], Poly):
        p = a[0]
        if p.is_const():
            c = p.const_value()
            if name == 'abs':
                return Poly.const(abs(c))
            if name == 'sign':
                return Poly.const((c > 0) - (c < 0))
            if c != 0:
                return Poly.const(1 if c > 0 else 0)
        else:
            lead = p.key()[0][1]
            if name == 'sign':
                return 2 * make_fn('pos', [p]) - 1
            if name == 'abs':
                q = p / Poly.const(abs(lead)) if lead > 0 else -(p / Poly.const(abs(lead)))
                return Poly.const(abs(lead)) * Poly.atom(('fn', 'abs', (q.key(),), None))
            q = p / Poly.const(abs(lead))
            if lead < 0:
                return 1 - Poly.atom(('fn', 'pos', ((-q).key(),), None))
            return Poly.atom(('fn', 'pos', (q.key(),), None))
    if name in ('max', 'min') and all(isinstance(x, Poly) for x in a):
        if all(x.is_const() for x in a):
            v = [x.const_value() for x in a]
            return Poly.const(max(v) if name == 'max' else min(v))
        if len(a) == 2 and a[0].equals(a[1]):
            return a[0]
        a = sorted(a, key=lambda x: repr(x.key()))
    if name == 'exp' and a[0].is_const() and a[0].const_value() == 0:
        return Poly.const(1)
    if name == 'ln' and a[0].is_const() and a[0].const_value() == 1:
        return Poly()
    if name in ('tanh', 'sin', 'atan') and a[0].is_const() and a[0].const_value() == 0:
        return Poly()
    if name == 'cos' and a[0].is_const() and a[0].const_value() == 0:
        return Poly.const(1)
    return Poly.atom(('fn', name, tuple(x.key() if isinstance(x, Poly) else x for x in a), side))


class _NoValue(Exception):
    pass


# typical magnitudes used in identity tests (set by checks whose expressions
# would otherwise sit on one side of their limits)
SCALE = {}
# scalars that occur with both signs (components and derivatives always do)
SIGNED = {'N2', 'elev', 'eta', 'elev_2d', 'temp', 'salt', 'w', 'T', 'S', 'temperature', 'salinity', 'tracer'}


def _num_atom(a, i, memo):
    import hashlib
    from decimal import Decimal
    v = memo.get(a)
    if v is not None:
        return v
    if a[0] == 'P':
        v = _num(Poly.from_key(a[1]), i, memo)
    else:
        args = [_num(Poly.from_key(x), i, memo) if isinstance(x, tuple) else x for x in a[2]] if a[0] == 'fn' else []
        nm = a[1] if a[0] == 'fn' else None
        if nm == 'abs':
            v = abs(args[0])
        elif nm == 'pos':
            v = Decimal(1 if args[0] > 0 else 0)
        elif nm in ('num', 'def'):
            v = args[0]
        elif nm in ('max', 'min') and len(args) == 2:
            v = max(args) if nm == 'max' else min(args)
        elif nm == 'pow' and len(args) == 2 and not a[3] and not any(isinstance(x, str) for x in args):
            if args[0] <= 0:
                raise _NoValue
            v = args[0] ** args[1]
        elif nm == 'exp' and len(args) == 1 and not a[3]:
            v = args[0].exp()
        elif nm == 'ln' and len(args) == 1 and not a[3]:
            if args[0] <= 0:
                raise _NoValue
            v = args[0].ln()
        else:
            k = akey(a) if a[0] != 'fn' else repr((a[1], [str(round(x, 25)) if not isinstance(x, str) else x for x in args], a[3]))
            h = int(hashlib.sha256(('%d %s' % (i, k)).encode()).hexdigest(), 16)
            v = Decimal(h % 10**30) / Decimal(10**30) * Decimal('1.5') + Decimal('0.5')
            if a[0] == 'f' and (a[2] or a[3] or a[1] in SIGNED) and (h >> 120) % 2:
                v = -v
            sc = SCALE.get(a[1])
            if sc == 'arg':
                v = args[0] * (v + 8) / 9
            elif sc is not None:
                v = v * Decimal(repr(sc))
    memo[a] = v
    return v


def _num(p, i, memo):
    from decimal import Decimal
    r = Decimal(0)
    for m, c in p.t.items():
        c = Fraction(c)
        x = Decimal(c.numerator) / Decimal(c.denominator)
        # a branch not taken contributes nothing, whatever its value
        if any(a[0] == 'fn' and a[1] == 'pos' and e > 0 and not _num_atom(a, i, memo) for a, e in m):
            continue
        for a, e in m:
            b = _num_atom(a, i, memo)
            e = Fraction(e)
            if e.denominator != 1 and b < 0:
                if not memo.get('extend'):
                    raise _NoValue
                b = -b
            if e < 0 and b == 0:
                raise _NoValue
            x = x * (b ** int(e) if e.denominator == 1 else b ** (Decimal(e.numerator) / Decimal(e.denominator)))
        r += x
    return r


def sampled_nonzero(p, n=2):
    """a point where the expression has a value other than zero was found
    (avoids clearing denominators of large nonzero expressions)"""
    import decimal
    with decimal.localcontext() as c:
        c.prec = 50
        for i in range(n):
            try:
                memo = {}
                v = _num(p, i, memo)
                sc = sum((abs(_num(Poly({m: k}), i, memo)) for m, k in p.t.items()), decimal.Decimal(0))
            except (_NoValue, decimal.DecimalException):
                continue
            if abs(v) > sc * decimal.Decimal('1e-25'):
                return True
    return False


def sampled_zero(p, n=6):
    import decimal
    got = 0
    with decimal.localcontext() as c:
        c.prec = 90
        for i in range(8 * n):
            # where a root of a negative number occurs (in a branch not taken)
            # only agreement of the extended expressions counts
            v = None
            for ext in (False, True):
                try:
                    memo = {'extend': ext}
                    v = _num(p, i, memo)
                    sc = sum((abs(_num(Poly({m: k}), i, memo)) for m, k in p.t.items()), decimal.Decimal(0))
                    break
                except (_NoValue, decimal.DecimalException):
                    v = None
            if v is None:
                continue
            if abs(v) > sc * decimal.Decimal('1e-60'):
                if ext:
                    continue
                return False
            got += 1
            if got >= n:
                return True
    return False


def show_atom(a):
    if a[0] == 'f':
        _, name, comp, der, side, const = a
        s = name
        if comp:
            s += '[%s]' % ','.join(str(i) for i in comp)
        for d in der:
            s = 'd%d(%s)' % (d, s)
        if side:
            s += side
        return s
    if a[0] == 'fn':
        return '%s(%s)' % (a[1], ', '.join(show_poly(Poly.from_key(k)) if isinstance(k, tuple) else k for k in a[2])) \
            + (a[3] or '')
    return '(%s)' % show_poly(Poly.from_key(a[1]))


def show_poly(p, maxterms=8):
    if not p.t:
        return '0'
    out = []
    for m, c in p.key()[:maxterms]:
        fs = []
        for a, e in m:
            s = show_atom(a)
            if e != 1:
                s += '^%s' % (e if e.denominator == 1 else '(%s)' % e)
            fs.append(s)
        cs = str(c) if c.denominator < 10**6 else '%.9g' % float(c)
        if fs and c == 1:
            out.append('*'.join(fs))
        elif fs and c == -1:
            out.append('-' + '*'.join(fs))
        else:
            out.append('*'.join([cs] + fs))
    s = ' + '.join(out)
    if len(p.t) > maxterms:
        s += ' + ... (%d terms)' % len(p.t)
    return s
