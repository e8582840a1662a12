"""Exact polynomial normal form of scalar expressions over opaque atoms."""
from fractions import Fraction
from .absint import Sy, Ex, key, show, is_num


class Lin(dict):
    """monomial (sorted tuple of atom keys) -> coefficient"""

    def __add__(self, o):
        r = Lin(self)
        for m, c in o.items():
            r[m] = r.get(m, 0) + c
            if r[m] == 0:
                del r[m]
        return r

    def scale(self, f):
        return Lin({m: c * f for m, c in self.items()}) if f else Lin()

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        r = Lin()
        for m, c in self.items():
            for n, d in o.items():
                k = tuple(sorted(m + n))
                r[k] = r.get(k, 0) + c * d
                if r[k] == 0:
                    del r[k]
        return r

    def const(self):
        return self.get((), Fraction(0))

    def is_const(self):
        return all(m == () for m in self)


NAMES = {}


def atom(v):
    k = repr(key(v))
    NAMES[k] = show(v)
    return Lin({(k,): Fraction(1)})


def num(x):
    return Lin({(): Fraction(x)}) if x else Lin()


def lin(v):
    """normal form of v (atoms are kept opaque)"""
    if isinstance(v, bool) or v is None:
        return atom(v)
    if is_num(v):
        return num(Fraction(v) if not isinstance(v, float) else Fraction(repr(v)))
    if isinstance(v, Ex):
        if v.op == '+':
            return lin(v.args[0]) + lin(v.args[1])
        if v.op == '-':
            return lin(v.args[0]) - lin(v.args[1])
        if v.op == '*':
            return lin(v.args[0]) * lin(v.args[1])
        if v.op == 'neg':
            return lin(v.args[0]).scale(-1)
        if v.op == '/':
            d = lin(v.args[1])
            if d.is_const() and d.const():
                return lin(v.args[0]).scale(1 / d.const())
            n = lin(v.args[0])
            return n * Lin({(inv_key(v.args[1]),): Fraction(1)})
        if v.op == 'call' and len(v.args) == 3 and not v.args[2] and len(v.args[1]) == 1:
            f = show(v.args[0]).split('.')[-1]
            if f in ('float', 'Constant'):
                return lin(v.args[1][0])
    return atom(v)


def inv_key(v):
    k = 'inv:' + repr(key(v))
    NAMES[k] = '1/(%s)' % show(v)
    return k


def show_lin(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        n = '*'.join(NAMES.get(k, k) for k in m)
        out.append('%s%s' % (('%s*' % c if c != 1 else '') if m else c, n))
    return ' + '.join(out)


def same(a, b):
    return not (lin(a) - lin(b))


def relation(cond):
    """a comparison as (affine expression e, strict) meaning e > 0 / e >= 0, or None"""
    neg = False
    while isinstance(cond, Ex) and cond.op == 'not':
        neg = not neg
        cond = cond.args[0]
    if isinstance(cond, Ex) and cond.op == '<':
        a, b = lin(cond.args[0]), lin(cond.args[1])
        # a < b  <=> b - a > 0 ; not: a - b >= 0
        return (a - b, False) if neg else (b - a, True)
    return None
