"""Execution of small C kernels with exact indices and symbolic values.

Integers are Python ints with C semantics, doubles are canonical `Poly`s.
Pointers are Python lists (or nested lists); reading an unset entry or an entry
outside of the array is an error of the kernel (KernelError)."""
import re
from fractions import Fraction
from sa.poly import Poly, make_fn, tofrac
from sa.repo import AnalysisError

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?[fFuUlL]*)|(?P<id>[A-Za-z_]\w*)|'
                 r'(?P<op>\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%]=|[-+*/%<>=!&|?:;,(){}\[\].])', re.S)
TYPES = {'double', 'float', 'int', 'unsigned', 'long', 'short', 'const', 'PetscScalar', 'PetscInt', 'static', 'inline', 'void', 'char', 'size_t', 'int32_t',
         'int64_t', 'restrict', '__restrict__', 'bool'}
INTS = {'int', 'unsigned', 'long', 'short', 'PetscInt', 'size_t', 'int32_t', 'int64_t', 'char', 'bool'}


class KernelError(Exception):
    pass


class UB:
    """value never assigned"""


UNSET = UB()


def tokens(code):
    code = re.sub(r'^\s*#.*$', '', code, flags=re.M)
    out, i = [], 0
    while i < len(code):
        m = TOK.match(code, i)
        if not m:
            raise AnalysisError('kernel text %r' % code[i:i+20])
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    out.append(('end', ''))
    return out


class Parser:
    def __init__(self, code):
        self.t = tokens(code)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.peek() == s and self.kind() != 'end':
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise AnalysisError('kernel syntax: %r instead of %r' % (self.peek(), s))

    # ------------------------------------------------------------ program
    def functions(self):
        out = {}
        while self.kind() != 'end':
            if self.peek() == ';':
                self.next()
                continue
            ty = self.typ()
            name = self.next()[1]
            self.expect('(')
            ps = []
            while not self.accept(')'):
                t = self.typ()
                dims = 0
                if self.kind() == 'id':
                    n = self.next()[1]
                    while self.accept('['):
                        if self.peek() != ']':
                            self.expr()
                        self.expect(']')
                        dims += 1
                    ps.append((n, t[0], t[1] + dims))
                self.accept(',')
            if self.accept(';'):
                continue
            out[name] = (ty, ps, self.block())
        return out

    def typ(self):
        base, ptr = 'double', 0
        seen = False
        while True:
            p = self.peek()
            if p in TYPES:
                if p in INTS:
                    base = 'int'
                self.next()
                seen = True
            elif p == '*' and seen:
                self.next()
                ptr += 1
            else:
                break
        if not seen:
            raise AnalysisError('kernel type %r' % self.peek())
        return base, ptr

    def block(self):
        if self.accept('{'):
            out = []
            while not self.accept('}'):
                out.append(self.stmt())
            return ('block', out)
        return self.stmt()

    def stmt(self):
        p = self.peek()
        if p == '{':
            return self.block()
        if p == ';':
            self.next()
            return ('block', [])
        if p == 'for':
            self.next()
            self.expect('(')
            init = ('block', []) if self.peek() == ';' else self.simple()
            self.expect(';')
            cond = None if self.peek() == ';' else self.expr()
            self.expect(';')
            inc = []
            while self.peek() != ')':
                inc.append(self.simple())
                self.accept(',')
            self.expect(')')
            return ('for', init, cond, inc, self.block())
        if p == 'while':
            self.next()
            self.expect('(')
            c = self.expr()
            self.expect(')')
            return ('for', ('block', []), c, [], self.block())
        if p == 'if':
            self.next()
            self.expect('(')
            c = self.expr()
            self.expect(')')
            a = self.block()
            b = self.block() if self.accept('else') else None
            return ('if', c, a, b)
        if p in ('break', 'continue'):
            self.next()
            self.expect(';')
            return (p,)
        if p == 'return':
            self.next()
            e = None if self.peek() == ';' else self.expr()
            self.expect(';')
            return ('return', e)
        s = self.simple()
        self.expect(';')
        return s

    def simple(self):
        if self.peek() in TYPES:
            ty, ptr = self.typ()
            out = []
            while True:
                while self.accept('*'):
                    ptr += 1
                n = self.next()[1]
                dims = []
                while self.accept('['):
                    dims.append(self.expr())
                    self.expect(']')
                init = None
                if self.accept('='):
                    if self.accept('{'):
                        vs = []
                        while not self.accept('}'):
                            vs.append(self.assign())
                            self.accept(',')
                        init = ('list', vs)
                    else:
                        init = self.assign()
                out.append(('decl', n, ty, ptr, dims, init))
                if not self.accept(','):
                    break
            return ('block', out) if len(out) > 1 else out[0]
        return ('expr', self.expr())

    def expr(self):
        e = self.assign()
        return e

    def assign(self):
        a = self.ternary()
        p = self.peek()
        if p in ('=', '+=', '-=', '*=', '/=', '%='):
            self.next()
            return ('set', p[:-1], a, self.assign())
        return a

    def ternary(self):
        c = self.binary(0)
        if self.accept('?'):
            a = self.assign()
            self.expect(':')
            return ('?', c, a, self.ternary())
        return c

    LEVELS = (('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('+', '-'), ('*', '/', '%'))

    def binary(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        a = self.binary(lv + 1)
        while self.peek() in self.LEVELS[lv] and self.kind() == 'op':
            op = self.next()[1]
            a = ('bin', op, a, self.binary(lv + 1))
        return a

    def unary(self):
        p = self.peek()
        if p in ('-', '+', '!', '*', '&') and self.kind() == 'op':
            self.next()
            return ('un', p, self.unary())
        if p in ('++', '--'):
            self.next()
            a = self.unary()
            return ('set', p[0], a, ('num', 1))
        if p == '(' and self.peek(1) in TYPES:
            self.next()
            ty, ptr = self.typ()
            self.expect(')')
            return ('cast', ty, ptr, self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.next()
        if k == 'num':
            s = v.rstrip('uUlL') if not re.search(r'[.eE]', v) else v.rstrip('fFlL')
            a = ('num', int(s)) if re.fullmatch(r'\d+', s) else ('num', Fraction(s))
            if isinstance(a[1], Fraction):
                a = ('dbl', a[1])
        elif k == 'id':
            a = ('var', v)
        elif v == '(':
            a = self.expr()
            self.expect(')')
        else:
            raise AnalysisError('kernel syntax at %r' % v)
        while True:
            if self.accept('['):
                i = self.expr()
                self.expect(']')
                a = ('idx', a, i)
            elif self.peek() == '(' and a[0] == 'var':
                self.next()
                args = []
                while not self.accept(')'):
                    args.append(self.assign())
                    self.accept(',')
                a = ('call', a[1], args)
            elif self.peek() in ('++', '--'):
                a = ('post', self.next()[1][0], a)
            else:
                return a


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


BIG = 10**8
_mm = {}


def dbl(v):
    if isinstance(v, Poly):
        return v
    if v is UNSET:
        raise KernelError('an uninitialized value is used')
    if isinstance(v, (list, Ptr)):
        raise KernelError('a pointer is used as a number')
    if isinstance(v, float):
        return Poly.const(tofrac(v))
    return Poly.const(v)


def cst(p):
    return p.const_value() if isinstance(p, Poly) and p.is_const() else None


def extremum(kind, a, b):
    """fmax / fmin with canonical nesting; +-BIG stand for infinity"""
    parts = []
    for p in (dbl(a), dbl(b)):
        c = cst(p)
        if c is not None and abs(c) >= BIG:
            if (c < 0) == (kind == 'max'):
                continue
            return p
        k = p.key()
        parts.extend(_mm[(kind, k)] if (kind, k) in _mm else [p])
    if not parts:
        return dbl(a)
    cs = [p for p in parts if cst(p) is not None]
    rest = {p.key(): p for p in parts if cst(p) is None}
    if cs:
        c = (max if kind == 'max' else min)(cs, key=cst)
        rest[c.key()] = c
    ps = [rest[k] for k in sorted(rest, key=str)]
    if len(ps) == 1:
        return ps[0]
    r = Poly.atom(('f', kind + '(' + ', '.join(sorted(repr(p) for p in ps)) + ')', (), (), None, False))
    _mm[(kind, r.key())] = ps
    return r


def absolute(p):
    c = cst(p)
    if c is not None:
        return Poly.const(abs(c))
    if (dbl(0) - p).key() < p.key() if isinstance(p.key(), str) else str((dbl(0) - p).key()) < str(p.key()):
        p = dbl(0) - p
    return Poly.atom(('f', 'abs(%r)' % p, (), (), None, False))


class Ptr:
    def __init__(self, a, off):
        self.a, self.off = a, off


class Machine:
    """value: Poly -> float, used to decide comparisons of doubles"""
    def __init__(self, fns, value=None):
        self.fns = fns
        self.value = value
        self.steps = 0

    def run(self, name, args):
        ty, ps, body = self.fns[name]
        if len(ps) != len(args):
            raise KernelError('%s takes %d arguments, %d are given' % (name, len(ps), len(args)))
        env = [{n: [t, a] for (n, t, _), a in zip(ps, args)}]
        try:
            self.stmt(body, env)
        except Ret as r:
            return r.v
        return None

    def look(self, env, n):
        for e in reversed(env):
            if n in e:
                return e[n]
        raise AnalysisError('kernel name %s' % n)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise AnalysisError('kernel does not end')
        k = s[0]
        if k == 'block':
            env.append({})
            scoped = not all(x[0] == 'decl' for x in s[1]) or not s[1]
            if not scoped:
                env.pop()
            for x in s[1]:
                self.stmt(x, env)
            if scoped:
                env.pop()
        elif k == 'decl':
            _, n, ty, ptr, dims, init = s
            if dims:
                v = self.array([self.eval(d, env) for d in dims])
                if init is not None and init[0] == 'list':
                    for i, x in enumerate(init[1]):
                        v[i] = self.conv(ty, self.eval(x, env))
                    for i in range(len(init[1]), len(v)):
                        v[i] = self.conv(ty, 0)
            elif init is None:
                v = UNSET
            else:
                v = self.eval(init, env)
                v = v if ptr else self.conv(ty, v)
            env[-1][n] = [ty, v]
        elif k == 'expr':
            self.eval(s[1], env)
        elif k == 'for':
            n = len(env)
            env.append({})
            self.stmt(s[1], env)
            while s[2] is None or self.true(self.eval(s[2], env)):
                m = len(env)
                try:
                    self.stmt(s[4], env)
                except Brk:
                    del env[m:]
                    break
                except Cont:
                    del env[m:]
                for x in s[3]:
                    self.stmt(x, env)
            del env[n:]
        elif k == 'if':
            n = len(env)
            env.append({})
            if self.true(self.eval(s[1], env)):
                self.stmt(s[2], env)
            elif s[3] is not None:
                self.stmt(s[3], env)
            del env[n:]
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k == 'return':
            raise Ret(self.eval(s[1], env) if s[1] is not None else None)

    def array(self, dims):
        if len(dims) == 1:
            return [UNSET] * dims[0]
        return [self.array(dims[1:]) for _ in range(dims[0])]

    def conv(self, ty, v):
        if v is UNSET or isinstance(v, (list, Ptr)):
            return v
        if ty == 'int':
            if isinstance(v, Poly):
                c = cst(v)
                if c is None:
                    raise AnalysisError('integer from a field value')
                return int(c)
            return int(v)
        return dbl(v)

    def true(self, v):
        if isinstance(v, bool) or isinstance(v, int):
            return bool(v)
        c = cst(v)
        if c is None:
            raise AnalysisError('condition on a field value')
        return c != 0

    def ref(self, a, env):
        """(container, key) of an lvalue"""
        if a[0] == 'var':
            return self.look(env, a[1]), 1
        if a[0] == 'idx':
            arr, i = self.eval(a[1], env), self.eval(a[2], env)
            off = 0
            if isinstance(arr, Ptr):
                arr, off = arr.a, arr.off
            if isinstance(i, Poly):
                raise AnalysisError('index from a field value')
            if not isinstance(arr, list):
                raise KernelError('indexing of a number')
            if not 0 <= i + off < len(arr):
                raise KernelError('entry %d of an array of %d values' % (i + off, len(arr)))
            return arr, i + off
        if a[0] == 'un' and a[1] == '*':
            return self.ref(('idx', a[2], ('num', 0)), env)
        raise AnalysisError('kernel lvalue')

    def eval(self, a, env):
        k = a[0]
        if k == 'num':
            return a[1]
        if k == 'dbl':
            return Poly.const(tofrac(a[1]))
        if k == 'var':
            if a[1] == 'M_PI':
                return Poly.atom(('f', 'pi', (), (), None, True))
            return self.look(env, a[1])[1]
        if k == 'idx' or (k == 'un' and a[1] == '*'):
            c, i = self.ref(a, env)
            v = c[i]
            if v is UNSET:
                raise KernelError('an uninitialized value is read')
            return v
        if k == 'un':
            if a[1] == '&':
                if a[2][0] == 'idx':
                    c, i = self.ref(a[2], env)
                    return Ptr(c, i)
                raise AnalysisError('address of a scalar')
            v = self.eval(a[2], env)
            if a[1] == '-':
                return -v if isinstance(v, int) else dbl(0) - dbl(v)
            if a[1] == '!':
                return not self.true(v)
            return v
        if k == 'cast':
            v = self.eval(a[3], env)
            return v if a[2] else self.conv(a[1], v)
        if k == '?':
            return self.eval(a[2] if self.true(self.eval(a[1], env)) else a[3], env)
        if k == 'set':
            v = self.eval(a[3], env)
            c, i = self.ref(a[2], env)
            ty = c[0] if a[2][0] == 'var' else None
            if a[1]:
                v = self.bin(a[1], c[i], v)
            if ty is None:
                ty = self.etype(a[2], env)
            c[i] = self.conv(ty, v) if not isinstance(v, (Ptr, list)) else v
            return c[i]
        if k == 'post':
            c, i = self.ref(a[2], env)
            old = c[i]
            c[i] = self.bin(a[1], old, 1)
            return old
        if k == 'bin':
            if a[1] in ('&&', '||'):
                x = self.true(self.eval(a[2], env))
                if (a[1] == '&&') != x:
                    return x
                return self.true(self.eval(a[3], env))
            return self.bin(a[1], self.eval(a[2], env), self.eval(a[3], env))
        if k == 'call':
            return self.callf(a[1], [self.eval(x, env) for x in a[2]])
        raise AnalysisError('kernel expression %s' % k)

    def etype(self, a, env):
        while a[0] != 'var':
            a = a[1] if a[0] == 'idx' else a[2]
        return self.look(env, a[1])[0]

    def bin(self, op, x, y):
        if isinstance(x, (list, Ptr)) and isinstance(y, int) and op in '+-':
            p = x if isinstance(x, Ptr) else Ptr(x, 0)
            return Ptr(p.a, p.off + (y if op == '+' else -y))
        if isinstance(x, int) and isinstance(y, int):
            if op in ('/', '%'):
                if y == 0:
                    raise KernelError('division by zero')
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op == '/' else x - q*y
            return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y,
                    '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
        a, b = dbl(x), dbl(y)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if b.zero():
                raise KernelError('division by zero')
            return a / b
        d = cst(a - b)
        if d is None:
            if self.value is None:
                raise AnalysisError('comparison of field values')
            d = self.value(a - b)
        return {'<': d < 0, '>': d > 0, '<=': d <= 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op]

    def callf(self, n, v):
        if n in self.fns:
            return self.run(n, v)
        if n in ('fmax', 'max'):
            return extremum('max', *v)
        if n in ('fmin', 'min'):
            return extremum('min', *v)
        if n in ('fabs', 'abs'):
            return absolute(dbl(v[0]))
        c = cst(dbl(v[0]))
        if n in ('round', 'floor', 'ceil', 'trunc') and c is not None:
            import math
            c = Fraction(c)
            return Poly.const({'round': lambda: math.floor(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1), 'floor': lambda: math.floor(c),
                               'ceil': lambda: math.ceil(c), 'trunc': lambda: math.trunc(c)}[n]())
        if n == 'pow':
            e = cst(dbl(v[1]))
            if e is not None:
                return dbl(v[0]).pow(Fraction(e))
            if c in (0, 1) and c is not None:
                return Poly.const(c)      # positive exponents
            return make_fn('pow', [dbl(v[0]), dbl(v[1])])
        if n == 'sqrt':
            return dbl(v[0]).pow(Fraction(1, 2))
        return make_fn(n, [dbl(x) for x in v])


def run_kernel(code, name, args, value=None):
    fns = Parser(code).functions()
    if name not in fns:
        raise KernelError('the kernel %s is not defined' % name)
    Machine(fns, value).run(name, args)


def sym(name):
    return Poly.atom(('f', name, (), (), None, False))
