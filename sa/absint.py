"""Guard-partitioned abstract interpreter over the Python syntax tree.

The interpreter evaluates functions of the analysed package over an abstract
domain of symbolic values (`Sy`, `Ex`), abstract heap objects (`Ob`) and known
constants.  Calls to code of the package are resolved through the class
hierarchy and analysed in place (context sensitive); calls to anything else
are recorded as effect events and return an uninterpreted value.  A branch on
a condition that the domain does not decide partitions the abstract trace in
two; conditions met twice on one trace get the same answer.  A loop over an
unknown collection is analysed for one generic element.  Nothing of the
analysed program is executed and no path is handed to a solver.
"""
import ast
from fractions import Fraction
from .repo import (Repo, Module, ClassInfo, FuncInfo, AnalysisError)
from .pyrt import Runtime, GenL, KeysL, DefDict, NTup, take, exc_parents


# ----------------------------------------------------------------- values
class Val:
    __slots__ = ()


_INTERN = {}


def _intern(k):
    r = _INTERN.get(k)
    if r is None:
        r = len(_INTERN)
        _INTERN[k] = r
    return r


class Sy(Val):
    """Opaque symbol."""
    __slots__ = ('name', 'tags')

    def __init__(self, name, **tags):
        self.name = name
        self.tags = tags

    def __repr__(self):
        return self.name


class Ext(Val):
    """Name defined outside of the package (firedrake, numpy, builtins ...)."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    @property
    def short(self):
        return self.name.split('.')[-1]

    def __repr__(self):
        return self.name


class Ex(Val):
    """Uninterpreted expression node."""
    __slots__ = ('op', 'args', 'k', 'node')

    def __init__(self, op, *args):
        self.op = op
        self.args = tuple(freeze(a) for a in args)
        self.k = _intern((op,) + tuple(key(a) for a in self.args))
        self.node = None

    def __repr__(self):
        return show(self)


class Ob(Val):
    """Abstract heap object."""
    __slots__ = ('cls', 'attrs', 'oid', 'name', 'meta')

    def __init__(self, cls, oid, name=None):
        self.cls = cls
        self.attrs = {}
        self.oid = oid
        self.name = name
        self.meta = {}

    @property
    def clsname(self):
        return self.cls.name if isinstance(self.cls, ClassInfo) else str(self.cls)

    def __repr__(self):
        return self.name or '<%s#%s>' % (self.clsname, self.oid)


class Fv(Val):
    """Function value (closure or bound method)."""
    __slots__ = ('func', 'self_', 'env')

    def __init__(self, func, self_=None, env=None):
        self.func = func
        self.self_ = self_
        self.env = env

    def __repr__(self):
        return '<fn %s>' % self.func.qualname


class Cv(Val):
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return '<class %s>' % self.cls.name


class Mv(Val):
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod


class SuperV(Val):
    __slots__ = ('after', 'self_')

    def __init__(self, after, self_):
        self.after = after
        self.self_ = self_


class ItemsV(list):
    """list with a note that it stands for a generic (abstract) collection"""


def freeze(v):
    if isinstance(v, list):
        return tuple(freeze(x) for x in v)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((freeze(a), freeze(b)) for a, b in v.items())
    if isinstance(v, (set, frozenset)):
        return tuple(sorted((freeze(x) for x in v), key=repr))
    if isinstance(v, slice):
        return ('slice', freeze(v.start), freeze(v.stop), freeze(v.step))
    return v


def key(v):
    if isinstance(v, Ex):
        return ('x', v.k)
    if isinstance(v, Sy):
        return ('s', v.name)
    if isinstance(v, Ext):
        return ('e', v.short)
    if isinstance(v, Ob):
        return ('o', v.oid)
    if isinstance(v, (tuple, list)):
        return ('t',) + tuple(key(x) for x in v)
    if isinstance(v, dict):
        return ('d',) + tuple((key(a), key(b)) for a, b in v.items())
    if isinstance(v, (set, frozenset)):
        return ('S',) + tuple(sorted((key(x) for x in v), key=repr))
    if isinstance(v, Fv):
        return ('f', v.func.qualname, id(v.func.node), key(v.self_) if v.self_ is not None else None)
    if isinstance(v, Cv):
        return ('k', v.cls.qualname)
    if isinstance(v, Mv):
        return ('m', v.mod.name)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ('c', repr(v))
    if isinstance(v, (int, float, Fraction)):
        try:
            return ('c', repr(float(v)))
        except OverflowError:
            return ('c', repr(v))
    if isinstance(v, slice):
        return ('sl', key(v.start), key(v.stop), key(v.step))
    return ('u', repr(v))


def is_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def is_conc(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(is_conc(x) for x in v)
    if isinstance(v, dict):
        return all(is_conc(x) for x in v.values())
    return v is None or isinstance(v, (bool, int, float, Fraction, str))


def is_ident(v):
    """equality with other such values is decided: concrete values and objects
    (compared by identity)"""
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(is_ident(x) for x in v)
    if isinstance(v, Ob):
        return not v.meta.get('nd') and not (isinstance(v.cls, ClassInfo) and v.cls.find_method('__eq__'))
    return is_conc(v)


def show(v, depth=0):
    if depth > 12:
        return '...'
    s = lambda x: show(x, depth + 1)
    if isinstance(v, Ex):
        a = v.args
        if v.op in ('+', '-', '*', '/', '**', '<', '==', '%', '//', 'is', 'in', 'and', 'or') and len(a) == 2:
            return '(%s %s %s)' % (s(a[0]), v.op, s(a[1]))
        if v.op == 'neg':
            return '-%s' % s(a[0])
        if v.op == 'attr':
            return '%s.%s' % (s(a[0]), a[1])
        if v.op == 'idx':
            return '%s[%s]' % (s(a[0]), s(a[1]))
        if v.op == 'call':
            args = [s(x) for x in a[1]] + ['%s=%s' % (k, s(x)) for k, x in a[2]]
            return '%s(%s)' % (s(a[0]), ', '.join(args))
        return '%s(%s)' % (v.op, ', '.join(s(x) for x in a))
    if isinstance(v, (tuple, list)):
        return '[' + ', '.join(s(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (s(a), s(b)) for a, b in v.items()) + '}'
    return repr(v)


def call_parts(v):
    """(callee, args, kwargs) of a call expression or None."""
    if isinstance(v, Ex) and v.op == 'call':
        return v.args[0], v.args[1], dict(v.args[2])
    return None


def callee_name(v):
    """Last component of a callee value."""
    if isinstance(v, Ext):
        return v.short
    if isinstance(v, Ex) and v.op == 'attr':
        return v.args[1]
    if isinstance(v, Fv):
        return v.func.name
    if isinstance(v, Cv):
        return v.cls.name
    return None


def is_call(v, name):
    return isinstance(v, Ex) and v.op == 'call' and callee_name(v.args[0]) == name


def subterms(v, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, Ex):
        if v.k in seen:
            return
        seen.add(v.k)
        yield v
        for a in v.args:
            yield from subterms(a, seen)
    elif isinstance(v, (tuple, list)):
        for a in v:
            yield from subterms(a, seen)
    elif isinstance(v, dict):
        for a in v.values():
            yield from subterms(a, seen)
    else:
        yield v


# ------------------------------------------------------------------ events
class Ev:
    __slots__ = ('kind', 'fn', 'args', 'kwargs', 'loc', 'func', 'loops', 'res', 'extra', 'chain')

    def __init__(self, kind, fn, args, kwargs, loc, func, loops, res=None, extra=None, chain=()):
        self.kind = kind
        self.fn = fn
        self.args = args
        self.kwargs = kwargs
        self.loc = loc
        self.func = func
        self.loops = loops
        self.res = res
        self.extra = extra
        self.chain = chain

    @property
    def name(self):
        return callee_name(self.fn) if isinstance(self.fn, Val) else self.fn

    @property
    def recv(self):
        if isinstance(self.fn, Ex) and self.fn.op == 'attr':
            return self.fn.args[0]
        return None

    def __repr__(self):
        a = ', '.join([show(x) for x in self.args] + ['%s=%s' % (k, show(x)) for k, x in self.kwargs.items()])
        return '%s %s(%s) @%s' % (self.kind, show(self.fn) if isinstance(self.fn, Val) else self.fn, a, self.loc)


# --------------------------------------------------------------- signals
class RaiseSig(Exception):
    def __init__(self, exc, loc):
        self.exc = exc       # short name of the exception class
        self.loc = loc


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class StopPath(Exception):
    """Policy asks to stop the current abstract trace."""


class Policy:
    """Domain-specific transfer functions; NotImplemented = default."""
    loop_mode = 'once'       # 'once' | 'fork' (0 or 1 generic iterations)
    forever_bound = None    # passes of a `while True` loop analysed before the trace is cut
    while_bound = 1
    max_depth = 40
    skip_decorators = ('unfrozen', 'property', 'abstractmethod', 'staticmethod', 'classmethod', 'abstractproperty', 'cached_property', 'setter', 'getter',
                       'EventDecorator', 'wraps', 'no_annotations')

    def call(self, it, fn, args, kwargs, node):
        return NotImplemented

    def attr(self, it, base, name, node):
        return NotImplemented

    def setattr(self, it, base, name, value, node):
        return NotImplemented

    def index(self, it, base, idx, node):
        return NotImplemented

    def inline(self, it, func, self_):
        return True

    def decide(self, it, cond):
        return None

    def iterate(self, it, value, node):
        return None

    def iop(self, it, op, target, value, node):
        return NotImplemented

    def name(self, it, name, module):
        return NotImplemented

    def instantiate(self, it, cls, args, kwargs, node):
        return NotImplemented

    def binop(self, it, op, a, b, node):
        return NotImplemented

    def setindex(self, it, base, idx, value, node):
        return NotImplemented

    def neg(self, it, a):
        return NotImplemented

    def compare(self, it, op, a, b):
        return NotImplemented

    def notnone(self, it, v):
        """True if the opaque expression is known not to be None."""
        return False


class Env:
    __slots__ = ('vars', 'parent', 'comp')

    def __init__(self, parent=None, comp=False):
        self.vars = {}
        self.parent = parent
        self.comp = comp

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        raise KeyError(n)

    def has(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return True
            e = e.parent
        return False


class Frame:
    __slots__ = ('func', 'env', 'module', 'cls', 'self_', 'yields', 'node', 'globals_', 'nonlocals', 'hook')

    def __init__(self, func, env, module, cls, self_):
        self.func = func
        self.env = env
        self.module = module
        self.cls = cls
        self.self_ = self_
        self.yields = None
        self.hook = None
        self.node = None
        self.globals_ = set()
        self.nonlocals = set()


_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
        ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
_BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%',
        ast.FloorDiv: '//', ast.MatMult: '@', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^',
        ast.LShift: '<<', ast.RShift: '>>'}


class Interp(Runtime):
    def __init__(self, repo, policy=None, decisions=()):
        self.repo = repo
        self.policy = policy or Policy()
        self.prefix = list(decisions)
        self.decisions = []
        self.facts = {}
        self.factlog = []
        self.events = []
        self.frames = []
        self.loops = ()
        self.overlay = {}
        self.nextid = 0
        self.steps = 0
        self.max_steps = 400000
        self.modcache = {}
        self.user = {}
        self.defaults = {}
        self.classvars = {}
        self.globalvars = {}
        self.handling = []
        self.memo = {}

    # ----------------------------------------------------------- helpers
    def new_id(self):
        self.nextid += 1
        return self.nextid

    def obj(self, cls, name=None, **attrs):
        o = Ob(cls, self.new_id(), name)
        o.attrs.update(attrs)
        return o

    def loc(self, node=None):
        if self.frames:
            f = self.frames[-1]
            n = node if node is not None and hasattr(node, 'lineno') else f.node
            return '%s:%d' % (f.module.relpath, getattr(n, 'lineno', 0))
        return '?'

    def funcname(self):
        return self.frames[-1].func.qualname if self.frames and self.frames[-1].func else '?'

    def chain(self):
        return tuple(f.func.qualname for f in self.frames if f.func)

    def event(self, kind, fn, args=(), kwargs=None, node=None, extra=None):
        e = Ev(kind, fn, list(args), dict(kwargs or {}), self.loc(node), self.funcname(), self.loops,
               extra=extra, chain=self.chain())
        self.events.append(e)
        return e

    def choose(self, n, what):
        i = len(self.decisions)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.decisions.append((c, n, what))
        return c

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, (bool, int, float, Fraction, str, list, tuple, dict, set, frozenset)) or v is None:
            return bool(v)
        if isinstance(v, Ob):
            r = self.policy.decide(self, v)
            if r is not None:
                return r
            if isinstance(v.cls, ClassInfo):
                for nm in ('__bool__', '__len__'):
                    m = v.cls.find_method(nm)
                    if m is not None:
                        return self.truth(self.call_func(m, [v], {}, None))
            return True
        if isinstance(v, (Fv, Cv, Mv)):
            return True
        if isinstance(v, Ex) and v.op == 'not':
            return not self.truth(v.args[0])
        k = key(v)
        if k in self.facts:
            return self.facts[k]
        # X is None implies not truth(X)
        kn = key(Ex('is', v, None))
        if self.facts.get(kn) is True:
            return False
        r = self.policy.decide(self, v)
        if r is None:
            r = self.choose(2, v) == 0
        self.facts[k] = r
        self.factlog.append((v, r, self.loc()))
        if r and not (isinstance(v, Ex) and v.op in ('is', '==', '<', 'in', 'isinstance')):
            self.facts.setdefault(kn, False)
        return r

    def assume(self, cond, value=True):
        if isinstance(cond, Ex) and cond.op == 'not':
            return self.assume(cond.args[0], not value)
        self.facts[key(cond)] = value

    # ------------------------------------------------------------ compare
    def compare(self, op, a, b):
        r = self.policy.compare(self, op, a, b)
        if r is not NotImplemented:
            return r
        if op in ('is not', '!=', 'not in'):
            r = self.compare({'is not': 'is', '!=': '==', 'not in': 'in'}[op], a, b)
            return (not r) if isinstance(r, bool) else Ex('not', r)
        r = self.rt_compare(op, a, b)
        if r is not NotImplemented:
            return r
        if op == 'is':
            if b is None or a is None:
                x = a if b is None else b
                if x is None:
                    return True
                if isinstance(x, (Sy, Ex)):
                    if isinstance(x, Ex) and x.op in ('+', '-', '*', '/', 'neg', '**'):
                        return False
                    if self.policy.notnone(self, x):
                        return False
                    return Ex('is', x, None)
                return False
            if isinstance(a, Ob) or isinstance(b, Ob):
                if isinstance(a, Ob) and isinstance(b, Ob):
                    return a is b
                if is_conc(a) or is_conc(b):
                    return False
                return Ex('is', a, b)
            if is_conc(a) and is_conc(b):
                return a is b or (type(a) is type(b) and a == b)
            if key(a) == key(b):
                return True
            return Ex('is', a, b)
        if op == '==':
            if isinstance(a, Ob) and isinstance(b, Ob):
                return a is b or Ex('==', a, b)
            if key(a) == key(b):
                return True
            if is_conc(a) and is_conc(b):
                try:
                    return bool(a == b)
                except Exception:
                    return Ex('==', a, b)
            if isinstance(a, (Fv, Cv)) and isinstance(b, (Fv, Cv)):
                return key(a) == key(b)
            if repr(key(a)) > repr(key(b)):
                a, b = b, a
            return Ex('==', a, b)
        if op in ('>', '>=', '<='):
            if op == '>':
                return self.compare('<', b, a)
            if op == '>=':
                r = self.compare('<', a, b)
            else:
                r = self.compare('<', b, a)
            return (not r) if isinstance(r, bool) else Ex('not', r)
        if op == '<':
            if is_conc(a) and is_conc(b):
                try:
                    return bool(a < b)
                except Exception:
                    return Ex('<', a, b)
            return Ex('<', a, b)
        if op == 'in':
            if isinstance(b, (list, tuple, set, frozenset, dict, str)):
                if isinstance(b, str):
                    if isinstance(a, str):
                        return a in b
                    return Ex('in', a, b)
                items = list(b)
                ka = key(a)
                if any(key(x) == ka for x in items):
                    return True
                if is_ident(a) and all(is_ident(x) for x in items):
                    return False
                if not items:
                    return False
                # keys of abstract dictionaries are themselves symbols
                return Ex('in', a, tuple(items))
            return Ex('in', a, b)
        raise AnalysisError('compare %s' % op)

    # ------------------------------------------------------------- binop
    def binop(self, op, a, b, node=None):
        r = self.policy.binop(self, op, a, b, node)
        if r is not NotImplemented:
            return r
        r = self.rt_binop(op, a, b, node)
        if r is not NotImplemented:
            return r
        if op == '|' and type(a) is type(b) and isinstance(a, (dict, set)):
            r = a.copy()
            r.update(b)
            return r
        if is_num(a) and is_num(b) or (isinstance(a, bool) and is_num(b)) or (is_num(a) and isinstance(b, bool)):
            try:
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
                if op == '/':
                    if isinstance(a, int) and isinstance(b, int):
                        r = Fraction(a, b)
                        return int(r) if r.denominator == 1 else r
                    return a / b
                if op == '**':
                    if isinstance(a, int) and isinstance(b, int) and b < 0:
                        return Fraction(a) ** b
                    return a ** b
                if op == '%':
                    return a % b
                if op == '//':
                    return a // b
            except ZeroDivisionError:
                raise RaiseSig('ZeroDivisionError', self.loc(node))
        if isinstance(a, str) and isinstance(b, str) and op == '+':
            return a + b
        if isinstance(a, str) and op == '%':
            if is_conc(b):
                try:
                    return a % (tuple(b) if isinstance(b, (tuple, list)) else b)
                except Exception:
                    pass
            return Ex('str%', a, b)
        if isinstance(a, list) and isinstance(b, list) and op == '+':
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, (list, tuple)) and isinstance(b, int) and op == '*':
            return a * b
        if isinstance(a, set) and isinstance(b, set) and op in ('|', '&', '-'):
            return {'|': a | b, '&': a & b, '-': a - b}[op]
        if op in ('&', '|', '^'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, bool):
                    if isinstance(y, bool):
                        return {'&': x & y, '|': x | y, '^': x ^ y}[op]
                    if op != '^' and x == (op == '|'):
                        return x
                    if op != '^':
                        return y
        if op == '+':
            if is_num(a) and a == 0:
                return b
            if is_num(b) and b == 0:
                return a
        elif op == '-':
            if is_num(b) and b == 0:
                return a
            if is_num(a) and a == 0:
                return self.neg(b)
        elif op == '*':
            if is_num(a) and a == 0 or is_num(b) and b == 0:
                return 0
            if is_num(a) and a == 1:
                return b
            if is_num(b) and b == 1:
                return a
        elif op == '/':
            if is_num(b) and b == 1:
                return a
        elif op == '**':
            if is_num(b) and b == 1:
                return a
        e = Ex(op, a, b)
        e.node = self.loc(node)
        return e

    def neg(self, a):
        r = self.policy.neg(self, a)
        if r is not NotImplemented:
            return r
        if is_num(a):
            return -a
        if isinstance(a, Ex) and a.op == 'neg':
            return a.args[0]
        return Ex('neg', a)

    # ------------------------------------------------------------- names
    def lookup_name(self, name, node):
        fr = self.frames[-1]
        if name not in fr.globals_ and fr.env.has(name):
            return fr.env.get(name)
        return self.global_name(name, fr.module, node)

    def global_name(self, name, module, node=None):
        r = self.policy.name(self, name, module)
        if r is not NotImplemented:
            return r
        if (module.name, name) in self.globalvars:
            return self.globalvars[(module.name, name)]
        return self.wrap_lookup(self.repo.lookup(module, name), name, module)

    def wrap_lookup(self, r, name, module):
        if r is None:
            return Ext(name)
        if isinstance(r, ClassInfo):
            return Cv(r)
        if isinstance(r, FuncInfo):
            return Fv(r)
        if isinstance(r, Module):
            return Mv(r)
        if r[0] == 'assign':
            ck = (r[1].name, name)
            if ck not in self.modcache:
                self.modcache[ck] = Ext(name)   # recursion guard
                self.modcache[ck] = self.eval_in_module(r[2], r[1], name)
            return self.modcache[ck]
        return Ext(r[1])

    def eval_in_module(self, expr, module, name='?'):
        fr = Frame(None, Env(), module, None, None)
        fr.node = expr
        self.frames.append(fr)
        n = len(self.events)
        try:
            v = self.ev(expr)
        finally:
            self.frames.pop()
        del self.events[n:]
        if isinstance(v, Ex) and v.op == 'call':
            return Sy(name) if not isinstance(callee_name(v.args[0]), str) else v
        return v

    # -------------------------------------------------------- attributes
    def getattr(self, base, name, node=None):
        r = self.policy.attr(self, base, name, node)
        if r is not NotImplemented:
            return r
        if isinstance(base, Ob):
            return self.ob_attr(base, name, node)
        if isinstance(base, Mv):
            return self.global_name(name, base.mod, node)
        if isinstance(base, Cv):
            cv = self.classvar(base.cls, name)
            if cv is not None:
                return cv[0]
            m = base.cls.find_method(name)
            if m is not None:
                if m.is_classmethod:
                    return Fv(m, base)
                return Fv(m)
            a = base.cls.find_attr(name)
            if a is not None:
                return self.class_attr(a, name)
            if name in ('__name__', '__qualname__'):
                return base.cls.name
            return Ex('attr', base, name)
        if isinstance(base, SuperV):
            cls = base.self_.cls if isinstance(base.self_, Ob) else (
                base.self_.cls if isinstance(base.self_, Cv) else None)
            if isinstance(cls, ClassInfo):
                m = cls.find_method(name, after=base.after)
                if m is not None:
                    if m.is_property:
                        return self.call_func(m, [base.self_], {}, node)
                    return Fv(m, base.self_)
                # class attribute of a base
                mro = cls.mro()
                st = mro.index(base.after) + 1 if base.after in mro else 0
                for c in mro[st:]:
                    if isinstance(c, ClassInfo) and name in c.attrs:
                        return self.class_attr((c, c.attrs[name]), name)
            return Ex('attr', Ex('super', base.self_), name)
        if isinstance(base, Ext):
            return Ext(base.name + '.' + name)
        if isinstance(base, Fv):
            if name == '__name__':
                return base.func.name
            return Ex('attr', base, name)
        if isinstance(base, NTup) and name in base.fields:
            return base[base.fields.index(name)]
        if isinstance(base, (list, tuple, dict, str, set, frozenset)):
            return ('method', base, name)
        k = (key(base), name)
        if k in self.overlay:
            return self.overlay[k]
        return Ex('attr', base, name)

    def classvar(self, cls, name):
        if self.classvars:
            for c in cls.mro():
                if isinstance(c, ClassInfo) and (c.qualname, name) in self.classvars:
                    return (self.classvars[(c.qualname, name)],)
        return None

    def class_attr(self, a, name):
        c, expr = a
        ck = (c.qualname, name)
        if ck not in self.modcache and not name.startswith('_') and any(b.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum', 'Flag') for b in c.external_bases()):
            o = Ob(c, 'enum:%s.%s' % (c.qualname, name), '%s.%s' % (c.name, name))
            self.modcache[ck] = o
            o.attrs['name'] = name
            o.attrs['value'] = Ex('enumvalue', name)
            fr = Frame(None, Env(), c.module, c, None)
            fr.node = expr
            self.frames.append(fr)
            try:
                o.attrs['value'] = self.ev(expr)
            finally:
                self.frames.pop()
            if any(b.split('.')[-1] in ('IntEnum', 'StrEnum') for b in c.external_bases()):
                self.modcache[ck] = o.attrs['value']
        if ck not in self.modcache:
            self.modcache[ck] = None
            fr = Frame(None, Env(), c.module, c, None)
            fr.node = expr
            # other class-level names are visible
            for n2, e2 in c.attrs.items():
                if n2 != name and any(isinstance(x, ast.Name) and x.id == n2 for x in ast.walk(expr)):
                    fr.env.vars[n2] = self.class_attr((c, e2), n2)
            self.frames.append(fr)
            n = len(self.events)
            try:
                self.modcache[ck] = self.ev(expr)
            finally:
                self.frames.pop()
            del self.events[n:]
        return self.modcache[ck]

    def ob_attr(self, o, name, node=None):
        if name in o.attrs:
            return o.attrs[name]
        if isinstance(o.cls, ClassInfo):
            cv = self.classvar(o.cls, name)
            if cv is not None:
                return cv[0]
            if name == '__class__':
                return Cv(o.cls)
            if name == '__dict__':
                return o.attrs
            m = o.cls.find_method(name)
            if m is not None:
                if m.is_property and not m.is_abstract:
                    v = self.call_func(m, [o], {}, node)
                    if any(d.endswith('cached_property') for d in m.decorators):
                        o.attrs[name] = v
                    return v
                if m.is_static:
                    return Fv(m)
                if m.is_classmethod:
                    return Fv(m, Cv(o.cls))
                a = o.cls.find_attr(name)
                if a is not None:
                    mro = o.cls.mro()
                    if mro.index(a[0]) < mro.index(m.cls):
                        return self.class_attr(a, name)
                if m.is_property:
                    return Ex('attr', o, name)
                return Fv(m, o)
            a = o.cls.find_attr(name)
            if a is not None:
                return self.class_attr(a, name)
            if o.meta.get('dictlike') and name in o.attrs:
                return o.attrs[name]
        return Ex('attr', o, name)

    def setattr(self, base, name, value, node=None):
        r = self.policy.setattr(self, base, name, value, node)
        if r is not NotImplemented:
            return
        self.event('setattr', name, [base, value], node=node)
        if isinstance(base, Ob):
            if isinstance(base.cls, ClassInfo):
                for c in base.cls.mro():
                    if isinstance(c, ClassInfo) and name in c.setters:
                        self.call_func(c.setters[name], [base, value], {}, node)
                        return
            base.attrs[name] = value
            return
        if isinstance(base, Cv):
            self.classvars[(base.cls.qualname, name)] = value
            return
        if isinstance(base, Mv):
            self.globalvars[(base.mod.name, name)] = value
            return
        self.overlay[(key(base), name)] = value

    # ---------------------------------------------------------- indexing
    def getindex(self, base, idx, node=None):
        r = self.policy.index(self, base, idx, node)
        if r is not NotImplemented:
            return r
        if isinstance(base, Ob) and isinstance(base.cls, ClassInfo):
            m = base.cls.find_method('__getitem__')
            if m is not None:
                return self.call_func(m, [base, idx], {}, node)
            if isinstance(idx, str) and idx in base.attrs:
                return base.attrs[idx]
        if isinstance(base, Cv) and isinstance(idx, str) and idx in base.cls.attrs and base.cls.external_bases():
            return self.getattr(base, idx, node)
        if isinstance(base, dict):
            for k2 in base:
                if key(k2) == key(idx):
                    return base[k2]
            if isinstance(base, DefDict) and base.factory is not None:
                base[freeze(idx)] = self.call(base.factory, [], {}, node)
                return base[freeze(idx)]
            if is_ident(idx) and all(is_ident(x) for x in base) and not base_is_open(base):
                raise RaiseSig('KeyError', self.loc(node))
            return Ex('idx', base, idx)
        if isinstance(base, (list, tuple)):
            if isinstance(idx, (int, slice)) and not isinstance(idx, bool):
                try:
                    if isinstance(idx, slice):
                        if all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
                            return base[idx]
                    else:
                        return base[idx]
                except IndexError:
                    raise RaiseSig('IndexError', self.loc(node))
            if isinstance(idx, tuple) and idx and isinstance(idx[0], int):
                v = self.getindex(base, idx[0], node)
                return self.getindex(v, idx[1] if len(idx) == 2 else tuple(idx[1:]), node)
            return Ex('idx', base, idx)
        if isinstance(base, str) and isinstance(idx, (int, slice)):
            try:
                return base[idx]
            except Exception:
                pass
        k = (key(base), ('[]', key(idx)))
        if k in self.overlay:
            return self.overlay[k]
        return Ex('idx', base, idx)

    def setindex(self, base, idx, value, node=None):
        r = self.policy.setindex(self, base, idx, value, node)
        if r is not NotImplemented:
            return
        self.event('setitem', 'setitem', [base, idx, value], node=node)
        if isinstance(base, Ob) and isinstance(base.cls, ClassInfo):
            m = base.cls.find_method('__setitem__')
            if m is not None:
                self.call_func(m, [base, idx, value], {}, node)
                return
            if isinstance(idx, str):
                base.attrs[idx] = value
                return
        if isinstance(base, dict):
            for k2 in list(base):
                if key(k2) == key(idx):
                    base[k2] = value
                    return
            try:
                base[freeze(idx)] = value
            except TypeError:
                base[repr(idx)] = value
            return
        if isinstance(base, list) and isinstance(idx, slice) and take(value if not isinstance(value, GenL) else list(value)) is not None \
                and all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
            try:
                base[idx] = take(value)
            except ValueError:
                raise RaiseSig('ValueError', self.loc(node))
            return
        if isinstance(base, list) and isinstance(idx, int):
            try:
                base[idx] = value
            except IndexError:
                raise RaiseSig('IndexError', self.loc(node))
            return
        self.overlay[(key(base), ('[]', key(idx)))] = value

    # -------------------------------------------------------------- calls
    def call(self, fn, args, kwargs, node=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError('abstract interpretation budget exceeded at %s' % self.loc(node))
        r = self.policy.call(self, fn, args, kwargs, node)
        if r is not NotImplemented:
            return r
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method':
            return self.native_method(fn[1], fn[2], args, kwargs, node)
        if isinstance(fn, (tuple, Ex)):
            r = self.rt_call(fn, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if isinstance(fn, Fv):
            if self.policy.inline(self, fn.func, fn.self_):
                a = ([fn.self_] if fn.self_ is not None else []) + list(args)
                return self.call_decorated(fn, a, kwargs, node)
            e = self.event('call', fn, args, kwargs, node)
            e.res = Ex('call', fn, tuple(args), tuple(sorted(kwargs.items())))
            return e.res
        if isinstance(fn, Cv):
            return self.instantiate(fn.cls, args, kwargs, node)
        if isinstance(fn, Ob) and isinstance(fn.cls, ClassInfo):
            m = fn.cls.find_method('__call__')
            if m is not None and self.policy.inline(self, m, fn):
                return self.call_func(m, [fn] + list(args), kwargs, node)
        if isinstance(fn, Ext):
            r = self.rt_builtin(fn, args, kwargs, node)
            if r is not NotImplemented:
                return r
            r = self.builtin(fn, args, kwargs, node)
            if r is not NotImplemented:
                return r
        e = self.event('call', fn, args, kwargs, node)
        e.res = Ex('call', fn, tuple(args), tuple(sorted(kwargs.items())))
        return e.res

    def call_decorated(self, fn, args, kwargs, node):
        """Apply the decorators that are functions of the package (or closures), innermost first."""
        func = fn.func
        ds = getattr(func.node, 'decorator_list', None)
        if ds and not getattr(func, 'undecorated', False):
            fr = Frame(None, fn.env or Env(), func.module, func.cls, None)
            fr.node = func.node
            for d in ds:
                nm = deco(d)
                last = nm.split('.')[-1]
                if last in ('contextmanager',):
                    return ('contextmanager', Fv(func, None, fn.env), list(args), dict(kwargs))
                if last in ('lru_cache', 'cache'):
                    k = (id(func.node), key(list(args)), key(dict(kwargs)))
                    if k not in self.memo:
                        self.memo[k] = self.call_func(func, args, kwargs, node, env=fn.env)
                    return self.memo[k]
            if any(self.is_own_decorator(d, func, fn.env) for d in ds):
                k = ('deco', id(func.node), id(fn.env))
                if k not in self.memo:
                    raw = FuncInfo(func.node, func.module, func.cls)
                    raw.undecorated = True
                    v = Fv(raw, None, fn.env)
                    self.frames.append(fr)
                    try:
                        for d in reversed(ds):
                            if self.is_own_decorator(d, func, fn.env):
                                v = self.call(self.ev(d), [v], {}, node)
                    finally:
                        self.frames.pop()
                    self.memo[k] = v
                v = self.memo[k]
                if not (isinstance(v, Fv) and v.func.node is func.node):
                    return self.call(v, args, kwargs, node)
        return self.call_func(func, args, kwargs, node, env=fn.env)

    def is_own_decorator(self, d, func, env):
        nm = deco(d)
        if nm.split('.')[0] in self.policy.skip_decorators or nm.split('.')[-1] in self.policy.skip_decorators:
            return False
        if '.' not in nm and env is not None and env.has(nm):
            return isinstance(env.get(nm), Fv)
        r = self.repo.resolve_expr(func.module, d.func if isinstance(d, ast.Call) else d)
        return isinstance(r, FuncInfo)

    def instantiate(self, cls, args, kwargs, node=None):
        r = self.policy.instantiate(self, cls, args, kwargs, node)
        if r is not NotImplemented:
            return r
        ext = [b.split('.')[-1] for b in cls.external_bases()]
        if 'NamedTuple' in ext:
            f, dflt = self.fields(cls)
            return self.ntup(cls.name, f, args, kwargs, dflt, node)
        if any(b in ('Enum', 'IntEnum', 'StrEnum') for b in ext) and len(args) == 1:
            for nm in cls.attrs:
                o = self.getattr(Cv(cls), nm)
                if self.same(o.attrs['value'] if isinstance(o, Ob) else o, args[0]):
                    return o
            raise RaiseSig('ValueError', self.loc(node))
        if cls.find_method('__init__') is None and any(deco(d).split('.')[-1] == 'dataclass' for d in cls.node.decorator_list):
            f, dflt = self.fields(cls)
            t = self.ntup(cls.name, f, args, kwargs, dflt, node)
            o = Ob(cls, self.new_id())
            o.meta['dataclass'] = list(f)
            for a, v in zip(f, t):
                o.attrs[a] = v
            self.event('new', cls.name, [o] + list(args), kwargs, node)
            m = cls.find_method('__post_init__')
            if m is not None:
                self.call_func(m, [o], {}, node)
            return o
        o = Ob(cls, self.new_id())
        if any(b in ('dict', 'OrderedDict') for b in cls.external_bases()):
            o.meta['dictlike'] = True
        self.event('new', cls.name, [o] + list(args), kwargs, node)
        m = cls.find_method('__init__')
        if m is not None:
            self.call_func(m, [o] + list(args), kwargs, node)
        return o

    def fields(self, cls):
        """Annotated fields and defaults of a dataclass or NamedTuple."""
        names, dflt = [], {}
        for c in reversed(cls.mro()):
            if not isinstance(c, ClassInfo):
                continue
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    n = st.target.id
                    if n not in names:
                        names.append(n)
                    if st.value is not None:
                        v = st.value
                        if isinstance(v, ast.Call) and deco(v.func).split('.')[-1] == 'field':
                            kw = {k.arg: k.value for k in v.keywords}
                            fr = Frame(None, Env(), c.module, c, None)
                            fr.node = v
                            self.frames.append(fr)
                            try:
                                if 'default' in kw:
                                    dflt[n] = self.ev(kw['default'])
                                elif 'default_factory' in kw:
                                    dflt[n] = self.call(self.ev(kw['default_factory']), [], {}, v)
                            finally:
                                self.frames.pop()
                        else:
                            dflt[n] = self.class_attr((c, v), n)
        return tuple(names), dflt

    def bind(self, func, args, kwargs, node, env):
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        for i, n in enumerate(names):
            if i < len(args):
                vals[n] = args[i]
        rest = args[len(names):]
        if a.vararg:
            vals[a.vararg.arg] = tuple(rest)
        elif rest:
            raise RaiseSig('TypeError', self.loc(node))
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            vals[a.kwarg.arg] = extra
        elif extra:
            self.event('badkw', func.qualname, [func], extra, node)
            raise RaiseSig('TypeError', self.loc(node))
        ndef = len(a.defaults)
        for n, d in zip(names[len(names) - ndef:], a.defaults):
            if n not in vals:
                vals[n] = self.default_value(d, func, env)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in vals and d is not None:
                vals[n] = self.default_value(d, func, env)
        for n in names + kwonly:
            if n not in vals:
                raise RaiseSig('TypeError', self.loc(node))
        return vals

    def default_value(self, d, func, env):
        # defaults are evaluated once: where a nested function is defined, else when the module is loaded
        dv = getattr(func, 'default_vals', None)
        if dv is not None:
            return dv[id(d)]
        if not isinstance(d, ast.Constant) and env is None:
            if id(d) not in self.defaults:
                self.defaults[id(d)] = self.default_value1(d, func, env)
            return self.defaults[id(d)]
        return self.default_value1(d, func, env)

    def default_value1(self, d, func, env):
        fr = Frame(None, env or Env(), func.module, func.cls, None)
        fr.node = d
        self.frames.append(fr)
        n = len(self.events)
        try:
            v = self.ev(d)
        finally:
            self.frames.pop()
        del self.events[n:]
        return v

    def call_func(self, func, args, kwargs, node=None, env=None, hook=None):
        if len(self.frames) > self.policy.max_depth:
            raise AnalysisError('inlining too deep at %s' % self.loc(node))
        vals = self.bind(func, args, kwargs, node, env)
        e = Env(env)
        e.vars.update(vals)
        fr = Frame(func, e, func.module, func.cls, args[0] if args else None)
        if func.cls is None and env is not None and self.frames:
            # closure: super()/self of the enclosing method
            fr.cls = self.frames[-1].cls
        fr.node = func.node
        self.frames.append(fr)
        self.event('enter', func.qualname, args, kwargs, node)
        isgen = is_generator(func.node)
        if isgen:
            fr.yields = GenL()
            fr.hook = hook
        loops = self.loops
        try:
            if isinstance(func.node, ast.Lambda):
                return self.ev(func.node.body)
            try:
                self.block(func.node.body)
                ret = None
            except ReturnSig as r:
                ret = r.value
            if isgen:
                return fr.yields
            return ret
        finally:
            self.loops = loops
            self.frames.pop()
            self.event('exit', func.qualname)

    # ------------------------------------------------------- native values
    def native_method(self, base, name, args, kwargs, node):
        self.event('call', name, [base] + list(args), kwargs, node, extra='native')
        r = self.rt_method(base, name, args, kwargs, node)
        if r is not NotImplemented:
            return r
        if isinstance(base, list):
            if name == 'append':
                base.append(args[0])
                return None
            if name == 'extend':
                if isinstance(args[0], (list, tuple)):
                    base.extend(args[0])
                else:
                    base.append(Ex('elem', args[0]))
                return None
            if name == 'insert' and isinstance(args[0], int):
                base.insert(args[0], args[1])
                return None
            if name == 'pop':
                try:
                    return base.pop(*[a for a in args if isinstance(a, int)])
                except IndexError:
                    raise RaiseSig('IndexError', self.loc(node))
            if name == 'copy':
                return list(base)
            if name in ('all', 'any') and is_conc(base):
                return all(flat(base)) if name == 'all' else any(flat(base))
            if name == 'index':
                for i, x in enumerate(base):
                    if key(x) == key(args[0]):
                        return i
            if name == 'remove':
                for i, x in enumerate(base):
                    if key(x) == key(args[0]):
                        del base[i]
                        return None
                return None
            if name == 'ravel' or name == 'flatten':
                return flat(base)
        if isinstance(base, tuple) and name == 'index':
            for i, x in enumerate(base):
                if key(x) == key(args[0]):
                    return i
        if isinstance(base, dict):
            if name == 'get':
                for k2 in base:
                    if key(k2) == key(args[0]):
                        return base[k2]
                if (is_ident(args[0]) and all(is_ident(x) for x in base)) and not base_is_open(base) or not base:
                    return args[1] if len(args) > 1 else kwargs.get('default')
                return Ex('dget', base, args[0], args[1] if len(args) > 1 else None)
            if name == 'items':
                return KeysL(tuple(x) for x in base.items())
            if name == 'keys':
                return KeysL(base.keys())
            if name == 'values':
                return list(base.values())
            if name == 'copy':
                return dict(base)
            if name == 'update':
                for a in args:
                    if isinstance(a, dict):
                        for x, y in a.items():
                            self.setindex(base, x, y, node)
                for x, y in kwargs.items():
                    self.setindex(base, x, y, node)
                return None
            if name == 'setdefault':
                for k2 in base:
                    if key(k2) == key(args[0]):
                        return base[k2]
                self.setindex(base, args[0], args[1] if len(args) > 1 else None, node)
                return args[1] if len(args) > 1 else None
            if name == 'pop':
                for k2 in list(base):
                    if key(k2) == key(args[0]):
                        return base.pop(k2)
                if len(args) > 1:
                    return args[1]
                raise RaiseSig('KeyError', self.loc(node))
        if isinstance(base, str):
            if name == 'format':
                if is_conc(list(args)) and is_conc(list(kwargs.values())):
                    try:
                        return base.format(*[float(a) if isinstance(a, Fraction) else a for a in args], **kwargs)
                    except Exception:
                        pass
                return Ex('format', base, tuple(args), tuple(sorted(kwargs.items())))
            if name == 'join':
                if isinstance(args[0], (list, tuple)) and all(isinstance(x, str) for x in args[0]):
                    return base.join(args[0])
                return Ex('join', base, args[0])
            if is_conc(list(args)):
                try:
                    r = getattr(base, name)(*args, **kwargs)
                    return list(r) if isinstance(r, list) else r
                except RaiseSig:
                    raise
                except Exception:
                    return Ex('strcall', base, name, tuple(args))
        if isinstance(base, (set, frozenset)):
            if name == 'add':
                base.add(freeze(args[0]))
                return None
        self.rt_unhandled(base, name, node)
        return Ex('call', Ex('attr', base, name), tuple(args), tuple(sorted(kwargs.items())))

    def builtin(self, fn, args, kwargs, node):
        n = fn.name
        if n == 'super':
            fr = self.frames[-1]
            if len(args) == 2:
                after = args[0].cls if isinstance(args[0], Cv) else fr.cls
                return SuperV(after, args[1])
            return SuperV(fr.cls, fr.self_)
        if n == 'range' and all(isinstance(a, int) for a in args):
            return list(range(*args))
        if n == 'len' and isinstance(args[0], (list, tuple, dict, str, set)):
            return len(args[0])
        if n == 'enumerate' and isinstance(args[0], (list, tuple)):
            st = args[1] if len(args) > 1 else kwargs.get('start', 0)
            if isinstance(st, int):
                return [(i + st, x) for i, x in enumerate(args[0])]
        if n == 'zip' and all(isinstance(a, (list, tuple)) for a in args):
            return [tuple(x) for x in zip(*args)]
        if n == 'reversed' and isinstance(args[0], (list, tuple)):
            return list(reversed(args[0]))
        if n in ('list', 'tuple', 'iter'):
            if not args:
                return [] if n != 'tuple' else ()
            if isinstance(args[0], (list, tuple)):
                return list(args[0]) if n != 'tuple' else tuple(args[0])
            if isinstance(args[0], dict):
                return list(args[0].keys())
            if isinstance(args[0], (set, frozenset)):
                return sorted(args[0], key=repr)
        if n in ('dict', 'OrderedDict', 'collections.OrderedDict'):
            d = {}
            if args:
                if isinstance(args[0], dict):
                    d.update(args[0])
                elif isinstance(args[0], (list, tuple)):
                    for p in args[0]:
                        if isinstance(p, (list, tuple)) and len(p) == 2:
                            d[freeze(p[0])] = p[1]
                else:
                    return NotImplemented
            d.update(kwargs)
            return d
        if n in ('set', 'frozenset'):
            if not args:
                return set()
            if isinstance(args[0], (list, tuple, set, frozenset, dict)):
                try:
                    return set(freeze(x) for x in args[0])
                except TypeError:
                    return NotImplemented
        if n == 'sorted' and isinstance(args[0], (list, tuple)) and not kwargs and len(args) == 1 and all(
                isinstance(x, tuple) and x and isinstance(x[0], (str, int)) for x in args[0]) and len({x[0] for x in args[0]}) == len(args[0]):
            return sorted(args[0], key=lambda x: x[0])
        if n == 'sorted' and isinstance(args[0], (list, tuple, set, frozenset, dict)) and is_conc(list(args[0])) and not kwargs:
            try:
                return sorted(args[0])
            except TypeError:
                pass
        if n == 'sum' and isinstance(args[0], (list, tuple)):
            s = args[1] if len(args) > 1 else 0
            for x in args[0]:
                s = self.binop('+', s, x, node)
            return s
        if n in ('max', 'min') and args and all(is_num(a) for a in args) and len(args) > 1:
            return max(args) if n == 'max' else min(args)
        if n in ('max', 'min') and len(args) == 1 and isinstance(args[0], (list, tuple)) \
                and args[0] and all(is_num(a) for a in args[0]):
            return max(args[0]) if n == 'max' else min(args[0])
        if n in ('all', 'any') and isinstance(args[0], (list, tuple)):
            r = n == 'all'
            for x in args[0]:
                t = self.truth(x)
                if n == 'all' and not t:
                    return False
                if n == 'any' and t:
                    return True
            return r
        if n in ('float', 'int', 'bool', 'str', 'abs') and len(args) == 1:
            a = args[0]
            if n == 'bool':
                return self.truth(a)
            if is_num(a) or isinstance(a, bool):
                if n == 'float':
                    return a
                if n == 'int':
                    return int(a)
                if n == 'abs':
                    return abs(a)
                return str(a)
            if isinstance(a, str) and n == 'str':
                return a
        if n == 'isinstance':
            return self.isinstance(args[0], args[1])
        if n == 'issubclass' and isinstance(args[0], Cv):
            ts = args[1] if isinstance(args[1], (tuple, list)) else (args[1],)
            return any(isinstance(t, Cv) and t.cls in args[0].cls.mro() for t in ts)
        if n == 'hasattr':
            o, a = args
            if isinstance(o, Ob) and isinstance(a, str):
                if a in o.attrs:
                    return True
                if isinstance(o.cls, ClassInfo):
                    if o.cls.find_method(a) or o.cls.find_attr(a):
                        return True
                    if not [b for b in o.cls.external_bases() if b not in ('object', 'ABC')]:
                        return False
            if isinstance(o, Ex) or isinstance(o, Sy):
                if (key(o), a) in self.overlay:
                    return True
            return Ex('hasattr', o, a)
        if n == 'getattr':
            if isinstance(args[1], str):
                if len(args) > 2 and isinstance(args[0], Ob):
                    o = args[0]
                    if args[1] not in o.attrs and isinstance(o.cls, ClassInfo) and not (
                            o.cls.find_method(args[1]) or o.cls.find_attr(args[1])):
                        if not [b for b in o.cls.external_bases() if b not in ('object', 'ABC')]:
                            return args[2]
                return self.getattr(args[0], args[1], node)
            return Ex('getattr', *args)
        if n == 'setattr' and isinstance(args[1], str):
            self.setattr(args[0], args[1], args[2], node)
            return None
        if n == 'type' and len(args) == 1:
            if isinstance(args[0], Ob) and isinstance(args[0].cls, ClassInfo):
                return Cv(args[0].cls)
            return Ex('type', args[0])
        if n == 'id':
            return Ex('id', args[0])
        if n in ('numpy.array', 'numpy.asarray', 'np.array', 'np.asarray') and args and isinstance(args[0], (list, tuple)):
            return [list(x) if isinstance(x, (list, tuple)) else x for x in args[0]]
        if fn.short in ('deepcopy', 'copy') and fn.name.startswith('copy'):
            return copyval(args[0])
        if n in ('operator.itemgetter',):
            return Ex('call', fn, tuple(args), ())
        return NotImplemented

    def isinstance(self, v, t):
        if isinstance(t, (tuple, list)):
            unknown = []
            for x in t:
                r = self.isinstance(v, x)
                if r is True:
                    return True
                if r is not False:
                    unknown.append(r)
            if not unknown:
                return False
            # partition on each unknown member
            for u in unknown:
                if self.truth(u):
                    return True
            return False
        tn = t.cls.name if isinstance(t, Cv) else (t.short if isinstance(t, Ext) else None)
        if tn is None:
            return Ex('isinstance', v, t)
        if isinstance(v, Ob):
            if isinstance(v.cls, ClassInfo):
                if isinstance(t, Cv):
                    return t.cls in v.cls.mro()
                if any(b.split('.')[-1] == tn for b in v.cls.external_bases()):
                    return True
                return False if not v.cls.external_bases() else tn in ()
            if v.meta.get('isa'):
                return tn in v.meta['isa']
            return v.cls.split('.')[-1] == tn
        py = {'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'int': int, 'float': (float, Fraction), 'bool': bool,
              'set': (set, frozenset), 'Number': (int, float, Fraction)}
        if is_conc(v) or isinstance(v, (list, tuple, dict, set)):
            if tn in py:
                return isinstance(v, py[tn])
            return False
        if isinstance(v, (Fv, Cv, Mv)):
            return False
        return Ex('isinstance', v, t)

    # ---------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, 'ev_' + n.__class__.__name__, None)
        if m is None:
            raise AnalysisError('unsupported expression %s at %s' % (n.__class__.__name__, self.loc(n)))
        return m(n)

    def ev_Constant(self, n):
        if n.value is Ellipsis:
            return Ext('Ellipsis')
        return n.value

    def ev_Name(self, n):
        return self.lookup_name(n.id, n)

    def ev_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr, n)

    def ev_Subscript(self, n):
        return self.getindex(self.ev(n.value), self.ev(n.slice), n)

    def ev_Index(self, n):
        return self.ev(n.value)

    def ev_Slice(self, n):
        return slice(self.ev(n.lower) if n.lower else None, self.ev(n.upper) if n.upper else None,
                     self.ev(n.step) if n.step else None)

    def ev_Tuple(self, n):
        return tuple(self.ev_elts(n.elts))

    def ev_List(self, n):
        return list(self.ev_elts(n.elts))

    def ev_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                i = self.items_of(v, e)
                if i is not None:
                    out.extend(i)
                else:
                    out.append(Ex('star', v))
            else:
                out.append(self.ev(e))
        return out

    def ev_Set(self, n):
        return set(freeze(x) for x in self.ev_elts(n.elts))

    def ev_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                vv = self.ev(v)
                if isinstance(vv, dict):
                    d.update(vv)
                else:
                    d[Ex('dstar', vv)] = vv
            else:
                d[freeze(self.ev(k))] = self.ev(v)
        return d

    def ev_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(_BIN[type(n.op)], a, b, n)

    def ev_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            if isinstance(v, (Sy, Ex)):
                return Ex('not', v) if not (isinstance(v, Ex) and v.op == 'not') else v.args[0]
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (list, tuple)):
                return [self.neg(x) for x in v]
            return self.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(v, Ob) and hasattr(self.policy, 'invert'):
            return self.policy.invert(self, v)
        if isinstance(v, int):
            return ~v
        return Ex('~', v)

    def ev_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for e in n.values:
            v = self.ev(e)
            if e is n.values[-1] and isinstance(v, Ob):
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (Sy, Ex)) else False
            if not isand and t:
                if isinstance(v, Ex) and v.op in ('is', '==', '<', 'in', 'not', 'isinstance', 'hasattr'):
                    return True
                return v
        if isinstance(v, Ex) and v.op in ('is', '==', '<', 'in', 'not', 'isinstance', 'hasattr'):
            return isand
        return v

    def ev_Compare(self, n):
        left = self.ev(n.left)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c)
            r = self.compare(_CMP[type(op)], left, right)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def ev_IfExp(self, n):
        return self.ev(n.body) if self.truth(self.ev(n.test)) else self.ev(n.orelse)

    def ev_Lambda(self, n):
        fi = FuncInfo(n, self.frames[-1].module, None)
        self.eval_defaults(fi, n)
        return Fv(fi, None, self.frames[-1].env)

    def eval_defaults(self, fi, n):
        ds = list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]
        if ds:
            fi.default_vals = {id(d): self.ev(d) for d in ds}

    def ev_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value)
                spec = ''
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec)
                if p.conversion == ord('r') and isinstance(v, str):
                    v = repr(v)
                if is_conc(v) and not isinstance(v, (list, tuple, dict)) and isinstance(spec, str):
                    try:
                        parts.append(format(float(v) if isinstance(v, Fraction) else v, spec))
                        continue
                    except Exception:
                        pass
                parts.append(v)
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Ex('fstr', *parts)

    def ev_FormattedValue(self, n):
        return self.ev(n.value)

    def ev_Starred(self, n):
        return Ex('star', self.ev(n.value))

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        e = self.frames[-1].env
        while e.comp:
            e = e.parent
        e.vars[n.target.id] = v
        return v

    def ev_Yield(self, n):
        v = self.ev(n.value) if n.value else None
        self.event('yield', 'yield', [v], node=n)
        fr = self.frames[-1]
        if fr.hook is not None:
            fr.hook(v)
        elif fr.yields is not None:
            fr.yields.append(v)
        return None

    def ev_YieldFrom(self, n):
        v = self.ev(n.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            i = self.items_of(v, n)
            if i is not None:
                fr.yields.extend(i)
            else:
                fr.yields.append(Ex('elem', v))
        self.event('yield', 'yield', [v], node=n)
        return None

    def ev_Call(self, n):
        fn = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                i = self.items_of(v, a)
                if i is not None:
                    args.extend(i)
                else:
                    args.append(Ex('star', v))
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        kwargs[kk if isinstance(kk, str) else repr(kk)] = vv
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, n)

    def comp(self, gens, body):
        out = []

        def rec(i):
            if i == len(gens):
                out.append(body())
                return
            g = gens[i]
            seq = self.ev(g.iter)
            items, generic = self.iter_items(seq, g.iter)
            for x in items:
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c)):
                        ok = False
                        break
                if ok:
                    rec(i + 1)
        outer = self.frames[-1].env
        self.frames[-1].env = Env(outer, True)
        try:
            rec(0)
        finally:
            self.frames[-1].env = outer
        return out

    def ev_ListComp(self, n):
        return self.comp(n.generators, lambda: self.ev(n.elt))

    def ev_GeneratorExp(self, n):
        return GenL(self.comp(n.generators, lambda: self.ev(n.elt)))

    def ev_SetComp(self, n):
        return set(freeze(x) for x in self.comp(n.generators, lambda: self.ev(n.elt)))

    def ev_DictComp(self, n):
        d = {}
        for k, v in self.comp(n.generators, lambda: (self.ev(n.key), self.ev(n.value))):
            d[freeze(k)] = v
        return d

    def iter_items(self, seq, node):
        r = self.policy.iterate(self, seq, node)
        if r is not None:
            return r, False
        if isinstance(seq, GenL):
            return take(seq), False
        if isinstance(seq, Ob) and isinstance(seq.cls, ClassInfo) and seq.cls.find_method('__iter__'):
            i = self.items_of(seq, node)
            if i is not None:
                return i, False
        if isinstance(seq, Cv) and any(b.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum') for b in seq.cls.external_bases()):
            return [self.getattr(seq, nm) for nm in seq.cls.attrs if not nm.startswith('_')], False
        if type(seq) is list:
            return seq, False            # the loop sees changes made by its body
        if isinstance(seq, (list, tuple)):
            return list(seq), False
        if isinstance(seq, dict):
            return list(seq.keys()), False
        if isinstance(seq, (set, frozenset)):
            return sorted(seq, key=repr), False
        if isinstance(seq, str):
            return list(seq), False
        if isinstance(seq, Ob) and seq.meta.get('dictlike'):
            return list(seq.attrs.keys()), False
        if self.policy.loop_mode == 'fork' and self.choose(2, Ex('loop', seq)) == 1:
            return [], True
        it = Ex('elem', seq)
        c = call_parts(seq)
        if c and callee_name(c[0]) == 'items' and isinstance(seq.args[0], Ex):
            b = c[0].args[0]
            it = (Ex('keyof', b), Ex('valof', b))
        elif c and callee_name(c[0]) == 'enumerate':
            it = (Ex('elemidx', c[1][0]), Ex('elem', c[1][0]))
        elif c and callee_name(c[0]) == 'zip':
            it = tuple(Ex('elem', x) if not isinstance(x, (list, tuple)) else Ex('elem', Ex('lst', tuple(x))) for x in c[1])
        return [it], True

    # ----------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            self.st(st)

    def st(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError('abstract interpretation budget exceeded at %s' % self.loc(n))
        self.frames[-1].node = n
        m = getattr(self, 'st_' + n.__class__.__name__, None)
        if m is None:
            raise AnalysisError('unsupported statement %s at %s' % (n.__class__.__name__, self.loc(n)))
        return m(n)

    def st_Expr(self, n):
        self.ev(n.value)

    def st_Pass(self, n):
        pass

    def st_Global(self, n):
        self.frames[-1].globals_.update(n.names)

    def st_Nonlocal(self, n):
        self.frames[-1].nonlocals.update(n.names)

    def st_Import(self, n):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else nm
            v = Mv(self.repo.modules[full]) if full in self.repo.modules else Ext(full)
            self.frames[-1].env.vars[nm] = v

    def st_ImportFrom(self, n):
        mod = self.frames[-1].module._absmod(n)
        for a in n.names:
            if a.name == '*':
                continue
            v = None
            if mod in self.repo.modules:
                r = self.repo.lookup(self.repo.modules[mod], a.name)
                if r is not None:
                    v = self.wrap_lookup(r, a.name, self.repo.modules[mod])
            elif (mod + '.' + a.name) in self.repo.modules:
                v = Mv(self.repo.modules[mod + '.' + a.name])
            if v is None:
                v = Ext((mod or '') + '.' + a.name)
            self.frames[-1].env.vars[a.asname or a.name] = v

    def st_FunctionDef(self, n):
        fi = FuncInfo(n, self.frames[-1].module, None)
        self.eval_defaults(fi, n)
        self.frames[-1].env.vars[n.name] = Fv(fi, None, self.frames[-1].env)

    def st_ClassDef(self, n):
        self.frames[-1].env.vars[n.name] = Cv(ClassInfo(n, self.frames[-1].module))

    def st_Return(self, n):
        raise ReturnSig(self.ev(n.value) if n.value else None)

    def st_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def st_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.nonlocals:
                e = fr.env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        return
                    e = e.parent
            if t.id in fr.globals_:
                self.event('setglobal', t.id, [v], node=t)
                self.modcache[(fr.module.name, t.id)] = v
                self.globalvars[(fr.module.name, t.id)] = v
                return
            fr.env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setindex(self.ev(t.value), self.ev(t.slice), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            i = take(v) if not isinstance(v, (tuple, list)) or isinstance(v, GenL) else None
            if i is None and isinstance(v, Ob) and isinstance(v.cls, ClassInfo) and v.cls.find_method('__iter__'):
                i = self.items_of(v, t)
            if i is not None:
                v = i
            if isinstance(v, (tuple, list)):
                st = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if st and len(v) >= n - 1:
                    a, b = st[0], len(v) - (n - 1 - st[0])
                    for e, x in zip(t.elts[:a], v[:a]):
                        self.assign(e, x)
                    self.assign(t.elts[a].value, list(v[a:b]))
                    for e, x in zip(t.elts[a + 1:], v[b:]):
                        self.assign(e, x)
                    return
                if len(v) != n and not any(isinstance(x, Ex) and x.op == 'star' for x in v):
                    raise RaiseSig('ValueError', self.loc(t))
            if isinstance(v, (tuple, list)) and len(v) == n and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v):
                    self.assign(e, x)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, Ex('rest', v, i))
                    else:
                        self.assign(e, self.getindex(v, i) if not isinstance(v, (tuple, list)) else Ex('idx', v, i))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError('assign target %s' % t.__class__.__name__)

    def st_AugAssign(self, n):
        op = _BIN[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup_name(t.id, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            old = self.getattr(base, t.attr, t)
        else:
            base = self.ev(t.value)
            idx = self.ev(t.slice)
            old = self.getindex(base, idx, t)
        v = self.ev(n.value)
        r = self.policy.iop(self, op, old, v, n)
        if r is NotImplemented:
            if isinstance(old, list) and op == '+' and self.items_of(list(v) if isinstance(v, GenL) else v, n) is not None:
                old.extend(self.items_of(v, n))
                r = old
            elif isinstance(old, Ob) and isinstance(old.cls, ClassInfo) and op in self.DUNDER and old.cls.find_method('__i%s__' % self.DUNDER[op]):
                r = self.call_func(old.cls.find_method('__i%s__' % self.DUNDER[op]), [old, v], {}, n)
            elif isinstance(old, set) and isinstance(v, (set, frozenset)) and op in ('-', '&', '^'):
                x = {'-': old - v, '&': old & v, '^': old ^ v}[op]
                old.clear()
                old.update(x)
                r = old
            elif isinstance(old, (dict, set)) and op == '|' and isinstance(v, (dict, set)):
                old.update(v)
                r = old
            else:
                r = self.binop(op, old, v, n)
                if isinstance(old, (Ob,)) or (isinstance(old, (Ex, Sy)) and not isinstance(t, ast.Name)):
                    self.event('iop', op, [old, v], node=n)
        if isinstance(t, ast.Name):
            self.assign(t, r)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, r, t)
        else:
            self.setindex(base, idx, r, t)

    def st_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                if isinstance(b, Ob):
                    if t.attr not in b.attrs and isinstance(b.cls, ClassInfo) and not b.cls.external_bases() and not b.meta:
                        raise RaiseSig('AttributeError', self.loc(n))
                    b.attrs.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.ev(t.slice)
                if isinstance(b, dict):
                    ks = [k2 for k2 in b if key(k2) == key(i)]
                    if not ks and is_conc(i) and is_conc(list(b)) and not base_is_open(b):
                        raise RaiseSig('KeyError', self.loc(n))
                    for k2 in ks:
                        del b[k2]
                elif isinstance(b, list) and (isinstance(i, int) or isinstance(i, slice) and is_conc([i.start, i.stop, i.step])):
                    try:
                        del b[i]
                    except IndexError:
                        raise RaiseSig('IndexError', self.loc(n))
                elif isinstance(b, list):
                    raise AnalysisError('deletion of an unknown item at %s' % self.loc(n))
                elif isinstance(b, Ob) and isinstance(b.cls, ClassInfo) and b.cls.find_method('__delitem__'):
                    self.call_func(b.cls.find_method('__delitem__'), [b, i], {}, n)
                elif isinstance(b, Ob) and isinstance(i, str):
                    b.attrs.pop(i, None)

    def st_Assert(self, n):
        v = self.ev(n.test)
        self.event('assert', 'assert', [v], node=n)
        if isinstance(v, (Sy, Ex)):
            # continue on the passing trace only
            if isinstance(v, Ex) and v.op == 'not':
                x = v.args[0]
                if self.facts.get(key(x)) is True:
                    raise RaiseSig('AssertionError', self.loc(n))
                self.facts[key(x)] = False
            else:
                if self.facts.get(key(v)) is False:
                    raise RaiseSig('AssertionError', self.loc(n))
                self.facts[key(v)] = True
        elif not self.truth(v):
            raise RaiseSig('AssertionError', self.loc(n))

    def st_If(self, n):
        if self.truth(self.ev(n.test)):
            self.block(n.body)
        else:
            self.block(n.orelse)

    def st_For(self, n):
        seq = self.ev(n.iter)
        items, generic = self.iter_items(seq, n.iter)
        saved = self.loops
        lid = ('for', n.lineno, key(seq) if generic else None)
        broke = False
        try:
            for i, x in enumerate(items):
                self.loops = saved + ((lid, i),) if generic else saved
                self.assign(n.target, x)
                try:
                    self.block(n.body)
                except ContinueSig:
                    continue
                except BreakSig:
                    broke = True
                    break
        finally:
            self.loops = saved
        if not broke:
            self.block(n.orelse)

    def st_While(self, n):
        saved = self.loops
        cnt = 0
        broke = False
        try:
            while True:
                self.loops = saved + ((('while', n.lineno), cnt),)
                c = self.ev(n.test)
                if isinstance(c, (Sy, Ex)):
                    self.event('whiletest', 'while', [c], node=n, extra=cnt)
                    if cnt >= self.policy.while_bound:
                        break
                    if self.policy.loop_mode == 'fork' and cnt == 0:
                        if not self.truth(c):
                            break
                    # a loop condition is re-evaluated: do not reuse facts
                    self.facts.pop(key(c), None)
                elif not self.truth(c):
                    break
                elif self.policy.forever_bound and c is True and cnt >= self.policy.forever_bound:
                    raise StopPath()
                elif cnt >= 3000:
                    raise AnalysisError('loop bound exceeded at %s' % self.loc(n))
                cnt += 1
                try:
                    self.block(n.body)
                except ContinueSig:
                    continue
                except BreakSig:
                    broke = True
                    break
                self.event('whileend', 'while', [], node=n, extra=cnt)
        finally:
            self.loops = saved
        if not broke:
            self.block(n.orelse)

    def st_Break(self, n):
        raise BreakSig()

    def st_Continue(self, n):
        raise ContinueSig()

    def st_Raise(self, n):
        nm = 'Exception'
        if n.exc is None:
            if self.handling:
                nm = self.handling[-1]
        else:
            e = n.exc
            if isinstance(e, ast.Call):
                nm = deco(e.func)
                for a in e.args:
                    try:
                        self.ev(a)
                    except AnalysisError:
                        pass
                if '.' not in nm and self.frames[-1].env.has(nm):
                    nm = self.exc_name(self.frames[-1].env.get(nm)) or nm
            else:
                nm = deco(e)
                if '.' not in nm and self.frames[-1].env.has(nm):
                    nm = self.exc_name(self.frames[-1].env.get(nm)) or nm
        self.event('raise', nm, [], node=n)
        raise RaiseSig(nm, self.loc(n))

    @staticmethod
    def exc_name(v):
        if isinstance(v, Sy) and v.name.startswith('exc:'):
            return v.name[4:]
        if isinstance(v, Ex) and v.op == 'call':
            return callee_name(v.args[0])
        if isinstance(v, Ob):
            return v.clsname
        if isinstance(v, (Cv, Ext)):
            return callee_name(v)
        return None

    def st_Try(self, n):
        try:
            try:
                self.event('try', 'try', [], node=n)
                self.block(n.body)
                self.event('tryend', 'tryend', [], node=n)
            except RaiseSig as r:
                for h in n.handlers:
                    if self.handler_matches(h, r.exc):
                        if h.name:
                            self.frames[-1].env.vars[h.name] = Sy('exc:' + r.exc)
                        self.event('except', r.exc, [], node=h)
                        self.handling.append(r.exc)
                        try:
                            self.block(h.body)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.block(n.orelse)
        finally:
            self.block(n.finalbody)

    st_TryStar = st_Try

    def exc_classes(self, exc):
        """Names of an exception class and its bases."""
        last = exc.split('.')[-1]
        r = self.repo.lookup(self.frames[-1].module, last) if self.frames else None
        if isinstance(r, ClassInfo):
            out = []
            for c in r.mro():
                if isinstance(c, ClassInfo):
                    out.append(c.name)
                else:
                    out += exc_parents(c) or [c.split('.')[-1], 'Exception', 'BaseException']
            return out
        return exc_parents(exc) or [last, 'Exception', 'BaseException']

    def handler_matches(self, h, exc):
        if h.type is None:
            return True
        names = []
        for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            nm = deco(x).split('.')[-1]
            v = None
            if isinstance(x, ast.Name) and (self.frames[-1].env.has(x.id) or exc_parents(x.id) is None):
                v = self.ev(x)
            for y in v if isinstance(v, (tuple, list)) else [v]:
                names.append(callee_name(y) if isinstance(y, (Cv, Ext)) else nm)
        if any(x in ('IOError', 'EnvironmentError') for x in names):
            names.append('OSError')
        return bool(set(names) & set(self.exc_classes(exc)))

    def st_With(self, n):
        self.with_items(n, list(n.items))

    def with_items(self, n, items):
        if not items:
            self.block(n.body)
            return
        i, rest = items[0], items[1:]
        v = self.ev(i.context_expr)
        self.event('with', 'with', [v], node=n)
        if isinstance(v, tuple) and v and v[0] == 'contextmanager':
            # the block runs at the yield of the generator
            outer = list(self.frames)
            loops = self.loops
            pend = []

            def hook(val):
                inner = self.frames
                il = self.loops
                self.frames, self.loops = outer, loops
                try:
                    if i.optional_vars is not None:
                        self.assign(i.optional_vars, val)
                    self.with_items(n, rest)
                except (ReturnSig, BreakSig, ContinueSig) as e:
                    pend.append(e)
                finally:
                    self.frames, self.loops = inner, il
            f = v[1]
            self.call_func(f.func, v[2], v[3], n, env=f.env, hook=hook)
            if pend:
                raise pend[0]
            self.event('withend', 'with', [], node=n)
            return
        own = isinstance(v, Ob) and isinstance(v.cls, ClassInfo)
        val = v
        if own and v.cls.find_method('__enter__'):
            val = self.call_func(v.cls.find_method('__enter__'), [v], {}, n)
        if i.optional_vars is not None:
            self.assign(i.optional_vars, val)
        exc = None
        try:
            try:
                self.with_items(n, rest)
            except RaiseSig as e:
                exc = e
                if not (own and v.cls.find_method('__exit__')):
                    nm = callee_name(v.args[0]) if isinstance(v, Ex) and v.op == 'call' else None
                    if nm == 'suppress' and any(callee_name(x) in self.exc_classes(e.exc) for x in v.args[1] if isinstance(x, (Ext, Cv))):
                        return
                    raise
                if not self.truth(self.call_func(v.cls.find_method('__exit__'), [v, Ext(e.exc), Sy('exc:' + e.exc), Sy('traceback')], {}, n)):
                    raise
        finally:
            if own and v.cls.find_method('__exit__') and exc is None:
                self.call_func(v.cls.find_method('__exit__'), [v, None, None, None], {}, n)
            self.event('withend', 'with', [], node=n)

    # ------------------------------------------------------------ match
    def st_Match(self, n):
        v = self.ev(n.subject)
        for c in n.cases:
            if self.matches(c.pattern, v) and (c.guard is None or self.truth(self.ev(c.guard))):
                self.block(c.body)
                return

    def matches(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('==', v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('is', v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.matches(x, v) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v):
                return False
            if p.name:
                self.frames[-1].env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                if isinstance(v, (Sy, Ex)):
                    raise AnalysisError('sequence pattern on an unknown value at %s' % self.loc(p))
                return False
            st = [k for k, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            m = len(p.patterns)
            if not st:
                return len(v) == m and all(self.matches(x, y) for x, y in zip(p.patterns, v))
            a, b = st[0], len(v) - (m - 1 - st[0])
            if len(v) < m - 1:
                return False
            if not (all(self.matches(x, y) for x, y in zip(p.patterns[:a], v[:a])) and all(self.matches(x, y) for x, y in zip(p.patterns[a + 1:], v[b:]))):
                return False
            if p.patterns[a].name:
                self.frames[-1].env.vars[p.patterns[a].name] = list(v[a:b])
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            left = dict(v)
            for k, x in zip(p.keys, p.patterns):
                k = self.ev(k)
                kk = [y for y in left if key(y) == key(k)]
                if not kk or not self.matches(x, left.pop(kk[0])):
                    return False
            if p.rest:
                self.frames[-1].env.vars[p.rest] = left
            return True
        if isinstance(p, ast.MatchClass):
            if not self.truth(self.isinstance(v, self.ev(p.cls))):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and deco(p.cls) in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set'):
                    if not self.matches(p.patterns[0], v):
                        return False
                else:
                    names = v.meta.get('dataclass') if isinstance(v, Ob) else getattr(v, 'fields', None)
                    if not names:
                        raise AnalysisError('positional class pattern at %s' % self.loc(p))
                    if not all(self.matches(x, self.getattr(v, a)) for a, x in zip(names, p.patterns)):
                        return False
            return all(self.matches(x, self.getattr(v, a)) for a, x in zip(p.kwd_attrs, p.kwd_patterns))
        raise AnalysisError('pattern %s' % p.__class__.__name__)


def deco(e):
    from .repo import deco_name
    return deco_name(e) or 'Exception'


def flat(x):
    out = []
    for a in x:
        if isinstance(a, (list, tuple)):
            out.extend(flat(a))
        else:
            out.append(a)
    return out


def copyval(v):
    if isinstance(v, list):
        return [copyval(x) for x in v]
    if isinstance(v, dict):
        return {k: copyval(x) for k, x in v.items()}
    return v


def base_is_open(d):
    return any(isinstance(k, Ex) for k in d)


_GEN = {}


def is_generator(node):
    r = _GEN.get(id(node))
    if r is None:
        from .repo import walk_local
        r = (not isinstance(node, ast.Lambda)) and any(
            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_local(node))
        _GEN[id(node)] = (r, node)
        return r
    return r[0]


class Path:
    """One abstract trace: its guards, effects and result."""
    def __init__(self, it, outcome, value):
        self.it = it
        self.outcome = outcome     # 'return' | 'raise' | 'stop'
        self.value = value
        self.events = it.events
        self.facts = it.facts
        self.factlog = it.factlog

    def guards(self):
        return ' and '.join(('' if r else 'not ') + show(c) for c, r, _ in self.factlog)


def explore(repo, policy_factory, body, max_paths=4096):
    """Run `body(interp)` for every partition of undecided guards."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        it = Interp(repo, policy_factory(), prefix)
        try:
            v = body(it)
            p = Path(it, 'return', v)
        except RaiseSig as r:
            p = Path(it, 'raise', r)
        except StopPath:
            p = Path(it, 'stop', None)
        n += 1
        if n > max_paths:
            raise AnalysisError('more than %d guard partitions' % max_paths)
        for i in range(len(prefix), len(it.decisions)):
            c, m, w = it.decisions[i]
            base = [d[0] for d in it.decisions[:i]]
            for alt in range(m):
                if alt != c:
                    stack.append(base + [alt])
        yield p
