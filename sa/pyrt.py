"""Python run-time semantics for the concrete part of the abstract domain.

Iterables, containers, builtins, itertools / functools / operator / math
functions and method calls whose receivers the domain knows exactly behave as
in Python; everything else is left to the caller (NotImplemented).
"""
import builtins
import math
import itertools
from fractions import Fraction
from functools import cmp_to_key
from .repo import AnalysisError, ClassInfo


class GenL(list):
    """Iterator over known items: consumed by iteration."""


class KeysL(list):
    """dict.keys() / dict.items(): a list with set operations"""


class DefDict(dict):
    """collections.defaultdict / Counter"""
    factory = None


class DequeL(list):
    """collections.deque"""
    maxlen = None


class NTup(tuple):
    """instance of a named tuple"""
    fields = ()
    tname = ''

    @staticmethod
    def make(tname, fields, vals):
        t = NTup(vals)
        t.fields = tuple(fields)
        t.tname = tname
        return t


def take(v):
    """Items of a concrete iterable (consuming iterators), or None."""
    if isinstance(v, GenL):
        r = list(v)
        del v[:]
        return r
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, dict):
        return list(v.keys())
    if isinstance(v, (set, frozenset)):
        return sorted(v, key=repr)
    if isinstance(v, str):
        return list(v)
    return None


BUILTIN_TYPES = ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'NoneType', 'frozenset')


def exc_parents(name):
    """Names of the builtin base classes of an exception."""
    c = getattr(builtins, name.split('.')[-1], None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [x.__name__ for x in c.__mro__]
    return None


class Runtime:
    """Mixed into the interpreter."""

    def items_of(self, v, node=None):
        """Items of a concrete iterable or of an object that iterates over known items; None if unknown."""
        from .absint import Ob
        r = self.policy.iterate(self, v, node)
        if r is not None:
            return list(r)
        r = take(v)
        if r is not None:
            return r
        if isinstance(v, Ob):
            if v.meta.get('dictlike'):
                return list(v.attrs.keys())
            if isinstance(v.cls, ClassInfo) and v.cls.find_method('__iter__'):
                return take(self.call_func(v.cls.find_method('__iter__'), [v], {}, node))
        return None

    # ------------------------------------------------------------- ordering
    def order(self, items, keyf, reverse, node):
        """Sorted items, or None if the order is not known."""
        from .absint import is_conc
        ks = [self.call(keyf, [x], {}, node) if keyf is not None else x for x in items]
        if not all(is_conc(k) for k in ks):
            def first(k):
                return k[0] if isinstance(k, (tuple, list)) and k else None
            f = [first(k) for k in ks]
            if all(isinstance(x, (str, int, float, Fraction)) for x in f) and len(set(f)) == len(f):
                ks = f
            elif len(ks) > 1:
                return None
        try:
            idx = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(reverse))
        except TypeError:
            return None
        return [items[i] for i in idx]

    def extreme(self, name, items, keyf, node):
        """max/min of concrete items: (found, value)"""
        from .absint import is_conc
        ks = [self.call(keyf, [x], {}, node) if keyf is not None else x for x in items]
        if not all(is_conc(k) for k in ks):
            return False, None
        try:
            i = (max if name == 'max' else min)(range(len(items)), key=lambda i: ks[i])
        except TypeError:
            return False, None
        return True, items[i]

    # ------------------------------------------------------------- builtins
    def rt_builtin(self, fn, args, kwargs, node):
        from .absint import Ob, Ext, Cv, Fv, Sy, Ex, is_num, is_conc, freeze, RaiseSig, key
        n = fn.name
        NI = NotImplemented
        if n.startswith('builtins.'):
            n = n[9:]
        root, _, short = n.rpartition('.')
        if root == '':
            if n in ('map', 'filter') and len(args) >= 2:
                its = [self.items_of(a, node) for a in args[1:]]
                if any(i is None for i in its):
                    return NI
                if n == 'map':
                    return GenL(self.call(args[0], list(x), {}, node) for x in zip(*its))
                return GenL(x for x in its[0] if self.truth(x if args[0] is None else self.call(args[0], [x], {}, node)))
            if n == 'zip':
                its = [self.items_of(a, node) for a in args]
                if any(i is None for i in its):
                    return NI
                return GenL(tuple(x) for x in zip(*its))
            if n == 'enumerate' and args:
                i = self.items_of(args[0], node)
                st = args[1] if len(args) > 1 else kwargs.get('start', 0)
                if i is None or not is_num(st):
                    return NI
                return GenL((st + k, x) for k, x in enumerate(i))
            if n == 'reversed':
                i = self.items_of(args[0], node)
                return NI if i is None else GenL(reversed(i))
            if n == 'iter' and len(args) == 1:
                if isinstance(args[0], GenL):
                    return args[0]
                i = self.items_of(args[0], node)
                return NI if i is None else GenL(i)
            if n == 'next':
                if isinstance(args[0], list):
                    if args[0]:
                        return args[0].pop(0)
                    if len(args) > 1:
                        return args[1]
                    raise RaiseSig('StopIteration', self.loc(node))
                return NI
            if n in ('list', 'tuple', 'set', 'frozenset'):
                if not args:
                    return {'list': list, 'tuple': tuple}.get(n, set)()
                i = self.items_of(args[0], node)
                if i is None:
                    return NI
                if n == 'list':
                    return list(i)
                if n == 'tuple':
                    return tuple(i)
                try:
                    return set(freeze(x) for x in i)
                except TypeError:
                    return NI
            if n == 'len' and len(args) == 1:
                if isinstance(args[0], (list, tuple, dict, str, set, frozenset)):
                    return len(args[0])
                v = args[0]
                if isinstance(v, Ob) and isinstance(v.cls, ClassInfo) and v.cls.find_method('__len__'):
                    return self.call_func(v.cls.find_method('__len__'), [v], {}, node)
                return NI
            if n == 'sum' and args:
                i = self.items_of(args[0], node)
                if i is None:
                    return NI
                s = args[1] if len(args) > 1 else kwargs.get('start', 0)
                for x in i:
                    s = self.binop('+', s, x, node)
                return s
            if n in ('all', 'any') and len(args) == 1:
                i = self.items_of(args[0], node)
                if i is None:
                    return NI
                for x in i:
                    if self.truth(x) != (n == 'all'):
                        return n == 'any'
                return n == 'all'
            if n == 'sorted' and args:
                i = self.items_of(args[0], node)
                if i is None:
                    return NI
                r = self.order(i, kwargs.get('key'), kwargs.get('reverse', False), node)
                if r is None:
                    if isinstance(args[0], GenL):
                        args[0].extend(i)
                    return NI
                return r
            if n in ('max', 'min') and args:
                if len(args) == 1:
                    i = self.items_of(args[0], node)
                    if i is None:
                        return NI
                    if not i:
                        if 'default' in kwargs:
                            return kwargs['default']
                        raise RaiseSig('ValueError', self.loc(node))
                else:
                    i = list(args)
                ok, v = self.extreme(n, i, kwargs.get('key'), node)
                if ok:
                    return v
                if len(i) == 1:
                    return i[0]
                if len(args) == 1 and not isinstance(args[0], (list, tuple)) or isinstance(args[0], GenL):
                    return Ex('call', fn, (tuple(i),), ())
                return NI
            if n == 'divmod' and all(is_num(a) for a in args):
                return (self.binop('//', args[0], args[1], node), self.binop('%', args[0], args[1], node))
            if n == 'pow' and len(args) == 2:
                return self.binop('**', args[0], args[1], node)
            if n == 'round' and all(is_num(a) for a in args):
                r = round(*args)
                return r
            if n in ('int', 'float') and len(args) == 1 and isinstance(args[0], str):
                try:
                    return int(args[0]) if n == 'int' else float(args[0])
                except ValueError:
                    raise RaiseSig('ValueError', self.loc(node))
            if n in ('str', 'int', 'float') and not args and not kwargs:
                return {'str': '', 'int': 0, 'float': 0.}[n]
            if n == 'str' and len(args) == 1 and is_conc(args[0]) and not isinstance(args[0], (list, tuple, dict, set, str)):
                return str(float(args[0]) if isinstance(args[0], Fraction) else args[0])
            if n == 'repr' and len(args) == 1 and isinstance(args[0], str):
                return repr(args[0])
            if n == 'slice':
                return slice(*args)
            if n == 'callable' and len(args) == 1:
                v = args[0]
                if isinstance(v, (Fv, Cv)):
                    return True
                if isinstance(v, Ob) and isinstance(v.cls, ClassInfo) and not v.cls.external_bases():
                    return v.cls.find_method('__call__') is not None
                if is_conc(v) or isinstance(v, (list, dict, set)):
                    return False
                return NI
            if n == 'vars' and len(args) == 1 and isinstance(args[0], Ob):
                return args[0].attrs
            if n == 'delattr' and isinstance(args[0], Ob) and isinstance(args[1], str):
                if args[1] not in args[0].attrs:
                    raise RaiseSig('AttributeError', self.loc(node))
                del args[0].attrs[args[1]]
                return None
            if n == 'type' and len(args) == 1:
                v = args[0]
                for t in (bool, int, str, dict, set, list, tuple):
                    if isinstance(v, t) and not isinstance(v, (GenL, NTup)):
                        return Ext(t.__name__)
                if isinstance(v, (float, Fraction)):
                    return Ext('float')
                if v is None:
                    return Ext('NoneType')
                return NI
            if n == 'print':
                return None
        if root == 'math' or n in ('math',):
            if short in ('floor', 'ceil', 'trunc', 'fabs', 'isclose', 'prod', 'isnan', 'isinf', 'isfinite', 'gcd', 'copysign', 'fmod') \
                    and args and all(is_num(x) for a in args for x in (a if isinstance(a, (list, tuple)) else [a])):
                return getattr(math, short)(*args, **kwargs)
        if root == 'operator':
            ops = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'floordiv': '//', 'mod': '%', 'pow': '**', 'and_': '&', 'or_': '|', 'matmul': '@',
                   'iadd': '+', 'xor': '^', 'concat': '+'}
            cmps = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!=', 'is_': 'is', 'is_not': 'is not'}
            if short in ops and len(args) == 2:
                return self.binop(ops[short], args[0], args[1], node)
            if short in cmps and len(args) == 2:
                return self.compare(cmps[short], args[0], args[1])
            if short == 'contains':
                return self.compare('in', args[1], args[0])
            if short == 'neg':
                return self.neg(args[0])
            if short == 'not_':
                return not self.truth(args[0])
            if short == 'truth':
                return self.truth(args[0])
            if short == 'getitem':
                return self.getindex(args[0], args[1], node)
            if short in ('itemgetter', 'attrgetter', 'methodcaller'):
                return Ex('call', fn, tuple(args), tuple(sorted(kwargs.items())))
        if root == 'functools' or n in ('partial', 'reduce'):
            if short == 'reduce' and len(args) >= 2:
                i = self.items_of(args[1], node)
                if i is None:
                    return NI
                if len(args) > 2:
                    s = args[2]
                elif i:
                    s = i.pop(0)
                else:
                    raise RaiseSig('TypeError', self.loc(node))
                for x in i:
                    s = self.call(args[0], [s, x], {}, node)
                return s
            if short == 'partial' and args:
                return ('partial', args[0], list(args[1:]), dict(kwargs))
            if short in ('wraps', 'lru_cache', 'cache'):
                return ('identity',)
        if root == 'itertools':
            its = [self.items_of(a, node) if not is_num(a) and a is not None else a for a in args]
            if any(x is None and a is not None for x, a in zip(its, args)):
                return NI
            if short == 'chain':
                return GenL(x for i in its for x in i)
            if short in ('product', 'zip_longest', 'combinations', 'permutations', 'combinations_with_replacement', 'pairwise', 'islice'):
                return GenL(getattr(itertools, short)(*its, **kwargs))
            if short == 'accumulate':
                out, s = [], kwargs.get('initial')
                if s is not None:
                    out.append(s)
                for x in its[0]:
                    s = x if not out else (self.call(args[1], [s, x], {}, node) if len(args) > 1 else self.binop('+', s, x, node))
                    out.append(s)
                return GenL(out)
            if short == 'repeat' and len(args) == 2 and is_num(args[1]):
                return GenL([args[0]] * args[1])
            if short == 'starmap':
                return NI
        if n == 'itertools.chain.from_iterable':
            i = self.items_of(args[0], node)
            if i is None:
                return NI
            its = [self.items_of(x, node) for x in i]
            if any(x is None for x in its):
                return NI
            return GenL(x for y in its for x in y)
        if n in ('dict.fromkeys',):
            i = self.items_of(args[0], node)
            if i is not None:
                return {freeze(k): (args[1] if len(args) > 1 else None) for k in i}
        if root in ('', 'collections'):
            if short == 'defaultdict':
                d = DefDict()
                d.factory = args[0] if args else None
                if len(args) > 1 and isinstance(args[1], dict):
                    d.update(args[1])
                d.update(kwargs)
                return d
            if short == 'deque':
                d = DequeL(self.items_of(args[0], node) or [] if args else [])
                d.maxlen = args[1] if len(args) > 1 else kwargs.get('maxlen')
                if d.maxlen is not None:
                    d[:] = d[-d.maxlen:] if d.maxlen else []
                return d
            if short == 'namedtuple' and len(args) >= 2 and isinstance(args[0], str):
                f = args[1].replace(',', ' ').split() if isinstance(args[1], str) else list(args[1])
                return ('namedtuple', args[0], tuple(f), tuple(kwargs.get('defaults', ())))
        return NI

    def rt_call(self, fn, args, kwargs, node):
        """Calls of values built by the functions above."""
        from .absint import Ex, RaiseSig, callee_name, Ext
        if isinstance(fn, tuple) and fn:
            if fn[0] == 'partial' and len(fn) == 4:
                return self.call(fn[1], fn[2] + list(args), dict(fn[3], **kwargs), node)
            if fn == ('identity',):
                return args[0] if args else fn
            if fn[0] == 'namedtuple' and len(fn) == 4:
                return self.ntup(fn[1], fn[2], args, kwargs, dict(zip(fn[2][len(fn[2]) - len(fn[3]):], fn[3])), node)
        if isinstance(fn, Ex) and fn.op == 'call' and isinstance(fn.args[0], Ext) and fn.args[0].name.startswith('operator.'):
            n, a = fn.args[0].short, fn.args[1]
            if n == 'itemgetter':
                r = [self.getindex(args[0], i, node) for i in a]
                return r[0] if len(r) == 1 else tuple(r)
            if n == 'attrgetter':
                out = []
                for x in a:
                    v = args[0]
                    for p in x.split('.'):
                        v = self.getattr(v, p, node)
                    out.append(v)
                return out[0] if len(out) == 1 else tuple(out)
            if n == 'methodcaller':
                return self.call(self.getattr(args[0], a[0], node), list(a[1:]), dict(fn.args[2]), node)
        return NotImplemented

    def ntup(self, name, fields, args, kwargs, defaults, node):
        from .absint import RaiseSig
        vals = dict(defaults)
        if len(args) > len(fields) or any(k not in fields for k in kwargs):
            raise RaiseSig('TypeError', self.loc(node))
        vals.update(zip(fields, args))
        vals.update(kwargs)
        if any(f not in vals for f in fields):
            raise RaiseSig('TypeError', self.loc(node))
        return NTup.make(name, fields, [vals[f] for f in fields])

    # -------------------------------------------------------------- methods
    def same(self, a, b):
        """True / False / None (unknown) for equality."""
        r = self.compare('==', a, b)
        return r if isinstance(r, bool) else None

    def find(self, base, x, node):
        """Index of the first equal item, -1 if there is none, None if unknown."""
        for i, y in enumerate(base):
            s = self.same(y, x)
            if s:
                return i
            if s is None:
                return None
        return -1

    def rt_method(self, base, name, args, kwargs, node):
        from .absint import is_conc, freeze, RaiseSig, key, Ex
        NI = NotImplemented
        if isinstance(base, NTup):
            if name == '_replace':
                v = dict(zip(base.fields, base))
                v.update(kwargs)
                return NTup.make(base.tname, base.fields, [v[f] for f in base.fields])
            if name == '_asdict':
                return dict(zip(base.fields, base))
        if isinstance(base, (list, tuple)) and name in ('index', 'count'):
            if name == 'index':
                i = self.find(base, args[0], node)
                if i is None:
                    return NI
                if i < 0:
                    raise RaiseSig('ValueError', self.loc(node))
                return i
            s = [self.same(y, args[0]) for y in base]
            return NI if None in s else s.count(True)
        if isinstance(base, list):
            if isinstance(base, DequeL):
                if name == 'popleft':
                    if not base:
                        raise RaiseSig('IndexError', self.loc(node))
                    return base.pop(0)
                if name in ('append', 'appendleft'):
                    base.insert(len(base) if name == 'append' else 0, args[0])
                    if base.maxlen is not None and len(base) > base.maxlen:
                        del base[0 if name == 'append' else -1]
                    return None
                if name == 'rotate':
                    k = (args[0] if args else 1) % max(len(base), 1)
                    base[:] = base[-k:] + base[:-k] if k else base[:]
                    return None
            if name == 'append':
                base.append(args[0])
                return None
            if name == 'extend':
                i = self.items_of(args[0], node)
                if i is None:
                    base.append(Ex('elem', args[0]))
                else:
                    base.extend(i)
                return None
            if name == 'insert' and isinstance(args[0], int):
                base.insert(args[0], args[1])
                return None
            if name == 'pop':
                if all(isinstance(a, int) for a in args):
                    try:
                        return base.pop(*args)
                    except IndexError:
                        raise RaiseSig('IndexError', self.loc(node))
            if name == 'copy':
                return list(base)
            if name == 'clear':
                del base[:]
                return None
            if name == 'reverse':
                base.reverse()
                return None
            if name == 'sort':
                r = self.order(list(base), kwargs.get('key'), kwargs.get('reverse', False), node)
                if r is None:
                    raise AnalysisError('sort of items of unknown order at %s' % self.loc(node))
                base[:] = r
                return None
            if name == 'remove':
                i = self.find(base, args[0], node)
                if i is None:
                    ka = [key(x) for x in base]
                    if key(args[0]) in ka:
                        i = ka.index(key(args[0]))
                    else:
                        raise AnalysisError('removal of an unknown item at %s' % self.loc(node))
                if i < 0:
                    raise RaiseSig('ValueError', self.loc(node))
                del base[i]
                return None
        if isinstance(base, dict):
            if name == 'clear':
                base.clear()
                return None
            if name == 'popitem':
                if not base:
                    raise RaiseSig('KeyError', self.loc(node))
                k = list(base)[0 if kwargs.get('last') is False else -1]
                return (k, base.pop(k))
            if name == 'update' and args and not isinstance(args[0], dict):
                i = self.items_of(args[0], node)
                if i is not None and all(isinstance(x, (tuple, list)) and len(x) == 2 for x in i):
                    for x, y in i:
                        self.setindex(base, x, y, node)
                    for x, y in kwargs.items():
                        self.setindex(base, x, y, node)
                    return None
            if name == 'fromkeys':
                i = self.items_of(args[0], node)
                if i is not None:
                    return {freeze(k): (args[1] if len(args) > 1 else None) for k in i}
            if name == 'move_to_end':
                for k2 in list(base):
                    if key(k2) == key(args[0]):
                        v = base.pop(k2)
                        base[k2] = v
                        return None
            if name == '__contains__':
                return self.compare('in', args[0], base)
            if name == '__getitem__':
                return self.getindex(base, args[0], node)
        if isinstance(base, (list, tuple)) and name == '__getitem__':
            return self.getindex(base, args[0], node)
        if isinstance(base, (list, tuple, dict, set, frozenset)) and name == '__len__':
            return len(base)
        if isinstance(base, (set, frozenset)):
            ops = {'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}
            upd = {'update': '|', 'intersection_update': '&', 'difference_update': '-', 'symmetric_difference_update': '^'}
            if name in ops or name in upd:
                r = set(base)
                for a in args:
                    i = self.items_of(a, node)
                    if i is None:
                        return NI
                    s = set(freeze(x) for x in i)
                    o = ops.get(name) or upd[name]
                    r = {'|': r | s, '&': r & s, '-': r - s, '^': r ^ s}[o]
                if name in upd:
                    base.clear()
                    base.update(r)
                    return None
                return r
            if name == 'add':
                base.add(freeze(args[0]))
                return None
            if name in ('discard', 'remove'):
                f = freeze(args[0])
                for x in list(base):
                    if key(x) == key(f):
                        base.discard(x)
                        return None
                if name == 'remove':
                    raise RaiseSig('KeyError', self.loc(node))
                return None
            if name == 'copy':
                return set(base)
            if name == 'clear':
                base.clear()
                return None
            if name == 'pop':
                if not base:
                    raise RaiseSig('KeyError', self.loc(node))
                x = sorted(base, key=repr)[0]
                base.discard(x)
                return x
            if name in ('issubset', 'issuperset', 'isdisjoint'):
                i = self.items_of(args[0], node)
                if i is not None:
                    a, b = {key(x) for x in base}, {key(x) for x in i}
                    return {'issubset': a <= b, 'issuperset': a >= b, 'isdisjoint': not a & b}[name]
        if isinstance(base, str) and name == 'join':
            i = self.items_of(args[0], node)
            if i is not None and all(isinstance(x, str) for x in i):
                return base.join(i)
        return NI

    def rt_unhandled(self, base, name, node):
        """A method of a builtin container that has no rule must not be skipped."""
        if isinstance(base, (list, dict, set)) and name in ('append', 'extend', 'insert', 'pop', 'clear', 'reverse', 'sort', 'remove', 'popitem', 'update',
                                                            'setdefault', 'add', 'discard', 'move_to_end', '__setitem__', '__delitem__'):
            raise AnalysisError('no rule for %s.%s at %s' % (type(base).__name__, name, self.loc(node)))

    # ------------------------------------------------------------ comparison
    def rt_compare(self, op, a, b):
        from .absint import is_conc, Cv, Fv, Ext, Ob, key, freeze
        NI = NotImplemented
        if isinstance(a, KeysL) and isinstance(b, (set, frozenset, KeysL)) or isinstance(b, KeysL) and isinstance(a, (set, frozenset)):
            a, b = (set(freeze(i) for i in x) for x in (a, b))
        if op == 'is' and isinstance(a, (Cv, Ext)) and isinstance(b, (Cv, Ext)):
            def typ(x):
                return isinstance(x, Cv) or x.name in BUILTIN_TYPES
            if typ(a) and typ(b):
                return key(a) == key(b)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            x, y = {key(i) for i in a}, {key(i) for i in b}
            if op in ('==', '<', '<=', '>', '>='):
                return {'==': x == y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if op == '==' and isinstance(a, Ob) and isinstance(a.cls, ClassInfo):
            m = a.cls.find_method('__eq__')
            if m is not None:
                return self.call_func(m, [a, b], {}, None)
            if a.meta.get('dataclass') and isinstance(b, Ob) and b.cls is a.cls:
                return self.compare('==', [a.attrs[f] for f in a.meta['dataclass']], [b.attrs[f] for f in a.meta['dataclass']])
        if op == '==' and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list):
                return NI
            if len(a) != len(b):
                return False
            rs = [self.compare('==', x, y) for x, y in zip(a, b)]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return NI
        if op == '==' and isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b) and is_conc(list(a)) and is_conc(list(b)):
                return False
            ka, kb = {key(k): v for k, v in a.items()}, {key(k): v for k, v in b.items()}
            if set(ka) == set(kb):
                rs = [self.compare('==', ka[k], kb[k]) for k in ka]
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
            elif is_conc(list(a)) and is_conc(list(b)):
                return False
        if op == 'in' and isinstance(b, Ob) and isinstance(b.cls, ClassInfo):
            m = b.cls.find_method('__contains__')
            if m is not None:
                return self.truth(self.call_func(m, [b, a], {}, None))
        if op == '<' and isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not (is_conc(a) and is_conc(b)):
            for x, y in zip(a, b):
                s = self.same(x, y)
                if s:
                    continue
                if s is None:
                    return NI
                return self.compare('<', x, y)
            return len(a) < len(b)
        return NI

    DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '@': 'matmul', '&': 'and', '|': 'or', '^': 'xor'}

    def rt_binop(self, op, a, b, node):
        from .absint import Ob, is_num, freeze
        if op in ('-', '&', '|', '^') and (isinstance(a, KeysL) or isinstance(b, KeysL)) and all(isinstance(x, (list, set, frozenset)) for x in (a, b)):
            a, b = (set(freeze(i) for i in x) for x in (a, b))
            return {'-': a - b, '&': a & b, '|': a | b, '^': a ^ b}[op]
        if op in self.DUNDER:
            for x, y, pre in ((a, b, '__%s__'), (b, a, '__r%s__')):
                if isinstance(x, Ob) and isinstance(x.cls, ClassInfo):
                    m = x.cls.find_method(pre % self.DUNDER[op])
                    if m is not None:
                        return self.call_func(m, [x, y], {}, node)
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool) and op in ('&', '|', '^', '<<', '>>'):
            return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << max(b, 0), '>>': a >> max(b, 0)}[op]
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == '+':
            if isinstance(a, list) == isinstance(b, list):
                return (list(a) + list(b)) if isinstance(a, list) else (tuple(a) + tuple(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, list, tuple)) and isinstance(y, int) and not isinstance(y, bool) and op == '*':
                return x * y
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and op == '^':
            return set(a) ^ set(b)
        return NotImplemented
