"""H01, H02: option objects (validation, pairing, copies, independence) and tracer registration."""
import ast
from fractions import Fraction
from sa.core import prop
from sa.absint import explore, Policy, Sy, Ex, Ext, Ob, Cv, Fv, RaiseSig, callee_name, show, is_num
from sa.poly import tofrac
from sa.repo import AnalysisError

TECH1 = ('abstract interpretation of the option base classes, trait validators and the pairing decorator on the order classes of their values, '
         'and a resolved table of every option declaration of options.py against every option the package reads')
TECH2 = 'abstract interpretation of the registration methods with symbolic tracers, each stored entry compared with the data given for its label'
F = Fraction
TEL = ('error',)


def arg(call, i, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return call.args[i] if len(call.args) > i else None


def cname(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def untag(n):
    """the trait constructor call below .tag(...)"""
    while isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'tag':
        n = n.func.value
    return n


# ------------------------------------------------------------------ base classes
class SetPolicy(Policy):
    def __init__(self, has):
        self.has = has

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'hasattr':
            return self.has
        if n in ('__setattr__', 'setattr') and not (isinstance(fn, Fv)):
            a = args[-2:]
            it.user.setdefault('stored', []).append(tuple(a))
            return None
        if n == '__init__' and isinstance(fn, Ex):
            it.user['init'] = (tuple(args), dict(kwargs))
            return None
        return NotImplemented


def frozen(ctx):
    repo = ctx.repo
    for mod, cn in (('configuration', 'FrozenHasTraits'), ('configuration', 'FrozenConfigurable'), ('utility', 'FrozenClass')):
        cls = repo.cls(mod, cn)
        loc = 'thetis/%s.py:%s.__setattr__' % (mod, cn)
        m = cls.find_method('__setattr__')
        if m is None:
            ctx.ob('unknown attribute refused', cn, False, loc, 'no __setattr__: any attribute is accepted')
            continue
        for fz, has, key in [(f, h, k) for f in (True, False) for h in (True, False) for k in ('opt', '_opt', 'opt_options')]:
            if True:
                def body(it):
                    o = it.obj(cls, 'self')
                    o.attrs['_isfrozen'] = fz
                    it.call_func(m, [o, key, Sy('value')], {})
                    return it.user.get('stored', [])
                for p in explore(repo, lambda: SetPolicy(has), body):
                    ctx.count('paths explored')
                    want = fz and not has
                    if p.outcome == 'raise':
                        ctx.ob('unknown attribute refused', cn, want and p.value.exc in ('TypeError', 'AttributeError'), loc,
                               'raises %s for a %s attribute of a%s frozen object' % (p.value.exc, 'known' if has else 'new', '' if fz else ' not'))
                    else:
                        st = p.value
                        ctx.ob('unknown attribute refused' if want else 'known attribute stored', cn,
                               not want and len(st) == 1 and st[0][0] == key and show(st[0][1]) == 'value', loc,
                               '%s attribute of a%s frozen object: stored %s' % ('known' if has else 'new', '' if fz else ' not',
                                                                                [show(x) for s in st for x in s]))
        if mod == 'configuration':
            im = cls.find_method('__init__')

            def body(it):
                o = it.obj(cls, 'self')
                if im is not None:
                    it.call_func(im, [o, Sy('a')], {'k': Sy('b')})
                v = it.getattr(o, '_isfrozen')
                return v, it.user.get('init')
            for p in explore(repo, lambda: SetPolicy(True), body):
                if p.outcome == 'raise':
                    ctx.ob('frozen after construction', cn, False, loc, 'raises %s' % p.value.exc)
                    continue
                v, ini = p.value
                ctx.ob('frozen after construction', cn, v is True and ini is not None and show(ini[0]) == show((Sy('a'),)) and list(ini[1]) == ['k'],
                       'thetis/configuration.py:%s.__init__' % cn, '_isfrozen is %s after the constructor' % show(v))


class UnfPolicy(Policy):
    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'meth':
            o = args[0]
            it.user['seen'].append((fn[1], o.attrs.get('_isfrozen'), [show(a) for a in args[1:]], sorted(kwargs)))
            if fn[1] == 'outer':
                it.call(it.user['inner'], [o], {})
                it.user['seen'].append(('after inner', o.attrs.get('_isfrozen'), [], []))
            if fn[1] == 'fails':
                raise RaiseSig('ValueError', it.loc(node))
            return Sy('result of %s' % fn[1])
        return NotImplemented


def unfrozen(ctx):
    repo = ctx.repo
    fi = repo.func('utility', 'unfrozen')
    loc = 'thetis/utility.py:unfrozen'

    def body(it):
        it.user['seen'] = []
        it.user['inner'] = it.call_func(fi, [('meth', 'inner')], {})
        outer = it.call_func(fi, [('meth', 'outer')], {})
        bad = it.call_func(fi, [('meth', 'fails')], {})
        o = it.obj(repo.cls('utility', 'FrozenClass'), 'self')
        o.attrs['_isfrozen'] = True
        o.attrs['_unfreezedepth'] = 0
        r = it.call(outer, [o, Sy('x')], {'y': Sy('z')})
        a = o.attrs['_isfrozen']
        err = None
        try:
            it.call(bad, [o], {})
        except RaiseSig as e:
            err = e.exc
        return r, a, err, o.attrs['_isfrozen'], it.user['seen'], o.attrs['_unfreezedepth']
    for p in explore(repo, UnfPolicy, body):
        ctx.count('paths explored')
        con = 'unfrozen'
        if p.outcome == 'raise':
            ctx.ob('frozen outside, open inside unfrozen methods', con, False, loc, 'raises %s' % p.value.exc)
            continue
        r, a, err, b, seen, dep = p.value
        ins = {s[0]: s for s in seen}
        ctx.ob('frozen outside, open inside unfrozen methods', con,
               all(ins.get(k, (0, 1))[1] is False for k in ('outer', 'inner', 'after inner', 'fails')), loc,
               'frozen inside the method: %s' % [(s[0], s[1]) for s in seen])
        ctx.ob('frozen outside, open inside unfrozen methods', con, a is True and b is True and err == 'ValueError', loc,
               'frozen after a nested call: %s, after a call that raises: %s (error %s)' % (show(a), show(b), err))
        ctx.ob('arguments and result of the method', con, show(r) == 'result of outer' and ins.get('outer', (0, 0, 0, 0))[2:] == (['x'], ['y']), loc,
               'returned %s, called with %s' % (show(r), ins.get('outer')))


# --------------------------------------------------------------------- validators
class ValPolicy(Policy):
    """super().validate accepts, self.error raises"""

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else fn[2] if isinstance(fn, tuple) and len(fn) == 3 else None
        if n == 'validate':
            it.user['base'] = True
            return args[-1]
        if n == 'error':
            raise RaiseSig('TraitError', it.loc(node))
        if n == 'isinstance' and isinstance(args[0], Ob) and 'kind' in args[0].meta:
            ts = args[1] if isinstance(args[1], (tuple, list)) else (args[1],)
            names = [getattr(t, 'short', None) or show(t).split('.')[-1] for t in ts]
            return any(t in args[0].meta['kind'] for t in names)
        if n == 'is_ufl_scalar':
            return 'scalar' in args[0].meta['kind']
        return NotImplemented

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.name == 'trait' and name == 'error':
            return ('m', base, 'error')
        return NotImplemented

    def compare(self, it, op, a, b):
        if is_num(a) and is_num(b) and op in ('<', '<=', '>', '>=', '==', '!='):
            x, y = tofrac(a), tofrac(b)
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        return NotImplemented


def accepts(ctx, cn, val, attrs=()):
    """True/False: the validator accepts (and returns) the value"""
    cls = ctx.repo.cls('configuration', cn)
    m = cls.find_method('validate')
    if m is None:
        return None
    res = set()

    def body(it):
        t = it.obj(cls, 'trait')
        for k, v in attrs:
            t.attrs[k] = v
        v = val(it) if callable(val) else val
        r = it.call_func(m, [t, Sy('obj'), v], {})
        return v, r, it.user.get('base', False)
    for p in explore(ctx.repo, ValPolicy, body):
        ctx.count('paths explored')
        if p.outcome == 'raise':
            res.add(False)
        else:
            v, r, b = p.value
            res.add(True if r is v or is_num(r) and r == v else 'returns %s' % show(r))
    return res.pop() if len(res) == 1 else None


def validators(ctx):
    num = {'PositiveInteger': lambda v: v > 0, 'PositiveFloat': lambda v: v > 0, 'NonNegativeInteger': lambda v: v >= 0,
           'NonNegativeFloat': lambda v: v >= 0}
    for cn, f in num.items():
        for v in (-2, 0, 1, 3):
            r = accepts(ctx, cn, v)
            ctx.ob('exactly the documented values accepted', cn, r is f(v), 'thetis/configuration.py:%s.validate' % cn,
                   'value %s: %s' % (v, 'accepted' if r is True else 'refused' if r is False else r))
    for cn in ('BoundedInteger', 'BoundedFloat'):
        bd = initattrs(ctx, cn, [Sy('default')], {'bounds': [2, 5]})
        if bd is None:
            ctx.ob('exactly the documented values accepted', cn, None, 'thetis/configuration.py:%s' % cn, 'bounds not followed')
            continue
        for v in (1, 2, 3, 5, 6):
            r = accepts(ctx, cn, v, tuple(bd.items()))
            ctx.ob('exactly the documented values accepted', cn, r is (2 <= v <= 5), 'thetis/configuration.py:%s.validate' % cn,
                   'value %s for the bounds [2, 5]: %s' % (v, 'accepted' if r is True else 'refused' if r is False else r))

    def ob(*kind):
        def mk(it):
            o = it.obj('value', 'value')
            o.meta['kind'] = kind
            return o
        return mk
    K = {'Constant': ('Constant', 'Coefficient', 'Expr', 'scalar'), 'vector Constant': ('Constant', 'Expr'),
         'Function': ('Function', 'Expr', 'scalar'), 'vector Function': ('Function', 'Expr'),
         'scalar expression': ('Expr', 'scalar'), 'vector expression': ('Expr',), 'number': ('float', 'scalar'), 'text': ('str',)}
    want = {'FiredrakeConstantTraitlet': ('Constant', 'vector Constant'),
            'FiredrakeCoefficient': ('Constant', 'vector Constant', 'Function', 'vector Function'),
            'FiredrakeScalarExpression': ('Constant', 'Function', 'scalar expression'),
            'FiredrakeVectorExpression': ('vector Constant', 'vector Function', 'vector expression')}
    for cn, ok in want.items():
        for k, kind in K.items():
            r = accepts(ctx, cn, ob(*kind))
            ctx.ob('exactly the documented values accepted', '%s of a %s' % (cn, k), r is (k in ok), 'thetis/configuration.py:%s.validate' % cn,
                   '%s: %s' % (k, 'accepted' if r is True else 'refused' if r is False else r))
    for tz in (True, False):
        def mk(it):
            o = it.obj('value', 'value')
            o.meta['kind'] = ('datetime',)
            o.attrs['tzinfo'] = it.obj('tz', 'tz') if tz else None
            return o
        r = accepts(ctx, 'DatetimeTraitlet', mk)
        ctx.ob('exactly the documented values accepted', 'DatetimeTraitlet', None if r is None else r is tz, 'thetis/configuration.py:DatetimeTraitlet.validate',
               'a date %s a time zone: %s' % ('with' if tz else 'without', 'accepted' if r is True else 'refused' if r is False else r))
    for k, kind in (('dict', ('dict',)), ('text', ('str',))):
        r = accepts(ctx, 'PETScSolverParameters', ob(*kind))
        ctx.ob('exactly the documented values accepted', 'PETScSolverParameters of a %s' % k, r is (k == 'dict'),
               'thetis/configuration.py:PETScSolverParameters.validate', '%s: %s' % (k, r))


def initattrs(ctx, cn, args, kw):
    cls = ctx.repo.cls('configuration', cn)
    m = cls.find_method('__init__')

    def body(it):
        t = it.obj(cls, 'trait')
        it.call_func(m, [t] + args, dict(kw))
        return dict(t.attrs), it.user.get('init')
    for p in explore(ctx.repo, lambda: SetPolicy(True), body):
        ctx.count('paths explored')
        if p.outcome != 'raise':
            return p.value[0]
    return None


# ------------------------------------------------------------------------ pairing
class PairPolicy(SetPolicy):
    def __init__(self):
        self.has = True

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if isinstance(fn, tuple) and fn and fn[0] == 'make':
            o = it.obj('options of', fn[1])
            return o
        if isinstance(fn, tuple) and fn and fn[0] == 'decor':
            return ('handler', fn[1], fn[2], args[0])
        if n == 'observe':
            return ('decor', 'observe', (args, dict(kwargs)))
        if n == 'default':
            return ('decor', 'default', (args, dict(kwargs)))
        if n == 'setattr':
            o, k, v = args
            o.attrs[k] = v
            it.user.setdefault('set', []).append((o, k, v))
            return None
        if n in ('class_init', 'setup_class') or isinstance(fn, tuple) and fn and fn[-1] in ('class_init', 'setup_class'):
            return None
        return super().call(it, fn, args, kwargs, node)

    def attr(self, it, base, name, node):
        if name in ('class_init', 'setup_class'):
            return ('m', base, name)
        if name == '__dict__':
            return Sy('__dict__')
        return NotImplemented


def pairing(ctx):
    repo = ctx.repo
    con = 'attach_paired_options'
    loc = 'thetis/configuration.py:attach_paired_options'
    fi = repo.func('configuration', 'attach_paired_options')
    A = [('one', ('make', 'One')), ('two', ('make', 'Two')), ('three', ('make', 'Three'))]
    tr = initattrs(ctx, 'PairedEnum', [list(A), 'the_options'], {'default_value': 'two'})
    if tr is None:
        ctx.ob('pairs of the enumeration', 'PairedEnum', None, loc, 'constructor not followed')
        return
    cls = repo.cls('configuration', 'PairedEnum')

    def body(it):
        t = it.obj(cls, 'trait')
        it.call_func(cls.find_method('__init__'), [t, list(A), 'the_options'], {'default_value': 'two'})
        t.attrs['default_value'] = 'two'
        init = it.user.get('init')
        v = it.obj('Instance', 'value trait')
        dec = it.call_func(fi, ['the_type', t, v], {})
        c = it.obj('class', 'cls')
        r = it.call(dec, [c], {})
        hs = [x for x in c.attrs.values() if isinstance(x, tuple) and x and x[0] == 'handler']
        res = {}
        for h in hs:
            o = it.obj('options', 'o')
            it.user['set'] = []
            if h[1] == 'observe':
                for k, _ in A:
                    o.attrs['the_type'] = k
                    it.call(h[3], [o, {'new': k, 'old': 'one', 'name': 'the_type', 'owner': o, 'type': 'change'}], {})
                    w = o.attrs.get('the_options')
                    res.setdefault('observe', []).append((k, w.name if isinstance(w, Ob) else show(w), list(o.attrs)))
                o2 = it.obj('options', 'o2')
                o2.attrs['the_type'] = 'one'
                o.attrs['the_type'] = 'one'
                for x in (o, o2):
                    it.call(h[3], [x, {'new': 'one', 'old': 'two', 'name': 'the_type', 'owner': x, 'type': 'change'}], {})
                res['shared'] = o.attrs.get('the_options') is o2.attrs.get('the_options')
                res['observe on'] = (h[2][0], h[2][1].get('type', 'change'), h[2][1].get('names'))
            else:
                w = it.call(h[3], [o], {})
                if it.call(h[3], [it.obj('options', 'o3')], {}) is w:
                    res['shared'] = True
                res['default'] = w.name if isinstance(w, Ob) else show(w)
                res['default on'] = h[2][0]
        return r is c, c.attrs.get('the_type') is t, c.attrs.get('the_options') is v, res, init
    for p in explore(repo, PairPolicy, body):
        ctx.count('paths explored')
        if p.outcome == 'raise':
            ctx.ob('paired options follow the enumeration', con, False, loc, 'raises %s' % p.value.exc)
            continue
        same, t, v, res, init = p.value
        ctx.ob('both options declared on the class', con, same and t and v, loc, 'class returned %s, enum stored %s, options stored %s' % (same, t, v))
        ctx.ob('paired options follow the enumeration', con,
               [x[:2] for x in res.get('observe', [])] == [('one', 'One'), ('two', 'Two'), ('three', 'Three')]
               and show(res.get('observe on', ['', ''])[0]).find('the_type') >= 0 and res['observe on'][1] == 'change', loc,
               'observer of %s gives %s' % (show(res.get('observe on')), res.get('observe')))
        ctx.ob('paired options follow the enumeration', con, res.get('default') == 'Two' and show(res.get('default on')).find('the_options') >= 0, loc,
               'default for %s is %s' % (show(res.get('default on')), res.get('default')))
        ctx.ob('every object has its own nested options', con, not res.get('shared'), loc, 'two objects are given the same paired options object')
        vals = list(init[0][0]) if init and init[0] and isinstance(init[0][0], (list, tuple)) else None
        ctx.ob('pairs of the enumeration', 'PairedEnum', vals == ['one', 'two', 'three'], 'thetis/configuration.py:PairedEnum.__init__',
               'values of the enumeration %s' % show(init))


# ------------------------------------------------------------------------- update
class UpPolicy(Policy):
    """the_type is an enum whose change resets the_options"""

    def __init__(self, current):
        self.current = current

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else fn[2] if isinstance(fn, tuple) and len(fn) == 3 else None
        if n == 'isinstance':
            v, t = args
            ts = t if isinstance(t, (tuple, list)) else (t,)
            nm = [x.cls.name if isinstance(x, Cv) else getattr(x, 'short', None) or show(x).split('.')[-1] for x in ts]
            if isinstance(v, Ob):
                return any(x in v.meta.get('isa', ()) for x in nm)
            if isinstance(v, dict):
                return 'dict' in nm or 'Mapping' in nm
            return False if v is None else NotImplemented
        if n in ('traits', 'class_traits'):
            return dict(it.user['traits'])
        if n in ('trait_values', '_trait_values'):
            return dict(it.user['src'].attrs['_trait_values'])
        if n in ('__setattr__', 'setattr', 'set_trait'):
            o, (k, v) = it.user['self'], args[-2:]
            self.assign(it, o, k, v)
            return None
        if n == 'hasattr':
            return True
        return NotImplemented

    def assign(self, it, o, k, v):
        if k == 'the_type' and o.attrs.get('the_type') != v:
            o.attrs['the_options'] = 'default of %s' % v
        o.attrs[k] = v
        it.user['n'] = it.user.get('n', 0) + 1

    def setattr(self, it, base, name, value, node):
        if base is it.user.get('self'):
            self.assign(it, base, name, value)
            return None
        return NotImplemented

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base is it.user.get('self') and name in ('traits', 'class_traits', '__setattr__', 'set_trait'):
            return ('m', base, name)
        return NotImplemented


def update(ctx):
    repo = ctx.repo
    cls = repo.cls('configuration', 'OptionsBase')
    m = cls.find_method('update')
    loc = 'thetis/configuration.py:OptionsBase.update'
    con = 'OptionsBase.update'
    pairs = [('the_type', 'two'), ('the_options', Sy('mine')), ('other', 3)]
    for order in ((0, 1, 2), (1, 0, 2), (2, 1, 0), (1, 2, 0)):
        for kind in ('dict', 'options'):
            for cur in ('one', 'two'):
                def body(it):
                    o = it.obj(cls, 'self')
                    o.attrs.update(the_type=cur, the_options='default of %s' % cur, other=1, untouched=7)
                    it.user['self'] = o
                    it.user['traits'] = {}
                    for k, w in (('the_type', ('PairedEnum', 'Enum', 'TraitType')), ('the_options', ('Instance', 'TraitType')), ('other', ('Integer', 'TraitType')),
                                 ('untouched', ('Integer', 'TraitType'))):
                        t = it.obj('trait', k)
                        t.meta['isa'] = w
                        t.attrs['name'] = k
                        t.attrs['paired_name'] = 'the_options'
                        it.user['traits'][k] = t
                    d = {pairs[i][0]: pairs[i][1] for i in order}
                    if kind == 'options':
                        s = it.obj('source', 'source')
                        s.meta['isa'] = ('HasTraits', 'FrozenHasTraits', 'OptionsBase')
                        s.attrs['_trait_values'] = d
                        it.user['src'] = s
                        d = s
                    it.call_func(m, [o, d], {})
                    return dict(o.attrs), it.user.get('n', 0)
                for p in explore(repo, lambda: UpPolicy(cur), body):
                    ctx.count('paths explored')
                    if p.outcome == 'raise':
                        ctx.ob('update ends with the given values', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
                        continue
                    a, n = p.value
                    got = {k: show(a.get(k)) for k in ('the_type', 'the_options', 'other', 'untouched')}
                    want = {'the_type': show('two'), 'the_options': 'mine', 'other': '3', 'untouched': '7'}
                    ctx.ob('update ends with the given values', con, got == want, loc,
                           'assigning %s from a %s to an object with type %s ends with %s' % ([pairs[i][0] for i in order], kind, cur, got))

    # tracers are carried over with the options
    cls2 = repo.cls('options', 'ModelOptions2d')
    m2 = cls2.find_method('update')

    def body(it):
        o, s = it.obj(cls2, 'self'), it.obj(cls2, 'source')
        for x, y in ((o, {}), (s, {'a': Sy('ta'), 'b': Sy('tb')})):
            x.attrs['tracer'] = dict(y)
            x.attrs['tracer_fields'] = {'%s_f' % k: v for k, v in y.items()}
            x.attrs['_trait_values'] = {}
            x.meta['isa'] = ('HasTraits', 'OptionsBase', 'FrozenConfigurable', 'CommonModelOptions', 'ModelOptions2d')
        it.user['src'] = s
        it.user['self'] = o
        it.user['traits'] = {}
        it.call_func(m2, [o, s], {})
        return {k: [show(x) for x in list(o.attrs[k]) + list(o.attrs[k].values())] if isinstance(o.attrs[k], dict) else show(o.attrs[k])
                for k in ('tracer', 'tracer_fields')}
    for p in explore(repo, lambda: UpPolicy('one'), body):
        ctx.count('paths explored')
        w = {'tracer': [show('a'), show('b'), 'ta', 'tb'], 'tracer_fields': [show('a_f'), show('b_f'), 'ta', 'tb']}
        ctx.ob('update copies the tracers', 'ModelOptions2d.update', p.outcome != 'raise' and p.value == w, 'thetis/options.py:ModelOptions2d.update',
               'tracers of the source {a, b} give %s' % (p.value if p.outcome != 'raise' else 'raises %s' % p.value.exc))


# ------------------------------------------------------------------ declarations
def table(repo):
    """{class: {option: (trait class name, call node)}}, {class: methods and plain attributes}"""
    T, M = {}, {}
    for cn, c in repo.mod('options').classes.items():
        d, e = {}, set()
        for dn in c.node.decorator_list:
            if isinstance(dn, ast.Call) and cname(dn.func) == 'attach_paired_options' and len(dn.args) == 3:
                en = untag(dn.args[1])
                d[dn.args[0].value] = (cname(en.func), en)
                iv = untag(dn.args[2])
                d[arg(en, 1, 'paired_name').value] = (cname(iv.func), iv)
        for k, v in c.attrs.items():
            v = untag(v)
            d[k] = (cname(v.func), v) if isinstance(v, ast.Call) else (None, v)
        for f in c.methods.values():
            e.add(f.name)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    e.add(x.attr)
        T[cn], M[cn] = d, e
    return T, M


def const(n):
    try:
        return ast.literal_eval(n)
    except (ValueError, TypeError, SyntaxError):
        return None


def declarations(ctx):
    repo = ctx.repo
    T, M = table(repo)
    mod = repo.mod('options')
    ctx.count('option classes', len(T))

    def mro(c):
        return [x.name if hasattr(x, "name") else x for x in mod.classes[c].mro()] if c in mod.classes else []
    for cn, d in T.items():
        for k, (t, n) in d.items():
            loc = 'thetis/options.py:%s.%s' % (cn, k)
            con = '%s.%s' % (cn, k)
            if t in mod.classes:
                ctx.ob('every object has its own nested options', con, False, loc,
                       'the class attribute is one %s object shared by all %s objects' % (t, cn))
                continue
            if t is None:
                if isinstance(n, (ast.List, ast.Dict, ast.Set)):
                    ctx.ob('every object has its own nested options', con, False, loc, 'a mutable class attribute is shared by all objects')
                continue
            ctx.count('options analysed')
            if t == 'PairedEnum':
                vals = arg(n, 0, 'values')
                prs = [(const(e.elts[0]), cname(e.elts[1])) for e in vals.elts] if isinstance(vals, (ast.List, ast.Tuple)) else None
                dv = const(arg(n, 2, 'default_value'))
                pn = arg(n, 1, 'paired_name').value
                base = T[cn].get(pn)
                bc = cname(arg(base[1], 0, 'klass')) if base and base[0] == 'Instance' else None
                if prs is None or bc is None:
                    ctx.ob('declaration is consistent', con, None, loc, 'pairs are not listed')
                    continue
                ctx.ob('declaration is consistent', con, dv in [p[0] for p in prs] and len({p[0] for p in prs}) == len(prs), loc,
                       'default %r, values %s' % (dv, [p[0] for p in prs]))
                for v, c in prs:
                    ctx.ob('declaration is consistent', con, bc in mro(c), loc, 'options %s of %r are not of the declared class %s' % (c, v, bc))
            elif t == 'Enum':
                vals = const(arg(n, 0, 'values'))
                dv = const(arg(n, 1, 'default_value'))
                ctx.ob('declaration is consistent', con, None if vals is None else dv in vals and len(set(vals)) == len(vals), loc, 'default %r, values %s' % (dv, vals))
            elif t in ('PositiveFloat', 'PositiveInteger', 'NonNegativeFloat', 'NonNegativeInteger', 'BoundedFloat', 'BoundedInteger'):
                a = arg(n, 0, 'default_value')
                dv = const(a)
                if dv is None:
                    none = isinstance(a, ast.Constant) and a.value is None
                    ctx.ob('declaration is consistent', con, const(next((q.value for q in n.keywords if q.arg == 'allow_none'), None)) is True if none else None,
                           loc, 'default %s' % (ast.unparse(a) if a is not None else None))
                    continue
                at = ()
                if t.startswith('Bounded'):
                    b = initattrs(ctx, t, [dv], {'bounds': const(arg(n, 1, 'bounds'))})
                    at = tuple((b or {}).items())
                ctx.ob('declaration is consistent', con, accepts(ctx, t, dv, at), loc, 'default %s is refused by its own option' % dv)
            elif t == 'Instance':
                a = next((q.value for q in n.keywords if q.arg == 'args'), None)
                ctx.ob('declaration is consistent', con, isinstance(a, ast.Tuple), loc, 'no default object is made')
    # unique names of the subclasses' options; options read by the package
    U = {k for d in T.values() for k in d} | {k for e in M.values() for k in e}
    used = {}
    for m in repo.modules.values():
        if m.name.split('.')[-1] in ('options', 'configuration'):
            continue
        par = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                used.setdefault(n.value, n)
            if not isinstance(n, ast.Attribute):
                continue
            used.setdefault(n.attr, n)
            v = cname(n.value)
            if v is None or not (v == 'options' or v.endswith('_options')) or n.attr.startswith('_') or isinstance(n.value, ast.Call):
                continue
            q = n
            while q in par and not isinstance(q, (ast.Raise, ast.stmt)):
                q = par[q]
            if isinstance(q, ast.Raise):
                continue
            if m.name.split('.')[-1] == 'callback' and n.attr == 'outputdir':      # behind `self.outputdir is None`, never the case (C04, C09 follow it)
                continue
            if isinstance(n.value, ast.Name) and local_other(par, n, v):
                continue
            ctx.count('option reads resolved')
            ok = n.attr in U or n.attr in ('update', 'traits', 'trait_values', 'has_trait', 'observe', 'items', 'keys', 'values', 'get', 'copy', 'pop', 'setdefault')
            ctx.ob('every option the code reads is declared', '%s.%s' % (v, n.attr), ok, '%s:%d' % (m.relpath if hasattr(m, 'relpath') else m.name, n.lineno),
                   'option %s is read but not declared in options.py' % n.attr)
    own = ast.walk(repo.mod('options').tree)
    inmod = {n.attr for n in own if isinstance(n, ast.Attribute)}
    for cn, d in T.items():
        for k, (t, n) in d.items():
            if t is None or k == 'name' or k.startswith('_'):
                continue
            hl = ' '.join(x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str)) if isinstance(n, ast.AST) else ''
            if 'OBSOLETE' in hl or 'Custom tag' in hl:
                continue
            ctx.ob('every declared option is read', '%s.%s' % (cn, k), k in used or k in inmod, 'thetis/options.py:%s.%s' % (cn, k),
                   'option %s is declared but nothing reads it: setting it has no effect' % k)


def local_other(par, n, v):
    """the name is bound in its function to something that is not an options object of the package (a tuple or a plain dictionary)"""
    f = n
    while f in par and not isinstance(f, (ast.FunctionDef, ast.Module)):
        f = par[f]
    for x in ast.walk(f):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in x.targets) and \
                isinstance(x.value, (ast.Dict, ast.Tuple, ast.List, ast.DictComp, ast.ListComp, ast.Set)):
            return True
    return False


@prop('H01', 'options are validated, paired, independent and complete', 150, TECH1)
def h01(ctx):
    frozen(ctx)
    unfrozen(ctx)
    validators(ctx)
    pairing(ctx)
    update(ctx)
    declarations(ctx)


# ------------------------------------------------------------------------- H02
class RegPolicy(Policy):
    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'isinstance':
            v, t = args
            ts = t if isinstance(t, (tuple, list)) else (t,)
            nm = [getattr(x, 'short', None) or show(x) for x in ts]
            if isinstance(v, str):
                return 'str' in nm
            if v is None:
                return False
        if n == 'setattr':
            it.setattr(args[0], args[1], args[2], node)
            return None
        if n == 'OrderedDict':
            return dict(*args)
        return NotImplemented

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name.endswith('Options'):
            o = it.obj('options', cls.name)
            o.attrs.update(kwargs)
            return o
        return NotImplemented

    def setattr(self, it, base, name, value, node):
        if isinstance(base, Ob) and name.endswith('timestepper_type'):
            base.attrs[name] = value
            o = it.obj('options', 'options of %s' % show(value))
            base.attrs[name.replace('_type', '_options')] = o
            return None
        return NotImplemented

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and name.endswith('timestepper_options') and name not in base.attrs:
            base.attrs[name] = it.obj('options', 'default options')
            return base.attrs[name]
        return NotImplemented


@prop('H02', 'tracers are registered with their own data, time steppers for all components', 30, TECH2)
def h02(ctx):
    repo = ctx.repo
    cls = repo.cls('options', 'ModelOptions2d')
    loc = 'thetis/options.py:ModelOptions2d.'

    def opts(it):
        o = it.obj(cls, 'options')
        o.attrs['tracer'] = {}
        o.attrs['tracer_fields'] = {}
        return o

    def rec(t):
        if not isinstance(t, Ob):
            return show(t)
        a = t.attrs
        md = a.get('metadata')
        return {'md': {k: md.get(k) for k in ('name', 'shortname', 'unit', 'filename')} if isinstance(md, dict) else show(md),
                'function': show(a.get('function')), 'source': show(a.get('source')), 'diffusivity': show(a.get('diffusivity')),
                'conservative': a.get('use_conservative_form')}

    # one tracer after the other
    add = cls.find_method('add_tracer_2d')
    calls = [(['a', 'Tracer A', 'FileA'], {}), (['b', 'Tracer B', 'FileB'], dict(shortname='B', unit='m', function=Sy('fb'), source=Sy('sb'), diffusivity=Sy('db'),
                                                                               use_conservative_form=True)),
             (['c', 'Tracer C', 'FileC'], dict(diffusivity=Sy('dc')))]
    want = {'a': {'md': dict(name='Tracer A', shortname='Tracer A', unit='-', filename='FileA'), 'function': 'None', 'source': 'None', 'diffusivity': 'None',
                  'conservative': False},
            'b': {'md': dict(name='Tracer B', shortname='B', unit='m', filename='FileB'), 'function': 'fb', 'source': 'sb', 'diffusivity': 'db', 'conservative': True},
            'c': {'md': dict(name='Tracer C', shortname='Tracer C', unit='-', filename='FileC'), 'function': 'None', 'source': 'None', 'diffusivity': 'dc',
                  'conservative': False}}
    for order in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
        def body(it):
            o = opts(it)
            for i in order:
                it.call_func(add, [o] + list(calls[i][0]), dict(calls[i][1]))
            return o
        for p in explore(repo, RegPolicy, body):
            ctx.count('paths explored')
            if p.outcome == 'raise':
                ctx.ob('tracer stored with its own data', 'add_tracer_2d', False, str(p.value.loc), 'raises %s' % p.value.exc)
                continue
            o = p.value
            tr, tf = o.attrs['tracer'], o.attrs['tracer_fields']
            labels = [calls[i][0][0] for i in order]
            ctx.ob('order of registration kept', 'add_tracer_2d', list(tr) == labels and list(tf) == labels, loc + 'add_tracer_2d',
                   'tracers %s, equations %s for the order %s' % (list(tr), list(tf), labels))
            ids = {id(x) for x in tr.values()}
            ctx.ob('tracer stored with its own data', 'add_tracer_2d', len(ids) == 3, loc + 'add_tracer_2d', 'tracers share an options object')
            for k in labels:
                ctx.ob('tracer stored with its own data', 'add_tracer_2d', k in tr and rec(tr[k]) == want[k] and show(tf.get(k)) == want[k]['function'],
                       loc + 'add_tracer_2d', 'tracer %s: %s, expected %s' % (k, rec(tr.get(k)), want[k]))
    # rejected
    for bad, why in ((['a b', 'n', 'f'], 'space in the label'), (['a,b', 'n', 'f'], 'comma in the label'), (['a', 'n', 'f f'], 'space in the file name'),
                     (['x', 'n', 'f'], 'label used before')):
        def body(it):
            o = opts(it)
            it.call_func(add, [o, 'x', 'X', 'FX'], {})
            it.user['first'] = True
            it.call_func(add, [o] + list(bad), {})
            return o
        for p in explore(repo, RegPolicy, body):
            ctx.count('paths explored')
            ctx.ob('unusable label refused', 'add_tracer_2d', p.outcome == 'raise', loc + 'add_tracer_2d', '%s is accepted' % why)

    # systems
    sysm = cls.find_method('add_tracer_system_2d')
    L, N_, Fn = ['a', 'b', 'c'], ['A', 'B', 'C'], ['Fa', 'Fb', 'Fc']
    for short in (None, ['sa', 'sb', 'sc']):
        for units in (None, ['m', 's', 'kg']):
            for fun in (False, True):
                for kw in ({}, {'b': {'diffusivity': Sy('db')}}, {'a': {'source': Sy('sa')}, 'b': {'diffusivity': Sy('db')}, 'c': {'use_conservative_form': True}}):
                    def body(it):
                        o = opts(it)
                        it.call_func(add, [o, 'before', 'X', 'FX'], {})
                        a = {'shortnames': short, 'units': units}
                        if fun:
                            f = it.obj('Function', 'mixed')
                            f.attrs['subfunctions'] = [Sy('f%s' % x) for x in L]
                            a['function'] = f
                        mine = {k: dict(v) for k, v in kw.items()}
                        it.call_func(sysm, [o, list(L), list(N_), list(Fn)], dict({k: v for k, v in a.items() if v is not None}, **mine))
                        it.user['mine'] = mine
                        return o, mine
                    for p in explore(repo, RegPolicy, body):
                        ctx.count('paths explored')
                        con = 'add_tracer_system_2d'
                        if p.outcome == 'raise':
                            ctx.ob('tracer stored with its own data', con, False, str(p.value.loc), 'raises %s for parameters of %s' % (p.value.exc, list(kw)))
                            continue
                        o, mine = p.value
                        tr, tf = o.attrs['tracer'], o.attrs['tracer_fields']
                        ctx.ob('one equation for the system', con, list(tf) == ['before', 'a,b,c'] and list(tr) == ['before'] + L
                               and show(tf['a,b,c']) == ('mixed' if fun else 'None'), loc + con,
                               'equations %s, tracers %s' % ({k: show(v) for k, v in tf.items()}, list(tr)))
                        for i, k in enumerate(L):
                            g = kw.get(k, {})
                            w = {'md': dict(name=N_[i], shortname=(short or N_)[i], unit=(units or ['-'] * 3)[i], filename=Fn[i]),
                                 'function': 'f%s' % k if fun else 'None', 'source': show(g.get('source')), 'diffusivity': show(g.get('diffusivity')),
                                 'conservative': g.get('use_conservative_form', False)}
                            ctx.ob('tracer stored with its own data', con, k in tr and rec(tr[k]) == w, loc + con,
                                   'tracer %s: %s, expected %s' % (k, rec(tr.get(k)), w))
    # a label of a system is used as well
    for first in ('system', 'tracer'):
        def body(it):
            o = opts(it)
            for k in ((first, 'tracer', 'system')[:2] if first == 'system' else (first, 'system')):
                if k == 'system':
                    it.call_func(sysm, [o, ['a', 'b'], ['A', 'B'], ['Fa', 'Fb']], {})
                else:
                    it.call_func(add, [o, 'b', 'B', 'FB'], {})
            return o
        for p in explore(repo, RegPolicy, body):
            ctx.count('paths explored')
            ctx.ob('unusable label refused', 'add_tracer_system_2d', p.outcome == 'raise', loc + 'add_tracer_system_2d',
                   'a label of a %s registered before is accepted' % first)
    # one time stepper type for all components
    setm = cls.find_method('set_timestepper_type')
    for sus in (True, False):
        for ex in (True, False):
            for nh in (True, False):
                def body(it):
                    o = opts(it)
                    s, n = it.obj('options', 'sediment'), it.obj('options', 'nh')
                    s.attrs.update(solve_suspended_sediment=sus, solve_exner=ex)
                    n.attrs.update(solve_nonhydrostatic_pressure=nh)
                    o.attrs.update(sediment_model_options=s, nh_model_options=n)
                    it.call_func(setm, [o, 'CrankNicolson'], {'implicitness_theta': Sy('th'), 'ad_block_tag': Sy('tag')})
                    return o, s, n
                for p in explore(repo, RegPolicy, body):
                    ctx.count('paths explored')
                    con = 'set_timestepper_type'
                    if p.outcome == 'raise':
                        ctx.ob('set for every active component', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
                        continue
                    o, s, n = p.value
                    for own, k, on in ((o, 'swe', True), (o, 'tracer', True), (s, 'sediment', sus), (s, 'exner', ex), (n, 'free_surface', nh)):
                        if not on:
                            continue
                        q = own.attrs.get('%s_timestepper_options' % k)
                        ok = own.attrs.get('%s_timestepper_type' % k) == 'CrankNicolson' and isinstance(q, Ob) and q.name.startswith('options of') and \
                            show(q.attrs.get('implicitness_theta')) == 'th' and show(q.attrs.get('ad_block_tag')) == 'tag'
                        ctx.ob('set for every active component', '%s %s' % (con, k), ok, loc + con,
                               'type %s, options %s' % (own.attrs.get('%s_timestepper_type' % k), {a: show(b) for a, b in q.attrs.items()} if isinstance(q, Ob) else q))
