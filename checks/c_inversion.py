"""G03: inversion cost function and its book-keeping."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Fv, Cv, explore, show, callee_name, key, is_num, RaiseSig
from sa.repo import AnalysisError, ClassInfo
from sa.formdb import repo as get_repo
from sa.nparr import NP, need, poly
from sa import nparr
from sa.pw import same
from sa.poly import Poly, show_poly, make_fn

NS = 4                      # stations
LOCAL = (2, 0, 3)           # station of each local point
REAL = ('inversion_tools',)


def P(s):
    return poly(Sy(s)) if isinstance(s, str) else poly(s)


class IV(NP):
    """finite element functions hold one value (a field) or one value per observation point"""

    def function(self, it, val, name='function', space=None):
        o = it.obj('Function', name)
        o.meta.update(val=val, isa=('Function',), space=space)
        return o

    @staticmethod
    def isfun(v):
        return isinstance(v, Ob) and 'val' in v.meta

    def newfun(self, it, space, name):
        sh = space.meta.get('shape') if isinstance(space, Ob) else None
        v = self.filled(it, sh, 0) if sh else Sy('unset')
        return self.function(it, v, name, space)

    def isinst(self, v, t):
        return None

    def ev(self, it, e):
        """current value of an expression"""
        if isinstance(e, Ext) and e.short == 'dx':
            return Ext('dx')
        if self.isfun(e):
            return e.meta['val']
        if isinstance(e, Ex):
            if e.op == 'neg':
                return it.neg(self.ev(it, e.args[0]))
            if e.op in ('+', '-', '*', '/', '**'):
                return it.binop(e.op, self.ev(it, e.args[0]), self.ev(it, e.args[1]))
            if e.op == 'call':
                n = callee_name(e.args[0])
                a = [self.ev(it, x) for x in e.args[1]]
                if n in ('inner', 'dot'):
                    x, y = a
                    if self.isnd(x) and x.meta['a'].ndim == 2:
                        return self.out(it, self.einsum(it, 'ij,ij->i', x, y))
                    return it.binop('*', x, y)
                if n == 'sqrt':
                    return it.binop('**', a[0], Fraction(1, 2))
                if n == 'abs':
                    return self.ew(it, lambda x: self.fn('abs', [x]), a[0])
                if n in ('max_value', 'min_value'):
                    return (max if n == 'max_value' else min)(a, key=self.num)
        return e

    def attr(self, it, base, name, node):
        if self.isfun(base):
            if name == 'dat':
                return ('dat', base)
            if name in ('assign', 'project', 'interpolate', 'rename', 'function_space', 'name', 'copy'):
                return ('fun', base, name)
            if name == 'comm':
                return it.user.setdefault('comm', it.obj('comm', None))
            if name == 'block_variable':
                return NotImplemented
        if isinstance(base, tuple) and base and base[0] == 'dat':
            if name in ('data', 'data_ro', 'data_with_halos'):
                v = base[1].meta['val']
                return v if self.isnd(v) else ('fielddata', v)
        if isinstance(base, tuple) and base and base[0] == 'fielddata' and name == 'min':
            return ('fieldmin', base[1])
        if isinstance(base, Ob) and base.clsname in ('comm', 'space', 'ufl_element') and name in ('allreduce', 'mesh', 'ufl_element', 'family'):
            return (base.clsname, base, name)
        return super().attr(it, base, name, node)

    def abuiltin(self, v):
        return v

    def call(self, it, fn, args, kwargs, node):
        args = list(args)
        if isinstance(fn, tuple) and fn:
            if fn[0] == 'fun':
                f, what = fn[1], fn[2]
                if what == 'function_space':
                    return f.meta['space'] or it.user.setdefault('somespace', self.space(it, None))
                if what == 'name':
                    return f.name
                if what == 'copy':
                    return self.function(it, f.meta['val'], f.name, f.meta['space'])
                if what == 'rename':
                    return None
                return self.setfun(it, f, what, args[0], node)
            if fn[0] == 'fieldmin':
                return Ex('call', Ext('localmin'), (fn[1],), ())
            if fn[0] == 'comm':
                return Ex('call', Ext('allreduce_' + show(kwargs.get('op', args[1] if len(args) > 1 else '')).split('.')[-1]), (args[0],), ())
            if fn[0] == 'space':
                return it.user.setdefault('mesh', it.obj('mesh', None)) if fn[2] == 'mesh' else it.obj('ufl_element', None)
            if fn[0] == 'ufl_element':
                return 'Real'
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        f = getattr(fn, 'func', None)
        if f is not None and f.name in ('print_output', 'warning', 'info', 'create_directory', 'print_function_value_range'):
            return None
        if f is not None and f.name == 'domain_constant':
            return self.function(it, args[0], 'constant')
        if f is not None and f.name == 'get_functionspace':
            return self.space(it, None)
        if n == 'VertexOnlyMesh':
            it.user['points'] = args[1]
            m = it.obj('mesh0d', None)
            p = args[1].meta['a']
            m.attrs['coordinates'] = self.function(it, self.nd(it, [[p[j][0], p[j][1]] for j in LOCAL]), 'coordinates')
            return m
        if n in ('FunctionSpace', 'VectorFunctionSpace', 'TensorFunctionSpace'):
            if isinstance(args[0], Ob) and args[0].clsname == 'mesh0d':
                k = len(LOCAL)
                o = self.space(it, k if n == 'FunctionSpace' else (k, kwargs.get('dim', 2)))
                d = it.obj('dset', None)
                d.attrs['size'] = k
                o.attrs['dof_dset'] = d
                return o
            return self.space(it, None)
        if n == 'Function':
            return self.newfun(it, args[0], kwargs.get('name', 'function'))
        if n == 'Constant':
            return args[0]
        if n == 'CellSize':
            return Sy('h')
        if n == 'allreduce':
            return Ex('call', Ext('allreduce_' + show(kwargs.get('op', args[1] if len(args) > 1 else '')).split('.')[-1]), (args[0],), ())
        if n == 'dx':
            return Ext('dx')
        if n in ('inner', 'dot', 'sqrt', 'max_value', 'min_value', 'abs') and not (isinstance(fn, Ext) and fn.name.startswith('numpy')):
            return Ex('call', Ext(n), tuple(args), ())
        if n == 'assemble':
            it.user.setdefault('tags', []).append(kwargs.get('ad_block_tag'))
            self.on_assemble(it)
            e = args[0]
            v = self.ev(it, e)
            if self.isnd(v):
                s = 0
                for x in v.meta['a'].reshape(-1):
                    s = it.binop('+', s, self.scal(x))
                return s
            return Ex('call', Ext('assemble'), (v,), ())
        if n == 'interp1d':
            return ('ip', args[0], args[1], dict(kwargs))
        if isinstance(fn, tuple) and fn and fn[0] == 'ip':
            return Sy('ip(%s, %s, %s)' % (show(fn[1]), show(fn[2]), show(args[0])))
        if n == 'get_working_tape':
            return it.obj('tape', None)
        return super().call(it, fn, args, kwargs, node)

    def on_assemble(self, it):
        pass

    def space(self, it, shape):
        o = it.obj('space', None)
        o.meta['shape'] = shape
        return o

    def setfun(self, it, f, what, v, node):
        old = f.meta['val']
        if what == 'interpolate' and self.isnd(old) and self.isfun(v) and not self.isnd(v.meta['val']):
            a = old.meta['a']
            new = nparr.np.empty(a.shape, dtype=object)
            for i in nparr.np.ndindex(*a.shape):
                new[i] = Sy('%s@%s' % (show(v.meta['val']), ','.join(map(str, i))))
            f.meta['val'] = self.nd(it, new)
            return f
        v = self.ev(it, v)
        if self.isnd(old):
            f.meta['val'] = self.nd(it, v.meta['a'].copy()) if self.isnd(v) else self.filled(it, old.meta['a'].shape, v)
        else:
            f.meta['val'] = v
        return f

    def binop(self, it, op, a, b, node):
        if self.isfun(a) or self.isfun(b) or any(isinstance(x, Ext) and x.short == 'dx' for x in (a, b)) and (self.isnd(a) or self.isnd(b)):
            if any(isinstance(x, Ext) and x.short == 'dx' for x in (a, b)) and (self.isnd(a) or self.isnd(b)):
                return a if self.isnd(a) else b
            return Ex(op, a, b)
        return super().binop(it, op, a, b, node)

    def decide(self, it, cond):
        s = show(cond)
        if s.endswith('no_exports') or s.endswith('test_consistency'):
            return False
        return super().decide(it, cond)


REP = dict(t=5., t2=9., **{'sx%d' % i: float(3 * i) for i in range(NS)}, **{'sy%d' % i: 1. - i * i for i in range(NS)})
# observation periods: before, around, after the two times
PERIODS = {0: (0., 10.), 1: (6., 8.), 2: (0., 5.), 3: (8., 9.)}


def manager(it, repo, vector, periods, scaling=True):
    cls = repo.mod('inversion_tools').classes['StationObservationManager']
    m = it.obj('mesh', None)
    m.attrs['geometric_dimension'] = 2
    s = it.instantiate(cls, [m], {})
    if scaling:
        it.setattr(s, 'cost_function_scaling', Sy('scaling'))
    names = ['st%d' % i for i in range(NS)]
    kw = dict(start_times=[Sy('b%d' % i) for i in range(NS)], end_times=[Sy('e%d' % i) for i in range(NS)]) if periods else {}
    d = [Sy('u%d' % i) for i in range(NS)]
    if vector:
        d = (d, [Sy('v%d' % i) for i in range(NS)])
    P_ = it.policy
    it.call(it.getattr(s, 'register_observation_data'), [names, 'uv' if vector else 'elev', [Sy('time%d' % i) for i in range(NS)],
            P_.nd(it, [Sy('sx%d' % i) for i in range(NS)]), P_.nd(it, [Sy('sy%d' % i) for i in range(NS)])], dict(data=d, **kw))
    it.call(it.getattr(s, 'construct_evaluator'), [], {})
    it.call(it.getattr(s, 'set_model_field'), [P_.function(it, Sy('model'), 'model')], {})
    return s


def misfit(vector, periods, t, scaling='scaling', weight=None):
    tot = Poly()
    for i, j in enumerate(LOCAL):
        b, e = PERIODS[j]
        if periods and not b <= REP[t] <= e:
            continue
        if vector:
            d = Poly()
            for c, k in (('u', 0), ('v', 1)):
                x = P('ip(time%d, %s%d, %s)' % (j, c, j, t)) - P('model@%d,%d' % (i, k))
                d = d + x * x
        else:
            x = P('ip(time%d, u%d, %s)' % (j, j, t)) - P('model@%d' % i)
            d = x * x
        w = P(scaling) if scaling else Poly.const(1)
        if weight:
            w = w / weight(j)
        tot = tot + w * d
    return tot


def rep():
    r = dict(REP, scaling=2., **{'b%d' % j: PERIODS[j][0] for j in PERIODS}, **{'e%d' % j: PERIODS[j][1] for j in PERIODS})
    return r


def run(ctx, repo, rule, con, loc, body, judge, pol=None):
    ps = list(explore(repo, pol or (lambda: IV(rep())), body, 16))
    if len(ps) != 1:
        ctx.ob(rule, con, None, loc, '%d partitions: %s' % (len(ps), str([p.guards() for p in ps])[:300]))
        return
    if ps[0].outcome != 'return':
        ctx.ob(rule, con, False, loc, 'raises %s' % (ps[0].value,))
        return
    try:
        bad = judge(ps[0])
    except AnalysisError as e:
        ctx.ob(rule, con, None, loc, str(e))
        return
    ctx.ob(rule, con, bad is None, loc, bad or '')


def eqp(got, want, what):
    g = poly(got)
    return None if same(g, want) else '%s is %s, expected %s' % (what, show_poly(g, 5), show_poly(want, 5))


def cost(ctx, repo):
    cls = repo.mod('inversion_tools').classes['StationObservationManager']
    loc = cls.find_method('eval_cost_function').loc()
    for vector, periods, scaling in itertools.product((False, True), (False, True), (True, False)):
        def body(it):
            s = manager(it, repo, vector, periods, scaling)
            f = it.getattr(s, 'eval_cost_function')
            return [it.call(f, [Sy(t)], {}) for t in ('t', 't2', 't')], s, it.user['points']

        def judge(p):
            (r, s, pts) = p.value
            for t, v in zip(('t', 't2', 't'), r):
                bad = eqp(v, misfit(vector, periods, t, 'scaling' if scaling else None), 'misfit at %s' % t)
                if bad:
                    return bad
            if [show(x) for x in s.attrs['simulation_time']] != ['t', 't2', 't']:
                return 'recorded times are %s' % show(s.attrs['simulation_time'])
            ips = [x for y in s.attrs['station_interpolators'] for x in (y if vector else [y])]
            for x in ips:
                if periods != (x[3].get('bounds_error') is False and x[3].get('fill_value') == 0):
                    return 'time interpolation outside of the data: %s' % show(x[3])
            if p.it.user['tags'] != ['misfit_eval'] * 3:
                return 'evaluations are tagged %s' % p.it.user['tags']
            return None
        run(ctx, repo, 'misfit', '%s data%s%s' % ('vector' if vector else 'scalar', ', observation periods' if periods else '', ', scaled' if scaling else ''),
            loc, body, judge)


class Acc(IV):
    def decide(self, it, cond):
        s = show(cond)
        if s.startswith('isinstance(solver'):
            return True
        return super().decide(it, cond)

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'var':
            return Ex('call', Ext('var'), tuple(args), ())
        f = getattr(fn, 'func', None)
        if f is not None and f.cls is not None and f.cls.name == 'ControlRegularizationManager':
            if f.name == 'eval_cost_function':
                return Sy('reg')
        return super().call(it, fn, args, kwargs, node)

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name == 'ControlRegularizationManager':
            it.user['regargs'] = (list(args), dict(kwargs))
            return it.obj(cls, 'reg')
        if cls.name == 'ControlManager':
            o = it.obj(cls, 'control manager')
            c = args[0]
            o.attrs['controls'] = list(c) if isinstance(c, (list, tuple)) else [c]
            o.attrs['mappings'] = kwargs.get('mappings', args[4] if len(args) > 4 else None)
            return o
        return super().instantiate(it, cls, args, kwargs, node)


def total(ctx, repo):
    mod = repo.mod('inversion_tools')
    cls = mod.classes['InversionManager']
    loc = cls.find_method('get_cost_function').loc()

    def weight(vector):
        def w(j):
            if vector:
                return P(Ex('call', Ext('var'), (Ex('call', Ext('numpy.sqrt'), (Ex('+', Ex('**', Sy('u%d' % j), 2), Ex('**', Sy('v%d' % j), 2)),), ()),), ()))
            return P(Ex('call', Ext('var'), (Sy('u%d' % j),), ()))
        return w
    for kind, byvar, reg in itertools.product(('scalar', 'vector', 'multi'), (False, True), (None, 'Hessian', 'Gradient')):
        if reg == 'Gradient' and kind != 'scalar':
            continue
        def body(it):
            if kind == 'multi':
                sm = it.instantiate(mod.classes['MultiStationObservationManager'],
                                    [{'elev': manager(it, repo, False, True), 'uv': manager(it, repo, True, True)}], {})
            else:
                sm = manager(it, repo, kind == 'vector', True)
            im = it.instantiate(cls, [sm], dict(no_exports=True, penalty_parameters=[Sy('g0'), Sy('g1')] if reg else []))
            fs = [it.policy.function(it, Sy('c%d' % i), 'c%d' % i) for i in range(2)]
            for f in fs:
                it.call(it.getattr(im, 'add_control'), [f], {})
            so = it.obj(repo.cls('solver2d', 'FlowSolver2d'), 'solver')
            so.attrs['_isfrozen'] = False
            so.attrs['simulation_time'] = Sy('t')
            kw = {} if reg != 'Gradient' else dict(regularisation_manager=reg, use_local_element_size=byvar, regularisation_scaling_factor=Sy('factor'))
            c = it.call(it.getattr(im, 'get_cost_function'), [so], dict(weight_by_variance=byvar, **kw))
            it.call(c, [], {})
            so.attrs['simulation_time'] = Sy('t2')
            it.call(c, [], {})
            return im, fs

        def judge(p):
            im, fs = p.value
            w = weight
            J = Poly()
            for t in ('t', 't2'):
                for k, v in (('scalar', False), ('vector', True)):
                    if kind in (k, 'multi'):
                        J = J + misfit(v, True, t, 'scaling', w(v) if byvar else None)
            r = P('reg') if reg else Poly()
            bad = eqp(im.attrs['J'], J + r, 'J') or eqp(im.attrs['J_misfit'], J, 'J_misfit') or eqp(im.attrs['J_reg'], r, 'J_reg')
            if bad:
                return bad
            if reg:
                a, k = p.it.user['regargs']
                names = ['function_list', 'gamma_list', 'penalty_term_scaling', 'calculator', 'calculator_kwargs']
                k = dict(zip(names, a), **k)
                if k['function_list'] != fs and [x.oid for x in k['function_list']] != [x.oid for x in fs]:
                    return 'regularised functions are %s' % show(k['function_list'])
                if [show(x) for x in k['gamma_list']] != ['g0', 'g1']:
                    return 'penalty parameters are %s' % show(k['gamma_list'])
                if not (isinstance(k['calculator'], Cv) and k['calculator'].cls.name == reg + 'RegularizationCalculator'):
                    return 'calculator is %s' % show(k['calculator'])
                if (k.get('calculator_kwargs') or {}).get('use_local_element_size', True) is not (byvar or reg == 'Hessian'):
                    return 'use_local_element_size is not handed on'
                if not same(P(k['penalty_term_scaling']), P('factor') if reg == 'Gradient' else Poly.const(1)):
                    return 'scaling factor is %s' % show(k['penalty_term_scaling'])
            return None
        run(ctx, repo, 'cost function', '%s observations%s%s' % (kind, ', weighted by variance' if byvar else '', ', %s regularisation' % reg if reg else ''), loc, body,
            judge, lambda: Acc(rep()))


class Reg(IV):
    def on_assemble(self, it):
        it.user.setdefault('order', []).append('assemble')

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name in ('GradientRecoverer2D', 'HessianRecoverer2D'):
            o = it.obj(cls.name, None)
            ps = cls.find_method('__init__').params()
            a = dict(zip([x for x in ps if x != 'self'], args), **kwargs)
            o.attrs['solve'] = ('solve', cls.name, a)
            return o
        return super().instantiate(it, cls, args, kwargs, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'solve':
            it.user.setdefault('order', []).append('solve')
            vals = list(fn[2].values())
            f = vals[0]
            if fn[1] == 'GradientRecoverer2D':
                vals[1].meta['val'] = Sy('grad %s' % show(f.meta['val']))
            else:
                vals[1].meta['val'] = Sy('hess %s' % show(f.meta['val']))
                if len(vals) > 2 and IV.isfun(vals[2]):
                    vals[2].meta['val'] = Sy('grad %s' % show(f.meta['val']))
            return None
        return super().call(it, fn, args, kwargs, node)


def regularisation(ctx, repo):
    mod = repo.mod('inversion_tools')
    man = mod.classes['ControlRegularizationManager']
    for kind, local in (('Gradient', True), ('Gradient', False), ('Hessian', True), ('Hessian', False), ('RSpace', None)):
        cls = mod.classes[kind + 'RegularizationCalculator']
        r = dict(rep(), f0=-3., f1=.0001, eps=1e-3)

        def body(it):
            fs = [it.policy.function(it, Sy('f%d' % i), 'f%d' % i) for i in range(2)]
            kw = {} if local is None else dict(use_local_element_size=local)
            m = it.instantiate(man, [fs, [Sy('g0'), Sy('g1')], Sy('reg_scaling'), Cv(cls)], dict(calculator_kwargs=kw or None))
            for i, f in enumerate(fs):
                f.meta['val'] = Sy('n%d' % i)
            return it.call(it.getattr(m, 'eval_cost_function'), [], {})

        def judge(p):
            area = poly(Ex('call', Ext('assemble'), (Ex('*', 1, Ext('dx')),), ()))
            h = P('h') if local in (True, None) else poly(Ex('call', Ext('allreduce_MIN'), (Ex('call', Ext('localmin'), (Sy('h'),), ()),), ()))
            tot = Poly()
            for i in range(2):
                if kind == 'Gradient':
                    x = P('g%d' % i) * P('grad n%d' % i) * P('grad n%d' % i) * h * h
                elif kind == 'Hessian':
                    x = P('g%d' % i) * P('hess n%d' % i) * P('hess n%d' % i) * h * h * h * h
                else:
                    d = P('n%d' % i) - P('f%d' % i)
                    x = P('g%d' % i) * d * d / (-P('f0') if i == 0 else Poly.const(Fraction(1, 1000)))
                tot = tot + poly(Ex('call', Ext('assemble'), (P('reg_scaling') * x / area * poly(Ext('dx')),), ()))
            return eqp(p.value, tot, 'regularisation term')
        run(ctx, repo, 'regularisation', '%s%s' % (kind, '' if local is None else ', local element size' if local else ', smallest element size'), cls.loc(), body,
            judge, lambda: Reg(r))


@prop('G03', 'inversion cost function: station matching, misfit, weights, observation periods, totals and regularisation terms', 10,
      'abstract execution over arrays with symbolic station data, local points in permuted order; lazily evaluated expressions take the values at assembly; '
      'polynomial identity with the documented sum')
def g03(ctx):
    need()
    repo = get_repo()
    cost(ctx, repo)
    total(ctx, repo)
    regularisation(ctx, repo)


# ---------------------------------------------------------------- constraints
def constraints(ctx, repo):
    cls = repo.mod('turbines').classes['MinimumDistanceConstraints']
    loc = cls.loc()
    for n in (1, 2, 3, 5):
        r = {'m%d' % i: (7. * i) % 5 + .1 * i for i in range(2 * n)}
        r['dmin'] = 2.
        sy = [Sy('m%d' % i) for i in range(2 * n)]

        def body(it):
            m = it.policy.nd(it, sy)
            c = it.instantiate(cls, [[[0., float(i)] for i in range(n)], Sy('dmin')], {})
            return [it.call(it.getattr(c, 'length'), [], {}), it.call(it.getattr(c, 'function'), [m], {}), it.call(it.getattr(c, 'jacobian'), [m], {})]

        def judge(p):
            L, f, J = p.value
            pairs = [(i, j) for i in range(n) for j in range(i)]
            f = [NP.scal(x) for x in f.meta['a'].reshape(-1)] if NP.isnd(f) else list(f)
            if L != len(pairs) or len(f) != len(pairs):
                return 'length() is %s, function() has %d entries for %d pairs' % (show(L), len(f), len(pairs))
            f = [poly(x) for x in f]
            want = {}
            for i, j in pairs:
                dx, dy = P('m%d' % (2 * i)) - P('m%d' % (2 * j)), P('m%d' % (2 * i + 1)) - P('m%d' % (2 * j + 1))
                want[(i, j)] = dx * dx + dy * dy - P('dmin') * P('dmin')
            left = dict(want)
            rows = []
            for g in f:
                k = next((k for k, w in left.items() if positive_multiple(g, w)), None)
                if k is None:
                    return '%s is not the constraint of a pair of turbines' % show_poly(g, 6)
                del left[k]
                rows.append(k)
            a = J.meta['a'] if NP.isnd(J) else None
            if a is None or a.shape != (len(pairs), 2 * n):
                return 'jacobian has shape %s' % (None if a is None else (a.shape,))
            for r_, g in enumerate(f):
                for k in range(2 * n):
                    if not same(poly(NP.scal(a[r_, k])), diff(g, 'm%d' % k)):
                        return 'row %d, column %d of the jacobian is %s, the derivative of the constraint is %s' % (
                            r_, k, show_poly(poly(NP.scal(a[r_, k])), 5), show_poly(diff(g, 'm%d' % k), 5))
            return None
        run(ctx, repo, 'minimum distance', '%d turbines' % n, loc, body, judge, lambda: NP(r))


def positive_multiple(g, w):
    for m, c in g.t.items():
        if m in w.t:
            q = Fraction(c) / Fraction(w.t[m])
            return q > 0 and same(g, q * w)
    return False


def diff(p, name):
    """derivative of a polynomial"""
    (a,) = P(name).atoms()
    out = Poly()
    for m, c in p.t.items():
        for x, e in m:
            if x == a:
                q = Poly.const(Fraction(c) * e)
                for y, k in m:
                    k = k - 1 if y == a else k
                    if k:
                        q = q * Poly.atom(y, k)
                out = out + q
    return out


# ------------------------------------------------------------------ callbacks
class Cb(IV):
    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'rec':
            it.user['log'].append((fn[1], list(args), dict(kwargs)))
            return None
        f = getattr(fn, 'func', None)
        if f is not None and f.cls is not None:
            if f.name in ('push_to_log', 'push_to_hdf5') or f.cls.name == 'ExportManager' and f.name == 'export':
                it.user['log'].append((f.name, list(args), dict(kwargs)))
                return None
            if f.name == '__init__' and f.cls.name in ('DiagnosticCallback', 'ExportManager'):
                it.user['log'].append((f.cls.name, list(args), dict(kwargs)))
                return None
        return super().call(it, fn, args, kwargs, node)


def tail(args, n):
    return list(args)[-n:] if n else []


def callbacks(ctx, repo):
    mod = repo.mod('optimisation')

    def ctrl(it, s, names=('c0', 'c1')):
        return [it.policy.function(it, Sy('%s_%s' % (s, n)), n) for n in names]

    def argsets(it):
        c, d, c2 = ctrl(it, 'control'), ctrl(it, 'deriv', ('d0', 'd1')), ctrl(it, 'next')
        return {1: [c], 2: [Sy('J'), c], 3: [Sy('J'), d, c], 4: [c2]}

    # return values, and every callback of a list is called in order with all arguments
    for n in (1, 2, 3):
        def body(it):
            it.user['log'] = []
            a = argsets(it)[n]
            cb = it.obj(mod.classes['ControlsExportOptimisationCallback'], 'cb')
            cb.attrs['export'] = ('rec', 'export')
            return it.call(cb, a, {}), a, it.user['log']

        def judge(p):
            r, a, log = p.value
            w = a[1] if n > 1 else a[0]
            if r is not w:
                return 'returns %s' % show(r)
            if len(log) != 1 or log[0][1][0] is not a[-1]:
                return 'exports %s' % show([x[1] for x in log])
            return None
        run(ctx, repo, 'optimisation callback', 'controls exporter, %d arguments' % n, mod.classes['OptimisationCallback'].loc(), body, judge, lambda: Cb({}))

    def body(it):
        it.user['log'] = []
        a = argsets(it)[3]
        cb = it.obj(mod.classes['DerivativesExportOptimisationCallback'], 'cb')
        cb.attrs['export'] = ('rec', 'export')
        return it.call(cb, a, {}), a, it.user['log']

    def judge(p):
        r, a, log = p.value
        if r is not a[1]:
            return 'returns %s' % show(r)
        if len(log) != 1 or log[0][1][0] is not a[1]:
            return 'exports %s' % show([x[1] for x in log])
        nm = log[0][2].get('suggested_names', log[0][1][1] if len(log[0][1]) > 1 else None)
        if nm != ['c0', 'c1']:
            return 'names are %s' % show(nm)
        return None
    run(ctx, repo, 'optimisation callback', 'derivatives exporter', mod.classes['DerivativesExportOptimisationCallback'].loc(), body, judge, lambda: Cb({}))

    # deferred export: first call creates copies named as suggested, later calls copy new values into them
    def body(it):
        it.user['log'] = []
        o = it.obj(mod.classes['DeferredExportManager'], 'manager')
        o.attrs.update(solver_obj_or_outputdir='out', kwargs={'filename_prefix': 'control_'}, export_manager=None)
        sp = it.policy.space(it, None)
        f1, f2 = ctrl(it, 'first'), ctrl(it, 'second', ('x', 'y'))
        for f in f1 + f2:
            f.meta['space'] = sp
        it.call(it.getattr(o, 'export'), [f1], dict(suggested_names=['n0', 'n1']))
        v1 = [f.meta['val'] for f in o.attrs['functions']]
        it.call(it.getattr(o, 'export'), [f2], {})
        v2 = [f.meta['val'] for f in o.attrs['functions']]
        return o, v1, v2, [f.meta['val'] for f in f1], it.user['log']

    def judge(p):
        o, v1, v2, f1, log = p.value
        if [show(x) for x in v1] != ['first_c0', 'first_c1'] or [show(x) for x in v2] != ['second_x', 'second_y']:
            return 'exported values are %s, then %s' % (show(v1), show(v2))
        if [show(x) for x in f1] != ['first_c0', 'first_c1']:
            return 'the functions of the first call are modified'
        if [f.name for f in o.attrs['functions']] != ['n0', 'n1']:
            return 'functions are named %s' % [f.name for f in o.attrs['functions']]
        kinds = [x[0] for x in log]
        if kinds != ['ExportManager', 'export', 'export']:
            return 'sequence is %s' % kinds
        return None
    run(ctx, repo, 'optimisation callback', 'deferred export of new functions', mod.classes['DeferredExportManager'].loc(), body, judge, lambda: Cb({}))

    # recorded values
    cases = [('FunctionalOptimisationCallback', 2, ['J']), ('ConstantControlOptimisationCallback', 2, [['control_c0', 'control_c1']]),
             ('ConstantControlOptimisationCallback', 3, [['control_c0', 'control_c1']]),
             ('DerivativeConstantControlOptimisationCallback', 3, [['deriv_d0', 'deriv_d1']])]
    for name, n, want in cases:
        def body(it):
            it.user['log'] = []
            cb = it.obj(mod.classes[name], 'cb')
            cb.attrs.update(array_dim=2, append_to_log=True, append_to_hdf5=True)
            a = argsets(it)[n]
            return it.call(cb, a, {}), a, it.user['log']

        def judge(p):
            r, a, log = p.value
            if r is not a[1]:
                return 'returns %s' % show(r)
            if sorted(x[0] for x in log) != ['push_to_hdf5', 'push_to_log']:
                return 'records %s' % [x[0] for x in log]
            for k, x, kw in log:
                v = tail(x, 2)
                got = [[show(z) for z in y] if isinstance(y, (list, tuple)) else show(y) for y in v[1]] if isinstance(v[1], (list, tuple)) else show(v[1])
                if show(v[0]) != 'J' or got != want:
                    return '%s gets %s' % (k, (show(v[0]), got))
            return None
        run(ctx, repo, 'optimisation callback', '%s, %d arguments' % (name, n), mod.classes[name].loc(), body, judge, lambda: Vals({}))


class Vals(Cb):
    """controls and derivatives are constants"""

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'float' and len(args) == 1 and self.isfun(args[0]):
            return args[0].meta['val']
        if n == 'float' and len(args) == 1 and isinstance(args[0], Sy):
            return args[0]
        return super().call(it, fn, args, kwargs, node)

    def index(self, it, base, idx, node):
        if isinstance(base, tuple) and base and base[0] == 'fielddata' and idx == 0:
            return base[1]
        return super().index(it, base, idx, node)


# ------------------------------------------------------------------ progress
class Prog(Acc):
    """tape blocks, exports and norms are recorded"""

    def decide(self, it, cond):
        s = show(cond)
        if '.rank' in s:
            return True
        return super().decide(it, cond)

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        f = getattr(fn, 'func', None)
        if isinstance(fn, tuple) and fn and fn[0] == 'blocks':
            out = []
            for v in it.user['tape'].get(kwargs.get('tag', args[0] if args else None), []):
                b, o = it.obj('block', None), it.obj('bv', None)
                o.attrs['saved_output'] = v
                b.attrs['get_outputs'] = ('const', [o])
                out.append(b)
            return out
        if isinstance(fn, tuple) and fn and fn[0] == 'const':
            return fn[1]
        if isinstance(fn, tuple) and fn and fn[0] == 'rec':
            it.user['log'].append((fn[1], list(args), dict(kwargs)))
            return None
        if n == 'get_working_tape':
            o = it.obj('tape', None)
            o.attrs['get_blocks'] = ('blocks',)
            return o
        if n == 'norm':
            return Ex('call', Ext('norm'), (args[0].meta['val'],), ())
        if n == 'save':
            it.user['saved'][args[0].split('/')[-1]] = list(args[1])
            return None
        if n == 'format' or f is not None and f.name == 'print_output':
            return None
        if n == 'File' and 'h5py' in show(fn):
            o = it.obj('h5', None)
            o.attrs.update(create_dataset=('h5', args[0]), attrs=it.obj('attrs', None))
            o.attrs['attrs'].attrs['update'] = ('h5a', args[0])
            it.user['files'][args[0]] = {}
            return o
        if n == 'join' and 'path' in show(fn):
            return '/'.join(args)
        if isinstance(fn, tuple) and fn and fn[0] == 'h5':
            it.user['files'][fn[1]][args[0]] = kwargs.get('data')
            return None
        if isinstance(fn, tuple) and fn and fn[0] == 'h5a':
            it.user['files'][fn[1]].update(args[0])
            return None
        if n in ('VTKFile',):
            return it.obj('vtk', None)
        return super().call(it, fn, args, kwargs, node)

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name in ('ControlManager', 'HDF5Exporter'):
            if cls.name == 'ControlManager':
                o = super().instantiate(it, cls, args, kwargs, node)
                o.attrs['index'] = args[2] if len(args) > 2 else kwargs.get('index')
                o.attrs['export'] = ('rec', ('export', o.attrs['index']))
                o.attrs['export_gradient'] = ('rec', ('gradient', o.attrs['index']))
                return o
            return it.obj(cls, 'exporter')
        return super().instantiate(it, cls, args, kwargs, node)


def progress(ctx, repo):
    mod = repo.mod('inversion_tools')
    cls = mod.classes['InversionManager']
    loc = cls.find_method('update_progress').loc()

    def fun(it, s):
        f = it.policy.function(it, Sy(s), s)
        f.attrs['comm'] = it.user.setdefault('comm', it.obj('comm', None))
        f.attrs['comm'].attrs['rank'] = 0
        return f

    for groups in (((1,), (2,), (1,)), ((2,), (1,), (3,)), ((1,), (1,))):
        n = sum(g[0] for g in groups)

        def body(it):
            it.user.update(log=[], saved={}, tape={}, files={})
            sm = it.obj(mod.classes['StationObservationManager'], 'stations')
            sm.attrs['collect_time_series'] = ('rec', 'collect')
            sm.attrs['dump_time_series'] = ('rec', 'dump')
            im = it.instantiate(cls, [sm], dict(output_dir='out'))
            k = 0
            for (c,) in groups:
                fs = [fun(it, 'c%d' % (k + i)) for i in range(c)]
                k += c
                it.call(it.getattr(im, 'add_control'), [fs], {} if c == 1 else dict(mappings=[Sy('mask%d' % i) for i in range(c)]))
            kw = it.getattr(im, 'rf_kwargs')
            ev, gr = kw['eval_cb_post'], kw['derivative_cb_post']
            cb = it.call(it.getattr(im, 'get_optimization_callback'), [], {})
            out = []
            for step in range(2):
                # two evaluations per line search: the last one counts
                for j in range(2):
                    s = '%d%s' % (step, 'ab'[j])
                    it.user['tape'] = {'reg_eval': [Sy('reg0_' + s), Sy('reg1_' + s)], 'misfit_eval': [Sy('mis0_' + s), Sy('mis1_' + s)]}
                    m = [fun(it, 'm%d_%s' % (i, s)) for i in range(n)]
                    d = [fun(it, 'd%d_%s' % (i, s)) for i in range(n)]
                    r1 = it.call(ev, [Sy('J_' + s), m], {})
                    it.user['tape'] = {}
                    r2 = it.call(gr, [Sy('collected'), d, m], {})
                    out.append(show(r1) == 'J_' + s and r2 is d)
                it.call(cb, [m], {})
            return im, out, it.user['log'], it.user['saved'], [show(x) for x in it.getattr(im, 'control_coeff_list')]

        def judge(p):
            im, out, log, saved, cl = p.value
            if cl != ['c%d' % i for i in range(n)] and [x.split('#')[0].strip('<>') for x in cl] != ['c%d' % i for i in range(n)]:
                return 'controls are listed as %s' % cl
            if not all(out):
                return 'a callback does not return its value (functional, derivatives)'
            for k, w in (('J_progress', ['J_0b', 'J_1b']), ('J_reg_progress', ['reg0_0b + reg1_0b', 'reg0_1b + reg1_1b']),
                         ('J_misfit_progress', ['mis0_0b + mis1_0b', 'mis0_1b + mis1_1b'])):
                for what, got in ((k, im.attrs[k]), ('file ' + k, saved.get(k))):
                    ws = [sum((P(y) for y in x.split(' + ')), Poly()) for x in w]
                    if got is None or len(got) != 2 or not all(same(poly(g), x) for g, x in zip(got, ws)):
                        return '%s is %s, expected %s' % (what, show(got), w)
            w = [['norm(d%d_%db)' % (i, s) for i in range(n)] for s in range(2)]
            if [[show(y) for y in x] for x in im.attrs['dJdm_progress']] != w:
                return 'gradient norms are %s' % show(im.attrs['dJdm_progress'])
            exp = [(x[0], [show(f.meta['val']) for f in x[1][0]] if isinstance(x[1][0], list) else show(x[1][0])) for x in log if isinstance(x[0], tuple)]
            want = []
            for s in range(2):
                k = 0
                for g, (c,) in enumerate(groups):
                    want.append((('export', g), ['m%d_%db' % (i, s) for i in range(k, k + c)]))
                    want.append((('gradient', g), ['d%d_%db' % (i, s) for i in range(k, k + c)]))
                    k += c
            if sorted(map(str, exp)) != sorted(map(str, want)):
                bad = [x for x in exp if x not in want] or [x for x in want if x not in exp]
                return 'exports differ from the controls and gradients of each manager: %s' % show(bad[0])
            col = [x[1][0] if x[1] else None for x in log if x[0] == 'collect']
            if col != [0, 0, 1, 1] or [x[0] for x in log if x[0] == 'dump'] != ['dump'] * 2:
                return 'time series are collected for iterations %s' % col
            return None
        run(ctx, repo, 'progress', 'controls in groups of %s' % [g[0] for g in groups], loc, body, judge, lambda: Prog({}))


def series(ctx, repo):
    mod = repo.mod('inversion_tools')
    cls = mod.classes['StationObservationManager']
    for vector in (False, True):
        def body(it):
            it.user.update(log=[], saved={}, tape={}, files={})
            s = manager(it, repo, vector, False)
            s.attrs['simulation_time'] = [Sy('t'), Sy('t2')]
            P_ = it.policy
            k = len(LOCAL)
            for step, tag in ((0, 'a'), (0, 'b'), (1, 'c'), (2, 'd'), (2, 'e')):
                bl = []
                for t in range(2):
                    if vector:
                        v = P_.nd(it, [[Sy('%s%d_%d%d' % (tag, t, i, c)) for c in range(2)] for i in range(k)])
                    else:
                        v = P_.nd(it, [Sy('%s%d_%d' % (tag, t, i)) for i in range(k)])
                    bl.append(P_.function(it, v, 'saved'))
                it.user['tape'] = {('uv' if vector else 'elev') + ' observation': bl}
                it.call(it.getattr(s, 'collect_time_series'), [step], {})
            it.call(it.getattr(s, 'dump_time_series'), [], {})
            return it.user['files']

        def judge(p):
            files = p.value
            var = 'uv' if vector else 'elev'
            want = {'outputs/diagnostic_timeseries_progress_st%d_%s.hdf5' % (j, var): (i, j) for i, j in enumerate(LOCAL)}
            if set(files) != set(want):
                return 'files are %s' % sorted(files)
            for fn, (i, j) in want.items():
                c = files[fn]
                if [show(c.get('x')), show(c.get('y')), c.get('location_name')] != ['sx%d' % j, 'sy%d' % j, 'st%d' % j]:
                    return '%s has attributes %s' % (fn, show([c.get('x'), c.get('y'), c.get('location_name')]))
                tm = c.get('time')
                if [show(NP.scal(x)) for x in (tm.meta['a'] if NP.isnd(tm) else tm)] != ['t', 't2']:
                    return 'times are %s' % show(tm)
                comps = [(var, None)] if not vector else [(var + '_u_component', 0), (var + '_v_component', 1)]
                for nm, k in comps:
                    if nm not in c:
                        return '%s has no %s' % (fn, nm)
                    a = c[nm].meta['a']
                    w = [['%s%d_%d%s' % (g, t, i, '' if k is None else k) for t in range(2)] for g in 'bce']
                    if a.shape != (3, 2) or [[show(NP.scal(y)) for y in x] for x in a] != w:
                        return '%s of %s is %s, expected %s' % (nm, fn, a.tolist(), w)
            return None
        run(ctx, repo, 'station time series', 'vector' if vector else 'scalar', cls.find_method('dump_time_series').loc(), body, judge, lambda: Prog(rep()))


def masks(ctx, repo):
    cls = repo.mod('inversion_tools').classes['ControlManager']
    for what in ('project_control', 'export_gradient'):
        def body(it):
            it.user.update(log=[], saved={}, tape={}, files={})
            o = it.obj(cls, 'cm')
            P_ = it.policy
            o.attrs.update(projection_space=P_.space(it, 3), is_masked_combination=True, is_field=False, no_exports=False, controls=[],
                           mappings=[P_.function(it, P_.nd(it, [Sy('w%d_%d' % (i, k)) for k in range(3)]), 'w') for i in range(2)])
            v = it.obj('vtk', None)
            v.attrs['write'] = ('rec', 'write')
            o.attrs['gradient_vtk_file'] = v
            c = [P_.function(it, Sy('c%d' % i), 'c') for i in range(2)]
            r = it.call(it.getattr(o, what), [c], {})
            f = r if what == 'project_control' else it.user['log'][-1][1][0]
            return P_.ev(it, f)

        def judge(p):
            a = p.value.meta['a'] if NP.isnd(p.value) else []
            for k in range(3):
                w = sum((P('c%d' % i) * P('w%d_%d' % (i, k)) for i in range(2)), Poly())
                if len(a) != 3 or not same(poly(NP.scal(a[k])), w):
                    return 'field is %s' % show(p.value)[:300]
            return None
        run(ctx, repo, 'masked controls', what, cls.find_method(what).loc(), body, judge, lambda: Prog({}))


@prop('G04', 'distance constraints and their jacobian; values, names and order handed on and recorded by optimisation callbacks and inversion progress', 15,
      'abstract execution over symbolic positions, controls and derivatives; jacobian compared with the symbolic derivative of the constraint; records '
      'compared over two iterations of two evaluations')
def g04(ctx):
    need()
    repo = get_repo()
    constraints(ctx, repo)
    callbacks(ctx, repo)
    progress(ctx, repo)
    series(ctx, repo)
    masks(ctx, repo)
