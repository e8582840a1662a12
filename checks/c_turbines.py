"""G01: tidal turbines; G02: farms and their power accounting."""
import itertools
import math
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Fv, explore, show, callee_name, call_parts, key, is_num
from sa.repo import AnalysisError
from sa.formdb import repo as get_repo
from sa.nparr import NP, need, poly
from sa import nparr
from sa.pw import same
from sa.poly import Poly, show_poly, make_fn, _num, _NoValue

HALF = Fraction(1, 2)
CMP = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}


def P(s):
    return poly(Sy(s)) if isinstance(s, str) else poly(s)


class TB(NP):
    """conditionals are decided by the assumed order of the symbols; a velocity vector enters by its squared norm"""

    def decide(self, it, cond):
        if isinstance(cond, Sy) and cond.name in self.rep:
            return self.rep[cond.name] != 0
        if isinstance(cond, Ex) and cond.op == 'hasattr' and isinstance(cond.args[0], Ob) and cond.args[0].clsname == 'farm options':
            return cond.args[1] in cond.args[0].attrs
        r = super().decide(it, cond)
        if r is None and isinstance(cond, Ex):
            try:
                return self.num(cond) != 0
            except AnalysisError:
                return None
        return r

    def index(self, it, base, idx, node):
        if isinstance(idx, str) and idx == 'rho0':
            return Sy('rho0')
        return super().index(it, base, idx, node)

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        args = list(args)
        if n in ('dot', 'inner') and len(args) == 2:
            if key(args[0]) == key(Sy('uv')) and key(args[1]) == key(Sy('uv')):
                return Sy('q')
            return it.binop('*', args[0], args[1], node)
        if n in ('norm', 'mag') and len(args) == 1 and key(args[0]) == key(Sy('uv')):
            return it.binop('**', Sy('q'), HALF, node)
        if n == 'getattr' and isinstance(args[0], Ob) and args[0].clsname == 'farm options':
            return args[0].attrs[args[1]] if args[1] in args[0].attrs else args[2]
        if n in CMP and len(args) == 2:
            return it.compare(CMP[n], args[0], args[1])
        if n in ('And', 'Or') and all(isinstance(a, bool) for a in args):
            return all(args) if n == 'And' else any(args)
        if n == 'Not' and isinstance(args[0], bool):
            return not args[0]
        if n == 'conditional' and len(args) == 3:
            return args[1] if it.truth(args[0]) else args[2]
        if n in ('max_value', 'min_value') and len(args) == 2:
            return (max if n == 'max_value' else min)(args, key=self.num)
        if n == 'SpatialCoordinate':
            return [Sy('x'), Sy('y')]
        if n == 'assemble':
            return Ex('call', Ext('assemble'), (args[0],), ())
        if n in ('Constant', 'float', 'as_ufl') and args and not (n == 'float' and isinstance(args[0], str)):
            return args[0]
        return super().call(it, fn, args, kwargs, node)


def options(it, kind, **kw):
    o = it.obj('options', None)
    d = dict(diameter=Sy('D'), projected_diameter=Sy('Dp'), C_support=Sy('Cs'), A_support=Sy('As'), apply_shear_profile=False,
             shear_alpha=Sy('sa'), shear_beta=Sy('sb'), rel_hub_height=Sy('hh'), structure_type='bottom-fixed')
    if kind == 'constant':
        d.update(thrust_coefficient=Sy('CT'), power_coefficient=Sy('CP'))
    else:
        n = kind
        d.update(thrust_speeds=[Sy('s%d' % i) for i in range(n)], thrust_coefficients=[Sy('t%d' % i) for i in range(n)],
                 power_coefficients=[Sy('p%d' % i) for i in range(n)])
    d.update(kw)
    o.attrs.update(d)
    return o


REP = dict(D=18., Dp=20., Cs=.7, As=12., sa=7., sb=.4, hh=15., CT=.8, CP=.4, q=4., H=40., rho0=1025.,
           **{'t%d' % i: .5 + .1 * i for i in range(5)}, **{'p%d' % i: .3 + .02 * i for i in range(5)}, **{'s%d' % i: i + 1. for i in range(5)})
PIV, RHO = P('pi'), P('rho0')


def check(ctx, repo, rule, con, loc, rep, body, want, func=''):
    ps = list(explore(repo, lambda: TB(rep), body, 12))
    if len(ps) != 1 or ps[0].outcome != 'return':
        und = len(ps) != 1
        ctx.ob(rule, con, None if und else False, loc, '%d partitions: %s' % (len(ps), str(ps[0].guards())[:200]) if und else 'raises %s' % (ps[0].value,), func=func)
        return
    v = ps[0].value
    for k, w in want.items():
        try:
            g = poly(v[k])
        except AnalysisError as e:
            ctx.ob(rule, '%s: %s' % (con, k), None, loc, str(e), func=func)
            continue
        ok = same(g, w)
        ctx.ob(rule, '%s: %s' % (con, k), ok, loc, '' if ok else 'is %s, expected %s' % (show_poly(g, 6), show_poly(w, 6)), func=func)


def closed_forms(ctx, repo):
    mod = repo.mod('turbines')
    cls = mod.classes['ConstantThrustTurbine']
    base = mod.classes['TidalTurbine']
    loc = base.loc()
    U = P('q').pow(HALF)
    A = PIV * P('D') * P('D') / 4
    for support, proj, upwind, cp in itertools.product((True, False), repeat=4):
        rep = dict(REP)
        if not support:
            rep['Cs'] = 0
        kw = {}
        if not proj:
            kw['projected_diameter'] = None
        if not cp:
            kw['power_coefficient'] = None
        if not support:
            kw['C_support'] = 0.0

        def body(it):
            t = it.instantiate(cls, [options(it, 'constant', **kw)], dict(upwind_correction=upwind))
            return {'friction coefficient': it.call(it.getattr(t, 'friction_coefficient'), [Sy('uv'), Sy('H')], {}),
                    'power': it.call(it.getattr(t, 'power'), [Sy('uv'), Sy('H')], {})}
        thrust = P('CT') * A + (P('Cs') * P('As') if support else Poly())
        if upwind:
            al = (1 + (1 - thrust / (P('Dp' if proj else 'D') * P('H'))).pow(HALF)) / 2
        else:
            al = Poly.const(1)
        CP = P('CP') if cp else P('CT') * (1 + (1 - P('CT')).pow(HALF)) / 2
        con = 'constant thrust%s%s%s%s' % (', support' if support else '', ', projected diameter' if proj else '', ', upwind correction' if upwind else '',
                                           ', power coefficient given' if cp else '')
        check(ctx, repo, 'thrust and power', con, loc, rep, body,
              {'friction coefficient': thrust / 2 / (al * al), 'power': RHO * A * CP * U * U * U / (al * al * al) / 2})


def interp(n, pre, U):
    """piecewise linear table by region of U: region index r means s_{r-1} <= U < s_r"""
    def f(r):
        if r == 0 or r == n:
            return Poly()
        a, b = P('s%d' % (r - 1)), P('s%d' % r)
        return ((b - U) * P('%s%d' % (pre, r - 1)) + (U - a) * P('%s%d' % (pre, r))) / (b - a)
    return f


def tables(ctx, repo):
    cls = repo.mod('turbines').classes['TabulatedThrustTurbine']
    loc = cls.loc()
    A = PIV * P('D') * P('D') / 4
    U = P('q').pow(HALF)
    for n, cp in ((2, True), (3, True), (4, True), (3, False)):
        for r in range(n + 1):
            rep = dict(REP, q=(r + .5) ** 2)

            def body(it):
                t = it.instantiate(cls, [options(it, n, **({} if cp else dict(power_coefficients=None)))], {})
                return {'thrust coefficient': it.call(it.getattr(t, 'thrust_coefficient'), [Sy('uv')], {}),
                        'power coefficient': it.call(it.getattr(t, 'power_coefficient'), [Sy('uv')], {}),
                        'friction coefficient': it.call(it.getattr(t, 'friction_coefficient'), [Sy('uv'), Sy('H')], {}),
                        'power': it.call(it.getattr(t, 'power'), [Sy('uv'), Sy('H')], {})}
            ct = interp(n, 't', U)(r)
            if cp:
                pc = interp(n, 'p', U)(r)
            elif r in (0, n):
                pc = Poly()
            else:
                a, b = P('s%d' % (r - 1)), P('s%d' % r)
                e = [P('t%d' % i) * (1 + (1 - P('t%d' % i)).pow(HALF)) / 2 for i in (r - 1, r)]
                pc = ((b - U) * e[0] + (U - a) * e[1]) / (b - a)
            con = '%d speeds%s, speed %s' % (n, '' if cp else ', default power', 'below the first' if r == 0 else 'above the last' if r == n else 'in interval %d' % r)
            check(ctx, repo, 'thrust table', con, loc, rep, body,
                  {'thrust coefficient': ct, 'power coefficient': pc, 'friction coefficient': (ct * A + P('Cs') * P('As')) / 2,
                   'power': RHO * A * pc * U * U * U / 2})
    # upstream speed enters the power table
    for r in (0, 1, 2, 3):
        # sizes for which the induction factor is 3/4
        c, al = Fraction(1, 2), Fraction(3, 4) if r else 1
        H = Ex('*', 1, Ext('pi'))
        rep = dict(REP, q=((r + .5) * float(al)) ** 2)

        def body(it):
            t = it.instantiate(cls, [options(it, 3, diameter=2, projected_diameter=Fraction(2, 3), C_support=0.0, thrust_speeds=[Fraction(2, 3), 2, 3],
                                             thrust_coefficients=[c, c, c])], dict(upwind_correction=True))
            return {'power': it.call(it.getattr(t, 'power'), [Sy('uv'), H], {})}
        up = U / Poly.const(al)
        s = [Fraction(2, 3), 2, 3]
        if r in (0, 3):
            pc = Poly()
        else:
            pc = ((s[r] - up) * P('p%d' % (r - 1)) + (up - s[r - 1]) * P('p%d' % r)) / (s[r] - s[r - 1])
        check(ctx, repo, 'thrust table', 'upwind corrected speed in interval %d of the power table' % r, loc, rep, body,
              {'power': RHO * PIV * pc * up * up * up / 2})
    # mismatched tables are refused
    for which in ('thrust_coefficients', 'power_coefficients'):
        ps = list(explore(repo, lambda: TB(REP), lambda it: it.instantiate(cls, [options(it, 3, **{which: [Sy('t0'), Sy('t1')]})], {}), 8))
        ok = bool(ps) and all(p.outcome == 'raise' for p in ps)
        ctx.ob('thrust table', 'table of different length than the speeds: %s' % which, ok, loc, '' if ok else 'accepted')


def shear(ctx, repo):
    mod = repo.mod('turbines')
    loc = mod.classes['TidalTurbine'].loc()
    cls = mod.classes['ConstantThrustTurbine']
    tab = mod.classes['TabulatedThrustTurbine']
    W = [Fraction(52, 1000), Fraction(903, 10000), Fraction(1099, 10000), Fraction(1212, 10000), Fraction(1266, 10000)]
    W = W + W[::-1]
    U = P('q').pow(HALF)
    A = PIV * P('D') * P('D') / 4

    def mean(hub, ws):
        n = len(ws)
        tot = Poly()
        for i, w in enumerate(ws):
            z = hub - P('D') / 2 + P('D') * Fraction(i, n - 1)
            tot = tot + w * (U * make_fn('pow', [z / (P('sb') * P('H')), P('sa').pow(-1)])).pow(3)
        return tot.pow(Fraction(1, 3))
    for st in ('bottom-fixed', 'floating'):
        hub = P('hh') if st == 'bottom-fixed' else P('H') - P('hh')

        def body(it):
            kw = dict(apply_shear_profile=True, structure_type=st)
            t = it.instantiate(cls, [options(it, 'constant', **kw)], {})
            return {'rotor velocity': it.call(it.getattr(t, 'rotor_averaged_velocity'), [Sy('uv'), Sy('H')], {}),
                    'power': it.call(it.getattr(t, 'power'), [Sy('uv'), Sy('H')], {}),
                    'friction coefficient': it.call(it.getattr(t, 'friction_coefficient'), [Sy('uv'), Sy('H')], {})}
        m = mean(hub, W)
        check(ctx, repo, 'rotor average', '%s, default weights' % st, loc, REP, body,
              {'rotor velocity': m, 'power': RHO * A * P('CP') * m.pow(3) / 2, 'friction coefficient': (P('CT') * A + P('Cs') * P('As')) / 2})

        def body(it):
            kw = dict(apply_shear_profile=True, structure_type=st)
            t = it.instantiate(mod.classes['TidalTurbine'], [options(it, 'constant', **kw)], dict(rotor_weightings=[Sy('w0'), Sy('w1'), Sy('w2')]))
            return {'rotor velocity': it.call(it.getattr(t, 'rotor_averaged_velocity'), [Sy('uv'), Sy('H')], {})}
        check(ctx, repo, 'rotor average', '%s, given weights' % st, loc, REP, body, {'rotor velocity': mean(hub, [P('w0'), P('w1'), P('w2')])})
    ps = list(explore(repo, lambda: TB(REP), lambda it: it.call(it.getattr(it.instantiate(
        cls, [options(it, 'constant', apply_shear_profile=True, rel_hub_height=None)], {}), 'rotor_averaged_velocity'), [Sy('uv'), Sy('H')], {}), 8))
    ok = bool(ps) and all(p.outcome == 'raise' for p in ps)
    ctx.ob('rotor average', 'shear profile without hub height is refused', ok, loc, '' if ok else 'accepted')


T1 = ('abstract execution with symbolic speeds, depths and options; comparisons decided by an assumed order of the symbols, one run per interval of the '
      'thrust curve; result compared with the closed form by identity testing')


@prop('G01', 'thrust area, upwind correction, friction coefficient, power, thrust table intervals and rotor average equal their closed forms', 20, T1)
def g01(ctx):
    need()
    repo = get_repo()
    closed_forms(ctx, repo)
    tables(ctx, repo)
    shear(ctx, repo)


# ------------------------------------------------------------------ farms
def farm_options(it, kind='constant', **kw):
    o = it.obj('farm options', None)
    o.attrs.update(turbine_type=kind, turbine_options=options(it, 'constant' if kind == 'constant' else 3), break_even_wattage=Sy('W'),
                   turbine_density=Sy('density'), **kw)
    return o


def integral(p):
    return poly(Ex('call', Ext('assemble'), (p,), ()))


def farms(ctx, repo):
    mod = repo.mod('turbines')
    loc = mod.classes['TidalTurbineFarm'].loc()
    cls = mod.classes['TidalTurbineFarm']
    for kind, up in itertools.product(('constant', 'table'), (None, False, True)):
        rep = dict(REP, q=2.25)

        def body(it):
            fo = farm_options(it, kind, **({} if up is None else dict(upwind_correction=up)))
            f = it.instantiate(cls, [Sy('density'), Sy('mdx'), fo], {})
            t = it.instantiate(mod.classes['ConstantThrustTurbine' if kind == 'constant' else 'TabulatedThrustTurbine'], [fo.attrs['turbine_options']], dict(upwind_correction=bool(up)))
            it.user['p'] = poly(it.call(it.getattr(t, 'power'), [Sy('uv'), Sy('H')], {}))
            it.user['f'] = poly(it.call(it.getattr(t, 'friction_coefficient'), [Sy('uv'), Sy('H')], {}))
            return {'number': it.call(it.getattr(f, 'number_of_turbines'), [], {}),
                    'power': it.call(it.getattr(f, 'power_output'), [Sy('uv'), Sy('H')], {}),
                    'friction': it.call(it.getattr(f, 'friction_coefficient'), [Sy('uv'), Sy('H')], {}),
                    'density': it.getattr(f, 'turbine_density'), 'wattage': it.getattr(f, 'break_even_wattage')}
        w = P('density') * P('mdx')
        ps = list(explore(repo, lambda: TB(rep), body, 8))
        u = ps[0].it.user
        check(ctx, repo, 'farm', '%s thrust, upwind correction %s' % (kind, 'not an option' if up is None else up), loc, rep, body,
              {'number': integral(w), 'power': integral(u['p'] * w), 'friction': u['f'], 'density': P('density'), 'wattage': P('W')})


def bump(ctx, repo):
    mod = repo.mod('turbines')
    cls = mod.classes['DiscreteTidalTurbineFarm']
    loc = cls.loc()
    # integral of exp(2 - 1/(1-x^2) - 1/(1-y^2)) over the square |x|, |y| < 1
    n = 20000
    xs = [(i + .5) / n for i in range(n)]
    exact = (2 * sum(math.exp(1 - 1 / (1 - x * x)) for x in xs) / n) ** 2
    K = []
    for proj in (True, False):
        r = P('Dp' if proj else 'D') / 2
        rv = 10. if proj else 9.

        def body(it, coords):
            fo = farm_options(it, turbine_coordinates=[[Sy('cx%d' % i), Sy('cy%d' % i)] for i in range(coords)], upwind_correction=True, quadrature_degree=10)
            if not proj:
                fo.attrs['turbine_options'].attrs['projected_diameter'] = None
            f = it.instantiate(cls, [it.obj('mesh', None), Sy('mdx'), fo], {})
            return it.getattr(f, 'turbine_density')

        def density(rep, n, sub=None):
            ps = list(explore(repo, lambda: TB(dict(REP, **rep)), lambda it: body(it, n), 8))
            if len(ps) != 1:
                raise AnalysisError('turbine density: %d partitions %s' % (len(ps), str([p.guards() for p in ps])[:200]))
            if ps[0].outcome != 'return':
                return None, 'raises %s' % (ps[0].value,)
            return poly(ps[0].value), ''

        def shape(i, k):
            p = Poly.const(k) / (r * r)
            for a, c in (('x', 'cx%d' % i), ('y', 'cy%d' % i)):
                d = (P(a) - P(c)) / r
                p = p * make_fn('exp', [1 - (1 - d * d).pow(-1)])
            return p
        tag = '' if proj else ' (no projected diameter)'
        # value at the centre: the expression at x = c is K / r^2
        g, msg = density(dict(x=0., y=0., cx0=.3 * rv, cy0=-.4 * rv), 1)
        k = None
        if g is not None:
            ratio = g / shape(0, 1)
            k = const_ratio(g, shape(0, 1))
        ctx.ob('turbine density', 'shape of one turbine%s' % tag, k is not None, loc, '' if k is not None else msg or 'density is %s' % show_poly(g, 6))
        if k is None:
            continue
        ok = abs(float(k) * exact - 1) < 1e-4
        ctx.ob('turbine density', 'one turbine integrates to one%s' % tag, ok, loc, '' if ok else 'integrates to %.6f' % (float(k) * exact))
        K.append(k)
        for sx, sy, ov in itertools.product((-1, 0, 1), (-1, 0, 1), (False, True)):
            # turbine 0 relative to the point: inside (0) or outside on either side
            fx, fy = (.2 if sx == 0 else sx * 1.3) * rv, (.1 if sy == 0 else sy * 1.1) * rv
            gx, gy = (-.5 * rv, .6 * rv) if ov else (3 * rv, 0.)
            g, msg = density(dict(x=0., y=0., cx0=fx, cy0=fy, cx1=gx, cy1=gy), 2)
            want = (shape(0, k) if (sx, sy) == (0, 0) else Poly()) + (shape(1, k) if ov else Poly())
            ok = g is not None and same(g, want)
            ctx.ob('turbine density', 'point %s turbine 0, %s turbine 1%s' % (
                'inside' if (sx, sy) == (0, 0) else 'outside (%d, %d)' % (sx, sy), 'inside' if ov else 'outside', tag), ok, loc,
                '' if ok else msg or 'density is %s' % show_poly(g, 6))


def const_ratio(g, s):
    """k with g = k s, if there is one"""
    if not g.t or not s.t:
        return None
    m = g / s
    if m.is_const():
        return m.const_value()
    try:
        k = Fraction(_num(g, 0, {}) / _num(s, 0, {})).limit_denominator(10 ** 9)
    except (_NoValue, ArithmeticError):
        return None
    return k if k and same(g, k * s) else None


def accounting(ctx, repo):
    mod = repo.mod('turbines')
    cls = mod.classes['TurbineFunctionalCallback']
    m = cls.find_method('_evaluate_timestep')
    nf, ns = 2, 3

    def body(it):
        P_ = it.policy
        fs = []
        step = [0]
        for i in range(nf):
            f = it.obj('farm', None)
            f.attrs.update(break_even_wattage=Sy('W%d' % i), i=i)
            f.attrs['number_of_turbines'] = ('numfarm', i)
            f.attrs['power_output'] = ('powfarm', i)
            fs.append(f)
        so = it.obj('solver', None)
        so.attrs['tidal_farms'] = fs
        op = it.obj('options', None)
        op.attrs['timestep'] = Sy('dt')
        so.attrs['options'] = op
        fl = it.obj('fields', None)
        fl.attrs.update(solution_2d=Sy('sol'), bathymetry_2d=Sy('bath'))
        so.attrs['fields'] = fl
        cb = it.instantiate(cls, [so], {})
        out = []
        for n in range(ns):
            it.user['n'] = n
            r = it.call(cb, [], {})
            out.append([[x for x in (y if isinstance(y, (list, tuple)) else it.policy.items(it, y))] for y in r])
        it.user['names'] = [show(x) for x in it.getattr(cb, 'variable_names')]
        return out
    ps = list(explore(repo, lambda: Acc(REP), body, 8))
    if len(ps) != 1 or ps[0].outcome != 'return':
        ctx.ob('power accounting', 'three steps', None if len(ps) != 1 else False, m.loc(), '%d partitions %s %s' % (len(ps), ps[0].guards(), show(ps[0].value)[:300]))
        return
    for n, r in enumerate(ps[0].value):
        for i in range(nf):
            pw = [P('P%d_%d' % (i, k)) for k in range(n + 1)]
            avg = sum(pw, Poly()) / (n + 1)
            for k, (nm, w) in enumerate((('current power', pw[-1]), ('average power', avg), ('average profit', avg - P('W%d' % i) * P('N%d' % i)))):
                ok = len(r) == 3 and len(r[k]) == nf and same(poly(r[k][i]), w)
                ctx.ob('power accounting', 'farm %d, evaluation %d: %s' % (i, n + 1, nm), ok, m.loc(), '' if ok else 'is %s' % show(r[k][i] if k < len(r) and i < len(r[k]) else r)[:300])
    names = ps[0].it.user['names']
    ok = [x.strip("'") for x in names] == ['current_power', 'average_power', 'average_profit']
    ctx.ob('power accounting', 'variable names in the order of the values', ok, m.loc(), '' if ok else str(names))
    cls = mod.classes['TurbineOptimisationCallback']

    def body(it):
        t = it.obj('tfc', None)
        for a, s in (('cost', 'N'), ('average_power', 'A'), ('average_profit', 'F'), ('instantaneous_power', 'I'), ('integrated_power', 'J'), ('break_even_wattage', 'W')):
            l = []
            for i in range(nf):
                o = it.obj('af', None)
                b = it.obj('bv', None)
                b.attrs['saved_output'] = Sy('%s%d' % (s, i))
                o.attrs['block_variable'] = b
                l.append(o)
            t.attrs[a] = l
        c = it.obj(cls, 'cb')
        c.attrs['tfc'] = t
        return [[show(y) for y in x] for x in it.call(it.getattr(c, 'compute_values'), [Sy('J'), Sy('dJ'), Sy('m')], {})], [show(x) for x in it.getattr(c, 'variable_names')]
    for p in explore(repo, lambda: TB(REP), body, 4):
        want = {'cost': ['N0', 'N1'], 'average_power': ['A0', 'A1'], 'average_profit': ['F0', 'F1']}
        names = [x.strip("'") for x in p.value[1]] if p.outcome == 'return' else []
        ok = p.outcome == 'return' and len(p.value[0]) == len(names) and sorted(names) == sorted(want) and all(want[k] == v for k, v in zip(names, p.value[0]))
        ctx.ob('power accounting', 'values recorded in optimisation', ok, cls.loc(), '' if ok else show(p.value)[:300])


class Acc(TB):
    def decide(self, it, cond):
        if show(cond).endswith('append_to_log'):
            return False
        return super().decide(it, cond)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'numfarm':
            return Sy('N%d' % fn[1])
        if isinstance(fn, tuple) and fn and fn[0] == 'powfarm':
            if [show(a) for a in args] != ['uv', 'bath']:
                return Sy('power of %s' % [show(a) for a in args])
            return Sy('P%d_%d' % (fn[1], it.user['n']))
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'split' and len(args) == 1 and show(args[0]) == 'sol':
            return (Sy('uv'), Sy('eta'))
        f = getattr(fn, 'func', None)
        if f is not None and f.name == '__init__' and f.cls is not None and f.cls.name == 'DiagnosticCallback':
            args[0].attrs.update(append_to_log=False) if isinstance(args[0], Ob) else None
            return None
        return super().call(it, fn, args, kwargs, node)


def loader(ctx, repo):
    fn = repo.mod('turbines').functions['load_turbine']
    for table, support, include, discrete, ext in itertools.product((True, False), (True, False), (True, False), (True, False), ('.yaml', '.yml', '.json')):
        if ext != '.yaml' and not (table and support and include and discrete):
            continue
        data = {'name': 'turb', 'diameter': Sy('D'), 'upwind_correction': Sy('uw')}
        if table:
            data.update(turbine_thrust_def='table', curves={'speeds': Sy('S'), 'thrust': Sy('T'), 'power': Sy('P')})
        else:
            data.update(thrust_coefficient=Sy('CT'), power_coefficient=Sy('CP'))
        if support:
            data['support_structure'] = {'type': Sy('st'), 'rel_hub_height': Sy('hh'), 'C_support': Sy('Cs'), 'A_support': Sy('As')}
        want = {'turbine_options.diameter': 'D', 'turbine_type': "table" if table else 'constant'}
        if table:
            want.update({'turbine_options.thrust_speeds': 'S', 'turbine_options.thrust_coefficients': 'T', 'turbine_options.power_coefficients': 'P'})
        else:
            want.update({'turbine_options.thrust_coefficient': 'CT', 'turbine_options.power_coefficient': 'CP'})
        if support and include:
            want.update({'turbine_options.structure_type': 'st', 'turbine_options.rel_hub_height': 'hh', 'turbine_options.C_support': 'Cs', 'turbine_options.A_support': 'As'})
        if discrete:
            want['upwind_correction'] = 'uw'
        con = '%s%s%s, %s farm, %s' % ('table' if table else 'constant', ', support in file' if support else '', ', support included' if include else '',
                                       'discrete' if discrete else 'continuous', ext)
        ps = list(explore(repo, lambda: Load(data, ext), lambda it: it.call(
            Fv(fn), ['turbine' + ext, Sy('mesh')], dict(include_support=include, discrete=discrete)), 8))
        if len(ps) != 1 or ps[0].outcome != 'return':
            ctx.ob('turbine file', con, None if len(ps) != 1 else False, fn.loc(), '%d partitions, %s %s' % (len(ps), ps[0].outcome, show(ps[0].value)[:200]))
            continue
        o = ps[0].value
        got = {k: show(v).strip("'") for k, v in o.attrs.items() if k not in ('turbine_options', 'turbine_density')}
        got.update({'turbine_options.' + k: show(v) for k, v in o.attrs['turbine_options'].attrs.items()})
        bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        if not bad and o.clsname != ('DiscreteTidalTurbineFarmOptions' if discrete else 'TidalTurbineFarmOptions'):
            bad = ['class is %s' % o.clsname]
        if not bad and ps[0].it.user.get('loader') != ('load' if ext == '.json' else 'safe_load'):
            bad = ['read with %s' % ps[0].it.user.get('loader')]
        ctx.ob('turbine file', con, not bad, fn.loc(), '' if not bad else '%s: %s, expected %s' % (bad[0], got.get(bad[0]), want.get(bad[0])))


class Load(TB):
    def __init__(self, data, ext):
        super().__init__({})
        self.data = data

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name.endswith('FarmOptions'):
            o = it.obj(cls.name, None)
            o.attrs['turbine_options'] = it.obj('turbine options', None)
            return o
        return super().instantiate(it, cls, args, kwargs, node)

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'open':
            return it.obj('file', None)
        if n in ('load', 'safe_load'):
            r = fn.args[0] if isinstance(fn, Ex) else fn
            it.user['loader'] = 'load' if 'json' in show(fn) else 'safe_load'
            return self.data
        return super().call(it, fn, args, kwargs, node)


@prop('G02', 'turbine count, power, bump density, time averages, profits and turbine files follow their definitions', 20,
      'abstract execution with symbolic densities and positions, one run per position of a point relative to the turbines; values over three evaluations '
      'compared with the running mean by polynomial identity')
def g02(ctx):
    need()
    repo = get_repo()
    farms(ctx, repo)
    bump(ctx, repo)
    accounting(ctx, repo)
    loader(ctx, repo)
