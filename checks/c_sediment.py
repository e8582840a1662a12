"""D04: the sediment model follows the flow state."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Cv, Fv, show, explore, call_parts, callee_name, is_num
from sa.repo import AnalysisError
from sa import poly
from sa.poly import Poly, make_fn, show_poly
from sa.forms import T, fatom, FormEval
from sa.pw import PW, sym, same, short
from sa.formdb import repo as get_repo

TECH = ('abstract execution of the sediment model with symbolic field contents (interpolation and projection tracked as data flow); the '
        'expressions it hands to the equations after update() are compared with those of a model built on the new state')
SCALE = dict(proj='arg', H=4.0, average_sediment_size=3e-4, bed_reference_height=1e-3, excess_density=1650.0, rho0=1000.0, g_grav=9.8, von_karman=0.4,
             morphological_viscosity=1e-6, uv0=0.4, uv1=0.4, bed=4.0)
UFL = {'conditional', 'max_value', 'min_value', 'ln', 'sqrt', 'asin', 'tan', 'cos', 'as_matrix', 'as_vector', 'abs', 'Constant', 'exp', 'sin', 'CellSize',
       'gt', 'lt', 'ge', 'le', 'elem_mult'}
FLAGS = ('solve_suspended_sediment', 'use_advective_velocity_correction', 'use_bedload', 'use_angle_correction', 'use_slope_mag_correction',
         'use_secondary_current', 'use_sediment_slide')


class VN(FormEval):
    """value numbering: long intermediate results are named"""
    def ev(self, v):
        r = super().ev(v)
        if isinstance(r, T) and any(len(p.t) > 4 for p in r.c.values()):
            r = r.map(lambda p: short(p, 4))
        return r


class Pol(PW):
    concrete = ('SedimentModel', 'CorrectiveVelocityFactor')

    def evaluator(self, it):
        e = super().evaluator(it)
        e.__class__ = VN
        return e

    def decide(self, it, cond):
        s = show(cond)
        if 'array:max' in s or 'numpy.max' in s or s.startswith('(max('):
            return False        # the admissible grain size is not part of the property
        if isinstance(cond, Ex) and cond.op == 'is' and cond.args[1] is None:
            return False
        return super().decide(it, cond)

    def attr(self, it, base, name, node):
        if isinstance(base, Sy) and base.name == 'options.sediment_model_options' or show(base) == 'options.sediment_model_options':
            if name in self.pins:
                return self.pins[name]
            if name == 'sediment_density':
                return Ex('+', Sy('rho0'), Sy('excess_density'))
            return Sy(name)
        if isinstance(base, Sy) and base.name == 'options' and name != 'sediment_model_options':
            return Sy(name)
        if isinstance(base, Ob) and base.clsname == 'DepthExpression' and name == 'bathymetry_2d':
            return it.user['bath']
        if isinstance(base, Ob) and base.clsname == 'DepthExpression' and name == 'get_total_depth':
            return ('method', base, name)
        return super().attr(it, base, name, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and fn[2] == 'get_total_depth':
            return Ex('call', Ext('H'), (args[0], it.user['bath']), ())
        if isinstance(fn, Ext):
            if fn.short in ('VectorFunctionSpace', 'TensorFunctionSpace'):
                return Sy('vspace')
            if fn.short in ('FunctionSpace',):
                return Sy('space')
            if fn.short in UFL and fn.short not in ('Constant',):
                return Ex('call', fn, tuple(args), tuple(sorted(kwargs.items())))
            if fn.short == 'max':
                return Sy('array:max')
        if isinstance(fn, Fv) and fn.func.name in ('get_functionspace',):
            return Sy('vspace' if kwargs.get('vector') else 'space')
        return super().call(it, fn, args, kwargs, node)

    def newfunction(self, it, args, kwargs, node):
        if args and isinstance(args[0], Sy) and args[0].name == 'vspace':
            return self.function(it, None, T((2,), {(0,): Poly(), (1,): Poly()}), (2,))
        return super().newfunction(it, args, kwargs, node)

    def written(self, it, f, how, v, node):
        t = self.value(it, v)
        if how == 'project':
            t = t.map(lambda p: p if p.is_const() else make_fn('proj', [p]))
        # one name per stored value: derivatives act on the stored field
        t = t.map(lambda p: p if p.is_const() or len(p.t) == 1 and all(a[0] == 'f' for a in p.atoms()) else Poly.atom(('fn', 'def', (p.key(),), None)))
        self.put(it, f, t, node)

    def resolve(self, it, fe, v):
        if isinstance(v, Ex):
            cp = call_parts(v)
            if cp:
                n = callee_name(cp[0])
                if n == 'H' and len(cp[1]) == 2:
                    a = [fe.ev(x).s() for x in cp[1]]
                    return T.scalar(a[0] + a[1] if a[0].is_const() and a[1].is_const() else make_fn('H', a))
                if n in ('asin', 'tan') and len(cp[1]) == 1:
                    return T.scalar(make_fn(n, [fe.ev(cp[1][0]).s()]))
                if n == 'dx' and isinstance(cp[0], Ex) and cp[0].op == 'attr' and len(cp[1]) == 1:
                    q = fe.ev(cp[0].args[0]).s()
                    if q.is_const():
                        return T.scalar(Poly())
                    return T.scalar(make_fn('D%d' % cp[1][0], [q]))
        return super().resolve(it, fe, v)


def make(it, state):
    pol = it.policy
    uv, elev, bath = [pol.function(it, n, None, s) for n, s in (('uv', (2,)), ('elev', ()), ('bath', ()))]
    it.user.update(uv=uv, elev=elev, bath=bath)
    load(it, state)
    depth = it.obj('DepthExpression', 'depth')
    cls = get_repo().cls('sediment_model', 'SedimentModel')
    return it.call(Cv(cls), [Sy('options'), Sy('mesh'), uv, elev, depth], {})


def load(it, state):
    for n in ('uv', 'elev', 'bath'):
        f = it.user[n]
        f.meta['c'] = T(f.meta['shape'], {i: Poly.atom(fatom(n + state, i)) for i in itertools.product(*[range(x) for x in f.meta['shape']])})


def outputs(it, M, flags, bed):
    out = {}

    def take(name, v):
        t = it.policy.value(it, v)
        for i, p in sorted(t.c.items()):
            out[name + (str(list(i)) if i else '')] = p
    call = lambda n, *a: it.call(it.getattr(M, n), list(a), {})
    if flags['solve_suspended_sediment']:
        take('deposition coefficient', call('get_deposition_coefficient'))
        take('erosion', call('get_erosion_term'))
        take('equilibrium concentration', call('get_equilibrium_tracer'))
        take('advective velocity factor', call('get_advective_velocity_correction_factor'))
    if flags['use_bedload']:
        b = it.policy.function(it, 'bed', bed)
        for i, v in enumerate(call('get_bedload_term', b)):
            take('bedload flux %s' % 'xy'[i], v)
    return out


def run(flags, how, bed=None, state='1', const=False):
    def body(it):
        if how == 'fresh':
            M = make(it, state)
        else:
            M = make(it, '0')
            load(it, state)
            if const:
                for n in ('elev', 'bath'):
                    it.user[n].meta['c'] = T.scalar(Poly.const(3))
            it.call(it.getattr(M, 'update'), [], {})
        return outputs(it, M, flags, sym('bed') if bed is None else bed)
    return list(explore(get_repo(), lambda: Pol(flags), body, 16))


def combos():
    for s, a in ((False, True), (True, False), (True, True), (False, False)):
        for b in [None] + list(itertools.product((False, True), repeat=3)):
            if b is None and not s or b is not None and (s, a) == (False, False) or (b is not None and sum(b) > 0 and s):
                continue
            f = dict(zip(FLAGS, (s, a, b is not None) + (b or (False, False, False)) + (False,)))
            yield f


def label(f):
    return ', '.join(k.replace('solve_', '').replace('use_', '').replace('_', ' ') for k in FLAGS if f[k])


def refresh(ctx):
    cls = get_repo().cls('sediment_model', 'SedimentModel')
    m = cls.find_method('update')
    for f in combos():
        A, B = run(f, 'fresh'), run(f, 'update')
        for p in A + B:
            if p.outcome != 'return':
                ctx.ob('refresh', '%s: update' % label(f), False, m.loc(), 'raises %s %s' % (getattr(p.value, 'exc', p.outcome), getattr(p.value, 'loc', '')),
                       func=m.qualname)
        if any(p.outcome != 'return' for p in A + B):
            continue
        if len(A) != 1 or len(B) != 1:
            raise AnalysisError('%d/%d paths: %s' % (len(A), len(B), [p.guards() for p in A + B][:4]))
        for n, q in A[0].value.items():
            g = B[0].value[n]
            ctx.ob('refresh', '%s: %s' % (label(f), n), same(g, q), m.loc(), 'after update it is %s instead of %s' % (show_poly(g)[:300], show_poly(q)[:300]),
                   func=m.qualname)


def one(f, **k):
    ps = run(f, 'update', **k)
    if len(ps) != 1 or ps[0].outcome != 'return':
        return None
    return ps[0].value


def relations(ctx):
    cls = get_repo().cls('sediment_model', 'SedimentModel')
    m, mb = cls.find_method('get_equilibrium_tracer'), cls.find_method('get_bedload_term')
    for f in combos():
        if f['solve_suspended_sediment'] and not f['use_bedload']:
            v = one(f)
            if v is None:
                continue
            e, d = v['erosion'], v['deposition coefficient'] * v['equilibrium concentration']
            ctx.ob('balance', '%s: at the equilibrium concentration erosion equals deposition' % label(f), same(e, d), m.loc(),
                   'erosion %s, deposition %s' % (show_poly(e)[:200], show_poly(d)[:200]), func=m.qualname)
            # the advective factor lies in [0, 1]: clipping it changes nothing
            a = v['advective velocity factor']
            ctx.ob('balance', '%s: advective velocity factor between 0 and 1' % label(f),
                   same(make_fn('max', [make_fn('min', [a, Poly.const(1)]), Poly()]), a), m.loc(), 'is %s' % show_poly(a)[:200])
    plain = dict.fromkeys(FLAGS, False, )
    plain['use_bedload'] = True
    ref = one(plain)
    flat = one(plain, bed=Poly.const(3), const=True)
    u, v = [make_fn('proj', [Poly.atom(fatom('uv1', (i,)))]) for i in range(2)]
    s = (u * u + v * v).pow(Fraction(1, 2))
    if ref is None or flat is None:
        return
    x, y = ref['bedload flux x'], ref['bedload flux y']
    ctx.ob('bedload', 'without corrections the flux has the direction of the flow', same(x * v, y * u), mb.loc(),
           'is %s, %s' % (show_poly(x)[:150], show_poly(y)[:150]), func=mb.qualname)
    for f in combos():
        if not f['use_bedload']:
            continue
        v_ = one(f, bed=Poly.const(3), const=True)
        if v_ is not None:
            for i in 'xy':
                n = 'bedload flux ' + i
                ctx.ob('bedload', '%s: on a flat bed under a flat surface the corrections vanish (%s)' % (label(f), i), same(v_[n], flat[n]), mb.loc(),
                       'is %s instead of %s' % (show_poly(v_[n])[:200], show_poly(flat[n])[:200]), func=mb.qualname)
    sl = dict(plain, use_slope_mag_correction=True)
    v_ = one(sl)
    if v_ is not None:
        # bathymetry is positive downwards: transport grows where the bed falls along the flow
        g = [make_fn('D%d' % i, [sym('bed')]) for i in range(2)]
        fac = 1 + sym('slope_effect_parameter') * (g[0] * u + g[1] * v) / s
        for i in 'xy':
            n = 'bedload flux ' + i
            ctx.ob('bedload', 'slope magnitude correction is 1 + beta (flow direction . grad bathymetry) (%s)' % i, same(v_[n], ref[n] * fac), mb.loc(),
                   'is %s' % show_poly(v_[n])[:200], func=mb.qualname)


@prop('D04', 'state of the sediment model after update() against a model built on that state, in every option combination', 15, TECH)
def d04(ctx):
    poly.SCALE.update(SCALE)
    try:
        refresh(ctx)
        relations(ctx)
    finally:
        poly.SCALE.clear()
