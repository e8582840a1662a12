"""D02: stability functions of the turbulence closure."""
import ast
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Fv, Cv, show, explore, callee_name
from sa.repo import AnalysisError
from sa.poly import Poly, make_fn, show_poly, tofrac
from sa.forms import T
from sa.pw import PW, sym as atom, same, short, pmax, pmin
from sa.formdb import repo as get_repo

TECH = ('abstract execution of the stability functions with symbolic coefficients; equilibrium conditions, limiters and the equivalence of the '
        'three coefficient forms decided as identities of the resulting expressions')
COEF = ['d%d' % i for i in range(6)] + ['n0', 'n1', 'n2', 'nb0', 'nb1', 'nb2']
CAN = ['l%d' % i for i in range(1, 9)]
GOTM = ['cc%d' % i for i in range(1, 7)] + ['cb%d' % i for i in range(1, 6)] + ['cbb']
half = Fraction(1, 2)
# sign of the symbol that stands for a coefficient: discriminants stay positive
NEG = ('d3', 'd4', 'd5', 'nb1', 'nb2')


def sym(n):
    return -atom(n) if n in NEG else atom(n)



class Pol(PW):
    concrete = ()

    def instantiate(self, it, cls, args, kwargs, node):
        return NotImplemented

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.meta.get('symbolic') and name in base.meta['symbolic']:
            return Sy(name)
        return super().attr(it, base, name, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Ext) and fn.short == 'minimize':
            it.user.setdefault('cost', []).append(args[0])
            return Sy('optimum')
        return super().call(it, fn, args, kwargs, node)

    def decide(self, it, cond):
        s = show(cond)
        if s == 'optimum.success':
            return True
        if isinstance(cond, Ob):        # the accuracy assertion
            return True
        return super().decide(it, cond)

    def compare(self, it, op, a, b):
        if any('abs(' in show(x) or 'err' in show(x) for x in (a, b) if isinstance(x, Ex)):
            return True
        return super().compare(it, op, a, b)


def base():
    return get_repo().cls('stability_functions', 'StabilityFunctionBase')


def generic(it, **attrs):
    S = it.obj(base(), 'S')
    for c in COEF:
        S.attrs[c] = Ex('neg', Sy(c)) if c in NEG else Sy(c)
    S.attrs.update(dict(alpha_buoy_crit=Sy('ab_crit'), lim_alpha_shear=True, lim_alpha_buoy=True, smooth_alpha_buoy_lim=False), **attrs)
    return S


def single(body):
    ps = [p for p in explore(get_repo(), Pol, body, 64)]
    bad = [p for p in ps if p.outcome != 'return']
    if len(ps) != 1 or bad:
        raise AnalysisError('%d paths (%s)' % (len(ps), [(getattr(p.value, 'exc', p.outcome), p.guards()) for p in ps][:3]))
    return ps[0]


def den(aN, aM):
    d = [sym('d%d' % i) for i in range(6)]
    return d[0] + d[1] * aN + d[2] * aM + d[3] * aN * aM + d[4] * aN * aN + d[5] * aM * aM


def Sm(aN, aM):
    return (sym('n0') + sym('n1') * aN + sym('n2') * aM) / den(aN, aM)


def Sh(aN, aM):
    return (sym('nb0') + sym('nb1') * aN + sym('nb2') * aM) / den(aN, aM)


def diff_msg(got, want):
    return 'is %s instead of %s' % (show_poly(got), show_poly(want))


def evaluate(ctx):
    m = base().find_method('evaluate')
    b, a = sym('d1') + sym('nb0'), sym('d4') + sym('nb1')
    anmin = short((-b + (b * b - 4 * sym('d0') * a).pow(half)) / (2 * a))
    for ls, lb, sm in itertools.product((False, True), repeat=3):
        def body(it):
            S = generic(it, lim_alpha_shear=ls, lim_alpha_buoy=lb, smooth_alpha_buoy_lim=sm)
            args = [it.policy.arr(it, sym(n)) for n in ('M2', 'N2', 'k', 'eps')]
            it.user['in'] = args
            return it.call(it.getattr(S, 'evaluate'), args, {})
        con = 'evaluate with%s shear limit, %s buoyancy limit' % ('' if ls else 'out', ('smooth' if sm else 'sharp') if lb else 'no')
        p = single(body)
        pol = p.it.policy
        x, y = [pol.scalar(p.it, v) for v in p.value]
        r2 = sym('k') * sym('k') / (sym('eps') * sym('eps'))
        aN, aM = r2 * sym('N2'), r2 * sym('M2')
        if lb and not sm:
            aN = pmax(aN, anmin)
        elif lb:
            c = sym('ab_crit')
            i = make_fn('pos', [c - aN])
            aN = short(aN - i * (aN - c) * (aN - c) / (aN + anmin - 2 * c))
        aN = short(aN)
        if ls:
            # aM <= (d0 + d1 aN + d4 aN^2)/(d2 + d3 aN), where S_m sqrt(aM) is largest for n2 = d5 = 0
            aM = pmin(aM, (sym('d0') + sym('d1') * aN + sym('d4') * aN * aN) / (sym('d2') + sym('d3') * aN))
        aM = short(aM)
        for nm, got, want in (('S_m', x, Sm(aN, aM)), ('S_rho', y, Sh(aN, aM))):
            ctx.ob('stability functions', '%s: %s' % (con, nm), same(got, want), m.loc(), diff_msg(got, want), func=m.qualname)
        ok = [pol.content(v).equals(sym(n)) for v, n in zip(p.it.user['in'], ('M2', 'N2', 'k', 'eps'))]
        ctx.ob('stability functions', '%s leaves its arguments unchanged' % con, all(ok), m.loc(), 'changes %s' % ok)


def equilibrium(ctx):
    c = base()
    ri = sym('ri')

    def run(name, args, kw=None):
        def body(it):
            S = generic(it)
            return it.call(it.getattr(S, name), [Sy(a) for a in args], kw or {})
        p = single(body)
        return p, p.it.policy.scalar(p.it, p.value), c.find_method(name)
    # steady state
    for an in (True, False):
        p, x, m = run('compute_alpha_shear_steady', ['ri'], {'analytical': an})
        con = 'steady shear (%s)' % ('analytical' if an else 'numerical')
        if an:
            ctx.ob('equilibrium', con + ': S_m aM - S_rho aM Ri = 1', same(Sm(ri * x, x) * x - Sh(ri * x, x) * x * ri, Poly.const(1)), m.loc(),
                   'not satisfied by %s' % show_poly(x), func=m.qualname)
            a = -sym('d5') + sym('n2') - (sym('d3') - sym('n1') + sym('nb2')) * ri - (sym('d4') + sym('nb1')) * ri * ri
            b = -sym('d2') + sym('n0') - (sym('d1') + sym('nb0')) * ri
            s = (b * b + 4 * a * sym('d0')).pow(half)
            ctx.ob('equilibrium', con + ': root that stays finite in the linear case', same(x, 2 * sym('d0') / (b + s)), m.loc(), 'is %s' % show_poly(x))
        else:
            cost_is(ctx, p, con, lambda v: Sm(ri * v, v) * v - Sh(ri * v, v) * v * ri - 1, m)
    for an in (True, False):
        p, q, m = run('compute_cmu0', [], {'analytical': an})
        con = 'cmu0 (%s)' % ('analytical' if an else 'numerical')
        if an:
            a, b = sym('d5') - sym('n2'), sym('d2') - sym('n0')
            s = (b * b - 4 * a * sym('d0')).pow(half)
            x = 2 * sym('d0') / (-b + s)
            ctx.ob('equilibrium', con + ': S_m at the state with S_m aM = 1', same(q.pow(4) * x, Poly.const(1)) and same(q.pow(4), Sm(Poly(), x)),
                   m.loc(), 'is %s' % show_poly(q), func=m.qualname)
        else:
            cost_is(ctx, p, con, lambda v: Sm(Poly(), v) * v - 1, m)
            x = p.it.policy.scalar(p.it, p.it.getindex(p.it.getattr(Sy('optimum'), 'x'), 0))
            ctx.ob('equilibrium', con + ': fourth root of S_m at the optimum', same(q.pow(4), Sm(Poly(), x)), m.loc(), 'is %s' % show_poly(q))
    # relations between parameters
    p, q, m = run('compute_c3_minus', ['c1', 'c2', 'ri'])
    if p.it.user.get('cost'):
        x = p.it.policy.scalar(p.it, p.it.getindex(p.it.getattr(Sy('optimum'), 'x'), 0))
    else:
        x = run('compute_alpha_shear_steady', ['ri'], {})[1]
    want = sym('c2') - (sym('c2') - sym('c1')) * Sm(ri * x, x) / Sh(ri * x, x) / ri
    ctx.ob('equilibrium', 'c3_minus: Ri_st = S_m/S_rho (c2 - c1)/(c2 - c3_minus)', same(q, want), m.loc(), diff_msg(q, want), func=m.qualname)
    p, q, m = run('compute_length_clim', ['cmu0', 'ri'])
    x = run('compute_alpha_shear_steady', ['ri'], {})[1]
    want = sym('cmu0').pow(3) * (ri * x / 2).pow(half)
    ctx.ob('equilibrium', 'length limit: cmu0^3 sqrt(aN/2) at the steady state', same(q, want), m.loc(), diff_msg(q, want), func=m.qualname)
    k, s, n, cm, c1, c2 = [sym(x) for x in ('kappa', 'sigma', 'n', 'cmu0', 'c1', 'c2')]
    p, q, m = run('compute_sigma_psi', ['kappa', 'cmu0', 'n', 'c1', 'c2'])
    want = (n * k) * (n * k) / (cm * cm * (c2 - c1))
    ctx.ob('equilibrium', 'Schmidt number of psi from the von Karman constant', same(q, want), m.loc(), diff_msg(q, want), func=m.qualname)
    p, q, m = run('compute_kappa', ['sigma', 'cmu0', 'n', 'c1', 'c2'])
    ctx.ob('equilibrium', 'von Karman constant from the Schmidt number of psi', same(q * q * n * n, cm * cm * s * (c2 - c1)), m.loc(),
           'is %s' % show_poly(q), func=m.qualname)


def cost_is(ctx, p, con, res, m):
    it = p.it
    fs = it.user.get('cost', [])
    ok, d = len(fs) == 1, 'the equilibrium condition is not solved'
    if ok:
        v = it.policy.scalar(it, it.call(fs[0], [Sy('x')], {}))
        r = res(sym('x'))
        ok = same(v, r * r) or same(v, make_fn('abs', [r]))
        d = 'minimises %s' % show_poly(v)
    ctx.ob('equilibrium', con + ': the minimised residual is the equilibrium condition', ok, m.loc(), d, func=m.qualname)


# ------------------------------------------------------- coefficient forms
def coefs(it, S):
    return {c: it.policy.scalar(it, it.getattr(S, c)) for c in COEF}


def family(name, params):
    def body(it):
        cls = get_repo().cls('stability_functions', name)
        S = it.obj(cls, 'S')
        S.meta['symbolic'] = set(params)
        it.call(it.getattr(S, '__init__'), [], {})
        return S
    p = single(body)
    return p, p.value, coefs(p.it, p.value)


def gotm_map():
    g = {x: sym(x) for x in GOTM}
    a = {1: Fraction(2, 3) - g['cc2'] / 2, 2: 1 - g['cc3'] / 2, 3: 1 - g['cc4'] / 2, 5: half - g['cc6'] / 2}
    ab = {1: 1 - g['cb2'], 2: 1 - g['cb3'], 3: 2 * (1 - g['cb4']), 5: 2 * g['cbb'] * (1 - g['cb5'])}
    a = {k: (v if isinstance(v, Poly) else Poly.const(v)) for k, v in a.items()}
    nn, nb = g['cc1'] / 2, g['cb1']
    return {'l1': a[1] / nn, 'l2': a[2] / nn / 2, 'l3': a[3] / nn / 2, 'l4': a[5] / nn, 'l5': 4 * nb / ab[3], 'l6': 2 * ab[1] / ab[3],
            'l7': 2 * ab[2] / ab[3], 'l8': ab[5] / ab[3]}


def subst(p, mp):
    def f(a):
        if a[0] == 'f' and a[1] in mp:
            return mp[a[1]]
        return None
    return p.map_atoms(f)


def forms(ctx):
    r = get_repo()
    pc, Sc, C = family('CanutoStabilityFunctionBase', CAN)
    ph, Sh_, H = family('ChengStabilityFunctionBase', CAN)
    pg, Sg, G = family('GOTMStabilityFunctionBase', GOTM)
    mp = gotm_map()
    mod = r.cls('stability_functions', 'ChengStabilityFunctionBase').find_method('__init__')
    modg = r.cls('stability_functions', 'GOTMStabilityFunctionBase').find_method('__init__')
    modc = r.cls('stability_functions', 'CanutoStabilityFunctionBase').find_method('__init__')
    for c in COEF:
        # equal functions: coefficients equal up to the common factor d0
        got, want = H[c] * C['d0'], C[c] * H['d0']
        ctx.ob('coefficient forms', 'Cheng form = Canuto form: %s/d0' % c, same(got, want), mod.loc(),
               diff_msg(H[c] / H['d0'], C[c] / C['d0']), func=mod.qualname)
        got, want = subst(C[c], mp) * G['d0'], G[c] * subst(C['d0'], mp)
        ctx.ob('coefficient forms', 'Canuto form = Umlauf-Burchard form: %s/d0' % c, same(got, want), modg.loc(),
               diff_msg(subst(C[c] / C['d0'], mp), G[c] / G['d0']), func=modg.qualname)
    for p, S, m in ((pc, Sc, 'CanutoStabilityFunctionBase'), (ph, Sh_, 'ChengStabilityFunctionBase')):
        f = r.cls('stability_functions', m).find_method('eval_funcs_new')
        if f is None:
            continue
        it = p.it
        u = [it.policy.scalar(it, v) for v in it.call(it.getattr(S, 'eval_funcs_new'), [Sy('aN'), Sy('aM')], {})]
        w = [it.policy.scalar(it, v) for v in it.call(it.getattr(S, 'eval_funcs'), [Sy('aN'), Sy('aM')], {})]
        for n, a, b in zip(('S_m', 'S_rho'), u, w):
            ctx.ob('coefficient forms', '%s: both evaluations of %s agree' % (m, n), same(a, b), f.loc(), diff_msg(a, b), func=f.qualname)


def table(cls, names):
    out = {}
    for n in names:
        e = cls.find_attr(n)
        e = e[1] if isinstance(e, tuple) else e
        if not isinstance(e, ast.AST):
            return None
        try:
            v = ast.literal_eval(e)
        except ValueError:
            return None
        out[n] = v
    return out


def tables(ctx):
    """published parameter sets: the two formulations agree to the printed precision"""
    r = get_repo()
    mp = gotm_map()
    for nm in ('CanutoA', 'CanutoB', 'Cheng'):
        a, b = r.cls('stability_functions', 'StabilityFunction' + nm), r.cls('stability_functions', 'GOTMStabilityFunction' + nm)
        A, B = table(a, CAN), table(b, GOTM)
        if A is None or B is None:
            raise AnalysisError('parameter table of %s not found' % nm)
        num = {k: Poly.const(tofrac(v)) for k, v in B.items()}
        for k in CAN:
            w = subst(mp[k], num).const_value()
            v = Fraction(tofrac(A[k]))
            e = Fraction(1, 100) * max(abs(v), Fraction(1, 10))
            ctx.ob('parameter sets', '%s: %s' % (nm, k), abs(v - w) <= e, a.loc() if hasattr(a, 'loc') else '',
                   'is %s, the other formulation has %.5f' % (A[k], float(w)), func=a.name)
    for nm in ('StabilityFunctionCanutoA', 'StabilityFunctionCanutoB', 'StabilityFunctionCheng', 'GOTMStabilityFunctionCanutoA',
               'GOTMStabilityFunctionCanutoB', 'GOTMStabilityFunctionCheng', 'GOTMStabilityFunctionKanthaClayson'):
        cls = r.cls('stability_functions', nm)
        got = cls.name.startswith('GOTM')

        def body(it):
            S = it.obj(cls, 'S')
            S.meta['symbolic'] = set()
            for k, v in table(cls, GOTM if got else CAN).items():
                S.attrs[k] = v
            it.call(it.getattr(S, '__init__'), [], {})
            return it.call(it.getattr(S, 'compute_cmu0'), [], {})
        p = single(body)
        v = p.it.policy.scalar(p.it, p.value)
        ok = not any(x[0] == 'fn' and x[1] == 'divzero' for x in v.deep_atoms())
        m = base().find_method('compute_cmu0')
        ctx.ob('equilibrium', '%s: cmu0 is finite' % nm, ok, m.loc(), 'division by zero', func=m.qualname)


@prop('D02', 'stability functions: evaluation, limits, equilibrium parameters, coefficient sets', 20, TECH)
def d02(ctx):
    evaluate(ctx)
    equilibrium(ctx)
    forms(ctx)
    tables(ctx)
