"""D03: weak forms of the TKE and psi equations."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa import eqs
from sa.absint import Sy, Ex, Ob, explore, show, is_num
from sa.repo import AnalysisError
from sa.poly import Poly, make_fn, show_poly
from sa.forms import Form, T, fatom
from sa.formdb import repo as get_repo
from sa.pw import same

TECH = ('extraction of the weak form of the whole equation from the syntax tree in every guard partition; canonical form compared with the '
        'documented budget and with the tracer diffusion operator after substitution of the coefficient')


class Pol(eqs.FormPolicy):
    """c3: sign of c3_minus, rough: a bottom roughness is given"""
    def __init__(self, *a, c3=1, rough=True, **k):
        super().__init__(*a, **k)
        self.c3, self.rough = c3, rough

    def attr(self, it, base, name, node):
        if show(base) == 'gls.options':
            return Sy('o_' + name)
        return super().attr(it, base, name, node)

    def decide(self, it, v):
        if isinstance(v, Ex) and v.op == '<' and len(v.args) == 2:
            a, b = v.args
            if show(a) == 'o_c3_minus' and is_num(b) and b == 0:
                return self.c3 < 0
            if show(b) == 'o_c3_minus' and is_num(a) and a == 0:
                return self.c3 > 0
            for x, y, s in ((a, b, 1), (b, a, -1)):
                if show(x) in ('o_c3_plus', 'o_n') and is_num(y) and y == 0 and show(x) == 'o_c3_plus':
                    return s < 0
        if isinstance(v, Ex) and v.op == 'given' and show(v.args[0]) == 'bottom_roughness':
            return self.rough
        return super().decide(it, v)


class Turb(eqs.Tracer3D):
    name = 'turbulence'
    keep_lag = True
    sol = 's'
    consts = eqs.CONST_NAMES | {'o_' + x for x in ('c1', 'c2', 'c3_minus', 'c3_plus', 'n', 'm', 'p', 'cmu0', 'f_wall', 'schmidt_nb_tke',
                                                  'schmidt_nb_psi')}

    def build(self, it, eq):
        return it.instantiate(it.repo.cls('turbulence', eq), [Sy('fs'), Sy('gls')],
                              dict(bathymetry=Sy('bath'), v_elem_size=Sy('v_elem_size'), h_elem_size=Sy('h_elem_size')))


def whole(eq, cont, c3, rough, label):
    """weak form of the equation for one guard partition"""
    f = Turb()
    fe = f.evaluator()

    def body(it):
        e = f.build(it, eq)
        return it.call(it.getattr(e, 'residual'), [label, Sy('s'), Sy('s_old'), Sy('fields'), Sy('fields_old'), {}], {})
    out = []
    for p in explore(get_repo(), lambda: Pol(cont, hdim=3, gdim=3, c3=c3, rough=rough), body, 64):
        if p.outcome != 'return':
            out.append((p, None))
            continue
        v = fe.ev(p.value)
        if isinstance(v, T) and v.shape == () and v.at().is_zero_raw():
            v = Form()
        if not isinstance(v, Form):
            raise AnalysisError('%s.residual is not a form' % eq)
        out.append((p, v))
    return out


def tracer_diffusion(cont):
    f = eqs.Tracer3D()
    for d in f.forms(get_repo(), terms=['VerticalDiffusionTerm'], bcs=[None], continuities=[cont]):
        if d['form'] is not None and 'sipg' not in d['guards']:
            return d['form']
    raise AnalysisError('vertical diffusion of the tracer not found')


def swap(p, sigma, gls):
    """tracer diffusion with the coefficient nu/sigma acting on s"""
    def f(a):
        if a[0] == 'f' and a[1] == 'diffusivity_v':
            b = (a[0], 'viscosity_v') + tuple(a[2:])
            return Poly.atom(b) / const(sigma)
        if a[0] == 'f' and a[1] == 'c':
            return Poly.atom((a[0], 's') + tuple(a[2:]))
        if a[0] == 'f' and a[1] == 'sipg_v':
            return Poly.const(1)
        return None
    return p.map_atoms(f)


def const(n):
    fe = Turb().evaluator()
    return fe.ev(Sy(n)).s()


def check(ctx):
    meth = {q: get_repo().cls('turbulence', q).find_method('__init__') for q in ('TKEEquation', 'PsiEquation')}
    fe = Turb().evaluator()
    s = lambda n, *i: fe.ev(Sy(n)).c[i] if i else fe.ev(Sy(n)).s()
    test, S, So = s('test'), s('s'), s('s_old')
    nu, mu, eps = s('viscosity_v'), s('diffusivity_v'), s('epsilon')
    P, Bp, Bn = nu * s('shear_freq2'), mu * s('buoy_freq2_pos'), mu * s('buoy_freq2_neg')
    k, h = s('k'), s('v_elem_size')
    nz = s('n', 2)
    o = lambda n: s('o_' + n)
    pw = lambda a, b: make_fn('pow', [a, b])
    for (eq, sg), cont in itertools.product((('TKEEquation', 'o_schmidt_nb_tke'), ('PsiEquation', 'o_schmidt_nb_psi')),
                                            ({'*': ('dg', 'dg')}, {'*': ('cg', 'cg')})):
        diff = tracer_diffusion(cont)
        loc, fn = meth[eq].loc(), meth[eq].qualname
        for c3, rough in itertools.product((1, -1), (True, False)):
            con = '%s [%s]%s%s' % (eq, cont['*'][1], ', c3_minus %s 0' % ('>' if c3 > 0 else '<') if eq[0] == 'P' else '',
                                   ', with bottom roughness' if rough and eq[0] == 'P' else '')
            if eq == 'TKEEquation':
                if c3 < 0 or not rough:
                    continue
                ex, im = P - Bn, -(Bp + eps) / So
                bot = surf = Poly()
            else:
                c1, c2, cm, cp, fw = o('c1'), o('c2'), o('c3_minus'), o('c3_plus'), o('f_wall')
                ex, im = So / k * (c1 * P - cp * Bn), -c2 * fw * eps / k
                if c3 > 0:
                    im = im - cm * Bp / k
                else:
                    ex = ex - cm * Bp * So / k
                z0 = s('bottom_roughness') if rough else Poly()
                g = o('n') * nu / const(sg) * pw(o('cmu0'), o('p')) * pw(k, o('m')) * pw(s('von_karman'), o('n'))
                # psi ~ (distance from the wall)^n: d_z psi = n ... at the bottom, -n ... at the surface
                bot = g * pw(h / 2 + z0, o('n') - 1) * nz
                surf = -g * pw(h / 2 + Fraction(1, 20), o('n') - 1) * nz
            want = {('dx', None): ex * test + im * S * test}
            for kk, v in (('ds_bottom', bot), ('ds_surf', surf)):
                if not v.is_zero_raw():
                    want[(kk, None)] = v * test
            for kk, v in diff.m.items():
                v = swap(v, sg, None)
                want[kk] = want[kk] + v if kk in want else v
            for p, form in whole(eq, cont, c3, rough, 'implicit'):
                cn = con + ((' when ' + p.guards()) if p.guards() and p.guards() != 'test and trial' else '')
                if form is None:
                    ctx.ob('budget', cn, False, loc, 'raises %s' % getattr(p.value, 'exc', p.outcome), func=fn)
                    continue
                bad = extra = None
                for kk in sorted(set(form.m) | set(want), key=str):
                    g = form.m.get(kk, Poly())
                    w = want.get(kk, Poly())
                    ok = same(strip(g), strip(w))
                    what = {'dx': 'production, destruction and diffusion', 'dS_h': 'diffusion through interior facets', 'ds_bottom':
                            'flux through the bottom', 'ds_surf': 'flux through the surface'}.get(kk[0], 'terms on %s' % kk[0])
                    ctx.ob('budget', '%s: %s' % (cn, what), ok, loc, 'is %s instead of %s' % (show_poly(g), show_poly(w)), func=fn)
        for lab in ('explicit', 'source', 'nonlinear'):
            for p, form in whole(eq, cont, 1, True, lab):
                if form is not None:
                    ctx.ob('budget', '%s [%s]: all of it is integrated implicitly' % (eq, cont['*'][1]), not form.m, loc,
                           'has %s terms' % lab, func=fn)


def strip(p):
    """constants carry no side"""
    def f(a):
        if a[0] == 'f' and a[1].startswith('o_'):
            return Poly.atom(fatom(a[1], ()))
        return None
    return p.map_atoms(f)


@prop('D03', 'weak forms of the TKE and psi equations in all guard partitions', 10, TECH)
def d03(ctx):
    check(ctx)
