"""E01, E02: diagnostic fields of the 3D model."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Cv, Fv, explore, show
from sa.repo import AnalysisError
from sa.poly import Poly, make_fn, show_poly, tofrac
from sa.forms import Form, T, fatom, INTERIOR
from sa.formdb import repo as get_repo
from sa.strong import strong, flux_n, subst, deep_unit_normal
from sa.fe import FE
from sa.pw import same, pmax, pmin
from .c_facets import smooth_rule

half = Fraction(1, 2)


def A(n, i=None, der=(), side=None):
    return Poly.atom(fatom(n, () if i is None else (i,), der, side))


N = lambda i: A('n', i)


def run(body, **kw):
    """paths of body under FE"""
    return explore(get_repo(), lambda: FE(**kw), body, 64)


def new(it, mod, cls, *a, **k):
    it.policy.concrete = tuple(it.policy.concrete) + (cls,)
    return it.call(Cv(it.repo.cls(mod, cls)), list(a), k)


def meth(mod, cls, name='__init__'):
    m = get_repo().cls(mod, cls).find_method(name)
    if m is None:
        raise AnalysisError('%s.%s not found' % (cls, name))
    return m


def comp(v, i):
    return v if i is None else i


class Spec:
    """compares a problem a(x) = l with its documented meaning"""
    def __init__(self, ctx, con, p, func, dim=3, disc=True):
        self.ctx, self.con, self.p, self.func, self.dim = ctx, con, p, func, dim
        self.disc = disc
        a, L = p.forms
        self.a, self.L = a, L
        names = {x[1] for f in (a, L) for q in f.m.values() for x in q.atoms() if x[0] == 'f'}
        self.test = next((x for x in names if x.endswith('test')), None)
        self.trial = next((x for x in names if x.endswith('trial')), None)
        if self.test is None or self.trial is None:
            raise AnalysisError('%s: test or trial function not found' % con)

    def ob(self, rule, what, ok, msg=''):
        self.ctx.ob(rule, '%s: %s' % (self.con, what), ok, self.p.loc, msg, func=self.func)

    def residual(self, val):
        """l - a with the trial function replaced by the solution"""
        def rule(n, c, der, side, const):
            if n == self.trial:
                return Poly.atom(fatom(val, c, der, side))
            return None
        r = Form()
        for k, q in self.L.m.items():
            r.add(k, q)
        for k, q in self.a.m.items():
            r.add(k, -subst(q, rule))
        return r

    def check(self, val, want, bnd, rule='weak form', skip=(), sub=None):
        """want: {test component: strong residual}; bnd: {measure: {component: residual}}"""
        from sa.forms import FormEval
        R = self.residual(val)
        if sub:
            R = R.map(lambda q: subst(q, sub))
        fe = FormEval(self.dim)
        s = strong(R, self.test, self.dim, fe)
        for c in sorted(set(s) | set(want)):
            g, w = s.get(c, Poly()), want.get(c, Poly())
            self.ob(rule, 'equation inside the elements%s' % (' [%d]' % c[0] if c else ''), same(g, w),
                    'residual is %s instead of %s' % (show_poly(g), show_poly(w)))
        interior = ('dS_h', 'dS_v') if self.dim == 3 else ('dS',)
        fp, fm = flux_n(R, self.test, self.dim, '+'), flux_n(R, self.test, self.dim, '-')
        for m in interior:
            r = R.get((m, None)) + fp + fm
            r = subst(r, smooth_rule(self.test, self.disc, m == 'dS_v'))
            if sub:
                r = subst(r, sub)
            r = deep_unit_normal(r, self.dim)
            self.ob(rule, 'interior facets (%s) are consistent' % m, r.zero(), 'without jumps the facet terms leave %s' % show_poly(r))
        fl = flux_n(R, self.test, self.dim)
        for key, w in bnd.items():
            tags = [key]
            r = R.get(key) + fl
            if key[1] is not None:
                r = r + R.get((key[0], None))
            if key[0] == 'ds_v':
                r = subst(r, lambda n, c, der, side, const: 0 if n == 'n' and c == (2,) else None)
            want_ = Poly()
            for c, q in w.items():
                want_ = want_ + q * Poly.atom(fatom(self.test, c))
            self.ob(rule, 'condition on %s%s' % (BND.get(key[0], key[0]), ' (open)' if key[1] else ''), same(r, want_),
                    'residual is %s instead of %s' % (show_poly(r), show_poly(want_)))
        known = {('dx', None)} | {(m, None) for m in interior} | set(bnd)
        for k in R.m:
            if k not in known and not R.m[k].is_zero_raw():
                self.ob(rule, 'terms on %s' % (k,), None, 'unexpected integral')

    def mass(self, shape, rule='weak form'):
        idx = list(itertools.product(*[range(n) for n in shape]))
        w = Poly()
        for i in idx:
            w = w + Poly.atom(fatom(self.test, i)) * Poly.atom(fatom(self.trial, i))
        ok = set(self.a.m) == {('dx', None)} and same(self.a.m[('dx', None)], w)
        self.ob(rule, 'left hand side is the mass matrix', ok, 'is %r' % self.a)


BND = {'ds_surf': 'the surface', 'ds_bottom': 'the bottom', 'ds_v': 'the lateral boundary', 'ds': 'the boundary'}


def probs(p):
    if p.outcome != 'return':
        return None
    return p.it.user.get('probs', [])


def horizontal(n, c, der, side, const):
    return 0 if n in ('uv',) and c == (2,) else None


# ------------------------------------------------------------------- parts
def vertical_velocity(ctx):
    fn = meth('utility3d', 'VerticalVelocitySolver')
    for open_ in (False, True):
        def body(it):
            f = it.policy.function
            w, uv = f(it, 'w', None, (3,)), f(it, 'uv', None, (3,))
            s = new(it, 'utility3d', 'VerticalVelocitySolver', w, uv, Sy('bath'), {'bnd': {'elev': Sy('e')}} if open_ else {})
            it.call(it.getattr(s, 'solve'), [], {})
            return s
        for p in run(body, vectors={'space:w': 3}):
            ps = probs(p)
            con = 'vertical velocity'
            if not ps or len(ps) != 1:
                ctx.ob('weak form', con, False if ps is None else None, fn.loc(), 'raises %s' % p.value if ps is None else '%d problems' % len(ps),
                       func=fn.qualname)
                continue
            S = Spec(ctx, con + (', open boundary' if open_ else ''), ps[0], fn.qualname)
            un = A('uv', 0) * N(0) + A('uv', 1) * N(1)
            # -(div_h u + dw/dz) in the elements, impermeable bottom and land
            want = {(2,): -(A('uv', 0, (0,)) + A('uv', 1, (1,)) + A('w', 2, (2,)))}
            bnd = {('ds_surf', None): {}, ('ds_bottom', None): {(2,): un + A('w', 2) * N(2)}, ('ds_v', None): {(2,): un}}
            if open_:
                bnd[('ds_v', "'bnd'")] = {}
                del bnd[('ds_v', None)]
            S.check('w', want, bnd, sub=horizontal)
            solved(ctx, p, con, fn, ['w'])


def solved(ctx, p, con, fn, names):
    got = [e.res.u.name for e in p.events if e.kind == 'solved']
    ctx.ob('solve', con + ': solve computes it once', got == names, fn.loc(), 'solves %s' % ', '.join(got), func=fn.qualname)


def integrator(ctx):
    fn = meth('utility3d', 'VerticalIntegrator')
    for up, av, shape, cont in itertools.product((True, False), (False, True), ((), (3,)), ('dg', 'cg')):
        def body(it):
            f = it.policy.function
            F, x, b = f(it, 'F', None, shape), f(it, 'f', None, shape), f(it, 'b', None, shape)
            kw = dict(bottom_to_top=up, bnd_value=b, average=av)
            if av:
                kw.update(bathymetry=f(it, 'bath'), elevation=f(it, 'eta'))
            s = new(it, 'utility3d', 'VerticalIntegrator', x, F, **kw)
            it.call(it.getattr(s, 'solve'), [], {})
            return s
        con = 'vertical %s %s%s [%s]' % ('average' if av else 'integral', 'upwards' if up else 'downwards', ' of a vector' if shape else '', cont)
        for p in run(body, vectors={'space:F': 3} if shape else {}, cont={'*': (cont, cont)}):
            ps = probs(p)
            if not ps or len(ps) != 1:
                ctx.ob('weak form', con, False if ps is None else None, fn.loc(), 'raises %s' % p.value if ps is None else '%d problems' % len(ps),
                       func=fn.qualname)
                continue
            S = Spec(ctx, con, ps[0], fn.qualname, disc=cont == 'dg')
            want, b0, none = {}, {}, {}
            for i in itertools.product(*[range(n) for n in shape]):
                src = Poly.atom(fatom('f', i))
                if av:
                    src = src / (A('eta') + A('bath'))
                want[i] = src - Poly.atom(fatom('F', i, (2,)))
                b0[i] = (Poly.atom(fatom('F', i)) - Poly.atom(fatom('b', i))) * N(2)
            bnd = {('ds_surf', None): none if up else b0, ('ds_bottom', None): b0 if up else none, ('ds_v', None): {}}
            S.check('F', want, bnd)
            if cont == 'dg':
                # the value carried across a facet comes from the side the integration comes from ('+' is below)
                sides = {a[4] for q in (S.a.get(('dS_h', None)),) for a in q.atoms() if a[0] == 'f' and a[1] == S.trial}
                S.ob('weak form', 'the facet value is taken from the element before', sides == {'+' if up else '-'}, 'sides %s' % sorted(map(str, sides)))
            solved(ctx, p, con, fn, ['F'])


def vertical_gradient(ctx):
    fn = meth('turbulence', 'VerticalGradSolver')

    def body(it):
        f = it.policy.function
        s = new(it, 'turbulence', 'VerticalGradSolver', f(it, 'f'), f(it, 'F'))
        it.call(it.getattr(s, 'solve'), [], {})
    for p in run(body):
        ps = probs(p)
        if not ps or len(ps) != 1:
            ctx.ob('weak form', 'vertical gradient', False if ps is None else None, fn.loc(), 'raises or unknown', func=fn.qualname)
            continue
        S = Spec(ctx, 'vertical gradient', ps[0], fn.qualname)
        S.check('F', {(): A('f', None, (2,)) - A('F')}, {('ds_surf', None): {}, ('ds_bottom', None): {}, ('ds_v', None): {}})
        S.mass(())
        solved(ctx, p, 'vertical gradient', fn, ['F'])


def smagorinsky(ctx):
    fn = meth('utility3d', 'SmagorinskyViscosity')
    for weak in (True, False):
        con = 'Smagorinsky viscosity (%s gradient)' % ('weak' if weak else 'pointwise')

        def body(it):
            f = it.policy.function
            nu, uv = f(it, 'nu'), f(it, 'uv', None, (3,))
            s = new(it, 'utility3d', 'SmagorinskyViscosity', uv, nu, Sy('c_s'), f(it, 'h'), f(it, 'nu_max'), Sy('nu_min'), weak_form=weak)
            nu.meta['c'] = T.scalar(A('old'))
            it.call(it.getattr(s, 'solve'), [], {})
            return nu.meta['c'].s()
        for p in run(body, vectors={'space:vec': 4}, shapes={'vtest': (4,), 'vtrial': (4,)}, consts={'c_s'}):
            ps = probs(p)
            if ps is None:
                ctx.ob('weak form', con, False, fn.loc(), 'raises %s' % p.value, func=fn.qualname)
                continue
            g = {}
            if weak:
                gp = [q for q in ps if q.u.meta['shape'] == (4,)]
                if len(gp) != 1:
                    ctx.ob('weak form', con, None, fn.loc(), 'velocity gradient problem not found', func=fn.qualname)
                    continue
                S = Spec(ctx, con, gp[0], fn.qualname)
                nm = gp[0].u.name
                want = {(2 * i + j,): A('uv', i, (j,)) - A(nm, 2 * i + j) for i in (0, 1) for j in (0, 1)}
                # the order of the components is free
                S.check(nm, want, {('ds_surf', None): {}, ('ds_bottom', None): {}, ('ds_v', None): {}})
                S.mass((4,))
                g = {(i, j): A('solved:%s' % nm, 2 * i + j) for i in (0, 1) for j in (0, 1)}
            else:
                g = {(i, j): A('uv', i, (j,)) for i in (0, 1) for j in (0, 1)}
            dt, ds = g[0, 0] - g[1, 1], g[0, 1] + g[1, 0]
            C = Poly.atom(fatom('c_s', (), (), None, True))
            nu = C * C * A('h') * A('h') * (dt * dt + ds * ds).pow(half)
            lo, hi = A('nu_min'), A('nu_max')
            v = p.value
            ok = same(v, pmin(pmax(nu, lo), hi)) or same(v, pmax(pmin(nu, hi), lo))
            ctx.ob('value', con + ' is (C_s h)^2 |S| between its limits', ok, fn.loc(), 'is %s' % show_poly(v), func=fn.qualname)


def magnitude(ctx):
    fn = meth('utility3d', 'VelocityMagnitudeSolver')
    for u, w in ((1, 1), (1, 0), (0, 1)):
        con = 'velocity magnitude of ' + ' and '.join(['uv'] * u + ['w'] * w)

        def body(it):
            f = it.policy.function
            o = f(it, 'm')
            s = new(it, 'utility3d', 'VelocityMagnitudeSolver', o, u=f(it, 'uv', None, (3,)) if u else None, w=f(it, 'w') if w else None,
                    min_val=Sy('least'))
            it.call(it.getattr(s, 'solve'), [], {})
            return o.meta['c'].s()
        for p in run(body):
            if p.outcome != 'return':
                ctx.ob('value', con, False, fn.loc(), 'raises %s' % p.value, func=fn.qualname)
                continue
            q = Poly()
            if u:
                q = q + A('uv', 0) * A('uv', 0) + A('uv', 1) * A('uv', 1)
            if w:
                q = q + A('w') * A('w')
            ctx.ob('value', con, same(p.value, pmax(q.pow(half), A('least'))), fn.loc(), 'is %s' % show_poly(p.value), func=fn.qualname)


# ----------------------------------------------------------------- density
PN = ('9.9984085444849347e2', '7.3471625860981584e0', '-5.3211231792841769e-2', '3.6492439109814549e-4', '2.5880571023991390e0',
      '-6.7168282786692355e-3', '1.9203202055760151e-3', '1.1798263740430364e-2', '9.8920219266399117e-8', '4.6996642771754730e-6',
      '-2.5862187075154352e-8', '-3.2921414007960662e-12')
PD = ('1', '7.2815210113327091e-3', '-4.4787265461983921e-5', '3.3851002965802430e-7', '1.3651202389758572e-10', '1.7632126669040377e-3',
      '-8.8066583251206474e-6', '-1.8832689434804897e-10', '5.7463776745432097e-6', '1.4716275472242334e-9', '6.7103246285651894e-6',
      '-2.4461698007024582e-17', '-9.1534417604289062e-18')


def jackett(s, t, p):
    """Jackett et al. (2006), equation (A1) and table A1: (numerator, denominator)"""
    r = s.pow(Fraction(3, 2))
    tn = (Poly.const(1), t, t * t, t * t * t, s, s * t, s * s, p, p * t * t, p * s, p * p, p * p * t * t)
    td = (Poly.const(1), t, t * t, t * t * t, t * t * t * t, s, s * t, s * t * t * t, r, r * t * t, p, p * p * t * t * t, p * p * p * t)
    n = d = Poly()
    for c, x in zip(PN, tn):
        n = n + x * tofrac(float(c))
    for c, x in zip(PD, td):
        d = d + x * tofrac(float(c))
    return n, d


def eos(it, kind):
    if kind == 'Jackett':
        return new(it, 'utility3d', 'JackettEquationOfState')
    return new(it, 'utility3d', 'LinearEquationOfState', Sy('rho_ref'), Sy('alpha'), Sy('beta'), Sy('th_ref'), Sy('s_ref'))


def rho_of(kind, s, t, p, r0):
    if kind == 'Jackett':
        n, d = jackett(s, t, p)
        return n / d - r0
    return A('rho_ref') - r0 - A('alpha') * (t - A('th_ref')) + A('beta') * (s - A('s_ref'))


def equation_of_state(ctx):
    for kind in ('Jackett', 'Linear'):
        fn = meth('utility3d', kind + 'EquationOfState', 'eval')
        for name in ('eval', 'compute_rho'):
            def body(it):
                e = eos(it, kind)
                f = it.policy.function
                a = [f(it, n) for n in ('S', 'T', 'p')] + [Sy('r0')]
                if name == 'compute_rho':
                    a[:3] = [it.policy.view(it, x) for x in a[:3]]
                return it.policy.scalar(it, it.call(it.getattr(e, name), a, {}))
            for p in run(body):
                con = '%s equation of state, %s' % (kind, name)
                if p.outcome != 'return':
                    ctx.ob('density', con, False, fn.loc(), 'raises %s' % p.value, func=fn.qualname)
                    continue
                s = A('S')
                if kind == 'Jackett' and name == 'compute_rho':
                    s = pmax(s, Poly())
                w = rho_of(kind, s, A('T'), A('p'), A('r0'))
                ctx.ob('density', con, close(p.value, w), fn.loc(), 'is %s' % show_poly(p.value), func=fn.qualname)
        for weak in (False, True):
            cls = 'DensitySolverWeak' if weak else 'DensitySolver'
            fn = meth('utility3d', cls, 'solve')

            def body(it):
                f = it.policy.function
                s, t, r = f(it, 'S'), f(it, 'T'), f(it, 'rho')
                o = new(it, 'utility3d', cls, s, t, r, eos(it, kind))
                s.meta['c'], t.meta['c'] = T.scalar(A('S1')), T.scalar(A('T1'))
                it.call(it.getattr(o, 'solve'), [], {})
                return [x.meta['c'].s() for x in (s, t, r)]
            for p in run(body):
                con = '%s with the %s equation of state' % (cls, kind)
                if p.outcome != 'return':
                    ctx.ob('density', con, False, fn.loc(), 'raises %s' % p.value, func=fn.qualname)
                    continue
                s, t, r = p.value
                sp = pmax(A('S1'), Poly())
                cl = weak or kind == 'Jackett'
                w = rho_of(kind, sp if cl else A('S1'), A('T1'), Poly(), A('rho0'))
                ctx.ob('density', con + ': anomaly of the current state', close(strip(r), strip(w)), fn.loc(), 'is %s' % show_poly(r), func=fn.qualname)
                ctx.ob('density', con + ': keeps the state', same(t, A('T1')) and (same(s, A('S1')) or weak and same(s, sp)), fn.loc(),
                       'S becomes %s, T becomes %s' % (show_poly(s), show_poly(t)), func=fn.qualname)


def strip(p):
    def f(a):
        if a[0] == 'f' and a[5]:
            return Poly.atom(fatom(a[1], a[2]))
        return None
    return p.map_atoms(f)


def close(a, b):
    return same(strip(a), strip(b))


# -------------------------------------------------------------- baroclinic
def pressure_gradient(ctx):
    fn = meth('momentum_eq', 'InternalPressureGradientCalculator')
    for cont, scal, bc in itertools.product(('dg', 'cg'), (None, 'scalar'), (None, 'other', 'baroc_head')):
        con = 'internal pressure gradient [%s]%s%s' % (cont, ' scaled' if scal else '', {None: '', 'other': ', open boundary',
                                                                                      'baroc_head': ', prescribed head'}[bc])

        def body(it):
            f = it.policy.function
            fields = it.obj('Fields', None)
            g, r = f(it, 'pg', None, (3,)), f(it, 'r')
            fields.attrs.update(int_pg_3d=g, baroc_head_3d=r)
            b = {} if bc is None else {'bnd': {'baroc_head': Sy('r_ext')} if bc == 'baroc_head' else {'elev': Sy('e')}}
            s = new(it, 'momentum_eq', 'InternalPressureGradientCalculator', fields, Sy('bath'), b, internal_pg_scalar=Sy(scal) if scal else None)
            it.call(it.getattr(s, 'solve'), [], {})
        for p in run(body, vectors={'space:pg': 3}, cont={'space:r': (cont, cont)}, consts={'scalar'}):
            ps = probs(p)
            if not ps or len(ps) != 1:
                ctx.ob('weak form', con, False if ps is None else None, fn.loc(), 'raises %s' % p.value if ps is None else '%d problems' % len(ps),
                       func=fn.qualname)
                continue
            S = Spec(ctx, con, ps[0], fn.qualname)
            G = Poly.atom(fatom('g_grav', (), (), None, True))
            if scal:
                G = G * Poly.atom(fatom('scalar', (), (), None, True))
            want = {(i,): (G * A('r', None, (i,)) if i < 2 else Poly()) - A('pg', i) for i in range(3)}
            bnd = {('ds_surf', None): {}, ('ds_bottom', None): {}, ('ds_v', None): {}}
            # without prescribed data the interior value is used everywhere
            k = ('ds_v', "'bnd'")
            if cont == 'dg':
                del bnd[('ds_v', None)]
                bnd[k] = {} if bc != 'baroc_head' else {(i,): G * (A('r_ext') - A('r')) * half * N(i) for i in (0, 1)}
            S.check('pg', want, bnd)
            S.mass((3,))
            solved(ctx, p, con, fn, ['pg'])


def baroclinic_head(ctx):
    """rho -> baroclinic head -> internal pressure gradient of the current state"""
    fn = get_repo().func('utility', 'compute_baroclinic_head')
    for kind in ('Jackett',):
        def body(it):
            pol = it.policy
            f = pol.function
            s, t, rho, r, g = f(it, 'S'), f(it, 'T'), f(it, 'rho'), f(it, 'r'), f(it, 'pg', None, (3,))
            eta, bath = f(it, 'eta'), f(it, 'bath')
            fields = it.obj('Fields', None)
            fields.attrs.update(int_pg_3d=g, baroc_head_3d=r, density_3d=rho, salt_3d=s, temp_3d=t)
            sol = it.obj('Solver', None)
            sol.attrs.update(fields=fields, density_solver=new(it, 'utility3d', 'DensitySolver', s, t, rho, eos(it, kind)),
                             rho_integrator=new(it, 'utility3d', 'VerticalIntegrator', rho, r, bottom_to_top=False),
                             int_pg_calculator=new(it, 'momentum_eq', 'InternalPressureGradientCalculator', fields, Sy('bath'), {}))
            it.call(Fv(fn), [sol], {})
            return it.user['probs'], r, rho
        for p in run(body, vectors={'space:pg': 3}):
            if p.outcome != 'return':
                ctx.ob('baroclinic', 'baroclinic head', False, fn.loc(), 'raises %s' % p.value, func=fn.qualname)
                continue
            pr, r, rho = p.value
            order = [e.res.u.name for e in p.events if e.kind == 'solved']
            ctx.ob('baroclinic', 'density integral, then pressure gradient', order == ['r', 'pg'], fn.loc(), 'solves %s' % order, func=fn.qualname)
            if order != ['r', 'pg']:
                continue
            ri, gi = [next(q for q in pr if q.u.name == n) for n in ('r', 'pg')]
            want = rho_of(kind, pmax(A('S'), Poly()), A('T'), Poly(), A('rho0'))
            src = ri.at_solve[1].get(('dx', None))
            ctx.ob('baroclinic', 'the integral is of the current density', close(src, want * A('test')), fn.loc(), 'integrates %s' % show_poly(src, 4),
                   func=fn.qualname)
            v = r.meta['c'].s()
            ctx.ob('baroclinic', 'head = integral from the surface / rho0 at the current rho0', close(v, -A('solved:r') / A('rho0')), fn.loc(),
                   'head is %s' % show_poly(v), func=fn.qualname)
            at = gi.at_solve[1].get(('dx', None))
            used = {a for a in at.deep_atoms() if a[0] == 'f' and a[1] in ('solved:r', 'r')}
            ini = gi.forms[1].get(('dx', None))
            w = subst(ini, lambda n, c, der, side, const: v if n == 'r' and not der else None)
            ctx.ob('baroclinic', 'the pressure gradient is that of the new head', close(at, w) and bool(used), fn.loc(),
                   'right hand side is %s' % show_poly(at, 6), func=fn.qualname)


def coordinates(ctx):
    fn = get_repo().func('utility', 'get_zcoord_from_mesh')
    fn2 = get_repo().func('utility', 'get_horizontal_elem_size_2d')
    for g, dim, want, con in ((fn, 3, A('x', 2), 'z coordinate'), (fn2, 2, None, 'horizontal element size')):
        def body(it):
            f = it.policy.function(it, 'f')
            it.call(Fv(g), [f], {})
            return f.meta['c'].s()
        for p in run(body, dim=dim):
            if p.outcome != 'return':
                ctx.ob('value', con, False, g.loc(), 'raises %s' % p.value, func=g.qualname)
                continue
            w = want if want is not None else A('CellVolume').pow(half)
            ctx.ob('value', con, close(p.value, w), g.loc(), 'is %s' % show_poly(p.value), func=g.qualname)


# ---------------------------------------------- the solver's own operators
def operators(base, **kw):
    """(cfg label, function, arg(attr, name)) for FlowSolvers built with one configuration"""
    from . import c_plumbing
    repo = get_repo()
    fn = repo.cls('solver', 'FlowSolver').find_method('create_equations')
    cfg = dict(c_plumbing.CFG3[0], **base)
    for p in c_plumbing.run3(repo, cfg, kw):
        if p.outcome == 'return':
            yield fn, p.value


def arg(S, attr, name):
    o = S.attrs.get(attr)
    if not isinstance(o, Ob):
        return None
    a = o.meta.get('args') or {}
    if name in a:
        return a[name]
    ini = o.cls.find_method('__init__')
    import ast
    d = ini.node.args
    names = [x.arg for x in d.args]
    if name in names:
        k = names.index(name) - (len(names) - len(d.defaults))
        if k >= 0:
            try:
                return ast.literal_eval(d.defaults[k])
            except ValueError:
                return Sy('default')
    return None


def is_sum(v, *fs):
    return getattr(v, 'op', None) == '+' and {id(x) for x in v.args} == {id(x) for x in fs}


def expect(ctx, rule, fn, S, attr, cls, **want):
    o = S.attrs.get(attr)
    ctx.ob(rule, '%s: is created' % attr, isinstance(o, Ob) and o.cls is not None and any(c.name in cls for c in o.cls.mro()), fn.loc(),
           'is %s' % show(o), func=fn.qualname)
    if not isinstance(o, Ob):
        return
    for k, w in want.items():
        v = arg(S, attr, k)
        if callable(w):
            ok = w(v)
        elif isinstance(w, (bool, int)) or w is None:
            ok = v is w
        elif isinstance(w, str):
            ok = show(v) == w
        else:
            ok = v is w
        ctx.ob(rule, '%s: %s' % (attr, k), ok, fn.loc(), 'is %s' % show(v), func=fn.qualname)


def operators_e01(ctx):
    for fn, S in operators(dict(smag=True)):
        f = S.attrs['fields'].attrs
        expect(ctx, 'solver', fn, S, 'smagorinsky_diff_solver', ('SmagorinskyViscosity',),
               uv=lambda v: is_sum(v, f['uv_3d'], f['uv_dav_3d']), output=f['smag_visc_3d'], c_s='options.smagorinsky_coefficient',
               h_elem_size=f['h_elem_size_3d'], max_val=f['max_h_diff'])
        expect(ctx, 'solver', fn, S, 'uv_averager', ('VerticalIntegrator',), input=f['uv_3d'], output=f['uv_dav_3d'], bottom_to_top=True,
               average=True)


def operators_e02(ctx):
    for salt, temp, lin, quad in itertools.product((True, False), (True, False), (True, False), (True, False)):
        for fn, S in operators(dict(baro=True, salt=salt, temp=temp),
                               **{'options.equation_of_state_type': 'linear' if lin else 'full', 'options.use_quadratic_density': quad}):
            f = S.attrs['fields'].attrs
            con = 'density_solver'
            expect(ctx, 'solver', fn, S, con, ('DensitySolverWeak',) if quad else ('DensitySolver',),
                   salinity=f['salt_3d'] if salt else 'options.constant_salinity',
                   temperature=f['temp_3d'] if temp else 'options.constant_temperature', density=f['density_3d'],
                   eos_class=lambda v: isinstance(v, Ob) and v.cls is not None and v.cls.name == ('Linear' if lin else 'Jackett') + 'EquationOfState')
            if lin and isinstance(arg(S, con, 'eos_class'), Ob):
                o = arg(S, con, 'eos_class')
                for k in ('rho_ref', 'alpha', 'beta', 'th_ref', 's_ref'):
                    v = (o.meta.get('args') or {}).get(k)
                    ctx.ob('solver', 'linear equation of state: %s' % k, show(v).endswith('.' + k), fn.loc(), 'is %s' % show(v), func=fn.qualname)
            expect(ctx, 'solver', fn, S, 'rho_integrator', ('VerticalIntegrator',), input=f['density_3d'], output=f['baroc_head_3d'],
                   bottom_to_top=False, average=False)
            expect(ctx, 'solver', fn, S, 'int_pg_calculator', ('InternalPressureGradientCalculator',), fields=S.attrs['fields'],
                   bnd_functions="bnd_functions['momentum']", internal_pg_scalar='options.internal_pg_scalar')


TECH = ('abstract execution of the diagnostic solvers; their captured weak forms are reduced to strong residuals, facet consistency and '
        'boundary conditions, and compared with the documented equations by exact polynomial arithmetic')


@prop('E01', 'weak forms and pointwise formulas of the 3D diagnostic solvers', 10, TECH)
def e01(ctx):
    vertical_velocity(ctx)
    integrator(ctx)
    vertical_gradient(ctx)
    smagorinsky(ctx)
    magnitude(ctx)
    coordinates(ctx)
    operators_e01(ctx)


@prop('E02', 'equation of state, baroclinic head and internal pressure gradient', 10, TECH)
def e02(ctx):
    equation_of_state(ctx)
    baroclinic_head(ctx)
    pressure_gradient(ctx)
    operators_e02(ctx)
