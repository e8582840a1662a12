"""E05-E07: 2D diagnostics, non-hydrostatic pressure, total depth."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Cv, Fv, explore, show
from sa.repo import AnalysisError
from sa.poly import Poly, make_fn, show_poly
from sa.forms import Form, T, fatom
from sa.formdb import repo as get_repo
from sa.strong import subst, strong, flux_n, deep_unit_normal
from sa.fe import FE
from sa.pw import same
from .c_diag3d import A, N, Spec, new, meth, probs, solved, strip, half
from .c_facets import smooth_rule


class FE2(FE):
    """adds mixed spaces, the diagnostics' space queries and keeps traits plain"""
    def __init__(self, **kw):
        self.mixed = kw.pop('mixed', None)
        super().__init__(dim=2, **kw)

    def evaluator(self, it):
        fe = super().evaluator(it)
        return fe

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'tag':
            return fn[1].meta['default']
        n = callee(fn)
        if n == 'hasattr' and isinstance(args[0], Ob) and args[0].cls is not None and isinstance(args[1], str):
            o = args[0]
            return args[1] in o.attrs or bool(o.cls.find_method(args[1])) or bool(o.cls.find_attr(args[1]))
        if n in ('TrialFunctions', 'TestFunctions') and self.mixed:
            return [Sy('%s_%s' % (k, n[:-9].lower())) for k in self.mixed]
        if n == 'get_interpolator':
            o = it.obj('Interp', None)
            o.meta['expr'] = args[0]
            return o
        if n == 'interpolate' and isinstance(fn, Ext) and len(args) == 2:
            return Ex('interpolated', args[0], args[1])
        if n == 'project' and isinstance(fn, Ext) and len(args) == 2:
            f = self.function(it, None, None, self.value(it, args[0]).shape)
            self.put(it, f, self.value(it, args[0]), node)
            return f
        if isinstance(fn, tuple) and fn and fn[0] == 'assemble':
            e = fn[1].meta['expr']
            e = e.args[0] if isinstance(e, Ex) and e.op == 'interpolated' else e
            t = (args[0] if args else kwargs.get('tensor'))
            if t is None:
                t = self.function(it)
            self.put(it, t, self.value(it, e), node)
            return t
        return super().call(it, fn, args, kwargs, node)

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name.startswith('Firedrake') and cls.name.endswith('Expression'):
            o = it.obj('Trait', None)
            o.meta['default'] = args[0]
            return o
        return super().instantiate(it, cls, args, kwargs, node)

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.clsname == 'Trait' and name == 'tag':
            return ('tag', base)
        if isinstance(base, Ob) and base.clsname == 'Interp' and name in ('assemble', 'interpolate'):
            return ('assemble', base)
        if name == 'topological_dimension':
            return 2
        if isinstance(base, Ob) and base.meta.get('fn') and name == 'subfunctions' and base.name == 'mixed':
            return base.attrs['subfunctions']
        return super().attr(it, base, name, node)

    def newfunction(self, it, args, kwargs, node):
        if self.mixed and args and not isinstance(args[0], Ob):
            o = it.obj('Function', 'mixed')
            o.meta.update(fn=True, isa=('Function',), shape=(), writes=0, c=T.scalar(Poly()))
            o.attrs['subfunctions'] = tuple(self.function(it, k + '_sol', None, self.mixed[k]) for k in self.mixed)
            return o
        return super().newfunction(it, args, kwargs, node)

    def put(self, it, o, p, node=None):
        super().put(it, o, p, node)
        if o.meta.get('fn') and o.name == 'mixed':
            for f in o.attrs['subfunctions']:
                sh = f.meta['shape']
                super().put(it, f, T(sh, {i: A_('solved:' + f.name, i) for i in itertools.product(*[range(n) for n in sh])}), node)


def A_(n, i):
    return Poly.atom(fatom(n, i))


def callee(fn):
    from sa.absint import callee_name
    return callee_name(fn) if not isinstance(fn, tuple) else None


def run2(body, **kw):
    return explore(get_repo(), lambda: FE2(**kw), body, 64)


def vorticity(ctx):
    fn = meth('diagnostics', 'VorticityCalculator2D')

    def body(it):
        f = it.policy.function
        s = new(it, 'diagnostics', 'VorticityCalculator2D', f(it, 'uv', None, (2,)), f(it, 'om'))
        it.call(it.getattr(s, 'solve'), [], {})
    for p in run2(body, cont={'*': ('cg', 'cg')}):
        ps = probs(p)
        if not ps or len(ps) != 1:
            ctx.ob('weak form', 'vorticity', False if ps is None else None, fn.loc(), 'raises %s' % p.value if ps is None else '?', func=fn.qualname)
            continue
        S = Spec(ctx, 'vorticity', ps[0], fn.qualname, dim=2, disc=False)
        S.check('om', {(): -A('uv', 1, (0,)) + A('uv', 0, (1,)) - A('om')}, {('ds', None): {}})
        S.mass(())
        solved(ctx, p, 'vorticity', fn, ['om'])


def hessian(ctx):
    fn = meth('diagnostics', 'HessianRecoverer2D')
    for grad in (True, False):
        con = 'Hessian recovery' + (' with gradient' if grad else '')

        def body(it):
            f = it.policy.function
            H, g = f(it, 'H', None, (2, 2)), f(it, 'g', None, (2,))
            s = new(it, 'diagnostics', 'HessianRecoverer2D', f(it, 'f'), H, **({'gradient_2d': g} if grad else {}))
            n = len(it.user['probs'])
            it.call(it.getattr(s, 'solve'), [], {})
            return n, H, g
        shapes = {'g_test': (2,), 'g_trial': (2,), 'H_test': (2, 2), 'H_trial': (2, 2)}
        for p in run2(body, cont={'*': ('cg', 'cg'), 'space:f': ('dg', 'dg')}, mixed={'g': (2,), 'H': (2, 2)}, shapes=shapes,
                      pins=PINS):
            ps = probs(p)
            if p.outcome != 'return' or not ps or len(ps) != 1:
                ctx.ob('weak form', con, False if ps is None else None, fn.loc(), 'raises %s' % p.value if ps is None else '?', func=fn.qualname)
                continue
            pr = ps[0]
            a, L = pr.forms
            R = Form()
            for k, q in L.m.items():
                R.add(k, q)
            for k, q in a.m.items():
                R.add(k, -q)

            def rule(n, c, der, side, const):
                if n in ('g_trial', 'H_trial'):
                    return Poly.atom(fatom(n[0], c, der, side))
                return None
            R = R.map(lambda q: subst(q, rule))
            from sa.forms import FormEval
            fe = FormEval(2)
            for t, want in (('g_test', {(i,): A('f', None, (i,)) - A('g', i) for i in (0, 1)}),
                            ('H_test', {(i, j): A('g', i, (j,)) - A_('H', (i, j)) for i in (0, 1) for j in (0, 1)})):
                part = R.map(lambda q: keep(q, t))
                s = strong(part, t, 2, fe)
                for c in sorted(set(s) | set(want)):
                    got, w = s.get(c, Poly()), want.get(c, Poly())
                    ctx.ob('weak form', '%s: %s equation %s' % (con, 'gradient' if t[0] == 'g' else 'Hessian', list(c)), same(got, w), pr.loc,
                           'residual is %s instead of %s' % (show_poly(got), show_poly(w)), func=fn.qualname)
                r = part.get(('ds', None)) + flux_n(part, t, 2)
                ctx.ob('weak form', '%s: %s equation, boundary' % (con, 'gradient' if t[0] == 'g' else 'Hessian'), same(r, Poly()), pr.loc,
                       'residual is %s' % show_poly(r), func=fn.qualname)
                r = part.get(('dS', None)) + flux_n(part, t, 2, '+') + flux_n(part, t, 2, '-')
                r = subst(r, smooth_rule(t, False))
                r = subst(r, lambda n, c, der, side, const: Poly.atom(fatom('g', c, der, '+')) if n == 'g' and side == '-' and not der else None)
                r = deep_unit_normal(r, 2)
                ctx.ob('weak form', '%s: %s equation, interior facets' % (con, 'gradient' if t[0] == 'g' else 'Hessian'), same(r, Poly()), pr.loc,
                       'leaves %s' % show_poly(r), func=fn.qualname)
            n, H, g = p.value
            ok = same(H.meta['c'].at(0, 1), A_('solved:H_sol', (0, 1))) and same(H.meta['c'].at(1, 0), A_('solved:H_sol', (1, 0)))
            ctx.ob('solve', con + ': the Hessian is stored', ok, fn.loc(), 'is %s' % show_poly(H.meta['c'].at(0, 1)), func=fn.qualname)
            if grad:
                ctx.ob('solve', con + ': the gradient is stored', same(g.meta['c'].at(1), A_('solved:g_sol', (1,))), fn.loc(),
                       'is %s' % show_poly(g.meta['c'].at(1)), func=fn.qualname)


PINS = {}


def keep(q, t):
    return Poly({m: k for m, k in q.t.items() if any(a[0] == 'f' and a[1] == t for a, e in m)})


def pointwise(ctx):
    fn = meth('diagnostics', 'GradientRecoverer2D', 'solve')

    def body(it):
        f = it.policy.function
        x, g = f(it, 'f'), f(it, 'g', None, (2,))
        s = new(it, 'diagnostics', 'GradientRecoverer2D', x, g)
        it.call(it.getattr(s, 'solve'), [], {})
        return g.meta['c']
    for p in run2(body):
        ok = p.outcome == 'return' and all(same(p.value.at(i), A('f', None, (i,))) for i in (0, 1))
        ctx.ob('value', 'gradient recovery', ok, fn.loc(), 'is %s' % (show_poly(p.value.at(0)) if p.outcome == 'return' else p.value), func=fn.qualname)
    fn = meth('diagnostics', 'KineticEnergyCalculator', 'solve')
    for hor, pro, rho in itertools.product((False, True), (False, True), (None, 'r')):
        con = 'kinetic energy' + (', horizontal' if hor else '') + (', projected' if pro else '') + (', given density' if rho else '')

        def body(it):
            f = it.policy.function
            u, k = f(it, 'uv', None, (3,)), f(it, 'ke')
            s = new(it, 'diagnostics', 'KineticEnergyCalculator', u, k, density=f(it, rho) if rho else None, horizontal=hor, project=pro)
            u.meta['c'] = T((3,), {(i,): A('u1', i) for i in range(3)})
            it.call(it.getattr(s, 'solve'), [], {})
            return k.meta['c'].s()
        for p in run2(body):
            w = sum((A('u1', i) * A('u1', i) for i in range(2 if hor else 3)), Poly()) * half * A(rho or 'rho0')
            ok = p.outcome == 'return' and same(strip(p.value), strip(w))
            ctx.ob('value', con, ok, fn.loc(), 'is %s' % (show_poly(p.value) if p.outcome == 'return' else p.value), func=fn.qualname)
    fn = get_repo().func('utility', 'beta_plane_coriolis_function')

    def body(it):
        f = it.policy.function(it, 'f')
        it.call(Fv(fn), [Sy('lat'), f], {'y_offset': Sy('y0')})
        return f.meta['c'].s()
    for p in run2(body, consts={'lat', 'y0'}):
        if p.outcome != 'return':
            ctx.ob('value', 'beta plane', None, fn.loc(), 'raises %s' % p.value, func=fn.qualname)
            continue
        # f = f(lat) + beta (y - y0) with beta = df/dlat / R
        q = strip(p.value)
        d = q.t
        ctx.ob('value', 'beta plane', beta_ok(q), fn.loc(), 'is %s' % show_poly(q), func=fn.qualname)


def beta_ok(q):
    from sa.poly import tofrac
    pi = Poly.atom(fatom('numpy.pi'))
    for n in ('pi', 'numpy.pi'):
        if any(a[1] == n for a in q.deep_atoms() if a[0] == 'f'):
            pi = Poly.atom(fatom(n))
    al = A('lat') * pi * Fraction(1, 180)
    om, R = tofrac(7.2921150e-5), tofrac(6371.e3)
    w = make_fn('sin', [al]) * (2 * om) + make_fn('cos', [al]) * (2 * om / R) * (A('x', 1) - A('y0'))
    return same(q, w)


@prop('E05', 'weak forms and formulas of the 2D diagnostics', 10,
      'abstract execution of the diagnostic calculators; captured weak forms are reduced to strong residuals and boundary terms and compared '
      'with the documented definitions')
def e05(ctx):
    vorticity(ctx)
    hessian(ctx)
    pointwise(ctx)


# ------------------------------------------------------------ total depth
def depth_obj(it, nonlinear, wd):
    f = it.policy.function
    return new(it, 'utility', 'DepthExpression', f(it, 'bath'), use_nonlinear_equations=nonlinear, use_wetting_and_drying=wd,
               wetting_and_drying_alpha=f(it, 'alpha'))


def depth_of(nonlinear, wd, eta):
    h = A('bath')
    if nonlinear:
        h = h + eta
        if wd:
            al = A('alpha')
            h = h + ((h * h + al * al).pow(half) - h) * half
    return h


MODES = [(False, False), (False, True), (True, False), (True, True)]


def mode(nl, wd):
    return ('nonlinear' if nl else 'linear') + (', wetting and drying' if wd else '')


@prop('E07', 'DepthExpression in every option combination', 10,
      'abstract execution; comparison with the documented formula and with the algebraic certificate H (H - (h + eta)) = alpha^2/4 of positivity')
def e07(ctx):
    fn = meth('utility', 'DepthExpression', 'get_total_depth')
    fd = meth('utility', 'DepthExpression', 'wd_bathymetry_displacement')
    for nl, wd in MODES:
        con = mode(nl, wd)

        def body(it):
            d = depth_obj(it, nl, wd)
            f = it.policy.function
            e1, e2 = f(it, 'eta'), f(it, 'eta2')
            g = lambda m, e: it.policy.scalar(it, it.call(it.getattr(d, m), [e], {}))
            first = g('get_total_depth', e1)
            out = [g('get_total_depth', e2), first, g('wd_bathymetry_displacement', e1)]
            # the bed and alpha are those at the time of evaluation
            d.attrs['bathymetry_2d'].meta['c'] = T.scalar(A('bath2'))
            d.attrs['wetting_and_drying_alpha'].meta['c'] = T.scalar(A('alpha2'))
            return out + [g('get_total_depth', e1)]
        for p in run2(body):
            if p.outcome != 'return':
                ctx.ob('depth', con, False, fn.loc(), 'raises %s' % p.value, func=fn.qualname)
                continue
            h2, h, dis, later = p.value
            w = depth_of(nl, wd, A('eta'))
            ctx.ob('depth', con + ': documented total depth', same(h, w), fn.loc(), 'is %s' % show_poly(h), func=fn.qualname)
            ctx.ob('depth', con + ': of the elevation given', same(h2, depth_of(nl, wd, A('eta2'))), fn.loc(), 'is %s' % show_poly(h2), func=fn.qualname)
            ch = lambda n, c, der, side, const: {'bath': A('bath2'), 'alpha': A('alpha2')}.get(n)
            ctx.ob('depth', con + ': of the current bed', same(later, deep(w, ch)), fn.loc(), 'is %s' % show_poly(later), func=fn.qualname)
            z = A('bath') + A('eta')
            if wd:
                ctx.ob('depth', con + ': displacement', same(dis, depth_of(True, True, A('eta')) - z), fd.loc(), 'is %s' % show_poly(dis), func=fd.qualname)
            else:
                ctx.ob('depth', con + ': no displacement', same(dis, Poly()), fd.loc(), 'is %s' % show_poly(dis), func=fd.qualname)
            if nl and wd:
                # H and H - (h + eta) have the same sign, and H is their larger one: H > 0
                ctx.ob('depth', con + ': H (H - h - eta) = alpha^2/4', same(h * (h - z), A('alpha') * A('alpha') * Fraction(1, 4)), fn.loc(),
                       'depth may not be positive', func=fn.qualname)
                r = (z * z + A('alpha') * A('alpha')).pow(half)
                ctx.ob('depth', con + ': 2 H - (h + eta) is the positive root', same(h * 2 - z, r), fn.loc(), 'is %s' % show_poly(h * 2 - z),
                       func=fn.qualname)


def deep(p, rule):
    def f(a):
        if a[0] == 'f':
            return rule(a[1], a[2], a[3], a[4], a[5])
        return None
    return p.map_atoms(f)


# --------------------------------------------------------- non-hydrostatic
@prop('E06', 'Poisson problem and velocity corrections of the non-hydrostatic solver', 10,
      'abstract execution captures the three variational problems; strong residuals, natural boundary conditions and updates are compared with '
      'the documented equation')
def e06(ctx):
    fn = meth('utility', 'DepthIntegratedPoissonSolver')
    fs = meth('utility', 'DepthIntegratedPoissonSolver', 'solve')
    for (nl, wd), bc, w_too in itertools.product(MODES[::2], ('closed', 'open'), (True, False)):
        con = '%s, %s boundary' % (mode(nl, wd), bc)

        def body(it):
            f = it.policy.function
            q, u, w, e = f(it, 'q'), f(it, 'u', None, (2,)), f(it, 'w'), f(it, 'eta')
            b = {'shallow_water': {'bnd': {'un': Sy('un')}} if bc == 'open' else {}}
            s = new(it, 'utility', 'DepthIntegratedPoissonSolver', q, u, w, e, depth_obj(it, nl, wd), Sy('dt'), b)
            it.call(it.getattr(s, 'solve'), [], {} if w_too else {'solve_w': False})
            return q, u, w
        for p in run2(body, vectors={'space:u': 2}, shapes={'vtest': (2,), 'vtrial': (2,)}, consts={'dt'}):
            ps = probs(p)
            if ps is None:
                ctx.ob('weak form', con, False, fn.loc(), 'raises %s' % p.value, func=fn.qualname)
                continue
            by = {q.u.name: q for q in ps if isinstance(q.u, Ob)}
            if set(by) != {'q', 'u', 'w'}:
                ctx.ob('weak form', con, None, fn.loc(), 'problems for %s' % sorted(by), func=fn.qualname)
                continue
            order = [e.res.u.name for e in p.events if e.kind == 'solved']
            ctx.ob('solve', con + ': pressure, then velocities', order in ([['q', 'u', 'w'], ['q', 'w', 'u']] if w_too else [['q', 'u']]), fs.loc(),
                   'solves %s' % order, func=fs.qualname)
            if not w_too:
                continue
            H = strip(depth_of(nl, wd, A('eta')))
            dt, rho = A('dt'), A('rho0')
            gA = [A('eta', None, (i,)) - A('bath', None, (i,)) for i in (0, 1)]
            lap = sum((A('eta', None, (i, i)) - A('bath', None, (i, i)) for i in (0, 1)), Poly())
            dH = [A('bath', None, (i,)) + (A('eta', None, (i,)) if nl else Poly()) for i in (0, 1)]
            q = A('q')
            wb = -sum((A('u', i) * A('bath', None, (i,)) for i in (0, 1)), Poly())
            divA = lap / H - sum((gA[i] * dH[i] for i in (0, 1)), Poly()) / (H * H)
            C = -2 * rho / dt * (A('u', 0, (0,)) + A('u', 1, (1,)) + 2 * (A('w') - wb) / H)
            want = sum((A('q', None, (i, i)) + gA[i] / H * A('q', None, (i,)) for i in (0, 1)), Poly()) + q * (divA - Poly.const(4) / (H * H)) + C
            F = by['q'].forms[0]
            from sa.forms import FormEval
            s = strong(F, 'test', 2, FormEval(2))
            got = strip(s.get((), Poly()))
            F = F.map(strip)
            ctx.ob('weak form', con + ': pressure equation', same(got, want) and set(s) <= {()}, by['q'].loc,
                   'residual is %s instead of %s' % (show_poly(got), show_poly(want)), func=fn.qualname)
            r = F.get(('ds', None)) + flux_n(F, 'test', 2)
            if bc == 'open':
                r = r + F.get(('ds', "'bnd'"))
            # closed: the corrected velocity has no normal component
            un = sum(((A('u', i) - dt / rho * half * (A('q', None, (i,)) + gA[i] / H * q)) * N(i) for i in (0, 1)), Poly())
            wantb = 2 * rho / dt * un * A('test')
            if bc == 'closed':
                ctx.ob('weak form', con + ': closed boundaries are impermeable', same(r, wantb) and not by['q'].bcs, by['q'].loc,
                       'boundary term is %s' % show_poly(r), func=fn.qualname)
            else:
                # the pressure or its normal derivative vanishes
                neumann = -sum((A('q', None, (i,)) * N(i) for i in (0, 1)), Poly()) * A('test')
                ctx.ob('weak form', con + ': no pressure, or no pressure gradient, on open boundaries', bool(by['q'].bcs) or same(r, -neumann)
                       or same(r, neumann), by['q'].loc, 'boundary term is %s' % show_poly(r), func=fn.qualname)
            if any(k[0] in ('dS',) for k in F.m):
                r = F.get(('dS', None)) + flux_n(F, 'test', 2, '+') + flux_n(F, 'test', 2, '-')
                r = deep_unit_normal(subst(r, smooth_rule('test', False)), 2)
                ctx.ob('weak form', con + ': interior facets', same(r, Poly()), by['q'].loc, 'leaves %s' % show_poly(r), func=fn.qualname)
            fu, fw = by['u'].forms, by['w'].forms
            t = 'vtest'
            wu = sum(((A('u', i) - half * dt / rho * (A('q', None, (i,)) + gA[i] / H * q)) * A(t, i) for i in (0, 1)), Poly())
            wa = sum((A('vtrial', i) * A(t, i) for i in (0, 1)), Poly())
            l = strip(fu[1].get(('dx', None)))
            ctx.ob('update', con + ': horizontal velocity', same(l, wu) and same(fu[0].get(('dx', None)), wa) and len(fu[0].m) == len(fu[1].m) == 1,
                   by['u'].loc, 'is %s' % show_poly(l), func=fn.qualname)
            l = strip(fw[1].get(('dx', None)))
            ctx.ob('update', con + ': vertical velocity', same(l, (A('w') + dt / rho * q / H) * A('test'))
                   and same(fw[0].get(('dx', None)), A('test') * A('trial')) and len(fw[0].m) == len(fw[1].m) == 1,
                   by['w'].loc, 'is %s' % show_poly(l), func=fn.qualname)
