"""A01-A03: every weak-form term is the weak form of its documented operator."""
from .forms_common import *
from sa.core import prop
from sa.absint import Sy, explore, show
from sa.forms import FormEval

H2 = Fraction(1, 2)


# ------------------------------------------------------------------ 2D SWE
def visc2d(e, o):
    if not o.given('viscosity_h'):
        return None
    u, nu, H = e.s('uv'), e.s('viscosity_h'), depth(e, o)
    G = grad(u)                                 # G[i, j] = d u_i / d x_j
    stress = G * nu
    if o.opt('use_grad_div_viscosity_term'):
        stress = (G + tr(G)) * nu
    r = div(stress)
    if o.opt('use_grad_depth_viscosity_term'):
        r = r + dot(grad(H) / H, stress)
    return r


def hadv2d(e, o):
    if not o.opt('use_nonlinear_equations'):
        return None
    u = e.s('uv')
    return -dot(grad(u), u)


def quadratic_drag(e, o):
    H, u = depth(e, o), e.s('uv')
    if o.given('manning_drag_coefficient'):
        cd = e.s('g_grav') * e.s('manning_drag_coefficient') ** 2 / (H ** Fraction(1, 3))
    elif o.given('nikuradse_bed_roughness'):
        ks = e.s('nikuradse_bed_roughness')
        k = e.s('von_karman')
        cd = fn('pos', H - ks) * (2 * k * k) / (fn('ln', Fraction('11.036') * H / ks) ** 2)
    elif o.given('quadratic_drag_coefficient'):
        cd = e.s('quadratic_drag_coefficient')
    else:
        return None
    eps = e.s('options.norm_smoother')
    return -cd * sqrt(dot(u, u) + eps * eps) * u / H


def coriolis(e, o):
    if not o.given('coriolis'):
        return None
    f, u = e.s('coriolis'), e.s('uv')
    return e.vec(f * u[1], -f * u[0])


def given(name, build):
    def ref(e, o):
        return build(e, o) if o.given(name) else None
    return ref


def bottom_drag_3d(e, o):
    if not (o.given('bottom_drag') and o.given('uv_bottom')):
        return None
    u = e.s('uv_bottom')
    return -e.s('bottom_drag') * sqrt(dot(u, u)) * u / depth(e, o)


def turbine(e, o):
    u = e.s('uv')
    return {f: -fn('turbine_friction:' + f, u[0], u[1], depth(e, o)) * e.s(f + '.turbine_density') * sqrt(dot(u, u)) * u / depth(e, o)
            for f in ('farm', 'farm2')}


SWE_REF = {
    'ExternalPressureGradientTerm': lambda e, o: -e.s('g_grav') * grad(e.s('eta')),
    'HorizontalAdvectionTerm': hadv2d,
    'HorizontalViscosityTerm': visc2d,
    'CoriolisTerm': coriolis,
    'WindStressTerm': given('wind_stress', lambda e, o: e.s('wind_stress') / (depth(e, o) * e.s('rho0'))),
    'AtmosphericPressureTerm': given('atmospheric_pressure', lambda e, o: -grad(e.s('atmospheric_pressure')) / e.s('rho0')),
    'QuadraticDragTerm': quadratic_drag,
    'LinearDragTerm': given('linear_drag_coefficient', lambda e, o: -e.s('linear_drag_coefficient') * e.s('uv')),
    'BoundaryDragTerm': lambda e, o: None,
    'BottomDrag3DTerm': bottom_drag_3d,
    'MomentumSourceTerm': given('momentum_source', lambda e, o: e.s('momentum_source')),
    'HUDivTerm': lambda e, o: -div(depth(e, o) * e.s('uv')),
    'ContinuitySourceTerm': given('volume_source', lambda e, o: e.s('volume_source')),
    'TurbineDragTerm': turbine,
}
MOM = ['ExternalPressureGradientTerm', 'HorizontalAdvectionTerm', 'HorizontalViscosityTerm', 'CoriolisTerm',
       'WindStressTerm', 'AtmosphericPressureTerm', 'QuadraticDragTerm', 'LinearDragTerm', 'BoundaryDragTerm',
       'BottomDrag3DTerm', 'MomentumSourceTerm', 'TurbineDragTerm']
CONT = ['HUDivTerm', 'ContinuitySourceTerm']
COMPOSITION = {
    'SWE': MOM + CONT, 'SWMomentum': MOM, 'FreeSurface': CONT,
    'Tracer2D:conservative': ['ConservativeHorizontalAdvectionTerm', 'ConservativeHorizontalDiffusionTerm', 'ConservativeSourceTerm'],
    'Tracer2D:!conservative': ['HorizontalAdvectionTerm', 'HorizontalDiffusionTerm', 'SourceTerm'],
    'Sediment2D:conservative': ['ConservativeSedimentAdvectionTerm', 'SedimentDiffusionTerm', 'SedimentErosionTerm',
                                'SedimentDepositionTerm'],
    'Sediment2D:!conservative': ['SedimentAdvectionTerm', 'SedimentDiffusionTerm', 'SedimentErosionTerm', 'SedimentDepositionTerm'],
    'Exner': ['ExnerSourceTerm', 'ExnerBedloadTerm', 'ExnerSedimentSlideTerm'],
    'Tracer3D': ['HorizontalAdvectionTerm', 'VerticalAdvectionTerm', 'HorizontalDiffusionTerm', 'VerticalDiffusionTerm', 'SourceTerm'],
    'Momentum3D': ['PressureGradientTerm', 'HorizontalAdvectionTerm', 'VerticalAdvectionTerm', 'HorizontalViscosityTerm',
                   'VerticalViscosityTerm', 'BottomFrictionTerm', 'LinearDragTerm', 'CoriolisTerm', 'SourceTerm'],
    'ModeSplit2D': ['ExternalPressureGradientTerm', 'CoriolisTerm', 'AtmosphericPressureTerm', 'MomentumSourceTerm'] + CONT,
}


# ------------------------------------------------------------------ tracers
def vel2(e):
    return e.s('tracer_advective_velocity_factor') * e.s('uv_2d')


def tdepth(e, o):
    return depth(e, o, e.s('elev_2d'))


TR2 = {
    'HorizontalAdvectionTerm': lambda e, o: -dot(vel2(e), grad(e.s('c'))),
    'HorizontalDiffusionTerm': given('diffusivity_h-tr', lambda e, o: div(e.s('diffusivity_h-tr') * grad(e.s('c')))),
    'SourceTerm': given('source-tr', lambda e, o: e.s('source-tr')),
    'ConservativeHorizontalAdvectionTerm': lambda e, o: -div(vel2(e) * e.s('c')),
    'ConservativeHorizontalDiffusionTerm': given('diffusivity_h-tr',
                                                 lambda e, o: div(e.s('diffusivity_h-tr') * grad(e.s('c')))),
    'ConservativeSourceTerm': given('source-tr', lambda e, o: tdepth(e, o) * e.s('source-tr')),
}
ERO, DEPO = 'sed.get_erosion_term()', 'sed.get_deposition_coefficient()'


def sed_ref(var):
    cons = var['conservative']
    return {
        'SedimentAdvectionTerm': TR2['HorizontalAdvectionTerm'],
        'ConservativeSedimentAdvectionTerm': TR2['ConservativeHorizontalAdvectionTerm'],
        'SedimentDiffusionTerm': given('diffusivity_h-sediment_2d',
                                       lambda e, o: div(e.s('diffusivity_h-sediment_2d') * grad(e.s('c')))),
        'SedimentErosionTerm': lambda e, o: e.s(ERO) if cons else e.s(ERO) / tdepth(e, o),
        'SedimentDepositionTerm': lambda e, o: -e.s(DEPO) * e.s('c') / tdepth(e, o),
    }


def exner_ref(var):
    integ = var['integrated']

    def fac(e):
        return e.const('morfac^') / (1 - e.const('porosity^'))

    def source(e, o):
        dep = e.s(DEPO) * e.s('sediment')
        if integ:
            dep = dep / tdepth(e, o)
        return fac(e) * (e.s(ERO) - dep)
    return {
        'ExnerSourceTerm': source,
        # the bed lies at -b: db/dt = fac * div(q)
        'ExnerBedloadTerm': lambda e, o: fac(e) * div(e.s('qb', (2,))),
        'ExnerSedimentSlideTerm': lambda e, o: -div(e.s('Dslide') * grad(e.s('c'))),
    }


# ---------------------------------------------------------------- 3D
def u3(e, o):
    u = e.s('uv')
    return u + e.s('uv_depth_av') if o.given('uv_depth_av') else u


def h2(x, e):
    return e.vec(x[0], x[1], 0)


def w3(e, o):
    w = e.s('w')[2]
    return w - e.s('w_mesh') if o.given('w_mesh') else w


def hadv3(e, o):
    if not o.opt('nonlinear'):
        return None
    u = u3(e, o)
    return e.vec(*([-(D(u[i] * u[0], 0) + D(u[i] * u[1], 1)) for i in (0, 1)] + [0]))


def vadv3(e, o):
    if not o.given('w') or not o.opt('nonlinear'):
        return None
    u = u3(e, o)
    return e.vec(*([-D(u[i] * w3(e, o), 2) for i in (0, 1)] + [0]))


def hvisc3(e, o):
    u, nu = u3(e, o), e.s('viscosity_h')
    return e.vec(*([D(nu * D(u[i], 0), 0) + D(nu * D(u[i], 1), 1) for i in (0, 1)] + [0]))


def vvisc3(e, o):
    u, nu = e.s('uv'), e.s('viscosity_v')
    return D(nu * D(u, 2), 2)


MOM3 = {
    'PressureGradientTerm': given('int_pg', lambda e, o: -h2(e.s('int_pg', (3,)), e)),
    'HorizontalAdvectionTerm': hadv3,
    'VerticalAdvectionTerm': vadv3,
    'HorizontalViscosityTerm': given('viscosity_h', hvisc3),
    'VerticalViscosityTerm': given('viscosity_v', vvisc3),
    'BottomFrictionTerm': lambda e, o: None,
    'LinearDragTerm': given('linear_drag_coefficient', lambda e, o: -e.s('linear_drag_coefficient') * u3(e, o)),
    'CoriolisTerm': given('coriolis', lambda e, o: e.vec(e.s('coriolis') * e.s('uv')[1], -e.s('coriolis') * e.s('uv')[0], 0)),
    'SourceTerm': given('source', lambda e, o: e.s('source')),
}


def uvt(e, o):
    return e.s('uv_3d') + e.s('uv_depth_av')


TR3 = {
    'HorizontalAdvectionTerm': lambda e, o: -(D(e.s('c') * uvt(e, o)[0], 0) + D(e.s('c') * uvt(e, o)[1], 1)
                                              + D(e.s('c') * uvt(e, o)[2], 2)),
    'VerticalAdvectionTerm': lambda e, o: -D(e.s('c') * w3(e, o), 2),
    'HorizontalDiffusionTerm': lambda e, o: D(e.s('diffusivity_h') * D(e.s('c'), 0), 0) + D(e.s('diffusivity_h') * D(e.s('c'), 1), 1),
    'VerticalDiffusionTerm': lambda e, o: D(e.s('diffusivity_v') * D(e.s('c'), 2), 2),
    'SourceTerm': lambda e, o: e.s('source'),
}

def refs_for(r):
    if r.family in ('SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum'):
        return SWE_REF
    if r.family == 'Tracer2D':
        return TR2
    if r.family == 'Sediment2D':
        return sed_ref(r.var)
    if r.family == 'Exner':
        return exner_ref(r.var)
    return TR3 if r.family == 'Tracer3D' else MOM3


def decide(ctx, recs, rule='strong form'):
    for r in recs:
        if r.raised is not None:
            continue
        refs = refs_for(r)
        name = '%s%s.%s' % (r.family, ''.join(':' + k for k, v in sorted(r.var.items()) if v), r.clsname)
        if r.clsname not in refs:
            ctx.ob(rule, name, None, r.loc, 'no documented operator for this term', r.func)
            continue
        f = fam(r.family)
        e = E(f, r)
        form = canon(r)
        tags = [k for k in form.m if k[0] == 'dx']
        test = test_of(form)
        got = {}
        try:
            for k in tags:
                g = Form({('dx', None): form.m[k]})
                for c, p in strong(g, test, f.dim, e.fe).items():
                    got[k[1], c] = got.get((k[1], c), Poly()) + p
        except NotLinear as x:
            ctx.ob(rule, name, False, r.where(), 'volume integrand is not linear in the test function: %s' % x, r.func)
            continue
        bad = None
        for ex, want in completions(r, lambda o: refs[r.clsname](e, o)):
            # operators that act on a part of the domain: {part: operator}
            w = {(t, c): p for t, x in (want.items() if isinstance(want, dict) else [(None, want)]) if x is not None
                 for c, p in comps(x).items()}
            for c in sorted(set(w) | set(got), key=str):
                d = got.get(c, Poly()) - w.get(c, Poly())
                if not d.zero():
                    bad = 'component %s%s%s: weak form integrates to %s but the documented operator is %s' % (
                        list(c[1]), ' on the domain of %s' % c[0] if c[0] else '',
                        (' with %s' % {k[1]: v for k, v in ex.items()}) if ex else '',
                        short(got.get(c, Poly())), short(w.get(c, Poly())))
                    break
            if bad:
                break
        ctx.ob(rule, name, bad is None, r.where(), bad or '', r.func)



# --------------------------------------------------- boundary-only operators
def boundary_drag(e, o, r):
    if not (r.bc != 'none' and 'drag' in r.bc.split('+')):
        return {}
    u, n, t = e.s('uv'), e.s('n'), e.s('u_test')
    ut = u - dot(u, n) * n
    return {('ds', "'bnd'"): -e.s('bnd.drag') * sqrt(dot(ut, ut)) * dot(ut, t)}


def bottom_friction(e, o, r):
    if not o.opt('bottom_friction'):
        return {}
    u, t = u3(e, o), e.s('test')
    if o.given('quadratic_drag_coefficient'):
        cd = e.s('quadratic_drag_coefficient')
    else:
        h, z0, k = e.s('v_elem_size'), e.s('bottom_roughness'), e.s('von_karman')
        b = -Fraction(7, 4) * h - Fraction(3, 2) * z0 + (h + Fraction(5, 2) * z0) * fn('ln', (h + z0) / z0)
        cd = (k * h / b) ** 2
    return {('ds_bottom', None): -cd * sqrt(u[0] * u[0] + u[1] * u[1]) * (u[0] * t[0] + u[1] * t[1])}


def wind3(e, o, r):
    if not o.given('viscosity_v') or not o.given('wind_stress'):
        return {}
    s, t = e.s('wind_stress'), e.s('test')
    return {('ds_surf', None): (s[0] * t[0] + s[1] * t[1]) / e.s('rho0')}


FACET_REF = {('BoundaryDragTerm', 2): boundary_drag, ('BottomFrictionTerm', 3): bottom_friction, ('SourceTerm', 3): wind3}


def decide_facets(ctx, recs, rule='boundary operator'):
    for r in recs:
        f = fam(r.family)
        ref = FACET_REF.get((r.clsname, f.dim))
        if ref is None or r.raised is not None or r.family == 'Tracer3D':
            continue
        e = E(f, r)
        form = canon(r)
        got = {k: deep_unit_normal(p, f.dim) for k, p in form.m.items() if k[0] != 'dx'}
        bad = None
        for ex, want in completions(r, lambda o: ref(e, o, r)):
            w = {k: deep_unit_normal(x.p, f.dim) for k, x in want.items()}
            for k in set(w) | set(got):
                if not (got.get(k, Poly()) - w.get(k, Poly())).zero():
                    bad = '%s integrand is %s, the documented one %s' % (k[0], short(got.get(k, Poly())),
                                                                       short(w.get(k, Poly())))
        ctx.ob(rule, '%s.%s' % (r.family, r.clsname), bad is None, r.where(), bad or '', r.func)


def mass_names(n, comp, der, side, const):
    if n == 'solution' and comp == (1,):
        return Poly.atom(fatom('eta', (), der, side, const))
    return None


def decide_mass(ctx, families, rule='time derivative'):
    """mass term = (solution, test) plus the moving-bed displacement"""
    for fname in families:
        f = fam(fname)
        for var in f.variants():
            def body(it):
                eq = f.build(it, **var)
                return it.call(it.getattr(eq, 'mass_term'), [Sy('solution')], {}, None)
            name = '%s.mass_term' % fname
            try:
                paths = explore(formdb.repo(), lambda: f.policy(f.continuities[0]), body)
                for p in paths:
                    if p.outcome != 'return':
                        continue
                    fe = FormEval(f.dim, {}, f.consts)
                    form = fe.ev(p.value)
                    opts = {show(c): v for c, v, _ in p.factlog}
                    got = subst(form.get(('dx', None)), mass_names)
                    e = E(f)
                    e.fe = fe
                    want = e.s('solution') * e.s('test')
                    if fname in ('SWE', 'FreeSurface'):
                        wd = opts.get('wetting_drying', False)
                        if wd:
                            h = e.s('bath') + e.s('eta' if fname == 'SWE' else 'solution')
                            a = e.s('wd_alpha')
                            want = want + (sqrt(h * h + a * a) - h) * H2 * e.s('eta_test')
                    got = got - want.p
                    ok = got.zero() and set(form.m) == {('dx', None)}
                    ctx.ob(rule, name, ok, p.guards(), '' if ok else 'time-derivative integrand is %s, expected %s' % (
                        short(form.get(('dx', None))), short(want.p)), None)
            except AnalysisError as x:
                ctx.ob(rule, name, None, msg=str(x))


@prop('A01', 'for each term of the 2D shallow water equation sets and each guard partition, the volume integrand '
      'integrated by parts onto the trial side (B - div A) equals the documented differential operator; boundary-only '
      'operators and the time-derivative term equal their documented integrands', 1500,
      'weak forms extracted by abstract interpretation; symbolic Green-formula calculus and normal-form equality')
def a01(ctx):
    recs = records(ctx, ['SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum'])
    decide(ctx, recs)
    decide_facets(ctx, recs)
    decide_mass(ctx, ['SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum'])
    composition(ctx, recs)


@prop('A02', 'for each term of the 2D tracer, sediment and bed equations and each guard partition, the volume integrand '
      'integrated by parts onto the trial side equals the documented differential operator', 900,
      'weak forms extracted by abstract interpretation; symbolic Green-formula calculus and normal-form equality')
def a02(ctx):
    recs = records(ctx, ['Tracer2D', 'Sediment2D', 'Exner'])
    decide(ctx, recs)
    decide_mass(ctx, ['Tracer2D', 'Sediment2D', 'Exner'])
    composition(ctx, recs)


@prop('A03', 'for each term of the 3D momentum and tracer equations and each guard partition, the volume integrand '
      'integrated by parts onto the trial side equals the documented differential operator; bottom friction and wind '
      'stress equal their documented surface integrands', 150,
      'weak forms extracted by abstract interpretation; symbolic Green-formula calculus and normal-form equality')
def a03(ctx):
    recs = records(ctx, ['Tracer3D', 'Momentum3D'])
    decide(ctx, recs)
    decide_facets(ctx, recs)
    decide_mass(ctx, ['Tracer3D', 'Momentum3D'])
    composition(ctx, recs)


def composition(ctx, recs):
    """every documented term is part of the equation"""
    for key, want in COMPOSITION.items():
        famname, _, var = key.partition(':')
        have = {r.clsname for r in recs if r.family == famname and (not var or r.var.get(var.lstrip('!')) is (var[0] != '!'))}
        if not any(r.family == famname for r in recs):
            continue
        for t in want:
            ctx.ob('composition', '%s contains %s' % (key, t), t in have, fam(famname).cls,
                   '' if t in have else 'the equation has no %s term' % t)
