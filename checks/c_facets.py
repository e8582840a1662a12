"""A04-A06: facet terms are consistent with the volume terms."""
from .forms_common import *
from sa.core import prop
from sa.poly import unexpanded

GEO = {'CellVolume', 'FacetArea', 'CellSize', 'n'}


def test_continuity(rec, test):
    if rec.family in ('SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum'):
        return rec.cont['u_space' if test == 'u_test' else 'eta_space'][0]
    return rec.cont['*'][0]


def smooth_rule(test, disc, vertical_facet=False):
    """states continuous across the facet; test function kept two-valued when
    its space is discontinuous"""
    def rule(n, comp, der, side, const):
        if n == 'n':
            if vertical_facet and comp == (2,):
                return 0
            if side == '-':
                return -Poly.atom(fatom('n', comp, der, '+', const))
            return None
        if side is None or n in GEO:
            return None
        if n == test:
            if disc:
                return None
            if der:
                return None
            return Poly.atom(fatom(n, comp, der, '+', const)) if side == '-' else None
        if side == '-':
            return Poly.atom(fatom(n, comp, der, '+', const))
        return None
    return rule


def horizontal_velocity(n, comp, der, side, const):
    """3D momentum: the prognostic velocity is horizontal"""
    if n in ('uv', 'uv_depth_av') and comp == (2,):
        return 0
    return None


def interior(ctx, recs, rule='interior consistency'):
    memo = {}
    for r in recs:
        if r.raised is not None or not items(r.form):
            continue
        form = canon(r)
        test = test_of(form)
        if test is None:
            continue
        f = fam(r.family)
        disc = test_continuity(r, test) != 'cg'
        vol = form.get(('dx', None))
        has = [k for k in form.m if k[0] in INTERIOR]
        # a form without interior facet terms must still be checked: its
        # volume term may have been integrated by parts
        measures = ['dS'] if f.dim == 2 else ['dS_h', 'dS_v']
        tagged = [k for k in has if k[1] is not None]
        name = '%s%s.%s' % (r.family, ''.join(':' + k for k, v in sorted(r.var.items()) if v), r.clsname)
        key = (r.clsname, disc, f.dim, vol.key(), tuple((k, form.m[k].key()) for k in sorted(has)))
        if key in memo:
            ok, msg = memo[key]
            ctx.ob(rule, name, ok, r.where(), msg, r.func)
            continue
        ok, msg = True, ''
        if tagged or any(k[0] not in measures for k in has):
            ok, msg = None, 'interior facet measure with a tag'
        else:
            try:
                fp, fm = flux_n(form, test, f.dim, '+'), flux_n(form, test, f.dim, '-')
                for mname in measures:
                    res = form.get((mname, None)) + fp + fm
                    res = subst(res, smooth_rule(test, disc, mname == 'dS_v'))
                    if r.family == 'Momentum3D':
                        res = subst(res, horizontal_velocity)
                    res = deep_unit_normal(res, f.dim)
                    if not res.zero():
                        ok, msg = False, ('on %s, for a state without jumps the facet terms leave %s '
                                          '(they must cancel the element boundary flux)' % (mname, short(res)))
                        break
            except NotLinear as x:
                ok, msg = None, str(x)
        memo[key] = (ok, msg)
        ctx.ob(rule, name, ok, r.where(), msg, r.func)


@prop('A04', 'for states without jumps, the interior facet integrand of each discontinuous-Galerkin term plus the sum of '
      'the two element boundary fluxes of its volume integrand is identically zero', 2000,
      'weak forms extracted by abstract interpretation; symbolic Green-formula calculus, normal-form equality')
def a04(ctx):
    recs = records(ctx, ['SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum', 'Tracer2D', 'Sediment2D', 'Exner', 'Tracer3D', 'Momentum3D'])
    interior(ctx, recs)


# ------------------------------------------------------------- boundaries
ADV = {'ExternalPressureGradientTerm', 'HUDivTerm', 'HorizontalAdvectionTerm', 'ConservativeHorizontalAdvectionTerm',
       'SedimentAdvectionTerm', 'ConservativeSedimentAdvectionTerm', 'VerticalAdvectionTerm'}
DIFF = {'HorizontalViscosityTerm', 'HorizontalDiffusionTerm', 'ConservativeHorizontalDiffusionTerm', 'SedimentDiffusionTerm',
        'VerticalDiffusionTerm', 'VerticalViscosityTerm'}
SWEF = ('SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum')
TRF = ('Tracer2D', 'Sediment2D')
OPEN = {'elev', 'uv', 'un', 'flux'}


def tags_of(r):
    return [] if r.bc in ('none', 'empty') else r.bc.split('+')


def nn(i, side=None):
    return Poly.atom(fatom('n', (i,), (), side))


def trace_rule(r, o, e):
    """external data := interior trace"""
    f = r.family
    tags = tags_of(r)
    if f in SWEF:
        vel, elev, fac = 'uv', 'eta', None
    elif f in TRF:
        vel, elev, fac = 'uv_2d', 'elev_2d', e.s('tracer_advective_velocity_factor').p
    elif f == 'Tracer3D':
        vel, elev, fac = None, 'elev_3d', None
    else:
        vel, elev, fac = None, 'eta', None
    if f == 'Tracer3D':
        U = u3_tr(e)
    elif f == 'Momentum3D':
        U = e.s('uv')
        if o.given('uv_depth_av'):
            U = U + e.s('uv_depth_av')
    else:
        U = e.s(vel)
    n = e.s('n')
    if f in ('Tracer3D', 'Momentum3D'):
        un = U[0] * n[0] + U[1] * n[1]
    else:
        un = dot(U, n)
    # the data are physical velocities: factor is applied by the equation
    L = e.fe.sym("boundary_len['bnd']", (), True)
    memo = {}

    def val(name):
        if name in memo:
            return memo[name]
        if name == 'bnd.un':
            v = X(e, T((), {(): Poly.atom(fatom('s_n', (), ()))})) if rule.data else un
        elif name == 'bnd.flux':
            if f in SWEF or f in TRF:
                H = depth(e, o, e.s(elev))
            elif f == 'Tracer3D':
                H = e.s('bath') + e.s('elev_3d')
            else:
                H = e.s('bath') + e.s('eta')
            sp = X(e, T((), {(): Poly.atom(fatom('s_n', (), ()))})) if rule.data else un
            memo[name] = sp.p * unexpanded((H * X(e, L)).p)
            return memo[name]
        memo[name] = v.p
        return v.p

    def rule(nm, comp, der, side, const):
        if nm == 'bnd.elev':
            return Poly.atom(fatom(elev, comp, der, side, const))
        if nm == 'bnd.value':
            return Poly.atom(fatom('c', comp, der, side, const))
        if nm == 'bnd.uv':
            x = U.t.at(*comp)
            for i in der:
                x = e.fe.diff(x, i)
            return x
        if nm in ('bnd.un', 'bnd.flux'):
            return None if der else val(nm)
        if nm == 'sed.get_equilibrium_tracer()':
            x = e.s('c').p
            if r.var.get('conservative'):
                x = (e.s('c') / depth(e, o, e.s('elev_2d'))).p
            for i in der:
                x = e.fe.diff(x, i)
            return x
        if nm == 'bnd.diff_flux' and not der:
            k = [a for a in diffusivity_names(r)]
            x = e.s(k[0]) * dot(grad(e.s('c')), n)
            return x.p
        return None
    # data for the normal velocity only: uv = s n on the facet
    rule.data = bool({'un', 'flux'} & set(tags)) and 'uv' not in tags and f in SWEF + ('Momentum3D',)
    return rule


def diffusivity_names(r):
    return ['diffusivity_h-sediment_2d' if r.family == 'Sediment2D' else 'diffusivity_h-tr']


def u3_tr(e):
    return e.s('uv_3d') + e.s('uv_depth_av')


def normal_only():
    """u := s n on the facet (data that prescribe only the normal velocity)"""
    def rule(n, comp, der, side, const):
        if n == 'uv' and not der and comp:
            if comp == (2,):
                return 0
            return Poly.atom(fatom('s_n', (), ())) * nn(comp[0])
        if n == 'uv_depth_av' and not der:
            return 0
        return None
    return rule


def fixed_normal(n, comp, der, side, const):
    if n == 'n' and comp:
        if der:
            return 0
        v = (Fraction(3, 5), Fraction(4, 5), 0)[comp[0]]
        return -v if side == '-' else v
    return None


def no_normal(names):
    """u.n := 0 on the facet"""
    def rule(n, comp, der, side, const):
        if n in names and not der and comp:
            t = Poly.atom(fatom('t_' + n, (), ()))
            if comp == (0,):
                return -t * nn(1)
            if comp == (1,):
                return t * nn(0)
            return 0
        return None
    return rule


def lateral(n, comp, der, side, const):
    """vertical boundary facets: n_z = 0"""
    if n == 'n' and comp == (2,):
        return 0
    return None


def horizontal_fields(n, comp, der, side, const):
    if n in ('uv', 'uv_depth_av', 'uv_3d', 'int_pg', 'bnd.uv') and comp == (2,):
        return 0
    return None


def expectation(r, meas):
    """'consistent' | 'slip' | 'natural' | None for a boundary part"""
    t, f = r.clsname, r.family
    tags = tags_of(r)
    if f in SWEF:
        if t not in ADV | DIFF:
            return None
        dyn = bool(OPEN & set(tags))
        if t in DIFF:
            if r.cont['u_space'][0] == 'cg' or not dyn:
                return 'natural'
            if set(tags) & {'uv', 'un', 'flux'}:
                return 'consistent'
            return 'natural'
        if r.cont['u_space'][0] == 'cg':
            return None        # not a supported element pair for open boundaries
        return 'consistent' if dyn else 'slip'
    if f in TRF:
        if t in ADV:
            return 'consistent'
        if t in DIFF:
            return 'natural' if r.bc == 'none' else 'consistent'
        return None
    if f == 'Exner':
        if t == 'ExnerBedloadTerm':
            if r.bc == 'none':
                return 'natural'
            zero = [v for k, v in r.opts.items() if 'bnd.' in k]
            return 'natural' if any(zero) else 'consistent'
        return None
    if f == 'Tracer3D':
        if t == 'HorizontalAdvectionTerm':
            if meas == 'ds_v':
                if r.cont['*'][0] == 'cg':
                    return 'slip'
                return 'slip' if r.bc == 'none' else 'consistent'
            if meas == 'ds_surf':
                return 'consistent' if r.opts.get('symm_surf', True) else 'natural'
            return 'natural'
        if t == 'VerticalAdvectionTerm':
            return 'consistent' if meas in ('ds_surf', 'ds_v') else 'natural'
        if t == 'HorizontalDiffusionTerm':
            return 'consistent' if meas in ('ds_surf', 'ds_bottom') else 'natural'
        if t == 'VerticalDiffusionTerm':
            return 'natural'
        return None
    if f == 'Momentum3D':
        if t == 'HorizontalAdvectionTerm':
            if meas == 'ds_v':
                if r.cont['*'][0] == 'cg':
                    return 'slip'
                return 'slip' if r.bc == 'none' else 'consistent'
            return 'consistent' if meas == 'ds_surf' else 'natural'
        if t == 'VerticalAdvectionTerm':
            return 'consistent' if meas in ('ds_surf', 'ds_v') else 'natural'
        if t == 'HorizontalViscosityTerm':
            return 'consistent' if meas in ('ds_surf', 'ds_bottom') else 'natural'
        if t == 'VerticalViscosityTerm':
            return 'natural'
    return None


def boundary(ctx, recs, which, rule):
    memo = {}
    for r in recs:
        if r.raised is not None or not items(r.form):
            continue
        form = canon(r)
        test = test_of(form)
        if test is None:
            continue
        f = fam(r.family)
        name = '%s%s.%s' % (r.family, ''.join(':' + k for k, v in sorted(r.var.items()) if v), r.clsname)
        measures = ['ds'] if f.dim == 2 else ['ds_v', 'ds_surf', 'ds_bottom']
        for meas in measures:
            exp = expectation(r, meas)
            if exp is None or (exp == 'consistent') != (which == 'open'):
                continue
            D = Poly()
            odd = None
            for k, p in form.m.items():
                if k[0] == meas or (k[0] == 'ds_tb' and meas in ('ds_surf', 'ds_bottom')):
                    if k[1] not in (None, "'bnd'") or (k[1] is None and meas in ('ds', 'ds_v')):
                        if not (r.family == 'Exner'):
                            odd = k
                    D = D + p
                elif k[0] in EXTERIOR and k[0] not in measures and k[0] != 'ds_tb':
                    odd = k
            key = (r.family, r.clsname, exp, meas, tuple(tags_of(r)), D.key(), form.get(('dx', None)).key(),
                   tuple(sorted(r.opts.items())), tuple(sorted(r.given.items())))
            if key in memo:
                ok, msg = memo[key]
                ctx.ob(rule + ' ' + exp, '%s [%s]' % (name, meas), ok, r.where(), msg, r.func)
                continue
            ok, msg = True, ''
            if odd is not None:
                ok, msg = None, 'unexpected boundary measure %s' % (odd,)
            elif exp == 'natural':
                z = subst(D, horizontal_fields) if f.dim == 3 else D
                if not z.zero():
                    ok, msg = False, 'expected no boundary contribution on %s, found %s' % (meas, short(z))
            else:
                e = E(f, r)
                try:
                    fl = flux_n(form, test, f.dim)
                except NotLinear as x:
                    ctx.ob(rule, name, None, r.where(), str(x), r.func)
                    continue
                for ex, tr_ in completions(r, lambda o: trace_rule(r, o, e)):
                    x = subst(D, tr_)
                    if tr_.data:
                        x = subst(x, normal_only())
                    x = x + fl
                    if f.dim == 3:
                        x = subst(x, horizontal_fields)
                        if meas == 'ds_v':
                            x = subst(x, lateral)
                            if r.family == 'Momentum3D':
                                x = subst(x, lateral)
                    if tr_.data:
                        # a rational unit normal keeps the nested radicals exact
                        x = subst(subst(x, normal_only()), fixed_normal)
                    if exp == 'slip':
                        x = subst(x, no_normal(['uv', 'uv_2d', 'uv_3d', 'uv_depth_av']))
                    x = deep_unit_normal(x, f.dim if not (f.dim == 3 and meas == 'ds_v') else 2)
                    if not x.zero():
                        ok = False
                        msg = 'on %s, with the boundary data equal to the interior state the boundary terms leave %s' % (
                            meas, short(x)) if exp != 'slip' else \
                            'on the closed boundary (%s), with no normal velocity the boundary terms leave %s' % (meas, short(x))
                        break
            memo[key] = (ok, msg)
            ctx.ob(rule + ' ' + exp, '%s [%s]' % (name, meas), ok, r.where(), msg, r.func)


BND_FAMS = ['SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum', 'Tracer2D', 'Sediment2D', 'Exner', 'Tracer3D', 'Momentum3D']


@prop('A05', 'on open lateral boundaries and at the free surface, with boundary data equal to the interior trace, the '
      'boundary integrand plus the element boundary flux of the volume integrand is identically zero', 600,
      'weak forms extracted by abstract interpretation; symbolic Green-formula calculus, normal-form equality')
def a05(ctx):
    boundary(ctx, records(ctx, BND_FAMS), 'open', 'boundary')


@prop('A06', 'on closed boundaries advective, pressure and continuity terms vanish for a state without normal velocity and '
      'diffusive terms have no boundary integrand', 600,
      'weak forms extracted by abstract interpretation; symbolic Green-formula calculus, normal-form equality')
def a06(ctx):
    boundary(ctx, records(ctx, BND_FAMS), 'closed', 'boundary')
