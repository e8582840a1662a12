"""A11: boundary data enter the interface solver as documented.
A13: advected quantities are taken from the upstream side."""
from .forms_common import *
from .c_facets import BND_FAMS, tags_of, horizontal_fields, lateral, horizontal_velocity, SWEF, TRF, deep_unit_normal
from .c_invariants import forms_of, rname, minus_n, jumps
from sa.forms import continuous
from sa.core import prop

H2 = Fraction(1, 2)


def L(e):
    return X(e, e.fe.sym("boundary_len['bnd']", (), True))


def scal(x):
    return fn('pos', x)


def ext_state(e, o, tags, u, eta, H):
    """(velocity, elevation) seen outside the boundary"""
    n = e.s('n')
    eta_ext = e.s('bnd.elev') if 'elev' in tags else eta
    if 'uv' in tags:
        u_ext = e.s('bnd.uv')
    elif 'flux' in tags:
        u_ext = n * (e.s('bnd.flux') / (H(eta_ext) * L(e)))
    elif 'un' in tags:
        u_ext = n * e.s('bnd.un')
    else:
        u_ext = u
    return u_ext, eta_ext


def swe_ref(r, e):
    tags = tags_of(r)

    def ref(o):
        u, eta, n = e.s('uv'), e.s('eta'), e.s('n')
        g = e.s('g_grav')
        H = lambda x: depth(e, o, x)
        ue, ee = ext_state(e, o, tags, u, eta, H)
        if r.clsname == 'ExternalPressureGradientTerm':
            star = (eta + ee) * H2 + sqrt(H(eta) / g) * dot(u - ue, n)
            if r.cont['eta_space'][0] == 'cg':
                star = star - eta
            return -g * star * dot(e.s('u_test'), n)
        if r.clsname == 'HUDivTerm':
            if r.cont['u_space'][0] == 'cg':
                return None
            hav = (H(eta) + H(ee)) * H2
            un = dot(u + ue, n) * H2 + sqrt(g / hav) * (eta - ee)
            er = (eta + ee) * H2 + sqrt(hav / g) * dot(u - ue, n)
            return -H(er) * un * e.s('eta_test')
        if r.clsname == 'HorizontalAdvectionTerm':
            if r.cont['u_space'][0] == 'cg':
                return None
            un = dot(u + ue, n) * H2 + sqrt(g / H(eta)) * (eta - ee)
            return -un * dot((u + ue) * H2, e.s('u_test'))
        return None
    return ref


def upwind(a, b, un):
    """a when un > 0 (outflow), b when un < 0, the mean at un = 0"""
    s = fn('pos', un)
    return a * s + b * (1 - s)


def tracer_ref(r, e):
    tags = tags_of(r)
    cons = r.clsname.startswith('Conservative')

    def ref(o):
        n, c, t = e.s('n'), e.s('c'), e.s('test')
        if r.family == 'Tracer3D':
            u = e.s('uv_3d') + e.s('uv_depth_av')
            H = lambda x: e.s('bath') + x
            elev = e.s('elev_3d')
        else:
            k = e.s('tracer_advective_velocity_factor')
            u = e.s('uv_2d') * k
            H = lambda x: depth(e, o, x)
            elev = e.s('elev_2d')
        ue, ee = ext_state(e, o, tags, u, elev, H)
        if r.family != 'Tracer3D' and ue is not u:
            ue = ue * k
        ce = c
        if 'value' in tags:
            ce = e.s('bnd.value')
        elif 'equilibrium' in tags:
            return None
        if r.family == 'Tracer3D':
            ub = (u + ue) * H2
            un = ub[0] * n[0] + ub[1] * n[1]
            s = fn('pos', un)
            return -(c * (u[0] * n[0] + u[1] * n[1]) + (1 - s) * (ce - c) * un) * t
        un = dot(u + ue, n) * H2
        if 'Diffusion' in r.clsname:
            if 'diff_flux' in tags:
                return e.s('bnd.diff_flux') * t
            D = e.s([k for k in ('diffusivity_h-sediment_2d' if r.family == 'Sediment2D' else 'diffusivity_h-tr',)][0])
            s = fn('pos', un)
            up = grad(c) * s + grad(ce) * (1 - s)
            return D * dot(up, n) * t
        if cons or 'ConservativeSediment' in r.clsname:
            return -dot(upwind(u * c, ue * ce, un), n) * t
        return -upwind(c, ce, un) * un * t
    return ref


TERMS = {'ExternalPressureGradientTerm', 'HUDivTerm', 'HorizontalAdvectionTerm', 'ConservativeHorizontalAdvectionTerm',
         'SedimentAdvectionTerm', 'ConservativeSedimentAdvectionTerm', 'HorizontalDiffusionTerm',
         'ConservativeHorizontalDiffusionTerm', 'SedimentDiffusionTerm'}


@prop('A11', 'the boundary integrand of every pressure, continuity and advection term equals the documented interface flux of the '
      'interior state and the external state built from the boundary data', 400,
      'weak forms extracted by abstract interpretation; normal-form equality with the documented interface flux')
def a11(ctx):
    memo = {}
    for r, form, test in forms_of(ctx, ['SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum', 'Tracer2D', 'Sediment2D', 'Tracer3D']):
        if r.clsname not in TERMS or r.bc in ('none', 'empty') or 'drag' == r.bc:
            continue
        if r.family == 'Tracer3D' and (r.clsname != 'HorizontalAdvectionTerm' or r.cont['*'][0] == 'cg'):
            continue
        f = fam(r.family)
        e = E(f, r)
        meas = 'ds' if f.dim == 2 else 'ds_v'
        D = Poly()
        for k, p in form.m.items():
            if k[0] == meas:
                D = D + p
        key = (r.family, r.clsname, r.bc, repr(r.cont), D.key(), repr(sorted(r.opts.items())), repr(sorted(r.given.items())))
        if key not in memo:
            ok, msg = True, ''
            mk = swe_ref(r, e) if r.family in SWEF else tracer_ref(r, e)
            n = 0
            for ex, ref in completions(r, mk):
                if ref is None:
                    continue
                n += 1
                d = D - ref.p
                if f.dim == 3:
                    d = subst(subst(d, horizontal_fields), lateral)
                if not d.zero():
                    d = deep_unit_normal(d, f.dim if f.dim == 2 else 2)
                if not d.zero():
                    ok, msg = False, 'boundary data %s: the integrand is %s, the documented interface flux is %s' % (
                        r.bc, short(D, 200), short(ref.p, 200))
                    break
            memo[key] = (ok, msg, n)
        ok, msg, n = memo[key]
        if n:
            ctx.ob('external state', '%s [%s]' % (rname(r), r.bc), ok, r.where(), msg, r.func)
    accepted(ctx)


def accepted(ctx):
    """an open boundary tag is never treated as closed, an unknown one raises"""
    for r in records(ctx, ['SWE', 'ModeSplit2D']):
        if r.clsname not in ('ExternalPressureGradientTerm', 'HUDivTerm'):
            continue
        if r.raised is not None:
            ctx.ob('accepted tags', '%s [%s]' % (rname(r), r.bc), False, r.where(),
                   'documented boundary tags %s raise %s' % (r.bc, r.raised[0]), r.func)


# ----------------------------------------------------------------- upwind
UPW = {
    'Tracer2D': {'HorizontalAdvectionTerm': 'uv_2d', 'ConservativeHorizontalAdvectionTerm': 'uv_2d'},
    'Sediment2D': {'SedimentAdvectionTerm': 'uv_2d', 'ConservativeSedimentAdvectionTerm': 'uv_2d'},
    'Tracer3D': {'HorizontalAdvectionTerm': 'uv', 'VerticalAdvectionTerm': 'w'},
    'Momentum3D': {'HorizontalAdvectionTerm': 'uv', 'VerticalAdvectionTerm': 'w'},
}


@prop('A13', 'with the stabilisation off, the interior facet flux of each upwinded advection term depends, for flow from one side to '
      'the other, only on the advected value of the upstream side', 40,
      'weak forms extracted by abstract interpretation; case split on the sign of the advecting normal velocity')
def a13(ctx):
    for r, form, test in forms_of(ctx, list(UPW)):
        if r.clsname not in UPW[r.family] or r.bc not in ('none', 'value', 'value+uv', 'uv'):
            continue
        if any('lax' in k and v for k, v in r.opts.items()):
            continue
        f = fam(r.family)
        sol = 'uv' if r.family == 'Momentum3D' else 'c'
        for k, p in form.m.items():
            p = subst(p, minus_n)
            if k[0] in INTERIOR:
                if r.family == 'Momentum3D':
                    p = subst(p, horizontal_velocity)
                ok, msg = upstream(p, sol, r, k)
                ctx.ob('upstream value', '%s [%s]' % (rname(r), k[0]), ok, r.where(), msg, r.func)
            elif k[0] in ('ds', 'ds_v') and 'value' in r.bc:
                ok, msg = inflow(p, r, k)
                ctx.ob('inflow value', '%s [%s]' % (rname(r), k[0]), ok, r.where(), msg, r.func)


def indicators(p):
    return sorted({a for a in p.deep_atoms() if a[0] == 'fn' and a[1] == 'pos'}, key=str)


def fix_pos(p, v):
    return p.map_atoms(lambda a: Poly.const(v) if a[0] == 'fn' and a[1] == 'pos' else None)


def side_of_flow(arg):
    """the side the flow comes from when arg > 0: the argument must be a
    positive multiple of (velocity average).n of that side"""
    s = None
    for m, c in arg.t.items():
        nn_ = [a for a, e in m if a[0] == 'f' and a[1] == 'n']
        if len(nn_) != 1:
            return None
        # w - w_mesh: the mesh velocity enters with the opposite sign
        neg = any(a[0] == 'f' and a[1] == 'w_mesh' for a, e in m)
        x = (c > 0) != neg
        if s is None:
            s = x
        elif s != x:
            return None
    # n is the '+' normal: n+ points from + to -
    return '+' if s else '-'


def upstream(p, sol, r, k):
    ind = indicators(p)
    if not ind:
        return False, 'the facet flux is not upwinded: %s' % short(p)
    if len(ind) != 1:
        return None, 'more than one flow direction indicator'
    arg = Poly.from_key(ind[0][2][0])
    up = side_of_flow(arg)
    if up is None:
        return None, 'flow direction %s not recognised' % short(arg)
    for v, side in ((1, up), (0, '-' if up == '+' else '+')):
        q = fix_pos(p, v)
        if r.family == 'Momentum3D' and sol == 'uv' and r.clsname.startswith('Horizontal'):
            # the advecting average contains both sides
            other = momentum_sides(q, r)
            if other is None:
                continue
            bad = other != side
        else:
            bad = any(a[0] == 'f' and a[1] == sol and a[4] is not None and a[4] != side for a in q.deep_atoms())
        if bad:
            return False, 'flow from the %r side uses the value of the other side: %s' % (side, short(q))
    return True, ''


def momentum_sides(q, r):
    """u_up: coefficient structure u_up[i] * (u+ + u-)[j] / 2"""
    got = {'+': 0, '-': 0}
    fld = 'uv'
    for m, c in q.t.items():
        us = [(a, e) for a, e in m if a[0] == 'f' and a[1] == fld]
        for a, e in us:
            if e == 2:
                got[a[4]] = got.get(a[4], 0) + 1
    if got['+'] and got['-']:
        return 'both'
    if got['+']:
        return '+'
    if got['-']:
        return '-'
    return None


def inflow(p, r, k):
    ind = indicators(p)
    if len(ind) != 1:
        return (False if not ind else None), 'the boundary flux does not distinguish inflow from outflow'
    arg = Poly.from_key(ind[0][2][0])
    up = side_of_flow(arg)
    if up is None:
        return None, 'flow direction %s not recognised' % short(arg)
    out_v = 1 if up == '+' else 0          # the boundary normal points outwards
    out = fix_pos(p, out_v)
    inn = fix_pos(p, 1 - out_v)
    if any(a[0] == 'f' and a[1] == 'bnd.value' for a in out.deep_atoms()):
        return False, 'outflow carries the external value: %s' % short(out)
    if not any(a[0] == 'f' and a[1] == 'bnd.value' for a in inn.deep_atoms()):
        return False, 'inflow does not carry the external value: %s' % short(inn)
    return True, ''
