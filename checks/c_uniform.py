"""E03: the 3D tracer advection forms and the continuity form of the vertical velocity are the same for a uniform tracer."""
from .forms_common import *
from sa.core import prop
from sa.absint import Ob, show, Sy
from sa.forms import Form
from .c_diag3d import run, new, meth, probs
from . import c_plumbing
from sa.formdb import repo as get_repo

TERMS = ('HorizontalAdvectionTerm', 'VerticalAdvectionTerm')


def geometry(measure):
    def rule(n, c, der, side, const):
        if n == 'n':
            if measure in ('dS_v', 'ds_v') and c == (2,):
                return 0
            if side == '-':
                return -Poly.atom(fatom('n', c, der, '+', const))
        if n == 'w_mesh' and side == '-' and not der:
            return Poly.atom(fatom(n, c, der, '+', const))        # the mesh is continuous
        return None
    return rule


def one(n, c, der, side, const):
    if n in ('c', 'c_old', 'bnd.value'):
        return 0 if der else Poly.const(1)
    if n in ('uv_3d', 'uv_depth_av') and c == (2,):
        return 0
    return None


def normal(form):
    out = {}
    for k, q in form.m.items():
        q = subst(subst(q, one), geometry(k[0]))
        if not q.is_zero_raw():
            out[k] = q
    return out


def continuity(open_, mesh):
    """l - a(w) of the vertical velocity, for the relative velocity w - w_mesh on a moving mesh"""
    def body(it):
        f = it.policy.function
        s = new(it, 'utility3d', 'VerticalVelocitySolver', f(it, 'w', None, (3,)), f(it, 'uv', None, (3,)), Sy('bath'),
                {'bnd': {'elev': Sy('e')}} if open_ else {})
        return s
    out = []
    for p in run(body, vectors={'space:w': 3}):
        ps = probs(p)
        if not ps or len(ps) != 1:
            raise AnalysisError('vertical velocity problem not found')
        a, L = ps[0].forms
        names = {x[1] for f in (a, L) for q in f.m.values() for x in q.atoms() if x[0] == 'f'}
        t, r = [next(x for x in names if x.endswith(e)) for e in ('test', 'trial')]

        def rule(n, c, der, side, const):
            if n == t:
                return Poly.atom(fatom('test', (), der, side)) if c == (2,) else 0
            if n == r:
                v = Poly.atom(fatom('w', c, der, side))
                return v - Poly.atom(fatom('w_mesh', (), der, side)) if mesh and c == (2,) else v
            if n == 'uv':
                return Poly.atom(fatom('uv_3d', c, der, side)) + Poly.atom(fatom('uv_depth_av', c, der, side))
            return None
        F = Form()
        for k, q in L.m.items():
            F.add(k, subst(q, rule))
        for k, q in a.m.items():
            F.add(k, -subst(q, rule))
        out.append(normal(F))
    return out


MEAS = {'dx': 'volume terms', 'dS_h': 'horizontal facets', 'dS_v': 'vertical facets', 'ds_surf': 'surface', 'ds_bottom': 'bottom',
        'ds_v': 'lateral boundary', 'ds_t': 'surface', 'ds_b': 'bottom'}


@prop('E03', 'tracer advection at a uniform tracer equals the continuity form of the vertical velocity on every measure', 20,
      'weak forms extracted by abstract interpretation; the tracer is set to one on both sides of every facet and the sum of the advection '
      'terms compared with the residual of the vertical velocity problem as polynomials')
def e03(ctx):
    recs = [r for r in records(ctx, ['Tracer3D'], terms=list(TERMS)) if r.cont['*'][0] == 'dg']
    H = [r for r in recs if r.clsname == TERMS[0] and r.raised is None]
    V = [r for r in recs if r.clsname == TERMS[1] and r.raised is None]
    fn = meth('utility3d', 'VerticalVelocitySolver')
    ctx.funcs.add(fn.qualname)
    if not H or not V:
        ctx.ob('extract', 'advection terms', None, msg='no forms found')
        return

    def moving(r):
        return any(k.startswith('w_mesh') and v for k, v in r.given.items())
    ref = {}
    for o in (False, True):
        for m in (False, True):
            ref[o, m] = continuity(o, m)
    # every horizontal form with one vertical form on a fixed mesh, then every vertical form
    v0 = next((r for r in V if not moving(r)), V[0])
    h0 = next((r for r in H if r.bc == 'none' and symmetric(r)), H[0])
    for h, v in [(h, v0) for h in H] + [(h0, v) for v in V]:
        a, b = normal(h.form), normal(v.form)
        open_ = h.bc not in ('none',)
        got = dict(a)
        for k, q in b.items():
            got[k] = got[k] + q if k in got else q
        for want in ref[open_, moving(v)]:
            want = dict(want)
            if not symmetric(h):
                # spaces whose velocity has no component normal to the horizontal facets
                for k in list(want):
                    if k[0] == 'ds_surf':
                        want[k] = subst(want[k], lambda n, c, der, side, const: 0 if n in ('uv_3d', 'uv_depth_av') else None)
            r = h if v is v0 else v
            for k in sorted(set(got) | set(want), key=str):
                d = got.get(k, Poly()) - want.get(k, Poly())
                ctx.ob('uniform tracer', '%s, boundary %s%s%s: %s' % (r.clsname, h.bc, '' if symmetric(h) else ', no surface term',
                       ', moving mesh' if moving(v) else '', MEAS.get(k[0], k[0])), d.zero(), r.loc,
                       'a uniform tracer changes by %s' % short(d), func=r.func)
    solver_inputs(ctx)


def symmetric(r):
    for k, v in r.opts.items():
        if 'symm' in k:
            return v
    return True


def solver_inputs(ctx):
    """the solver computes w from the velocity and the boundary conditions the tracers are advected with"""
    repo = get_repo()
    fn = repo.cls('solver', 'FlowSolver').find_method('create_timestepper')
    for c in c_plumbing.CFG3[:1]:
        for p in c_plumbing.run3(repo, c):
            if p.outcome != 'return':
                continue
            S = p.value
            w = S.attrs.get('w_solver')
            a = (w.meta.get('args') or {}) if isinstance(w, Ob) else {}
            ctx.ob('solver', 'w_solver is a VerticalVelocitySolver', isinstance(w, Ob) and w.clsname == 'VerticalVelocitySolver', fn.loc(), '',
                   func=fn.qualname)
            f = S.attrs['fields'].attrs
            uv, sol = a.get('uv'), a.get('solution')
            s = show(uv)
            ok = getattr(uv, 'op', None) == '+' and {id(x) for x in uv.args} == {id(f['uv_3d']), id(f['uv_dav_3d'])}
            ctx.ob('solver', 'w is computed from uv_3d + uv_dav_3d', ok, fn.loc(), 'is computed from %s' % s, func=fn.qualname)
            ctx.ob('solver', 'w is stored in w_3d', sol is f['w_3d'], fn.loc(), show(sol), func=fn.qualname)
            b = a.get('boundary_funcs')
            ctx.ob('solver', 'w uses the boundary conditions of the 3D momentum equation', show(b) == "bnd_functions['momentum']", fn.loc(), show(b),
                   func=fn.qualname)
