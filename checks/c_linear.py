"""A14: linearised terms are affine in the new solution."""
from sa.core import prop
from sa.poly import Poly
from .c_invariants import forms_of, rname
from .forms_common import short

SOL = {'SWE': ('uv', 'eta'), 'ModeSplit2D': ('uv', 'eta'), 'FreeSurface': ('eta',), 'SWMomentum': ('uv',),
       'Tracer2D': ('c',), 'Sediment2D': ('c',), 'Tracer3D': ('c',)}


def degree(p, names):
    """(degree in the named fields, a field that enters nonlinearly)"""
    worst = 0
    for mon, _ in p.t.items():
        d = 0
        for a, e in mon:
            if a[0] == 'f' and a[1] in names:
                if e < 0:
                    return None, a[1]
                d += e
            else:
                q = Poly.atom(a)
                for b in q.deep_atoms():
                    if b != a and b[0] == 'f' and b[1] in names:
                        return None, b[1]
        worst = max(worst, d)
    return worst, None


@prop('A14', 'with the lagged state kept apart from the new solution, every integrand of every term is a polynomial of degree at most one '
      'in the new solution and its derivatives', 200,
      'weak forms extracted by abstract interpretation with distinct time levels; degree of the normal form in the new state')
def a14(ctx):
    p = Poly.atom(('f', 'c', (), (), None, False))
    ctx.selftest('quadratic integrand', degree(p * p, ('c',))[0] == 2)
    for r, form, test in forms_of(ctx, list(SOL), lag=True):
        names = SOL[r.family]
        if not r.opts.get('use_semi_implicit', True):
            continue
        if r.bc == 'flux' and r.family in ('SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum'):
            continue     # the wet cross-section uses the internal elevation (NOTE in get_bnd_functions)
        for k, q in form.m.items():
            d, a = degree(q, names)
            ok = d is not None and d <= 1
            ctx.ob('affine in the new solution', '%s [%s]' % (rname(r), k[0]), ok, r.where(),
                   'the %s integrand is nonlinear in the new %s: %s' % (k[0], a or '/'.join(names), short(q)), r.func)
