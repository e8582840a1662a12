"""A07-A10, A13: conservation, symmetry, energy, steady states, upwinding."""
from .forms_common import *
from .c_facets import fixed_normal, tags_of, horizontal_velocity, BND_FAMS
from sa.core import prop
from sa.forms import const_test, uniform, continuous

ALL = BND_FAMS


def forms_of(ctx, fams, **kw):
    for r in records(ctx, fams, **kw):
        if r.raised is not None or not items(r.form):
            continue
        t = test_of(r.form)
        if t is None:
            continue
        yield r, canon(r), t


def rname(r, extra=''):
    return '%s%s.%s%s' % (r.family, ''.join(':' + k for k, v in sorted(r.var.items()) if v), r.clsname, extra)


def given_opts(r):
    return tuple(sorted(r.opts.items())), tuple(sorted(r.given.items()))


# ----------------------------------------------------------- conservation
CONSERVATIVE = {
    'SWE': {'HUDivTerm', 'ExternalPressureGradientTerm', 'HorizontalViscosityTerm'},
    'ModeSplit2D': {'HUDivTerm', 'ExternalPressureGradientTerm', 'HorizontalViscosityTerm'},
    'FreeSurface': {'HUDivTerm'},
    'SWMomentum': {'ExternalPressureGradientTerm', 'HorizontalViscosityTerm'},
    'Tracer2D': {'ConservativeHorizontalAdvectionTerm', 'ConservativeHorizontalDiffusionTerm', 'HorizontalDiffusionTerm'},
    'Sediment2D': {'ConservativeSedimentAdvectionTerm', 'SedimentDiffusionTerm'},
    'Exner': {'ExnerBedloadTerm', 'ExnerSedimentSlideTerm'},
    'Tracer3D': {'HorizontalAdvectionTerm', 'VerticalAdvectionTerm', 'HorizontalDiffusionTerm', 'VerticalDiffusionTerm'},
    'Momentum3D': {'HorizontalAdvectionTerm', 'VerticalAdvectionTerm', 'HorizontalViscosityTerm', 'VerticalViscosityTerm'},
}


def conserving_exempt(r, test):
    o = r.opts
    if r.clsname == 'HorizontalViscosityTerm' and any('grad_depth' in k and v for k, v in o.items()):
        return True      # acts as a source by design
    if r.clsname == 'ExternalPressureGradientTerm' and r.cont['eta_space'][0] == 'cg':
        return True      # not integrated by parts
    if r.clsname == 'HUDivTerm' and r.cont['u_space'][0] == 'cg':
        return True
    return False


@prop('A07', 'with the test function constant over the mesh the volume and interior facet integrands of every '
      'flux-form term vanish identically, and on closed boundaries the continuity equation has no boundary integrand', 150,
      'weak forms extracted by abstract interpretation; substitution of a constant test function, normal-form equality')
def a07(ctx):
    balance(ctx, forms_of(ctx, ALL), '')
    # a linearised step: the advecting state differs from the new solution
    terms = sorted(set().union(*CONSERVATIVE.values()))
    balance(ctx, forms_of(ctx, ALL, terms=terms, bcs=[None], lag=True), ' (linearised)')


def balance(ctx, forms, mode):
    for r, form, test in forms:
        if r.clsname not in CONSERVATIVE.get(r.family, ()):
            continue
        if r.bc not in ('none', 'empty'):
            continue
        if conserving_exempt(r, test):
            if r.clsname == 'HUDivTerm' and not mode:
                cg_continuity(ctx, r, form, test)
            continue
        left = []
        for k, p in form.m.items():
            if k[0] == 'dx' or k[0] in INTERIOR:
                q = subst(p, const_test(test))
                if r.family == 'Momentum3D':
                    q = subst(q, horizontal_velocity)
                if not q.zero():
                    left.append('%s %s' % (k[0], short(q, 160)))
        ctx.ob('interior balance' + mode, rname(r), not left, r.where(),
               'a constant test function leaves %s: mass/momentum is created inside the domain' % '; '.join(left), r.func)
        if r.clsname == 'HUDivTerm' and r.bc == 'none':
            b = [p for k, p in form.m.items() if k[0] in EXTERIOR and not p.zero()]
            ctx.ob('closed boundary' + mode, rname(r), not b, r.where(), 'water crosses a closed boundary: %s' % (short(b[0]) if b else ''),
                   r.func)


def cg_continuity(ctx, r, form, test):
    """not integrated by parts: div(H u) and its closed boundary flux cancel"""
    f = fam(r.family)
    e = E(f, r)
    ok, msg = True, ''
    for ex, hu in completions(r, lambda o: depth(e, o) * e.s('uv')):
        dx = form.get(('dx', None)) + (div(hu) * e.s(test)).p
        ds = Poly()
        for k, p in form.m.items():
            if k[0] == 'ds':
                ds = ds + p
            elif k[0] in INTERIOR:
                ok, msg = False, 'interior facet integrand %s' % short(p)
        ds = ds - (dot(hu, e.s('n')) * e.s(test)).p
        if not dx.zero():
            ok, msg = False, 'volume integrand is not the divergence of the transport'
        elif not ds.zero():
            ok, msg = False, 'the boundary integrand does not remove the transport through the closed boundary'
    ctx.ob('closed boundary', rname(r), ok, r.where(), msg, r.func)


# --------------------------------------------------------------- diffusion
DIFFUSIVE = {
    'SWE': {'HorizontalViscosityTerm': 'uv'}, 'SWMomentum': {'HorizontalViscosityTerm': 'uv'},
    'ModeSplit2D': {'HorizontalViscosityTerm': 'uv'},
    'Tracer2D': {'HorizontalDiffusionTerm': 'c', 'ConservativeHorizontalDiffusionTerm': 'c'},
    'Sediment2D': {'SedimentDiffusionTerm': 'c'},
    'Tracer3D': {'HorizontalDiffusionTerm': 'c', 'VerticalDiffusionTerm': 'c'},
    'Momentum3D': {'HorizontalViscosityTerm': 'uv', 'VerticalViscosityTerm': 'uv'},
}


def swap(a, b):
    def rule(n, comp, der, side, const):
        if n == a:
            return Poly.atom(fatom(b, comp, der, side, const))
        if n == b:
            return Poly.atom(fatom(a, comp, der, side, const))
        return None
    return rule


def as_trial(test, sol):
    def rule(n, comp, der, side, const):
        if n == test:
            return Poly.atom(fatom(sol, comp, der, side, const))
        return None
    return rule


def no_gradients(names):
    def rule(n, comp, der, side, const):
        if n in names and der:
            return 0
        return None
    return rule


def jumps(names):
    """minus side value = plus side value - J"""
    def rule(n, comp, der, side, const):
        if n in names and side == '-' and not der:
            return Poly.atom(fatom(n, comp, der, '+', const)) - Poly.atom(fatom('J_' + n, comp, (), None, True))
        return None
    return rule


def minus_n(n, comp, der, side, const):
    if n == 'n' and side == '-':
        return -Poly.atom(fatom('n', comp, der, '+', const))
    return None


POSCOEF = ('viscosity_h', 'viscosity_v', 'diffusivity_h-tr', 'diffusivity_h-sediment_2d', 'diffusivity_h', 'diffusivity_v',
           'CellVolume', 'FacetArea', 'v_elem_size', 'h_elem_size', 'sipg', 'sipg_v', 'p', 'q', 'options.sipg_factor', 'options.sipg_factor_tracer')


@prop('A08', 'every viscosity/diffusion bilinear form is invariant under exchanging test function and solution in the '
      'volume, on interior facets and on boundaries with prescribed values, its volume part is nonpositive for '
      'test = solution, and its interior penalty is a negative definite function of the jump', 300,
      'weak forms extracted by abstract interpretation; exchange of arguments, exact semidefiniteness of canonical polynomials')
def a08(ctx):
    memo = {}
    for r, form, test in forms_of(ctx, ALL):
        sol = DIFFUSIVE.get(r.family, {}).get(r.clsname)
        if sol is None or r.bc not in ('none', 'uv', 'elev+uv') or r.given.get('uv_depth_av'):
            continue
        f = fam(r.family)
        if any('grad_depth' in k and v for k, v in r.opts.items()):
            continue
        nu = [a for a in POSCOEF if 'visc' in a or 'diff' in a]
        for k, p in sorted(form.m.items(), key=str):
            on_bnd = k[0] in EXTERIOR
            if on_bnd and (r.bc == 'none' or f.dim == 3 or sol != 'uv'):
                continue
            key = (r.family, r.clsname, r.bc, k, p.key())
            if key not in memo:
                memo[key] = diffusive_form(r, f, k, p, test, sol, nu, on_bnd)
            for rule, v, msg in memo[key]:
                ctx.ob(rule, '%s [%s]' % (rname(r), k[0]), v, r.where(), msg, r.func)


def zero_data(n, comp, der, side, const):
    if n.startswith('bnd.'):
        return 0
    return None


def frame(dim, meas):
    v = (Fraction(3, 5), Fraction(4, 5), 0) if dim == 2 or meas.endswith('_v') else (Fraction(3, 13), Fraction(4, 13), Fraction(12, 13))

    def rule(n, comp, der, side, const):
        if n == 'n' and comp:
            return -v[comp[0]] if side == '-' else v[comp[0]]
        return None
    return rule


def diffusive_form(r, f, k, p, test, sol, nu, on_bnd):
    out = []
    if r.family == 'Momentum3D':
        p = subst(subst(p, horizontal_velocity), lambda n, c, d, s, k2: 0 if n == 'test' and c == (2,) else None)
    p = subst(subst(p, minus_n), continuous(nu))
    if on_bnd:
        p = subst(p, zero_data)
    d = subst(p, swap(test, sol)) - p
    out.append(('symmetry', d.zero(), 'exchanging test function and solution changes the integrand by %s' % short(d)))
    q = subst(p, as_trial(test, sol))
    if k[0] == 'dx':
        xs = grads_of(q, sol)
        s = neg_semidef(q, xs) if xs else False
        out.append(('dissipative volume', s, 'volume integrand for test = solution is not a negative semidefinite function of '
                    'the gradient: %s' % short(q)))
    else:
        pen = subst(q, no_gradients([sol]))
        same = Poly() if on_bnd else subst(pen, continuous([sol]))
        pen = subst(subst(pen, one_sided(sol) if on_bnd else jumps([sol])), frame(f.dim, k[0]))
        xs = sorted({a for a in pen.atoms() if a[0] == 'f' and a[1] == 'J_' + sol}, key=str)
        if not same.zero():
            out.append(('penalty', False, 'the penalty does not vanish without jumps: %s' % short(same)))
        elif not xs:
            out.append(('penalty', False, 'no penalty on the jump of the solution'))
        else:
            v = neg_semidef(pen, xs)
            out.append(('penalty', v, 'the penalty is not a negative multiple of the squared jump: %s' % short(pen)))
            if v:
                out.append(penalty_bound(r, f, k, pen, xs, sol))
    return out


def both_sides_equal(p):
    return subst(p, lambda n, c, d, s, k: None if s is None else Poly.atom(fatom(n, c, d, None, k)))


def penalty_bound(r, f, k, pen, xs, sol):
    """the penalty dominates the sharp inverse inequality: K >= nu cp |F|/|K|
    with cp = (p+1)(p+2)/2 on triangles, (p+1)^2 on quadrilaterals and in the
    vertical, taking the larger of the two sides"""
    rule = 'penalty bound'
    if any(a[0] == 'fn' and a[1] == 'min' for a in pen.deep_atoms()):
        return rule, False, 'the penalty uses the smaller of the two sides: %s' % short(pen)
    flip = subst(pen, lambda n, c, d, s, kk: None if s is None or n == 'FacetArea' or 'visc' in n or 'diff' in n else
                 Poly.atom(fatom(n, c, d, '-' if s == '+' else '+', kk)))
    if not (flip - pen).zero():
        return rule, False, 'the penalty is not the same seen from both sides: %s' % short(pen)
    # a pure tangential jump of a vector does not see the symmetric gradient
    K = both_sides_equal(-pen)
    one = xs[0]
    K = K.map_atoms(lambda a: Poly() if a in xs[1:] else (Poly.const(1) if a == one else None))
    tri = [v for kk, v in r.opts.items() if kk.startswith('(triangle')]
    vertical = r.clsname.startswith('Vertical')
    P = Poly.atom(fatom('q' if vertical else 'p', (), (), None, False))
    fe = fam(r.family).evaluator()
    P = fe.sym('q' if vertical else 'p', (), None).s()
    cp = (P + 1) * (P + 2) / 2 if tri and tri[0] and not vertical else (P + 1) * (P + 1)
    nrm = frame(f.dim, k[0])
    n2 = [nrm('n', (i,), (), None, None) for i in range(f.dim)]
    w = n2[2] ** 2 if vertical else n2[0] ** 2 + n2[1] ** 2
    need = cp * w
    need = need * Poly.atom(fatom('FacetArea', (), ())) / Poly.atom(fatom('CellVolume', (), ()))
    # divide by the coefficient (diffusivity and user factor)
    coef = Poly.const(1)
    for a in sorted(K.atoms(), key=str):
        if a[0] == 'f' and a[1] in POSCOEF and ('visc' in a[1] or 'diff' in a[1] or 'sipg' in a[1]):
            coef = coef * Poly.atom(a)
    d = K - need * coef
    s = sign(d, POSCOEF)
    return rule, s in ('+', '0'), 'penalty %s is below the coercivity bound %s' % (short(K, 160), short(need, 160))


def one_sided(sol):
    def rule(n, comp, der, side, const):
        if n == sol and not der:
            return Poly.atom(fatom('J_' + n, comp, (), None, True))
        return None
    return rule


def grads_of(p, name):
    return sorted({a for a in p.atoms() if a[0] == 'f' and a[1] == name and len(a[3]) == 1}, key=str)


def quad_matrix(p, xs):
    """p = sum_ij x_i x_j q_ij -> {(i, j): Poly} or None"""
    idx = {a: i for i, a in enumerate(xs)}
    out = {}
    for m, c in p.t.items():
        hit, rest = [], []
        for a, e in m:
            if a in idx:
                if e not in (1, 2):
                    return None
                hit += [idx[a]] * int(e)
            else:
                rest.append((a, e))
        if len(hit) != 2:
            return None
        k = tuple(sorted(hit))
        out[k] = out.get(k, Poly()) + Poly({tuple(rest): c})
    return out


def neg_semidef(p, xs):
    """p is a quadratic form with matrix = (one polynomial) x (rational
    matrix), negative semidefinite.  True / False / None"""
    q = quad_matrix(p, xs)
    if q is None:
        return None
    if not q:
        return True
    base = None
    rat = {}
    for k, v in q.items():
        if not v.t:
            continue
        lead = v.key()[0][1]
        nrm = v / Poly.const(lead)
        if base is None:
            base = nrm
        elif not nrm.equals(base):
            return None
        rat[k] = Fraction(lead)
    s = sign(base, POSCOEF)
    if s not in ('+', '-'):
        return None
    sg = -1 if s == '+' else 1
    n = len(xs)
    A = [[Fraction(0)] * n for _ in range(n)]
    for (i, j), c in rat.items():
        # want sg * form >= 0
        if i == j:
            A[i][i] += sg * c
        else:
            A[i][j] += sg * c / 2
            A[j][i] += sg * c / 2
    return psd(A)


def psd(A):
    """exact test: symmetric Gaussian elimination"""
    n = len(A)
    A = [row[:] for row in A]
    live = list(range(n))
    while live:
        piv = None
        for i in live:
            if A[i][i] < 0:
                return False
            if A[i][i] > 0:
                piv = i
                break
        if piv is None:
            return all(A[i][j] == 0 for i in live for j in live)
        live.remove(piv)
        for i in live:
            f = A[i][piv] / A[piv][piv]
            for j in live:
                A[i][j] -= f * A[piv][j]
    return True




# ------------------------------------------------------------------ energy
DRAG = {
    'SWE': ['QuadraticDragTerm', 'LinearDragTerm', 'TurbineDragTerm', 'BoundaryDragTerm'],
    'SWMomentum': ['QuadraticDragTerm', 'LinearDragTerm', 'TurbineDragTerm', 'BoundaryDragTerm'],
    'Momentum3D': ['LinearDragTerm', 'BottomFrictionTerm'],
}
POSDRAG = POSCOEF + ('manning_drag_coefficient', 'nikuradse_bed_roughness', 'quadratic_drag_coefficient', 'linear_drag_coefficient',
                     'farm.turbine_density', 'farm2.turbine_density', 'bottom_drag', 'bnd.drag', 'options.norm_smoother', 'bath', 'eta', 'bottom_roughness',
                     'lax_friedrichs_velocity_scaling_factor', 'lax_friedrichs_tracer_scaling_factor', 'v_elem_size', 'uv_mag')


def nonneg_fns(p):
    """turbine friction and squared logarithms are nonnegative quantities"""
    def f(a):
        if a[0] == 'fn' and a[1].startswith('turbine_friction'):
            return Poly.atom(fatom('farm.turbine_density', ('C',), (), a[3], True))
        return None
    return p.map_atoms(f)


def positive_depth(form, r):
    """total depth is positive: replace it by a positive field"""
    e = E(fam(r.family), r)
    return form


@prop('A09', 'work done by each term, test function = velocity: identically zero for Coriolis, nonpositive for drag and for '
      'the stabilisation terms; the discrete pressure gradient and flux divergence exchange energy exactly up to a '
      'nonpositive Riemann dissipation', 60,
      'weak forms extracted by abstract interpretation; test function := velocity, sign analysis of canonical polynomials')
def a09(ctx):
    stab = {}
    wave = {}
    # a linearised step: the lagged velocity differs from the new one
    for r, form, test in forms_of(ctx, ['SWE', 'SWMomentum', 'ModeSplit2D'], lag=True,
                                  terms=['CoriolisTerm'] + DRAG['SWE']):
        if r.clsname not in ['CoriolisTerm'] + DRAG['SWE'] or test != 'u_test':
            continue
        for k, p in form.m.items():
            q = subst(p, as_trial(test, 'uv'))
            if k[0] in EXTERIOR:
                q = normal_frame(q)
            if r.clsname == 'CoriolisTerm':
                ctx.ob('Coriolis does no work (linearised)', '%s [%s]' % (rname(r), k[0]), q.zero(), r.where(),
                       'work of the Coriolis term: %s' % short(q), r.func)
            else:
                ctx.ob('drag takes energy (linearised)', '%s [%s]' % (rname(r), k[0]), drag_sign(q, r), r.where(),
                       'the work of the drag term is not negative: %s' % short(q), r.func)
    for r, form, test in forms_of(ctx, ['SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum', 'Momentum3D', 'Tracer2D', 'Sediment2D',
                                        'Tracer3D']):
        sol = {'u_test': 'uv', 'eta_test': 'eta'}.get(test, 'uv' if r.family == 'Momentum3D' else 'c')
        if r.clsname == 'CoriolisTerm':
            tot = []
            for k, p in form.m.items():
                q = subst(p, as_trial(test, sol))
                q = subst(q, horizontal_velocity)
                if r.given.get('uv_depth_av'):
                    # work of the full velocity
                    q = subst(p, lambda n, c, d, s, kk: (Poly.atom(fatom('uv', c, d, s, kk)) + Poly.atom(fatom('uv_depth_av', c, d, s, kk)))
                              if n == test else None)
                    q = subst(q, horizontal_velocity)
                if not q.zero():
                    tot.append(short(q))
            ctx.ob('Coriolis does no work', rname(r), not tot, r.where(), 'work of the Coriolis term: %s' % '; '.join(tot), r.func)
        if r.given.get('uv_depth_av'):
            continue         # the split velocity is covered by the strong form
        if r.clsname in DRAG.get(r.family, ()):
            for k, p in form.m.items():
                q = subst(subst(p, as_trial(test, sol)), horizontal_velocity)
                if k[0] in EXTERIOR and k[0] != 'ds_bottom':
                    q = normal_frame(q)
                ok = drag_sign(q, r)
                ctx.ob('drag takes energy', '%s [%s]' % (rname(r), k[0]), ok, r.where(),
                       'the work of the drag term is not negative: %s' % short(q), r.func)
        lax = [k for k in r.opts if 'lax' in k]
        if lax and r.bc == 'none':
            key = (r.family, repr(sorted(r.var.items())), r.clsname, repr(r.cont),
                   tuple((k, v) for k, v in sorted(r.opts.items()) if 'lax' not in k), tuple(sorted(
                       (k, v) for k, v in r.given.items() if not k.startswith('lax') and k not in ('uv_p1', 'uv_mag'))))
            stab.setdefault(key, {}).setdefault(r.opts[lax[0]], []).append((r, form, test, sol))
        if r.clsname in ('ExternalPressureGradientTerm', 'HUDivTerm') and r.bc == 'none' and not r.opts.get('nonlinear_depth'):
            wave.setdefault((r.family, repr(r.cont)), {}).setdefault(r.clsname, (r, form, test))
    for key, d in stab.items():
        for r, form, test, sol in d.get(True, []):
            bases = d.get(False, [])
            if not bases:
                continue
            base = bases[0][1]
            for k in set(form.m) | set(base.m):
                diff = form.get(k) - base.get(k)
                if diff.zero():
                    continue
                # the stabilisation by itself
                q = subst(subst(diff, as_trial(test, sol)), horizontal_velocity)
                ok, msg = stabilising(q, sol, k)
                ctx.ob('stabilisation dissipates', '%s [%s]' % (rname(r), k[0]), ok, r.where(), msg, r.func)
    fams_ = {}
    for (fm, cont), d in wave.items():
        fams_.setdefault(cont, {})[fm] = d
    for cont, by in fams_.items():
        for fm, d in by.items():
            other = by.get('FreeSurface', {})
            pg = d.get('ExternalPressureGradientTerm')
            hu = d.get('HUDivTerm') or (other.get('HUDivTerm') if fm == 'SWMomentum' else None)
            if pg and hu:
                wave_energy(ctx, fm, pg, hu)


def gains(p, pos, n=60):
    """a state with positive value of p exists (found by evaluating the
    extracted expression); fields in pos are kept positive, all others take
    both signs"""
    import decimal
    from sa.poly import _num, _NoValue
    pos = set(pos) | set(POSITIVE)
    atoms = p.deep_atoms()
    if any(a[0] == 'fn' and a[1] not in ('abs', 'pos', 'max', 'min', 'pow', 'exp', 'ln', 'num', 'def') for a in atoms):
        return False
    rnd = __import__('random').Random(12345)
    with decimal.localcontext() as c:
        c.prec = 40
        for i in range(n):
            memo = {}
            for a in sorted((a for a in atoms if a[0] == 'f'), key=str):
                v = decimal.Decimal(repr(rnd.choice((0.01, 0.1, 1, 10)) * rnd.uniform(0.5, 2)))
                memo[a] = v if a[1] in pos and not a[3] or rnd.random() < 0.5 else -v
            try:
                v = _num(p, i, memo)
                sc = sum((abs(_num(Poly({m: k}), i, memo)) for m, k in p.t.items()), decimal.Decimal(0))
            except (_NoValue, decimal.DecimalException):
                continue
            if v > sc * decimal.Decimal('1e-9') and v > 0:
                return True
    return False


def normal_frame(p):
    """boundary facet: uv = U_n n + U_t t"""
    un = Poly.atom(fatom('U_n', (), (), None, True))
    ut = Poly.atom(fatom('U_t', (), (), None, True))
    p = subst(p, frame(2, 'ds'))
    return subst(p, lambda n, c, d, s, kk: (un * Fraction(3, 5) - ut * Fraction(4, 5), un * Fraction(4, 5) + ut * Fraction(3, 5))[c[0]]
                 if n == 'uv' and not d and c and c[0] < 2 else None)


def drag_sign(q, r):
    q = nonneg_fns(q)
    v = drag_sign_(q, r)
    return False if v is None and gains(q, POSDRAG) else v


def drag_sign_(q, r):
    s = sign(q, POSDRAG)
    if s in ('-', '0'):
        return True
    if s == '+':
        return False
    # squares of the velocity components times one nonnegative scalar
    sq = {}
    for m, c in q.t.items():
        d = dict(m)
        base = [a for a in d if a[0] == 'f' and a[1] in ('uv', 'uv_2d', 'U_t', 'U_n')]
        if any(d[a] % 2 for a in base):
            return None if len(base) == 1 else False
        if c > 0:
            return False
        rest = Poly({tuple((a, e) for a, e in m if a not in base): 1})
        for a, e in next(iter(rest.t)):
            if nonneg(a, e, set(POSITIVE) | set(POSDRAG)):
                continue
            # the drag coefficient evaluated with the (positive) total depth
            if a[0] == 'P' and e.denominator != 2:
                continue
            if a[0] == 'fn' and a[1] == 'ln':
                return None
            return None
    return True


def stabilising(q, sol, k):
    v, msg = stabilising_(q, sol, k)
    if v is None:
        if k[0] in ('ds', 'ds_v') and sol == 'uv':
            q = normal_frame(q)
        else:
            q = subst(q, jumps([sol]))
        if gains(q, POSDRAG):
            v = False
    return v, msg


def stabilising_(q, sol, k):
    if k[0] in ('ds', 'ds_v') and sol == 'uv':
        # closed boundary: the mirrored velocity
        q = normal_frame(q)
        if any(a[0] == 'f' and a[1] == 'U_t' for a in q.deep_atoms()):
            return False, 'the stabilisation on the closed boundary acts on the tangential velocity: %s' % short(q)
        s = sign(q, POSDRAG)
        return (s == '-' if s else None), 'the stabilisation adds energy at the closed boundary: %s' % short(q)
    if k[0] == 'dx' or k[0] in EXTERIOR:
        return False, 'the stabilisation changes the %s integrand by %s' % (k[0], short(q))
    z = subst(q, continuous([sol]))
    if not z.zero():
        return False, 'the stabilisation does not vanish without jumps: %s' % short(z)
    q = subst(q, jumps([sol]))
    xs = sorted({a for a in q.atoms() if a[0] == 'f' and a[1] == 'J_' + sol}, key=str)
    if not xs:
        return False, 'the stabilisation does not act on the jump: %s' % short(q)
    for m, c in q.t.items():
        d = dict(m)
        if sum(e for a, e in d.items() if a in xs) != 2 or any(e != 2 for a, e in d.items() if a in xs):
            return None, 'not a quadratic function of the jump: %s' % short(q)
    s = sign(q, POSDRAG)
    return (s == '-' if s else None), 'the stabilisation adds energy: %s' % short(q)


def wave_energy(ctx, fm, pg, hu):
    """linear gravity waves over a flat bed"""
    r1, f1, t1 = pg
    r2, f2, t2 = hu
    name = '%s %s' % (fm, ', '.join('%s=%s' % (k, v[0]) for k, v in r1.cont.items()))

    def flat(n, comp, der, side, const):
        if n == 'bath':
            return 0 if der else Poly.atom(fatom('bath', (), (), None, True))
        return None

    def t_u(n, comp, der, side, const):
        if n == t1:
            return Poly.atom(fatom('bath', (), (), None, True)) * Poly.atom(fatom('uv', comp, der, side, const))
        return None

    def t_eta(n, comp, der, side, const):
        if n == t2:
            return Poly.atom(fatom('g_grav', (), (), None, True)) * Poly.atom(fatom('eta', comp, der, side, const))
        return None
    tot = {}
    for f, t in ((f1, t_u), (f2, t_eta)):
        for k, p in f.m.items():
            tot[k] = tot.get(k, Poly()) + subst(subst(p, t), flat)
    fe = fam(fm).evaluator()
    # volume: a total divergence  div(F)  with F = s g H eta u
    vol = tot.get(('dx', None), Poly())
    u, eta = fe.sym('uv').c, fe.sym('eta').s()
    gH = Poly.atom(fatom('g_grav', (), (), None, True)) * Poly.atom(fatom('bath', (), (), None, True))
    hit = None
    for s in (0, 1, -1):
        F = [gH * eta * u.get((i,), Poly()) * s for i in range(2)]
        if (vol - fe.diff(F[0], 0) - fe.diff(F[1], 1)).zero():
            hit = F
            break
    loc = '%s / %s' % (r1.where(), r2.where())
    if hit is None:
        ctx.ob('wave energy', name, False, loc,
               'pressure gradient and flux divergence do not exchange energy exactly: %s' % short(vol), r1.func)
        return
    fn_ = lambda side: restrict(hit[0] * Poly.atom(fatom('n', (0,), ())) + hit[1] * Poly.atom(fatom('n', (1,), ())), side)
    q = fn_('+') + fn_('-')
    for k, p in tot.items():
        if k[0] in INTERIOR:
            q = q + p
    q = subst(q, minus_n)
    cont = r1.cont
    if cont['eta_space'][0] == 'cg':
        q = subst(q, continuous(['eta']))
    if cont['u_space'][0] == 'cg':
        q = subst(q, continuous(['uv']))
    elif cont['u_space'][0] == 'hdiv':
        # only tangential jumps
        def hd(n, comp, der, side, const):
            if n == 'uv' and side == '-' and not der:
                J = Poly.atom(fatom('Jt', (), (), None, True))
                return Poly.atom(fatom('uv', comp, der, '+', const)) + J * (Fraction(-4, 5), Fraction(3, 5))[comp[0]]
            return None
        q = subst(q, hd)
    q = subst(subst(q, jumps(['uv', 'eta'])), frame(2, 'dS'))
    xs = sorted({a for a in q.atoms() if a[0] == 'f' and a[1] in ('J_uv', 'J_eta')}, key=str)
    v = True if q.zero() else riemann_sign(q, xs)
    if v is None and gains(q, POSDRAG):
        v = False
    ctx.ob('wave energy', name + ' interior facets', v, loc, 'the facet terms do not dissipate: %s' % short(q), r1.func)
    b = subst(fn_(None) if False else hit[0] * Poly.atom(fatom('n', (0,), ())) + hit[1] * Poly.atom(fatom('n', (1,), ())), frame(2, 'ds'))
    for k, p in tot.items():
        if k[0] in EXTERIOR:
            b = b + subst(p, frame(2, 'ds'))
    if cont['u_space'][0] != 'cg':
        # closed boundary: the normal velocity is the jump
        un = Poly.atom(fatom('U_n', (), (), None, True))
        ut = Poly.atom(fatom('U_t', (), (), None, True))
        b = subst(b, lambda n, c, d, s, kk: (un * Fraction(3, 5) - ut * Fraction(4, 5), un * Fraction(4, 5) + ut * Fraction(3, 5))[c[0]]
                  if n == 'uv' and not d else None)
        s = 0 if b.zero() else sign(b, POSDRAG)
        ctx.ob('wave energy', name + ' closed boundary', s in (0, '0', '-'), loc,
               'energy enters through the closed boundary: %s' % short(b), r1.func)


def riemann_sign(q, xs):
    """sum over scalars c_i * (quadratic form in the jumps)_i"""
    groups = {}
    for m, c in q.t.items():
        d = dict(m)
        jx = tuple(sorted(((a, e) for a, e in d.items() if a in xs), key=str))
        if sum(e for a, e in jx) != 2:
            return None if sum(e for a, e in jx) else False
        rest = tuple((a, e) for a, e in m if a not in xs)
        groups.setdefault(rest, {})[jx] = c
    for rest, qf in groups.items():
        if sign(Poly({rest: 1}), POSDRAG) != '+':
            return None
        v = neg_semidef(Poly({jx: c for jx, c in qf.items()}), xs)
        if v is not True:
            return v
    return True


# ----------------------------------------------------------- steady states
def at_rest(n, comp, der, side, const):
    if n in ('uv', 'uv_2d', 'uv_3d', 'uv_depth_av', 'uv_bottom', 'w', 'w_mesh', 'int_pg', 'uv_p1', 'uv_mag') and not const:
        return 0
    if n in ('eta', 'elev_2d', 'elev_3d'):
        return 0 if der else Poly.atom(fatom('ETA', (), (), None, True))
    return None


REST = {'SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum', 'Momentum3D'}
FORCING = {'WindStressTerm', 'AtmosphericPressureTerm', 'MomentumSourceTerm', 'ContinuitySourceTerm', 'SourceTerm'}


@prop('A10', 'a motionless state with a level surface over arbitrary (even discontinuous) bathymetry, and a uniform tracer in an '
      'arbitrary velocity field, make the strong form and all facet residuals of every unforced term vanish identically', 300,
      'weak forms extracted by abstract interpretation; substitution of the steady state, Green-formula calculus, normal-form '
      'equality')
def a10(ctx):
    memo = {}
    for r, form, test in forms_of(ctx, ALL):
        if r.bc not in ('none', 'empty', 'elev', 'value', 'value+uv', 'uv'):
            continue
        f = fam(r.family)
        if r.family in REST:
            if r.clsname in FORCING:
                continue
            if r.bc in ('uv', 'value'):
                continue
            rule, kind = at_rest, 'lake at rest'
            if r.clsname == 'QuadraticDragTerm':
                rule = chain(rule)
        elif r.family in ('Tracer2D', 'Sediment2D', 'Tracer3D'):
            if r.clsname not in ('HorizontalAdvectionTerm', 'SedimentAdvectionTerm', 'HorizontalDiffusionTerm',
                                 'ConservativeHorizontalDiffusionTerm', 'SedimentDiffusionTerm', 'VerticalDiffusionTerm'):
                continue
            if r.family == 'Tracer3D' and r.clsname == 'HorizontalAdvectionTerm':
                continue          # only together with the vertical velocity
            if 'elev' in r.bc:
                continue
            rule, kind = uniform(['c']), 'uniform tracer'
        else:
            continue
        key = (r.family, r.clsname, kind, r.bc, r.form and tuple((k, v.key()) for k, v in sorted(r.form.m.items(), key=str)),
               repr(r.cont))
        if key not in memo:
            memo[key] = steady(r, f, form, test, rule, kind)
        for what, ok, msg in memo[key]:
            ctx.ob(kind, '%s [%s]' % (rname(r), what), ok, r.where(), msg, r.func)


def data_equal(r):
    """boundary data of the steady state"""
    def rule(n, comp, der, side, const):
        if n == 'bnd.elev':
            return 0 if der else Poly.atom(fatom('ETA', (), (), None, True))
        if n == 'bnd.value':
            return 0 if der else Poly.atom(fatom('c', comp, (), None, True))
        if n == 'bnd.uv':
            return Poly.atom(fatom('uv_2d', comp, der, side, const))
        return None
    return rule


def steady(r, f, form, test, rule, kind):
    out = []
    fe = f.evaluator()
    sub = chain(rule, data_equal(r))
    # the state is substituted first, then differentiated
    g = Form({k: subst(p, sub) for k, p in form.m.items()}) if False else None
    vol = subst(form.get(('dx', None)), sub)
    if r.family == 'Momentum3D':
        vol = subst(vol, lambda n, c, d, s, k: 0 if n == test and c == (2,) else None)

    class F:
        def get(self, k):
            return vol
    try:
        st = strong(F(), test, f.dim, fe)
        bad = {c: p for c, p in st.items() if not p.zero()}
        out.append(('dx', not bad, 'the state is not steady: residual %s' % {c: short(p) for c, p in bad.items()}))
        test_cg = 'cg' in (v[0] for v in r.cont.values())
        ms = ['dS'] if f.dim == 2 else ['dS_h', 'dS_v']
        fp, fm = flux_n(F(), test, f.dim, '+'), flux_n(F(), test, f.dim, '-')
        for m in ms:
            res = subst(form.get((m, None)), sub) + fp + fm
            res = subst(res, minus_n)
            if m == 'dS_v':
                res = subst(res, lambda n, c, d, s, k: 0 if n == 'n' and c == (2,) else None)
            from .c_facets import test_continuity
            if test_continuity(r, test) == 'cg':
                res = subst(res, continuous([test, 'uv', 'eta', 'c', 'uv_2d', 'elev_2d', 'bath', 'w']))
            if r.family == 'Momentum3D':
                res = subst(res, lambda n, c, d, s, k: 0 if n == test and c == (2,) else None)
            out.append((m, res.zero(), 'facet residual %s' % short(res)))
        bs = ['ds'] if f.dim == 2 else []
        for m in bs:
            D = Poly()
            for k, p in form.m.items():
                if k[0] == m:
                    D = D + p
            if r.clsname in ('HorizontalDiffusionTerm', 'ConservativeHorizontalDiffusionTerm', 'SedimentDiffusionTerm',
                             'HorizontalViscosityTerm', 'BoundaryDragTerm'):
                res = subst(D, sub)
            elif kind == 'uniform tracer' and r.bc in ('none',):
                # closed boundary: no normal flow
                from .c_facets import no_normal
                res = subst(subst(D, sub) + flux_n(F(), test, f.dim), no_normal(['uv_2d']))
            else:
                if r.cont.get('u_space', ('dg',))[0] == 'cg':
                    continue
                if test_continuity(r, test) == 'cg' and not r.bc == 'none':
                    continue
                res = subst(D, sub) + flux_n(F(), test, f.dim)
            res = deep_unit_normal(res, f.dim)
            out.append((m, res.zero(), 'boundary residual %s' % short(res)))
    except NotLinear as x:
        out.append(('dx', None, str(x)))
    return out
