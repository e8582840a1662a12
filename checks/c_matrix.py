"""E04: problems that keep their matrix between solves have a matrix that cannot change."""
import ast
import itertools
from sa.core import prop
from sa.absint import Sy, Ob, Ext
from sa.repo import AnalysisError, dotted
from sa.poly import Poly, show_poly
from sa.formdb import repo as get_repo
from .c_diag3d import run, new, meth, probs, eos

SCOPE = ('utility3d', 'utility', 'turbulence', 'momentum_eq', 'timeintegrator', 'rungekutta', 'coupled_timeintegrator',
         'coupled_timeintegrator_2d', 'implicitexplicit', 'solver', 'solver2d', 'sediment_model', 'exner_eq', 'limiter')
CALLS = ('LinearVariationalProblem', 'Projector')
LAG = ('snes_lag_jacobian', 'snes_lag_jacobian_persists', 'snes_lag_preconditioner', 'ksp_reuse_preconditioner')
DEFAULT = {'LinearVariationalProblem': False, 'Projector': True}


def cases():
    f3 = (3,)

    def w(it, f):
        new(it, 'utility3d', 'VerticalVelocitySolver', f(it, 'w', None, f3), f(it, 'uv', None, f3), Sy('bath'), {'bnd': {'elev': Sy('e')}})

    def vi(it, f, av, sh):
        kw = dict(average=av, bottom_to_top=True)
        if av:
            kw.update(bathymetry=f(it, 'bath'), elevation=f(it, 'eta'))
        new(it, 'utility3d', 'VerticalIntegrator', f(it, 'f', None, sh), f(it, 'F', None, sh), **kw)

    def dens(it, f):
        new(it, 'utility3d', 'DensitySolverWeak', f(it, 'S'), f(it, 'T'), f(it, 'rho'), eos(it, 'Linear'))

    def smag(it, f, weak):
        new(it, 'utility3d', 'SmagorinskyViscosity', f(it, 'uv', None, f3), f(it, 'nu'), Sy('c_s'), f(it, 'h'), f(it, 'm'), Sy('n'), weak_form=weak)

    def mag(it, f):
        new(it, 'utility3d', 'VelocityMagnitudeSolver', f(it, 'm'), u=f(it, 'uv', None, f3), w=f(it, 'w'))

    def grad(it, f):
        new(it, 'turbulence', 'VerticalGradSolver', f(it, 'f'), f(it, 'F'))

    def ipg(it, f):
        fields = it.obj('Fields', None)
        fields.attrs.update(int_pg_3d=f(it, 'pg', None, f3), baroc_head_3d=f(it, 'r'))
        new(it, 'momentum_eq', 'InternalPressureGradientCalculator', fields, Sy('bath'), {'bnd': {'elev': Sy('e')}})
    yield 'utility3d', 'VerticalVelocitySolver', '', w, {'space:w': 3}
    for av, sh in itertools.product((False, True), ((), f3)):
        yield ('utility3d', 'VerticalIntegrator', (', average' if av else ', integral') + (', vector' if sh else ''),
               lambda it, f, av=av, sh=sh: vi(it, f, av, sh), {'space:F': 3} if sh else {})
    yield 'utility3d', 'DensitySolverWeak', '', dens, {}
    for weak in (False, True):
        yield 'utility3d', 'SmagorinskyViscosity', ', weak' if weak else '', lambda it, f, weak=weak: smag(it, f, weak), {'space:vec': 4}
    yield 'utility3d', 'VelocityMagnitudeSolver', '', mag, {}
    yield 'turbulence', 'VerticalGradSolver', '', grad, {}
    yield 'momentum_eq', 'InternalPressureGradientCalculator', '', ipg, {'space:pg': 3}


def fixed_matrix(form):
    """None when the matrix is the same after any vertical motion of the mesh, otherwise the integrand that changes"""
    for (m, tag), q in form.m.items():
        for mono, k in q.t.items():
            geo = [(a, e) for a, e in mono if a[0] != 'f' or not (a[1].endswith('test') or a[1].endswith('trial'))]
            der = [a[3] for a, e in mono if a[0] == 'f' and a[3]]
            if m == 'dx':
                ok = not geo and der == [(2,)]
            elif m in ('dS_h', 'ds_surf', 'ds_bottom'):
                ok = not der and len(geo) == 1 and geo[0][1] == 1 and geo[0][0][0] == 'f' and geo[0][0][1] == 'n' and geo[0][0][2] == (2,)
            else:
                ok = m in ('dS_v', 'ds_v') and any(a[0] == 'f' and a[1] == 'n' and a[2] == (2,) for a, e in mono)
            if not ok:
                return '%s %s' % (show_poly(Poly({mono: k})), m)
    return None


def literal(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, bool):
        return e.value
    return None


def target_2d(call, name):
    """projections onto 2D spaces keep their matrix: the 2D mesh does not move"""
    a = list(call.args) + [None, None]
    t = next((k.value for k in call.keywords if k.arg == 'v_out'), a[1])
    d = dotted(t) if t is not None else None
    return d is None or '2d' in d.split('.')[-1]


def reassembled(cls, here):
    """some method of the class, outside the set-up, assembles a matrix into an existing tensor"""
    for c in cls.mro() if cls is not None else ():
        for fn in c.methods.values():
            if fn.node is here:
                continue
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'assemble' \
                        and any(k.arg == 'tensor' for k in n.keywords):
                    return True
    return False


@prop('E04', 'no variational problem declares a constant Jacobian unless its matrix is independent of state, step and vertical mesh position', 5,
      'abstract execution of the 3D solvers captures every variational problem with its flag and bilinear form, scaling of every monomial '
      'under vertical mesh motion decides whether the matrix is invariant; syntax-tree scan of the remaining call sites')
def e04(ctx):
    repo = get_repo()
    done = set()
    for mod, cls, what, make, vec in cases():
        fn = meth(mod, cls)
        done.add((mod, cls))

        def body(it):
            make(it, it.policy.function)
        for p in run(body, vectors=vec, consts={'c_s'}):
            ps = probs(p)
            if not ps:
                ctx.ob('problem', cls + what, None, fn.loc(), 'no problem found: %s' % p.value, func=fn.qualname)
                continue
            for q in ps:
                con = '%s%s: problem for %s' % (cls, what, getattr(q.u, 'name', '?'))
                if q.const is False or q.const is None:
                    ctx.ob('matrix', con, True, q.loc, func=fn.qualname)
                elif q.const is True:
                    bad = 'the mass matrix' if not q.forms else fixed_matrix(q.forms[0])
                    ctx.ob('matrix', con, bad is None, q.loc, 'the matrix is kept but changes with the mesh: %s' % bad, func=fn.qualname)
                else:
                    ctx.ob('matrix', con, None, q.loc, 'cannot decide whether the matrix is kept', func=fn.qualname)
    n = 0
    for m in SCOPE:
        try:
            mod = repo.mod(m)
        except (AnalysisError, KeyError, FileNotFoundError):
            continue
        for fn in repo.all_functions():
            if fn.module is not mod or (fn.cls is not None and (m, fn.cls.name) in done):
                continue
            for c in ast.walk(fn.node):
                if not isinstance(c, ast.Call):
                    continue
                name = (dotted(c.func) or '').split('.')[-1]
                if name not in CALLS:
                    continue
                n += 1
                kw = next((k.value for k in c.keywords if k.arg == 'constant_jacobian'), None)
                v = DEFAULT[name] if kw is None else literal(kw)
                if name == 'Projector' and target_2d(c, name):
                    v = False
                if isinstance(kw, ast.Name):
                    v = False if kw.id in fn.params() else v      # decided by the caller
                ctx.ob('matrix', '%s in %s' % (name, fn.qualname), v is not True, fn.loc(c),
                       'the matrix of the first solve is kept although mesh, time step or state change', func=fn.qualname)
            for c in ast.walk(fn.node):
                if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] == 'LinearSolver':
                    setup = fn.name in ('__init__', 'update_solver', 'initialize', 'create_solvers')
                    ctx.ob('matrix', 'LinearSolver in %s' % fn.qualname, not setup or reassembled(fn.cls, fn.node),
                           fn.loc(c), 'the solver is built on a matrix that is assembled once and never again', func=fn.qualname)
                if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.lstrip('-').endswith(LAG):
                    ctx.ob('matrix', 'option %s in %s' % (c.value, fn.qualname), False, fn.loc(c),
                           'the matrix of an earlier solve is used again', func=fn.qualname)
    ctx.count('problem call sites', n)
