"""Extraction of the weak forms of every equation term from the source.

For each equation class the constructor is interpreted to find which terms it
contains; each term's `residual` is then interpreted for every combination of
optional fields, options, function-space continuity and boundary condition,
giving one canonical `Form` per guard partition.
"""
from .absint import (Policy, Interp, Sy, Ex, Ext, Ob, Fv, Cv, explore, callee_name, call_parts, show, is_call)
from .forms import FormEval, Form, T, M
from .poly import Poly, make_fn
from .repo import AnalysisError, ClassInfo

UFL_FUNS = {
    'dot', 'inner', 'grad', 'div', 'nabla_grad', 'nabla_div', 'Dx', 'outer', 'cross', 'sym', 'transpose', 'jump', 'avg',
    'sqrt', 'abs', 'sign', 'exp', 'ln', 'tanh', 'cos', 'sin', 'tan', 'atan', 'atan2', 'conditional', 'max_value',
    'min_value', 'as_vector', 'as_matrix', 'as_tensor', 'Constant', 'FacetNormal', 'CellNormal', 'CellSize',
    'CellVolume', 'FacetArea', 'Identity', 'SpatialCoordinate', 'TestFunction', 'TrialFunction', 'TestFunctions',
    'TrialFunctions', 'split', 'Function', 'float', 'gt', 'lt', 'ge', 'le', 'And', 'Or', 'Not', 'dx', 'ds', 'dS',
    'dS_h', 'dS_v', 'ds_v', 'ds_t', 'ds_b', 'elem_mult', 'derivative', 'int', 'zero', 'tr',
}

# cells without the meaning of a field
CONST_NAMES = {'g_grav', 'rho0', 'rho_0', 'von_karman', 'viscosity_molecular', 'pi', 'sipg', 'sipg_v', 'wd_alpha',
               'boundary_len'}


class FormPolicy(Policy):
    """Transfer functions for code that builds UFL expressions."""
    def __init__(self, continuity=None, hdim=2, gdim=2, nonnull=(), null=()):
        self.continuity = continuity or {}
        self.hdim = hdim
        self.gdim = gdim
        self.nonnull = set(nonnull)
        self.null = set(null)

    def notnone(self, it, v):
        if isinstance(v, Sy):
            return True
        if v.op == 'call':
            f = v.args[0]
            if isinstance(f, Ext) and f.short in UFL_FUNS:
                return True
            if len(v.args[1]) == 1 and v.args[1][0] in ('+', '-'):
                return True
        return False

    def decide(self, it, v):
        if isinstance(v, Sy) and v.name.split('_')[0] in ('test', 'trial'):
            return True
        if isinstance(v, Ex) and v.op == 'is' and v.args[1] is not None:
            return False
        return None

    def name(self, it, name, module):
        if name == 'physical_constants':
            return Sy('physical_constants')
        return NotImplemented

    def index(self, it, base, idx, node):
        if isinstance(base, Sy):
            if base.name == 'physical_constants' and isinstance(idx, str):
                return Sy(idx)
            if base.name == 'fields_old' and isinstance(idx, str):
                return Sy(idx)
            if base.name == 'fields' and isinstance(idx, str):
                return Sy(idx + '^')
            if base.name in ('fields', 'fields_old') and isinstance(idx, Ex) and idx.op == 'fstr':
                return Sy('%s' % ''.join(x if isinstance(x, str) else show(x) for x in idx.args)
                          + ('^' if base.name == 'fields' else ''))
        return NotImplemented

    def attr(self, it, base, name, node):
        if name == 'boundary_markers' and 'term' in it.user:
            it.user['bnd_used'] = True
        if name == 'unique_markers':
            return ['bnd']
        if name in ('geometric_dimension',) and isinstance(base, (Ex, Sy)):
            return self.gdim
        if name == 'subspaces' and isinstance(base, Sy):
            return [Sy('u_space'), Sy('eta_space')]
        return NotImplemented

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if not isinstance(fn, tuple) else None
        if n == 'element_continuity':
            a = show(args[0])
            for sp, (h, v) in self.continuity.items():
                if sp in a:
                    return it.obj('ElementContinuity', None, horizontal=h, vertical=v)
            h, v = self.continuity.get('*', ('dg', 'dg'))
            return it.obj('ElementContinuity', None, horizontal=h, vertical=v)
        if isinstance(fn, Ext):
            if n == 'TestFunctions':
                return self.tests(args)
            if n == 'TrialFunctions':
                return self.trials(args)
            if n == 'TestFunction':
                return Sy('test')
            if n == 'TrialFunction':
                return Sy('trial')
            if n == 'FacetNormal':
                return Sy('n')
            if n == 'unit_vectors':
                return [Sy('e_x'), Sy('e_y'), Sy('e_z')][:args[0]]
            if n == 'split' and isinstance(args[0], Sy):
                r = self.split(args[0])
                if r is not None:
                    return r
            if n in UFL_FUNS:
                return Ex('call', fn, tuple(args), tuple(sorted(kwargs.items())))
        if isinstance(fn, Fv) and fn.func.name == 'unit_vectors':
            return [Sy('e_x'), Sy('e_y'), Sy('e_z')][:args[0]]
        if isinstance(fn, Ex) and fn.op == 'attr':
            b, m = fn.args
            if isinstance(b, Sy) and b.name in ('fields', 'fields_old') and m == 'get':
                if isinstance(args[0], str):
                    nm = args[0]
                elif isinstance(args[0], Ex) and args[0].op == 'fstr':
                    nm = ''.join(x if isinstance(x, str) else show(x) for x in args[0].args)
                else:
                    return NotImplemented
                if b.name == 'fields':
                    nm += '^'
                v = Sy(nm)
                if nm in self.null:
                    return None
                if nm in self.nonnull:
                    return v
                if it.truth(Ex('given', v)):
                    return v
                return None
            if m in ('degree', 'mesh', 'ufl_element', 'ufl_domain', 'ufl_cell', 'cell_dimension', 'function_space'):
                if m == 'cell_dimension':
                    return self.hdim
                if m == 'degree' and self.hdim == 3:
                    return [Sy('p'), Sy('q')]
                if m == 'degree':
                    return Sy('p')
                return Ex('call', fn, tuple(args), tuple(sorted(kwargs.items())))
            if len(args) == 1 and args[0] in ('+', '-'):
                return Ex('call', fn, tuple(args), ())
            if m == 'dx':
                return Ex('call', fn, tuple(args), ())
        if isinstance(fn, (Sy, Ex)) and len(args) == 1 and args[0] in ('+', '-'):
            return Ex('call', fn, tuple(args), ())
        return NotImplemented

    def tests(self, args):
        return [Sy('u_test'), Sy('eta_test')]

    def trials(self, args):
        return [Sy('u_tri'), Sy('eta_tri')]

    def split(self, s):
        if s.name == 'solution':
            return [Sy('uv'), Sy('eta')]
        if s.name == 'solution_old':
            return [Sy('uv_old'), Sy('eta_old')]
        return None


class TracerPolicy(FormPolicy):
    single = True

    def attr(self, it, base, name, node):
        if name == 'dof_dset' and isinstance(base, Sy):
            return it.obj('DofDset', None, dim=[1] if self.single else [1, 1])
        return super().attr(it, base, name, node)

    def tests(self, args):
        return [Sy('test'), Sy('test_1')]

    def trials(self, args):
        return [Sy('trial'), Sy('trial_1')]

    def split(self, s):
        return [Sy(s.name), Sy(s.name + '_1')]


SHAPES2 = {'uv': (2,), 'uv_old': (2,), 'u_test': (2,), 'n': (2,), 'uv_2d': (2,), 'wind_stress': (2,), 'uv_bottom': (2,),
           'momentum_source': (2,), 'uv_ext': (2,), 'bnd.uv': (2,), 'uv_p1': (2,), 'x': (2,), 'uv^': (2,),
           'velocity': (2,)}
SHAPES3 = {'n': (3,), 'uv_3d': (3,), 'uv_depth_av': (3,), 'w': (3,), 'test_v': (3,), 'solution_v': (3,), 'wind_stress': (3,),
           'bnd.uv': (3,), 'int_pg^': (3,), 'source_v': (3,), 'x': (3,), 'khat': (3,)}


def bc_cases(tags_list, vec=2):
    """[(label, bnd_conditions dict)]"""
    out = []
    for tags in tags_list:
        if tags is None:
            out.append(('none', {}))
        else:
            out.append(('+'.join(tags) if tags else 'empty', {'bnd': {t: Sy('bnd.' + t) for t in tags}}))
    return out


SWE_BCS = [None, (), ('elev',), ('uv',), ('un',), ('flux',), ('elev', 'uv'), ('elev', 'un'), ('elev', 'flux'),
           ('uv', 'elev'), ('flux', 'elev'), ('un', 'elev'), ('drag',), ('drag', 'elev'), ('elev', 'drag')]
TRACER_BCS = [None, (), ('value',), ('value', 'uv'), ('value', 'un'), ('value', 'flux'), ('uv',), ('un',), ('flux',),
              ('elev',), ('elev', 'flux', 'value'), ('diff_flux',), ('value', 'diff_flux'), ('elev', 'uv', 'value'),
              ('flux', 'elev')]
MOM_BCS = [None, ('symm',), ('uv',), ('un',), ('flux',), ('drag',)]


def make_depth(it):
    cls = it.repo.cls('utility', 'DepthExpression')
    return it.instantiate(cls, [], {'bathymetry_2d': Sy('bath'),
                                    'use_nonlinear_equations': Sy('nonlinear_depth'),
                                    'use_wetting_and_drying': Sy('wetting_drying'),
                                    'wetting_and_drying_alpha': Sy('wd_alpha')})


# time levels are identified: where the lagged and the current value of a
# quantity appear is a choice of linearisation, not of the operator
LAG = {'uv_old': 'uv', 'eta_old': 'eta', 'c_old': 'c', 'uv_2d^': 'uv_2d', 'elev_2d^': 'elev_2d', 'sediment^': 'sediment',
       'uv^': 'uv', 'int_pg^': 'int_pg', 'elev_3d^': 'elev_3d'}


class Family:
    """How one equation class is built and how its terms are evaluated."""
    name = None
    module = None
    cls = None
    dim = 2
    shapes = {}
    consts = CONST_NAMES
    continuities = [{'*': ('dg', 'dg')}]
    bcs = [None]
    sol = 'solution'
    test = 'test'
    policy_cls = FormPolicy
    nonnull = ()
    skip_unused_bcs = True
    keep_lag = False        # keep the lagged and the current state apart

    def policy(self, cont):
        return self.policy_cls(cont, hdim=self.dim, gdim=self.dim, nonnull=self.nonnull)

    def build(self, it):
        raise NotImplementedError

    def variants(self):
        return [{}]

    def args(self, bnd):
        return [Sy(self.sol), Sy(self.sol + '_old'), Sy('fields'), Sy('fields_old'), bnd]

    def term_names(self, repo):
        names = {}
        for var in self.variants():
            for p in explore(repo, lambda: self.policy(self.continuities[0]), lambda it: self.build(it, **var)):
                if p.outcome != 'return':
                    continue
                eq = p.value
                for k, t in eq.attrs['terms'].items():
                    names.setdefault(str(k) if isinstance(k, str) else show(k), (t.cls, eq.attrs['labels'].get(k)))
        return names

    def evaluator(self):
        shapes = dict(self.shapes)
        if self.keep_lag:
            for old, new in LAG.items():
                if new in shapes:
                    shapes.setdefault(old, shapes[new])
        fe = FormEval(self.dim, shapes, self.consts, resolver=self.resolver)
        fe.alias = {} if self.keep_lag else LAG
        return fe

    def resolver(self, fe, v):
        if isinstance(v, Ex) and v.op == 'idx' and isinstance(v.args[0], Ex) and v.args[0].op == 'attr' \
                and v.args[0].args[1] == 'boundary_len':
            return fe.sym('boundary_len[%s]' % show(v.args[1]), (), True)
        return None

    def forms(self, repo, terms=None, bcs=None, continuities=None, max_paths=2048):
        """Yield dict(term, cls, label, bc, continuity, guards, form, path)."""
        for var in self.variants():
            for cont in (continuities or self.continuities):
                for tn, info in self.term_names_variant(repo, var, cont).items():
                    if terms is not None and info[0].name not in terms:
                        continue
                    for bclabel, bnd in bc_cases(self.bcs if bcs is None else bcs):
                        used = False
                        for d in self.term_forms(repo, var, cont, bclabel, bnd, tn, info, max_paths):
                            used = used or d['path'].it.user.get('bnd_used')
                            yield d
                        if not used and self.skip_unused_bcs:
                            break

    def term_names_variant(self, repo, var, cont):
        ck = (repr(var), repr(cont))
        cache = self.__dict__.setdefault('_tn', {})
        if ck in cache:
            return cache[ck]
        out = {}
        for p in explore(repo, lambda: self.policy(cont), lambda it: self.build(it, **var)):
            if p.outcome != 'return':
                continue
            eq = p.value
            for k, t in eq.attrs['terms'].items():
                lab = eq.attrs['labels'].get(k)
                if isinstance(k, Ex) or not isinstance(k, str):
                    k = show(k)
                out.setdefault(k, (t.cls, lab))
        cache[ck] = out
        return out

    def term_forms(self, repo, var, cont, bclabel, bnd, tn, info, max_paths):
        def body(it):
            eq = self.build(it, **var)
            term = None
            for k, t in eq.attrs['terms'].items():
                if (k if isinstance(k, str) else show(k)) == tn:
                    term = t
            if term is None:
                return ('absent',)
            import copy
            b = {k: dict(v) for k, v in bnd.items()}
            it.user['term'] = term
            it.user['nev'] = len(it.events)
            m = it.getattr(term, 'residual')
            return it.call(m, self.args(b), {}, None)
        for p in explore(repo, lambda: self.policy(cont), body, max_paths):
            if p.outcome == 'raise':
                yield dict(term=tn, cls=info[0], label=info[1], bc=bclabel, cont=cont, var=var, form=None, path=p,
                           guards=p.guards(), raised=p.value)
                continue
            if p.value == ('absent',):
                continue
            fe = self.__dict__.get('_fe')
            if fe is None:
                fe = self._fe = self.evaluator()
            f = fe.ev(p.value)
            if isinstance(f, T):
                if f.shape == () and f.at().is_zero_raw():
                    f = Form()
                else:
                    raise AnalysisError('%s.residual returns a non-form' % tn)
            yield dict(term=tn, cls=info[0], label=info[1], bc=bclabel, cont=cont, var=var, form=f, path=p,
                       guards=p.guards(), raised=None, fe=fe)


class SWE(Family):
    name = 'shallow water'
    module, cls = 'shallowwater_eq', 'ShallowWaterEquations'
    shapes = SHAPES2
    continuities = [{'u_space': ('dg', 'dg'), 'eta_space': ('dg', 'dg')},
                    {'u_space': ('hdiv', 'hdiv'), 'eta_space': ('dg', 'dg')},
                    {'u_space': ('dg', 'dg'), 'eta_space': ('cg', 'cg')},
                    {'u_space': ('cg', 'cg'), 'eta_space': ('cg', 'cg')}]
    bcs = SWE_BCS
    has_farms = True
    nonnull = ('lax_friedrichs_velocity_scaling_factor',)
    consts = CONST_NAMES | {'lax_friedrichs_velocity_scaling_factor'}

    def resolver(self, fe, v):
        if is_call(v, 'friction_coefficient'):
            a = call_parts(v)[1]
            u, h = fe.ev(a[0]), fe.ev(a[1])
            f = call_parts(v)[0]
            return T.scalar(make_fn('turbine_friction:' + show(f.args[0] if isinstance(f, Ex) else f), [u.at(0), u.at(1), h.s()]))
        return super().resolver(fe, v)

    def build(self, it):
        depth = make_depth(it)
        kw = {}
        if self.has_farms:
            kw['tidal_farms'] = [Sy('farm'), Sy('farm2')]
        c = it.repo.cls(self.module, self.cls)
        return it.instantiate(c, [Sy('fs'), depth, Sy('options')], kw)

    def args(self, bnd):
        return [Sy('uv'), Sy('eta'), Sy('uv_old'), Sy('eta_old'), Sy('fields'), Sy('fields_old'), bnd]


class ModeSplit2D(SWE):
    name = 'mode split 2D'
    cls = 'ModeSplit2DEquations'
    has_farms = False


class FreeSurface(SWE):
    name = 'free surface'
    cls = 'FreeSurfaceEquation'
    has_farms = False

    def build(self, it):
        c = it.repo.cls(self.module, self.cls)
        return it.instantiate(c, [Sy('eta_test'), Sy('eta_space'), Sy('u_space'), make_depth(it), Sy('options')], {})


class SWMomentum(SWE):
    name = 'shallow water momentum'
    cls = 'ShallowWaterMomentumEquation'

    def build(self, it):
        c = it.repo.cls(self.module, self.cls)
        return it.instantiate(c, [Sy('u_test'), Sy('u_space'), Sy('eta_space'), make_depth(it), Sy('options')],
                              {'tidal_farms': [Sy('farm'), Sy('farm2')]})


class Tracer2D(Family):
    name = 'tracer 2D'
    module, cls = 'tracer_eq_2d', 'TracerEquation2D'
    shapes = SHAPES2
    policy_cls = TracerPolicy
    continuities = [{'*': ('dg', 'dg')}, {'*': ('cg', 'cg')}]
    bcs = TRACER_BCS
    sol = 'c'
    nonnull = ('uv_2d', 'elev_2d', 'tracer_advective_velocity_factor', 'lax_friedrichs_tracer_scaling_factor')
    consts = CONST_NAMES | {'tracer_advective_velocity_factor', 'lax_friedrichs_tracer_scaling_factor'}

    def variants(self):
        return [{'conservative': True}, {'conservative': False}]

    def build(self, it, conservative=True):
        depth = make_depth(it)
        it.assume(Ex('attr', Sy('options'), 'use_supg_tracer'), False)
        it.assume(Ex('attr', Ex('idx', Ex('attr', Sy('options'), 'tracer'), 'tr'), 'use_conservative_form'), conservative)
        c = it.repo.cls(self.module, self.cls)
        return it.instantiate(c, ['tr', Sy('fs'), depth, Sy('options'), Sy('velocity')], {})


class Sediment2D(Tracer2D):
    name = 'sediment 2D'
    module, cls = 'sediment_eq_2d', 'SedimentEquation2D'
    bcs = TRACER_BCS + [('equilibrium',), ('equilibrium', 'flux'), ('equilibrium', 'value')]

    def variants(self):
        return [{'conservative': True}, {'conservative': False}]

    def build(self, it, conservative=True):
        c = it.repo.cls(self.module, self.cls)
        return it.instantiate(c, [Sy('fs'), make_depth(it), Sy('options'), Sy('sed')], {'conservative': conservative})


class Exner(Tracer2D):
    name = 'exner'
    module, cls = 'exner_eq', 'ExnerEquation'
    bcs = [None, ('elev',), ('un',), ('flux',), ('uv',), ('elev', 'un'), ('flux', 'elev')]
    sol = 'c'
    # the bed is solved in the (continuous) bathymetry space
    continuities = [{'*': ('cg', 'cg')}]
    consts = Tracer2D.consts | {'morfac^', 'porosity^'}
    nonnull = ('uv_2d', 'elev_2d', 'sediment^', 'morfac^', 'porosity^')

    def variants(self):
        return [{'integrated': True}, {'integrated': False}]

    def resolver(self, fe, v):
        if is_call(v, 'get_sediment_slide_term'):
            D = Poly.atom(('f', 'Dslide', (), (), None, False))
            return T((2, 2), {(0, 0): D, (1, 1): D})
        if is_call(v, 'get_bedload_term'):
            return fe.sym('qb', (2,))
        if isinstance(v, Ex) and v.op == 'attr' and isinstance(v.args[0], Sy) and v.args[0].name == 'sed' and v.args[1] == 'n':
            return fe.sym('n', (2,))
        return super().resolver(fe, v)

    def build(self, it, integrated=True):
        c = it.repo.cls(self.module, self.cls)
        return it.instantiate(c, [Sy('fs'), make_depth(it), Sy('sed'), integrated], {})


class Tracer3D(Family):
    name = 'tracer 3D'
    module, cls = 'tracer_eq', 'TracerEquation'
    dim = 3
    shapes = SHAPES3
    continuities = [{'*': ('dg', 'dg')}, {'*': ('cg', 'cg')}]
    bcs = [b for b in TRACER_BCS if b is None or 'diff_flux' not in b]
    sol = 'c'
    nonnull = ('uv_3d', 'elev_3d', 'w', 'lax_friedrichs_tracer_scaling_factor', 'diffusivity_h', 'diffusivity_v', 'source')
    consts = CONST_NAMES | {'lax_friedrichs_tracer_scaling_factor'}

    def build(self, it):
        c = it.repo.cls(self.module, self.cls)
        return it.instantiate(c, [Sy('fs')], dict(bathymetry=Sy('bath'), v_elem_size=Sy('v_elem_size'),
                                                  h_elem_size=Sy('h_elem_size'),
                                                  use_symmetric_surf_bnd=Sy('symm_surf'),
                                                  use_lax_friedrichs=Sy('lax'), sipg_factor=Sy('sipg'),
                                                  sipg_factor_vertical=Sy('sipg_v')))


class Momentum3D(Tracer3D):
    name = 'momentum 3D'
    module, cls = 'momentum_eq', 'MomentumEquation'
    bcs = MOM_BCS
    sol = 'uv'
    shapes = dict(SHAPES3, uv=(3,), uv_old=(3,), test=(3,), source=(3,))
    continuities = [{'*': ('dg', 'dg')}, {'*': ('hdiv', 'hdiv')}, {'*': ('cg', 'cg')}]
    nonnull = ('lax_friedrichs_velocity_scaling_factor',)
    consts = CONST_NAMES | {'lax_friedrichs_velocity_scaling_factor'}

    def build(self, it):
        c = it.repo.cls(self.module, self.cls)
        return it.instantiate(c, [Sy('fs')], dict(bathymetry=Sy('bath'), v_elem_size=Sy('v_elem_size'),
                                                  h_elem_size=Sy('h_elem_size'),
                                                  use_nonlinear_equations=Sy('nonlinear'),
                                                  use_lax_friedrichs=Sy('lax'),
                                                  use_bottom_friction=Sy('bottom_friction'),
                                                  sipg_factor=Sy('sipg'), sipg_factor_vertical=Sy('sipg_v')))
