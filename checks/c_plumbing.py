"""B05: every equation is stepped with its own field, coefficients, boundary conditions and options."""
import ast
import itertools
from sa.core import prop
from sa.absint import Sy, Ex, Ob, key, show, explore
from sa.repo import AnalysisError, ClassInfo
from sa.sysim import make_solver, is_fn, mro_names
from sa.sim3d import Pol3
from sa.formdb import repo as get_repo
from checks.c_coupled3d import PINS
from checks.c_coupled2d import sets_attr

TECH = ('abstract execution of field, equation and stepper construction for every combination of active equations; provenance of every '
        'argument and field entry compared with its documented source; completeness against the keys read by the terms of the equation')


class PolF(Pol3):
    concrete = ('CoupledTimeIntegratorBase', 'CoupledTimeIntegrator2D', 'SumFunction', 'FrozenClass')
    skip_methods = ('compute_mesh_stats', 'set_time_step', 'create_function_spaces', 'set_wetting_and_drying_alpha')
    farms = False

    def stub_hasattr(self, it, o, a):
        return sets_attr(o.cls, a)

    def par_loop(self, it, args, node):
        return None

    def decide(self, it, cond):
        s = show(cond)
        if 'tidal_turbine_farms' in s and isinstance(cond, Ex) and cond.op in ('<', '>', '!=', '=='):
            return self.farms if cond.op != '==' else not self.farms
        if s.startswith('isinstance(valof(') and 'tidal_turbine_farms' in s:
            return True
        return super().decide(it, cond)

    def call(self, it, fn, args, kwargs, node):
        nm = getattr(getattr(fn, 'func', None), 'name', None)
        if nm == 'add_new_field' and len(args) >= 2 and isinstance(args[1], str):
            S = it.user.get('S')
            if S is not None and isinstance(args[0], Ob):
                S.attrs['fields'].attrs[args[1]] = args[0]
                return None
        return super().call(it, fn, args, kwargs, node)


# ---------------------------------------------------------------- keys read by terms
def term_reads(repo, cls):
    """keys that the terms added by an equation class read from fields / fields_old -> {key: location}"""
    out, seen = {}, set()
    todo = [(cls, cls.find_method('__init__'))]
    while todo:
        c, m = todo.pop()
        if m is None or m.qualname in seen:
            continue
        seen.add(m.qualname)
        owner = m.cls or c
        for n in ast.walk(m.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            if n.func.attr == 'add_term' and n.args:
                t = n.args[0]
                cand = [t]
                if isinstance(t, ast.Name):     # a local variable holding the term
                    cand += [x.value for x in ast.walk(m.node) if isinstance(x, ast.Assign)
                             and any(isinstance(y, ast.Name) and y.id == t.id for y in x.targets)]
                for t in cand:
                    tc = repo.resolve_expr(owner.module, t.func) if isinstance(t, ast.Call) else None
                    if isinstance(tc, ClassInfo):
                        keys_of(tc, out)
            elif isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                todo.append((cls, cls.find_method(n.func.attr)))
            elif isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
                todo.append((cls, cls.find_method(n.func.attr, after=owner)))
    return out


def keys_of(cls, out):
    for c in [c for c in cls.mro() if isinstance(c, ClassInfo)]:
        for n in ast.walk(c.node):
            k = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id in ('fields', 'fields_old') and n.args:
                k = n.args[0]
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in ('fields', 'fields_old') and isinstance(n.ctx, ast.Load):
                k = n.slice
            if k is None:
                continue
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                out.setdefault(k.value, (c.module.relpath, n.lineno))
            elif isinstance(k, ast.JoinedStr) and len(k.values) == 2 and isinstance(k.values[0], ast.Constant):
                out.setdefault(k.values[0].value + '*', (c.module.relpath, n.lineno))


# ---------------------------------------------------------------- expectations
def parts(v):
    """summands of a value, None for absent"""
    if v is None:
        return []
    if isinstance(v, Ex) and v.op == '+':
        return parts(v.args[0]) + parts(v.args[1])
    if isinstance(v, (int, float)) and not isinstance(v, bool) and v == 0:
        return []
    return [v]


def ident(v):
    return ('ob', v.oid) if isinstance(v, Ob) else ('sy', show(v))


def agree(got, want):
    """want: list of Ob / shown option names"""
    g = sorted(map(str, map(ident, parts(got))))
    w = sorted(str(('sy', x) if isinstance(x, str) else ident(x)) for x in want if x is not None)
    return g == w


def names_of(want):
    return ' + '.join(x if isinstance(x, str) else show(x) for x in want if x is not None) or 'nothing'


class Spec:
    """expected stepper of one equation"""
    def __init__(self, sol, fields, opts, bnd, eqargs=None, eqcls=None, integ=None, absent=()):
        self.sol, self.fields, self.opts, self.bnd = sol, fields, opts, bnd
        self.eqargs, self.eqcls, self.integ, self.absent = eqargs or {}, eqcls, integ, absent


def default_of(cls, name):
    m = cls.find_method('__init__')
    a = m.node.args
    ps = [x.arg for x in a.args]
    ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
    ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = ds.get(name)
    return d.value if isinstance(d, ast.Constant) else None


def has_param(cls, name):
    m = cls.find_method('__init__')
    a = m.node.args
    return name in [x.arg for x in a.args + a.kwonlyargs]


def val_ok(cls, args, name, want):
    if not has_param(cls, name):
        return True     # renamed: nothing to compare
    got = args[name] if name in args else default_of(cls, name)
    if isinstance(want, tuple):      # an option whose value is pinned
        return got is want[1] or show(got) == want[0]
    if isinstance(want, bool):
        return got is want
    return agree(got, want if isinstance(want, list) else [want])


class Judge:
    def __init__(self, ctx, repo, p, con):
        self.ctx, self.repo, self.p, self.con = ctx, repo, p, con
        self.S = p.value
        self.f = self.S.attrs['fields'].attrs
        self.where = self.S.cls.find_method('create_timestepper').loc()
        self.locs = {e.args[0].oid: e.loc for e in p.events if e.kind == 'new' and e.args and isinstance(e.args[0], Ob)}

    def ob(self, rule, c, ok, loc, msg):
        self.ctx.ob(rule, '%s: %s' % (self.con, c), ok, loc or self.where, msg)

    def steppers(self):
        return [e.args[0] for e in self.p.events if e.kind == 'new' and isinstance(e.args[0], Ob) and e.args[0].meta.get('ts')]

    def run(self, specs, depth=None):
        eqs = dict(self.S.attrs['equations'].attrs)
        ts = self.steppers()
        for name, sp in specs.items():
            eq = eqs.get(name)
            if eq is None:
                self.ob('equation exists', name, False, self.where, 'the active equation %s is not created' % name)
                continue
            mine = [t for t in ts if (t.meta.get('args') or {}).get('equation') is eq]
            self.ob('one stepper per equation', name, len(mine) == 1, self.where,
                    'the equation %s is passed to %d time steppers' % (name, len(mine)))
            self.eqn(name, eq, sp)
            for t in mine:
                self.stepper(name, eq, t, sp)
        for name in eqs:
            if name not in specs and name != 'mom':
                self.ob('equation is active', name, None, self.where, 'unknown equation %s' % name)

    def eqn(self, name, eq, sp):
        loc = self.locs.get(eq.oid)
        args = eq.meta.get('args') or {}
        if sp.eqcls:
            self.ob('equation class', name, sp.eqcls in mro_names(eq.cls), loc, 'the %s equation is a %s' % (name, eq.cls.name))
        for k, w in sp.eqargs.items():
            ok = val_ok(eq.cls, args, k, w)
            self.ob('equation argument', '%s.%s' % (name, k), ok, loc,
                    'the %s equation is built with %s=%s; expected %s' % (name, k, show(args.get(k, default_of(eq.cls, k))),
                                                                          w if isinstance(w, (bool, tuple)) else names_of(w if isinstance(w, list) else [w])))

    def stepper(self, name, eq, t, sp):
        loc = self.locs.get(t.oid)
        a = t.meta['args']
        self.ob('own field', name, a.get('solution') is sp.sol, loc,
                'the stepper of equation %s advances %s' % (name, show(a.get('solution'))))
        self.ob('own time step', name, agree(a.get('dt'), ['dt']), loc, 'the stepper of %s gets the time step %s' % (name, show(a.get('dt'))))
        self.ob('own options', name, agree(a.get('options'), [sp.opts]), loc,
                'the stepper of %s is configured with %s instead of %s' % (name, show(a.get('options')), sp.opts))
        b = a.get('bnd_conditions')
        if sp.bnd is None:
            ok = b is None or b == {} or isinstance(b, dict) and not b
        else:
            ok = b is not None and show(b) == sp.bnd
        self.ob('own boundary conditions', name, ok, loc,
                'the stepper of %s gets the boundary functions %s instead of %s' % (name, show(b), sp.bnd or 'none'))
        if sp.integ:
            self.ob('integrator named by the option', name, sp.integ(t.cls), loc, 'the equation %s is stepped with %s' % (name, t.cls.name))
        F = a.get('fields')
        if not isinstance(F, dict):
            F = F.attrs if isinstance(F, Ob) and isinstance(getattr(F, 'attrs', None), dict) else None
        if F is None:
            self.ob('coefficient source', name, None, loc, 'fields of %s not resolved' % name)
            return
        for k, w in sp.fields.items():
            got = F.get(k)
            self.ob('coefficient source', '%s[%s]' % (name, k), agree(got, w), loc,
                    'the terms of equation %s see %s as %s; it must be %s' % (name, k, show(got) if got is not None else 'nothing', names_of(w)))
        for k, l in term_reads(self.repo, eq.cls).items():
            have = k in F or k in sp.fields or k in sp.absent or (k.endswith('*') and any(x.startswith(k[:-1]) for x in list(F) + list(sp.absent)))
            self.ob('coefficient supplied', '%s[%s]' % (name, k), have, '%s:%d' % l,
                    'a term of equation %s reads %s, which its time stepper is never given' % (name, k))


# ---------------------------------------------------------------- 3D
def run3(repo, cfg, extra=None):
    pins = dict(PINS)
    for k in ('coriolis_frequency', 'wind_stress', 'momentum_source_2d', 'horizontal_viscosity', 'vertical_viscosity',
              'horizontal_diffusivity', 'vertical_diffusivity'):
        pins.pop('options.' + k)
        pins['(options.%s is None)' % k] = not cfg['coef']
        if not cfg['coef']:
            pins['options.' + k] = None
    pins['isinstance(options.coriolis_frequency, Constant)'] = True
    pins['isinstance(options.wind_stress, Function)'] = False
    pins['isinstance(options.wind_stress, Constant)'] = True
    pins.update({'options.timestepper_type': cfg['ts'], 'options.solve_salinity': cfg['salt'], 'options.solve_temperature': cfg['temp'],
                 'options.use_turbulence': cfg['turb'] is not None, 'options.use_turbulence_advection': cfg['turb'] == 'adv',
                 'options.turbulence_model_type': 'pacanowski' if cfg['turb'] == 'pp' else 'gls',
                 'options.use_implicit_vertical_diffusion': cfg['impl'], 'options.use_ale_moving_mesh': cfg['ale'],
                 'options.use_baroclinic_formulation': cfg['baro'], 'options.use_bottom_friction': cfg['fric'],
                 'options.use_limiter_for_tracers': False, 'options.use_limiter_for_velocity': False,
                 'options.use_smagorinsky_viscosity': cfg['smag']})
    pins.update(extra or {})

    def body(it):
        S = make_solver(it, 'solver', 'FlowSolver')
        it.user['S'] = S
        a = S.attrs
        del a['equations']
        a['mesh'] = Sy('mesh')
        a['U_2d'] = Sy('U_2d')
        a['bathymetry_cg_2d'] = Sy('bath')
        a['dt_2d'] = a['dt']
        a['simulation_time'] = Sy('t0')
        a['keep_log'] = False
        a['_initialized'] = False
        it.call(it.getattr(S, 'create_timestepper'), [], {})
        return S
    return list(explore(repo, lambda: PolF(pins), body, 64))


def specs3(S, c):
    f = S.attrs['fields'].attrs
    g = f.get
    o = lambda n: 'options.' + n
    opt = lambda n: [o(n)] if c['coef'] else []
    exp = not c['impl']
    vv = opt('vertical_viscosity') + [g('eddy_visc_3d')]
    vd = opt('vertical_diffusivity') + [g('eddy_diff_3d')]
    hv = opt('horizontal_viscosity') + [g('smag_visc_3d')]
    hd = opt('horizontal_diffusivity')
    geo = {'bathymetry': f['bathymetry_2d'], 'v_elem_size': f['v_elem_size_3d'], 'h_elem_size': f['h_elem_size_3d']}
    turb = S.attrs.get('turbulence_model')
    tso = 'options.timestepper_options.'
    out = {}
    out['sw'] = Spec(f['solution_2d'], {
        'coriolis': opt('coriolis_frequency'), 'momentum_source': [f['split_residual_2d']] + opt('momentum_source_2d'),
        'volume_source': [o('volume_source_2d')], 'atmospheric_pressure': [o('atmospheric_pressure')]},
        tso + 'swe_options', "bnd_functions['shallow_water']", {'depth': S.attrs['depth'], 'options': 'options'}, 'ModeSplit2DEquations',
        absent=('lax_friedrichs_velocity_scaling_factor', 'eta', 'uv'))
    fric = {'linear_drag_coefficient': [o('linear_drag_coefficient')], 'quadratic_drag_coefficient': [o('quadratic_drag_coefficient')],
            'wind_stress': opt('wind_stress'), 'bottom_roughness': [o('bottom_roughness')]}
    flow = {'uv_depth_av': [f['uv_dav_3d']], 'w': [f['w_3d']], 'w_mesh': [g('w_mesh_3d')]}
    mom = dict(flow, eta=[f['elev_domain_2d']], int_pg=[g('int_pg_3d')], viscosity_v=vv if exp else [], viscosity_h=hv,
               source=[o('momentum_source_3d')], lax_friedrichs_velocity_scaling_factor=[o('lax_friedrichs_velocity_scaling_factor')],
               coriolis=[g('coriolis_3d')])
    mom.update(fric if exp else {k: [] for k in fric})
    marg = dict(geo, use_lax_friedrichs='options.use_lax_friedrichs_velocity', sipg_factor='options.sipg_factor',
                sipg_factor_vertical='options.sipg_factor_vertical')
    out['momentum'] = Spec(f['uv_3d'], mom, tso + 'explicit_momentum_options', "bnd_functions['momentum']",
                           dict(marg, use_nonlinear_equations='options.use_nonlinear_equations', use_bottom_friction=c['fric'] and exp),
                           'MomentumEquation', explicit, tuple(fric) + ('baroc_head',))
    if c['impl']:
        out['vertmomentum'] = Spec(f['uv_3d'], dict({k: [] for k in mom}, viscosity_v=vv, **fric), tso + 'implicit_momentum_options',
                                   "bnd_functions['momentum']", dict(marg, use_nonlinear_equations=False, use_bottom_friction=('options.use_bottom_friction', c['fric'])),
                                   'MomentumEquation', implicit, ('baroc_head',))
    targ = dict(geo, use_lax_friedrichs='options.use_lax_friedrichs_tracer', sipg_factor='options.sipg_factor_tracer',
                sipg_factor_vertical='options.sipg_factor_vertical_tracer')
    for n, fn, src in (('salt', 'salt_3d', 'salinity_source_3d'), ('temp', 'temp_3d', 'temperature_source_3d')):
        if not c[n]:
            continue
        tr = dict(flow, elev_3d=[f['elev_domain_2d']], uv_3d=[f['uv_3d']], diffusivity_h=hd, diffusivity_v=vd if exp else [], source=[o(src)],
                  lax_friedrichs_tracer_scaling_factor=[o('lax_friedrichs_tracer_scaling_factor')])
        out[n] = Spec(f[fn], tr, tso + 'explicit_tracer_options', "bnd_functions['%s']" % n, targ, 'TracerEquation', explicit)
        if c['impl']:
            none = {k: [] for k in tr if k not in ('elev_3d', 'diffusivity_v', 'lax_friedrichs_tracer_scaling_factor')}
            out[n + '_vdff'] = Spec(f[fn], dict(none, diffusivity_v=vd), tso + 'implicit_tracer_options', "bnd_functions['%s']" % n,
                                    targ, 'TracerEquation', implicit, tuple(tr))
    if c['turb'] in ('adv', 'diff'):
        for n, fn, cl in (('tke', 'tke_3d', 'TKEEquation'), ('psi', 'psi_3d', 'PsiEquation')):
            # the diffusion equations are stepped implicitly whatever the treatment of vertical diffusion
            td = {'k': [f['tke_3d']]}
            if c['impl']:
                td.update(diffusivity_v=vd, viscosity_v=vv)
            td['bottom_roughness'] = [o('bottom_roughness')]
            td.update({k: [('%s.%s' % (show(turb), a))] for k, a in (('epsilon', 'epsilon'), ('shear_freq2', 'm2'),
                                                                   ('buoy_freq2_neg', 'n2_neg'), ('buoy_freq2_pos', 'n2_pos'))})
            out[n + '_diff'] = Spec(f[fn], td, tso + 'implicit_tracer_options', None, dict(geo, gls_model=turb), cl, implicit,
                                    tuple(flow) + ('elev_3d', 'uv_3d', 'diffusivity_h', 'diffusivity_v', 'viscosity_v', 'source',
                                                   'lax_friedrichs_tracer_scaling_factor'))
            if c['turb'] == 'adv':
                out[n + '_adv'] = Spec(f[fn], dict(
                    flow, elev_3d=[f['elev_domain_2d']], uv_3d=[f['uv_3d']], diffusivity_h=[], diffusivity_v=[], source=[],
                    lax_friedrichs_tracer_scaling_factor=[o('lax_friedrichs_tracer_scaling_factor')]),
                    tso + 'explicit_tracer_options', None,
                    dict(targ, sipg_factor='options.sipg_factor_turb', sipg_factor_vertical='options.sipg_factor_vertical_turb'),
                    'TracerEquation', explicit)
    return out


def explicit(cls):
    return not implicit(cls)


def implicit(cls):
    return any(n in ('DIRKGeneric', 'DIRKGenericUForm', 'CrankNicolson', 'CrankNicolsonUForm', 'SteadyState') for n in mro_names(cls))


CFG3 = []
for _impl, _turb in itertools.product((True, False), ('adv', 'diff', 'pp', None)):
    for _i, (_salt, _temp, _baro) in enumerate(((True, True, True), (True, False, False), (False, True, True), (False, False, False))):
        CFG3.append(dict(ts='SSPRK22' if _i % 2 else 'LeapFrog', impl=_impl, turb=_turb, salt=_salt, temp=_temp, baro=_baro, ale=_i < 2,
                         coef=_i in (0, 3), smag=_i in (0, 1), fric=_i != 2))


def label3(c):
    return '3D ' + ' '.join([c['ts']] + [k for k in ('salt', 'temp', 'baro', 'impl', 'ale', 'coef', 'smag', 'fric') if c[k]]
                            + (['turbulence ' + c['turb']] if c['turb'] else []))


def aux3(j, c):
    S, f = j.S, j.f
    turb = S.attrs.get('turbulence_model')
    if c['turb']:
        w = {'uv_field': f['uv_3d'], 'rho_field': f.get('density_3d'), 'eddy_diffusivity': f['eddy_diff_3d'],
             'eddy_viscosity': f['eddy_visc_3d'], 'n2': f['buoy_freq_3d'], 'm2': f['shear_freq_3d'], 'options': 'options.turbulence_model_options'}
        if c['turb'] != 'pp':
            w.update(k_field=f['tke_3d'], psi_field=f['psi_3d'], l_field=f['len_3d'], epsilon_field=f['eps_3d'])
        j.aux('turbulence model', turb, w)
    D = S.attrs['depth']
    j.aux('total depth', D, {'bathymetry_2d': f['bathymetry_2d'], 'use_nonlinear_equations': 'options.use_nonlinear_equations'})
    if c['coef']:
        for k, src in (('coriolis_3d', 'coriolis_frequency'), ('wind_stress_3d', 'wind_stress')):
            j.ob('coefficient source', k, k in f and agree(f[k], ['options.' + src]), j.where,
                 'the field %s is %s although options.%s is set' % (k, show(f.get(k)), src))


def _aux(self, name, o, want):
    if not isinstance(o, Ob):
        self.ob('auxiliary object', name, False, self.where, 'the %s is not created' % name)
        return
    args = o.meta.get('args') or {}
    for k, w in want.items():
        self.ob('auxiliary object', '%s.%s' % (name, k), val_ok(o.cls, args, k, [w]), self.locs.get(o.oid),
                'the %s is built with %s=%s; expected %s' % (name, k, show(args.get(k)), names_of([w])))


Judge.aux = _aux


# ---------------------------------------------------------------- 2D
TYPES = ('SSPRK33', 'ForwardEuler', 'SteadyState', 'BackwardEuler', 'DIRK22', 'DIRK33', 'CrankNicolson', 'PressureProjectionPicard', 'SSPIMEX')


def named(opt):
    want = 'IMEXLPUM2' if opt == 'SSPIMEX' else opt
    return lambda cls: cls.name == want or cls.name in (want + 'UForm', want + 'Abstract')


def run2(repo, c):
    p = {'options.tracer_picard_iterations': 1, 'options.swe_timestepper_type': c['swe'], 'options.tracer_timestepper_type': c['tt'],
         'options.nh_model_options.free_surface_timestepper_type': c['fst'],
         'options.sediment_model_options.sediment_timestepper_type': c['st'], 'options.sediment_model_options.exner_timestepper_type': c['et'],
         'options.tracer_fields': {t: None for t in c['tracers']}, 'options.nh_model_options.solve_nonhydrostatic_pressure': c['nh'],
         'options.sediment_model_options.solve_suspended_sediment': c['susp'], 'options.sediment_model_options.solve_exner': c['exner'],
         'options.log_output': False, 'options.no_exports': True, 'options.use_limiter_for_tracers': False, 'options.tracer_only': False,
         'options.nh_model_options.update_free_surface': True}

    if c['farms']:
        p['options.tidal_turbine_farms'] = {1: [Sy('farm_1'), Sy('farm_2')], 2: [Sy('farm_3')]}
        p['options.discrete_tidal_turbine_farms'] = {3: [Sy('site_1'), Sy('site_2')]}
    else:
        p['options.tidal_turbine_farms'] = {}
        p['options.discrete_tidal_turbine_farms'] = {}

    def pf():
        q = PolF(p)
        q.farms = c['farms']
        return q

    def body(it):
        S = make_solver(it, 'solver2d', 'FlowSolver2d')
        it.user['S'] = S
        a = S.attrs
        del a['equations']
        a['bathymetry_cg_2d'] = Sy('bath')
        a['keep_log'] = False
        a['_initialized'] = False
        a['fields'].attrs['bathymetry_2d'] = it.policy.function(it, 'bathymetry_2d')
        it.call(it.getattr(S, 'create_timestepper'), [], {})
        return S
    return list(explore(repo, pf, body, 256))


def specs2(S, c, facts):
    f = S.attrs['fields'].attrs
    o = lambda n: ['options.' + n]
    D = S.attrs['depth']
    out = {}
    u, e = f['uv_2d'], f['elev_2d']
    sw = {k: o(k) for k in ('linear_drag_coefficient', 'quadratic_drag_coefficient', 'manning_drag_coefficient', 'nikuradse_bed_roughness',
                            'lax_friedrichs_velocity_scaling_factor', 'wind_stress', 'atmospheric_pressure')}
    sw.update(viscosity_h=o('horizontal_viscosity'), coriolis=o('coriolis_frequency'), momentum_source=o('momentum_source_2d'),
              volume_source=o('volume_source_2d'))
    absent = ('bottom_drag', 'uv_bottom', 'eta', 'uv')
    out['sw'] = Spec(f['solution_2d'], sw, 'options.swe_timestepper_options', "bnd_functions['shallow_water']",
                     {'depth': D, 'options': 'options'}, 'ShallowWaterEquations', named(c['swe']), absent)
    for t in c['tracers']:
        F = {'elev_2d': [e], 'uv_2d': [u], 'lax_friedrichs_tracer_scaling_factor': o('lax_friedrichs_tracer_scaling_factor'),
             'tracer_advective_velocity_factor': o('tracer_advective_velocity_factor')}
        for l in t.split(','):
            F['diffusivity_h-' + l] = ["options.tracer['%s'].diffusivity" % l]
            F['source-' + l] = ["options.tracer['%s'].source" % l]
        b = None
        short = t[:-3]
        if facts.get("('%s' in bnd_functions)" % t):
            b = "bnd_functions['%s']" % t
        elif facts.get("('%s' in bnd_functions)" % short):
            b = "bnd_functions['%s']" % short
        out[t] = Spec(f[t], F, 'options.tracer_timestepper_options', b, {'system': [repr(t)], 'depth': D, 'options': 'options'},
                      'TracerEquation2D', named(c['tt']), ('uv_p1', 'uv_mag'))
    if c['susp']:
        out['sediment'] = Spec(f['sediment_2d'], {
            'elev_2d': [e], 'uv_2d': [u], 'diffusivity_h-sediment_2d': o('sediment_model_options.horizontal_diffusivity'),
            'lax_friedrichs_tracer_scaling_factor': o('lax_friedrichs_tracer_scaling_factor'),
            'tracer_advective_velocity_factor': [show(S.attrs['sediment_model']) + '.get_advective_velocity_correction_factor()']},
            'options.sediment_model_options.sediment_timestepper_options', "bnd_functions['sediment']",
            {'depth': D, 'options': 'options', 'sediment_model': S.attrs['sediment_model'],
             'conservative': o('sediment_model_options.use_sediment_conservative_form')}, 'SedimentEquation2D', named(c['st']),
            ('uv_p1', 'uv_mag', 'source-*'))
    if c['exner']:
        out['exner'] = Spec(f['bathymetry_2d'], {
            'elev_2d': [e], 'sediment': [f['sediment_2d']], 'morfac': o('sediment_model_options.morphological_acceleration_factor'),
            'porosity': o('sediment_model_options.porosity')},
            'options.sediment_model_options.exner_timestepper_options', "bnd_functions['shallow_water']",
            {'depth': D, 'sediment_model': S.attrs['sediment_model'],
             'depth_integrated_sediment': o('sediment_model_options.use_sediment_conservative_form')}, 'ExnerEquation', named(c['et']))
    if c['nh']:
        out['fs'] = Spec(f['elev_2d'], {'uv': [u], 'volume_source': o('volume_source_2d')}, 'options.nh_model_options.free_surface_timestepper_options',
                         "bnd_functions['shallow_water']", {'depth': D, 'options': 'options'}, 'FreeSurfaceEquation', named(c['fst']), tuple(sw) + absent)
    return out


CFG2 = []
for _t, _susp, _exner, _farms in ((('sand_2d', 'b_2d,c_2d'), True, True, True), (('sand_2d',), True, False, False), ((), False, True, False),
                                  (('b_2d,c_2d', 'd_2d'), False, False, False), ((), True, True, False), ((), False, False, True)):
    CFG2.append(dict(tracers=_t, susp=_susp, exner=_exner, nh=False, farms=_farms, swe='CrankNicolson', tt='DIRK22', st='BackwardEuler',
                     et='SSPRK33', fst='DIRK33'))
for _s in TYPES:
    CFG2.append(dict(tracers=(), susp=False, exner=False, nh=False, farms=False, swe=_s, tt='DIRK22', st='BackwardEuler', et='SSPRK33', fst='DIRK33'))
for _s in TYPES[:7]:
    CFG2.append(dict(tracers=('sand_2d',), susp=True, exner=True, nh=False, farms=False, swe='DIRK22', tt=_s, st='DIRK33', et='BackwardEuler', fst='DIRK33'))
CFG2.append(dict(tracers=(), susp=False, exner=False, nh=True, farms=False, swe='DIRK22', tt='DIRK22', st='BackwardEuler', et='SSPRK33', fst='DIRK22'))


def label2(c):
    s = ['2D', c['swe']] + list(c['tracers']) + (['(%s)' % c['tt']] if c['tracers'] else [])
    s += [k for k in ('susp', 'exner', 'nh', 'farms') if c[k]]
    return ' '.join(s)


def aux2(j, c):
    S, f = j.S, j.f
    D = S.attrs['depth']
    j.aux('total depth', D, {'bathymetry_2d': f['bathymetry_2d'], 'use_nonlinear_equations': 'options.use_nonlinear_equations',
                             'use_wetting_and_drying': 'options.use_wetting_and_drying',
                             'wetting_and_drying_alpha': 'options.wetting_and_drying_alpha'})
    if c['nh']:
        j.aux('pressure solver', S.attrs.get('poisson_solver'), {'q_2d': f['q_2d'], 'uv_2d': f['uv_2d'], 'w_2d': f['w_2d'], 'elev_2d': f['elev_2d'],
                                                                 'depth': D, 'dt': 'dt', 'bnd_functions': 'bnd_functions'})
    for eq in (S.attrs['equations'].attrs.get('sw'), S.attrs['equations'].attrs.get('mom')):
        if isinstance(eq, Ob):
            got = eq.meta['args'].get('tidal_farms')
            if c['farms']:
                made = [e.args[0] for e in j.p.events if e.kind == 'new' and isinstance(e.args[0], Ob) and 'TidalTurbineFarm' in e.args[0].cls.name]
                ok = isinstance(got, list) and {x.oid for x in got} == {x.oid for x in made} and \
                    {'TidalTurbineFarm', 'DiscreteTidalTurbineFarm'} == {x.cls.name for x in made}
                sites = sorted(((show(x.meta['args'].get('options')), show(x.meta['args'].get('dx')), x.meta['args'].get('turbine_density'), x) for x in made), key=lambda t: t[:2])
                want = [('farm_1', 1), ('farm_2', 1), ('farm_3', 2), ('site_1', 3), ('site_2', 3)]
                bad = None if [x[0] for x in sites] == [x[0] for x in want] else 'farms made from %s' % [x[0] for x in sites]
                for (o, m, d, x), (_, sub) in zip(sites, want) if not bad else ():
                    if not (m.startswith('dx(%d,' % sub) or m.startswith('dx(%d)' % sub) or 'subdomain_id=%d' % sub in m):
                        bad = 'farm %s of subdomain %d is integrated with %s' % (o, sub, m)
                    elif o.startswith('farm') and (show(d) != o + '.turbine_density' or x.cls.name != 'TidalTurbineFarm'):
                        bad = 'farm %s: %s with density %s' % (o, x.cls.name, show(d))
                    elif o.startswith('site') and (x.cls.name != 'DiscreteTidalTurbineFarm' or show(x.meta['args'].get('mesh')) != 'mesh2d'):
                        bad = 'site %s: %s' % (o, x.cls.name)
                j.ob('turbine farms built from their own options and subdomain', 'all farms', bad is None, j.locs.get(eq.oid), bad or '')
            else:
                ok = not got
            j.ob('turbine farms reach the momentum equation', eq.cls.name, ok, j.locs.get(eq.oid),
                 'the farms of the options are not the ones passed to %s: %s' % (eq.cls.name, show(got)))
    if 'mom' in S.attrs['equations'].attrs:
        for t in j.steppers():
            a = t.meta['args']
            w = [v for k, v in a.items() if isinstance(v, Ob) and v is S.attrs['equations'].attrs['mom']]
            j.ob('momentum equation of the projection scheme', t.cls.name, len(w) == 1, j.locs.get(t.oid), 'the projection stepper does not get the momentum equation')


@prop('B05', 'provenance of every argument of every equation and time stepper', 60, TECH)
def b05(ctx):
    repo = get_repo()
    for cfgs, run, specs, lab, aux in ((CFG3, run3, specs3, label3, aux3), (CFG2, run2, specs2, label2, aux2)):
        for c in cfgs:
            con = lab(c)
            try:
                ps = run(repo, c)
            except AnalysisError as e:
                ctx.ob('construction', con, None, msg=str(e))
                continue
            for p in ps:
                if p.outcome == 'raise':
                    bad = p.value.exc
                    if bad == 'NotImplementedError' and c.get('exner'):
                        continue    # only continuous beds are supported
                    ctx.ob('construction', con, False, p.value.loc, 'building the time stepper raises %s [%s]' % (bad, p.guards()[-300:]))
                    continue
                if p.outcome != 'return':
                    continue
                for e in p.events:
                    if e.kind == 'enter' and isinstance(e.fn, str):
                        ctx.funcs.add(e.fn)
                j = Judge(ctx, repo, p, con)
                facts = {show(k): v for k, v, _ in p.factlog}
                j.run(specs(p.value, c, facts) if specs is specs2 else specs(p.value, c))
                aux(j, c)
