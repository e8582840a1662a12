"""B06, B07: coupled 2D-3D time integrators."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, key, show, explore
from sa.lin import Lin, num
from sa.repo import AnalysisError
from sa.sysim import make_solver, is_fn, bind_method, mro_names
from sa.sim3d import Pol3, A, fz, sh, dav, norm, objs, D2, D3
from sa.formdb import repo as get_repo

PINS = {'options.coriolis_frequency': None, 'options.wind_stress': None, 'options.log_output': False, 'options.no_exports': True,
        'options.element_family': 'dg-dg', 'options.use_quadratic_pressure': False, 'options.use_quadratic_density': False,
        'options.momentum_source_2d': None, 'options.equation_of_state_type': 'linear', 'options.turbulence_model_type': 'gls',
        'options.horizontal_viscosity': None, 'options.vertical_viscosity': None, 'options.horizontal_diffusivity': None,
        'options.vertical_diffusivity': None, 'options.use_bottom_friction': True}


class Run:
    pass


def run(repo, ts, salt, temp, turb, impl, ale, baro, lim, smag=True, forced=True):
    pins = dict(PINS)
    pins.update({'options.timestepper_type': ts, 'options.solve_salinity': salt, 'options.solve_temperature': temp,
                 'options.use_turbulence': turb is not None, 'options.use_turbulence_advection': turb == 'adv',
                 'options.use_implicit_vertical_diffusion': impl, 'options.use_ale_moving_mesh': ale,
                 'options.use_baroclinic_formulation': baro, 'options.use_limiter_for_tracers': lim,
                 'options.use_limiter_for_velocity': lim, 'options.use_smagorinsky_viscosity': smag})

    def body(it):
        pol = it.policy
        S = make_solver(it, 'solver', 'FlowSolver')
        a = S.attrs
        del a['equations']
        a['mesh'] = Sy('mesh')
        a['U_2d'] = Sy('U_2d')
        a['bathymetry_cg_2d'] = Sy('bath')
        a['dt_2d'] = a['dt']
        a['simulation_time'] = Sy('t0')
        a['keep_log'] = False
        a['_initialized'] = False
        it.call(it.getattr(S, 'create_timestepper'), [], {})
        f = a['fields'].attrs
        T = a['timestepper']
        it.user['log'] = []
        # the state between two steps
        E0 = A('E0', 2)
        pol.put_content(it, f['bathymetry_2d'], A('bath', 2))
        pol.put_content(it, f['z_coord_ref_3d'], A('zref'))
        z = A('zref')
        for k in ('elev_2d', 'elev_domain_2d'):
            pol.put_content(it, f[k], E0)
        if ale:
            pol.put_content(it, f['elev_cg_2d'], E0)
            z = A('zref') + norm(A('zref') * A('E0') * A('inv:bath')) + E0
        else:
            pol.put_content(it, f['elev_cg_2d'], Lin())
        it.user['mesh'] = z
        pol.put_content(it, f['z_coord_3d'], z)
        pol.put_content(it, f['v_elem_size_3d'], A('height(%s)' % fz(z), 3))
        pol.put_content(it, f['uv_2d'], A('U0', 2))
        pol.put_content(it, f['uv_dav_3d'], A('U0', 2))
        pol.put_content(it, f['uv_3d'], A('u0', 3))
        for k in ('salt_3d', 'temp_3d', 'tke_3d', 'psi_3d'):
            if k in f:
                pol.put_content(it, f[k], A(k + '0', 3))
        expected(it, S, write=True)
        r = Run()
        r.S, r.T = S, T
        r.init = []
        it.call(it.getattr(T, 'initialize'), [], {})
        r.init, it.user['log'] = it.user['log'], []
        a['dt'] = a['dt_2d'] = Sy('dtn')
        it.call(it.getattr(T, 'set_dt'), [Sy('dtn'), Sy('dtn')], {})
        r.setdt, it.user['log'] = it.user['log'], []
        r.start = snap(it)
        it.call(it.getattr(T, 'advance'), [Sy('t')], {'update_forcings': Sy('forcing2d'), 'update_forcings3d': Sy('forcing3d')})
        r.log = it.user['log']
        r.end = snap(it)
        r.want_end = expected(it, S)
        r.it = it
        return r
    return list(explore(repo, lambda: Pol3(pins), body, 64))


def snap(it):
    s = dict(it.user['c'])
    s['mesh'] = it.policy.mesh(it)
    return s


def expected(it, S, write=False):
    """diagnostic fields recomputed from the present prognostic fields and mesh: name -> content"""
    pol = it.policy
    f = S.attrs['fields'].attrs
    out = {}
    save, mesh, log = dict(it.user['c']), it.user.get('mesh'), list(it.user.get('log', []))
    mz = fz(pol.mesh(it))
    c = lambda n: pol.cont(it, f[n])

    def put(n, v):
        if n in f:
            pol.put_content(it, f[n], v)
            out[n] = v
    put('w_3d', A('w(%s; %s)' % (fz(c('uv_3d') + c('uv_dav_3d')), mz), 3))
    if 'density_3d' in f:
        s = c('salt_3d') if 'salt_3d' in f else A('options.constant_salinity')
        t = c('temp_3d') if 'temp_3d' in f else A('options.constant_temperature')
        put('density_3d', A('rho(%s; %s)' % (fz(s), fz(t)), 3))
        # integral from the surface downwards, head positive for light water below
        put('baroc_head_3d', norm(A('vint(%s; %s; %s)' % (fz(c('density_3d')), False, mz), 3) * A('inv:rho0')).scale(-1))
        put('int_pg_3d', A('pg(%s; %s)' % (fz(c('baroc_head_3d')), mz), 3))
    if not write:
        it.user['c'], it.user['mesh'], it.user['log'] = save, mesh, log
    return out


EPS = Fraction(1, 10**9)


def zero(p):
    return all(abs(c) < EPS for c in p.values())


def close(p, q):
    return zero(p - q)


def zof(e):
    """height of the mesh points for elevation e"""
    return norm(A('zref') + norm(A('zref') * e * A('inv:bath')) + e)


class Judge:
    def __init__(self, ctx, r, con, g, cfg):
        self.ctx, self.r, self.con, self.g, self.cfg = ctx, r, con, g, cfg
        self.f = r.S.attrs['fields'].attrs
        self.it = r.it
        self.cls = r.T.cls.name
        self.lf = 'LeapFrog' in self.cls
        self.dt = A('dtn')
        self.log = r.log
        subs = self.f['solution_2d'].meta['subs']
        self.uv2, self.e2 = subs
        # numbering of the 2D states of this step
        self.pairs = {('U0',): ('E0',)}
        for x in self.log:
            if x.kind == 'step' and x.sol is self.f['solution_2d']:
                (m1,), (m2,) = list(x.new[0]), list(x.new[1])
                self.pairs[m1] = m2

    def c(self, x, name):
        s = x if isinstance(x, dict) else x.snap
        return s.get(self.f[name].oid)

    def ob(self, rule, what, ok, loc, msg):
        self.ctx.ob(rule, self.con + ': ' + what, ok, loc, msg)

    def steps(self, field):
        return [x for x in self.log if x.kind == 'step' and x.sol is self.f.get(field)]

    def solves(self, field):
        return [x for x in self.log if x.kind == 'solve' and x.sol is self.f.get(field)]

    def explicit(self):
        out = ['uv_3d']
        if self.cfg['salt']:
            out.append('salt_3d')
        if self.cfg['temp']:
            out.append('temp_3d')
        if self.cfg['turb'] == 'adv':
            out += ['tke_3d', 'psi_3d']
        return out

    def expl_state(self, upto=None):
        """content of uv_3d after the latest explicit solve (and limiter) before entry `upto`"""
        v = None
        for x in self.log:
            if x is upto:
                break
            if x.kind in ('solve', 'limit') and x.sol is self.f['uv_3d']:
                v = x.new
        return v

    def want(self, x):
        """diagnostics recomputed from the contents at a log entry"""
        u = self.it.user
        c, m = u['c'], u.get('mesh')
        u['c'] = dict(x if isinstance(x, dict) else x.snap)
        u['mesh'] = x['mesh'] if isinstance(x, dict) else x.mesh
        try:
            return expected(self.it, self.r.S)
        finally:
            u['c'], u['mesh'] = c, m

    # ------------------------------------------------------------ B06
    def order(self):
        r = self.r
        self.init_rules()
        self.mode2d()
        self.rhs_rules()
        self.solve_rules()
        self.implicit_rules()
        self.limiter_rules()
        self.turbulence_rules()
        self.end_rules()

    def init_rules(self):
        for n, o in self.r.T.attrs['timesteppers'].attrs.items():
            if not (isinstance(o, Ob) and o.meta.get('stub')):
                continue
            sol = (o.meta.get('args') or {}).get('solution')
            es = [x for x in self.r.init if x.kind == 'initialize' and x.ts is o]
            a = [v for x in es for v in list(x.args) + list(x.kw.values())]
            self.ob('initialized with its field', n, len(es) >= 1 and all(v is sol for v in a) and len(a) == len(es), es[0].loc if es else self.where(),
                    'the integrator %s of field %s is initialized with %s' % (n, show(sol), [show(v) for v in a]))
            es = [x for x in self.r.setdt if x.kind == 'set_dt' and x.ts is o]
            ok = bool(es) and all(show((x.args + list(x.kw.values()))[0]) == 'dtn' for x in es)
            self.ob('receives the time step', n, ok, es[0].loc if es else self.where(), 'set_dt does not reach the integrator %s' % n)

    def where(self):
        return 'thetis/coupled_timeintegrator.py'

    def mode2d(self):
        es = self.steps('solution_2d')
        whole = [x.method for x in es] == ['advance']
        idx = []
        for x in es:
            a = bind_method(x.func, x.args, x.kw)
            t, fo = a.get('t'), a.get('update_forcings')
            self.ob('2D mode gets time and forcing', x.method, show(t) == 't' and show(fo) == 'forcing2d', x.loc,
                    'the 2D mode is advanced with t=%s, update_forcings=%s' % (show(t), show(fo)))
            if x.method == 'solve_stage':
                idx.append(a.get('i_stage'))
        n = self.r.T.attrs.get('n_stages')
        self.ob('2D mode advanced once per step', 'stages', whole or idx == list(range(n)), es[0].loc if es else self.where(),
                'the 2D mode runs %s %s in one step' % ([x.method for x in es], idx))
        for k, x in enumerate(es):
            a = self.expl_state(x)
            if a is None:
                continue
            self.split(x, a, 'before 2D solve %d' % k, x.loc)
            d = dav(self.c(x, 'uv_3d'))
            self.ob('3D velocity has no depth average', 'at 2D solve %d' % k, zero(d), x.loc,
                    'at the 2D solve the depth average of uv_3d is %s instead of zero' % sh(d))
        for x in self.log:
            if x.kind == 'average' and not zero(dav(x.src)):
                want = zof(x.elev) if self.cfg['ale'] else A('zref')
                ok = close(want, x.mesh) and (self.cfg['ale'] or zero(x.elev))
                self.ob('depth average over the present mesh', 'line', ok, x.loc,
                        'the depth average divides by the depth for elevation %s but the mesh is at %s' % (sh(x.elev), sh(x.mesh)))

    def split(self, x, a, what, loc):
        d = norm(self.c(x, 'split_residual_2d') * self.dt)
        self.ob('removed depth average drives the 2D mode', what, close(d, dav(a)), loc,
                'dt * split_residual_2d is %s; the depth average removed from the 3D velocity is %s' % (sh(d), sh(dav(a))))

    def rhs_rules(self):
        seen, level = {}, {}
        for x in self.log:
            if x.kind == 'rhs':
                k = seen[x.sol.oid] = seen.get(x.sol.oid, -1) + 1
                level.setdefault(k, {})[x.sol.oid] = x.snap.get(x.sol.oid)
        seen = {}
        for x in self.log:
            if x.kind != 'rhs':
                continue
            k = seen[x.sol.oid] = seen.get(x.sol.oid, -1) + 1
            nm = '%s evaluation %d' % (x.sol.name, k)
            # prognostic fields of this time level (other fields may already have been advanced)
            w = self.want(dict(x.snap, mesh=x.mesh, **{}) | level[k])
            for fn, v in w.items():
                if fn == 'w_3d' or (fn == 'int_pg_3d' and x.sol.name == 'uv_3d'):
                    self.ob('diagnostics are current', nm + ' ' + fn, close(self.c(x, fn), v), x.loc,
                            '%s used by the tendency of %s does not correspond to the present fields and mesh: it was computed as %s, '
                            'the present state gives %s' % (fn, x.sol.name, sh(self.c(x, fn)), sh(v)))
            # elevation and depth averaged velocity seen by the 3D mode
            ud, ed = self.c(x, 'uv_dav_3d'), self.c(x, 'elev_domain_2d')
            ws = {}
            ok = True
            for m, cf in ud.items():
                if m not in self.pairs:
                    ok = False
                    continue
                ws[self.pairs[m]] = cf
            exp = Lin(ws)
            self.ob('elevation and depth averaged velocity agree', nm, ok and close(exp, ed) and abs(sum(ud.values()) - 1) < EPS, x.loc,
                    'the tendency of %s sees depth averaged velocity %s and elevation %s' % (x.sol.name, sh(ud), sh(ed)))
            first = {('U0',): Fraction(1)}
            if k == 0:
                self.ob('first tendency at the start of the step', nm, close(ud, Lin(first)), x.loc,
                        'the first tendency of %s uses depth averaged velocity %s' % (x.sol.name, sh(ud)))
            elif not self.lf:
                last = list(self.pairs)[k]
                self.ob('second tendency at the first stage', nm, close(ud, Lin({last: Fraction(1)})), x.loc,
                        'the tendency %d of %s uses depth averaged velocity %s' % (k, x.sol.name, sh(ud)))
            else:
                self.ob('second tendency between the levels', nm, all(v > 0 for v in ud.values()) and len(ud) == 2, x.loc,
                        'the corrector tendency of %s uses depth averaged velocity %s' % (x.sol.name, sh(ud)))
            if self.cfg['ale']:
                self.ob('element sizes follow the mesh', nm, close(self.c(x, 'v_elem_size_3d'), A('height(%s)' % fz(x.mesh), 3)), x.loc,
                        'the vertical element size is not that of the present mesh')
            # forcing
            t = None
            for y in self.log:
                if y is x:
                    break
                if y.kind == 'forcing' and y.which == 'forcing3d':
                    t = y.t
            th = Fraction(0) if k == 0 else (Fraction(1, 2) if self.lf else Fraction(1))
            want = A('t') + self.dt.scale(th)
            got = self.it.policy.value(self.it, t) if t is not None else None
            self.ob('3D forcing at the time of the tendency', nm, got is not None and close(got, want), x.loc,
                    'the tendency of %s is evaluated with 3D forcings %s; expected an update to %s' % (
                        x.sol.name, 'never updated' if got is None else 'of time ' + sh(got), sh(want)))

    def solve_rules(self):
        for fn in self.explicit():
            es = self.solves(fn)
            self.ob('advanced explicitly once per step', fn, len(es) == 2, es[0].loc if es else self.where(),
                    'the explicit %s equation is solved %d times in one step' % (fn, len(es)))

    def implicit_rules(self):
        if not self.cfg['impl']:
            return
        want = ['uv_3d'] + (['salt_3d'] if self.cfg['salt'] else []) + (['temp_3d'] if self.cfg['temp'] else []) + (
            ['tke_3d', 'psi_3d'] if self.cfg['turb'] else [])
        for fn in want:
            es = self.steps(fn)
            t = [show(bind_method(x.func, x.args, x.kw).get('t')) for x in es]
            self.ob('vertical diffusion once per step', fn, t == ['t'], es[0].loc if es else self.where(),
                    'the implicit vertical diffusion of %s is advanced with times %s' % (fn, t))
            last = [x for x in self.log if x.kind in ('solve', 'step', 'limit') and x.sol is self.f[fn]]
            self.ob('vertical diffusion follows the explicit update', fn, bool(last) and last[-1].kind == 'step', self.where(),
                    'the implicit vertical diffusion of %s is not the last update of the step' % fn)
        es = self.steps('uv_3d')
        if es:
            x = es[0]
            a = self.expl_state(x)
            full = a - dav(a) + self.c(x, 'uv_2d') if a is not None else None
            got = self.c(x, 'uv_3d')
            self.ob('vertical viscosity acts on the full velocity', 'uv_3d', full is not None and close(got, full), x.loc,
                    'the implicit momentum solve starts from %s instead of deviation plus depth averaged velocity %s' % (sh(got), sh(full or Lin())))
            end = self.c(self.r.end, 'uv_3d')
            wantend = x.new[0] - self.c(self.r.end, 'uv_2d')
            self.ob('depth averaged velocity removed again', 'uv_3d', close(end, wantend), x.loc,
                    'after the implicit solve uv_3d is %s instead of %s' % (sh(end), sh(wantend)))

    def limiter_rules(self):
        for i, x in enumerate(self.log):
            if x.kind != 'solve' or x.sol is not self.f.get(x.sol.name):
                continue
            n = x.sol.name
            if n in ('tke_3d', 'psi_3d'):
                continue
            hit = False
            for y in self.log[i + 1:]:
                if y.kind == 'limit' and y.sol is x.sol:
                    hit = True
                    break
                if y.kind in ('rhs', 'solve', 'step') and y.sol is x.sol:
                    break
                if y.kind == 'op':
                    used = [o for v in (y.op.meta.get('args') or {}).values() for o in objs(v)]
                    if x.sol in used:
                        break
            self.ob('limiter after every explicit update', n, hit == self.cfg['lim'], x.loc,
                    'the limiter is %sapplied to %s before the updated field is used although limiting is %s' % (
                        '' if hit else 'not ', n, 'on' if self.cfg['lim'] else 'off'))

    def turbulence_rules(self):
        if not (self.cfg['turb'] and self.cfg['impl']):
            return
        seq = []
        for x in self.log:
            if x.kind == 'turb' and x.method in ('preprocess', 'postprocess'):
                seq.append(x.method)
            if x.kind == 'step' and x.sol in (self.f.get('psi_3d'), self.f.get('tke_3d')):
                seq.append(x.sol.name)
        self.ob('turbulence update order', 'turbulence', seq == ['preprocess', 'psi_3d', 'tke_3d', 'postprocess'], self.where(),
                'turbulence is updated in the order %s; documented: preprocess, psi, tke, postprocess' % seq)

    def end_rules(self):
        e = self.r.end
        uv, el = e[self.uv2.oid], e[self.e2.oid]
        loc = self.where()
        last = list(self.pairs)[-1]
        self.ob('2D solution is the last 2D solve', 'end', close(uv, Lin({last: Fraction(1)})), loc,
                'at the end of the step uv_2d is %s' % sh(uv))
        self.ob('depth averaged velocity copied to 3D', 'end', close(self.c(e, 'uv_dav_3d'), uv), loc,
                'at the end of the step uv_dav_3d is %s, uv_2d is %s' % (sh(self.c(e, 'uv_dav_3d')), sh(uv)))
        self.ob('elevation copied to 3D', 'end', close(self.c(e, 'elev_domain_2d'), el), loc,
                'at the end of the step elev_domain_2d is %s, elev_2d is %s' % (sh(self.c(e, 'elev_domain_2d')), sh(el)))
        for fn, v in self.want(e).items():
            if fn in ('w_3d', 'int_pg_3d', 'density_3d', 'baroc_head_3d'):
                self.ob('diagnostics are current', 'end ' + fn, close(self.c(e, fn), v), loc,
                        'at the end of the step %s was computed as %s, the present state gives %s' % (fn, sh(self.c(e, fn)), sh(v)))
        a = self.expl_state()
        if a is not None:
            self.split(e, a, 'end', loc)
        if 'smag_visc_3d' in self.f:
            o = self.r.S.attrs['smagorinsky_diff_solver']
            self.it.user['c'] = dict(e)
            v = A('smag(%s)' % fz(self.it.policy.value(self.it, o.meta['args']['uv'])), 3)
            self.ob('eddy viscosity is current', 'end', close(self.c(e, 'smag_visc_3d'), v), loc,
                    'the Smagorinsky viscosity does not correspond to the velocity at the end of the step')

    # ------------------------------------------------------------ B07
    def ale(self):
        e = self.r.end
        el = e[self.e2.oid]
        zr = zof(el) if self.cfg['ale'] else A('zref')
        self.ob('mesh follows the elevation', 'end', close(e['mesh'], zr), 'thetis/utility3d.py',
                'at the end of the step the mesh points are at %s, the elevation field requires %s' % (sh(e['mesh']), sh(zr)))
        if self.cfg['ale']:
            self.ob('mesh coordinates are stored', 'end', close(self.c(e, 'z_coord_3d'), e['mesh']), 'thetis/utility3d.py',
                    'z_coord_3d differs from the mesh coordinates')
        mass = self.it.user.get('mass', {})
        F = self.it.user.get('F', {})
        start_mesh = self.r.start['mesh']
        for fn in self.explicit():
            es = self.solves(fn)
            for i, x in enumerate(es):
                nm = '%s solve %d' % (fn, i)
                ms, fs, rest = [], [], []
                for m, cf in x.rhs.items():
                    am = [k for k in m if k in mass]
                    af = [k for k in m if k in F]
                    o = tuple(k for k in m if k not in am + af)
                    if len(am) == 1 and not af:
                        ms.append((Lin({o: cf}), am[0]))
                    elif len(af) == 1 and not am:
                        fs.append((Lin({o: cf}), af[0]))
                    else:
                        rest.append(m)
                tot = Lin()
                for cf, _ in ms:
                    tot = tot + cf
                self.ob('previous mass is carried', nm, not rest and close(tot, num(1)), x.loc,
                        'the update of %s weights the mass of earlier states with %s; their sum must be 1' % (fn, sh(tot)))
                self.ob('mass matrix of the present mesh', nm, x.matrix is not None and close(x.matrix, x.mesh), x.loc,
                        'the system for %s is solved with the mass matrix of mesh %s while the mesh is %s' % (fn, sh(x.matrix or Lin()), sh(x.mesh)))
                bad = [n for cf, n in fs if F[n].sol is not x.sol]
                self.ob('tendency of the same equation', nm, not bad, x.loc, 'the update of %s uses a tendency of another equation' % fn)
                # geometric conservation
                z = Lin()
                for cf, n in ms:
                    z = z + norm(cf * mass[n][1])
                step = Lin()
                for cf, n in fs:
                    step = step + cf
                    if self.cfg['ale']:
                        z = z + norm(cf * F[n].snap.get(self.f['w_mesh_3d'].oid, Lin()))
                z = norm(z)
                self.ob('mesh velocity moves the mesh to its new position', nm, close(z, x.mesh), x.loc,
                        'integrating the mesh velocity used by the tendencies of %s moves the mesh to %s, but the new mesh is %s: '
                        'a uniform field is not preserved' % (fn, sh(z), sh(x.mesh)))
                if i == len(es) - 1:
                    st = self.c(self.r.start, fn)
                    ok = bool(ms) and all(close(norm(A(mass[n][0])), st) and close(mass[n][1], start_mesh) for cf, n in ms)
                    self.ob('update starts from the old state', nm, ok, x.loc,
                            'the last update of %s starts from %s instead of the field at the beginning of the step on the old mesh' % (
                                fn, sh(x.rhs)))
                    self.ob('tendencies add up to one time step', nm, close(step, self.dt), x.loc,
                            'the tendencies of %s are weighted with %s in total instead of dt' % (fn, sh(step)))


CFG = []
for _ts, _ale, _impl, _baro in itertools.product(('SSPRK22', 'LeapFrog'), (True, False), (True, False), (True, False)):
    for _salt, _temp, _turb, _lim in ((True, True, None, True), (True, False, None, False), (False, True, None, True), (False, False, None, False),
                                      (True, True, 'adv', True), (True, False, 'diff', False)):
        CFG.append(dict(ts=_ts, ale=_ale, impl=_impl, baro=_baro, salt=_salt, temp=_temp, turb=_turb, lim=_lim))

TECH6 = ('abstract execution of solver construction and one coupled step with symbolic field contents (2D solves, explicit stages, limiters and operators '
         'as content transformers); coupling invariants are equalities of contents, for every combination of active equations')
TECH7 = ('abstract execution of one coupled step with the stage solvers, assembled forms and mesh kernels interpreted symbolically; conservation and '
         'geometric conservation decided by exact polynomial identity')


def traces(ctx):
    repo = get_repo()
    for cfg in CFG:
        con = label(cfg)
        try:
            ps = run(repo, smag=cfg['baro'], **cfg)
        except AnalysisError as e:
            ctx.ob('coupled step', con, None, msg=str(e))
            continue
        for p in ps:
            g = p.guards()
            if p.outcome == 'raise':
                ctx.ob('coupled step runs', con, False, p.value.loc, 'building or advancing the coupled integrator raises %s' % p.value.exc)
                continue
            if p.outcome != 'return':
                continue
            for e in p.events:
                if e.kind == 'enter' and isinstance(e.fn, str):
                    ctx.funcs.add(e.fn)
            yield Judge(ctx, p.value, con, g, cfg)


def label(c):
    s = [c['ts']]
    for k in ('salt', 'temp', 'ale', 'impl', 'baro', 'lim'):
        if c[k]:
            s.append(k)
    if c['turb']:
        s.append('turbulence' + ('+advection' if c['turb'] == 'adv' else ''))
    return ' '.join(s)


@prop('B06', 'coupling invariants on every step of both coupled 2D-3D integrators', 60, TECH6)
def b06(ctx):
    for j in traces(ctx):
        j.order()


@prop('B07', 'conservation and geometric conservation of the explicit 3D updates on the moving mesh', 60, TECH7)
def b07(ctx):
    for j in traces(ctx):
        j.ale()
