"""B04: coupled 2D time integrators."""
import ast
import itertools
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Cv, key, show, explore, is_call, call_parts
from sa.repo import Repo, AnalysisError, ClassInfo
from sa.sysim import SysPolicy, make_solver, is_fn, bind_method
from sa.formdb import repo as get_repo

TECH = ('abstract execution of the solver\'s time stepper construction and of initialize/set_dt/advance of the coupled integrators over '
        'every combination of active equations; order and argument rules on the event trace')


class Pol(SysPolicy):
    concrete = ('CoupledTimeIntegrator2D',)
    n_stages = 3
    skip_methods = ('compute_mesh_stats', 'set_time_step')

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.meta.get('ts') and name in ('n_stages',) and sets_attr(base.cls, name):
            return self.n_stages
        if isinstance(base, Ob) and base.meta.get('ts') and name in ('erk', 'dirk', 'solution_old') and sets_attr(base.cls, name):
            k = '.' + name
            if k not in base.meta:
                if name == 'solution_old':
                    base.meta[k] = self.function(it, base.name + '.solution_old')
                else:
                    o = it.obj(it.repo.cls('rungekutta', 'ERKGeneric'), base.name + '.' + name)
                    o.meta.update(stub=True, ts=True, part=True)
                    base.meta[k] = o
            return base.meta[k]
        return super().attr(it, base, name, node)

    def stub_hasattr(self, it, o, a):
        return sets_attr(o.cls, a)

    def effect(self, it, o, func, args, kwargs, node):
        """advancing or solving a stage changes the solution of the stepper"""
        a = o.meta.get('args') or {}
        if o.meta.get('ts') and func.name in ('advance', 'solve_stage', 'advance_picard'):
            s = a.get('solution')
            if is_fn(s):
                self.wrote(it, s, 'step', o, node)


_sets = {}


def sets_attr(cls, name):
    """does the class (or a base) define self.<name>?"""
    k = (cls.qualname, name)
    if k not in _sets:
        r = bool(cls.find_method(name) or cls.find_attr(name))
        if not r:
            for c in [c for c in cls.mro() if isinstance(c, ClassInfo)]:
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) \
                            and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        r = True
        _sets[k] = r
    return _sets[k]


CONFIGS = []
for tr, susp, exner in itertools.product((('a',), ('a', 'b'), ()), (True, False), (True, False)):
    CONFIGS.append((tr, susp, exner))


def build(it, tr, susp, exner, nh=False):
    pol = it.policy
    S = make_solver(it, 'solver2d', 'FlowSolver2d')
    A = S.attrs
    A['solve_tracer'] = bool(tr)
    A['sediment_model'] = Sy('sediment_model') if (susp or exner) else None
    A['tidal_farms'] = None
    A['tracer_limiter'] = Sy('tracer_limiter')
    f = A['fields']
    sol = pol.function(it, 'solution_2d')
    f.attrs['solution_2d'] = sol
    uv, elev = it.getattr(sol, 'subfunctions')
    uv.name, elev.name = 'uv_2d', 'elev_2d'
    f.attrs['uv_2d'], f.attrs['elev_2d'] = uv, elev
    f.attrs['bathymetry_2d'] = pol.function(it, 'bathymetry_2d')
    for t in tr:
        f.attrs[t] = pol.function(it, t)
    if susp:
        f.attrs['sediment_2d'] = pol.function(it, 'sediment_2d')
    if nh:
        f.attrs['q_2d'] = pol.function(it, 'q_2d')
        f.attrs['w_2d'] = pol.function(it, 'w_2d')
    eqs = ['sw'] + list(tr) + (['sediment'] if susp else []) + (['exner'] if exner else []) + (['fs'] if nh else [])
    for e in eqs:
        A['equations'].attrs[e] = Sy('equation:' + e)
    return S


def pins(tr, susp, exner, nh=False, swe='CrankNicolson', fs='CrankNicolson', picard=1, **extra):
    p = {'options.tracer_picard_iterations': picard,
         'options.swe_timestepper_type': swe, 'options.tracer_timestepper_type': 'CrankNicolson',
         'options.nh_model_options.free_surface_timestepper_type': fs,
         'options.sediment_model_options.sediment_timestepper_type': 'CrankNicolson',
         'options.sediment_model_options.exner_timestepper_type': 'CrankNicolson',
         'options.tracer_fields': {t: None for t in tr},
         'options.nh_model_options.solve_nonhydrostatic_pressure': nh,
         'options.sediment_model_options.solve_suspended_sediment': susp,
         'options.sediment_model_options.solve_exner': exner,
         '(sediment_model is None)': False, 'sediment_model': True}
    if susp or exner:
        p['options.tracer_only'] = False
    if nh:
        p['options.tracer_only'] = False
    p.update(extra)
    return p


class Run:
    pass


def run(repo, tr, susp, exner, nh=False, **kw):
    def body(it):
        S = build(it, tr, susp, exner, nh)
        it.user['S'] = S
        it.call(it.getattr(S, 'create_timestepper'), [], {})
        T = S.attrs['timestepper']
        marks = [len(it.events)]
        it.call(it.getattr(T, 'initialize'), [S.attrs['fields'].attrs['solution_2d']], {})
        marks.append(len(it.events))
        it.call(it.getattr(T, 'set_dt'), [Sy('dt_new')], {})
        marks.append(len(it.events))
        it.call(it.getattr(T, 'advance'), [Sy('t')], {'update_forcings': Sy('forcing')})
        marks.append(len(it.events))
        r = Run()
        r.S, r.T, r.marks = S, T, marks
        return r

    def pf():
        p = Pol(pins(tr, susp, exner, nh, **kw))
        return p
    return list(explore(repo, pf, body, 512))


def seg(p, r, i):
    return p.events[([0] + r.marks)[i]:r.marks[i]]


def label(tr, susp, exner, nh=False):
    s = [('%d tracer%s' % (len(tr), 's' if len(tr) > 1 else ''))] if tr else []
    if susp:
        s.append('suspended sediment')
    if exner:
        s.append('exner')
    if nh:
        s.append('non-hydrostatic')
    return '+'.join(s) or 'shallow water only'


def guard(p, names):
    for c, v, _ in p.factlog:
        if any(show(c) == n or show(c).endswith('.' + n) for n in names):
            return v
    return None


def steppers(p):
    return [e.args[0] for e in p.events if e.kind == 'new' and isinstance(e.args[0], Ob) and e.args[0].meta.get('ts')]


def methods(evs, name=None):
    return [e for e in evs if e.kind == 'do' and (name is None or e.fn == name) and isinstance(e.args[0], Ob)]


def margs(e, name):
    m = e.args[0].cls.find_method(e.fn)
    return bind_method(m, e.args[1:], e.kwargs) if m else dict(e.kwargs)


def same(a, b):
    return key(a) == key(b)


def solution(ts):
    return (ts.meta.get('args') or {}).get('solution')


def eqname(ts):
    e = (ts.meta.get('args') or {}).get('equation')
    return e.name.split(':')[-1] if isinstance(e, Sy) else show(e)


def picard_on(p):
    for c, v, _ in p.factlog:
        s = show(c)
        if 'tracer_picard_iterations' in s:
            if s in ('(1 < options.tracer_picard_iterations)',):
                return v
            if s.startswith('(options.tracer_picard_iterations'):
                return not v
    return None


@prop('B04', 'on every trace of initialize, set_dt and advance of a coupled 2D integrator: each active equation has one integrator on its own field, '
      'is initialized, receives the time step and is advanced once per step in the documented order with the step\'s time and forcing; limiter after '
      'each tracer update, sediment model refreshed before sediment and bed', 60, TECH)
def b04(ctx):
    repo = get_repo()
    for tr, susp, exner in CONFIGS:
        name = label(tr, susp, exner)
        for picard in (1, 3):
            if picard > 1 and not tr:
                continue
            nm = name + (' (%d Picard iterations)' % picard if picard > 1 else '')
            try:
                paths = run(repo, tr, susp, exner, picard=picard)
            except AnalysisError as e:
                ctx.ob('coupled step', nm, None, msg=str(e))
                continue
            for p in paths:
                judge(ctx, p, nm, tr, susp, exner, picard)
    run_nh(ctx, repo)


def want_equations(p, tr, susp, exner):
    t_only = guard(p, ['options.tracer_only'])
    if t_only is None:
        t_only = False
    return ([] if (t_only and tr) else ['sw']) + list(tr) + (['sediment'] if susp else []) + (['exner'] if exner else [])


def judge(ctx, p, name, tr, susp, exner, picard):
    cls = None
    g = p.guards()
    where = 'thetis/coupled_timeintegrator_2d.py'
    con = name + (' when ' + g if g else '')
    con = name
    if p.outcome == 'raise':
        ctx.ob('coupled step runs', con, False, where, 'building or advancing the coupled integrator raises %s at %s [%s]' % (
            p.value.exc, p.value.loc, g))
        return
    if p.outcome != 'return':
        return
    r = p.value
    for e in p.events:
        if e.kind == 'enter' and isinstance(e.fn, str) and ('CoupledTimeIntegrator2D' in e.fn or 'get_' in e.fn):
            ctx.funcs.add(e.fn)
    ts = steppers(p)
    f = r.S.attrs['fields'].attrs
    want = want_equations(p, tr, susp, exner)
    got = [eqname(t) for t in ts]
    fieldof = {'sw': 'solution_2d', 'sediment': 'sediment_2d', 'exner': 'bathymetry_2d'}
    ctx.ob('one integrator per equation', con, sorted(got) == sorted(want), where,
           'integrators are created for %s instead of %s [%s]' % (got, want, g))
    by = {eqname(t): t for t in ts}
    for n, t in by.items():
        sol = f.get(fieldof.get(n, n))
        ctx.ob('integrator advances its own field', con + ': ' + n, is_fn(solution(t)) and sol is not None and same(solution(t), sol), where,
               'the integrator of %s advances %s [%s]' % (n, show(solution(t)), g))
    if not all(is_fn(solution(t)) for t in ts):
        return
    # initialize
    ini = methods(seg(p, r, 1), 'initialize')
    for n, t in by.items():
        es = [e for e in ini if e.args[0] is t]
        ok = len(es) == 1 and len(es[0].args) > 1 and same(es[0].args[1], solution(t))
        if len(es) == 1 and len(es[0].args) == 1:
            ok = any(same(v, solution(t)) for v in es[0].kwargs.values())
        ctx.ob('initialized with its field', con + ': ' + n, ok, where, 'the integrator of %s is initialized %d times with %s [%s]' % (
            n, len(es), [show(e.args[1:]) for e in es], g))
    # time step
    sd = methods(seg(p, r, 2), 'set_dt')
    for n, t in by.items():
        es = [e for e in sd if e.args[0] is t]
        ok = bool(es) and all(same(list(margs(e, 'set_dt').values())[0], Sy('dt_new')) for e in es)
        ctx.ob('receives the time step', con + ': ' + n, ok, where, 'set_dt does not reach the integrator of %s [%s]' % (n, g))
    # advance
    adv = seg(p, r, 3)
    order_rules(ctx, p, r, adv, by, want, con, where, g, tr, susp, exner, picard)


def is_apply(e):
    return e.kind == 'call' and 'tracer_limiter' in show(e.fn) and show(e.fn).endswith('.apply')


def is_sed_update(e):
    return e.kind == 'call' and show(e.fn) == 'sediment_model.update'


def order_rules(ctx, p, r, adv, by, want, con, where, g, tr, susp, exner, picard):
    calls = [e for e in methods(adv) if e.fn in ('advance', 'advance_picard', 'solve_stage') and e.args[0] in list(by.values())]
    for e in calls:
        a = margs(e, e.fn)
        ok = same(a.get('t'), Sy('t'))
        fo = a.get('update_forcings')
        ok2 = same(fo, Sy('forcing')) if not isinstance(fo, tuple) else False
        ctx.ob('time and forcing passed on', con + ': ' + eqname(e.args[0]), ok and ok2, e.loc,
               'the integrator of %s is advanced with t=%s update_forcings=%s [%s]' % (eqname(e.args[0]), show(a.get('t')), show(fo), g))
    count = {n: [e for e in calls if e.args[0] is t] for n, t in by.items()}
    lim = None
    for c, v, _ in p.factlog:
        if show(c) == 'options.use_limiter_for_tracers':
            lim = v
    for n in want:
        es = count.get(n, [])
        if n in tr:
            if picard > 1 and es and all(e.fn == 'advance_picard' for e in es):
                flags = [(margs(e, e.fn).get('update_lagged'), margs(e, e.fn).get('update_fields')) for e in es]
                known = all(isinstance(x, bool) for f in flags for x in f)
                ok = flags == [(i == 0, i == picard - 1) for i in range(picard)]
                ctx.ob('Picard iterations', con + ': tracer', ok if known else (False if len(flags) != picard else None), es[0].loc,
                       '%d Picard iterations run with (update_lagged, update_fields) = %s; expected: the old solution is kept in the first, '
                       'the old fields are renewed in the last iteration only [%s]' % (picard, flags, g))
                continue
            ctx.ob('Picard iterations', con + ': tracer', picard == 1, where,
                   'the tracer is advanced by %s although %d Picard iterations are requested [%s]' % ([e.fn for e in es], picard, g))
        ctx.ob('advanced once per step', con + ': ' + n, len(es) == 1, where,
               'the %s equation is advanced %d times in one step [%s]' % (n, len(es), g))
    rank = {'sw': 0, 'sediment': 2, 'exner': 3}
    seq = [eqname(e.args[0]) for e in calls]
    rk = [rank.get(n, 1) for n in seq]
    ctx.ob('order of equations', con, rk == sorted(rk), where,
           'the equations are advanced in the order %s; documented: shallow water, tracers, suspended sediment, bed [%s]' % (seq, g))
    # limiter
    idx = {id(e): i for i, e in enumerate(adv)}
    for n in want:
        if n not in tr and n != 'sediment':
            continue
        for e in count.get(n, []):
            later = adv[idx[id(e)] + 1:]
            hit = None
            for x in later:
                if is_apply(x):
                    a = x.args[0] if x.args else None
                    if a is not None and same(a, solution(by[n])):
                        hit = True
                        break
                if x.kind == 'do' and x.args[0] in list(by.values()) and x.fn in ('advance', 'advance_picard'):
                    break
                if is_sed_update(x):
                    break
            if lim is None:
                continue
            ctx.ob('limiter after the update', con + ': ' + n, bool(hit) == lim, e.loc,
                   'the limiter is %sapplied to %s after its update although use_limiter_for_tracers is %s [%s]' % (
                       '' if hit else 'not ', n, lim, g))
    # sediment model
    if susp or exner:
        ups = [i for i, e in enumerate(adv) if is_sed_update(e)]
        swi = [idx[id(e)] for e in count.get('sw', [])]
        use = [idx[id(e)] for n in ('sediment', 'exner') for e in count.get(n, [])]
        ok = bool(ups) and bool(use) and any((not swi or max(swi) < u) and u < min(use) for u in ups)
        ctx.ob('sediment model refreshed', con, ok, where,
               'the sediment model is not updated between the flow and the sediment/bed update [%s]' % g)


# ------------------------------------------------------------ non-hydrostatic
def run_nh(ctx, repo):
    U = 'options.nh_model_options.update_free_surface'
    for swe, fs in (('CrankNicolson', 'CrankNicolson'), ('CrankNicolson', 'BackwardEuler'), ('SSPRK33', 'SSPRK33'), ('DIRK22', 'DIRK22'),
                    ('DIRK33', 'BackwardEuler'), ('SSPIMEX', 'BackwardEuler'), ('SSPIMEX', 'CrankNicolson'), ('SSPRK33', 'CrankNicolson')):
        for u in (True, False):
            try:
                judge_nh(ctx, run(repo, (), False, False, nh=True, swe=swe, fs=fs, **{U: u}), u, swe, fs)
            except AnalysisError as e:
                ctx.ob('coupled step', 'non-hydrostatic', None, msg=str(e))


def judge_nh(ctx, paths, upd, swe, fs):
    where = 'thetis/coupled_timeintegrator_2d.py'
    for p in paths:
        g = p.guards()
        con = 'non-hydrostatic %s/%s%s' % (swe, fs, '' if upd else ' without free surface update')
        if p.outcome == 'raise':
            if p.value.exc == 'AssertionError':
                continue        # inconsistent choice of integrators is refused
            ctx.ob('coupled step runs', con, False, where, 'raises %s at %s [%s]' % (p.value.exc, p.value.loc, g))
            continue
        if p.outcome != 'return':
            continue
        r = p.value
        adv = seg(p, r, 3)
        by = {eqname(t): t for t in steppers(p)}
        f = r.S.attrs['fields'].attrs
        elev, sol = f['elev_2d'], f['solution_2d']
        ini = methods(seg(p, r, 1), 'initialize')
        for n, t in by.items():
            es = [e for e in ini if e.args[0] is t]
            ctx.ob('initialized with its field', con + ': ' + n, len(es) == 1 and any(
                same(v, solution(t)) for v in list(es[0].args[1:]) + list(es[0].kwargs.values())), where,
                'the integrator of %s is not initialized with its field [%s]' % (n, g))
        nh_trace(ctx, p, r, adv, by, upd, con, where, g, elev, sol)


def nh_trace(ctx, p, r, adv, by, upd, con, where, g, elev, sol):
    """elevation value: symbol of who computed it"""
    cur = 'start'                    # what elev_2d holds
    val = {}
    pending = False                  # flow advanced without pressure solve
    done, solves = [], 0
    okfs = True
    w_last = None
    for e in adv:
        if e.kind == 'write':
            o, src = e.args
            if src in list(by.values()):
                continue
            if o is elev:
                cur = val.get(key(src), 'other:' + show(src)) if isinstance(src, Ob) else 'other'
            elif isinstance(src, Ob) and src is elev:
                val[key(o)] = cur
        if e.kind == 'do' and isinstance(e.args[0], Ob):
            o = e.args[0]
            if o is by.get('sw') and e.fn in ('advance', 'solve_stage'):
                ctx.ob('pressure solved after every flow update', con, not pending, e.loc,
                       'the flow is advanced twice without a pressure solve in between [%s]' % g)
                pending = True
                done.append(('sw', e.fn, [show(a) for a in e.args[1:2]]))
                cur = 'flow%d' % len(done)
            elif o is by.get('fs') and e.fn in ('advance', 'solve_stage'):
                ctx.ob('free surface after the pressure', con, not pending, e.loc,
                       'the free surface is corrected before the pressure is solved [%s]' % g)
                ctx.ob('free surface starts from the old elevation', con, cur in ('start',) or cur.startswith('fs'), e.loc,
                       'the free surface correction starts from %s instead of the elevation before the flow update [%s]' % (cur, g))
                cur = 'fs%d' % len(done)
                done.append(('fs', e.fn, [show(a) for a in e.args[1:2]]))
            elif 'Poisson' in o.clsname and e.fn == 'solve':
                pending = False
                solves += 1
                w_last = margs(e, 'solve').get('solve_w')
    ctx.ob('pressure solved after every flow update', con, not pending and solves > 0, where,
           'the step ends without a pressure solve [%s]' % g)
    wl = w_last is True or isinstance(w_last, tuple) and isinstance(w_last[1], ast.Constant) and w_last[1].value is True
    ctx.ob('vertical velocity solved at the end of the step', con, wl or None if not isinstance(w_last, bool) else w_last, where,
           'the last pressure solve of the step does not update w [%s]' % g)
    n = Pol.n_stages
    sw = [d for d in done if d[0] == 'sw']
    fs = [d for d in done if d[0] == 'fs']
    whole = [d for d in sw if d[1] == 'solve_stage']
    ok = (len(sw) == 1 and sw[0][1] == 'advance') or (len(whole) == len(sw) == n and [d[2][0] for d in sw] == [str(i) for i in range(n)])
    ctx.ob('advanced once per step', con + ': sw', ok, where, 'the flow update runs %s [%s]' % (sw, g))
    if upd is None and fs:
        upd = True
    if upd:
        ok = (len(fs) == 1 and fs[0][1] == 'advance') or (len(fs) == n and all(d[1] == 'solve_stage' for d in fs)
                                                           and [d[2][0] for d in fs] == [str(i) for i in range(n)])
        ctx.ob('advanced once per step', con + ': fs', ok, where, 'the free surface update runs %s [%s]' % (fs, g))
        ctx.ob('elevation is the corrected one', con, cur.startswith('fs'), where, 'the elevation at the end of the step is %s [%s]' % (cur, g))
    elif upd is False:
        ctx.ob('no free surface correction', con, not fs, where, 'the free surface is corrected although update_free_surface is off [%s]' % g)
