"""C01: the time loop of both solvers (stepping, export times, callbacks)."""
from fractions import Fraction
from sa.core import prop
from sa.absint import explore, Sy, Ex, Ext, Ob, Fv, show, key, is_conc
from sa.sysim import SysPolicy, make_solver
from sa.lin import lin, show_lin, relation, num, atom, Lin
from sa.repo import AnalysisError

TECH = ('guard-partitioned abstract interpretation of the time loop with an exact affine domain for times, indices and dates '
        '(inductive step: three generic passes), call-order rules on the traces')

DAY = 86400


class LoopPolicy(SysPolicy):
    while_bound = 3
    forever_bound = 3
    concrete = ('FlowSolver', 'FlowSolver2d', 'FrozenClass')
    observed = ('timestepper', 'callbacks', 'exporter:vtk', 'exporter:hdf5')

    def snapshot(self, it):
        A = it.user['S'].attrs
        return dict(t=A.get('simulation_time'), it=A.get('iteration'), ix=A.get('i_export'),
                    uv=it.user.get('uv').meta['ver'] if it.user.get('uv') is not None else None,
                    steps=it.user.get('steps', 0))

    def decide(self, it, cond):
        r = super().decide(it, cond)
        if r is None and ('check_' in show(cond) and ('_conservation' in show(cond) or '_overshoot' in show(cond))):
            return False        # diagnostics options are not part of the loop
        if r is not None:
            return r
        if isinstance(cond, Ex) and relation(cond) is not None:
            it.event('guard', 'guard', [cond], extra=self.snapshot(it))
        return None

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Sy) and fn.args[0].name in self.observed:
            o, m = fn.args[0].name, fn.args[1]
            if m not in ('__getitem__',):
                e = it.event('obs', '%s.%s' % (o, m), args, kwargs, node, extra=self.snapshot(it))
                if o == 'timestepper' and m == 'advance':
                    it.user['steps'] = it.user.get('steps', 0) + 1
                e.res = Sy('%s.%s()' % (o, m))
                return e.res
        if isinstance(fn, Sy) and fn.name in ('export_func',):
            it.event('obs', fn.name, args, kwargs, node, extra=self.snapshot(it))
            return None
        if isinstance(fn, Ext):
            s = fn.short
            if s == 'next' and args and isinstance(args[0], Sy) and args[0].name == 'adj_timestepper':
                it.event('obs', 'adj.next', args, kwargs, node, extra=self.snapshot(it))
                return Sy('tick')
            if s == 'timedelta':
                u = dict(days=DAY, seconds=1, minutes=60, hours=3600, weeks=7 * DAY, milliseconds=Fraction(1, 1000),
                         microseconds=Fraction(1, 1000000))
                names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
                d = dict(zip(names, args))
                d.update(kwargs)
                r = 0
                for k, v in d.items():
                    r = it.binop('+', r, it.binop('*', u[k], v)) if r != 0 else it.binop('*', u[k], v)
                return r
        if isinstance(fn, Ex) and fn.op == 'attr' and fn.args[1] == 'total_seconds':
            return fn.args[0]
        return super().call(it, fn, args, kwargs, node)

    def attr(self, it, base, name, node):
        if isinstance(base, Ex) and name == 'total_seconds':
            return Ex('attr', base, name)
        return super().attr(it, base, name, node)

    def inline(self, it, func, self_):
        if func.name in ('print_state', 'add_callback', 'print_state_debug'):
            return False
        return super().inline(it, func, self_)


T0, DT, E, I0, IX = (Sy(x) for x in ('T0', 'dt', 'E', 'I0', 'IX'))
TEND = Ex('attr', Sy('options'), 'simulation_end_time')
OFF = ('check_volume_conservation_2d', 'check_volume_conservation_3d', 'check_tracer_conservation', 'check_tracer_overshoot',
       'check_salinity_conservation', 'check_salinity_overshoot', 'check_temperature_conservation', 'check_temperature_overshoot',
       'sediment_model_options.check_sediment_conservation', 'sediment_model_options.check_sediment_overshoot')


def make(kind, nexport):
    mod, cls = ('solver2d', 'FlowSolver2d') if kind == '2d' else ('solver', 'FlowSolver')

    def body(it):
        S = make_solver(it, mod, cls)
        it.user['S'] = S
        A = S.attrs
        A.update(simulation_time=T0, iteration=I0, i_export=IX, dt=DT, _initialized=True,
                 timestepper=Sy('timestepper'), callbacks=Sy('callbacks'),
                 exporters={'vtk': Sy('exporter:vtk'), 'hdf5': Sy('exporter:hdf5')},
                 export_initial_state=Sy('export_initial_state'), _simulation_continued=Sy('_simulation_continued'))
        A['next_export_t'] = nexport
        f = A['fields']
        pol = it.policy
        for n in ('uv_3d', 'uv_dav_3d', 'bathymetry_2d', 'uv_2d', 'elev_2d', 'solution_2d'):
            f.attrs[n] = pol.function(it, n)
        it.user['uv'] = f.attrs['uv_3d'] if kind == '3d' else None
        it.user['uv0'] = it.user['uv'].meta['ver'] if it.user['uv'] is not None else None
        kw = {'update_forcings': Sy('forcing'), 'export_func': it.user.get('ef', Sy('export_func'))}
        if kind == '3d':
            kw['update_forcings3d'] = Sy('forcing3d')
        else:
            kw['adj_timestepper'] = Sy('adj_timestepper')
        it.call(it.getattr(S, 'iterate'), [], kw)
        return S
    return body


def policy():
    pins = {'options.simulation_export_time': E, 'options.export_diagnostics': False, 'options.no_exports': False}
    for o in OFF:
        pins['options.' + o] = False
    return LoopPolicy(pins)


def const_between(p, lo, hi):
    return p.is_const() and lo <= p.const() <= hi


def loops(ctx, kind, nexport):
    where = 'thetis/solver2d.py' if kind == '2d' else 'thetis/solver.py'
    fn = 'FlowSolver2d.create_iterator' if kind == '2d' else 'FlowSolver.iterate'
    ctx.funcs.add(fn)
    ctx.funcs.add(('FlowSolver2d' if kind == '2d' else 'FlowSolver') + '.export')
    con = kind
    npath = 0
    for p in explore(ctx.repo, policy, make(kind, nexport)):
        if p.outcome == 'raise' and p.value.exc in ('AssertionError',):
            continue
        npath += 1
        g = p.guards()
        if p.outcome == 'raise':
            ctx.ob('loop runs', con, False, str(getattr(p.value, 'loc', where)), 'the time loop raises %s [%s]' % (p.value, g))
            continue
        ctx.ob('loop runs', con, True)
        one_path(ctx, con, kind, p, where, g)
    ctx.count('traces ' + kind, npath)


def fact(p, name):
    for c, v, _ in p.factlog:
        s = show(c)
        if s == name:
            return v
        if s == '(%s is None)' % name:
            return not v
    return None


def one_path(ctx, con, kind, p, where, g):
    obs = [e for e in p.events if e.kind in ('obs', 'whiletest', 'guard', 'yield', 'write')]
    S = p.it.user['S']
    for e in obs:
        if e.kind == 'write' and not (kind == '3d' and show(e.args[0]) == 'uv_3d' and show(e.args[1]) == 'uv_dav_3d' and e.fn in ('+=', '-=')):
            ctx.ob('the loop does not modify fields', con, False, e.loc, 'the time loop writes %s %s %s outside of the time integrator [%s]' % (
                show(e.args[0]), e.fn, show(e.args[1]), g))
    if kind == '3d':
        c = 0
        for e in obs:
            if e.kind == 'write':
                c += {'+=': 1, '-=': -1}.get(e.fn, 0)
            elif e.fn.startswith('exporter:') and e.fn.endswith('.export'):
                ctx.ob('exported 3D velocity is the total velocity', con, c == 1, e.loc,
                       'uv_3d holds the deviation + %d uv_dav_3d when %s is called [%s]' % (c, e.fn, g))
            elif e.fn == 'timestepper.advance':
                ctx.ob('velocity restored after export', con, c == 0, e.loc,
                       'uv_3d holds the deviation + %d uv_dav_3d at the next step [%s]' % (c, g))
        ctx.ob('velocity restored after export', con, c == 0, where, 'uv_3d holds the deviation + %d uv_dav_3d at the end [%s]' % (c, g))
    # ---- end time
    tests = [e for e in obs if e.kind == 'whiletest']
    dates = [v for c, v, _ in p.factlog if show(c) in ('(options.simulation_initial_date is None)', '(options.simulation_end_date is None)')]
    use_dates = len(dates) == 2 and not any(dates)
    end = (lin(Ex('attr', Sy('options'), 'simulation_end_date')) - lin(Ex('attr', Sy('options'), 'simulation_initial_date'))) \
        if use_dates else lin(TEND)
    pos = {id(e): i for i, e in enumerate(obs)}
    steps = [pos[id(e)] for e in obs if e.fn == 'timestepper.advance']
    seen = 0
    for e in obs:
        if e.kind == 'whiletest':
            c, truth = e.args[0], True
        elif e.kind == 'guard' and (mentions_end(e.args[0])):
            c = e.args[0]
            truth = [v for c2, v, _ in p.factlog if key(c2) == key(c)]
            if not truth or e.fn != 'guard':
                continue
            truth = truth[0]
        else:
            continue
        k = sum(1 for i in steps if i < pos[id(e)])
        r = relation(c)
        if r is None:
            ctx.ob('loop continues until the end time', con, None, e.loc, 'loop condition %s not affine' % show(c))
            continue
        if e.kind == 'guard':
            # the fact that holds on this trace; it lets the loop go on iff another step follows
            d = r[0] if truth else r[0].scale(-1)
            goes_on = len(steps) > k or p.outcome == 'stop'
            d = d if goes_on else d.scale(-1)
        else:
            d = r[0]
        seen += 1
        d = d - (end - lin(T0) - lin(DT).scale(k))
        ctx.ob('loop continues until the end time', con, d.is_const() and Fraction(-1, 100) <= d.const() < 0, e.loc,
               'after %d steps the loop continues iff %s > 0, expected (end time - initial time - %d dt) less a small rounding tolerance [%s]' % (
                   k, show_lin(d + (end - lin(T0) - lin(DT).scale(k))), k, g))
    ctx.ob('loop continues until the end time', con, seen > len(steps) - (p.outcome == 'stop') or None, where, 'loop not recognised')
    # ---- steps
    adv = [e for e in obs if e.fn == 'timestepper.advance']
    if [e for e in tests if isinstance(e.args[0], Ex)]:
        ctx.ob('one advance per pass', con, len(adv) == len(tests) - 1, where,
               '%d advance calls in %d passes [%s]' % (len(adv), len(tests) - 1, g))
    for k, e in enumerate(adv):
        t = e.args[0] if e.args else e.kwargs.get('t')
        ok = t is not None and lin(t) == lin(T0) + lin(DT).scale(k)
        ctx.ob('advance called with the time of the step', con, ok, e.loc, 'step %d advances from time %s, expected T0 + %d dt [%s]' % (
            k, show(t), k, g))
        rest = list(e.args[1:]) + list(e.kwargs.values())
        want = ['forcing'] + (['forcing3d'] if kind == '3d' else [])
        got = [show(x) for x in e.args[1:]]
        names = ['update_forcings', 'update_forcings3d']
        val = dict(zip(names, got))
        val.update({k2: show(v) for k2, v in e.kwargs.items()})
        ok = [val.get(n) for n in names[:len(want)]] == want
        ctx.ob('forcing callbacks passed on', con, ok, e.loc, 'advance receives %s as forcing callbacks [%s]' % (val, g))
    # ---- segments between advances
    idx = {id(e): i for i, e in enumerate(obs)}
    exports = 0
    for k, e in enumerate(adv):
        lo = idx[id(e)] + 1
        hi = idx[id(adv[k + 1])] if k + 1 < len(adv) else len(obs)
        seg = obs[lo:hi]
        tn = lin(T0) + lin(DT).scale(k + 1)
        # callbacks
        cb = [x for x in seg if x.fn == 'callbacks.evaluate' and mode(x) == 'timestep']
        ok = len(cb) == 1
        ctx.ob('time step callbacks after every step', con, ok, e.loc, '%d evaluations of the time step callbacks after step %d [%s]' % (
            len(cb), k + 1, g))
        for x in cb:
            st = x.extra
            ctx.ob('time and iteration count at callbacks', con,
                   lin(st['t']) == tn and lin(st['it']) == lin(I0) + num(k + 1), x.loc,
                   'after step %d callbacks see time %s and iteration %s [%s]' % (k + 1, show_lin(lin(st['t'])), show_lin(lin(st['it'])), g))
        # adjoint tick
        if kind == '2d':
            ticks = [x for x in seg if x.fn == 'adj.next']
            have = fact(p, 'adj_timestepper')
            if have is not None:
                ctx.ob('adjoint schedule ticks once per step', con, len(ticks) == (1 if have else 0), e.loc,
                       '%d ticks of the adjoint schedule in step %d [%s]' % (len(ticks), k + 1, g))
            ys = [x for x in seg if x.kind == 'yield']
            ctx.ob('iterator yields once per step', con, len(ys) == 1, e.loc, '%d yields in step %d [%s]' % (len(ys), k + 1, g))
        # export decision
        ex = [x for x in seg if x.fn == 'callbacks.evaluate' and mode(x) == 'export']
        guards = [x for x in seg if x.kind == 'guard' and mentions(x.args[0], 'E')]
        taken = bool(ex)
        due = tn - lin(T0) - lin(E).scale(exports + 1)
        verdict = None
        msg = 'no affine export condition'
        for x in guards:
            truth = [v for c, v, _ in p.factlog if key(c) == key(x.args[0])]
            r = relation(x.args[0])
            if not truth or r is None:
                continue
            d = r[0] if truth[0] else r[0].scale(-1)
            # condition known on this trace: d > 0 / >= 0 ; export iff due >= 0 up to a tolerance
            want = due if taken else due.scale(-1)
            diff = d - want
            # exports at due >= -tolerance, skips below; the tolerance is positive
            verdict = const_between(diff if taken else diff.scale(-1), Fraction(1, 1000000000), Fraction(1, 100))
            msg = 'after step %d with %d exports done the export is %s on the condition %s; expected export iff %s >= 0 up to rounding' % (
                k + 1, exports, 'made' if taken else 'skipped', show_lin(d), show_lin(due))
            if verdict:
                break
        ctx.ob('export when the export interval has elapsed', con, verdict, e.loc, msg + ' [%s]' % g)
        if taken:
            exports += 1
        export_group(ctx, con, kind, p, seg, exports, tn, taken, e.loc, g)
    # ---- initial export
    pre = obs[:idx[id(adv[0])]] if adv else obs
    want = fact(p, 'export_initial_state')
    ex = [x for x in pre if x.fn == 'callbacks.evaluate' and mode(x) == 'export']
    if want is not None:
        ctx.ob('initial state exported iff requested', con, bool(ex) == want, where,
               'the initial state is %sexported although export_initial_state is %s [%s]' % ('' if ex else 'not ', want, g))
        export_group(ctx, con, kind, p, pre, 0, lin(T0), want, where, g)
    # ---- final state
    A = S.attrs
    ctx.ob('time and iteration at the end', con,
           lin(A['simulation_time']) == lin(T0) + lin(DT).scale(len(adv)) and lin(A['iteration']) == lin(I0) + num(len(adv)), where,
           'after %d steps the solver time is %s, iteration %s [%s]' % (len(adv), show_lin(lin(A['simulation_time'])),
                                                                    show_lin(lin(A['iteration'])), g))


def mentions_end(v):
    s = show(v)
    return 'simulation_end_time' in s or 'simulation_end_date' in s


def mode(e):
    m = e.kwargs.get('mode', e.args[0] if e.args else None)
    return m


def mentions(v, name):
    from sa.absint import subterms
    return any(isinstance(x, Sy) and x.name == name for x in subterms(v))


def export_group(ctx, con, kind, p, seg, n, t, taken, loc, g):
    what = 'export %d' % n
    m = 1 if taken else 0
    for name in ('exporter:vtk', 'exporter:hdf5'):
        es = [x for x in seg if x.fn == name + '.export']
        ctx.ob('every exporter writes once per export', con, len(es) == m, loc, '%s: %d calls of %s.export, expected %d [%s]' % (
            what, len(es), name, m, g))
        for x in es:
            tt = x.kwargs.get('time', x.args[0] if x.args else None)
            ok = tt is not None and lin(tt) == t
            if name == 'exporter:hdf5':
                ctx.ob('exported time stamp', con, ok, x.loc, '%s is stamped with time %s, solution is at %s [%s]' % (
                    what, show(tt), show_lin(t), g))
            if n or True:
                ctx.ob('export index', con, lin(x.extra['ix']) == lin(IX) + num(n), x.loc, '%s is made with export index %s [%s]' % (
                    what, show_lin(lin(x.extra['ix'])), g))
    have = fact(p, 'export_func')
    if have is not None:
        es = [x for x in seg if x.fn == 'export_func']
        ctx.ob('export_func called at every export', con, len(es) == (m if have else 0), loc,
               '%s: %d calls of export_func [%s]' % (what, len(es), g))


def initial(ctx):
    """next_export_t of the 3D solver before the first step"""
    def body(it):
        S = make_solver(it, 'solver', 'FlowSolver')
        it.user['S'] = S
        S.attrs.update(simulation_time=T0, dt=DT, dt_mode='split', next_export_t=Sy('next_export_t_from_constructor'))
        f = S.attrs['fields']
        f.meta['lazy'] = lambda i, n: i.policy.function(i, n)
        it.call(it.getattr(S, 'create_timestepper'), [], {})
        return S

    class Pol(LoopPolicy):
        skip_methods = ('set_time_step', 'compute_mesh_stats', 'create_equations')
    out = []
    ctx.funcs.add('FlowSolver.create_timestepper')
    for p in explore(ctx.repo, lambda: Pol({'options.simulation_export_time': E}), body):
        if p.outcome == 'return':
            v = p.value.attrs['next_export_t']
            if all(key(v) != key(x) for x in out):
                out.append(v)
    return out


@prop('C01', 'on every trace of three generic passes of the time loop: advance receives T0 + n dt, time/iteration advance by dt/1, callbacks run once '
      'per step, exports happen exactly when the export interval has elapsed, with index and time of the current state, the loop ends at the end '
      'time or date', 200, TECH)
def c01(ctx):
    loops(ctx, '2d', Sy('next_export_t_from_constructor'))
    starts = initial(ctx)
    ctx.ob('create_timestepper followed', '3d', True if starts else None, 'thetis/solver.py')
    for v in starts:
        loops(ctx, '3d', v)
