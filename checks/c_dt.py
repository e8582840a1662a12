"""C07: choice of the time step."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Fv, key, show, explore, is_num, is_call, call_parts, callee_name
from sa.repo import AnalysisError
from sa.sysim import SysPolicy, make_solver, is_fn
from sa.formdb import repo as get_repo

TECH = ('abstract execution of set_time_step and of the CFL limit functions in every mode; upper bounds and integrality of the resulting closed forms '
        'by a monomial rewriting (min, ceil, global reduction), process dependence by taint')


class Pol(SysPolicy):
    opaque = ()

    def call(self, it, fn, args, kwargs, node):
        f = getattr(fn, 'func', None)
        nm = getattr(f, 'name', None)
        if nm in self.opaque:
            return Sy('limit:%s(%s)' % (nm, ', '.join(show(a) for a in list(args) + list(kwargs.values()))))
        return super().call(it, fn, args, kwargs, node)

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and is_fn(base) and name == 'dat':
            return Sy('dat:' + base.name)
        return super().attr(it, base, name, node)

    def setindex(self, it, base, idx, value, node):
        if show(base).startswith('dat:'):
            it.event('clip', show(base), [idx, value], node=node)
            return None
        return super().setindex(it, base, idx, value, node)

    def decide(self, it, cond):
        s = show(cond)
        if s in ('(0 < self.comm.rank)',) or 'comm.rank' in s:
            return True
        if s.startswith('isinstance(options.') and 'Constant' in s:
            return True
        return super().decide(it, cond)


# ------------------------------------------------------------- closed forms
def head(v):
    """(name, args) of a call"""
    cp = call_parts(v) if isinstance(v, Ex) else None
    if not cp:
        return None, ()
    n = callee_name(cp[0])
    if n in ('min', 'max', 'sum', 'mean') and not cp[1] and isinstance(cp[0], Ex) and cp[0].op == 'attr':
        return n, (cp[0].args[0],)
    return n, cp[1]


def strip(v):
    while True:
        n, a = head(v)
        if n in ('float', 'Constant') and len(a) == 1 or n == 'int' and len(a) == 1 and head(a[0])[0] in WHOLE:
            v = a[0]
        else:
            return v


WHOLE = ('ceil', 'floor', 'round', 'rint', 'trunc', 'int')


class Form:
    """c * product of atoms to integer powers"""

    def __init__(self, c=Fraction(1), p=None):
        self.c, self.p = c, dict(p or {})

    def mul(self, o, s=1):
        r = Form(Fraction(self.c) * (Fraction(o.c) if s > 0 else 1 / Fraction(o.c)), self.p)
        for k, n in o.p.items():
            r.p[k] = r.p.get(k, 0) + s * n
            if not r.p[k]:
                del r.p[k]
        return r

    def __eq__(self, o):
        return self.c == o.c and self.p == o.p

    def __hash__(self):
        return hash((self.c, frozenset(self.p.items())))


ATOM = {}


def at(v):
    k = repr(key(v))
    ATOM[k] = v
    return k


def form(v):
    v = strip(v)
    if isinstance(v, bool) or v is None:
        raise AnalysisError('not a number: %s' % show(v))
    if is_num(v):
        f = Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
        if not f:
            raise AnalysisError('zero step')
        return Form(f)
    if isinstance(v, Ex):
        if v.op == '*':
            return form(v.args[0]).mul(form(v.args[1]))
        if v.op == '/':
            return form(v.args[0]).mul(form(v.args[1]), -1)
        if v.op == '**' and isinstance(v.args[1], int):
            r = Form()
            for _ in range(abs(v.args[1])):
                r = r.mul(form(v.args[0]), 1 if v.args[1] > 0 else -1)
            return r
        n, a = head(v)
        if n in ('min', 'minimum', 'fmin', 'max', 'maximum', 'allreduce') or n in WHOLE and len(a) == 1:
            return Form(1, {at(Ex('fun', n, tuple(flat(n, a)))): 1})
    return Form(1, {at(v): 1})


def flat(n, a):
    out = []
    for x in a:
        if isinstance(x, (tuple, list)):
            out += flat(n, x)
            continue
        x = strip(x)
        h, b = head(x)
        if n in ('min', 'minimum', 'fmin') and h in ('min', 'minimum', 'fmin') and n == h:
            out += flat(n, b)
        else:
            out.append(x)
    return out


def uppers(f, depth=0):
    """set of forms that bound f from above (atoms are positive)"""
    out = {f}
    if depth > 6:
        return out
    for k, n in list(f.p.items()):
        v = ATOM[k]
        rest = Form(f.c, {a: b for a, b in f.p.items() if a != k})
        if isinstance(v, Ex) and v.op == 'fun':
            if v.args[0] in ('min', 'minimum', 'fmin') and n == 1:
                for x in v.args[1]:
                    out |= uppers(rest.mul(form(x)), depth + 1)
            if v.args[0] in ('max', 'maximum') and n == -1:
                for x in v.args[1]:
                    out |= uppers(rest.mul(form(x), -1), depth + 1)
            if v.args[0] == 'ceil' and n == -1:
                # X / ceil(A/B) <= X * B / A
                out |= uppers(rest.mul(form(v.args[1][0]), -1), depth + 1)
    return out


def integer(f):
    """is the positive form an integer by construction?"""
    if f.c.denominator != 1:
        return False
    for k, n in f.p.items():
        v = ATOM[k]
        if n < 0 or not (isinstance(v, Ex) and v.op == 'fun' and v.args[0] in WHOLE):
            return False
    return True


def leaves(v, reduced=False):
    """(leaf, under a global reduction?)"""
    if isinstance(v, Ex):
        n, a = head(v)
        if n == 'allreduce':
            for x in a[:1]:
                yield from leaves(x, True)
            return
        if n is not None:
            f = call_parts(v)[0]
            yield from leaves(f, reduced)
        for x in (a if n is not None else v.args):
            yield from leaves(x, reduced)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from leaves(x, reduced)
    elif isinstance(v, Sy):
        yield v, reduced


def reductions(v):
    if isinstance(v, Ex):
        n, a = head(v)
        if n == 'allreduce':
            cp = call_parts(v)
            op = (list(a[1:2]) + [x for k, x in (cp[2] or ()) if k == 'op'] or [None])[0] if cp[2] is None or not isinstance(cp[2], dict) \
                else (list(a[1:2]) + [cp[2].get('op')])[0]
            yield op
        for x in v.args:
            yield from reductions(x)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from reductions(x)


# ------------------------------------------------------------- exact evaluation for counterexamples
def value(v, env):
    v = strip(v)
    if isinstance(v, bool) or v is None:
        raise AnalysisError('not a number')
    if is_num(v):
        return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
    if isinstance(v, Ex):
        b = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '//': lambda x, y: x // y}
        if v.op in b:
            return b[v.op](value(v.args[0], env), value(v.args[1], env))
        if v.op == '**' and isinstance(v.args[1], int):
            return value(v.args[0], env) ** v.args[1]
        if v.op == 'neg':
            return -value(v.args[0], env)
        n, a = head(v)
        if n in ('min', 'minimum', 'fmin', 'max', 'maximum', 'fmax'):
            xs = [value(x, env) for x in flat('', a)]
            return min(xs) if 'min' in n else max(xs)
        if n == 'ceil':
            return Fraction(-((-value(a[0], env)) // 1))
        if n in ('floor', 'trunc', 'int'):
            return Fraction(value(a[0], env) // 1)
        if n in ('round', 'rint'):
            return Fraction(round(value(a[0], env)))
    k = repr(key(v))
    if k not in env:
        env[k] = env['#'](len(env))
    return env[k]


def sampler(seed):
    st = [seed * 7919 + 17]

    def nxt(_):
        st[0] = (st[0] * 1103515245 + 12345) % (1 << 31)
        if seed % 2:
            return Fraction((st[0] >> 8) % 12 + 1)
        return Fraction((st[0] >> 3) % 997 + 1, (st[0] >> 10) % 31 + 1)
    return nxt


def refute(exprs, pred):
    """an assignment of positive rationals to the atoms of the closed forms that falsifies pred, or None"""
    for s in range(400):
        env = {'#': sampler(s)}
        try:
            vs = [value(e, env) for e in exprs]
        except ZeroDivisionError:
            continue
        except AnalysisError:
            return None
        try:
            ok = pred(*vs)
        except ZeroDivisionError:
            continue
        if not ok:
            return {show_k(k): str(v) for k, v in env.items() if k != '#'}
    return None


def show_k(k):
    return k[:60]


class J:
    def __init__(self, ctx, con, loc, guards=''):
        self.ctx, self.con, self.loc, self.g = ctx, con, loc, guards

    def ob(self, rule, c, ok, msg):
        self.ctx.ob(rule, '%s: %s' % (self.con, c), ok, self.loc, msg)

    def le(self, rule, name, a, b, what):
        try:
            ok = form(b) in uppers(form(a))
        except AnalysisError:
            ok = False
        if not ok:
            cex = refute([a, b], lambda x, y: x <= y)
            ok = False if cex is not None else None
        self.ob(rule, name, ok, '%s is %s, which can exceed %s' % (what, show(a)[:300], show(b)[:200]))

    def whole(self, rule, name, a, b, what):
        """a / b is a positive integer"""
        try:
            ok = integer(form(a).mul(form(b), -1))
        except AnalysisError:
            ok = False
        if not ok:
            cex = refute([a, b], lambda x, y: (x / y).denominator == 1 and x / y >= 1)
            ok = False if cex is not None else None
        self.ob(rule, name, ok, what)

    def uniform(self, rule, name, v, what):
        bad = [l.name for l, r in leaves(v) if not r and local(l)]
        self.ob(rule, name, not bad, '%s depends on process local data %s outside a global reduction' % (what, sorted(set(bad))[:3]))
        ops = [show(o) for o in reductions(v)]
        self.ob('reduction is a minimum', name, all(o.split('.')[-1] == 'MIN' for o in ops), '%s is reduced over the processes with %s' % (what, ops))


def local(l):
    return l.name.startswith('dat:') or l.name.endswith('.dat') or 'rank' in l.name


LIM = ('compute_dt_2d', 'compute_dt_h_advection', 'compute_dt_v_advection', 'compute_dt_diffusion')


def L(n, a):
    return Sy('limit:%s(options.%s)' % (n, a))


def solver3(ctx, repo):
    for mode, auto in itertools.product(('3d', '2d', 'split'), (True, False)):
        pins = {'options.timestepper_options.use_automatic_timestep': auto, "hasattr(options.timestepper_options, 'use_automatic_timestep')": True,
                'automatic_timestep': auto, '(options.timestep is None)': False, '(0 < options.timestep)': True,
                '(options.timestep_2d is None)': False, '(0 < options.timestep_2d)': True}

        def pf():
            p = Pol(pins)
            p.opaque = LIM
            return p

        def body(it):
            S = make_solver(it, 'solver', 'FlowSolver')
            a = S.attrs
            a['dt_mode'] = mode
            a['M_modesplit'] = None
            a['dt_2d'] = None
            a['timestepper'] = Sy('timestepper')
            it.call(it.getattr(S, 'set_time_step'), [], {})
            return S
        con = '3D solver, mode %s, %s step' % (mode, 'automatic' if auto else 'user')
        m = repo.cls('solver', 'FlowSolver').find_method('set_time_step')
        for p in explore(repo, pf, body, 64):
            if p.outcome != 'return':
                ctx.ob('time step set', con, False, m.loc(), 'set_time_step stops with %s [%s]' % (getattr(p.value, 'exc', ''), p.guards()[-200:]))
                continue
            for e in p.events:
                if e.kind == 'enter' and isinstance(e.fn, str):
                    ctx.funcs.add(e.fn)
            a = p.value.attrs
            j = J(ctx, con, m.loc(), p.guards())
            dt, dt2, M = a['dt'], a['dt_2d'], a['M_modesplit']
            if dt is None or dt2 is None:
                j.ob('time step set', 'dt', False, 'the time step is not set')
                continue
            E = Sy('options.simulation_export_time')
            E = attr_of(p, 'options.simulation_export_time') or E
            j.whole('step divides the export interval', 'dt', E, dt, 'the export interval is not a whole number of time steps %s' % show(dt)[:300])
            j.whole('2D step divides the 3D step', 'dt_2d', dt, dt2, 'the 3D step %s is not a whole number of 2D steps %s' % (show(dt)[:200], show(dt2)[:200]))
            ok = False
            try:
                ok = form(dt).mul(form(dt2), -1) == form(M)
            except AnalysisError:
                pass
            if not ok:
                ok = False if M is None or refute([dt, dt2, M], lambda x, y, z: x == y * z) is not None else None
            j.ob('mode split ratio', 'M', ok, 'M_modesplit is %s but dt/dt_2d is (%s)/(%s)' % (show(M)[:200], show(dt)[:200], show(dt2)[:200]))
            c2, c3 = Ex('attr', Sy('timestepper'), 'cfl_coeff_2d'), Ex('attr', Sy('timestepper'), 'cfl_coeff_3d')
            l2 = ('*', c2, L('compute_dt_2d', 'horizontal_velocity_scale'))
            l3 = [('*', c3, L('compute_dt_h_advection', 'horizontal_velocity_scale')), ('*', c3, L('compute_dt_v_advection', 'vertical_velocity_scale')),
                  ('*', c3, L('compute_dt_diffusion', 'horizontal_viscosity_scale'))]
            if auto:
                for t in l3:
                    j.le('CFL limit', '%s' % t[2].name, dt, Ex(*t), 'the 3D time step')
                if mode != '3d':
                    j.le('CFL limit', l2[2].name, dt2, Ex(*l2), 'the 2D time step')
            else:
                j.le('user step is an upper bound', 'dt', dt, attr_of(p, 'options.timestep') or Ex('attr', Sy('options'), 'timestep'), 'the time step')
                if mode == 'split':
                    j.le('user step is an upper bound', 'dt_2d', dt2, Ex('attr', Sy('options'), 'timestep_2d'), 'the 2D time step')
                # the largest admissible step is taken
                o = Ex('attr', Sy('options'), 'timestep')
                cex = refute([E, dt, o], lambda e, d, u: e / d <= 1 or e / (e / d - 1) > u)
                j.ob('largest admissible step', 'dt', cex is None, 'the time step %s is smaller than needed to fit %s into the export interval' % (show(dt)[:200], show(o)))


def attr_of(p, s):
    return Ex('attr', Sy('options'), s.split('.', 1)[1])


def limits(ctx, repo):
    """the CFL limit functions: reduced over the processes, proportional to the right length and scale"""
    cls = repo.cls('solver', 'FlowSolver')
    want = {'compute_dt_h_advection': ('u', 'h_elem_size_2d', 1), 'compute_dt_v_advection': ('w', 'v_elem_size_2d', 1),
            'compute_dt_diffusion': ('nu', 'h_elem_size_2d', 2)}
    for fam, ts in itertools.product(('dg-dg', 'rt-dg', 'bdm-dg'), ('LeapFrog', 'SSPRK22')):
        for nm in LIM:
            m = cls.find_method(nm)
            pins = {'options.element_family': fam, 'options.timestepper_type': ts}

            def body(it):
                S = make_solver(it, 'solver', 'FlowSolver')
                f = S.attrs['fields']
                for k in ('h_elem_size_2d', 'v_elem_size_2d', 'bathymetry_2d', 'h_elem_size_3d', 'v_elem_size_3d'):
                    f.attrs[k] = it.policy.function(it, k)
                it.user['S'] = S
                return it.call(it.getattr(S, nm), [Sy('scale')], {})
            con = 'FlowSolver.%s [%s %s]' % (nm, fam, ts)
            try:
                ps = list(explore(repo, lambda: Pol2(pins), body, 64))
            except AnalysisError as e:
                ctx.ob('global limit', con, None, m.loc(), str(e))
                continue
            for p in ps:
                if p.outcome != 'return':
                    ctx.ob('limit computed', con, False, m.loc(), 'the limit function stops with %s' % getattr(p.value, 'exc', ''))
                    continue
                for e in p.events:
                    if e.kind == 'enter' and isinstance(e.fn, str):
                        ctx.funcs.add(e.fn)
                j = J(ctx, con, m.loc())
                v = p.value
                j.uniform('global limit', nm, v, 'the limit')
                if nm in want:
                    _, fld, pw = want[nm]
                    try:
                        got = powers(v)
                    except AnalysisError:
                        j.ob('limit scales with the element size', nm, None, 'closed form not understood: %s' % show(v)[:200])
                        continue
                    hs = {k: n for k, n in got.items() if k.startswith('dat:')}
                    j.ob('limit scales with the element size', nm, hs == {'dat:' + fld: pw}, 'the limit depends on %s instead of %s to the power %d' % (hs, fld, pw))
                    j.ob('limit scales with the velocity or viscosity', nm, got.get('scale') == -1,
                         'the limit depends on the scale to the power %s instead of -1' % got.get('scale', 0))


class Pol2(Pol):
    def decide(self, it, cond):
        s = show(cond)
        if s.startswith('isinstance(scale'):
            return None
        return super().decide(it, cond)


def powers(v, mult=1, out=None):
    """powers of the leaf data in a product form; min and reductions are transparent"""
    out = {} if out is None else out
    f = form(v)
    for k, n in f.p.items():
        x = ATOM[k]
        if isinstance(x, Ex) and x.op == 'fun' and x.args[0] == 'allreduce':
            powers(x.args[1][0], n * mult, out)
            continue
        if isinstance(x, Ex) and x.op == 'fun' and x.args[0] in ('min', 'minimum', 'fmin') and len(x.args[1]) == 1:
            powers(x.args[1][0], n * mult, out)
            continue
        ls = {l.name for l, _ in leaves(x)}
        d = sorted(l for l in ls if l.startswith('dat:'))
        if d:
            if isinstance(x, Ex) and (x.op == 'fun' and x.args[0] in ('max', 'maximum') or head(x)[0] in ('sum', 'mean', 'max', 'average', 'median')):
                d = ['dat:%s (not its minimum)' % y[4:] for y in d]
            for q in d:
                out[q] = out.get(q, 0) + n * mult
        elif 'scale' in ls:
            if x != Sy('scale') and show(x) != 'scale':
                raise AnalysisError('nonlinear in the scale')
            out['scale'] = out.get('scale', 0) + n * mult
    return out


def solver2(ctx, repo):
    m = repo.cls('solver2d', 'FlowSolver2d').find_method('set_time_step')
    names = ('swe_timestepper_options', 'tracer_timestepper_options', 'sediment_model_options.sediment_timestepper_options',
             'sediment_model_options.exner_timestepper_options', 'nh_model_options.free_surface_timestepper_options')
    for on in list(range(len(names))) + [None]:
        pins = {'(options.timestep is None)': False, '(0 < options.timestep)': True}
        for i, n in enumerate(names):
            pins["hasattr(options.%s, 'use_automatic_timestep')" % n] = (i != 1)
            pins['options.%s.use_automatic_timestep' % n] = on == i
        if on == 1:
            pins["hasattr(options.%s, 'use_automatic_timestep')" % names[1]] = True

        def pf():
            p = Pol(pins)
            p.opaque = ('compute_time_step',)
            return p

        def body(it):
            S = make_solver(it, 'solver2d', 'FlowSolver2d')
            it.call(it.getattr(S, 'set_time_step'), [], {})
            return S
        con = '2D solver, ' + ('user step' if on is None else 'automatic step of %s' % names[on])
        for p in explore(repo, pf, body, 64):
            j = J(ctx, con, m.loc())
            if p.outcome != 'return':
                j.ob('time step set', 'dt', False, 'set_time_step stops with %s' % getattr(p.value, 'exc', ''))
                continue
            for e in p.events:
                if e.kind == 'enter' and isinstance(e.fn, str):
                    ctx.funcs.add(e.fn)
            dt = p.value.attrs['dt']
            if on is None:
                j.ob('user step is used', 'dt', show(strip(dt)) == 'options.timestep', 'the time step is %s instead of options.timestep' % show(dt)[:200])
                continue
            s = show(dt)
            ok = 'compute_time_step' in s
            j.ob('automatic step is used', 'dt', ok, 'an automatic step is requested but dt is %s' % s[:200])
            if ok:
                bad = [op for op in reductions(dt)]
                ops = [show(o).split('.')[-1] for o in bad]
                j.ob('global limit', 'dt', len(ops) >= 1 and all(o == 'MIN' for o in ops) and not outside(dt),
                     'the limit is reduced over the processes with %s; expected one MIN around every process local value' % (ops or 'nothing'))
                f = form_through(dt)
                if f is None:
                    j.ob('step is a fraction of the limit', 'dt', None, 'closed form not understood: %s' % s[:200])
                else:
                    c, pw = f
                    cfl = [n for k, n in pw.items() if show(ATOM[k]) == 'options.cfl_2d']
                    lim = [(ATOM[k], n) for k, n in pw.items() if 'compute_time_step' in show(ATOM[k])]
                    ok = cfl == [1] and len(lim) == 1 and lim[0][1] == 1 and len(pw) == 2 and c <= 1 and lim[0][0].op == 'fun' and lim[0][0].args[0] in ('min', 'minimum') \
                        and 'options.horizontal_velocity_scale' in show(lim[0][0])
                    j.ob('step is a fraction of the limit', 'dt', ok, 'the automatic step %s is not CFL number times the smallest local limit' % s[:300])


def outside(v):
    """process local limit data outside a reduction?"""
    for l, r in leaves(v):
        if not r and 'compute_time_step' in l.name:
            return True
    return False


def form_through(v):
    try:
        f = form(v)
        c, out = f.c, {}
        todo = [(k, n) for k, n in f.p.items()]
        while todo:
            k, n = todo.pop()
            x = ATOM[k]
            if isinstance(x, Ex) and x.op == 'fun' and x.args[0] == 'allreduce' and n == 1:
                g = form(x.args[1][0])
                c *= g.c
                todo += list(g.p.items())
            elif isinstance(x, Ex) and x.op == 'fun' and x.args[0] == 'min' and n == 1 and len(x.args[1]) == 1 and head(x.args[1][0])[0] == 'allreduce':
                todo.append((at(x.args[1][0]), 1))
            else:
                out[k] = out.get(k, 0) + n
        return c, out
    except AnalysisError:
        return None


@prop('C07', 'time step selection of both solvers in every mode', 60, TECH)
def c07(ctx):
    repo = get_repo()
    solver3(ctx, repo)
    limits(ctx, repo)
    solver2(ctx, repo)
