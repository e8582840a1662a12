"""C04: diagnostic callbacks (evaluation window, records, diagnostics file, conservation integrals)."""
from fractions import Fraction
from sa.core import prop
from sa.absint import explore, Sy, Ex, Ext, Ob, Fv, RaiseSig, show, key, is_conc
from sa.sysim import SysPolicy, make_solver, is_fn
from sa.lin import lin, show_lin, num
from sa.repo import AnalysisError
from checks.c_timeloop import LoopPolicy, make as make_loop, OFF

TECH = ('abstract interpretation of the callback classes over an abstract diagnostics file (datasets as row maps) and symbolic fields; '
        'decided for every listed history of evaluations, windows, restarts and ranks; option-to-callback dispatch on the guard-partitioned loop setup')

VALUES = [Fraction(10), Fraction(13), Fraction(8), Fraction(21), Fraction(10), Fraction(4), Fraction(5)]
INF = float('inf')


def inf(v):
    if isinstance(v, Ext) and v.short in ('inf', 'Inf', 'infty'):
        return INF
    if isinstance(v, Ex) and v.op == 'neg' and inf(v.args[0]) is not None:
        return -inf(v.args[0])
    if isinstance(v, Ex) and v.op == 'call' and show(v.args[0]) == 'float' and v.args[1] and isinstance(v.args[1][0], str):
        return float(v.args[1][0])
    return None


class CbPolicy(SysPolicy):
    concrete = ('CallbackManager', 'DiagnosticHDF5', 'DiagnosticCallback')
    max_depth = 60

    def files(self, it):
        return it.user.setdefault('files', {})

    def compare(self, it, op, a, b):
        x, y = inf(a), inf(b)
        if (x is not None or y is not None) and op in ('<', '<=', '>', '>=', '==', '!='):
            p = x if x is not None else a
            q = y if y is not None else b
            if all(isinstance(v, (int, float, Fraction)) for v in (p, q)):
                return {'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q, '==': p == q, '!=': p != q}[op]
        if op in ('in', 'not in') and isinstance(b, Ob) and 'items' in b.meta:
            r = a in b.meta['items']
            return r if op == 'in' else not r
        if op in ('is', 'is not') and None in (a, b) and isinstance(a if b is None else b, (Sy, Ext)):
            return op == 'is not'
        return super().compare(it, op, a, b)

    def decide(self, it, cond):
        if inf(cond) is not None:
            return True
        if isinstance(cond, Ob) and 'items' in cond.meta:
            return bool(cond.meta['items'])
        r = super().decide(it, cond)
        return r

    def wrote(self, it, o, how, src, node):
        c = it.user.setdefault('content', {})
        c[o.oid] = (how, src, c.get(src.oid) if is_fn(src) else None)
        super().wrote(it, o, how, src, node)

    # callbacks manager is a dictionary of dictionaries
    def is_mgr(self, o):
        return isinstance(o, Ob) and o.clsname == 'CallbackManager'

    def index(self, it, base, idx, node):
        if self.is_mgr(base):
            return base.attrs.setdefault('_dict', {}).setdefault(idx, {})
        if isinstance(base, Ob) and 'h5' in base.meta:
            ds = base.meta['h5']['ds']
            if idx not in ds:
                raise RaiseSig('KeyError', it.loc(node))
            o = it.obj('dataset', idx)
            o.meta['ds'] = ds[idx]
            return o
        if isinstance(base, Ob) and 'items' in base.meta:
            if idx not in base.meta['items']:
                raise RaiseSig('KeyError', it.loc(node))
            return base.meta['items'][idx]
        return super().index(it, base, idx, node)

    def setindex(self, it, base, idx, value, node):
        if isinstance(base, Ob) and 'ds' in base.meta:
            i = idx[0] if isinstance(idx, tuple) else idx
            d = base.meta['ds']
            if not isinstance(i, int) or isinstance(i, bool):
                raise AnalysisError('row index %s of dataset %s is not known' % (show(i), base.name))
            if i < 0:
                i += d['n']
            if not 0 <= i < d['n']:
                raise RaiseSig('IndexError', it.loc(node))
            d['rows'][i] = value
            return None
        if isinstance(base, Ob) and 'items' in base.meta:
            base.meta['items'][idx] = value
            return None
        return super().setindex(it, base, idx, value, node)

    def attr(self, it, base, name, node):
        if isinstance(base, Ob):
            if 'ds' in base.meta:
                if name == 'shape':
                    return (base.meta['ds']['n'],) + tuple(base.meta['ds']['dim'])
                if name == 'attrs':
                    o = it.obj('attrs')
                    o.meta['items'] = base.meta['ds']['attrs']
                    return o
                return ('method', base, name)
            if 'h5' in base.meta:
                if name == 'attrs':
                    o = it.obj('attrs')
                    o.meta['items'] = base.meta['h5']['attrs']
                    return o
                return ('method', base, name)
            if 'items' in base.meta:
                return ('method', base, name)
            if is_fn(base) and name == 'dat':
                return Ex('attr', base, 'dat')
        return super().attr(it, base, name, node)

    def iterate(self, it, value, node):
        if self.is_mgr(value):
            return list(value.attrs.setdefault('_dict', {}))
        if isinstance(value, Ob) and 'h5' in value.meta:
            return list(value.meta['h5']['ds'])
        return super().iterate(it, value, node)

    def value(self, it, what, node):
        k = it.user.setdefault('k', 0)
        it.user['k'] = k + 1
        it.event('eval', 'eval', [what], {}, node)
        return VALUES[k % len(VALUES)]

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Fv) and fn.func.name == 'create_directory':
            it.event('mkdir', 'mkdir', args, kwargs, node)
            return args[0]
        if isinstance(fn, Sy) and fn.name == 'scalar_callback':
            return self.value(it, Sy('scalar'), node)
        if isinstance(fn, Ext):
            s = fn.short
            if s == 'print_output':
                it.event('log', 'log', args, kwargs, node)
                return None
            if s == 'assemble':
                return self.value(it, args[0], node)
            if fn.name in ('h5py.File',):
                md = kwargs.get('mode', args[1] if len(args) > 1 else 'r')
                f = key(args[0])
                it.event('file', md, [args[0]], {}, node)
                if md == 'w' or (md in ('a', 'r+') and f not in self.files(it)):
                    self.files(it)[f] = dict(ds={}, attrs={}, name=args[0])
                elif f not in self.files(it):
                    raise RaiseSig('OSError', it.loc(node))
                o = it.obj('h5', 'h5')
                o.meta['h5'] = self.files(it)[f]
                return o
            if s in ('isfile', 'exists') and 'path' in fn.name:
                return key(args[0]) in self.files(it)
            if s == 'join' and 'path' in fn.name:
                return Ex('path', *args)
            if s == 'defaultdict' or s == 'OrderedDict' and not args:
                return {}
            if s == 'int' and args and is_conc(args[0]):
                return int(args[0])
        if isinstance(fn, Fv) and fn.func.name == 'print_output' or isinstance(fn, Ex) and fn.op == 'attr' and fn.args[1] == 'info' or \
                isinstance(fn, tuple) and len(fn) == 3 and fn[2] == 'info':
            it.event('log', 'log', args, kwargs, node)
            return None
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and isinstance(fn[1], Ob):
            o, name = fn[1], fn[2]
            if 'h5' in o.meta:
                if name == 'create_dataset':
                    shape = args[1] if len(args) > 1 else kwargs['shape']
                    d = dict(n=shape[0], dim=list(shape[1:]), rows={}, attrs={}, max=kwargs.get('maxshape'))
                    o.meta['h5']['ds'][args[0]] = d
                    ds = it.obj('dataset', args[0])
                    ds.meta['ds'] = d
                    return ds
                if name == 'close':
                    return None
                if name == '__enter__':
                    return o
                if name == 'keys':
                    return list(o.meta['h5']['ds'])
            if 'ds' in o.meta and name == 'resize':
                sh = args[0]
                d = o.meta['ds']
                n = sh if isinstance(sh, int) else sh[0]
                if kwargs.get('axis') is not None or len(args) > 1:
                    n = args[0]
                d['n'] = n
                for i in list(d['rows']):
                    if i >= n:
                        del d['rows'][i]
                return None
            if 'items' in o.meta:
                d = o.meta['items']
                if name == 'update':
                    src = args[0].attrs if isinstance(args[0], Ob) else args[0]
                    d.update(src)
                    return None
                if name == 'get':
                    return d.get(args[0], args[1] if len(args) > 1 else None)
                if name == 'setdefault':
                    return d.setdefault(args[0], args[1])
        if isinstance(fn, Ex) and fn.op == 'attr' and fn.args[1] == 'isoformat':
            return Ex('iso', fn.args[0])
        if isinstance(fn, Ex) and fn.op == 'attr' and fn.args[1] == 'allreduce':
            op = kwargs.get('op', args[1] if len(args) > 1 else None)
            k = it.user.setdefault('r', 0)
            it.user['r'] = k + 1
            it.event('reduce', show(op), [args[0], fn.args[0]], {}, node)
            return VALUES[k % len(VALUES)]
        return super().call(it, fn, args, kwargs, node)


class Out:
    pass


def setup(it, kind='2d', rank=0):
    """solver object with the attributes that callbacks use"""
    mod, cls = ('solver2d', 'FlowSolver2d') if kind == '2d' else ('solver', 'FlowSolver')
    S = make_solver(it, mod, cls)
    pol = it.policy
    f = S.attrs['fields']
    for n in ('elev_2d', 'bathymetry_2d', 'solution_2d', 'c_2d', 'q_2d', 'salt_3d', 'temp_3d', 'uv_3d', 'uv_2d'):
        f.attrs[n] = pol.function(it, n)
    D = it.obj(it.repo.cls('utility', 'DepthExpression'), 'depth')
    D.meta['stub'] = True
    S.attrs['depth'] = D
    S.attrs['mesh'] = Sy('mesh')
    S.attrs['dt'] = Sy('dt')
    S.attrs['simulation_time'] = 0
    pol.pins['comm.rank'] = rank
    pol.pins['options.output_directory'] = 'out'
    return S


def mk(it, cls, args, kw):
    c = it.repo.cls('callback', cls)
    return it.instantiate(c, list(args), dict(kw), None)


def rows(f, var):
    d = f['ds'].get(var)
    return None if d is None else [d['rows'].get(i) for i in range(d['n'])]


def the_file(it):
    fs = list(it.policy.files(it).values())
    return fs[0] if len(fs) == 1 else None


def scal(v):
    while isinstance(v, (list, tuple)) and len(v) == 1:
        v = v[0]
    return v


def runs(ctx, body, rank=0, date=False):
    pins = {'options.simulation_initial_date': Sy('DATE') if date else None}
    return explore(ctx.repo, lambda: CbPolicy(dict(pins)), body)


def where(ctx, cls, m='evaluate'):
    return 'thetis/callback.py:%s.%s' % (cls, m)


BASE = 'VolumeConservation2DCallback'


# ------------------------------------------------------------------ windows
def windows(ctx):
    for s, e, t in [(None, None, 0), (None, None, 7), (0, None, -5), (0, None, 0), (0, 10, 10), (0, 10, 11), (None, 0, 5), (None, 0, 0),
                    (5, None, 4), (5, None, 5), (5, 8, 6), (5, 8, 9), (-3, 0, -1), (-3, 0, 1), (-8, -3, -5), (-8, -3, 0)]:
        for h5, log in ((True, True), (False, True), (True, False), (False, False)):
            kw = dict(export_to_hdf5=h5, append_to_log=log)
            if s is not None:
                kw['start_time'] = s
            if e is not None:
                kw['end_time'] = e

            def body(it):
                S = setup(it)
                cb = mk(it, BASE, [S], kw)
                S.attrs['simulation_time'] = t
                it.call(it.getattr(cb, 'evaluate'), [], {})
                o = Out()
                return o
            con = 'start %s, end %s, time %s, hdf5 %s, log %s' % (s, e, t, h5, log)
            act = (s is None or t >= s) and (e is None or t <= e)
            for p in runs(ctx, body):
                if p.outcome == 'raise':
                    ctx.ob('evaluation window', con, False, str(p.value.loc), 'evaluate raises %s' % p.value.exc)
                    continue
                n = len([x for x in p.events if x.kind == 'eval'])
                nl = len([x for x in p.events if x.kind == 'log'])
                fl = [x for x in p.events if x.kind == 'file']
                ctx.ob('evaluation window', con, n == int(act), where(ctx, 'DiagnosticCallback'),
                       'the diagnostic is computed %d times for start_time=%s, end_time=%s at time %s, expected %d' % (n, s, e, t, int(act)))
                ctx.ob('logged iff requested', con, (nl >= 1) == (act and log), where(ctx, 'DiagnosticCallback'),
                       '%d log messages with append_to_log=%s at time %s in window [%s, %s]' % (nl, log, t, s, e))
                f = the_file(p.it)
                ok = bool(fl) == (act and h5)
                if ok and fl:
                    ok = rows(f, 'time') is not None and [scal(x) for x in rows(f, 'time')] == [t] and all(
                        len(rows(f, v)) == 1 and rows(f, v)[0] is not None for v in ('integral', 'relative_difference'))
                ctx.ob('one row written iff requested', con, ok, where(ctx, 'DiagnosticCallback', 'push_to_hdf5'),
                       'file content after one evaluation with export_to_hdf5=%s at time %s in window [%s, %s]: %s' % (
                           h5, t, s, e, f and {k: rows(f, k) for k in f['ds']}))


# ------------------------------------------------------------------ records
def table(f):
    return None if f is None else {k: [scal(x) for x in rows(f, k)] for k in f['ds']}


def expect(times, vals, first):
    return {'time': list(times), 'integral': list(vals), 'relative_difference': [(v - first) / first for v in vals]}


HIST = [
    # name, (previous rows, mode), [(time, index)], expected [(time, which evaluation)]
    ('appended rows', 0, 'create', [(0, None), (5, None), (10, None)], [0, 1, 2]),
    ('indexed rows', 0, 'create', [(0, 0), (5, 1), (10, 2)], [0, 1, 2]),
    ('same index written again', 0, 'create', [(0, 0), (5, 1), (5, 1), (10, 2)], [0, 2, 3]),
    ('stale file replaced', 3, 'create', [(0, None), (5, None)], [0, 1]),
    ('stale file replaced, indexed', 3, 'create', [(0, 0), (5, 1)], [0, 1]),
    ('continued, appended', 2, 'append', [(20, None), (30, None)], ['p0', 'p1', 0, 1]),
    ('continued, indexed', 2, 'append', [(20, 2), (30, 3)], ['p0', 'p1', 0, 1]),
    ('continued from an earlier export', 3, 'append', [(10, 1), (20, 2), (30, 3)], ['p0', 0, 1, 2]),
    ('continued without an earlier file', 0, 'append', [(20, 2), (30, 3)], [0, 1]),
    ('continued without an earlier file, appended', 0, 'append', [(20, None), (30, None)], [0, 1]),
    ('first row at a later export', 0, 'create', [(20, 2), (30, 3), (40, 4)], [0, 1, 2]),
]


def history(ctx):
    for name, prev, mode, evs, want in HIST:
        for rank in (0, 1):
            for date in (False, True):
                def body(it):
                    S = setup(it, rank=rank)
                    if prev:
                        d = lambda dim: dict(n=prev, dim=dim, rows={i: 'p%d' % i for i in range(prev)}, attrs={}, max=None)
                        cb0 = mk(it, BASE, [S], {})
                        # name of the file is what a first run uses
                        it.call(it.getattr(cb0, 'evaluate'), [], {})
                        if rank == 0:
                            fn = the_file(it)
                            for v in list(fn['ds']):
                                fn['ds'][v] = d(fn['ds'][v]['dim'])
                            fn['attrs'] = {}
                        it.user['k'] = 0
                        it.user['mark'] = len(it.events)
                    m = mk(it, 'CallbackManager', [], {})
                    cb = mk(it, BASE, [S], {})
                    other = mk(it, 'TracerMassConservation2DCallback', ['c_2d', S], dict(export_to_hdf5=False, append_to_log=False))
                    if mode == 'append':
                        it.call(it.getattr(cb, 'set_write_mode'), ['append'], {})
                    elif mode == 'create' and prev == 3:
                        it.call(it.getattr(cb, 'set_write_mode'), ['create'], {})
                    it.call(it.getattr(m, 'add'), [cb, 'export'], {})
                    it.call(it.getattr(m, 'add'), [other, 'timestep'], {})
                    for t, ix in evs:
                        S.attrs['simulation_time'] = t
                        it.call(it.getattr(m, 'evaluate'), ['export'] if ix is None else [], {} if ix is None else {'mode': 'export', 'index': ix})
                    return Out()
                con = '%s, rank %d%s' % (name, rank, ', dated' if date else '')
                for p in runs(ctx, body, date=date):
                    if p.outcome == 'raise':
                        ctx.ob('recorded rows', con, False, str(p.value.loc), 'recording a sequence of evaluations (%s) raises %s' % (name, p.value.exc))
                        continue
                    ev = p.events[p.it.user.get('mark', 0):]
                    n = len([x for x in ev if x.kind == 'eval'])
                    ctx.ob('every registered callback evaluated once', con, n == len(evs), where(ctx, 'CallbackManager'),
                           '%d evaluations of the diagnostic in %d calls of evaluate' % (n, len(evs)))
                    if rank:
                        fl = [x for x in ev if x.kind == 'file']
                        ctx.ob('only rank 0 accesses the diagnostics file', con, not fl, fl[0].loc if fl else where(ctx, 'DiagnosticHDF5'),
                               'rank %d opens the diagnostics file' % rank)
                        continue
                    f = the_file(p.it)
                    got = table(f)
                    v = VALUES
                    exp = {'time': [], 'integral': [], 'relative_difference': []}
                    for w in want:
                        if isinstance(w, str):
                            for k in exp:
                                exp[k].append(w)
                        else:
                            exp['time'].append(evs[w][0])
                            exp['integral'].append(v[w])
                            exp['relative_difference'].append((v[w] - v[0]) / v[0])
                    ctx.ob('recorded rows', con, got == exp, where(ctx, 'DiagnosticHDF5', 'export'),
                           'diagnostics file (%s) holds %s, expected %s' % (name, pr(got), pr(exp)))
                    if date and not prev:
                        a = f['ds']['time']['attrs'] if f and 'time' in f['ds'] else {}
                        ctx.ob('time axis labelled with the start date', con, any('DATE' in show(x)
                                                                                  for x in a.values()), where(ctx, 'DiagnosticCallback', '__init__'),
                               'time units are %s although an initial date is set' % pr(a))


def pr(d):
    if isinstance(d, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, pr(v)) for k, v in d.items())
    if isinstance(d, list):
        return '[%s]' % ', '.join(pr(x) for x in d)
    if isinstance(d, Fraction):
        return str(float(d))
    return str(d) if isinstance(d, (int, str, float)) else show(d)


# ------------------------------------------------------------------ integrals
def scalar_classes():
    H = Ex('call', Sy('total_depth'), (), ())
    return [('VolumeConservation2DCallback', '2d', [], 'volume', ('elev_2d', 'bathymetry_2d')),
            ('VolumeConservation3DCallback', '3d', [], 'one', ()),
            ('TracerMassConservation2DCallback', '2d', ['c_2d'], 'depth-weighted', ('c_2d',)),
            ('ConservativeTracerMassConservation2DCallback', '2d', ['q_2d'], 'integral', ('q_2d',)),
            ('TracerMassConservationCallback', '3d', ['salt_3d'], 'integral', ('salt_3d',))]


def measure(v):
    return isinstance(v, (Ext, Sy)) and show(v).split('.')[-1] == 'dx' or \
        isinstance(v, Ex) and v.op == 'call' and measure(v.args[0])


def integrand(v):
    """(normal form of the integrand, measure)"""
    if isinstance(v, Ex) and v.op in ('+', '-') and len(v.args) == 2:
        a, b = (integrand(x) for x in v.args)
        if a is not None and b is not None and key(a[1]) == key(b[1]):
            return (a[0] + b[0] if v.op == '+' else a[0] - b[0]), a[1]
        return None
    if isinstance(v, Ex) and v.op == '*':
        ms = [a for a in v.args if measure(a)]
        if len(ms) == 1:
            r = num(1)
            for a in v.args:
                if a is not ms[0]:
                    r = r * lin(simp(a))
            return r, ms[0]
        for a in v.args:
            if isinstance(a, Ex) and a.op == '*':
                i = integrand(a)
                if i is not None:
                    r = i[0]
                    for b in v.args:
                        if b is not a:
                            r = r * lin(simp(b))
                    return r, i[1]
    return None


def simp(v):
    if isinstance(v, Ex) and v.op == 'call' and show(v.args[0]).split('.')[-1] == 'Constant' and v.args[1]:
        return v.args[1][0]
    if isinstance(v, Ex) and v.op in ('*', '+', '-'):
        return Ex(v.op, *[simp(a) for a in v.args])
    return v


def integrals(ctx):
    for cls, kind, args, what, fs in scalar_classes():
        def body(it):
            S = setup(it, kind)
            o = Out()
            o.S = S
            cb = mk(it, cls, (args + [S]), dict(export_to_hdf5=False))
            o.v = [it.call(cb, [], {}) for k in range(3)]
            o.cb = cb
            return o
        con = cls
        for p in runs(ctx, body):
            if p.outcome == 'raise':
                ctx.ob('conserved quantity', con, False, str(p.value.loc), '%s raises %s' % (cls, p.value.exc))
                continue
            S = p.value.S
            F = S.attrs['fields'].attrs
            loc = 'thetis/callback.py:%s' % cls
            ev = [x for x in p.events if x.kind == 'eval']
            for x in ev:
                i = integrand(x.args[0])
                if i is None:
                    ctx.ob('conserved quantity', con, None, x.loc, 'integral %s not recognised' % show(x.args[0]))
                    continue
                if what == 'volume':
                    ok = i[0] == lin(F['elev_2d']) + lin(F['bathymetry_2d'])
                elif what == 'one':
                    ok = i[0] == num(1) and S.attrs['mesh'] in _args(i[1])
                elif what == 'integral':
                    ok = i[0] == lin(F[fs[0]])
                else:
                    hs = [e.res for e in p.events if e.kind == 'do' and e.fn == 'get_total_depth' and e.args[0] is S.attrs['depth'] and
                          e.args[1:] == [F['elev_2d']]]
                    ok = any(i[0] == lin(F[fs[0]]) * lin(h) for h in hs)
                ctx.ob('conserved quantity', con, ok, x.loc, '%s integrates %s' % (cls, show(x.args[0])))
            for k, v in enumerate(p.value.v):
                w = [VALUES[k], (VALUES[k] - VALUES[0]) / VALUES[0]]
                ctx.ob('value and relative difference to the first evaluation', con, list(v) == w if isinstance(v, (tuple, list)) else False, loc,
                       'evaluation %d with integral %s (first %s) returns %s' % (k, float(VALUES[k]), float(VALUES[0]), show(v)))
    # minima and maxima
    seq = VALUES[:6]

    def body(it):
        S = setup(it, '3d')
        cb = mk(it, 'TracerOvershootCallBack', ['salt_3d', S], dict(export_to_hdf5=False))
        o = Out()
        o.v = [it.call(cb, [], {}) for k in range(3)]
        o.S = S
        return o
    for p in runs(ctx, body):
        con = 'TracerOvershootCallBack'
        loc = 'thetis/callback.py:MinMaxConservationCallback.__call__'
        if p.outcome == 'raise':
            ctx.ob('minimum and maximum', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
            continue
        red = [x for x in p.events if x.kind == 'reduce']
        F = p.value.S.attrs['fields'].attrs['salt_3d']
        ctx.ob('minimum and maximum', con, len(red) == 6 or None, loc, '%d reductions in 3 evaluations' % len(red))
        if len(red) != 6:
            continue
        for k, v in enumerate(p.value.v):
            two = red[2 * k:2 * k + 2]
            vals = {}
            for j, x in enumerate(two):
                a = show(x.args[0])
                op = x.fn.split('.')[-1]
                local = 'min' if '.min' in a else 'max' if '.max' in a else '?'
                ctx.ob('minimum and maximum', con, local.upper() == op and mentions(x.args[0], F), x.loc,
                       'local value %s is reduced over all processes with %s' % (a, x.fn))
                vals[local] = seq[2 * k + j]
            if k == 0:
                first = dict(vals)
            if set(vals) != {'min', 'max'}:
                continue
            w = [vals['min'], vals['max'], min(vals['min'] - first['min'], 0), max(vals['max'] - first['max'], 0)]
            ctx.ob('under- and overshoot relative to the first evaluation', con, isinstance(v, (tuple, list)) and list(v) == w, loc,
                   'min/max %s (first %s) gives %s' % (pr(vals), pr(first), pr(list(v)) if isinstance(v, (tuple, list)) else show(v)))

    # time integrals
    times = [3, 5, 9, 10]

    def body(it):
        S = setup(it)
        cb = mk(it, 'AccumulatorCallback', [Sy('scalar_callback'), S], {})
        for t in times:
            S.attrs['simulation_time'] = t
            it.call(cb, [], {})
        o = Out()
        o.v = it.call(it.getattr(cb, 'get_val'), [], {})
        return o
    for p in runs(ctx, body):
        con = 'AccumulatorCallback'
        loc = 'thetis/callback.py:AccumulatorCallback.__call__'
        if p.outcome == 'raise':
            ctx.ob('trapezium rule in time', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
            continue
        w = sum((times[i + 1] - times[i]) * (VALUES[i] + VALUES[i + 1]) / 2 for i in range(3))
        v = p.value.v
        ctx.ob('trapezium rule in time', con, lin(v) == num(w), loc, 'values %s at times %s integrate to %s, expected %s' % (
            pr(VALUES[:4]), times, pr(v), float(w)))


def stations(ctx):
    """values at stations: interpolated to the points, then to the order in which the points were given, at every evaluation"""
    LOC = [(1, 2), (3, 4), (5, 6)]
    for cls, args, kw, names in (
            ('DetectorsCallback', lambda S: [S, list(LOC), ['elev_2d', 'uv_2d'], 'det'], {}, ('elev_2d', 'uv_2d')),
            ('TimeSeriesCallback2D', lambda S: [S, ['elev_2d', 'uv_2d'], 1, 2, 'st'], {}, ('elev_2d', 'uv_2d'))):
        def body(it):
            S = setup(it)
            S.attrs['mesh2d'] = Sy('mesh2d')
            cb = mk(it, cls, args(S), dict(kw))
            o = Out()
            o.S = S
            o.ev = []
            for k in range(2):
                n0 = len(it.events)
                v = it.call(cb, [], {})
                o.ev.append((v, dict(it.user.get('content', {})), it.events[n0:]))
            return o
        con = cls
        loc = 'thetis/callback.py:%s.__call__' % cls
        for p in runs(ctx, body):
            if p.outcome == 'raise':
                if p.value.exc in ('AssertionError',):
                    continue
                ctx.ob('station values', con, False, str(p.value.loc), '%s raises %s [%s]' % (cls, p.value.exc, p.guards()))
                continue
            fact = {show(c): v for c, v, _ in p.factlog}
            F = p.value.S.attrs['fields'].attrs
            for k, (v, content, evs) in enumerate(p.value.ev):
                fns = []
                collect(v, fns)
                srcs = []
                ok = True
                for f in fns:
                    c = content.get(f.oid)
                    sp = f.meta.get('space')
                    inorder = sp is not None and 'input_ordering' in show(sp)
                    via = c[1] if c else None
                    c2 = content.get(via.oid) if is_fn(via) else None
                    field = c2[1] if c2 else None
                    fresh = any(e.kind == 'write' and e.args[0] is f for e in evs) and any(e.kind == 'write' and e.args[0] is via for e in evs)
                    pts = is_fn(via) and via.meta.get('space') is not None and 'VertexOnlyMesh' in show(via.meta['space']) and \
                        'input_ordering' not in show(via.meta['space'])
                    good = inorder and pts and fresh and c[0] == 'interpolate' and c2[0] == 'interpolate'
                    srcs.append(next((n for n in names if F[n] is field), None) if good else None)
                ctx.ob('station values', con, srcs == list(names) if fns else None, loc,
                       'evaluation %d returns the values of %s: not every requested field (%s) newly interpolated to the stations in the given order '
                       '(found %s) [%s]' % (k, show(v)[:200], ', '.join(names), srcs, p.guards()))


def collect(v, out):
    if is_fn(v):
        if v not in out:
            out.append(v)
    elif isinstance(v, Ex):
        for a in v.args:
            collect(a, out)
    elif isinstance(v, (tuple, list)):
        for a in v:
            collect(a, out)


def mentions(v, o):
    if v is o:
        return True
    if isinstance(v, Ex):
        return any(mentions(a, o) for a in v.args)
    if isinstance(v, (tuple, list)):
        return any(mentions(a, o) for a in v)
    return False


def _args(m):
    if isinstance(m, Ex) and m.op == 'call':
        return list(m.args[1]) + [v for _, v in m.args[2]]
    return []


# ------------------------------------------------------------------ options
class DispatchPolicy(LoopPolicy):
    while_bound = 1
    forever_bound = 1
    on = {}

    def inline(self, it, func, self_):
        if func.name == 'add_callback':
            return SysPolicy.inline(self, it, func, self_)
        return super().inline(it, func, self_)

    def attr(self, it, base, name, node):
        if isinstance(base, (Sy, Ex)):
            s = show(base) + '.' + name
            if s in self.on and (key(base), name) not in it.overlay:
                return self.on[s]
        return super().attr(it, base, name, node)

    def name(self, it, name, module):
        return NotImplemented

    def iterate(self, it, value, node):
        return super().iterate(it, value, node)


def trac(it, label, cons):
    return Sy(label)


DISPATCH = {
    '2d': [('check_volume_conservation_2d', {}, [('VolumeConservation2DCallback', None)]),
           ('check_tracer_conservation', {}, [('TracerMassConservation2DCallback', 'a_2d'), ('ConservativeTracerMassConservation2DCallback', 'b_2d')]),
           ('check_tracer_overshoot', {}, [('TracerOvershootCallBack', 'a_2d'), ('TracerOvershootCallBack', 'b_2d')]),
           ('sediment_model_options.check_sediment_conservation', {'sediment_model_options.use_sediment_conservative_form': False},
            [('TracerMassConservation2DCallback', 'sediment_2d')]),
           ('sediment_model_options.check_sediment_conservation', {'sediment_model_options.use_sediment_conservative_form': True},
            [('ConservativeTracerMassConservation2DCallback', 'sediment_2d')]),
           ('sediment_model_options.check_sediment_overshoot', {}, [('TracerOvershootCallBack', 'sediment_2d')])],
    '3d': [('check_volume_conservation_2d', {}, [('VolumeConservation2DCallback', None)]),
           ('check_volume_conservation_3d', {'use_ale_moving_mesh': True}, [('VolumeConservation3DCallback', None)]),
           ('check_salinity_conservation', {'solve_salinity': True}, [('TracerMassConservationCallback', 'salt_3d')]),
           ('check_salinity_overshoot', {'solve_salinity': True}, [('TracerOvershootCallBack', 'salt_3d')]),
           ('check_temperature_conservation', {'solve_temperature': True}, [('TracerMassConservationCallback', 'temp_3d')]),
           ('check_temperature_overshoot', {'solve_temperature': True}, [('TracerOvershootCallBack', 'temp_3d')]),
           ('check_salinity_conservation', {'solve_salinity': False}, []),
           ('check_temperature_overshoot', {'solve_temperature': False}, [])],
}


def dispatch(ctx):
    for kind in ('2d', '3d'):
        loc = 'thetis/solver2d.py:FlowSolver2d.create_iterator' if kind == '2d' else 'thetis/solver.py:FlowSolver.iterate'
        for opt, extra, want in DISPATCH[kind] + [(None, {}, [])]:
            for h5 in (True, False):
                on = {'options.' + o: False for o in OFF}
                on.update({'options.' + o: v for o, v in extra.items()})
                on.update({'options.solve_salinity': extra.get('solve_salinity', False), 'options.solve_temperature': extra.get('solve_temperature', False),
                           'options.export_diagnostics': h5, 'options.no_exports': False, 'options.use_ale_moving_mesh': True,
                           'options.simulation_export_time': Sy('E')})
                if opt:
                    on['options.' + opt] = True

                def policy():
                    p = DispatchPolicy({'options.simulation_initial_date is None': True})
                    tr = {'a_2d': Sy('tracer_a'), 'b_2d': Sy('tracer_b')}
                    p.on = dict(on)
                    p.on['options.tracer'] = tr
                    p.on['tracer_a.use_conservative_form'] = False
                    p.on['tracer_b.use_conservative_form'] = True
                    return p
                con = '%s, %s%s%s' % (kind, opt or 'no checks', ''.join(', %s=%s' % x for x in extra.items()), '' if h5 else ', no diagnostics export')
                n = 0
                cont = set()
                for p in explore(ctx.repo, policy, make_loop(kind, Sy('next_export'))):
                    if p.outcome == 'raise' and p.value.exc == 'AssertionError':
                        continue
                    n += 1
                    g = p.guards()
                    if p.outcome == 'raise':
                        ctx.ob('requested check is registered', con, False, str(p.value.loc), 'setting up the run raises %s [%s]' % (p.value.exc, g))
                        continue
                    adds = [e for e in p.events if e.kind == 'obs' and e.fn == 'callbacks.add']
                    got = []
                    for e in adds:
                        cb = e.args[0]
                        a = cb.meta.get('args', {}) if isinstance(cb, Ob) else {}
                        got.append((cb.clsname if isinstance(cb, Ob) else show(cb), a.get('tracer_name')))
                        b = {k: a.get(k) for k in ('export_to_hdf5', 'append_to_log')}
                        mode = e.args[1] if len(e.args) > 1 else e.kwargs.get('mode')
                        ctx.ob('check is logged and stored as requested', con, a.get('append_to_log', True) is True and
                               a.get('export_to_hdf5', True) is h5 and mode == 'export' and a.get('solver_obj') is p.it.user['S'], e.loc,
                               'diagnostic %s is registered under %s with %s' % (got[-1][0], mode, {k: show(v) for k, v in b.items()}))
                    first = [i for i, e in enumerate(p.events) if e.kind == 'obs' and e.fn in ('callbacks.evaluate', 'timestepper.advance')]
                    last = [i for i, e in enumerate(p.events) if e in adds]
                    ok = sorted(map(str, got)) == sorted(map(str, want)) and (not first or not last or max(last) < min(first))
                    ctx.ob('requested check is registered', con, ok, adds[0].loc if adds else loc,
                           'with option %s the diagnostics %s are registered, expected %s [%s]' % (opt, got, want, g))
                if not n:
                    ctx.ob('requested check is registered', con, None, loc, 'no trace')


# ------------------------------------------------------------------ continued runs
def continued(ctx):
    """in a continued 3D run every callback is set to append before it is evaluated"""
    loc = 'thetis/solver.py:FlowSolver.iterate'

    def policy():
        p = DispatchPolicy({})
        p.on = {'options.' + o: False for o in OFF}
        p.on.update({'options.simulation_export_time': Sy('E'), 'options.export_diagnostics': True, 'options.no_exports': False})
        return p
    for p in explore(ctx.repo, policy, make_loop('3d', Sy('next_export'))):
        if p.outcome == 'raise':
            continue
        fact = {show(c): v for c, v, _ in p.factlog}
        c = fact.get('_simulation_continued')
        if c is None:
            c = fact.get('solver._simulation_continued')
        sets = [i for i, e in enumerate(p.events) if 'set_write_mode' in str(e.fn)]
        first = [i for i, e in enumerate(p.events) if e.kind == 'obs' and e.fn in ('callbacks.evaluate',)]
        g = p.guards()
        if c is True:
            ok = bool(sets) and (not first or max(sets) < min(first)) and all('append' in [show(a) for a in p.events[i].args] or
                                                                              'append' in p.events[i].args for i in sets)
            ctx.ob('continued 3D run appends to its diagnostics', '3d', ok, loc, 'callbacks are not set to append mode in a continued run [%s]' % g)
        elif c is False:
            ctx.ob('new run creates its diagnostics files', '3d', not sets, loc, 'callbacks are set to append mode in a new run [%s]' % g)
        else:
            ctx.ob('continued 3D run appends to its diagnostics', '3d', False, loc, 'callbacks are not set to append mode in a continued run [%s]' % g)


@prop('C04', 'evaluation windows (open, zero, negative limits), row histories (new, indexed, repeated, continued, stale files) on both kinds of ranks, '
      'integrands and reference values of the conservation diagnostics, option dispatch in both solvers', 150, TECH)
def c04(ctx):
    windows(ctx)
    history(ctx)
    integrals(ctx)
    stations(ctx)
    dispatch(ctx)
    continued(ctx)
    for f in ('DiagnosticCallback.evaluate', 'DiagnosticCallback.push_to_hdf5', 'DiagnosticCallback._create_hdf5_file', 'DiagnosticHDF5.__init__',
              'DiagnosticHDF5.export', 'CallbackManager.evaluate', 'CallbackManager.add', 'ScalarConservationCallback.__call__',
              'MinMaxConservationCallback.__call__', 'AccumulatorCallback.__call__', 'comp_volume_2d', 'comp_volume_3d', 'comp_tracer_mass_2d',
              'comp_tracer_mass_3d', 'FlowSolver.iterate', 'FlowSolver2d.create_iterator'):
        ctx.funcs.add(f)
