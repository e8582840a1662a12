"""F01: interpolation of time series from a collection of files."""
import itertools
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Cv, RaiseSig, explore, show, key, call_parts, callee_name
from sa.repo import AnalysisError
from sa.formdb import repo as get_repo
from sa.nparr import NP, need, poly
from sa.pw import same
from sa.poly import show_poly

TECH = ('abstract execution of the time parser, the file search and the linear interpolator over records with symbolic times and values, for every '
        'position of the requested time relative to the records (region abstraction)')
SIM0 = 50.0


class TI(NP):
    """data sets are files with symbolic record times"""
    def __init__(self, files, rep, tz=True, pins=None, dims=('time',)):
        super().__init__(rep, pins)
        self.files = files          # {name: [record times in source units]}
        self.tz = tz
        self.dims = dims

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.clsname == 'Dataset':
            if name == 'dimensions':
                return {d: Sy('dim:' + d) for d in self.dims}
            if name == 'variables':
                return {v: self.var(it, base, v) for v in ('time', 'elev', 'temp')}
            return ('ds', base, name)
        if isinstance(base, Ob) and base.clsname == 'Variable':
            if name == 'dimensions':
                return ('time',) if base.meta['var'] == 'time' else tuple(self.dims)
            if name in ('units', 'calendar'):
                return Sy('%s:%s' % (name, base.meta['file']))
            if name == 'ncattrs':
                return ('attrs', base)
            if name == 'shape':
                return (len(self.files[base.meta['file']]),)
            if name == 'name':
                return base.meta['var']
        return super().attr(it, base, name, node)

    def var(self, it, d, name):
        o = it.obj('Variable', None)
        o.meta.update(var=name, file=d.meta['file'])
        return o

    def index(self, it, base, idx, node):
        if isinstance(base, Ob) and base.clsname == 'Dataset':
            return self.var(it, base, idx)
        if isinstance(base, Ob) and base.clsname == 'Variable':
            f, v = base.meta['file'], base.meta['var']
            if v == 'time':
                a = self.nd(it, [Sy('%s@%d' % (f, i)) for i in range(len(self.files[f]))])
                return super().index(it, a, idx, node)
            return self.record(it, f, v, idx, node)
        return super().index(it, base, idx, node)

    def record(self, it, f, v, idx, node):
        ix = list(idx) if isinstance(idx, (list, tuple)) else [idx]
        if isinstance(idx, Ob) and self.isnd(idx):
            ix = list(idx.meta['a'])
        if len(ix) == 1 and len(self.dims) > 1:
            ix += [slice(None)] * (len(self.dims) - 1)
        pos = None
        for d, i in zip(self.dims, ix):
            if d == 'time':
                if isinstance(i, slice):
                    if isinstance(i.start, int) and isinstance(i.stop, int) and i.stop == i.start + 1 and i.step in (None, 1):
                        pos = i.start
                elif isinstance(i, int):
                    pos = i
            elif not (isinstance(i, slice) and i == slice(None)):
                return Sy('part of a record')
        if len(ix) != len(self.dims) or pos is None:
            return Sy('wrong slice %s of %s' % (show(list(ix)), v))
        n = len(self.files[f])
        if not -n <= pos < n:
            raise RaiseSig('IndexError', it.loc(node))
        return Sy('%s:%s@%d' % (v, f, pos % n))

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'attrs':
            return ['units', 'calendar']
        if isinstance(fn, tuple) and fn and fn[0] == 'ds':
            return None
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'Dataset':
            o = it.obj('Dataset', None)
            o.meta['file'] = args[0]
            return o
        if n == 'num2pydate' or n == 'num2date':
            t = args[0]
            # the date of a value in the units and calendar of its file
            s = show(t)
            ok = len(args) > 1 and '@' in s and show(args[1]) == 'units:' + s.split('@')[0]
            c = args[2] if len(args) > 2 else kwargs.get('calendar')
            ok = ok and c is not None and show(c) == 'calendar:' + s.split('@')[0]
            o = self.time(it, 'datetime', Sy('epoch(%s)' % s) if ok else Sy('wrong units'))
            o.meta['tz'] = Sy('tz') if self.tz else None
            return o
        if n == 'glob':
            return list(self.files)
        if n in ('isfile', 'exists'):
            return True
        return super().call(it, fn, args, kwargs, node)

    def compare(self, it, op, a, b):
        if op in ('is', 'is not') and isinstance(a, (Sy, Ex)) and b is None:
            return op == 'is not'
        if op in ('in', 'not in') and isinstance(b, (dict, list, tuple, set)) and not isinstance(a, Ob):
            return any(key(x) == key(a) for x in b) == (op == 'in')     # records are identified by file and position
        return super().compare(it, op, a, b)


def setup(it):
    init = it.policy.time(it, 'datetime', Sy('epoch0'))
    init.meta['tz'] = Sy('tz')
    return init


def collections():
    """files with the epoch times of their records"""
    yield 'one file', {'a': [100, 200, 300]}
    yield 'one file, one record per day and a gap', {'a': [100, 200, 900]}
    yield 'two files listed in reverse order', {'b': [300, 400], 'a': [100, 200]}
    yield 'three files, single records and a gap', {'b': [400], 'c': [900, 1000, 1100], 'a': [100, 200, 300]}
    yield 'one record per file', {'c': [300], 'a': [100], 'b': [200]}


def rep_of(files):
    rep = {'epoch0': SIM0}
    for f, r in files.items():
        for i, x in enumerate(r):
            rep['epoch(%s@%d)' % (f, i)] = x
    return rep


def queries(times):
    ts = sorted(times)
    yield 'before the first record', ts[0] - 40, False
    for i, x in enumerate(ts):
        last = i == len(ts) - 1
        if not last:
            yield 'at record %d' % i, x, True
            yield 'just after record %d' % i, x + 0.25 * (ts[i + 1] - x), True
            yield 'just before record %d' % (i + 1), x + 0.75 * (ts[i + 1] - x), True
    yield 'after the last record', ts[-1] + 40, False


def flatrec(files):
    return sorted((x, f, i) for f, r in files.items() for i, x in enumerate(r))


def expected(files, t, var):
    r = flatrec(files)
    for (x0, f0, i0), (x1, f1, i1) in zip(r, r[1:]):
        if x0 <= t < x1:
            T = Sy('t')
            t0 = poly(Sy('epoch(%s@%d)' % (f0, i0))) - poly(Sy('epoch0'))
            t1 = poly(Sy('epoch(%s@%d)' % (f1, i1))) - poly(Sy('epoch0'))
            a = (poly(T) - t0) / (t1 - t0)
            return (1 - a) * poly(Sy('%s:%s@%d' % (var, f0, i0))) + a * poly(Sy('%s:%s@%d' % (var, f1, i1)))
    return None


def build(it, repo, scal, **kw):
    cls = repo.cls('NetCDFTimeSeriesInterpolator') if hasattr(repo, 'cls') else None
    init = setup(it)
    return it.instantiate(cls, ['pattern', ['elev', 'temp'], init], dict(scalars=scal, **kw))


@prop('F01', 'a value interpolated in time is the linear combination of the two adjacent records, across files, for every position and order of requests',
      20, TECH)
def f01(ctx):
    need()
    repo = get_repo()
    m = repo.mod('interpolation')
    cls = m.classes['NetCDFTimeSeriesInterpolator']
    fn = m.classes['LinearTimeInterpolator'].methods['__call__']
    for label, files in collections():
        times = [x for r in files.values() for x in r]
        for tz in (True, False):
            for scal in (None, (Sy('s1'), Sy('s2'))):
                if scal is not None and not tz:
                    continue
                qs = list(queries(times))
                for qn, t, ok in qs:
                    one(ctx, repo, cls, fn, '%s, %s' % (label, qn) + (', scaled' if scal else '') + ('' if tz else ', dates without time zone'),
                        files, tz, scal, [(t, ok)])
        good = [t for _, t, ok in queries(times) if ok]
        seqs = [good, good[::-1], [good[0], good[-1], good[0], good[0]]]
        for k, s in enumerate(seqs):
            one(ctx, repo, cls, fn, '%s, request sequence %d' % (label, k), files, True, None, [(t, True) for t in s])
    for dims in (('time', 'x'), ('x', 'time'), ('x', 'time', 'y')):
        f = {'a': [100, 200, 300], 'b': [400, 500]}
        one(ctx, repo, cls, fn, 'variable with dimensions %s' % ', '.join(dims), f, True, None, [(150, True), (250, True), (350, True)], dims)
    daily(ctx, repo, m)


def one(ctx, repo, cls, fn, con, files, tz, scal, seq, dims=('time',)):
    rep = rep_of(files)
    results = []

    def body(it):
        s = it.instantiate(cls, ['pattern', ['elev', 'temp'], setup(it)], {'scalars': list(scal)} if scal else {})
        for t, ok in seq:
            it.policy.rep['t'] = t - SIM0
            try:
                v = it.call(s, [Sy('t')], {})
            except RaiseSig as r:
                v = r
            # the value belongs to this request: rename t
            results.append((t, ok, list(v) if isinstance(v, (list, tuple)) else v))
        return None
    ps = list(explore(repo, lambda: TI(files, rep, tz, dims=dims), body, 16))
    if len(ps) != 1 or ps[0].outcome != 'return':
        p = ps[0]
        return ctx.ob('time interpolation', con, False if p.outcome == 'raise' else None, fn.loc(),
                      'raises %s' % p.value if p.outcome == 'raise' else '%d partitions: %s' % (len(ps), ps[0].guards()), func=fn.qualname)
    bad = None
    for t, ok, v in results:
        if isinstance(v, RaiseSig):
            if ok:
                bad = 'no value for a time inside the records (%s at %s)' % (v.exc, v.loc)
            continue
        if not ok:
            bad = 'a value %s for a time outside of the records' % show(v)
            break
        if not isinstance(v, list) or len(v) != 2:
            bad = 'returns %s' % show(v)
            break
        for i, var in enumerate(('elev', 'temp')):
            w = expected(files, t, var)
            if scal:
                w = w * poly(scal[i])
            g = poly(v[i])
            if not same(g, w):
                bad = '%s interpolated to %s, expected %s' % (var, show_poly(g), show_poly(w))
                break
        if bad:
            break
    ctx.ob('time interpolation', con, bad is None, fn.loc(), bad or '', func=fn.qualname)


def daily(ctx, repo, m):
    """records identified by the date in the file name"""
    cls = m.classes['DailyFileTimeSearch']
    lin = m.classes['LinearTimeInterpolator']
    fn = cls.methods['find']
    import datetime
    files = {'d/2006/s_20060502.nc': (2006, 5, 2), 'd/2006/s_20060430.nc': (2006, 4, 30), 'd/2006/s_20060501.nc': (2006, 5, 1),
             'd/2007/s_20070101.nc': (2007, 1, 1)}
    utc = datetime.timezone.utc
    ep = {f: int(datetime.datetime(*d, 12, tzinfo=utc).timestamp()) for f, d in files.items()}
    e0 = int(datetime.datetime(2006, 4, 30, tzinfo=utc).timestamp())
    order = sorted(ep.values())
    byep = {v: k for k, v in ep.items()}

    class D(TI):
        def record(self, it, f, v, idx, node):
            return Sy('%s:%s' % (v, f))

        def call(self, it, fn2, args, kwargs, node):
            full = fn2.name if isinstance(fn2, Ext) else show(fn2)
            if full == 're.findall' and all(isinstance(a, str) for a in args):
                import re
                return list(re.findall(*args))
            if full.endswith('Formatter'):
                o = it.obj('Formatter', None)
                return o
            if isinstance(fn2, Ex) and fn2.op == 'attr' and fn2.args[1] == 'parse' and isinstance(args[0], str):
                import string
                return [tuple(x) for x in string.Formatter().parse(args[0])]
            return super().call(it, fn2, args, kwargs, node)
    for qn, t, ok in queries(order):
        def body(it):
            init = it.policy.time(it, 'datetime', Sy('epoch0'))
            s = it.instantiate(cls, ['d/{year:04d}/s_{year:04d}{month:02d}{day:02d}.nc', init], {})
            return it.call(it.getattr(s, 'find'), [Sy('t')], {'previous': True}), it.call(it.getattr(s, 'find'), [Sy('t')], {'previous': False})

        # the pattern names the year twice: the file name must match both
        pol = lambda: D({f: [0] for f in files}, {'epoch0': e0, 't': t - e0})
        ps = list(explore(repo, pol, body, 8))
        con = 'daily files, ' + qn
        p = ps[0]
        if len(ps) != 1 or p.outcome == 'stop':
            ctx.ob('file search', con, None, fn.loc(), '%d partitions' % len(ps), func=fn.qualname)
            continue
        if p.outcome == 'raise':
            ctx.ob('file search', con, not ok, fn.loc(), 'raises %s for a time inside the records' % p.value.exc, func=fn.qualname)
            continue
        if not ok:
            ctx.ob('file search', con, False, fn.loc(), 'finds %s for a time outside of the records' % show(list(p.value)), func=fn.qualname)
            continue
        i = max(k for k, x in enumerate(order) if x <= t)
        bad = None
        for got, want in zip(p.value, (order[i], order[i + 1])):
            if not (isinstance(got, tuple) and len(got) == 3):
                bad = 'returns %s' % show(got)
            elif got[0] != byep[want] or got[1] != 0:
                bad = 'record %s of %s instead of the record of %s' % (show(got[1]), show(got[0]), byep[want])
            elif not same(poly(got[2]), poly(want) - poly(Sy('epoch0'))):
                bad = 'time %s of %s, expected %d s after the epoch' % (show(got[2]), got[0], want)
        ctx.ob('file search', con, bad is None, fn.loc(), bad or '', func=fn.qualname)
