"""C09: values recorded at stations, profiles, transects and detectors."""
from fractions import Fraction
from sa.core import prop
from sa.absint import explore, Sy, Ex, Ext, Ob, Cv, Fv, RaiseSig, callee_name, show, is_num
from sa.nparr import NP, need, np
from sa.poly import tofrac
from sa.repo import AnalysisError

TECH = ('abstract interpretation of the point diagnostics over arrays of known shape: a field returns a symbolic value for every point it is '
        'sampled at, and each recorded entry is compared with the value of the requested field at the requested point')
F = Fraction


class PtPolicy(NP):
    concrete = ()

    def at(self, it, o, p):
        """sampled value(s) of a field at one point"""
        c = tuple(tofrac(x) for x in p)
        it.user.setdefault('sampled', []).append((o, c))
        f = o.meta['value']
        if callable(f):
            return f(it.user.get('ver', 0), *c[:2])
        n = o.meta['dim']
        s = '%s[%s]#%d' % (o.name, ', '.join(str(x) for x in c), it.user.get('ver', 0))
        return Sy(s) if n == 1 else self.nd(it, [Sy('%s.%d' % (s, i)) for i in range(n)])

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and 'dim' in base.meta:
            if name in ('at', 'function_space'):
                return ('pt', base, name)
            if name == 'value_size':
                return base.meta['dim']
        return super().attr(it, base, name, node)

    def index(self, it, base, idx, node):
        if isinstance(base, Ob) and base.meta.get('fields') and isinstance(idx, str):
            if idx not in base.attrs:
                raise RaiseSig('KeyError', it.loc(node))
            return base.attrs[idx]
        return super().index(it, base, idx, node)

    def points(self, it, a):
        """list of points, and whether one point was given"""
        if isinstance(a, (list, tuple)) and not any(isinstance(x, (list, tuple)) or self.isnd(x) for x in a):
            return [list(a)], True
        x = self.arr(a)
        if isinstance(x, np.ndarray) and x.ndim == 2:
            return [list(r) for r in x], False
        if isinstance(x, np.ndarray) and x.ndim == 1 and x.dtype == object and not any(isinstance(e, np.ndarray) for e in x):
            return [list(x)], True
        return [list(self.arr(e)) for e in (a if isinstance(a, (list, tuple)) else x)], False

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'pt':
            o = fn[1]
            if fn[2] == 'function_space':
                s = it.obj('FunctionSpace', None)
                s.attrs['value_size'] = o.meta['dim']
                return s
            a = args[0] if len(args) == 1 else tuple(args)
            pts, one = self.points(it, a)
            v = [self.at(it, o, p) for p in pts]
            return v[0] if one else v
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else fn.func.name if isinstance(fn, Fv) else None
        if n in ('error', 'warning', 'print_output', 'info', 'debug'):
            return None
        if n == 'super' or n == 'EventDecorator':
            return NotImplemented
        return super().call(it, fn, args, kwargs, node)

    def npcall(self, it, n, args, kwargs, node):
        if n == 'linspace' and any(self.isnd(a) for a in args[:2]):
            a, b, m = args[0], args[1], args[2] if len(args) > 2 else kwargs.get('num', 50)
            rows = [it.binop('+', a, it.binop('*', it.binop('-', b, a), F(i, m - 1)) if i else it.binop('*', it.binop('-', b, a), 0)) for i in range(m)]
            return self.nd(it, np.array([self.obj0(r).tolist() for r in rows], dtype=object))
        return super().npcall(it, n, args, kwargs, node)


def solver(it, fields):
    S = it.obj('solver', 'solver')
    o = it.obj('options', 'options')
    for k, v in dict(output_directory='outputs', outputdir='outputs', simulation_initial_date=None).items():
        o.attrs[k] = v
    S.attrs['options'] = o
    S.attrs['simulation_time'] = 0
    m = it.obj('mesh', 'mesh2d')
    m.attrs['geometric_dimension'] = 2
    S.attrs['mesh2d'] = m
    fs = it.obj('fields', 'fields')
    fs.meta['fields'] = True
    for name, (dim, val) in fields.items():
        f = it.obj('Function', name)
        f.meta['dim'] = dim
        f.meta['value'] = val
        fs.attrs[name] = f
    S.attrs['fields'] = fs
    return S


def bath(ver, x, y):
    return 20 + F(x) / 2 + F(y) / 4


def elev(ver, x, y):
    return F(1, 2) + F(x) / 8 - F(y) / 16 + ver


def sy(name, c, ver, dim=1):
    s = '%s[%s]#%d' % (name, ', '.join(str(x) for x in c), ver)
    return [s] if dim == 1 else ['%s.%d' % (s, i) for i in range(dim)]


FIELDS = {'bathymetry_2d': (1, bath), 'elev_cg_2d': (1, elev), 'salt_3d': (1, None), 'temp_3d': (1, None), 'uv_3d': (3, None)}


def runs(ctx, body):
    for p in explore(ctx.repo, PtPolicy, body):
        ctx.count('paths explored')
        yield p


class Out:
    pass


def flat(pol, v):
    a = pol.arr(v)
    return a if isinstance(a, np.ndarray) else np.array(a, dtype=object)


def mk(it, name, args, kw):
    return it.call(Cv(it.repo.cls('callback', name)), args, kw)


def evaluate(ctx, cls, make, check, ver=2):
    """construct the callback, evaluate twice while the state changes"""
    def body(it):
        S = solver(it, FIELDS)
        cb = make(it, S)
        o = Out()
        o.cb, o.pol, o.ev = cb, it.policy, []
        for k in range(ver):
            it.user['ver'] = k
            v = it.call(cb, [], {})
            if isinstance(v, (list, tuple)):
                vals = [np.array(flat(it.policy, x).tolist(), dtype=object) for x in v]
            else:
                vals = v
            o.ev.append(vals)
        o.names = it.getattr(cb, 'variable_names')
        o.dim = cb.attrs.get('array_dim')
        return o
    for p in runs(ctx, body):
        loc = 'thetis/callback.py:%s.__call__' % cls
        if p.outcome == 'raise':
            ctx.ob('values at the requested points', cls, False, str(p.value.loc), 'evaluation raises %s [%s]' % (p.value.exc, p.guards()))
            continue
        for k, vals in enumerate(p.value.ev):
            if unknown(vals):
                ctx.ob('values at the requested points', cls, None, loc, 'the values are not known: %s' % pr(vals))
                continue
            check(p.value, k, vals, loc)


def unknown(v):
    """a value the analysis cannot follow (not a sampled value or number)"""
    if isinstance(v, list):
        return any(unknown(e) for e in v)
    if isinstance(v, np.ndarray):
        return any(unknown(e) for e in v.reshape(-1))
    return not (is_num(v) or isinstance(v, Sy) and '#' in v.name)


def pr(v):
    return str([show(x) for x in np.array(v, dtype=object).reshape(-1)])[:300]


@prop('C09', 'point diagnostics sample the requested fields at the requested points', 24, TECH)
def c09(ctx):
    need()
    series(ctx)
    profile(ctx)
    transect(ctx)
    detectors(ctx)
    select(ctx)


def names(v):
    return [show(x) for x in np.array(v, dtype=object).reshape(-1)]


def series(ctx):
    for z, want in ((-5, lambda z: z == -5), (F(-41, 2), lambda z: z == F(-41, 2)), (-30, lambda z: -bath(0, 3, 4) <= z <= elev(0, 3, 4))):
        def check(o, k, vals, loc):
            ok = isinstance(vals, list) and len(vals) == 2 and all(len(names(v)) == 1 for v in vals)
            got = [names(v)[0] for v in vals] if ok else pr(vals)
            good = False
            if ok:
                zs = []
                for g, f in zip(got, ('temp_3d', 'salt_3d')):
                    pre, suf = '%s[3, 4, ' % f, ']#%d' % k
                    zs.append(F(g[len(pre):-len(suf)]) if g.startswith(pre) and g.endswith(suf) else None)
                good = None not in zs and all(want(x) for x in zs)
            ctx.ob('values at the requested points', 'TimeSeriesCallback3D z=%s' % z, good, loc,
                   'station (3, 4, %s) where the bed is at %s: evaluation %d returns %s' % (z, float(-bath(0, 3, 4)), k, got))
        evaluate(ctx, 'TimeSeriesCallback3D', lambda it, S: mk(it, 'TimeSeriesCallback3D', [S, ['temp_3d', 'salt_3d'], 3, 4, z, 'st'], {}), check)


def column(z, k, x, y, zmin=None, zmax=None):
    """z runs evenly from the surface down to the bed, inside the water column"""
    top, bot = elev(k, x, y), -bath(k, x, y)
    if zmin is not None:
        bot = max(bot, zmin)
    if zmax is not None:
        top = min(top, zmax)
    z = [tofrac(e) for e in z]
    d = [z[i + 1] - z[i] for i in range(len(z) - 1)]
    even = max(d) - min(d) < F(1, 10**6)
    return even and d[0] < 0 and abs(z[0] - top) <= F(2, 100) and abs(z[-1] - bot) <= F(2, 100) and z[0] <= top and z[-1] >= bot


def profile(ctx):
    n = 4

    def check(o, k, vals, loc):
        con = 'VerticalProfileCallback'
        ok = isinstance(vals, list) and len(vals) == 3 and all(len(v) == n for v in vals)
        z = list(vals[0]) if ok else []
        ctx.ob('profile spans the water column', con, ok and column(z, k, 3, 4), loc,
               'evaluation %d: depths %s for the surface at %s and the bed at %s' % (k, [float(x) for x in z], float(elev(k, 3, 4)), float(-bath(k, 3, 4))))
        for j, f in enumerate(('temp_3d', 'salt_3d')):
            w = [sy(f, (3, 4, tofrac(x)), k)[0] for x in z]
            ctx.ob('values at the requested points', '%s %s' % (con, f), ok and names(vals[j + 1]) == w, loc,
                   'evaluation %d returns %s for the field %s at depths %s' % (k, pr(vals[j + 1:j + 2]) if ok else pr(vals), f, [float(x) for x in z]))
        ctx.ob('one name and one value per point for every variable', con, ok and list(o.names) == ['z_coord', 'temp', 'salt'] and o.dim == n, loc,
               'variables %s with %s points each' % (o.names, show(o.dim)))
    evaluate(ctx, 'VerticalProfileCallback',
             lambda it, S: mk(it, 'VerticalProfileCallback', [S, ['temp_3d', 'salt_3d'], 3, 4, 'st'], {'npoints': n}), check)


def transect(ctx):
    nz = 3
    X, Y = [F(1), F(3), F(8), F(9)], [F(2), F(4), F(4), F(0)]
    for kw in ({}, {'z_min': -10}, {'z_max': -2}, {'z_min': -22, 'z_max': F(3, 2)}, {'x': F(3)}):
        kw = dict(kw)
        xs = [kw['x']] * 4 if 'x' in kw else X
        x0 = kw.pop('x', X)
        fn = ['salt_3d', 'uv_3d', 'temp_3d']

        def check(o, k, vals, loc):
            con = 'TransectCallback'
            shp = (nz, 4)
            ok = isinstance(vals, list) and len(vals) == 6 and all(v.shape == shp for v in vals)
            z = vals[0] if ok else None
            good = ok and all(column(list(z[:, i]), k, xs[i], Y[i], kw.get('z_min'), kw.get('z_max')) for i in range(4))
            ctx.ob('transect spans the water column', con, good, loc,
                   'evaluation %d with %s: depths %s' % (k, kw, [[float(e) for e in r] for r in z] if ok else pr(vals)))
            if not ok:
                return
            comp = []
            for f in fn:
                d = FIELDS[f][0]
                for c in range(d):
                    comp.append([[sy(f, (xs[i], Y[i], tofrac(z[j, i])), k, d)[c] for i in range(4)] for j in range(nz)])
            for c, w in enumerate(comp):
                got = [[show(e) for e in r] for r in vals[c + 1]]
                bad = [(j, i) for j in range(nz) for i in range(4) if got[j][i] != w[j][i]]
                ctx.ob('values at the requested points', '%s variable %d' % (con, c), not bad, loc,
                       'evaluation %d, entry %s: got %s, expected %s' % (k, bad[:1], got[bad[0][0]][bad[0][1]] if bad else '', w[bad[0][0]][bad[0][1]] if bad else ''))
            ctx.ob('one name and one value per point for every variable', con,
                   list(o.names) == ['z_coord', 'salt', 'uv_x', 'uv_y', 'uv_z', 'temp'] and tuple(o.dim) == shp, loc,
                   'variables %s with array shape %s' % (o.names, show(o.dim)))
        evaluate(ctx, 'TransectCallback', lambda it, S: mk(it, 'TransectCallback', [S, list(fn), x0 if not isinstance(x0, list) else list(x0), list(Y), 'tr'],
                                                           dict(n_points_z=nz, **kw)), check)


class DetPolicy(PtPolicy):
    """values at detectors given by the interpolated functions"""

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and 'vals' in base.meta:
            if name in ('dat',):
                return base
            if name in ('data_ro', 'data', 'data_ro_with_halos'):
                return base.meta['vals']
            if name == 'interpolate':
                return ('interp', base, None)
        return super().attr(it, base, name, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'interp':
            src, t = args[0], fn[1]
            if 'dim' in src.meta:
                n = len(it.user['loc'])
                d = src.meta['dim']
                v = [[Sy('%s.%d@%d#%d' % (src.name, c, i, it.user.get('ver', 0))) for c in range(d)] for i in range(n)]
                t.meta['vals'] = self.nd(it, np.array([r[0] for r in v] if d == 1 else v, dtype=object))
            else:
                t.meta['vals'] = src.meta['vals']
            return t
        return super().call(it, fn, args, kwargs, node)


def detectors(ctx):
    repo = ctx.repo
    LOC = [(1, 2), (3, 4), (5, 6)]
    for fn in (['salt_3d', 'uv_3d', 'temp_3d'], ['uv_3d', 'salt_3d'], ['temp_3d']):
        for dn in (None, ['a', 'b', 'c']):
            class Pol(DetPolicy):
                def call(self, it, f, args, kwargs, node):
                    if isinstance(f, Fv) and f.func.name == 'vom_interpolator_functions':
                        it.user['loc'] = list(args[2])
                        r = {}
                        for nm in args[1]:
                            pr_ = []
                            for w in range(2):
                                o = it.obj('Function', '%s%d' % (nm, w))
                                o.meta['vals'] = None
                                pr_.append(o)
                            r[nm] = tuple(pr_)
                        return r
                    return super().call(it, f, args, kwargs, node)

            def body(it):
                S = solver(it, FIELDS)
                cb = mk(it, 'DetectorsCallback', [S, list(LOC), list(fn), 'det'], {'detector_names': dn} if dn else {})
                o = Out()
                o.cb, o.ev, o.msg = cb, [], []
                for k in range(2):
                    it.user['ver'] = k
                    v = it.call(cb, [], {})
                    o.ev.append(np.array(flat(it.policy, v).tolist(), dtype=object))
                o.names = it.getattr(cb, 'variable_names')
                o.dim = cb.attrs.get('array_dim')
                o.va = cb.attrs.get('var_attrs')
                o.loc = it.user['loc']
                return o
            for p in explore(repo, Pol, body):
                ctx.count('paths explored')
                con = 'DetectorsCallback'
                loc = 'thetis/callback.py:DetectorsCallback.__call__'
                if p.outcome == 'raise':
                    ctx.ob('values at the requested points', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
                    continue
                o = p.value
                D = sum(FIELDS[f][0] for f in fn)
                for k, v in enumerate(o.ev):
                    w = [['%s.%d@%d#%d' % (f, c, i, k) for f in fn for c in range(FIELDS[f][0])] for i in range(3)]
                    ctx.ob('values at the requested points', con, v.shape == (3, D) and [[show(e) for e in r] for r in v] == w, loc,
                           'fields %s: one row per detector with the components of every field in order, got %s' % (fn, pr(v)))
                nm = list(o.names)
                ctx.ob('one name and one value per point for every variable', con, o.dim == D and len(set(nm)) == 3 and (not dn or nm == dn), loc,
                       'names %s, %s values per detector' % (nm, show(o.dim)))
                at = o.va or {}
                ctx.ob('location recorded with each detector', con, all(at.get(n) == {'x': LOC[i][0], 'y': LOC[i][1]} for i, n in enumerate(nm))
                       and [tuple(x) for x in o.loc] == LOC, loc, 'attributes %s' % show(at))


def select(ctx):
    """detectors inside the domain stay, others move to the nearest cell centre if it is near enough"""
    repo = ctx.repo
    fi = repo.func('utility', 'select_and_move_detectors')
    con = 'select_and_move_detectors'
    loc = 'thetis/utility.py:select_and_move_detectors'
    CELLS = [[(F(0), F(0)), (F(2), F(1))], [(F(6), F(0)), (F(4), F(1))]]      # centres on two processes
    INSIDE = {(F(1), F(1)), (F(5), F(1, 2))}

    class Pol(PtPolicy):
        def attr(self, it, base, name, node):
            if isinstance(base, Ob) and base.meta.get('fun'):
                if name == 'dat':
                    return base
                if name in ('data_ro', 'data'):
                    return self.nd(it, np.array(self.values(it, base, it.user['rank']), dtype=object))
                if name in ('interpolate', 'assign'):
                    return ('fn', base, name)
            if isinstance(base, Ob) and base.meta.get('comm') and name == 'allreduce':
                return ('reduce', base, name)
            return super().attr(it, base, name, node)

        def values(self, it, o, rank):
            k = o.meta['fun']
            if k == 'xy':
                return [list(c) for c in CELLS[rank]]
            if k == 'dist':
                x, y = it.user['const']
                return [(c[0] - x)**2 + (c[1] - y)**2 for c in CELLS[rank]]
            raise AnalysisError('values of %s' % k)

        def fn(self, n, x):
            if n == 'sqrt' and is_num(x[0]):
                r = tofrac(float(x[0]) ** 0.5)
                return F(round(r)) if F(round(r))**2 == x[0] else r
            return super().fn(n, x)

        def call(self, it, f, args, kwargs, node):
            if isinstance(f, tuple) and f and f[0] == 'fn':
                if f[2] == 'assign':
                    it.user['const'] = [tofrac(x) for x in args[0]]
                elif f[1].meta['fun'] == '?':
                    a = show(args[0])
                    f[1].meta['fun'] = 'xy' if a == 'SC' or 'SpatialCoordinate' in a and 'dot' not in a else 'dist'
                return f[1]
            if isinstance(f, tuple) and f and f[0] == 'reduce':
                op = kwargs.get('op', args[1] if len(args) > 1 else None)
                if show(op) in ('mpi4py.MPI.MIN', 'MPI.MIN'):
                    fnc = None
                elif isinstance(op, Ob) and 'mpiop' in op.meta:
                    fnc = op.meta['mpiop']
                else:
                    raise AnalysisError('reduction %s' % show(op))
                mine = args[0]
                r = it.user['rank']
                oth = 1 - r
                x, y = it.user['const']
                best = sorted(((c[0] - x)**2 + (c[1] - y)**2, i) for i, c in enumerate(CELLS[oth]))[0]
                other = [self.fn('sqrt', [best[0]])] + list(CELLS[oth][best[1]])
                if fnc is None:
                    return min(mine, other)
                a, b = (mine, other) if r == 0 else (other, mine)
                return it.call(fnc, [a, b, None], {})
            if isinstance(f, Ob) and f.meta.get('fun'):
                p = tuple(tofrac(x) for x in self.arr(args[0]))
                it.user.setdefault('tested', []).append(p)
                if p not in INSIDE:
                    raise RaiseSig('VertexOnlyMeshMissingPointsError', it.loc(node))
                return Sy('value')
            n = callee_name(f) if isinstance(f, (Ext, Ex)) else None
            if n == 'Function':
                o = it.obj('Function', None)
                o.meta['fun'] = '?'
                return o
            if n == 'Constant':
                it.user['const'] = [tofrac(x) for x in args[0]]
                o = it.obj('Constant', None)
                o.meta['fun'] = 'const'
                return o
            if n == 'SpatialCoordinate':
                return Sy('SC')
            if n == 'Create':
                o = it.obj('Op', None)
                o.meta['mpiop'] = args[0]
                o.attrs['Free'] = Sy('free')
                return o
            return super().call(it, f, args, kwargs, node)

    CASES = [
        # location, distance to the nearest centre, where it is
        ((F(1), F(1)), 0, (F(1), F(1))),
        ((F(2), F(5)), 4, (F(2), F(1))),
        ((F(4), F(4)), 3, (F(4), F(1))),
        ((F(6), F(-2)), 2, (F(6), F(0))),
        ((F(5), F(1, 2)), 0, (F(5), F(1, 2))),
        ((F(0), F(-9)), 9, (F(0), F(0))),
    ]
    for named in (True, False):
        for mx in (0, 2, 3, F(7, 2), 100):
            res = []
            for rank in (0, 1):
                def body(it):
                    it.user['rank'] = rank
                    m = it.obj('mesh', 'mesh')
                    c = it.obj('comm', 'comm')
                    c.meta['comm'] = True
                    m.attrs['comm'] = c
                    L = [c[0] for c in CASES]
                    N = ['d%d' % i for i in range(len(L))]
                    r = it.call_func(fi, [m, list(L)], dict(maximum_distance=mx, **({'detector_names': list(N)} if named else {})))
                    return r
                for p in explore(repo, Pol, body):
                    ctx.count('paths explored')
                    if p.outcome == 'raise':
                        ctx.ob('detectors selected and moved', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
                        continue
                    keep = [(i, c) for i, c in enumerate(CASES) if c[1] <= mx]
                    r = p.value
                    ls, ns = (r if named else (r, None))
                    got = [tuple(tofrac(x) for x in e) for e in ls]
                    ctx.ob('detectors selected and moved', con, got == [c[2] for i, c in keep] and (not named or list(ns) == ['d%d' % i for i, c in keep]), loc,
                           'maximum distance %s on process %d: locations %s names %s, expected %s' % (
                               float(mx), rank, [tuple(map(float, g)) for g in got], ns, [(i, tuple(map(float, c[2]))) for i, c in keep]))
