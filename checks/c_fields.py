"""F03: atmospheric and ocean forcing fields; F04: coordinate systems."""
import itertools
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Cv, Fv, RaiseSig, explore, show, call_parts, callee_name
from sa.repo import AnalysisError
from sa.formdb import repo as get_repo
from sa.nparr import NP, need, poly
from sa import nparr
from sa.pw import same
from sa.poly import Poly, show_poly, make_fn

N = 2


def entries(v):
    return [NP.scal(x) for x in v.meta['a'].reshape(-1)] if NP.isnd(v) else None


def eq(a, b):
    try:
        return same(poly(a), poly(b))
    except AnalysisError:
        return False


class Forc(NP):
    """interpolators deliver symbolic nodal values per variable"""
    def __init__(self, rep=None, three=False, boundary=None, missing=()):
        super().__init__(rep)
        self.three, self.boundary, self.missing = three, boundary, missing

    # --- library objects
    def func(self, it, name, comps=0):
        o = it.obj('Function', name)
        o.meta['v'] = self.nd(it, [Sy('%s_old%d' % (name, n)) for n in range(N)] if not comps else
                              [[Sy('%s_old%d_%d' % (name, n, k)) for k in range(comps)] for n in range(N)])
        o.meta['comps'] = comps
        return o

    def csys(self, it):
        return it.obj('csys', None)

    def attr(self, it, base, name, node):
        if isinstance(base, Ob):
            if base.clsname == 'Function':
                if name == 'dat':
                    return base
                if name.startswith('data'):
                    return base.meta['v']
                if name == 'ufl_shape':
                    c = base.meta['comps']
                    return (c,) if c else ()
                if name in ('function_space', 'name', 'interpolate', 'assign', 'dat_version'):
                    return ('fn', base, name)
            if base.clsname == 'fs':
                if name == 'mesh':
                    return ('fn', base, name)
                if name == 'value_shape':
                    return ()
                return Sy('fs.' + name)
            if base.clsname == 'mesh' and name in ('geometric_dimension',):
                return 3 if self.three else 2
            if base.clsname == 'csys':
                return ('csys', base, name)
            if base.clsname == 'tide' or base.clsname == 'tnc':
                return ('tide', base, name)
            if base.clsname == 'bc' and name == 'nodes':
                return self.nd(it, nparr.np.array(self.boundary, dtype=object))
        return super().attr(it, base, name, node)

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name in ('NetCDFLatLonInterpolator2d', 'GenericSpatialInterpolator2D', 'SpatialInterpolatorNCOM2d', 'SpatialInterpolatorNCOM3d',
                        'SpatialInterpolatorROMS3d'):
            o = it.obj('grid', cls.name)
            o.meta['args'] = (args, kwargs)
            d = '3' if cls.name.endswith('3d') else ''
            o.attrs['mesh_lonlat'] = self.nd(it, [[Sy('lon%d%s' % (n, d)), Sy('lat%d%s' % (n, d))] for n in range(N)])
            o.attrs['latlonz_array'] = self.nd(it, [[Sy('lat%d%s' % (n, d)), Sy('lon%d%s' % (n, d)), Sy('z%d' % n)][:3 if d else 2] for n in range(N)])
            return o
        if cls.name in ('NetCDFTimeSearch', 'DailyFileTimeSearch'):
            f = cls.find_method('__init__')
            names = f.params()[1:]
            o = it.obj('search', cls.name)
            o.meta['args'] = dict(dict(zip(names, args)), **kwargs)
            return o
        if cls.name == 'LinearTimeInterpolator':
            f = cls.find_method('__init__')
            o = it.obj('timeint', None)
            o.meta['search'], o.meta['reader'] = (list(args) + [kwargs.get('reader')])[:2] if args else (kwargs['timesearch_obj'], kwargs['reader'])
            return o
        return super().instantiate(it, cls, args, kwargs, node)

    def tag(self, ti):
        s = ti.meta['search']
        a = s.meta['args']
        pat = a.get('file_pattern')
        return '%s|%s' % (pat if isinstance(pat, str) else show(pat), a.get('time_variable_name', 'time'))

    def call(self, it, fn, args, kwargs, node):
        np = nparr.np
        if isinstance(fn, Ob) and fn.clsname == 'timeint':
            r = fn.meta['reader']
            vs = r.attrs['variable_list']
            it.user.setdefault('tags', {}).update({v: (self.tag(fn), r.attrs['grid_interpolator'].name) for v in vs})
            t = show(args[0])
            return [self.nd(it, [Sy('%s_%d@%s' % (v, n, t)) for n in range(N)]) for v in vs]
        if isinstance(fn, tuple) and fn and fn[0] == 'fn':
            o, nm = fn[1], fn[2]
            if nm == 'function_space':
                return o.meta.get('fs') or it.user.setdefault('fs', it.obj('fs', None))
            if nm == 'mesh':
                return it.obj('mesh', None)
            if nm == 'name':
                return o.name
            if nm == 'interpolate':
                o.meta['v'] = self.nd(it, [Sy('%s%d' % (show(args[0]), n)) for n in range(N)])
                return o
        if isinstance(fn, tuple) and fn and fn[0] == 'csys':
            if fn[2] == 'get_vector_rotator':
                o = it.obj('rot', None)
                o.meta['at'] = [[show(x) for x in entries(a)] if NP.isnd(a) else [show(a)] for a in args]
                return o
            if fn[2] == 'to_lonlat':
                c = [entries(a) for a in args]
                s = ','.join(show(a[0])[:-1] for a in c)
                ok = s in ('x,y', 'x,y,z')
                return tuple(self.nd(it, [Sy('%s%d' % (k if ok else 'wrong', n)) for n in range(N)]) for k in ('lon', 'lat'))
        if isinstance(fn, Ob) and fn.clsname == 'rot':
            u, v = entries(args[0]), entries(args[1])
            at = fn.meta['at']
            k = 3 if fn.meta.get('three') or self.three else 2
            return tuple(self.nd(it, [it.binop('+', it.binop('*', Sy('R%dE(%s,%s)' % (c, at[0][n], at[1][n])), u[n]),
                                               it.binop('*', Sy('R%dN(%s,%s)' % (c, at[0][n], at[1][n])), v[n])) for n in range(N)]) for c in range(k))
        if isinstance(fn, tuple) and fn and fn[0] == 'tide':
            o = fn[1]
            if fn[2] == 'set_time':
                o.meta['t'] = show(args[0])
                return None
            if fn[2] == 'get_val':
                pt = ','.join(show(x) for x in (args[0] if isinstance(args[0], (tuple, list)) else entries(args[0])))
                if any('%s:%s' % (o.name, m) == '%s:%s' % (o.name, pt) for m in self.missing):
                    raise RaiseSig('CoordinateError', it.loc(node))
                return Sy('%s(%s)@%s' % (o.name, pt, o.meta.get('t')))
            return None
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'SpatialCoordinate':
            return [Sy('x'), Sy('y')] + ([Sy('z')] if self.three else [])
        if n == 'Function':
            return self.func(it, 'work')
        if n == 'DirichletBC':
            it.user['bc'] = args[-1]
            return it.obj('bc', None)
        if n == 'Tides':
            return it.obj('tide', None)
        if n in ('OTPSncTidalInterpolator', 'FESTidalInterpolator'):
            return it.obj('tnc', 'h')
        if n == 'OTPSncTidalComponentInterpolator':
            o = it.obj('tnc', show(args[3]).strip("'"))
            return o
        if n == 'exists':
            return True
        if n == 'float' and len(args) == 1:
            return args[0]
        if n == 'Constant' and len(args) == 1:
            return args[0]
        if n in ('hypot',):
            return self.ew(it, lambda x, y: self.fn('hypot', [x, y]), *args)
        return super().call(it, fn, args, kwargs, node)

    def compare(self, it, op, a, b):
        if isinstance(a, Ob) and isinstance(b, Ob) and a.clsname == b.clsname == 'fs' and op in ('==', '!='):
            return op == '=='
        return super().compare(it, op, a, b)

    def name(self, it, name, node):
        if name == 'physical_constants':
            return Sy('physical_constants')
        return super().name(it, name, node)

    def index(self, it, base, idx, node):
        if isinstance(base, (Sy, Ext, Ex)) and show(base).endswith('physical_constants') and isinstance(idx, str):
            return Sy(idx)
        return super().index(it, base, idx, node)


def P(name):
    return poly(Sy(name))


def wind_stress(ctx, repo):
    f = repo.mod('forcing').functions['compute_wind_stress']
    speeds = [0.5, 5., 10.999, 11., 11.001, 20., 32.999, 33., 33.001, 60.]
    for method in (None, 'LargeYeager2009', 'LargePond1981', 'SmithBanke1975'):
        for s0 in speeds:
            s1 = 7. if s0 > 11 else 50.
            rep = {'e0': 0.6 * s0, 'n0': -0.8 * s0, 'e1': -0.8 * s1, 'n1': 0.6 * s1}
            # exact thresholds
            if s0 in (11., 33.):
                rep.update(e0=s0, n0=0.)

            def body(it):
                u = it.policy.nd(it, [Sy('e0'), Sy('e1')])
                v = it.policy.nd(it, [Sy('n0'), Sy('n1')])
                kw = {} if method is None else {'method': method}
                r = it.call(Fv(f), [u, v], kw)
                return r, u, v
            ps = list(explore(repo, lambda: Forc(rep), body, 8))
            bad, und = None, False
            if len(ps) != 1 or ps[0].outcome != 'return':
                bad, und = '%d paths, %s' % (len(ps), ps[0].value if ps[0].outcome == 'raise' else ps[0].guards()), ps[0].outcome != 'raise'
            else:
                (r, u, v) = ps[0].value
                tx, ty = entries(r[0]), entries(r[1])
                if [show(x) for x in entries(u) + entries(v)] != ['e0', 'e1', 'n0', 'n1']:
                    bad = 'modifies the wind given by the caller'
                for n, s in ((0, s0), (1, s1)):
                    m = Ex('call', Ext('numpy.hypot'), (Sy('e%d' % n), Sy('n%d' % n)), ())
                    mag = poly(m)
                    wx, wy = dragged(mag, s, method or 'LargeYeager2009', n)
                    if not (eq(tx[n], wx) and eq(ty[n], wy)):
                        bad = bad or 'stress is (%s, %s)' % (show_poly(poly(tx[n]), 4), show_poly(poly(ty[n]), 4))
            ctx.ob('wind stress', '%s, %s m/s' % (method or 'default', s0), None if und else bad is None, f.loc(), bad or '', func=f.qualname)


def dragged(mag, s, method, n, e='e%d', no='n%d', rho='rho_air'):
    if method == 'LargePond1981':
        cd = poly(1.2e-3) if s <= 11. else poly(1e-3) * (poly(0.49) + poly(0.065) * mag)
    elif method == 'SmithBanke1975':
        cd = poly(1e-3) * (poly(0.63) + poly(0.066) * mag)
    elif s > 33.:
        cd = poly(2.34e-3)
    else:
        cd = poly(1e-3) * (poly(2.7) / (mag + poly(1e-3)) + poly(0.142) + mag / poly(13.09) - poly(3.14807e-10) * mag.pow(6))
    t = cd * P(rho) * mag
    return t * P(e % n), t * P(no % n)


def rotated(k, east, north, n, d=''):
    at = '(lon%d%s,lat%d%s)' % (n, d, n, d)
    return P('R%dE%s' % (k, at)) * east + P('R%dN%s' % (k, at)) * north


ATM = [('AtmosphericForcingInterpolator', dict(east_wind_var_name='E', north_wind_var_name='N', pressure_var_name='prs', time_var_name='tv', pressure_units='hpa'),
        ('E', 'N', 'prs', 'tv', 100)),
       ('AtmosphericForcingInterpolator', {}, ('u10', 'v10', 'msl', 'valid_time', 1)),
       ('ERA5Interpolator', {}, ('u10', 'v10', 'msl', 'valid_time', 1)),
       ('TCHazardsInterpolator', {}, ('Uw', 'Vw', 'Pr', 'time', 100)),
       ('ATMInterpolator', {}, ('uwind', 'vwind', 'prmsl', 'time', 1))]


def run1(ctx, repo, rule, con, fn, policy, body, judge):
    ps = list(explore(repo, policy, body, 64))
    bad, und = None, False
    if len(ps) != 1 or ps[0].outcome != 'return':
        p = ps[0]
        if p.outcome == 'raise':
            bad = 'raises %s' % p.value
        else:
            bad, und = '%d partitions: %s' % (len(ps), p.guards()), True
    else:
        bad = judge(ps[0])
    ctx.ob(rule, con, None if und else bad is None, fn.loc(), bad or '', func=fn.qualname)


def atmosphere(ctx, repo):
    for (cname, kw, (e, no, pr, tv, scale)), three, own in itertools.product(ATM, (False, True), (False, True)):
        cls = repo.mod('forcing').classes[cname]
        fn = cls.find_method('set_fields')
        s = {0: 7., 1: 50.}
        rep = {}
        for n in s:
            rep.update({'%s_%d@time' % (e, n): 0.6 * s[n], '%s_%d@time' % (no, n): -0.8 * s[n]})

        def body(it):
            P_ = it.policy
            w, p = P_.func(it, 'wind', 3 if three else 2), P_.func(it, 'pres')
            k = dict(kw)
            if own:
                k['vect_rotator'] = it.obj('rot', None)
                k['vect_rotator'].meta.update(at=[['own%d' % n for n in range(N)]] * 2)
            o = it.instantiate(cls, [it.obj('fs', None), w, p, P_.csys(it), 'pattern', Sy('init_date')], k)
            it.call(it.getattr(o, 'set_fields'), [Sy('time')], {})
            return w, p

        def judge(p):
            w, q = p.value
            a = w.meta['v'].meta['a']
            for n in s:
                E, NN = '%s_%d@time' % (e, n), '%s_%d@time' % (no, n)
                mag = poly(Ex('call', Ext('numpy.hypot'), (Sy(E), Sy(NN)), ()))
                tx, ty = dragged(mag, s[n], 'LargeYeager2009', n, e + '_%d@time', no + '_%d@time')
                for k in range(3 if three else 2):
                    want = rotated(k, tx, ty, n) if not own else P('R%dE(own%d,own%d)' % (k, n, n)) * tx + P('R%dN(own%d,own%d)' % (k, n, n)) * ty
                    if not eq(a[n, k], want):
                        return 'stress component %d is %s' % (k, show_poly(poly(a[n, k]), 4))
                if not eq(entries(q.meta['v'])[n], poly(scale) * P('%s_%d@time' % (pr, n))):
                    return 'pressure is %s' % show(entries(q.meta['v'])[n])
            for v, (tag, _) in p.it.user['tags'].items():
                pat, t = tag.split('|')[:2]
                if pat != 'pattern' or t != tv:
                    return 'reads the time from variable %s of %s, expected %s' % (t, pat, tv)
            return None
        con = '%s%s%s%s' % (cname, ', given names' if kw else '', ', 3 components' if three else '', ', given rotator' if own else '')
        run1(ctx, repo, 'atmospheric fields', con, fn, lambda: Forc(rep, three), body, judge)


def ocean(ctx, repo):
    mod = repo.mod('forcing')
    # one variable per field
    for cname, comps, order in (('LiveOceanInterpolator', 0, 'ab'), ('GenericInterpolator2D', 0, 'ab'), ('GenericInterpolator2D', 2, 'ab'),
                                ('GenericInterpolator2D', 3, 'ab'), ('GenericInterpolator2D', 2, ('vn', 'a'))):
        cls = mod.classes[cname]
        fn = cls.find_method('set_fields')

        def body(it):
            P_ = it.policy
            fs = it.user.setdefault('fs', it.obj('fs', None))
            f = [P_.func(it, 'fa'), P_.func(it, 'fb')]
            names = list(order)
            if cname == 'LiveOceanInterpolator':
                o = it.instantiate(cls, [fs, f, names, 'pattern', Sy('init_date'), P_.csys(it)], {})
            else:
                v = P_.func(it, 'vec', comps) if comps else None
                if v is not None:
                    it.user['vec'] = v
                o = it.instantiate(cls, [fs, f, names, 'pattern', Sy('init_date'), P_.csys(it)],
                                   dict(vector_field=v, vector_components=['ue', 'vn']) if comps else {})
            it.call(it.getattr(o, 'set_fields'), [Sy('time')], {})
            it.call(it.getattr(o, 'set_fields'), [Sy('later')], {})
            return f, names

        def judge(p):
            f, names = p.value
            if names != list(order):
                return 'the list of the caller is modified: %s' % names
            for x, v in zip(f, order):
                for n in range(N):
                    if show(entries(x.meta['v'])[n]) != '%s_%d@later' % (v, n):
                        return 'field of variable %s is set to %s' % (v, show(entries(x.meta['v'])[n]))
            if comps:
                a = p.it.user['vec'].meta['v'].meta['a']
                for n in range(N):
                    for k in range(comps):
                        if not eq(a[n, k], rotated(k, P('ue_%d@later' % n), P('vn_%d@later' % n), n)):
                            return 'vector component %d is %s' % (k, show(a[n, k]))
            return None
        run1(ctx, repo, 'ocean fields', cname + (', vector with %d components' % comps if comps else '') + (', also read as scalar' if 'vn' in order else ''), fn, lambda: Forc({}, comps == 3), body, judge)
    # one file per field
    cls = mod.classes['NCOMInterpolator']
    fn = cls.find_method('set_fields')
    sets = [(['Salinity', 'Temperature'], ['s3d', 't3d']), (['Surface_Elevation', 'Salinity', 'U_Velocity', 'V_Velocity'], ['ssh', 's3d', 'u3d', 'v3d']),
            (['V_Velocity', 'U_Velocity'], ['v3d', 'u3d']), (['U_Velocity'], ['u3d'])]
    for names, files in sets:
        def body(it):
            P_ = it.policy
            f = [P_.func(it, 'f' + x) for x in names]
            nm = list(names)
            fs = [it.obj('fs', '2'), it.obj('fs', '3')]
            for x, fl in zip(f, files):
                x.meta['fs'] = fs[fl != 'ssh']
            o = it.instantiate(cls, fs + [f, nm, list(files), P_.csys(it), 'base', '{year:04d}/{fieldstr:}.nc', Sy('init_date')], {})
            it.call(it.getattr(o, 'set_fields'), [Sy('time')], {})
            return f, nm

        def judge(p):
            f, nm = p.value
            if nm != names:
                return 'the list of the caller is modified: %s' % nm
            rot = 'U_Velocity' in names and 'V_Velocity' in names
            for x, v, fl in zip(f, names, files):
                for n in range(N):
                    if rot and v in ('U_Velocity', 'V_Velocity'):
                        want = rotated('UV'.index(v[0]), P('U_Velocity_%d@time' % n), P('V_Velocity_%d@time' % n), n, '3')
                    else:
                        want = P('%s_%d@time' % (v, n))
                    if not eq(entries(x.meta['v'])[n], want):
                        return '%s is set to %s' % (v, show(entries(x.meta['v'])[n]))
                tag, grid = p.it.user['tags'][v]
                if fl not in tag.split('|')[0] or 'fieldstr' in tag:
                    return '%s is read from files %s' % (v, tag.split('|')[0])
                if grid != 'SpatialInterpolatorNCOM' + ('2d' if fl == 'ssh' else '3d'):
                    return '%s is interpolated with %s' % (v, grid)
            return None
        run1(ctx, repo, 'ocean fields', 'NCOMInterpolator, %s' % ', '.join(names), fn, lambda: Forc({}), body, judge)


def tides(ctx, repo):
    mod = repo.mod('forcing')
    for cname, uv, nodes, missing, three in itertools.product(('TPXOTidalBoundaryForcing', 'FES2004TidalBoundaryForcing'), (False, True),
                                                              (None, (0, 1), (1,), ()), (False, True), (False, True)):
        cls = mod.classes[cname]
        fn = cls.find_method('set_tidal_field')
        lay = 'lon{0},lat{0}' if 'TPXO' in cname else 'lat{0},lon{0}'
        if missing and nodes == ():
            continue
        act = (0, 1) if nodes is None else nodes
        miss = (lay.format(act[-1]),) if missing else ()

        def body(it):
            P_ = it.policy
            e, v = P_.func(it, 'elev'), P_.func(it, 'uv', 3 if three else 2)
            kw = dict(constituents=['M2'], boundary_ids=None if nodes is None else [1])
            if uv:
                kw['uv_field'] = v
            d = it.obj('datetime', 'init')
            d.attrs['tzinfo'] = Sy('utc')
            o = it.instantiate(cls, [e, d, P_.csys(it)], kw)
            it.call(it.getattr(o, 'set_tidal_field'), [Sy('time')], {})
            return e, v

        def judge(p):
            e, v = p.value
            for n in range(N):
                want = Sy('elev_old%d' % n) if n not in act else 0 if missing and n == act[-1] else Sy('h(%s)@time' % lay.format(n))
                if not eq(entries(e.meta['v'])[n], want):
                    return 'elevation at node %d is %s' % (n, show(entries(e.meta['v'])[n]))
                if uv and 'TPXO' in cname and n in act:
                    for k in range(2):
                        want = Poly() if missing and n == act[-1] else rotated(k, P('u(%s)@time' % lay.format(n)), P('v(%s)@time' % lay.format(n)), n)
                        got = v.meta['v'].meta['a'][n, k]
                        if not eq(got, want):
                            return 'velocity component %d at node %d is %s' % (k, n, show(got))
                if not (uv and 'TPXO' in cname):
                    if any(show(v.meta['v'].meta['a'][n, k]) != 'uv_old%d_%d' % (n, k) for k in range(2)):
                        return 'velocity changed'
            return None
        con = '%s%s, %s%s%s' % (cname, ' with velocity' if uv else '', 'whole domain' if nodes is None else 'nodes %s' % list(nodes),
                                ', point outside of the data' if missing else '', ', sphere' if three else '')
        run1(ctx, repo, 'tidal boundary', con, fn, lambda: Forc(dict(lat0=46., lat1=46.5, lon0=235., lon1=236.), three, nodes, miss), body, judge)


# ---------------------------------------------------------------- coordinates
class Cs(NP):
    """projections are inverse pairs of maps between named systems"""
    linear = False

    def __init__(self, rep=None, nan=(), linear=False):
        super().__init__(rep)
        self.nan, self.linear = nan, linear

    def call(self, it, fn, args, kwargs, node):
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'Proj':
            o = it.obj('Proj', None)
            o.meta['sys'] = 'lonlat' if kwargs.get('proj') in ('latlong', 'longlat') else '%s%s%s' % (kwargs.get('proj'), show(kwargs.get('zone')),
                                                                                               show(kwargs.get('south')))
            o.meta['kw'] = kwargs
            return o
        if n == 'from_crs':
            o = it.obj('Trans', None)
            o.meta['ab'] = tuple(show(a) for a in args[:2])
            return o
        if isinstance(fn, tuple) and fn and fn[0] == 'trans':
            a, b = fn[1].meta['ab']
            x, y = args[:2]
            if self.isnd(x) or self.isnd(y):
                return tuple(self.ew(it, lambda p, q: self.tr(it, a, b, p, q)[k], x, y) for k in (0, 1))
            return self.tr(it, a, b, x, y)
        if isinstance(fn, tuple) and fn and fn[0] == 'fs':
            return it.obj('fs', None)
        if n == 'Function':
            o = it.obj('Function', None)
            o.meta['v'] = self.nd(it, [[0, 0] for _ in range(N)])
            return o
        return super().call(it, fn, args, kwargs, node)

    def tr(self, it, a, b, x, y):
        x, y = self.scal(x), self.scal(y)
        if not (self.finite(it, x) and self.finite(it, y)):
            return Sy('projected nan'), Sy('projected nan')
        if self.linear:
            # image of (lon_n + c, lat_n + d) to first order
            px, py = poly(x), poly(y)
            for n in range(N):
                dx, dy = px - P('lon%d' % n), py - P('lat%d' % n)
                if dx.is_const() and dy.is_const():
                    cx, cy = dx.const_value(), dy.const_value()
                    if max(abs(cx), abs(cy)) > 1e-3:
                        raise AnalysisError('finite difference increment %s' % float(max(abs(cx), abs(cy))))
                    m = lambda k: Sy('%s%d' % (k, n))
                    s = lambda k, e: it.binop('+', it.binop('+', m(k), it.binop('*', cx, m(k + 'E'))), it.binop('*', cy, m(k + 'N')))
                    return s('X', 0), s('Y', 0)
            raise AnalysisError('projection of %s, %s' % (show(x), show(y)))
        if a == b:
            return x, y
        cs = [v.args[0] for v in (x, y) if isinstance(v, Ex) and v.op == 'proj']
        if len(cs) == 2 and x.args[:2] == (b, a) and y.args[:2] == (b, a) and x.args[2] == 0 and y.args[2] == 1 \
                and [show(i) for i in x.args[3:]] == [show(i) for i in y.args[3:]]:
            return x.args[3], x.args[4]
        return tuple(Ex('proj', a, b, k, x, y) for k in (0, 1))

    def attr(self, it, base, name, node):
        if isinstance(base, Ob):
            if base.clsname == 'Proj':
                return Sy(base.meta['sys'])
            if base.clsname == 'Trans' and name == 'transform':
                return ('trans', base, name)
            if base.clsname == 'mesh':
                if name.endswith('_dimension'):
                    return 2
                if name == 'coordinates':
                    return base
                if name == 'dat':
                    return base
                if name.startswith('data'):
                    return self.nd(it, [[Sy('x%d' % n), Sy('y%d' % n)] for n in range(N)])
                if name == 'function_space':
                    return ('fs', base, name)
            if base.clsname == 'Function':
                if name == 'dat':
                    return base
                if name.startswith('data'):
                    return base.meta['v']
        return super().attr(it, base, name, node)

    def finite(self, it, x):
        if show(x) in self.nan:
            return False
        return super().finite(it, x)

    def decide(self, it, cond):
        if isinstance(cond, Ex) and cond.op == 'isinstance':
            t = getattr(cond.args[1], 'short', None) or show(cond.args[1])
            if t == 'ndarray':
                return self.isnd(cond.args[0])
        return super().decide(it, cond)


def isnan(v):
    return isinstance(v, Ext) and v.short == 'nan' or show(v) in ('nan', 'numpy.nan')


def projections(ctx, repo):
    cls = repo.mod('coordsys').classes['UTMCoordinateSystem']
    utm = 'utm10False'

    def want(a, b, x, y, k):
        return show(Ex('proj', a, b, k, Sy(x), Sy(y)))
    cases = []
    for back, arr, pos, nan in itertools.product((False, True), (False, True), (False, True), ((), ('x0',), ('y1',))):
        if (nan and not arr) or (pos and back):
            continue
        cases.append((back, arr, pos, nan))
    for back, arr, pos, nan in cases:
        name = 'to_xy' if back else 'to_lonlat'
        fn = cls.methods[name]
        a, b = ('lonlat', utm) if back else (utm, 'lonlat')

        def body(it):
            o = it.instantiate(cls, [10], {})
            x, y = (it.policy.nd(it, [Sy('%s%d' % (c, n)) for n in range(N)]) for c in 'xy') if arr else (Sy('x0'), Sy('y0'))
            r = it.call(it.getattr(o, name), [x, y], {'positive_lon': True} if pos else {})
            rt = None
            if not pos:
                rt = it.call(it.getattr(o, 'to_lonlat' if back else 'to_xy'), list(r), {})
            return r, rt, x, y

        def judge(p):
            r, rt, x, y = p.value
            r = [entries(v) if arr else [v] for v in r]
            for n in range(N if arr else 1):
                for k in (0, 1):
                    if 'x%d' % n in nan or 'y%d' % n in nan:
                        if not isnan(r[k][n]) and not (pos and 'nan' in show(r[k][n])):
                            return 'point with undefined coordinates gets %s' % show(r[k][n])
                        continue
                    w = want(a, b, 'x%d' % n, 'y%d' % n, k)
                    g = r[k][n]
                    if pos and k == 0:
                        cp = call_parts(g) if isinstance(g, Ex) else None
                        if isinstance(g, Ex) and g.op == '%' and g.args[1] == 360:
                            g = g.args[0]
                        elif cp and callee_name(cp[0]) in ('mod', 'remainder') and cp[1][1] == 360:
                            g = cp[1][0]
                        else:
                            return 'longitude is %s' % show(g)
                    if show(g) != w:
                        return 'component %d is %s' % (k, show(g))
            if rt is not None:
                rt = [entries(v) if arr else [v] for v in rt]
                for n in range(N if arr else 1):
                    if not ('x%d' % n in nan or 'y%d' % n in nan) and [show(v[n]) for v in rt] != ['x%d' % n, 'y%d' % n]:
                        return 'there and back gives %s' % [show(v[n]) for v in rt]
            if arr and [show(v) for v in entries(x) + entries(y)] != ['x0', 'x1', 'y0', 'y1']:
                return 'modifies the coordinates of the caller'
            return None
        con = '%s, %s%s%s' % (name, 'arrays' if arr else 'numbers', ', positive longitude' if pos else '', ', %s undefined' % nan[0] if nan else '')
        run1(ctx, repo, 'projection', con, fn, lambda: Cs({}, nan), body, judge)
    fn = cls.methods['get_mesh_lonlat_function']

    def body(it):
        o = it.instantiate(cls, [10], {})
        return it.call(it.getattr(o, 'get_mesh_lonlat_function'), [it.obj('mesh', None)], {})

    def judge(p):
        a = p.value.meta['v'].meta['a']
        for n in range(N):
            for k in (0, 1):
                if show(a[n, k]) != want(utm, 'lonlat', 'x%d' % n, 'y%d' % n, k):
                    return 'component %d is %s' % (k, show(a[n, k]))
        return None
    run1(ctx, repo, 'projection', 'get_mesh_lonlat_function', fn, lambda: Cs({}), body, judge)


def rotation(ctx, repo):
    mod = repo.mod('coordsys')
    cls = mod.classes['UTMCoordinateSystem']
    fn = mod.classes['VectorCoordSysRotation'].methods['__call__']
    half = nparr.Fraction(1, 2)
    for node in (None, 0, 1):
        def body(it):
            P_ = it.policy
            o = it.instantiate(cls, [10], {})
            rot = it.call(it.getattr(o, 'get_vector_rotator'), [P_.nd(it, [Sy('lon%d' % n) for n in range(N)]), P_.nd(it, [Sy('lat%d' % n) for n in range(N)])], {})
            if node is None:
                return it.call(rot, [P_.nd(it, [Sy('e%d' % n) for n in range(N)]), P_.nd(it, [Sy('n%d' % n) for n in range(N)])], {})
            return it.call(rot, [Sy('e%d' % node), Sy('n%d' % node)], {'i_node': node})

        def judge(p):
            r = [entries(v) if NP.isnd(v) else [v] for v in p.value]
            if [len(v) for v in r] != [N if node is None else 1]*2:
                return '%s values are returned' % [len(v) for v in r]
            for j, n in enumerate(range(N) if node is None else [node]):
                dx, dy = P('XN%d' % n), P('YN%d' % n)
                h = (dx * dx + dy * dy).pow(half)
                e, m = P('e%d' % n), P('n%d' % n)
                if not (eq(r[0][j], (dy * e + dx * m) / h) and eq(r[1][j], (dy * m - dx * e) / h)):
                    return 'rotated vector is (%s, %s)' % (show_poly(poly(r[0][j]), 4), show_poly(poly(r[1][j]), 4))
            return None
        run1(ctx, repo, 'rotation', 'whole field' if node is None else 'node %d' % node, fn, lambda: Cs({}, (), True), body, judge)


T3 = ('abstract execution with symbolic nodal values per data set variable; the fields set are compared with the documented combination by '
      'polynomial identity')


@prop('F03', 'forcing fields: wind stress formula, variable, component, rotation, unit, file and time variable of every field set', 20, T3)
def f03(ctx):
    need()
    repo = get_repo()
    wind_stress(ctx, repo)
    atmosphere(ctx, repo)
    ocean(ctx, repo)
    tides(ctx, repo)


@prop('F04', 'projection and inverse are paired with matching argument order, vectors are rotated by an orthogonal map taking north to projected north',
      10, 'abstract execution over arrays with symbolic entries; projections are uninterpreted inverse pairs, and linearised for the rotation')
def f04(ctx):
    need()
    repo = get_repo()
    projections(ctx, repo)
    rotation(ctx, repo)
