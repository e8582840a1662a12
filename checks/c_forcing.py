"""F02: interpolation in space; F03: forcing fields."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Cv, Fv, RaiseSig, explore, show, key, call_parts, callee_name, is_num
from sa.repo import AnalysisError
from sa.formdb import repo as get_repo
from sa.nparr import NP, need, poly
from sa import nparr
from sa.pw import same
from sa.poly import Poly, show_poly

N = 3


def entries(v):
    """list of scalar entries of an abstract array"""
    return [NP.scal(x) for x in v.meta['a'].reshape(-1)] if NP.isnd(v) else None


def eq(a, b):
    return same(poly(a), poly(b))


class Grid(NP):
    """external triangulation and nearest neighbour search"""
    def __init__(self, simplices, where, near, rep, qfail=False, pins=None):
        super().__init__(rep, pins)
        self.simplices, self.where, self.near, self.qfail = simplices, where, near, qfail

    def call(self, it, fn, args, kwargs, node):
        np = nparr.np
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'Delaunay':
            it.user['grid'] = args[0]
            if self.qfail:
                raise RaiseSig('QhullError', it.loc(node))
            o = it.obj('Delaunay', None)
            d = args[0].meta['a'].shape[1]
            m = len(self.simplices)
            T = np.empty((m, d + 1, d), dtype=object)
            for i in np.ndindex(*T.shape):
                T[i] = Sy('T%d_%d%d' % i)
            o.attrs.update(simplices=self.nd(it, np.array(self.simplices)), transform=self.nd(it, T))
            return o
        if n == 'find_simplex' and isinstance(fn, Ex):
            it.user['target'] = args[0]
            return self.nd(it, np.array(self.where))
        if n in ('cKDTree', 'KDTree'):
            o = it.obj('Tree', None)
            o.meta['pts'] = args[0]
            return o
        if n == 'query' and isinstance(fn, Ex) and isinstance(fn.args[0], Ob):
            it.user['tree'] = (fn.args[0].meta['pts'], args[0])
            return Sy('distances'), self.nd(it, np.array([self.near[i] for i in range(len(args[0].meta['a']))]))
        return super().call(it, fn, args, kwargs, node)

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.clsname in ('Tree', 'Delaunay') and name in ('query', 'find_simplex'):
            return Ex('attr', base, name)
        return super().attr(it, base, name, node)


def weights(d, s, x):
    c = []
    for i in range(d):
        p = Poly()
        for k in range(d):
            p = p + poly(Sy('T%d_%d%d' % (s, i, k))) * (poly(x[k]) - poly(Sy('T%d_%d%d' % (s, d, k))))
        c.append(p)
    return c + [1 - sum(c, Poly())]


def barycentric(ctx, repo):
    cls = repo.mod('interpolation').classes['GridInterpolator']
    fn = cls.methods['__call__']
    simp = {2: [[0, 1, 2], [3, 2, 1]], 3: [[0, 1, 2, 3], [4, 1, 2, 3]]}
    for d, mode, norm, fail in itertools.product((2, 3), (None, 'nearest'), (False, True), (False, True)):
        if norm and d == 2:
            continue
        ng = d + 2
        for outs in ((), (1,), (0, 2)):
            where = [0, 1, 0]
            for o in outs:
                where[o] = -1
            con = '%d-D%s%s%s, %s outside' % (d, ', fill nearest' if mode else '', ', normalized' if norm else '',
                                              ', triangulation fails' if fail else '', 'points %s' % list(outs) if outs else 'no point')
            # the order of the entries is only used for the sign of the weights
            rep = {}
            for s, i, k in itertools.product(range(2), range(d + 1), range(d)):
                rep['T%d_%d%d' % (s, i, k)] = 0.1 if i < d and i == k else 0.0
            for n in range(N):
                for k in range(d):
                    rep['x%d%d' % (n, k)] = -5. - n - 0.1 * k if n in outs else 1. + 0.2 * n + 0.1 * k
            for n in range(ng):
                for k in range(d):
                    rep['g%d%d' % (n, k)] = 0.1 * n + 0.3 * k
            if norm:
                rep.update({'x%d%d' % (n, k): (5. + n + k if n in outs else 0.5 + .2 * n) for n in range(N) for k in range(d)})

            def body(it):
                g = it.policy.nd(it, [[Sy('g%d%d' % (n, k)) for k in range(d)] for n in range(ng)])
                x = it.policy.nd(it, [[Sy('x%d%d' % (n, k)) for k in range(d)] for n in range(N)])
                s = it.instantiate(cls, [g, x], dict(fill_mode=mode, fill_value=Sy('fill'), normalize=norm, dont_raise=True))
                v = it.policy.nd(it, [Sy('v%d' % n) for n in range(ng)])
                w = it.policy.nd(it, [Sy('w%d' % n) for n in range(ng)])
                a = it.call(s, [v], {})
                b = it.call(s, [w], {})
                return a, b, g, x

            near = [3, 1, 2]
            ps = list(explore(repo, lambda: SignGrid(simp[d], where, near, rep, fail, outs), body, 8))
            if len(ps) != 1 or ps[0].outcome != 'return':
                ctx.ob('interpolation weights', con, False if ps[0].outcome == 'raise' else None, fn.loc(),
                       'raises %s' % ps[0].value if ps[0].outcome == 'raise' else '%d partitions: %s' % (len(ps), ps[0].guards()), func=fn.qualname)
                continue
            a, b, g, x = ps[0].value
            u = ps[0].it.user
            bad = coords(u, g, x, fail, outs, mode)
            if not bad:
                xt = u['target'].meta['a'] if not fail else None
                for var, r in (('v', a), ('w', b)):
                    r = entries(r)
                    if r is None or len(r) != N:
                        bad = 'returns %s' % show(r)
                        break
                    for n in range(N):
                        if fail or n in outs:
                            want = poly(Sy('%s%d' % (var, near[n if fail else list(outs).index(n)]))) if mode else poly(Sy('fill'))
                        else:
                            w = weights(d, where[n], list(xt[n]))
                            want = sum((w[j] * poly(Sy('%s%d' % (var, simp[d][where[n]][j]))) for j in range(d + 1)), Poly())
                        if not eq(r[n], want):
                            bad = 'target %d gets %s, expected %s' % (n, show_poly(poly(r[n]), 5), show_poly(want, 5))
                            break
            ctx.ob('interpolation weights', con, bad is None, fn.loc(), bad or '', func=fn.qualname)


class SignGrid(Grid):
    """targets listed in `outs` have a negative weight, the others none"""
    def __init__(self, simplices, where, near, rep, qfail, outs):
        super().__init__(simplices, where, near, rep, qfail)
        self.outs = outs

    def compare(self, it, op, a, b):
        if NP.isnd(a) and a.meta['a'].ndim == 2 and is_num(b) and b == 0 and op in ('<', '<='):
            r = self.nd(it, nparr.np.zeros(a.meta['a'].shape, dtype=bool))
            for n in self.outs:
                r.meta['a'][n, 0] = True
            return r
        if NP.isnd(a) and a.meta['a'].ndim == 2 and is_num(b) and b == 0 and op in ('>', '>='):
            r = self.nd(it, nparr.np.ones(a.meta['a'].shape, dtype=bool))
            for n in self.outs:
                r.meta['a'][n, 0] = False
            return r
        return super().compare(it, op, a, b)


def coords(u, g, x, fail, outs, mode):
    """the coordinates used are a common increasing map of each column of the given ones"""
    g2 = u['grid'].meta['a']
    pairs = [(x, u['target'], list(range(N)))] if not fail else []
    if mode and (fail or outs):
        if 'tree' not in u:
            return 'no nearest point is looked up'
        t, q = u['tree']
        if any(not eq(p, r) for p, r in zip(t.meta['a'].reshape(-1), g2.reshape(-1))):
            return 'nearest points are looked up in other coordinates than the triangulated ones'
        pairs.append((x, q, list(range(N)) if fail else list(outs)))
    ga = g.meta['a']
    if g2.shape != ga.shape:
        return 'coordinates have shape %s' % (g2.shape,)
    for orig, used, rows in pairs:
        a, b = orig.meta['a'], used.meta['a']
        if b.shape != (len(rows), a.shape[1]):
            return 'coordinates have shape %s' % (b.shape,)
        for k in range(a.shape[1]):
            for j, n in enumerate(rows):
                # (g'_1 - g'_0)(x - g_0) = (g_1 - g_0)(x' - g'_0)
                l = (poly(g2[1, k]) - poly(g2[0, k])) * (poly(a[n, k]) - poly(ga[0, k]))
                r = (poly(ga[1, k]) - poly(ga[0, k])) * (poly(b[j, k]) - poly(g2[0, k]))
                if not same(l, r):
                    return 'target and source coordinates are scaled differently'
    return None


# ------------------------------------------------------- source grid selection
class Src(NP):
    """reading a structured grid: arrays of the file are opaque"""
    MESH = ('lon', 'lat', 'z')

    def __init__(self, dims, pins=None):
        super().__init__({}, pins)
        self.dims = dims        # layout of the data variable

    def nodes(self, it, k):
        return self.nd(it, [Sy('%s%d' % (k, n)) for n in range(N)])

    def notnone(self, it, v):
        return True

    def decide(self, it, cond):
        s = show(cond)
        if 'min()' in s or 'max()' in s or 'len(' in s or 'isMaskedArray' in s or '.shape' in s:
            return True
        return super().decide(it, cond)

    def compare(self, it, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>=') and ('.shape' in show(a) or '.shape' in show(b)):
            s = show(a) + show(b)
            if 'len(' in s and 'var' in s and op == '==':
                n = b if isinstance(b, int) else a
                return n == len(self.dims)
            if 'len(' in s and op == '==' and isinstance(b, int):
                return b == (2 if 'meshgrid' in show(a) or not self.pins.get('1d', True) else 1)
            return True
        return super().compare(it, op, a, b)

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.clsname == 'nc':
            if name == 'variables':
                return {k: self.ncvar(it, k) for k in ('longitude', 'latitude', 'X_Index', 'Y_Index', 'level', 'var')}
            return ('none', base, name)
        if isinstance(base, Ob) and base.clsname == 'ncvar':
            if name == 'standard_name':
                return base.name
            if name == 'name':
                return base.name
            if name == 'shape':
                return tuple(Sy('n_' + d) for d in ('time',) + self.dims)
        if isinstance(base, Ob) and base.clsname == 'fs':
            if name in ('mesh', 'get_work_function', 'restore_work_function'):
                return ('fs', base, name)
            if name == 'value_shape':
                return ()
        if isinstance(base, Ob) and base.clsname == 'Work':
            if name == 'interpolate':
                return ('interp', base, name)
            if name == 'dat':
                return base
            if name.startswith('data'):
                return base.meta['v']
        if isinstance(base, Ob) and base.clsname == 'csys':
            return ('csys', base, name)
        return super().attr(it, base, name, node)

    def ncvar(self, it, k):
        o = it.obj('ncvar', k)
        return o

    def index(self, it, base, idx, node):
        if isinstance(base, Ob) and base.clsname == 'nc':
            return self.ncvar(it, idx)
        if isinstance(base, Ob) and base.clsname == 'ncvar':
            if isinstance(idx, slice) and idx == slice(None):
                return Sy('nc:' + base.name)
            return Ex('idx', Sy('nc:' + base.name), idx)
        if isinstance(base, Ob) and base.clsname == 'xyz':
            return Sy('xyz'[idx])
        if NP.isnd(base) and not isinstance(idx, (int, slice, tuple, list)) and base.meta['a'].dtype == object and base.meta['a'].ndim == 2:
            return Ex('idx', base, idx)
        return super().index(it, base, idx, node)

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name == 'GridInterpolator':
            it.user['gi'] = (args, kwargs)
            o = it.obj('GI', None)
            return o
        return super().instantiate(it, cls, args, kwargs, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'none':
            return Sy('path')
        if isinstance(fn, tuple) and fn and fn[0] == 'fs':
            if fn[2] == 'get_work_function':
                o = it.obj('Work', None)
                o.meta['v'] = self.nd(it, [0] * N)
                return o
            return Sy('mesh')
        if isinstance(fn, tuple) and fn and fn[0] == 'interp':
            fn[1].meta['v'] = self.nodes(it, show(args[0]))
            return fn[1]
        if isinstance(fn, tuple) and fn and fn[0] == 'csys':
            if fn[2] == 'to_lonlat':
                ok = [show(entries(a)[0]) if NP.isnd(a) else show(a) for a in args[:2]] == ['x0', 'y0']
                return (self.nodes(it, 'lon' if ok else 'wrong'), self.nodes(it, 'lat' if ok else 'wrong'))
        if isinstance(fn, Ob) and fn.clsname == 'GI':
            it.user.setdefault('used', []).append(args[0])
            return Ex('interpolated', args[0])
        f = getattr(fn, 'func', None)
        if f is not None and f.name == '_get_subset_nodes':
            a = [x for x in args if not (isinstance(x, Ob) and x.cls is not None and hasattr(x.cls, 'methods'))]
            it.user['subset'] = a
            return Sy('nodes'), Sy('ind_first'), Sy('ind_second')
        if f is not None and f.name == 'get_ncvar_name':
            return args[1] if len(args) > 1 else kwargs.get('standard_name')
        if f is not None and f.name == '_get_forcing_grid':
            return {'Lat': Sy('nc:latitude'), 'Long': Sy('nc:longitude'), 'zm': Sy('nc:z')}.get(args[-1], Sy('nc:?'))
        if f is not None and f.name == '_compute_roms_z_coord':
            # heights of the selected sea points: checked separately
            s = fn.self_
            return Ex('idx', Ex('idx', Sy('nc:z'), (s.attrs.get('ind_lat', Sy('?')), s.attrs.get('ind_lon', Sy('?')))), s.attrs.get('mask', Sy('?')))
        n = callee_name(fn) if isinstance(fn, (Ext, Ex)) else None
        if n == 'SpatialCoordinate':
            o = it.obj('xyz', None)
            return o
        if n == 'Function':
            o = it.obj('Work', None)
            o.meta['v'] = self.nd(it, [0] * N)
            return o
        if n == 'Dataset':
            return it.obj('nc', None)
        if n == 'hasattr':
            return True
        return super().call(it, fn, args, kwargs, node)

    def iterate(self, it, value, node):
        if isinstance(value, Ob) and value.clsname == 'xyz':
            return [Sy('x'), Sy('y')]
        return super().iterate(it, value, node)

    def npcall(self, it, n, args, kwargs, node):
        op = [a for a in args if isinstance(a, (Sy, Ex))]
        if op and n not in ('array', 'vstack', 'hstack', 'stack', 'column_stack'):
            return NotImplemented
        if n == 'meshgrid':
            return NotImplemented
        try:
            return super().npcall(it, n, args, kwargs, node)
        except (AnalysisError, TypeError, ValueError):
            return NotImplemented

    def binop(self, it, op, a, b, node):
        if isinstance(a, (Sy, Ex)) or isinstance(b, (Sy, Ex)):
            if not (NP.isnd(a) or NP.isnd(b)):
                return NotImplemented
            return Ex(op, a, b)
        return super().binop(it, op, a, b, node)

    def setindex(self, it, base, idx, value, node):
        if isinstance(base, (Sy, Ex)):
            return None     # opaque masks and heights
        return super().setindex(it, base, idx, value, node)

    def invert(self, it, a):
        return Ex('~', a)


THROUGH = ('ravel', 'filled', 'tile', 'astype', 'copy', 'flatten', 'reshape', 'array', 'asarray')


def trace(v, chain=()):
    """(leaf, layout, selections) of an opaque array"""
    if isinstance(v, Ob) and NP.isnd(v) and v.meta['a'].size == 1:
        v = NP.scal(v.meta['a'].reshape(-1)[0])
    if isinstance(v, Sy):
        return v.name, None, chain
    if isinstance(v, Ex) and v.op == 'idx':
        base, i = v.args[0], v.args[1]
        cp = call_parts(base)
        if cp and callee_name(cp[0]) == 'meshgrid' and isinstance(i, int):
            ix = cp[2].get('indexing', 'xy')
            names = [trace(a)[0] for a in cp[1]]
            return names[i], tuple(names) if ix == 'ij' else tuple(reversed(names)), chain
        return trace(base, (i,) + chain)
    if isinstance(v, Ex) and v.op == 'attr' and v.args[1] in ('T', 'data'):
        return trace(v.args[0], chain)
    if isinstance(v, Ex) and v.op == 'call':
        cp = call_parts(v)
        n = callee_name(cp[0])
        if n in THROUGH:
            if isinstance(cp[0], Ex) and cp[0].op == 'attr':
                return trace(cp[0].args[0], chain)
            return trace(cp[1][0], chain)
    return show(v), None, chain


def norm(chain):
    """selections without full slices and the time index"""
    out = []
    for c in chain:
        c = c if isinstance(c, tuple) else (c,)
        if c[:1] == ('slice',):
            c = (c,)
        c = [x for x in c if not (isinstance(x, slice) and x == slice(None)) and x != ('slice', None, None, None)
             and show(x) not in ('...', 'Ellipsis', 'itime', 'slice(None, None, None)') and not isinstance(x, int)]
        if c:
            out.append(tuple(show(x) for x in c))
    return out


COLS = {'nc:longitude': 'lon', 'nc:latitude': 'lat', 'nc:z': 'z', 'nc:lon_rho': 'lon', 'nc:lat_rho': 'lat'}


def columns(v):
    """kinds of the columns of a coordinate array"""
    a = v.meta['a']
    if a.ndim == 2 and a.shape[0] == N and isinstance(a[0, 0], Sy) and a[0, 0].name.endswith('0'):
        return [x.name[:-1] if isinstance(x, Sy) else '?' for x in a[0]], None
    cols = [NP.scal(x) for x in a.reshape(-1)]
    tr = [trace(c) for c in cols]
    return [COLS.get(t[0], t[0]) for t in tr], tr


GRIDS = [('interpolation', 'NetCDFLatLonInterpolator2d', ('lat', 'lon'), {'1d': True}),
         ('interpolation', 'NetCDFLatLonInterpolator2d', ('lat', 'lon'), {'1d': False}),
         ('forcing', 'SpatialInterpolatorNCOM2d', ('lat', 'lon'), {}), ('forcing', 'SpatialInterpolatorNCOM3d', ('z', 'lat', 'lon'), {}),
         ('forcing', 'SpatialInterpolatorROMS3d', ('z', 'lat', 'lon'), {}), ('forcing', 'GenericSpatialInterpolator2D', ('lat', 'lon'), {})]


def selection(ctx, repo):
    for mod, cname, dims, pins in GRIDS:
        cls = repo.mod(mod).classes[cname]
        fn = cls.find_method('interpolate')
        con = cname + (', %s coordinates' % ('1-D' if pins['1d'] else '2-D') if '1d' in pins else '')

        def body(it):
            fs, cs = it.obj('fs', None), it.obj('csys', None)
            args = [fs, cs] + ([Sy('path')] if 'NCOM' in cname else [])
            s = it.instantiate(cls, args, {})
            return it.call(it.getattr(s, 'interpolate'), [Sy('file'), ['var', 'var'], Sy('itime')], {})
        ps = [p for p in explore(repo, lambda: Src(dims, dict(pins, **{'(mesh.geometric_dimension == 3)': False})), body, 256)]
        if not ps or any(p.outcome != 'return' for p in ps):
            p = next((p for p in ps if p.outcome != 'return'), None)
            ctx.ob('same points', con, False if p and p.outcome == 'raise' else None, fn.loc(), 'raises %s' % (p.value if p else '?'), func=fn.qualname)
            continue
        verdicts = {}
        for p in ps:
            bad = None
            u = p.it.user
            if 'gi' not in u or not u.get('used'):
                verdicts[None] = 'no interpolation found'
                continue
            args, kw = u['gi']
            src, _ = columns(args[0]) if NP.isnd(args[0]) else (None, None)
            tr = columns(args[0])[1] if NP.isnd(args[0]) else None
            dst, _ = columns(args[1]) if NP.isnd(args[1]) else (None, None)
            if tr is None or dst is None:
                verdicts[None] = 'coordinates %s' % show(args[0])
                continue
            if src != dst or sorted(src) != sorted(['lon', 'lat'] + (['z'] if 'z' in dims else [])):
                bad = 'source coordinates are (%s), target coordinates (%s)' % (', '.join(src), ', '.join(dst))
            for t in tr:
                if t[1] is not None and tuple(COLS.get(x, x) for x in t[1]) != tuple(d for d in dims if d != 'z'):
                    bad = bad or 'coordinates are laid out as (%s), the data as (%s)' % (', '.join(COLS.get(x, x) for x in t[1]), ', '.join(dims))
            sub = u.get('subset')
            if sub:
                kinds = [COLS.get(trace(a)[0]) for a in sub[:2]] + [entries(a)[0].name[:-1] if NP.isnd(a) else '?' for a in sub[2:4]]
                if kinds[:2] != kinds[2:]:
                    bad = bad or 'the subset is searched with source (%s) and target (%s)' % (', '.join(map(str, kinds[:2])), ', '.join(kinds[2:]))
            for d in u['used']:
                leaf, _, ch = trace(d)
                want = norm(ch)
                if leaf not in ('nc:var',):
                    bad = bad or 'interpolates %s' % leaf
                first = [show(x) for c in ch[:1] for x in (c if isinstance(c, tuple) else (c,))]
                if 'NCOM' not in cname and 'itime' not in first:
                    bad = bad or 'the time index is not used to read %s' % (first,)
                lead = set()
                for t, k in zip(tr, src):
                    got = norm(t[2])
                    lead.add(str(got[:len(got) - len(want)]))
                    if got[len(got) - len(want):] != want:
                        bad = bad or 'coordinate %s is selected by %s, the data by %s' % (k, got, want)
                if len(lead) > 1:
                    bad = bad or 'coordinates are taken from different parts of the grid: %s' % sorted(lead)
            verdicts.setdefault(bad, p)
        for bad in verdicts:
            if bad is not None:
                ctx.ob('same points', con, False if isinstance(verdicts[bad], type(ps[0])) else None, fn.loc(), str(bad), func=fn.qualname)
        if set(verdicts) == {None}:
            ok = not isinstance(verdicts[None], str)
            ctx.ob('same points', con, True if ok else None, fn.loc(), '' if ok else verdicts[None], func=fn.qualname)


class Rom(NP):
    def index(self, it, base, idx, node):
        if isinstance(base, Ob) and base.clsname == 'nc':
            return base.meta['vars'][idx]
        return super().index(it, base, idx, node)


def roms(ctx, repo):
    cls = repo.mod('forcing').classes['SpatialInterpolatorROMS3d']
    fn = cls.methods['_compute_roms_z_coord']
    nz, sel, mask = 4, [(0, 0), (0, 1), (1, 1)], [True, False, True]
    for const in (None, 0.1):
        def body(it):
            P_ = it.policy
            o = it.obj(cls, 'interpolator')
            o.attrs.update(ind_lat=P_.nd(it, [a for a, _ in sel]), ind_lon=P_.nd(it, [b for _, b in sel]),
                           mask=P_.nd(it, nparr.np.array(mask)))
            grid = lambda k: P_.nd(it, [[Sy('%s%d%d' % (k, i, j)) for j in range(2)] for i in range(2)])
            z = P_.nd(it, [[[Sy('zeta%d%d' % (i, j)) for j in range(2)] for i in range(2)]])
            nc = it.obj('nc', None)
            nc.meta['vars'] = {'zeta': z, 'h': grid('h'), 'Cs_w': P_.nd(it, [Sy('C%d' % k) for k in range(nz)]),
                               's_w': P_.nd(it, [Sy('s%d' % k) for k in range(nz)]), 'hc': P_.nd(it, [Sy('hc')])}
            return it.call(it.getattr(o, '_compute_roms_z_coord'), [nc], {'constant_zeta': const} if const else {})
        ps = list(explore(repo, Rom, body, 8))
        con = 'ROMS levels, %s' % ('constant elevation' if const else 'elevation of the file')
        if len(ps) != 1 or ps[0].outcome != 'return':
            ctx.ob('source heights', con, False if ps[0].outcome == 'raise' else None, fn.loc(), 'raises %s' % ps[0].value, func=fn.qualname)
            continue
        a = ps[0].value.meta['a']
        bad = None
        kept = [c for c, m in zip(sel, mask) if m]
        if a.shape != (nz - 1, len(kept)):
            bad = 'heights have shape %s' % (a.shape,)
        else:
            for j, (r, c) in enumerate(kept):
                zt = poly(const) if const else poly(Sy('zeta%d%d' % (r, c)))
                h, hc = poly(Sy('h%d%d' % (r, c))), poly(Sy('hc'))
                w = []
                for k in range(nz):
                    S = (hc * poly(Sy('s%d' % k)) + h * poly(Sy('C%d' % k))) / (hc + h)
                    w.append(zt + (zt + h) * S)
                for k in range(nz - 1):
                    want = w[0] if k == 0 else w[-1] if k == nz - 2 else (w[k] + w[k + 1]) / 2
                    if not eq(a[k, j], want):
                        bad = bad or 'layer %d at node %d lies at %s' % (k, j, show_poly(poly(a[k, j]), 5))
        ctx.ob('source heights', con, bad is None, fn.loc(), bad or '', func=fn.qualname)


TECH = ('abstract execution over arrays with symbolic entries; weights compared with barycentric coordinates by polynomial identity, source and '
        'target coordinates and index selections compared as data flow terms')


@prop('F02', 'grid interpolation weights are barycentric, coordinates of source and target agree in order and scaling, data and coordinates are selected alike',
      20, TECH)
def f02(ctx):
    need()
    repo = get_repo()
    barycentric(ctx, repo)
    selection(ctx, repo)
    roms(ctx, repo)
