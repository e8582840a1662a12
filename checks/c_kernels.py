"""E09: operators between 2D and 3D fields and cell geometry; E10: slope limiter."""
from sa import nparr
nparr.need()
import itertools  # noqa
import math  # noqa
from fractions import Fraction  # noqa
from sa.core import prop  # noqa
from sa.absint import explore, Sy, Ex, Ext, Ob, show  # noqa
from sa.repo import AnalysisError  # noqa
from sa.poly import Poly, _num, make_fn  # noqa
from sa import ckernel as ck  # noqa
from sa.cellsim import CellPolicy, nnodes, FACETS, scalar  # noqa
from checks.c_spaces import meshes  # noqa

TECH = ('abstract execution of the operators with their C kernels over a small column of cells with symbolic nodal values, every node order and '
        'element; results compared node by node with the definition')


def start(it, cname, layers):
    m2, m3 = meshes(it, cname)
    it.user['mesh3'] = m3
    it.user['layers'] = layers
    return m2, m3


def val(f, d, c=0):
    return f.meta['val'][d][c]


def same(a, b):
    return isinstance(a, Poly) and isinstance(b, Poly) and (a.key() == b.key() or (a - b).zero())


def run(repo, body, value=None):
    return list(explore(repo, lambda: CellPolicy(value), body))


class J:
    def __init__(self, ctx, con, where):
        self.ctx, self.con, self.where = ctx, con, where

    def ob(self, rule, ok, msg=''):
        self.ctx.ob(rule, self.con, ok, self.where, msg)

    def outcome(self, p, rule='the operator runs'):
        if p.outcome == 'raise':
            self.ob(rule, False, 'raises %s at %s' % (p.value.exc, p.value.loc))
            return False
        errs = p.value[-1] if isinstance(p.value, tuple) else []
        self.ob('kernels access existing values with their own maps', not errs, '; '.join(sorted(set(map(str, errs)))))
        return True

    def values(self, rule, pairs):
        bad = [(n, g, w) for n, g, w in pairs if not same(g, w)]
        self.ob(rule, bool(not bad and pairs), '; '.join('%s is %r, expected %r' % b for b in bad[:2])[:300] if bad else 'nothing computed')


def hv(fs):
    return nnodes(fs.attrs['elt'])


def node3(it, fs, h, v, layer):
    return it.policy.dofs(it, fs, layer)[h*hv(fs)[1] + v]


# ---------------------------------------------------------------- 2D <-> 3D copies
PAIRS = [('P1DG', ('DG', 1), ('DG', 1, 'DG', 1), False, False), ('vector P1DG', ('DG', 1), ('DG', 1, 'DG', 1), True, False),
         ('P1', ('CG', 1), ('CG', 1, 'CG', 1), False, False), ('P1DG x P2', ('DG', 1), ('DG', 1, 'CG', 2), False, False),
         ('P2DG x P1DG', ('DG', 2), ('DG', 2, 'DG', 1), False, False), ('RT2 x P1DG', ('RT', 2), ('RT', 2, 'DG', 1), False, True),
         ('BDM2 x P1DG', ('BDM', 2), ('BDM', 2, 'DG', 1), False, True)]


def pair(it, cname, p, layers=3):
    m2, m3 = start(it, cname, layers)
    name, e2, e3, vec, hdiv = p
    suf = {'triangle': 'F', 'quadrilateral': 'CF'}[cname]
    f2 = e2[0] + (suf if hdiv else '')
    V2 = it.policy.mkspace(it, m2, f2, e2[1], vector=vec)
    V3 = it.policy.mkspace(it, m3, f2, e3[1], e3[2], e3[3], vector=vec, hdiv=hdiv)
    return V2, V3


def factors(e, inv=False):
    """[(factor, inverted)] of a product"""
    if isinstance(e, Ex) and e.op == '*' and len(e.args) == 2:
        return factors(e.args[0], inv) + factors(e.args[1], inv)
    if isinstance(e, Ex) and e.op == '/' and len(e.args) == 2:
        return factors(e.args[0], inv) + factors(e.args[1], not inv)
    return [(e, inv)]


def scaling(problem, f, fs, h, power):
    """the projection of f * h**power onto its own space"""
    if not (isinstance(problem, Ex) and problem.op == 'problem' and problem.args[2] is f):
        return False

    def split(e):
        fs_ = factors(e)
        dx = [x for x, i in fs_ if isinstance(x, Ext) and x.short == 'dx']
        prods = [x for x, i in fs_ if isinstance(x, Ex) and x.op == 'inner' and not i]
        rest = [(x, i) for x, i in fs_ if not (isinstance(x, Ext) and x.short == 'dx') and not (isinstance(x, Ex) and x.op == 'inner')]
        if len(dx) != 1 or len(prods) != 1:
            return None
        return prods[0].args, rest

    def arg(x, n):
        return isinstance(x, Ex) and x.op == 'argument' and x.args[0] == n and x.args[1] is fs
    a, l = split(problem.args[0]), split(problem.args[1])
    if not a or not l:
        return False
    ok = not a[1] and any(arg(x, 'TestFunction') and arg(y, 'TrialFunction') for x, y in (a[0], a[0][::-1]))
    # right hand side: field and height may stand inside of the product
    parts = [y for x in l[0] for y in factors(x)] + l[1]
    t = [x for x in parts if arg(x[0], 'TestFunction') and not x[1]]
    g = [x for x in parts if x[0] is f and not x[1]]
    hh = [x for x in parts if x[0] is h and x[1] == (power < 0)]
    return ok and len(t) == 1 and len(g) == 1 and len(hh) == 1 and len(parts) == 3


def expand(ctx, repo):
    cls = repo.cls('utility3d', 'ExpandFunctionTo3d')
    for cname in ('triangle', 'quadrilateral'):
        for p in PAIRS:
            if cname == 'quadrilateral' and p[1][0] == 'BDM':
                continue
            con = 'expand %s, %s' % (p[0], cname)

            def body(it):
                V2, V3 = pair(it, cname, p)
                a, b = it.policy.fill(it, it.policy.function(it, V2, 'src')), it.policy.function(it, V3, 'out')
                h = it.policy.function(it, V3, 'height')
                o = it.call(repo_cls(cls), [a, b], {'elem_height': h} if p[4] else {})
                before = {d: list(v) for d, v in a.meta['val'].items()}
                n0 = len(it.events)
                it.call(it.getattr(o, 'solve'), [], {})
                loop = {d: list(v) for d, v in b.meta['val'].items()}
                if p[4]:
                    # values before the scaling
                    it.user.pop('x', None)
                evs = [e for e in it.events[n0:] if e.kind in ('loop', 'vsolve')]
                return (it, a, b, before, evs, V2, V3, h, it.user.get('errors', []))
            for q in run(repo, body):
                j = J(ctx, con, cls.loc())
                if not j.outcome(q):
                    continue
                it, a, b, before, evs, V2, V3, h, _ = q.value
                kinds = [e.kind for e in evs]
                j.ob('the field is copied%s' % (', then scaled' if p[4] else ''), kinds == (['loop', 'vsolve'] if p[4] else ['loop']), 'steps %s' % kinds)
                j.ob('the source is unchanged', all(same(x, y) for d in before for x, y in zip(before[d], a.meta['val'][d])), 'the 2D field is modified')
                if p[4]:
                    pr = evs[-1].args[0].attrs['problem'] if kinds[-1:] == ['vsolve'] else None
                    j.ob('normal fluxes are scaled by the element height', scaling(pr, b, V3, h, 1), 'solves %s' % (show(pr)[:200],))
                    continue    # the copied values are checked through the kernel of the nodal spaces
                nh, nv = hv(V3)
                j.values('every node of the column has the value of its 2D node', [
                    ('node %d.%d.%d of layer %d' % (x, v, c, l), val(b, node3(it, V3, x, v, l), c), val(a, it.policy.dofs(it, V2, 0)[x], c))
                    for l in range(3) for x in range(nh) for v in range(nv) for c in range(len(a.meta['val'][it.policy.dofs(it, V2, 0)[0]]))])
    mismatch(ctx, repo, cls, lambda V2, V3, it: [it.policy.function(it, V2, 'a'), it.policy.function(it, V3, 'b')], 'expand')


def repo_cls(c):
    from sa.absint import Cv
    return Cv(c)


def mismatch(ctx, repo, cls, args, nm):
    def body(it):
        m2, m3 = start(it, 'triangle', 2)
        V2, V3 = it.policy.mkspace(it, m2, 'CG', 1), it.policy.mkspace(it, m3, 'DG', 1, 'DG', 1)
        it.call(repo_cls(cls), args(V2, V3, it), {})
        return None

    def hbody(it):
        V2, V3 = pair(it, 'triangle', PAIRS[5])
        it.call(repo_cls(cls), args(V2, V3, it), {})
        return None
    for q in run(repo, body):
        ctx.ob('different families are rejected', nm, q.outcome == 'raise', cls.loc(), 'a continuous and a discontinuous space are combined')
    for q in run(repo, hbody):
        ctx.ob('the element height is required for normal fluxes', nm, q.outcome == 'raise', cls.loc(), 'fluxes are copied without their scaling')


def extract(ctx, repo):
    cls = repo.cls('utility3d', 'SubFunctionExtractor')
    for cname in ('triangle', 'quadrilateral'):
        for p in PAIRS:
            if cname == 'quadrilateral' and p[1][0] == 'BDM':
                continue
            for bnd, facet in itertools.product(('top', 'bottom'), (None, 'top', 'bottom', 'average')):
                con = 'extract %s, %s, boundary %s, facet %s' % (p[0], cname, bnd, facet)

                def body(it):
                    V2, V3 = pair(it, cname, p)
                    a, b = it.policy.fill(it, it.policy.function(it, V3, 'src')), it.policy.function(it, V2, 'out')
                    h = it.policy.function(it, V2, 'height')
                    kw = dict(boundary=bnd)
                    if facet is not None:
                        kw['elem_facet'] = facet
                    if p[4]:
                        kw['elem_height'] = h
                    o = it.call(repo_cls(cls), [a, b], kw)
                    n0 = len(it.events)
                    before = {d: list(v) for d, v in a.meta['val'].items()}
                    it.call(it.getattr(o, 'solve'), [], {})
                    evs = [e for e in it.events[n0:] if e.kind in ('loop', 'vsolve')]
                    return (it, a, b, before, evs, V2, V3, h, it.user.get('errors', []))
                for q in run(repo, body):
                    j = J(ctx, con, cls.loc())
                    if not j.outcome(q):
                        continue
                    it, a, b, before, evs, V2, V3, h, _ = q.value
                    kinds = [e.kind for e in evs]
                    j.ob('the field is copied%s' % (', then scaled' if p[4] else ''), kinds == (['loop', 'vsolve'] if p[4] else ['loop']), 'steps %s' % kinds)
                    j.ob('the source is unchanged', all(same(x, y) for d in before for x, y in zip(before[d], a.meta['val'][d])), 'the 3D field is modified')
                    if p[4]:
                        pr = evs[-1].args[0].attrs['problem'] if kinds[-1:] == ['vsolve'] else None
                        j.ob('normal fluxes are divided by the element height', scaling(pr, b, V2, h, -1), 'solves %s' % (show(pr)[:200],))
                        continue
                    l = 2 if bnd == 'top' else 0
                    fc = facet or bnd
                    prs = []
                    d2 = it.policy.dofs(it, V2, 0)
                    for x, d in enumerate(d2):
                        for c in range(len(b.meta['val'][d])):
                            lo, hi = (val(a, node3(it, V3, x, v, l), c) for v in (0, 1))
                            w = lo if fc == 'bottom' else hi if fc == 'top' else (lo + hi)*Poly.const(Fraction(1, 2))
                            prs.append(('node %d.%d' % (x, c), val(b, d, c), w))
                    j.values('every 2D node has the value of the facet of the boundary element', prs)
    mismatch(ctx, repo, cls, lambda V2, V3, it: [it.policy.function(it, V3, 'a'), it.policy.function(it, V2, 'b')], 'extract')


# ---------------------------------------------------------------- geometry
def geometry(ctx, repo):
    fm = repo.func('utility', 'get_facet_mask')
    for cname in ('triangle', 'quadrilateral'):
        for v in (('DG', 1), ('CG', 1), ('CG', 2)):
            for facet in ('bottom', 'top'):
                def body(it):
                    m2, m3 = start(it, cname, 2)
                    V = it.policy.mkspace(it, m3, 'DG', 1, *v)
                    r = it.call_func(fm, [V, facet], {})
                    return [int(x) for x in it.policy.arr(r)], hv(V), []
                for q in run(repo, body):
                    j = J(ctx, 'nodes of the %s facet of P1DG x %s%d, %s' % ((facet,) + v + (cname,)), fm.loc())
                    if j.outcome(q):
                        got, (nh, nv), _ = q.value
                        j.ob('the nodes of a horizontal facet are selected in the order of the base element', got == [h*nv + (facet == 'top') for h in range(nh)],
                             'nodes %s' % got)
    hf = repo.func('utility', 'compute_elem_height')
    for cname in ('triangle', 'quadrilateral'):
        for zs in (('CG', 1, 'CG', 1), ('DG', 1, 'CG', 1)):
            def body(it):
                m2, m3 = start(it, cname, 2)
                Z, O = it.policy.mkspace(it, m3, *zs), it.policy.mkspace(it, m3, 'DG', 1, 'DG', 1)
                z, o = it.policy.fill(it, it.policy.function(it, Z, 'z')), it.policy.function(it, O, 'height')
                it.call_func(hf, [z, o], {})
                return (it, z, o, Z, O, it.user.get('errors', []))
            for q in run(repo, body):
                j = J(ctx, 'element height, %s x %s, %s' % (zs[0], zs[2], cname), hf.loc())
                if j.outcome(q):
                    it, z, o, Z, O, _ = q.value
                    prs = []
                    for l in range(2):
                        for h in range(hv(Z)[0]):
                            w = ck.absolute(val(z, node3(it, Z, h, 1, l)) - val(z, node3(it, Z, h, 0, l)))
                            prs += [('node %d.%d of layer %d' % (h, v, l), val(o, node3(it, O, h, v, l)), w) for v in (0, 1)]
                    j.values('the height of an element is the distance of its facets at each vertex', prs)
    ef = repo.func('utility', 'extrude_mesh_sigma')
    for cname, n, st in itertools.product(('triangle', 'quadrilateral'), (1, 2, 4, 5), (None, 2.0, 'function')):
        for fam in ('CG',):
            def body(it):
                m2, m3 = start(it, cname, n)
                V = it.policy.mkspace(it, m2, fam, 1)
                b = it.policy.fill(it, it.policy.function(it, V, 'bath'))
                s = it.policy.fill(it, it.policy.function(it, V, 'stretch')) if st == 'function' else st
                m = it.call_func(ef, [m2, n, b] + ([s] if st is not None else []), {})
                return (it, m, b, s, V, it.user.get('errors', []))
            for q in run(repo, body):
                j = J(ctx, 'sigma mesh, %s, %d layers, stretching %s' % (cname, n, st), ef.loc())
                if j.outcome(q):
                    it, m, b, s, V, _ = q.value
                    X = m.attrs['coordinates']
                    prs = []
                    for l in range(n):
                        for h, d in enumerate(it.policy.dofs(it, V, 0)):
                            for v in (0, 1):
                                dd = (h, 'z', l + v)
                                sig = Fraction(n - l - v, n)
                                if st is None:
                                    w = val(b, d)*Poly.const(-sig)
                                elif sig in (0, 1):
                                    w = val(b, d)*Poly.const(-sig)
                                elif st == 2.0:
                                    w = val(b, d)*Poly.const(-sig**2)
                                else:
                                    w = val(b, d)*Poly.const(-1)*make_fn('pow', [Poly.const(sig), val(s, d)])
                                prs += [('x', val(X, dd, 0), ck.sym('x%d' % h)), ('y', val(X, dd, 1), ck.sym('y%d' % h)),
                                        ('z of level %d' % (l + v), val(X, dd, 2), w)]
                    j.values('levels of the sigma mesh', prs)
    hcc = repo.cls('utility3d', 'Mesh3DConsistencyCalculator')
    for cname in ('triangle', 'quadrilateral'):
        def body(it):
            m2, m3 = start(it, cname, 2)
            Z, O = it.policy.mkspace(it, m3, 'CG', 1, 'CG', 1), it.policy.mkspace(it, m3, 'DG', 1, 'DG', 1)
            S = solverob(it, m2, m3)
            S.attrs['function_spaces'].attrs['P1DG'] = O
            z, o = it.policy.fill(it, it.policy.function(it, Z, 'z')), it.policy.function(it, O, 'hcc')
            S.attrs['fields'].attrs.update(hcc_metric_3d=o, z_coord_3d=z)
            x = it.call(repo_cls(hcc), [S], {})
            it.call(it.getattr(x, 'solve'), [], {})
            return (it, z, o, Z, O, it.user.get('errors', []))
        for q in run(repo, body):
            j = J(ctx, 'mesh consistency, %s' % cname, hcc.loc())
            if j.outcome(q):
                it, z, o, Z, O, _ = q.value
                prs = []
                for l in range(2):
                    zs = [[val(z, node3(it, Z, h, v, l)) for h in range(hv(Z)[0])] for v in (0, 1)]
                    rng = []
                    for v in (0, 1):
                        hi, lo = zs[v][0], zs[v][0]
                        for x in zs[v][1:]:
                            hi, lo = ck.extremum('max', hi, x), ck.extremum('min', lo, x)
                        rng.append(hi - lo)
                    for h in range(hv(Z)[0]):
                        for v in (0, 1):
                            prs.append(('node %d.%d of layer %d' % (h, v, l), val(o, node3(it, O, h, v, l)), rng[v]/(zs[1][h] - zs[0][h])))
                j.values('the consistency ratio is the vertical extent of the facet over the element height', prs)


def solverob(it, m2, m3):
    S = it.obj('FlowSolver', 'solver')
    for n in ('fields', 'function_spaces', 'options'):
        S.attrs[n] = it.obj(n, n)
    S.attrs.update(mesh=m3, mesh2d=m2, comm=Sy('comm'), dt=Sy('dt'))
    m3.attrs['coordinates'] = it.policy.function(it, it.policy.mkspace(it, m3, 'CG', 1, 'CG', 1, vector=True), 'coords')
    return S


def ale(ctx, repo):
    cls = repo.cls('utility3d', 'ALEMeshUpdater')
    for cname, what in itertools.product(('triangle', 'quadrilateral'), ('coordinates', 'velocity', 'velocity c', 'velocity expr')):
        def body(it):
            P = it.policy
            m2, m3 = start(it, cname, 3)
            S = solverob(it, m2, m3)
            V2, V3, D3, D2 = (P.mkspace(it, m2, 'CG', 1), P.mkspace(it, m3, 'CG', 1, 'CG', 1), P.mkspace(it, m3, 'DG', 1, 'DG', 1),
                              P.mkspace(it, m2, 'DG', 1))
            S.attrs['function_spaces'].attrs.update(P1_2d=V2)
            S.attrs['options'].attrs.update(use_ale_moving_mesh=True)
            F = S.attrs['fields'].attrs
            for n, V in (('bathymetry_2d', V2), ('elev_2d', D2), ('elev_cg_2d', V2), ('v_elem_size_3d', D3), ('v_elem_size_2d', D2), ('z_coord_ref_3d', V3),
                         ('z_coord_3d', V3), ('w_mesh_3d', V3)):
                F[n] = P.fill(it, P.function(it, V, n))
            o = it.call(repo_cls(cls), [S], {})
            c = Fraction(1)
            expr = None
            if what == 'coordinates':
                it.call(it.getattr(o, 'update_mesh_coordinates'), [], {})
            else:
                it.call(it.getattr(o, 'compute_mesh_velocity_begin'), [], {})
                first = {d: list(v) for d, v in F['elev_cg_2d'].meta['val'].items()}
                if what.endswith('expr'):
                    expr = P.fill(it, P.function(it, V2, 'wsurf'))
                    it.call(it.getattr(o, 'compute_mesh_velocity_finalize'), [], {'w_mesh_surf_expr': expr})
                else:
                    c = Fraction(1, 2) if what.endswith('c') else Fraction(1)
                    it.call(it.getattr(o, 'compute_mesh_velocity_finalize'), [], {'c': 0.5} if what.endswith('c') else {})
                it.user['first'] = first
            return (it, S, F, V2, V3, D3, D2, c, expr, it.user.get('errors', []))
        for q in run(repo, body):
            j = J(ctx, 'moving mesh %s, %s' % (what, cname), cls.loc())
            if not j.outcome(q):
                continue
            it, S, F, V2, V3, D3, D2, c, expr, _ = q.value
            d2 = it.policy.dofs(it, V2, 0)
            prs, hts, cs, top = [], [], [], []
            projs = [e for e in it.events if e.kind == 'project']
            ok = bool(projs) and projs[-1].args[1] is F['elev_cg_2d'] and projs[0].args[0] is F['elev_2d'] and all(
                b.args[0] is a.args[1] or b.args[0] is F['elev_2d'] for a, b in zip(projs, projs[1:]))
            if expr is None:
                j.ob('the current elevation is projected to the coordinate space', ok and len(projs) == (2 if what == 'coordinates' else 4),
                     'projections %s' % [(e.args[0].name, e.args[1].name) for e in projs])
            for l in range(3):
                for h, d in enumerate(d2):
                    for v in (0, 1):
                        k = node3(it, V3, h, v, l)
                        ref, bath = val(F['z_coord_ref_3d'], k), val(F['bathymetry_2d'], d)
                        if what == 'coordinates':
                            w = val(F['elev_cg_2d'], d)*(ref + bath)/bath + ref
                            prs.append(('level %d, vertex %d' % (l + v, h), val(F['z_coord_3d'], k), w))
                            cs.append(('level %d, vertex %d' % (l + v, h), val(S.attrs['mesh'].attrs['coordinates'], k, 2), w))
                        else:
                            if expr is not None:
                                ws = val(expr, d)
                            else:
                                ws = (val(F['elev_cg_2d'], d) - it.user['first'][d][0])/(ck.sym('dt')*Poly.const(c))
                            prs.append(('level %d, vertex %d' % (l + v, h), val(F['w_mesh_3d'], k), ws*(ref + bath)/bath))
            j.values('mesh motion is that of the surface, decaying linearly to the bottom', prs)
            if what == 'coordinates':
                j.values('the coordinates of the mesh are updated', cs)
                for l in range(3):
                    for h, d in enumerate(d2):
                        z0, z1 = (val(F['z_coord_3d'], node3(it, V3, h, v, l)) for v in (0, 1))
                        w = ck.absolute(z1 - z0)
                        hts += [('layer %d, vertex %d' % (l, h), val(F['v_elem_size_3d'], node3(it, D3, h, v, l)), w) for v in (0, 1)]
                        if l == 2:
                            top.append(('vertex %d' % h, val(F['v_elem_size_2d'], it.policy.dofs(it, D2, 0)[h]), w))
                j.values('element heights follow the moved mesh', hts + top)


# ---------------------------------------------------------------- mesh quality
def quality(ctx, repo):
    af = repo.func('utility', 'get_minimum_angles_2d')
    for perm in itertools.permutations((Fraction(3), Fraction(4), Fraction(5))):
        rep = {"l[d,%d].0" % i: x for i, x in enumerate(perm)}

        def value(p):
            return numval(p, rep)

        def body(it):
            m2, m3 = start(it, 'triangle', 1)
            m2.attrs['cell'].meta['is'] = 'triangle'
            L = it.policy.mkspace(it, m2, 'DG', 1)     # one value per edge
            e = it.policy.fill(it, it.policy.function(it, L, 'l'))
            it.user['areas'] = e
            r = it.call_func(af, [m2], {})
            return (it, r, e, it.user.get('errors', []))
        for q in list(explore(repo, lambda: QPolicy(value), body)):
            j = J(ctx, 'minimum angle, edges %s' % (tuple(int(x) for x in perm),), af.loc())
            if j.outcome(q):
                it, r, e, _ = q.value
                es = [e.meta['val'][('d', i)][0] for i in range(3)]
                k = perm.index(min(perm))
                a, b = [x for i, x in enumerate(es) if i != k]
                w = make_fn('acos', [(a*a + b*b - es[k]*es[k])/(a*b*Poly.const(2))])
                j.values('the smallest angle is opposite to the shortest edge', [('cell', r.meta['val'][('d', 0)][0], w)])
    wf = repo.func('utility', 'get_cell_widths_2d')

    def body(it):
        m2, m3 = start(it, 'triangle', 1)
        X = it.policy.fill(it, it.policy.function(it, it.policy.mkspace(it, m2, 'CG', 1, vector=True), 'X'))
        m2.attrs['coordinates'] = X
        r = it.call_func(wf, [m2], {})
        return (it, r, X, it.user.get('errors', []))
    for q in list(explore(repo, lambda: QPolicy(None), body)):
        j = J(ctx, 'cell widths', wf.loc())
        if j.outcome(q):
            it, r, X, _ = q.value
            prs = []
            for c in (0, 1):
                xs = [X.meta['val'][('c', i)][c] for i in range(3)]
                w = ck.absolute(xs[0] - xs[1])
                for a, b in ((1, 2), (2, 0)):
                    w = ck.extremum('max', w, ck.absolute(xs[a] - xs[b]))
                prs.append(('direction %d' % c, r.meta['val'][('d', 0)][c], w))
            j.values('the width of a cell is the largest distance of two vertices', prs)


def numval(p, rep):
    s = Fraction(0)
    for mono, c in p.t.items():
        t = Fraction(c)
        for a, e in mono:
            if a[0] != 'f' or a[1] not in rep:
                raise AnalysisError('comparison of %r' % (p,))
            t *= rep[a[1]]**int(e)
        s += t
    return s


class QPolicy(CellPolicy):
    def call(self, it, fn, args, kwargs, node):
        f = getattr(fn, 'func', None)
        if f is not None and f.name == 'get_facet_areas':
            return it.user['areas']
        return super().call(it, fn, args, kwargs, node)

    def compare(self, it, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ob) and x.meta.get('cell') and isinstance(y, Ext) and op in ('==', '!='):
                return (x.attrs['name'] == y.short) == (op == '==')
        return super().compare(it, op, a, b)


@prop('E09', 'vertical copies, facet extraction and cell geometry, node by node', 60, TECH)
def e09(ctx):
    repo = ctx.repo
    expand(ctx, repo)
    extract(ctx, repo)
    geometry(ctx, repo)
    ale(ctx, repo)
    quality(ctx, repo)


# ---------------------------------------------------------------- slope limiter
TECHL = ('abstract execution of the limiter with its C kernels on a small mesh: bounds, cell averages and matrices as symbols, every boundary facet, '
         'scalar and vector fields, repeated applications on a moving mesh')


class LimPolicy(CellPolicy):
    def supercall(self, it, o, name, args, kwargs, node):
        """the limiter of the finite element library"""
        if name == '__init__':
            fs = args[0]
            mesh = fs.attrs['mesh']
            a = o.attrs
            a['P1DG'] = fs
            for n, fam, deg in (('P1CG', 'CG', 1), ('P0', 'DG', 0)):
                a[n] = self.space(it, 'FunctionSpace', [mesh, fam, deg], {})
            for n, V in (('centroids', 'P0'), ('max_field', 'P1CG'), ('min_field', 'P1CG')):
                a[n] = self.function(it, a[V], n)
            a['centroids_rhs'] = it.obj('Cofunction', 'rhs')
            a['centroid_solver'] = self.own(it, o, '_construct_centroid_solver', [], node)
            return None
        if name == '_construct_centroid_solver':
            V = o.attrs['P0']
            a = Ex('*', Ex('inner', Ex('argument', 'TrialFunction', V), Ex('argument', 'TestFunction', V)), Ext('firedrake.dx'))
            return self.lsolver(it, self.matrix(it, a), node)
        if name == '_update_centroids':
            it.event('lsolve', 'solve', [o.attrs['centroid_solver'], o.attrs['centroids'],
                                         Ex('assembled', Ex('*', Ex('*', args[0], Ex('argument', 'TestFunction', o.attrs['P0'])), Ext('firedrake.dx')))], {}, node)
            return None
        if name == 'compute_bounds':
            f = args[0]
            self.own(it, o, '_update_centroids', [f], node)
            n = it.user['nb'] = it.user.get('nb', 0) + 1
            self.fill(it, o.attrs['max_field'], 'cmax%d' % n)
            self.fill(it, o.attrs['min_field'], 'cmin%d' % n)
            it.event('bounds', 'bounds', [f, {d: list(v) for d, v in f.meta['val'].items()}], {}, node)
            return None
        if name == 'apply_limiter':
            f = args[0]
            it.user['nl'] = it.user.get('nl', 0) + 1
            vals = {d: list(v) for d, v in f.meta['val'].items()}
            it.event('limit', 'limit', [f, vals, {d: list(v) for d, v in o.attrs['max_field'].meta['val'].items()},
                                        {d: list(v) for d, v in o.attrs['min_field'].meta['val'].items()}], {}, node)
            for d, v in f.meta['val'].items():
                f.meta['val'][d] = [ck.sym('limited<%r>' % (x,)) for x in v]
            return None
        if name == 'apply':
            f = args[0]
            if f.meta['space'] is not o.attrs['P1DG']:
                it.user.setdefault('errors', []).append('a field of another space is limited')
            for n in ('compute_bounds', 'apply_limiter'):
                self.own(it, o, n, [f], node)
            return None
        return NotImplemented

    def own(self, it, o, name, args, node):
        if o.cls.find_method(name) is not None:
            return it.call(it.getattr(o, name), args, {})
        return self.supercall(it, o, name, args, {}, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Ob) and 'P1DG' in fn.args[0].attrs and fn.args[1] in (
                'apply', 'apply_limiter', 'compute_bounds', '_update_centroids'):
            return self.supercall(it, fn.args[0], fn.args[1], args, kwargs, node)
        return super().call(it, fn, args, kwargs, node)

    def matrix(self, it, form):
        m = it.obj('Matrix', 'A')
        m.meta['form'] = form
        m.meta['ver'] = it.user.get('mesh ver', 0)
        return m

    def lsolver(self, it, A, node):
        o = it.obj('LinearSolver', 'lsolver')
        o.meta['lsolver'] = True
        o.attrs['A'] = A
        o.attrs['ksp'] = Sy('ksp')
        return o

    def extern(self, it, fn, args, kwargs, node):
        s = fn.short
        if s == 'LinearSolver':
            return self.lsolver(it, args[0], node)
        if s == 'assemble':
            fs = [x for x, i in factors(args[0])]
            flat = [y for x in fs for y in (x.args if isinstance(x, Ex) and x.op == 'inner' else [x])]
            if any(isinstance(x, Ex) and x.op == 'argument' and x.args[0] == 'TrialFunction' for x in flat):
                t = kwargs.get('tensor', args[1] if len(args) > 1 else None)
                if isinstance(t, Ob) and 'form' in t.meta:
                    t.meta['form'] = args[0]
                    t.meta['ver'] = it.user.get('mesh ver', 0)
                    return t
                return self.matrix(it, args[0])
            t = kwargs.get('tensor')
            v = Ex('assembled', args[0])
            if isinstance(t, Ob):
                t.meta['assembled'] = v
                return t
            return v
        return super().extern(it, fn, args, kwargs, node)

    def method(self, it, o, n, args, kwargs, node):
        if o.meta.get('lsolver') and n == 'solve':
            b = args[1]
            if isinstance(b, Ob) and 'assembled' in b.meta:
                b = b.meta['assembled']
            it.event('lsolve', 'solve', [o, args[0], b], {}, node)
            o.attrs['A'].meta['used'] = (o.attrs['A'].meta['form'], o.attrs['A'].meta['ver'], it.user.get('mesh ver', 0))
            it.user.setdefault('solves', []).append((o.attrs['A'].meta['ver'], it.user.get('mesh ver', 0), o.attrs['A'].meta['form'], args[0], b))
            return None
        return super().method(it, o, n, args, kwargs, node)


def spread(e):
    return [y for x, i in factors(e) for y in (spread(x) if isinstance(x, Ex) and x.op == 'mul' else x.args if isinstance(x, Ex) and x.op == 'inner' else [x])]


def is_arg(x, n, V):
    return isinstance(x, Ex) and x.op == 'argument' and x.args[0] == n and x.args[1] is V


def is_dx(x):
    return isinstance(x, Ext) and x.short == 'dx'


@prop('E10', 'bounds, averages and components of the slope limiter', 20, TECHL)
def e10(ctx):
    repo = ctx.repo
    cls = repo.cls('limiter', 'VertexBasedP1DGLimiter')
    where = cls.loc()
    for cname, dim, vec, moving in itertools.product(('triangle', 'quadrilateral'), (2, 3), (0, 2, 3), (True, False)):
        if dim == 2 and vec == 3:
            continue
        nf = len(FACETS[(cname, 1)])
        for facets in [[]] + [[i] for i in range(nf)] + [[0, 1]]:
            if (vec or not moving) and facets not in ([], [0]):
                continue
            con = '%dD %s, %s, boundary facets %s%s' % (dim, cname, 'vector of %d components' % vec if vec else 'scalar', facets, '' if moving else ', fixed mesh')
            layers = 3 if dim == 3 else 1

            def body(it):
                P = it.policy
                m2, m3 = start(it, cname, layers)
                it.user['facets'] = facets
                V = P.mkspace(it, m2 if dim == 2 else m3, 'DG', 1, *(('DG', 1) if dim == 3 else ()), vector=bool(vec), dim=vec or None)
                f = P.fill(it, P.function(it, V, 'q'))
                o = it.call(repo_cls(cls), [V] + ([] if moving else [False]), {})
                runs = []
                for k in range(2):
                    it.user['mesh ver'] = k
                    before = {d: list(v) for d, v in f.meta['val'].items()}
                    n0, s0 = len(it.events), len(it.user.get('solves', []))
                    it.call(it.getattr(o, 'apply'), [f], {})
                    runs.append((before, {d: list(v) for d, v in f.meta['val'].items()}, [e for e in it.events[n0:] if e.kind in ('bounds', 'limit')],
                                 it.user.get('solves', [])[s0:]))
                return (it, o, f, V, runs, it.user.get('errors', []))
            for q in list(explore(repo, LimPolicy, body)):
                j = J(ctx, con, where)
                if not j.outcome(q):
                    continue
                it, o, f, V, runs, _ = q.value
                judge_limiter(j, it, o, f, V, runs, dim, max(vec, 1), facets, layers, moving, cname)
    # only P1DG fields can be limited
    for fam, deg, vf in (('CG', 1, 'CG'), ('DG', 0, 'DG'), ('DG', 2, 'DG'), ('DG', 1, 'CG')):
        for dim in (2, 3):
            if dim == 2 and vf != fam:
                continue

            def body(it):
                m2, m3 = start(it, 'triangle', 1)
                V = it.policy.mkspace(it, m2 if dim == 2 else m3, fam, deg, *((vf, deg) if dim == 3 else ()))
                it.call(repo_cls(cls), [V], {})
                return None
            for q in list(explore(repo, LimPolicy, body)):
                ctx.ob('fields of other spaces are rejected', '%dD %s%d x %s' % (dim, fam, deg, vf), q.outcome == 'raise', where, 'the limiter accepts the space')


def judge_limiter(j, it, o, f, V, runs, dim, nc, facets, layers, moving, cname):
    P = it.policy
    nb = 0
    CG = o.attrs['P1CG']
    n = nnodes(scalar(V.attrs['elt']))
    for k, (before, after, evs, solves) in enumerate(runs):
        kinds = [e.kind for e in evs]
        j.ob('every component is limited once with its own bounds', kinds == ['bounds', 'limit']*nc, 'steps %s' % kinds)
        if kinds != ['bounds', 'limit']*nc:
            return
        for d in before:
            for c in range(nc):
                w = ck.sym('limited<%r>' % (before[d][c],))
                if not same(after[d][c], w):
                    j.ob('the limited component is stored', False, 'component %d at %s becomes %r' % (c, d, after[d][c]))
                    return
        j.ob('the limited component is stored', True)
        bad = []
        for s, (ver, cur, form, tgt, b) in enumerate(solves):
            fs = spread(form)
            V0 = o.attrs['P0']
            if not (len(fs) == 3 and sum(is_dx(x) for x in fs) == 1 and any(is_arg(x, 'TrialFunction', V0) for x in fs) and any(is_arg(x, 'TestFunction', V0) for x in fs)):
                bad.append('the matrix is %s' % show(form))
            rs = spread(b.args[0])
            if not (len(rs) == 3 and sum(is_dx(x) for x in rs) == 1 and any(is_arg(x, 'TestFunction', V0) for x in rs) and any(
                    x is evs[2*s].args[0] if 2*s < len(evs) else False for x in rs)):
                bad.append('the right hand side is %s' % show(b))
            if tgt is not o.attrs['centroids']:
                bad.append('the averages are stored in %s' % show(tgt))
            if moving and ver != cur:
                bad.append('the matrix of an earlier mesh is used')
        j.ob('cell averages are those of the current field and mesh', len(solves) == nc and not bad, '; '.join(bad) or '%d solves' % len(solves))
        # bounds at the vertices
        for c in range(nc):
            nb += 1
            _, vals, mx, mn = evs[2*c + 1].args
            want = {}
            for nm, ext in (('cmax', 'max'), ('cmin', 'min')):
                w = {d: ck.sym('%s%d[%s].0' % (nm, nb, ','.join(map(str, d)))) for d in P.all_dofs(it, CG)}
                for l in range(layers):
                    dq, dc = P.dofs(it, evs[2*c].args[0].meta['space'], l), P.dofs(it, CG, l)
                    sets = []
                    for fc in facets:
                        vs = FACETS[(cname, 1)][fc]
                        sets.append(list(vs) if dim == 2 else [h*2 + v for h in vs for v in (0, 1)])
                    if dim == 3 and l == 0:
                        sets.append([h*2 for h in range(n[0])])
                    if dim == 3 and l == layers - 1:
                        sets.append([h*2 + 1 for h in range(n[0])])
                    for st in sets:
                        mean = Poly.const(0)
                        for i in st:
                            mean = mean + vals[dq[i]][0]
                        mean = mean*Poly.const(Fraction(1, len(st)))
                        for i in st:
                            w[dc[i]] = ck.extremum(ext, w[dc[i]], mean)
                want[nm] = w
            j.values('bounds include the averages of boundary facets', [
                ('%s at %s' % (nm, d), got[d][0], want[nm][d]) for nm, got in (('cmax', mx), ('cmin', mn)) for d in got])
