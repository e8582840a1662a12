"""C08: function spaces of the solvers and the continuity derived from them."""
from sa.core import prop
from sa.absint import explore, Sy, Ex, Ext, Ob, Policy, show
from sa.repo import AnalysisError
from checks.c_plumbing import CFG3, CFG2, run3, run2, label3, label2

TECH = ('abstract execution of the space construction down to the element constructors for every element family, degree and cell type, '
        'compared with the documented table; continuity classification of every resulting element; space of every solver field')

CANON = {'cg': 'CG', 'lagrange': 'CG', 'p': 'CG', 'q': 'CG', 'dg': 'DG', 'dq': 'DG', 'discontinuous lagrange': 'DG', 'dp': 'DG', 'dpc': 'DPC',
         'rt': 'RT', 'rtf': 'RT', 'raviart-thomas': 'RT', 'n1div': 'RT', 'rtcf': 'RT', 'rte': 'RTE', 'n1curl': 'RTE', 'rtce': 'RTE',
         'bdm': 'BDM', 'bdmf': 'BDM', 'brezzi-douglas-marini': 'BDM', 'n2div': 'BDM', 'bdmcf': 'BDM', 'bdmce': 'BDME', 'bdme': 'BDME', 'r': 'R'}
# families that exist only on one cell type
ONLY = {'q': 'quadrilateral', 'dq': 'quadrilateral', 'rtcf': 'quadrilateral', 'rtce': 'quadrilateral', 'bdmcf': 'quadrilateral',
        'bdmce': 'quadrilateral', 'dpc': 'quadrilateral', 'p': 'simplex', 'rt': 'triangle', 'rtf': 'triangle', 'raviart-thomas': 'triangle',
        'n1div': 'triangle', 'bdm': 'triangle', 'bdmf': 'triangle', 'brezzi-douglas-marini': 'triangle', 'n2div': 'triangle'}
# what FiniteElement.family() returns
SHOWN = {('CG', True): 'Q', ('CG', False): 'Lagrange', ('DG', True): 'DQ', ('DG', False): 'Discontinuous Lagrange', ('RT', False): 'Raviart-Thomas',
         ('RT', True): 'RTCF', ('BDM', False): 'Brezzi-Douglas-Marini', ('BDM', True): 'BDMCF'}
CLASSES = {'fe': {'FiniteElement', 'FiniteElementBase'}, 'tpe': {'TensorProductElement', 'FiniteElementBase'}, 'hdiv': {'HDivElement', 'HDiv', 'FiniteElementBase'},
           'vector': {'VectorElement', 'MixedElement', 'FiniteElementBase'}, 'tensor': {'TensorElement', 'MixedElement', 'FiniteElementBase'},
           'mixed': {'MixedElement', 'FiniteElementBase'}}
ELEMS = {'HDivElement', 'MixedElement', 'VectorElement', 'TensorElement', 'EnrichedElement', 'TensorProductElement', 'FiniteElement', 'FiniteElementBase',
         'HCurlElement', 'RestrictedElement', 'BrokenElement'}
NODAL = ('equispaced',)     # point evaluations that include the vertices of the cell


def elt(it, kind, **kw):
    o = it.obj({'fe': 'FiniteElement', 'tpe': 'TensorProductElement', 'hdiv': 'HDivElement', 'vector': 'VectorElement', 'tensor': 'TensorElement',
                'mixed': 'MixedElement'}[kind], kind)
    o.meta['elt'] = kind
    o.attrs.update(kw)
    return o


def isel(v):
    return isinstance(v, Ob) and v.meta.get('elt')


def desc(v):
    """canonical description of an element"""
    k = v.meta['elt']
    a = v.attrs
    if k == 'fe':
        return (CANON[a['fam'].lower()], a['deg'])
    if k == 'tpe':
        return ('x',) + tuple(desc(x) for x in a['factors'])
    if k == 'hdiv':
        return ('hdiv', desc(a['_element']))
    if k in ('vector', 'tensor'):
        return (k, desc(a['sub_elements'][0])) + ((a['dim'],) if a.get('dim') is not None else ())
    return ('mixed',) + tuple(desc(x) for x in a['sub_elements'])


def leaves(v):
    k = v.meta['elt']
    a = v.attrs
    if k == 'fe':
        return [v]
    return [y for x in (a.get('factors') or a.get('sub_elements') or [a.get('_element')]) for y in leaves(x)]


class SpacePolicy(Policy):
    def attr(self, it, base, name, node):
        if isinstance(base, Ob):
            if base.meta.get('elt'):
                if name in base.attrs and name in ('_element', 'sub_elements', 'factor_elements'):
                    return base.attrs[name]
                if name in ('sub_elements',):
                    return [x for x in (base.attrs.get('factors') or [])] if base.meta['elt'] == 'tpe' else []
                return ('method', base, name)
            if base.meta.get('cell'):
                if name == 'sub_cells':
                    return base.attrs['sub']
                if name == 'cellname':
                    return base.attrs['name']
                return ('method', base, name)
            if base.meta.get('mesh'):
                if name in ('geometric_dimension', 'topological_dimension'):
                    return base.attrs[name[0] + 'dim']
                if name in ('_base_mesh',):
                    return base.attrs['base']
                return ('method', base, name)
            if base.meta.get('fs'):
                return ('method', base, name)
        return NotImplemented

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and isinstance(fn[1], Ob):
            o, n = fn[1], fn[2]
            if o.meta.get('mesh'):
                if n == 'cell_dimension':
                    return o.attrs['cdim']
                if n == 'ufl_cell':
                    return o.attrs['cell']
            if o.meta.get('cell'):
                if n in ('is_simplex',):
                    return o.attrs['name'] in ('triangle', 'interval')
            if o.meta.get('fs'):
                if n == 'ufl_element':
                    return o.attrs['elt']
                if n == 'mesh':
                    return o.attrs['mesh']
            if o.meta.get('elt'):
                if n == 'family':
                    k = o.meta['elt']
                    if k == 'fe':
                        quad = o.attrs['cell'].attrs['name'] == 'quadrilateral'
                        return SHOWN[(CANON[o.attrs['fam'].lower()], quad)]
                    if k in ('vector', 'tensor'):
                        return it.call(('method', o.attrs['sub_elements'][0], 'family'), [], {})
                    return {'tpe': 'TensorProductElement', 'hdiv': 'TensorProductElement', 'mixed': 'Mixed'}[k]
                if n == 'degree':
                    return o.attrs.get('deg', Ex('degree', o))
                if n == 'value_shape':
                    return Ex('shape', o)
        if isinstance(fn, Ext):
            s = fn.short
            if s == 'isinstance' and len(args) == 2 and isel(args[0]):
                want = args[1] if isinstance(args[1], (tuple, list)) else (args[1],)
                names = [w.short if isinstance(w, Ext) else None for w in want]
                if None in names:
                    raise AnalysisError('isinstance of an element against %s' % show(args[1]))
                return any(w in CLASSES[args[0].meta['elt']] for w in names)
            if s == 'FiniteElement':
                return self.finite(it, args, kwargs)
            if s in ('TensorProductElement', 'OuterProductElement'):
                o = elt(it, 'tpe', factors=list(args))
                o.attrs['factor_elements'] = tuple(args)
                return o
            if s in ('HDiv', 'HDivElement'):
                return elt(it, 'hdiv', _element=args[0])
            if s in ('VectorElement', 'TensorElement'):
                e = args[0] if isel(args[0]) else self.finite(it, args, kwargs)
                return elt(it, s[:6].lower(), sub_elements=[e], dim=kwargs.get('dim', kwargs.get('shape')))
            if s in ('FunctionSpace', 'VectorFunctionSpace', 'TensorFunctionSpace'):
                return self.space(it, s, args, kwargs)
            if s == 'MixedFunctionSpace':
                o = self.newfs(it, elt(it, 'mixed', sub_elements=[x.attrs['elt'] for x in args[0]]), args[0][0].attrs['mesh'])
                o.attrs['parts'] = list(args[0])
                return o
        return NotImplemented

    def finite(self, it, args, kwargs):
        a = dict(zip(('fam', 'cell', 'deg'), args))
        a.update({k: v for k, v in (('fam', kwargs.get('family')), ('cell', kwargs.get('cell')), ('deg', kwargs.get('degree'))) if v is not None})
        if not isinstance(a.get('fam'), str) or not isinstance(a.get('cell'), Ob):
            raise AnalysisError('element family %s on %s' % (show(a.get('fam')), show(a.get('cell'))))
        f = a['fam'].lower()
        if f not in CANON:
            raise AnalysisError('element family %s' % f)
        cn = a['cell'].attrs['name']
        o = ONLY.get(f)
        if o and not (o == cn or (o == 'simplex' and cn in ('triangle', 'interval')) or (f == 'dq' and cn == 'interval') or (f == 'q' and cn == 'interval')):
            it.user.setdefault('bad', []).append('%s does not exist on a %s' % (a['fam'], cn))
        c = CANON[f]
        if not isinstance(a['deg'], int) or a['deg'] < (0 if c == 'DG' else 1):
            it.user.setdefault('bad', []).append('%s of degree %s does not exist' % (a['fam'], show(a['deg'])))
        return elt(it, 'fe', fam=a['fam'], cell=a['cell'], deg=a['deg'], variant=kwargs.get('variant'))

    def newfs(self, it, e, mesh):
        o = it.obj('FunctionSpace', 'fs')
        o.meta['fs'] = True
        o.attrs.update(elt=e, mesh=mesh)
        return o

    def space(self, it, s, args, kwargs):
        mesh = args[0]
        e = args[1]
        if not isel(e):
            fam, deg = args[1], args[2] if len(args) > 2 else kwargs.get('degree')
            if mesh.attrs['cdim'] == 2:
                e = self.finite(it, [fam, mesh.attrs['cell'], deg], kwargs)
            else:
                h, v = mesh.attrs['cell'].attrs['sub']
                vf = kwargs.get('vfamily', fam)
                e = elt(it, 'tpe', factors=[self.finite(it, [fam, h, deg], kwargs), self.finite(it, [vf, v, kwargs.get('vdegree', deg)], kwargs)])
                e.attrs['factor_elements'] = tuple(e.attrs['factors'])
        if s != 'FunctionSpace':
            dim = kwargs.get('dim', kwargs.get('shape'))
            if dim == mesh.attrs['gdim']:
                dim = None
            e = elt(it, s[:6].lower(), sub_elements=[e], dim=dim)
        return self.newfs(it, e, mesh)


def cell(it, name, sub=None):
    o = it.obj('Cell', name)
    o.meta['cell'] = True
    o.attrs.update(name=name, sub=sub)
    return o


def meshes(it, cname):
    c2 = cell(it, cname)
    m2 = it.obj('Mesh', 'mesh2d')
    m2.meta['mesh'] = True
    m2.attrs.update(cdim=2, gdim=2, tdim=2, cell=c2)
    m3 = it.obj('Mesh', 'mesh')
    m3.meta['mesh'] = True
    m3.attrs.update(cdim=(2, 1), gdim=3, tdim=3, base=m2, cell=cell(it, cname + 'prism', (c2, cell(it, 'interval'))))
    return m2, m3


def vec(e):
    return ('vector', e)


def table2(fam, trf, p):
    """the documented spaces of the 2D solver"""
    U = {'rt-dg': ('RT', p + 1), 'bdm-dg': ('BDM', p + 1), 'dg-dg': vec(('DG', p)), 'dg-cg': vec(('DG', p))}[fam]
    H = ('CG', p + 1) if fam == 'dg-cg' else ('DG', p)
    return dict(P0_2d=('DG', 0), P1_2d=('CG', 1), P1v_2d=vec(('CG', 1)), P1DG_2d=('DG', 1), P1DGv_2d=vec(('DG', 1)), U_2d=U, H_2d=H,
                V_2d=('mixed', U, H), Q_2d=('DG', 1) if trf == 'dg' else ('CG', 1))


def x(h, v):
    return ('x', h, v)


def table3(fam, p, quad_p):
    """the documented spaces of the 3D solver"""
    D, C = (lambda n: ('DG', n)), (lambda n: ('CG', n))
    t = dict(P0=x(D(0), D(0)), P1=x(C(1), C(1)), P1v=vec(x(C(1), C(1))), P1DG=x(D(1), D(1)), P1DGv=vec(x(D(1), D(1))), H=x(D(p), D(p)),
             P1_2d=C(1), P1v_2d=vec(C(1)), P1DG_2d=D(1), P1DGv_2d=vec(D(1)), H_2d=D(p), turb_space=x(D(0), D(0)))
    if fam == 'dg-dg':
        t.update(U=vec(x(D(p), D(p))), W=vec(x(D(p), D(p))), U_2d=vec(D(p)))
    else:
        u = ('RT' if fam == 'rt-dg' else 'BDM', p + 1)
        t.update(U=('hdiv', x(u, D(p))), W=('hdiv', x(D(p), C(p + 1))), U_2d=u)
    t.update(Uint=t['U'], V_2d=('mixed', t['U_2d'], t['H_2d']))
    if quad_p:
        t.update(P2DGxP2=x(D(2), C(2)), P2DG_2d=D(2), H_bhead=x(D(2), C(2)), H_bhead_2d=D(2),
                 U_int_pg=('vector', x(D(2), D(1)), 2) if fam == 'dg-dg' else t['U'])
    else:
        t.update(P1DGxP2=x(D(1), C(2)), H_bhead=x(D(1), C(2)), H_bhead_2d=D(1), U_int_pg=t['U'])
    return t


def contin(d):
    """continuity of an element: (horizontal, vertical)"""
    if d[0] == 'hdiv':
        return ('hdiv', 'hdiv')
    if d[0] in ('vector', 'tensor'):
        return contin(d[1])
    if d[0] == 'x':
        return (contin(d[1])[0], contin(d[2])[0])
    k = {'CG': 'cg', 'DG': 'dg', 'RT': 'hdiv', 'BDM': 'hdiv'}[d[0]]
    return (k, k)


def sh(d):
    if d is None:
        return 'nothing'
    if d[0] == 'x':
        return '%s x %s' % (sh(d[1]), sh(d[2]))
    if d[0] in ('vector', 'tensor', 'hdiv'):
        return '%s(%s%s)' % (d[0], sh(d[1]), ', %s' % d[2] if len(d) > 2 else '')
    if d[0] == 'mixed':
        return ' * '.join(sh(e) for e in d[1:])
    return '%s%s' % d


def solver(it, repo, mod, clsname, opts, cname, gdim=2):
    m2, m3 = meshes(it, cname)
    m2.attrs['gdim'] = gdim
    S = it.obj(repo.cls(mod, clsname), 'solver')
    o = it.obj('ModelOptions', 'options')
    o.attrs.update(opts)
    fs = it.obj('AttrDict', 'function_spaces')
    S.attrs.update(options=o, function_spaces=fs, mesh2d=m2, mesh=m3, _isfrozen=False)
    return S


def run(repo, mod, clsname, opts, cname, gdim=2):
    def body(it):
        S = solver(it, repo, mod, clsname, opts, cname, gdim)
        it.call(it.getattr(S, 'create_function_spaces'), [], {})
        fs = S.attrs['function_spaces'].attrs
        con = {}
        for n, v in sorted(fs.items()):
            if v.attrs['elt'].meta['elt'] == 'mixed':
                continue
            r = it.call_func(repo.func('utility', 'element_continuity'), [v.attrs['elt']], {})
            con[n] = tuple(it.iter_items(r, None)) if not isinstance(r, tuple) else r
        return dict(fs), con, list(it.user.get('bad', [])), S
    return list(explore(repo, SpacePolicy, body))


def check(ctx, con, p, want, where, cloc):
    if p.outcome == 'raise':
        ctx.ob('a supported discretization is constructed', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
        return
    fs, cc, bad, S = p.value
    ctx.ob('every element exists on its cell', con, not bad, where, '; '.join(sorted(set(bad))))
    for n, d in sorted(want.items()):
        v = fs.get(n)
        got = desc(v.attrs['elt']) if v is not None else None
        ctx.ob('function space', '%s: %s' % (con, n), got == d, where, '%s is %s; documented: %s' % (n, sh(got), sh(d)))
        if got != d or v is None:
            continue
        m = v.attrs['mesh']
        ctx.ob('mesh of a function space', '%s: %s' % (con, n), (m.attrs['cdim'] == 2) == (n.endswith('_2d')), where, '%s lives on %s' % (n, m.name))
        vs = [x.attrs['variant'] for x in leaves(v.attrs['elt']) if desc(x)[0] in ('CG', 'DG') and x.attrs['deg'] > 0]
        if not n.startswith(('U', 'W', 'V')):
            ctx.ob('nodal values include the vertices', '%s: %s' % (con, n), all(q in NODAL for q in vs), where,
                   '%s uses the node variants %s' % (n, vs))
        if d[0] != 'mixed':
            ctx.ob('continuity of an element', '%s: %s' % (con, n), cc.get(n) == contin(d), cloc,
                   'element_continuity of %s (%s) is %s; expected %s' % (n, sh(d), cc.get(n), contin(d)))


SPACES3 = dict(solution_2d='V_2d', uv_3d='U', w_3d='W', uv_dav_3d='U|Uint', uv_dav_2d='U_2d', split_residual_2d='U_2d', salt_3d='H', temp_3d='H',
               elev_domain_2d='H_2d', density_3d='H|P2DGxP2', baroc_head_3d='H_bhead', int_pg_3d='U_int_pg', tke_3d='turb_space', psi_3d='turb_space',
               eps_3d='turb_space', len_3d='turb_space', eddy_visc_3d='turb_space', eddy_diff_3d='turb_space', shear_freq_3d='turb_space',
               buoy_freq_3d='turb_space', smag_visc_3d='P1', elev_cg_2d='P1_2d|P1DG_2d', bathymetry_2d='P1_2d|P1DG_2d')
SPACES2 = dict(solution_2d='V_2d', sediment_2d='Q_2d|space(elev_2d)', w_2d='H_2d')


@prop('C08', 'spaces and continuity of every discretization, and the space of every field', 100, TECH)
def c08(ctx):
    repo = ctx.repo
    w2 = repo.cls('solver2d', 'FlowSolver2d').find_method('create_function_spaces').loc()
    w3 = repo.cls('solver', 'FlowSolver').find_method('create_function_spaces').loc()
    cl = repo.func('utility', 'element_continuity').loc()
    for cname in ('triangle', 'quadrilateral'):
        for fam in ('rt-dg', 'bdm-dg', 'dg-dg', 'dg-cg'):
            for p in (0, 1, 2):
                for trf in ('dg', 'cg'):
                    if trf == 'cg' and p != 1:
                        continue
                    con = '2D %s%d, %s tracers, %s' % (fam, p, trf, cname)
                    for q in run(repo, 'solver2d', 'FlowSolver2d', dict(element_family=fam, polynomial_degree=p, tracer_element_family=trf), cname):
                        check(ctx, con, q, table2(fam, trf, p), w2, cl)
                for q in run(repo, 'solver2d', 'FlowSolver2d', dict(element_family=fam, polynomial_degree=p, tracer_element_family='dg'), cname, 3):
                    con = '2D %s%d on a sphere, %s' % (fam, p, cname)
                    if fam in ('rt-dg', 'bdm-dg'):
                        check(ctx, con, q, table2(fam, 'dg', p), w2, cl)
                    else:
                        ctx.ob('only mimetic elements are used on a sphere', con, q.outcome == 'raise', w2, 'a %s discretization is accepted on a sphere' % fam)
                if fam == 'dg-cg':
                    continue
                for qp in (False, True):
                    if qp and p != 1:
                        continue
                    con = '3D %s%d%s, %s' % (fam, p, ', quadratic pressure' if qp else '', cname)
                    for q in run(repo, 'solver', 'FlowSolver', dict(element_family=fam, polynomial_degree=p, use_quadratic_pressure=qp), cname):
                        check(ctx, con, q, table3(fam, p, qp), w3, cl)
    # a family outside the table is rejected
    for mod, cls, opts in (('solver2d', 'FlowSolver2d', dict(element_family='cg-cg', polynomial_degree=1, tracer_element_family='dg')),
                           ('solver2d', 'FlowSolver2d', dict(element_family='dg-dg', polynomial_degree=1, tracer_element_family='rt')),
                           ('solver', 'FlowSolver', dict(element_family='dg-cg', polynomial_degree=1, use_quadratic_pressure=False))):
        for q in run(repo, mod, cls, opts, 'triangle'):
            ctx.ob('an unsupported family is rejected', '%s %s' % (cls, opts['element_family']), q.outcome == 'raise',
                   w2 if mod == 'solver2d' else w3, 'spaces are created for an unsupported element family')
    # spaces of fields
    for cfgs, runf, lab, want in ((CFG3, run3, label3, SPACES3), (CFG2, run2, label2, SPACES2)):
        seen = {}
        for c in cfgs:
            for p in runf(repo, c):
                if p.outcome != 'return':
                    continue
                for n, f in p.value.attrs['fields'].attrs.items():
                    s = f.meta.get('space') if isinstance(f, Ob) else None
                    if n in want and s is not None:
                        seen.setdefault((n, show(s)), lab(c))
        for (n, s), con in sorted(seen.items()):
            ctx.ob('space of a field', n, s in want[n].split('|'), w3 if cfgs is CFG3 else w2, '%s is created in %s; expected %s (%s)' % (n, s, want[n], con))
