"""Cell-local kernels run over a small symbolic mesh.

One column of `layers` cells over one base cell. Every Function stores one list
of values per degree of freedom; continuous spaces share them between cells."""
from fractions import Fraction
from sa.nparr import NP
from sa.absint import Sy, Ex, Ext, Ob, Fv, Cv, RaiseSig, show, is_num
from sa.repo import AnalysisError
from sa.poly import Poly, tofrac
from sa import ckernel as ck
from checks.c_spaces import SpacePolicy, desc, meshes, isel

NODES = {'triangle': {('DG', 0): 1, ('DG', 1): 3, ('CG', 1): 3, ('DG', 2): 6, ('CG', 2): 6, ('RT', 1): 3, ('RT', 2): 8, ('BDM', 1): 6, ('BDM', 2): 12},
         'quadrilateral': {('DG', 0): 1, ('DG', 1): 4, ('CG', 1): 4, ('DG', 2): 9, ('CG', 2): 9, ('RT', 1): 4, ('RT', 2): 12},
         'interval': {('DG', 0): 1, ('DG', 1): 2, ('CG', 1): 2, ('DG', 2): 3, ('CG', 2): 3}}
FACETS = {('triangle', 1): [(1, 2), (0, 2), (0, 1)], ('quadrilateral', 1): [(0, 1), (2, 3), (0, 2), (1, 3)]}


def scalar(e):
    while e.meta['elt'] in ('vector', 'tensor', 'hdiv'):
        e = e.attrs['sub_elements'][0] if e.meta['elt'] != 'hdiv' else e.attrs['_element']
    return e


def nnodes(e):
    """nodes of an element; (horizontal, vertical) for products"""
    e = scalar(e)
    if e.meta['elt'] == 'tpe':
        return tuple(nnodes(f) for f in e.attrs['factors'])
    d = desc(e)
    cn = e.attrs['cell'].attrs['name']
    if d not in NODES[cn]:
        raise AnalysisError('nodes of %s on a %s' % (d, cn))
    return NODES[cn][d]


class CellPolicy(SpacePolicy, NP):
    max_depth = 80

    def __init__(self, value=None):
        NP.__init__(self)
        self.value = value

    # ---------------------------------------------------------- functions
    def mkspace(self, it, mesh, fam, deg, vfam=None, vdeg=None, vector=False, hdiv=False, dim=None):
        return it.call_func(it.repo.func('utility', 'get_functionspace'), [mesh, fam, deg, vfam, vdeg],
                            dict(vector=vector, hdiv=hdiv, **({'dim': dim} if dim else {})))

    def block(self, fs):
        e = fs.attrs['elt']
        if e.meta['elt'] == 'vector':
            return e.attrs.get('dim') or fs.attrs['mesh'].attrs['gdim']
        if e.meta['elt'] == 'tensor':
            return fs.attrs['mesh'].attrs['gdim']**2
        return 1

    def layers(self, it):
        return it.user.get('layers', 3)

    def dofs(self, it, fs, layer):
        """global degrees of freedom of one cell"""
        e = fs.attrs['elt']
        n = nnodes(e)
        d = desc(scalar(e))
        if isinstance(n, int):
            return [('c' if d[0] == 'CG' else 'd', h) for h in range(n)]
        nh, nv = n
        out = []
        for h in range(nh):
            for v in range(nv):
                if d[2][0] == 'CG':
                    if v < 2:
                        out.append((h, 'z', layer + v))
                    else:
                        out.append((h, 'i', layer, v))
                else:
                    out.append((h, 'd', layer, v))
        return out

    def all_dofs(self, it, fs):
        if fs.attrs['mesh'].attrs['cdim'] == 2:
            return self.dofs(it, fs, 0)
        out = []
        for l in range(self.layers(it)):
            for d in self.dofs(it, fs, l):
                if d not in out:
                    out.append(d)
        return out

    def function(self, it, fs, name=None):
        f = it.obj('Function', name or 'f%d' % it.new_id())
        f.meta['fn'] = True
        f.meta['space'] = fs
        f.meta['val'] = {d: [Poly.const(0)] * self.block(fs) for d in self.all_dofs(it, fs)}
        return f

    def fill(self, it, f, tag=None):
        """distinct symbols in every entry"""
        tag = tag or f.name
        for d in f.meta['val']:
            f.meta['val'][d] = [ck.sym('%s[%s].%d' % (tag, ','.join(map(str, d)), c)) for c in range(len(f.meta['val'][d]))]
        return f

    @staticmethod
    def isfn(v):
        return isinstance(v, Ob) and v.meta.get('fn')

    def nodal(self, it, e, d, c):
        """value of an expression of functions of one space at one degree of freedom"""
        if self.isfn(e):
            v = e.meta['val'][d]
            return v[c if len(v) > 1 else 0]
        if is_num(e):
            return Poly.const(tofrac(e))
        if isinstance(e, Sy):
            return ck.sym(e.name)
        if isinstance(e, Ex) and e.op in ('+', '-', '*', '/') and len(e.args) == 2:
            a, b = self.nodal(it, e.args[0], d, c), self.nodal(it, e.args[1], d, c)
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[e.op]()
        if isinstance(e, Ex) and e.op == 'neg':
            return Poly.const(0) - self.nodal(it, e.args[0], d, c)
        if isinstance(e, Ex) and e.op == 'attr' or isinstance(e, Ob):
            return ck.sym(show(e))
        raise AnalysisError('nodal value of %s' % show(e))

    def assign(self, it, f, e):
        f.meta['val'] = {d: [self.nodal(it, e, d, c) for c in range(len(v))] for d, v in f.meta['val'].items()}
        return f

    # -------------------------------------------------------------- hooks
    def attr(self, it, base, name, node):
        if isinstance(base, Ob):
            if base.meta.get('fn'):
                if name == 'dat':
                    o = it.obj('Dat', 'dat')
                    o.meta['dat'] = base
                    return o
                if name in ('topological', 'ufl_shape'):
                    return Ex('attr', base, name)
                return ('method', base, name)
            if base.meta.get('dat') is not None:
                if name.startswith('data'):
                    return self.view(it, base.meta['dat'], 'halos' in name, None)
                return ('method', base, name)
            if base.meta.get('fs'):
                if name in ('finat_element',):
                    o = it.obj('finat', 'finat')
                    o.meta['finat'] = base.attrs['elt']
                    return o
                if name in ('block_size', 'value_size'):
                    return self.block(base)
                if name == 'name':
                    return base.name
            if base.meta.get('finat') is not None:
                return ('method', base, name)
            if base.meta.get('map') is not None:
                if name == 'arity':
                    n = nnodes(base.meta['map'].attrs['elt'])
                    return n if isinstance(n, int) else n[0]*n[1]
            if base.meta.get('mesh'):
                if name == 'coordinates':
                    return base.attrs['coordinates']
                if name in ('cell_set', 'exterior_facets', 'interior_facets'):
                    return Ex('attr', base, name)
                if name == 'topology':
                    return base
            if base.meta.get('kernel') and name in ('code', 'name'):
                return base.attrs[name]
            if base.meta.get('lsolver') or base.meta.get('projector') or base.meta.get('vsolver'):
                if name in base.attrs:
                    return base.attrs[name]
                return ('method', base, name)
            if base.meta.get('view') is not None:
                return ('method', base, name)
        r = SpacePolicy.attr(self, it, base, name, node)
        return r if r is not NotImplemented else NP.attr(self, it, base, name, node)

    def view(self, it, f, halos, comp):
        o = it.obj('ndview', 'view')
        o.meta['view'] = (f, halos, comp)
        return o

    def index(self, it, base, idx, node):
        if isinstance(base, Ob) and base.meta.get('view') is not None:
            f, h, c = base.meta['view']
            if isinstance(idx, slice):
                return base
            if isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[0], slice) and isinstance(idx[1], int):
                return self.view(it, f, h, idx[1])
            raise AnalysisError('index of nodal values')
        return NP.index(self, it, base, idx, node)

    def setindex(self, it, base, idx, value, node):
        if isinstance(base, Ob) and base.meta.get('view') is not None:
            v = self.index(it, base, idx, node)
            f, h, c = v.meta['view']
            if isinstance(value, Ob) and value.meta.get('view') is not None:
                g, h2, c2 = value.meta['view']
                if h != h2:
                    it.user.setdefault('errors', []).append('nodal values with and without halo entries are mixed at %s' % (it.loc(),))
                src = g.meta['val']
                if set(src) != set(f.meta['val']):
                    m = dict(zip(f.meta['val'], src)) if len(src) == len(f.meta['val']) else None
                    if m is None:
                        raise AnalysisError('nodal values of different spaces')
                    src = {d: src[m[d]] for d in m}
                for d in f.meta['val']:
                    w = src[d]
                    if c is None and c2 is None:
                        f.meta['val'][d] = list(w)
                    else:
                        f.meta['val'][d] = list(f.meta['val'][d])
                        f.meta['val'][d][c or 0] = w[c2 or 0]
            else:
                for d in f.meta['val']:
                    x = self.nodal(it, value, d, c or 0)
                    f.meta['val'][d] = [x if c is None or i == c else y for i, y in enumerate(f.meta['val'][d])]
            it.event('write', 'data', [f], {}, node)
            return True
        return NP.setindex(self, it, base, idx, value, node)

    def iop(self, it, op, target, value, node):
        if self.isfn(target):
            op = op.rstrip('=')
            self.assign(it, target, Ex(op, target, value))
            return target
        return NP.iop(self, it, op, target, value, node)

    def binop(self, it, op, a, b, node):
        if any(self.isfn(x) for x in (a, b)):
            return Ex(op, a, b)
        return NP.binop(self, it, op, a, b, node)

    def neg(self, it, a):
        return Ex('neg', a) if self.isfn(a) else NP.neg(self, it, a)

    def compare(self, it, op, a, b):
        for x in (a, b):
            if isinstance(x, Ob) and (x.meta.get('fs') or x.meta.get('mesh') or x.meta.get('cell')) and op in ('==', '!='):
                y = b if x is a else a
                return (x is y) == (op == '==')
        return NP.compare(self, it, op, a, b)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Ob) and fn.meta.get('dat') is not None:
            return ('arg', fn.meta['dat'], show(args[0]).split('.')[-1], args[1] if len(args) > 1 else None)
        if isinstance(fn, Ob) and fn.meta.get('glob') is not None:
            return ('glob', fn, show(args[0]).split('.')[-1])
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and isinstance(fn[1], Ob):
            r = self.method(it, fn[1], fn[2], args, kwargs, node)
            if r is not NotImplemented:
                return r
        if isinstance(fn, Ext):
            r = self.extern(it, fn, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if isinstance(fn, Ex) and fn.op == 'attr':
            s = show(fn)
            if fn.args[1] == 'local_facet_dat' or s.endswith('exterior_facets.local_facet_dat'):
                return ('facet',)
            if isinstance(fn.args[0], Ex) and fn.args[0].op == 'super' and isinstance(fn.args[0].args[0], Ob):
                r = self.supercall(it, fn.args[0].args[0], fn.args[1], args, kwargs, node)
                if r is not NotImplemented:
                    return r
        r = SpacePolicy.call(self, it, fn, args, kwargs, node)
        return r if r is not NotImplemented else NP.call(self, it, fn, args, kwargs, node)

    def supercall(self, it, o, name, args, kwargs, node):
        return NotImplemented

    def method(self, it, o, n, args, kwargs, node):
        if o.meta.get('fn'):
            fs = o.meta['space']
            if n == 'function_space':
                return fs
            if n in ('cell_node_map', 'exterior_facet_node_map', 'interior_facet_node_map'):
                m = it.obj('Map', n)
                m.meta['map'] = fs
                m.meta['mapkind'] = n
                return m
            if n in ('assign', 'interpolate'):
                return self.assign(it, o, args[0])
            if n == 'ufl_element':
                return fs.attrs['elt']
            if n == 'ufl_domain':
                return fs.attrs['mesh']
            if n == 'name':
                return o.name
            if n == 'copy':
                f = self.function(it, fs)
                f.meta['val'] = {d: list(v) for d, v in o.meta['val'].items()}
                return f
        if o.meta.get('fs'):
            if n in ('cell_node_map', 'exterior_facet_node_map'):
                m = it.obj('Map', n)
                m.meta['map'] = o
                m.meta['mapkind'] = n
                return m
            if n == 'get_work_function':
                return self.fill(it, self.function(it, o, 'work'))
            if n == 'restore_work_function':
                it.event('restored', 'work', [args[0]], {}, node)
                return None
        if o.meta.get('finat') is not None:
            if n == 'space_dimension':
                k = nnodes(o.meta['finat'])
                return k if isinstance(k, int) else k[0]*k[1]
        if o.meta.get('projector') and n == 'project':
            f = o.attrs['target']
            it.user['np'] = it.user.get('np', 0) + 1
            self.fill(it, f, '%s#%d' % (f.name, it.user['np']))
            it.event('project', 'project', [o.attrs['source'], f], {}, node)
            return f
        if o.meta.get('vsolver') and n == 'solve':
            it.event('vsolve', 'solve', [o] + list(args), kwargs, node)
            t = o.attrs.get('target')
            if t is not None:
                self.fill(it, t, '%s solved' % t.name)
            return None
        if o.meta.get('lsolver') and n == 'solve':
            it.event('lsolve', 'solve', [o] + list(args), kwargs, node)
            return None
        return NotImplemented

    def extern(self, it, fn, args, kwargs, node):
        s = fn.short
        if s in ('Function', 'ExtrudedFunction') and args:
            fs = args[0]
            if self.isfn(fs):
                fs = fs.meta['space']
            return self.function(it, fs, kwargs.get('name', args[1] if len(args) > 1 and isinstance(args[1], str) else None))
        if s == 'ExtrudedMesh':
            m2 = args[0]
            n = kwargs.get('layers', args[1] if len(args) > 1 else None)
            h = kwargs.get('layer_height')
            m = it.obj('Mesh', 'mesh')
            m.meta['mesh'] = True
            m.attrs.update(it.user['mesh3'].attrs)
            it.user['layers'] = n
            V = self.mkspace(it, m, 'CG', 1, 'CG', 1, vector=True)
            f = self.function(it, V, 'coordinates')
            for d in f.meta['val']:
                f.meta['val'][d] = [ck.sym('x%d' % d[0]), ck.sym('y%d' % d[0]), Poly.const(tofrac(h)*d[2] if abs(tofrac(h)*n - 1) > Fraction(1, 10**9)
                                                                                             else Fraction(d[2], n))]
            m.attrs['coordinates'] = f
            return m
        if s == 'create_element' or s == 'create_finat_element':
            o = it.obj('finat', 'finat')
            o.meta['finat'] = args[0]
            return o
        if s == 'entity_support_dofs':
            return self.support(it, args[0], args[1])
        if s == 'Kernel':
            o = it.obj('Kernel', 'kernel')
            o.meta['kernel'] = True
            o.attrs.update(code=args[0], name=args[1] if len(args) > 1 else kwargs.get('name'))
            return o
        if s == 'Global':
            o = it.obj('Global', 'global')
            data = args[1] if len(args) > 1 else kwargs.get('data')
            o.meta['glob'] = self.flat(self.arr(data))
            dim = args[0] if args else None
            n = 1
            for k in (dim if isinstance(dim, (tuple, list)) else [dim]):
                n *= int(k)
            if n != len(o.meta['glob']):
                it.user.setdefault('errors', []).append('a global of %s values is given %d' % (n, len(o.meta['glob'])))
            return o
        if s == 'par_loop':
            return self.par_loop(it, args, kwargs, node)
        if s == 'Projector':
            o = it.obj('Projector', 'projector')
            o.meta['projector'] = True
            o.attrs.update(source=args[0], target=args[1])
            return o
        if s in ('TestFunction', 'TrialFunction'):
            return Ex('argument', s, args[0])
        if s in ('inner', 'dot'):
            return Ex('inner', *args)
        if s == 'LinearVariationalProblem':
            return Ex('problem', args[0], args[1], args[2])
        if s == 'LinearVariationalSolver':
            o = it.obj('VSolver', 'solver')
            o.meta['vsolver'] = True
            o.attrs['problem'] = args[0]
            o.attrs['target'] = args[0].args[2] if isinstance(args[0], Ex) and args[0].op == 'problem' else None
            return o
        if s == 'finfo':
            o = it.obj('finfo', 'finfo')
            o.attrs.update(min=-10**300, max=10**300, eps=Fraction(1, 2**52))
            return o
        if s == 'isinstance' and len(args) == 2 and (self.isfn(args[0]) or is_num(args[0])):
            w = args[1] if isinstance(args[1], (tuple, list)) else (args[1],)
            names = [x.short if isinstance(x, Ext) else '' for x in w]
            if self.isfn(args[0]):
                return any(x in ('Function', 'Coefficient') for x in names)
            return any(x in ('int', 'float', 'Number') for x in names)
        if s == 'timed_stage':
            return Sy('stage')
        if s in ('print_output', 'print'):
            return None
        return NotImplemented

    def flat(self, a):
        if hasattr(a, 'reshape'):
            return [self.scal(x) for x in a.reshape(-1).tolist()] if a.dtype != object else [self.scal(x) for x in a.reshape(-1)]
        if isinstance(a, (list, tuple)):
            return [y for x in a for y in self.flat(x)]
        return [a]

    def support(self, it, fe, dim):
        e = scalar(fe.meta['finat'])
        from checks.c_spaces import leaves
        inner = [x for x in leaves(e) if desc(x)[0] == 'DG' and x.attrs.get('variant') != 'equispaced']
        if inner:
            # nodes inside of the cell: every basis function is nonzero on every facet
            n = nnodes(e)
            n = n if isinstance(n, int) else n[0]*n[1]
            k = len(FACETS[((inner[0].attrs['cell'].attrs['name'] if inner[0].attrs['cell'].attrs['name'] != 'interval' else 'triangle'), 1)])
            return {i: list(range(n)) for i in range(k)}
        if e.meta['elt'] == 'tpe':
            h, v = e.attrs['factors']
            cn = h.attrs['cell'].attrs['name']
            nh, nv = nnodes(h), nnodes(v)
            if isinstance(dim, tuple) and len(dim) == 2:
                if tuple(dim) == (1, 1):
                    return {i: [a*nv + b for a in f for b in range(nv)] for i, f in enumerate(FACETS[(cn, 1)])}
                if tuple(dim) == (2, 0):
                    return {i: [a*nv + i for a in range(nh)] for i in (0, 1)}
                if tuple(dim) == (1, 0):
                    fs = FACETS[(cn, 1)]
                    return {2*i + j: [a*nv + j for a in f] for i, f in enumerate(fs) for j in (0, 1)}
                if tuple(dim) == (2, 1):
                    return {0: list(range(nh*nv))}
                if tuple(dim) == (0, 1):
                    return {a: [a*nv + b for b in range(nv)] for a in range(nh)}
            raise AnalysisError('entities of dimension %s' % show(dim))
        cn = e.attrs['cell'].attrs['name']
        if dim == 1:
            return {i: list(f) for i, f in enumerate(FACETS[(cn, 1)])}
        if dim in (0, 2):
            n = nnodes(e)
            return {i: [i] for i in range(n)} if dim == 0 else {0: list(range(n))}
        raise AnalysisError('entities of dimension %s' % show(dim))

    # --------------------------------------------------------------- loops
    def par_loop(self, it, args, kwargs, node):
        k, iset = args[0], args[1]
        acts = args[2:]
        reg = kwargs.get('iteration_region')
        region = show(reg).split('.')[-1] if reg is not None else 'ALL'
        ss = show(iset)
        nl = self.layers(it)
        flat = all(a[1].meta['space'].attrs['mesh'].attrs['cdim'] == 2 for a in acts if a[0] == 'arg')
        if flat:
            layers = [0]
        elif region == 'ALL':
            layers = list(range(nl))
        elif region in ('ON_TOP', 'ON_BOTTOM'):
            layers = [nl - 1 if region == 'ON_TOP' else 0]
        else:
            raise AnalysisError('iteration region %s' % region)
        if ss.endswith('exterior_facets.set'):
            facets = it.user.get('facets', [0])
            want = 'exterior_facet_node_map'
        elif ss.endswith('cell_set'):
            facets = [None]
            want = 'cell_node_map'
        else:
            raise AnalysisError('loop over %s' % ss)
        err = it.user.setdefault('errors', [])
        for a in acts:
            if a[0] == 'arg':
                m = a[3]
                if not isinstance(m, Ob) or m.meta.get('map') is None:
                    raise AnalysisError('map of a loop argument')
                if m.meta['map'] is not a[1].meta['space'] and desc(m.meta['map'].attrs['elt']) != desc(a[1].meta['space'].attrs['elt']):
                    err.append('a function of %s is accessed with a map of another space' % a[1].name)
                if m.meta['mapkind'] != want:
                    err.append('%s is accessed with its %s in a loop over %s' % (a[1].name, m.meta['mapkind'], ss))
        it.event('loop', region, [ss] + [a[1] for a in acts if a[0] == 'arg'], {}, node)
        code = k.attrs['code']
        if not isinstance(code, str):
            raise AnalysisError('kernel text is not constant')
        for l in layers:
            for fc in facets:
                bufs = []
                for a in acts:
                    if a[0] == 'glob':
                        bufs.append([x if isinstance(x, int) else ck.dbl(tofrac(x) if is_num(x) else x) for x in a[1].meta['glob']])
                    elif a[0] == 'facet':
                        bufs.append([fc])
                    else:
                        f, acc = a[1], a[2]
                        ds = self.dofs(it, f.meta['space'], l)
                        n = len(f.meta['val'][ds[0]])
                        bufs.append([ck.UNSET]*(len(ds)*n) if acc == 'WRITE' else [Poly.const(0)]*(len(ds)*n) if acc == 'INC' else [f.meta['val'][d][c] for d in ds for c in range(n)])
                keep = [list(b) for b in bufs]
                try:
                    ck.run_kernel(code, k.attrs['name'], bufs, self.value)
                except ck.KernelError as e:
                    err.append('the kernel %s fails: %s' % (k.attrs['name'], e))
                    return None
                for a, b, b0 in zip(acts, bufs, keep):
                    if a[0] != 'arg' or a[2] == 'READ':
                        if any(x is not y and (not isinstance(x, Poly) or x.key() != y.key()) for x, y in zip(b, b0)):
                            err.append('the kernel %s writes to an argument it only reads' % k.attrs['name'])
                        continue
                    f, acc = a[1], a[2]
                    ds = self.dofs(it, f.meta['space'], l)
                    n = len(f.meta['val'][ds[0]])
                    for i, d in enumerate(ds):
                        for c in range(n):
                            x = b[i*n + c]
                            old = f.meta['val'][d]
                            if acc in ('MAX', 'MIN'):
                                x = ck.extremum(acc.lower(), old[c], x)
                            elif acc == 'INC':
                                x = ck.dbl(old[c]) + x
                            elif acc == 'WRITE' and x is ck.UNSET:
                                continue
                            f.meta['val'][d] = old[:c] + [x] + old[c+1:]
        return None
