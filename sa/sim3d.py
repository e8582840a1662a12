"""Abstract execution of the coupled 2D-3D solver with tracked field contents.

Fields, cofunctions and assembled matrices carry symbolic contents: linear
combinations of atoms.  Every 2D solve, explicit 3D stage solve, limiter
application and implicit solve produces a new atom; diagnostic operators
produce terms that name what they were computed from, so that "w is consistent
with the present velocity and mesh" is an equality of contents.  The kernels
that move the mesh are read from their source string.
"""
import ast
import re
from fractions import Fraction
from .absint import Sy, Ex, Ext, Ob, Cv, Fv, key, show, is_num, explore, call_parts, callee_name, is_call, RaiseSig
from .lin import Lin, num
from .repo import AnalysisError
from .sysim import SysPolicy, make_solver, is_fn, mro_names

D2, D3 = {}, {}      # atoms that are vertically constant / vary in the vertical


def A(name, dim=None):
    if dim == 2:
        D2[name] = True
    elif dim == 3:
        D3[name] = True
    return norm(Lin({(name,): Fraction(1)}))


def norm(p):
    """cancel a * 1/a"""
    r = Lin()
    for m, c in p.items():
        l = list(m)
        for k in list(l):
            if k.startswith('inv:') and k[4:] in l and k in l:
                l.remove(k)
                l.remove(k[4:])
        k = tuple(sorted(l))
        r[k] = r.get(k, 0) + c
        if r[k] == 0:
            del r[k]
    return r


def fz(p):
    return repr(sorted((m, str(c)) for m, c in p.items()))


def linmap(p, f):
    """apply a linear operator: f(atom) for the field atom of every monomial"""
    r = Lin()
    for m, c in p.items():
        fa = [k for k in m if k in D3 or k in D2]
        if not fa:
            if c:
                r = r + Lin({m: c})
            continue
        if len(fa) > 1:
            raise AnalysisError('product of fields %s in a linear operator' % (m,))
        rest = list(m)
        rest.remove(fa[0])
        r = r + norm(Lin({tuple(sorted(rest)): c}) * f(fa[0]))
    return r


def dav(p):
    return linmap(p, lambda a: A(a) if a in D2 else A('dav(%s)' % a, 2))


def sh(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        s = '*'.join(k.replace('inv:', '1/') for k in m)
        out.append(s if c == 1 and m else '%s%s%s' % (c, '*' if m else '', s))
    s = ' + '.join(out)
    return s if len(s) < 300 else s[:297] + '...'


class Rec:
    """one entry of the execution log"""
    def __init__(self, kind, snap, loc, **kw):
        self.kind, self.snap, self.loc = kind, snap, loc
        self.__dict__.update(kw)


class Pol3(SysPolicy):
    concrete = ('CoupledTimeIntegratorBase', 'SSPRK22ALE', 'LeapFrogAM3', 'ALEMeshUpdater', 'SumFunction', 'FrozenClass')
    skip_methods = ('compute_mesh_stats', 'set_time_step', 'create_function_spaces')
    max_depth = 80

    # ------------------------------------------------------------ contents
    def cont(self, it, f):
        c = it.user.setdefault('c', {})
        if f.oid not in c:
            c[f.oid] = A('%s@0' % f.name, 3 if str(f.name).endswith('3d') else 2)
        return c[f.oid]

    def put_content(self, it, f, p):
        it.user.setdefault('c', {})[f.oid] = p

    def fresh(self, it, name, dim):
        it.user['n'] = it.user.get('n', 0) + 1
        return A('%s#%d' % (name, it.user['n']), dim)

    def mesh(self, it):
        return it.user.get('mesh', A('z0', 3))

    def value(self, it, v):
        if isinstance(v, bool) or v is None:
            raise AnalysisError('no value: %s' % show(v))
        if is_num(v):
            return num(Fraction(repr(v)) if isinstance(v, float) else Fraction(v))
        if isinstance(v, Ob) and is_fn(v):
            return self.cont(it, v)
        if isinstance(v, Ex):
            if v.op in ('+', '-'):
                a, b = self.value(it, v.args[0]), self.value(it, v.args[1])
                return a + b if v.op == '+' else a - b
            if v.op == 'neg':
                return self.value(it, v.args[0]).scale(-1)
            if v.op == '*':
                return norm(self.value(it, v.args[0]) * self.value(it, v.args[1]))
            if v.op == '/':
                return self.div(self.value(it, v.args[0]), self.value(it, v.args[1]))
            if v.op == 'attr' and v.args[1] in ('dt_const', 'dt') and isinstance(v.args[0], Ob) and v.args[0].meta.get('ts'):
                return A(it.user.get('dtname', {}).get(v.args[0].oid, 'dt'))
            cp = call_parts(v)
            if cp and callee_name(cp[0]) in ('Constant', 'float', 'as_vector') and len(cp[1]) >= 1:
                if isinstance(cp[1][0], (tuple, list)):
                    if all(is_num(x) and x == 0 for x in cp[1][0]):
                        return Lin()
                else:
                    return self.value(it, cp[1][0])
        if isinstance(v, Sy):
            return A(v.name)
        s = show(v)
        if s == "physical_constants['rho0_inv']":
            return A('inv:rho0')
        if s == "physical_constants['rho0']":
            return A('rho0')
        return A(s)

    def name(self, it, name, module):
        if name == 'physical_constants':
            return Sy('physical_constants')
        return NotImplemented

    def div(self, a, b):
        if b.is_const():
            return a.scale(1 / b.const())
        if len(b) == 1:
            (m, c), = b.items()
            inv = Lin({tuple(sorted(k[4:] if k.startswith('inv:') else 'inv:' + k for k in m)): 1 / Fraction(c)})
            return norm(a * inv)
        return norm(a * A('inv:(%s)' % sh(b)))

    def wrote(self, it, o, how, src, node):
        cur = self.cont(it, o)
        if src.__class__.__name__ == 'Rec':
            new = None
        elif how in ('assign', 'project', 'interpolate'):
            new = self.value(it, src)
        elif how == '+=':
            new = cur + self.value(it, src)
        elif how == '-=':
            new = cur - self.value(it, src)
        elif how == '*=':
            new = norm(cur * self.value(it, src))
        elif how == '/=':
            new = self.div(cur, self.value(it, src))
        else:
            raise AnalysisError('unknown write %s' % how)
        if is_fn(src) and o.meta.get('subs') and src.meta.get('subs'):
            for a, b in zip(o.meta['subs'], src.meta['subs']):
                self.put_content(it, a, self.cont(it, b))
        else:
            self.put_content(it, o, new)
        super().wrote(it, o, how, src, node)

    # ------------------------------------------------------------- log
    def log(self, it, kind, node=None, **kw):
        snap = dict(it.user.setdefault('c', {}))
        r = Rec(kind, snap, it.loc(node), mesh=self.mesh(it), **kw)
        it.user.setdefault('log', []).append(r)
        return r

    # ------------------------------------------------------------- forms
    def is_form(self, v):
        s = show(v)
        return '.residual(' in s or 'mass_term(' in s or 'dx' in s

    def is_bilinear(self, v):
        return '.trial' in show(v) or 'TrialFunction' in show(v)

    def form(self, it, v, node):
        """content of an assembled linear form"""
        if isinstance(v, Ob) and is_fn(v):
            return self.cont(it, v)
        if isinstance(v, Ex):
            if v.op in ('+', '-'):
                a, b = self.form(it, v.args[0], node), self.form(it, v.args[1], node)
                return a + b if v.op == '+' else a - b
            if v.op == 'neg':
                return self.form(it, v.args[0], node).scale(-1)
            cp = call_parts(v)
            cn = callee_name(cp[0]) if cp else None
            if cp and cn == 'residual':
                return self.rhs(it, v, node)
            if cp and cn == 'mass_term':
                return self.mass(it, cp[1][0])
            if v.op == '*':
                a, b = v.args
                if isinstance(b, Ext) and b.short == 'dx' or is_call(b, 'dx'):
                    cp = call_parts(a)
                    if cp and callee_name(cp[0]) in ('inner', 'dot'):
                        x = [z for z in cp[1] if not ('.test' in show(z) or 'TestFunction' in show(z))]
                    elif isinstance(a, Ex) and a.op == '*':
                        x = [z for z in a.args if not ('.test' in show(z) or 'TestFunction' in show(z))]
                    else:
                        x = []
                    if len(x) != 1:
                        raise AnalysisError('mass form %s: %s' % (show(v), [show(q) for q in x]))
                    if len(x) == 1:
                        return self.mass(it, x[0])
                if self.is_form(a) != self.is_form(b):
                    f, s = (a, b) if self.is_form(a) else (b, a)
                    return norm(self.form(it, f, node) * self.value(it, s))
            if v.op == '/' and self.is_form(v.args[0]):
                return self.div(self.form(it, v.args[0], node), self.value(it, v.args[1]))
        raise AnalysisError('form not understood: %s %r' % (show(v)[:200], v))

    def mass(self, it, x):
        m = fz(self.mesh(it))
        names = it.user.setdefault('mass', {})

        def f(a):
            n = 'M[%d]{%s}' % (it.user.setdefault('meshes', {}).setdefault(m, len(it.user.get('meshes', {}))), a)
            names[n] = (a, self.mesh(it))
            return A(n, 3)
        return linmap(self.value(it, x), f)

    def rhs(self, it, call, node):
        cp = call_parts(call)
        eq = call.args[0].args[0] if isinstance(call.args[0], Ex) else None
        names = ['label', 'solution', 'solution_old', 'fields', 'fields_old', 'bnd_conditions']
        a = dict(zip(names, cp[1]))
        a.update(dict(cp[2]) if len(cp) > 2 and cp[2] else {})
        r = self.log(it, 'rhs', node, eq=eq, a=a, sol=a.get('solution'))
        it.user['nf'] = it.user.get('nf', 0) + 1
        n = 'F%d' % it.user['nf']
        it.user.setdefault('F', {})[n] = r
        r.name = n
        return A(n, 3)

    # ------------------------------------------------------------- hooks
    def instantiate(self, it, cls, args, kwargs, node):
        names = mro_names(cls)
        if 'ExtrudedFunction' in names:
            return self.function(it, kwargs.get('name') if isinstance(kwargs.get('name'), str) else None, space=args[0] if args else None)
        return super().instantiate(it, cls, args, kwargs, node)

    def function(self, it, name=None, space=None, val=None):
        o = super().function(it, name, space, val)
        o.meta['anon'] = name is None
        return o

    def decide(self, it, cond):
        s = show(cond)
        if '.residual(' in s and isinstance(cond, Ex):
            return {'==': False, '!=': True}.get(cond.op)
        if isinstance(cond, Ex) and cond.op == '==' and all('family' in show(x) for x in cond.args):
            return True
        if 'polynomial_degree' in s and isinstance(cond, Ex) and cond.op == '<':
            return show(cond.args[0]) in ('0', 'Fraction(0, 1)')
        if 'isclose' in s or 'TensorProductElement' in s:
            return True
        if s in ('(forcing3d is None)', '(forcing2d is None)'):
            return False
        if s.endswith('.ad_block_tag') or ').horizontal' in s:
            return True
        return super().decide(it, cond)

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.meta.get('stub') and base.meta.get('ts') and name == 'n_stages':
            try:
                a = it.class_attr(Cv(base.cls), 'a') if hasattr(it, 'class_attr') else None
            except Exception:
                a = None
            if a is None:
                a = base.cls.find_attr('a')
            if isinstance(a, (list, tuple)):
                return len(a)
            if isinstance(a, ast.AST):
                try:
                    return len(ast.literal_eval(a))
                except ValueError:
                    if isinstance(a, (ast.List, ast.Tuple)):
                        return len(a.elts)
            raise AnalysisError('number of stages of %s' % base.clsname)
        if isinstance(base, Ob) and base.meta.get('stub') and name in base.attrs:
            return base.attrs[name]
        if isinstance(base, Ob) and is_fn(base) and name in ('dat', 'ufl_shape', 'cell_node_map', 'sub'):
            return Ex('attr', base, name)
        return super().attr(it, base, name, node)

    def setindex(self, it, base, idx, value, node):
        s = show(base)
        if 'mesh.coordinates.dat.data' in s or 'mesh.coordinates.dat' in s:
            f = [x for x in objs(value) if is_fn(x)]
            if len(f) == 1:
                it.user['mesh'] = self.cont(it, f[0])
                self.log(it, 'meshmove', node)
                return None
            raise AnalysisError('mesh coordinates set to %s' % show(value))
        return super().setindex(it, base, idx, value, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Fv) and fn.func.cls is None and fn.func.name in (
                'get_functionspace', 'element_continuity', 'get_extruded_base_element', 'get_facet_mask', 'get_horizontal_elem_size_3d',
                'get_horizontal_elem_size_2d', 'extend_function_to_3d', 'create_directory'):
            return Ex('call', fn, tuple(args), tuple(sorted(kwargs.items())))
        if isinstance(fn, Fv) and fn.func.cls is None and fn.func.name == 'get_zcoord_from_mesh':
            self.put_content(it, args[0], self.mesh(it))
            return args[0]
        if isinstance(fn, Fv) and fn.func.cls is None and fn.func.name == 'compute_elem_height':
            self.put_content(it, args[1], A('height(%s)' % fz(self.cont(it, args[0])), 3))
            return args[1]
        if isinstance(fn, Sy) and fn.name in ('forcing2d', 'forcing3d'):
            self.log(it, 'forcing', node, which=fn.name, t=args[0] if args else None)
            return None
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Ex) and show(fn).endswith('mesh.clear_rtree'):
            return None
        if isinstance(fn, Ex) and fn.op == 'attr' and show(fn.args[0]) == 'mesh' and fn.args[1] == 'clear_rtree':
            return None
        if isinstance(fn, Ex) and fn.op == 'attr' and fn.args[1] == 'degree' and not args:
            return (Sy('degree_h'), Sy('degree_v'))
        if isinstance(fn, Ext):
            s = fn.short
            if s == 'Cofunction':
                return self.function(it, None)
            if s == 'Constant' and len(args) == 1 and not isinstance(args[0], (tuple, list)):
                o = self.function(it, None)
                self.put_content(it, o, self.value(it, args[0]))
                return o
            if s == 'Function' and args and is_fn(args[0]):
                f = super().call(it, fn, args, kwargs, node)
                self.put_content(it, f, self.cont(it, args[0]))
                return f
            if s in ('Projector',):
                o = it.obj('Projector', None)
                o.meta.update(ext='Projector', a=list(args))
                return o
            if s == 'LinearSolver':
                o = it.obj('LinearSolver', None)
                o.meta.update(ext='LinearSolver')
                o.attrs['A'] = args[0]
                return o
            if s == 'assemble':
                t = kwargs.get('tensor', args[1] if len(args) > 1 and isinstance(args[1], Ob) else None)
                if self.is_bilinear(args[0]):
                    if not isinstance(t, Ob):
                        t = it.obj('Matrix', None)
                    t.meta.update(ext='Matrix', mesh=self.mesh(it))
                    return t
                v = self.form(it, args[0], node)
                if not isinstance(t, Ob):
                    t = self.function(it, None)
                self.put_content(it, t, v)
                return t
            if s == 'par_loop':
                return self.par_loop(it, args, node)
            if s == 'max' or s == 'min':
                return Ex('call', fn, tuple(args), ())
            if s == 'sum' and len(args) == 1 and isinstance(args[0], (list, tuple)):
                r = args[0][0]
                for x in args[0][1:]:
                    r = Ex('+', r, x)
                return r
        if isinstance(fn, tuple) and len(fn) == 3 and isinstance(fn[1], Ob) and fn[1].meta.get('ext'):
            return self.extcall(it, fn[1], fn[2], args, kwargs, node)
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Ob) and fn.args[0].meta.get('ext'):
            return self.extcall(it, fn.args[0], fn.args[1], args, kwargs, node)
        return super().call(it, fn, args, kwargs, node)

    def extcall(self, it, o, name, args, kwargs, node):
        if o.meta['ext'] == 'Projector' and name == 'project':
            src, dst = o.meta['a'][:2]
            self.wrote(it, dst, 'project', src, node)
            return dst
        if o.meta['ext'] == 'LinearSolver' and name == 'solve':
            x, b = args[:2]
            r = self.log(it, 'solve', node, sol=x, rhs=self.form(it, b, node), matrix=o.attrs['A'].meta.get('mesh'))
            new = self.fresh(it, str(x.name), 3)
            r.new = new
            self.put_content(it, x, new)
            x.meta['ver'] += 1
            it.event('write', 'solve', [x, o], {}, node)
            return None
        raise AnalysisError('call of %s.%s' % (o.meta['ext'], name))

    # ---------------------------------------------------- vertical kernels
    def par_loop(self, it, args, node):
        cp = call_parts(args[0])
        code = None
        if cp:
            src = cp[1][0]
            while isinstance(src, Ex):
                src = src.args[0]
            code = src if isinstance(src, str) else None
        if code is None:
            raise AnalysisError('kernel of par_loop is not a literal')
        formals, stmts = parse_kernel(code)
        acts = [x for x in args[2:]]
        env = {}
        for n, a in zip(formals, acts):
            c = call_parts(a)
            f = [x for x in objs(a) if is_fn(x)]
            acc = show(c[1][0]).split('.')[-1] if c and c[1] else ''
            env[n] = (f[0] if f else None, acc)
        loc = {}
        out = {}
        for tgt, e in stmts:
            v = self.cexpr(it, e, env, loc)
            if isinstance(tgt, ast.Subscript):
                out[tgt.value.id] = v
            else:
                loc[tgt.id] = v
        for n, v in out.items():
            f, acc = env.get(n, (None, ''))
            if f is None:
                raise AnalysisError('kernel writes %s' % n)
            self.put_content(it, f, v)
            f.meta['ver'] += 1
        return None

    def cexpr(self, it, e, env, loc):
        if isinstance(e, ast.Constant):
            return num(Fraction(repr(e.value)) if isinstance(e.value, float) else Fraction(e.value))
        if isinstance(e, ast.Name):
            if e.id in loc:
                return loc[e.id]
            return A(e.id)
        if isinstance(e, ast.Subscript):
            f = env.get(e.value.id, (None, ''))[0]
            if f is None:
                raise AnalysisError('kernel reads %s' % e.value.id)
            return self.cont(it, f)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return self.cexpr(it, e.operand, env, loc).scale(-1)
        if isinstance(e, ast.BinOp):
            a, b = self.cexpr(it, e.left, env, loc), self.cexpr(it, e.right, env, loc)
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return norm(a * b)
            if isinstance(e.op, ast.Div):
                return self.div(a, b)
        raise AnalysisError('kernel expression %s' % ast.dump(e)[:80])

    # ------------------------------------------------------------ effects
    def arg(self, it, o, n):
        return (o.meta.get('args') or {}).get(n)

    def effect(self, it, o, func, args, kwargs, node):
        names = mro_names(o.cls)
        a = o.meta.get('args') or {}
        n = func.name
        if o.meta.get('ts'):
            if n in ('advance', 'solve_stage'):
                s = a.get('solution')
                r = self.log(it, 'step', node, ts=o, method=n, args=list(args), kw=dict(kwargs), sol=s, func=func)
                if is_fn(s) and s.meta.get('subs'):
                    for c in s.meta['subs']:
                        self.put_content(it, c, self.fresh(it, str(c.name), 2))
                elif is_fn(s):
                    self.put_content(it, s, self.fresh(it, str(s.name), 3))
                r.new = [self.cont(it, c) for c in (s.meta.get('subs') or (s,))] if is_fn(s) else []
                self_write(it, s, o, node)
            elif n in ('initialize', 'set_dt'):
                if n == 'set_dt':
                    x = args[0] if args else list(kwargs.values())[0]
                    it.user.setdefault('dtname', {})[o.oid] = show(x)
                self.log(it, n, node, ts=o, args=list(args), kw=dict(kwargs), func=func)
            return
        if n == 'solve':
            self.log(it, 'op', node, op=o)
            self.operator(it, o, names, a, node)
        elif n == 'apply' and 'Limiter' in o.clsname:
            f = args[0]
            r = self.log(it, 'limit', node, op=o, sol=f)
            self.put_content(it, f, self.fresh(it, str(f.name) + '.lim', 3))
            r.new = self.cont(it, f)
        elif 'TurbulenceModel' in names or 'GenericLengthScaleModel' in names or 'PacanowskiPhilanderModel' in names:
            self.log(it, 'turb', node, op=o, method=n)

    def operator(self, it, o, names, a, node):
        if 'VerticalVelocitySolver' in names:
            f = a['solution']
            self.put_content(it, f, A('w(%s; %s)' % (fz(self.value(it, a['uv'])), fz(self.mesh(it))), 3))
        elif 'VerticalIntegrator' in names:
            f = a['output']
            v = self.value(it, a['input'])
            if a.get('average') is True:
                self.log(it, 'average', node, op=o, src=v, elev=self.value(it, a['elevation']), bath=self.value(it, a['bathymetry']))
                self.put_content(it, f, dav(v))
            else:
                self.put_content(it, f, A('vint(%s; %s; %s)' % (fz(v), a.get('bottom_to_top', True), fz(self.mesh(it))), 3))
        elif 'SubFunctionExtractor' in names:
            v = self.value(it, a['input_3d'])
            self.log(it, 'extract', node, op=o, src=v)
            self.put_content(it, a['output_2d'], linmap(v, lambda k: A(k) if k in D2 else A('top(%s)' % k, 2)))
        elif 'ExpandFunctionTo3d' in names:
            self.put_content(it, a['output_3d'], self.value(it, a['input_2d']))
        elif 'DensitySolver' in names or 'DensitySolverWeak' in names:
            self.put_content(it, a['density'], A('rho(%s; %s)' % (fz(self.value(it, a['salinity'])), fz(self.value(it, a['temperature']))), 3))
        elif 'InternalPressureGradientCalculator' in names:
            fl = a['fields'].attrs
            self.put_content(it, fl['int_pg_3d'], A('pg(%s; %s)' % (fz(self.cont(it, fl['baroc_head_3d'])), fz(self.mesh(it))), 3))
        elif 'SmagorinskyViscosity' in names:
            self.put_content(it, a['output'], A('smag(%s)' % fz(self.value(it, a['uv'])), 3))
        else:
            raise AnalysisError('operator %s' % o.clsname)
        for f in a.values():
            if is_fn(f):
                pass


def self_write(it, s, o, node):
    it.event('write', 'step', [s, o], {}, node)


def objs(v):
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, Ob):
            if x.oid not in seen:
                seen.add(x.oid)
                out.append(x)
        elif isinstance(x, Ex):
            st += list(x.args)
        elif isinstance(x, (tuple, list)):
            st += list(x)
    return out


_K = {}


def parse_kernel(code):
    """(formal names, [(target, expression)]) of the innermost statements of a C kernel"""
    if code in _K:
        return _K[code]
    m = re.search(r'void\s+\w+\s*\(([^)]*)\)', code)
    if not m:
        raise AnalysisError('kernel signature')
    formals = [p.replace('*', ' ').split()[-1] for p in m.group(1).split(',')]
    body = code[m.end():]
    if 'if' in re.findall(r'[A-Za-z_]+', body) or 'while' in re.findall(r'[A-Za-z_]+', body):
        raise AnalysisError('kernel with branches')
    body = re.sub(r'//[^\n]*|/\*.*?\*/', '', body, flags=re.S)
    body = re.sub(r'%\((\w+)\)[dsfi]', r'\1', body)
    body = re.sub(r'for\s*\([^)]*\)', '', body).replace('{', '').replace('}', '')
    stmts = []
    for s in body.split(';'):
        s = ' '.join(s.split())
        if not s:
            continue
        s = re.sub(r'^(const )?(double|int|float|PetscScalar) ', '', s)
        mm = re.match(r'^(.*?)([-+*/]?)=(.*)$', s)
        if not mm:
            raise AnalysisError('kernel statement %r' % s)
        t = ast.parse(mm.group(1).strip(), mode='eval').body
        e = ast.parse(mm.group(3).strip(), mode='eval').body
        if mm.group(2):
            op = {'+': ast.Add(), '-': ast.Sub(), '*': ast.Mult(), '/': ast.Div()}[mm.group(2)]
            e = ast.BinOp(t, op, e)
        stmts.append((t, e))
    _K[code] = (formals, stmts)
    return _K[code]
