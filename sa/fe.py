"""Abstract execution of diagnostic solvers.

Fields are followed as in `pw`; forms handed to variational problems are
evaluated to their canonical form over the field values of that moment, when
the problem is set up (`prob.form`) and again when it is solved.  Solving a
projection stores the projected expression, any other problem a new value.
"""
import itertools
from .absint import Sy, Ex, Ob, Ext, Fv, callee_name, call_parts, show
from .eqs import FormPolicy, CONST_NAMES
from .forms import FormEval, Form, T, fatom
from .poly import Poly
from .pw import PW, QUIET
from .repo import AnalysisError

PROBLEMS = {'LinearVariationalProblem': ('a', 'L', 'u', 'bcs', 'aP', 'form_compiler_parameters', 'constant_jacobian'),
            'NonlinearVariationalProblem': ('F', 'u', 'bcs', 'J')}
SOLVERS = ('LinearVariationalSolver', 'NonlinearVariationalSolver')
SHAPES = {'n': (3,), 'x': (3,), 'test': (), 'trial': (), 'vtest': (3,), 'vtrial': (3,)}


class Prob:
    """one linear or nonlinear problem"""
    def __init__(self, kind, a, L, u, const, loc, **kw):
        self.kind, self.a, self.L, self.u, self.const, self.loc = kind, a, L, u, const, loc
        self.bcs = []
        self.__dict__.update(kw)


class FE(PW):
    """pins: truth of conditions; spaces: continuity by space name; vectors: spaces with vector values {name: n}"""
    consts = CONST_NAMES

    def __init__(self, pins=None, dim=3, cont=None, vectors=None, shapes=None, consts=()):
        super().__init__(pins, dim)
        self.fp = FormPolicy(cont, hdim=dim, gdim=dim)
        self.dim = dim
        self.vectors = vectors or {}
        self.shp = dict(SHAPES, n=(dim,), x=(dim,), **(shapes or {}))
        self.consts = set(CONST_NAMES) | set(consts)

    def shapes(self):
        return self.shp

    def evaluator(self, it):
        fe = super().evaluator(it)
        fe.consts = set(self.consts)
        return fe

    def instantiate(self, it, cls, args, kwargs, node):
        if cls.name in self.concrete:
            return NotImplemented
        return super().instantiate(it, cls, args, kwargs, node)

    def decide(self, it, cond):
        r = super().decide(it, cond)
        if r is None and isinstance(cond, Ex) and cond.op in ('==', '!=') and 'space:' in show(cond):
            return cond.op == '=='
        if isinstance(cond, Sy) and cond.name in ('vtest', 'vtrial'):
            return True
        if isinstance(cond, Ex) and cond.op == 'isinstance' and isinstance(cond.args[0], Sy):
            # symbols stand for Constants
            t = cond.args[1]
            return getattr(t, 'short', None) == 'Constant'
        return self.fp.decide(it, cond) if r is None else r

    def notnone(self, it, v):
        return True if isinstance(v, Ob) else self.fp.notnone(it, v)

    def resolve(self, it, fe, v):
        if isinstance(v, Ex) and v.op == 'attr' and v.args[1] == 'coordinates':
            return fe.sym('x', (self.dim,))
        if isinstance(v, T):
            return v
        return None

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.meta.get('fn') and name in ('subfunctions',):
            return base.attrs.get('subfunctions', NotImplemented)
        if isinstance(base, Ob) and base.meta.get('solver') is not None and name in ('solve', 'project'):
            return ('solve', base)
        if isinstance(base, Ob) and base.meta.get('fn') and name in ('ufl_domain', 'ufl_element'):
            return Ex('attr', Sy('space:' + base.name), name)
        r = super().attr(it, base, name, node)
        if r is NotImplemented and isinstance(base, (Sy, Ex)):
            r = self.fp.attr(it, base, name, node)
        if r is NotImplemented and isinstance(base, (Sy, Ex)) and name == 'ufl_shape':
            return self.value(it, base).shape
        return r

    def index(self, it, base, idx, node):
        r = super().index(it, base, idx, node)
        return self.fp.index(it, base, idx, node) if r is NotImplemented else r

    def argument(self, space, kind):
        s = show(space)
        for k in self.vectors:
            if k in s:
                return Sy('v' + kind)
        return Sy(kind)

    def ev(self, it, v):
        r = self.value(it, v)
        if isinstance(r, T) and r.shape == () and r.at().is_zero_raw():
            return Form()
        return r

    def problem(self, it, n, args, kwargs, node):
        b = dict(zip(PROBLEMS[n], args), **kwargs)
        if n == 'LinearVariationalProblem':
            p = Prob(n, b['a'], b['L'], b['u'], b.get('constant_jacobian', False), it.loc(node))
            p.forms = (self.ev(it, p.a), self.ev(it, p.L))
        else:
            p = Prob(n, b['F'], None, b['u'], False, it.loc(node))
            p.forms = (self.ev(it, p.a),)
        p.bcs = b.get('bcs')
        it.user.setdefault('probs', []).append(p)
        o = it.obj('Problem', None)
        o.meta['prob'] = p
        return o

    def solver(self, it, p):
        o = it.obj('Solver', None)
        o.meta.update(solver=p)
        return o

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and fn and fn[0] == 'solve':
            return self.solve(it, fn[1].meta['solver'], node)
        n = callee_name(fn) if not isinstance(fn, tuple) else None
        if isinstance(fn, Ob) and fn.meta.get('fn') and len(args) == 1 and args[0] in ('+', '-'):
            return Ex('call', fn, tuple(args), ())
        if isinstance(fn, Ext):
            if n in PROBLEMS:
                return self.problem(it, n, args, kwargs, node)
            if n in SOLVERS:
                return self.solver(it, (args[0] if args else kwargs['problem']).meta['prob'])
            if n == 'Projector':
                b = dict(zip(('v', 'v_out', 'bcs', 'solver_parameters', 'form_compiler_parameters', 'constant_jacobian'), args), **kwargs)
                p = Prob(n, None, b['v'], b['v_out'], b.get('constant_jacobian', True), it.loc(node))
                p.forms = ()
                it.user.setdefault('probs', []).append(p)
                return self.solver(it, p)
            if n == 'solve' and args and isinstance(args[0], Ex) and args[0].op == '==':
                p = Prob(n, args[0].args[0], args[0].args[1], args[1], False, it.loc(node))
                p.forms = (self.ev(it, p.a), self.ev(it, p.L))
                it.user.setdefault('probs', []).append(p)
                return self.solve(it, p, node)
            if n in ('TestFunction', 'TrialFunction'):
                return self.argument(args[0], n[:-8].lower())
            if n == 'isinstance' and len(args) == 2:
                return NotImplemented
        if n == 'get_functionspace' or n == 'FunctionSpace':
            return Sy('space:%s' % ('vec' if kwargs.get('vector') else 'scalar'))
        r = super().call(it, fn, args, kwargs, node)
        return self.fp.call(it, fn, args, kwargs, node) if r is NotImplemented else r

    def newfunction(self, it, args, kwargs, node):
        if args and isinstance(args[0], (Sy, Ex)):
            s = show(args[0])
            sh = next(((k,) for v, k in self.vectors.items() if v in s), ())
            nm = kwargs.get('name')
            f = self.function(it, nm if isinstance(nm, str) else None, None, sh)
            if 'space:' in s:
                f.meta['space'] = s
            return f
        return super().newfunction(it, args, kwargs, node)

    # --------------------------------------------------------------- solve
    def solve(self, it, p, node):
        e = it.event('solved', p.kind, [p.u], {}, node)
        e.res = p
        f = p.u
        if not (isinstance(f, Ob) and f.meta.get('fn')):
            return None
        if p.kind == 'Projector':
            self.put(it, f, self.value(it, p.L), node)
            return f
        v = None
        if p.L is not None:
            a, L = self.ev(it, p.a), self.ev(it, p.L)
            p.at_solve = (a, L)
            v = projection(a, L, f.meta['shape'])
        else:
            p.at_solve = (self.ev(it, p.a),)
        if v is None:
            sh = f.meta['shape']
            it.user['nsol'] = it.user.get('nsol', 0) + 1
            v = T(sh, {i: Poly.atom(fatom('solved:%s' % f.name, i)) for i in itertools.product(*[range(n) for n in sh])})
        self.put(it, f, v, node)
        return None


def projection(a, L, shape):
    """the projected expression when a is the mass form and L is an integral over the cells"""
    if set(a.m) != {('dx', None)} or set(L.m) - {('dx', None)}:
        return None
    t = 'test'
    p = a.m[('dx', None)]
    names = {x[1] for x in p.atoms() if x[0] == 'f'}
    t = next((x for x in names if x.endswith('test')), None)
    r = next((x for x in names if x.endswith('trial')), None)
    if t is None or r is None:
        return None
    idx = list(itertools.product(*[range(n) for n in shape]))
    want = Poly()
    for i in idx:
        want = want + Poly.atom(fatom(t, i)) * Poly.atom(fatom(r, i))
    if not (p - want).is_zero_raw():
        return None
    q = L.m.get(('dx', None), Poly())
    c = {}
    for m, k in q.t.items():
        hit = [a for a, e in m if a[0] == 'f' and a[1] == t]
        if len(hit) != 1 or hit[0][3] or hit[0][4]:
            return None
        i = hit[0][2]
        c[i] = c.get(i, Poly()) + Poly({tuple((a, e) for a, e in m if a is not hit[0]): k})
    return T(shape, c)
