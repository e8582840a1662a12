"""E08: the assembled Schur complement preconditioner."""
from sa.core import prop
from sa.absint import explore, Sy, Ex, Ext, Ob, Fv, Policy, RaiseSig, show
from sa.repo import AnalysisError

TECH = ('abstract interpretation of the preconditioner class with matrices as polynomials in non-commuting blocks, tracked through in-place '
        'products, copies and updates over sequences of reassemblies')


class MatPolicy(Policy):
    def mat(self, it, val, name='mat'):
        o = it.obj('Matrix', name)
        o.meta['mat'] = dict(val)
        return o

    def attr(self, it, base, name, node):
        if isinstance(base, Ob):
            if base.meta.get('mat') is not None:
                if name in ('M', 'handle', 'petscmat'):
                    return base
                return ('method', base, name)
            if base.meta.get('kind') == 'form' and name == 'arguments':
                return ('method', base, name)
            if base.meta.get('kind') == 'space' and name == 'subspaces':
                return [base.attrs['_0'], base.attrs['_1']]
            if base.meta.get('kind') in ('ksp', 'pc', 'pyctx', 'arg', 'space') and name not in base.attrs:
                return ('method', base, name)
        return NotImplemented

    def call(self, it, fn, args, kwargs, node):
        ver = it.user.setdefault('ver', {})
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and isinstance(fn[1], Ob):
            o, n = fn[1], fn[2]
            k = o.meta.get('kind')
            if o.meta.get('mat') is not None:
                return self.matcall(it, o, n, args, kwargs, node)
            if k == 'form' and n == 'arguments':
                return (o.attrs['test'], o.attrs['trial'])
            if k == 'arg' and n == 'function_space':
                return o.attrs['fs']
            if k == 'space':
                if n in ('split',):
                    return [o.attrs['_0'], o.attrs['_1']]
                if n in ('sub', '__getitem__'):
                    return o.attrs['_%d' % args[0]]
            if k == 'pc':
                if n == 'getOperators':
                    return (o.attrs['A'], o.attrs['P'])
                if n == 'getOptionsPrefix':
                    return 'pre_'
            if k == 'pyctx' and n == 'getPythonContext':
                return o.attrs['ctx']
            if k == 'ksp':
                if n == 'create':
                    return o
                if n == 'setOperators':
                    o.meta['op'] = args[0]
                    o.meta['pmat'] = args[1] if len(args) > 1 else args[0]
                    o.meta['set'] = o.meta.get('set', 0) + 1
                    return None
                if n == 'solve':
                    it.event('solve', 'ksp', [self.value(o.meta['pmat']), args[0], args[1]], {}, node)
                    return None
                if n == 'setOptionsPrefix':
                    o.meta['prefix'] = args[0]
                    return None
                if n == 'getConvergedReason':
                    return -3 if it.user.get('diverged') else 2
                return None
        if isinstance(fn, Ext):
            s = fn.short
            if s == 'KSP':
                o = it.obj('KSP', 'ksp')
                o.meta['kind'] = 'ksp'
                return o
            if s in ('TestFunction', 'TrialFunction'):
                return Ex('argument', s, args[0])
            if s in ('TestFunctions', 'TrialFunctions'):
                w = args[0]
                return tuple(Ex('argument', s[:-1], w.attrs['_%d' % i]) for i in range(2))
            if s in ('dot', 'inner'):
                return Ex('inner', *sorted(args, key=show))
            if s == 'Tensor':
                return Ex('tensor', args[0])
            if s == 'split_form':
                f = args[0]
                return [((i, j), it.user['blocks'][(f.oid, i, j)]) for i in (0, 1) for j in (0, 1)]
            if s == 'dict' and args and isinstance(args[0], list):
                return dict(args[0])
            if s == 'assemble':
                f = args[0]
                t = kwargs.get('tensor', args[1] if len(args) > 1 else None)
                if isinstance(f, Ob) and f.meta.get('block'):
                    v = {(('blk', f.meta['block'], ver.get('n', 0)),): 1}
                elif isinstance(f, Ex):
                    v = {(('other', show(f)),): 1}
                    it.user.setdefault('others', []).append(f)
                else:
                    raise AnalysisError('assemble of %s' % show(f))
                if t is not None:
                    t.meta['mat'] = v
                    return t
                return self.mat(it, v)
            if s == 'isinstance':
                return NotImplemented
        return NotImplemented

    def value(self, m):
        return dict(m.meta['mat'])

    def matcall(self, it, o, n, args, kwargs, node):
        a = self.value(o)

        def put(res, val):
            if res is None:
                return self.mat(it, val)
            res.meta['mat'] = val
            return res

        def mul(x, y):
            out = {}
            for w1, c1 in x.items():
                for w2, c2 in y.items():
                    out[w1 + w2] = out.get(w1 + w2, 0) + c1*c2
            return out

        def add(x, y, c=1):
            out = dict(x)
            for w, d in y.items():
                out[w] = out.get(w, 0) + c*d
            return {w: d for w, d in out.items() if d}
        if n in ('matMult', '__matmul__'):
            return put(kwargs.get('result', args[1] if len(args) > 1 else None), mul(a, self.value(args[0])))
        if n == 'matMatMult':
            return put(kwargs.get('result', args[2] if len(args) > 2 else None), mul(mul(a, self.value(args[0])), self.value(args[1])))
        if n == 'duplicate':
            c = kwargs.get('copy', args[0] if args else False)
            return self.mat(it, a if c else {})
        if n == 'copy':
            return put(kwargs.get('result', args[0] if args else None), a)
        if n == 'aypx':
            o.meta['mat'] = add({w: args[0]*c for w, c in a.items()}, self.value(args[1]))
            return None
        if n == 'axpy':
            o.meta['mat'] = add(a, self.value(args[1]), args[0])
            return None
        if n == 'scale':
            o.meta['mat'] = {w: args[0]*c for w, c in a.items()}
            return None
        if n in ('zeroEntries',):
            o.meta['mat'] = {}
            return None
        if n in ('assemble', 'assemblyBegin', 'assemblyEnd', 'setOption', 'setUp'):
            return None
        raise AnalysisError('matrix method %s' % n)

    def binop(self, it, op, a, b, node):
        def lift(x):
            return isinstance(x, Ob) and x.meta.get('mat') is not None
        if lift(a) and lift(b) and op in ('+', '-', '@'):
            r = self.matcall(it, a, 'copy', [], {}, node)
            if op == '@':
                return self.matcall(it, a, 'matMult', [b], {}, node)
            self.matcall(it, r, 'axpy', [1 if op == '+' else -1, b], {}, node)
            return r
        return NotImplemented



def build(it):
    V, Q = it.obj('Space', 'V'), it.obj('Space', 'Q')
    W = it.obj('Space', 'W')
    for s in (V, Q, W):
        s.meta['kind'] = 'space'
    W.attrs.update(_0=V, _1=Q)
    form = it.obj('Form', 'a')
    form.meta['kind'] = 'form'
    for n in ('test', 'trial'):
        x = it.obj('Argument', n)
        x.meta['kind'] = 'arg'
        x.attrs['fs'] = W
        form.attrs[n] = x
    it.user['blocks'] = {}
    for i in (0, 1):
        for j in (0, 1):
            b = it.obj('Form', 'a%d%d' % (i, j))
            b.meta['block'] = '%d%d' % (i, j)
            it.user['blocks'][(form.oid, i, j)] = b
    ctx = it.obj('ImplicitMatrixContext', 'ctx')
    ctx.attrs['appctx'] = {'a': form}
    ctx.attrs['a'] = form
    P = it.obj('Mat', 'P')
    P.meta['kind'] = 'pyctx'
    P.attrs['ctx'] = ctx
    pc = it.obj('PC', 'pc')
    pc.meta['kind'] = 'pc'
    pc.attrs.update(A=P, P=P)
    return pc, V


def wname(w):
    return '*'.join('A%s[%s]' % (x[1], x[2]) if x[0] == 'blk' else 'inv(A00)' for x in w)


def showm(v):
    return ' + '.join('%s %s' % (c, wname(w)) for w, c in sorted(v.items(), key=str)) or '0'


@prop('E08', 'after every update the operator of the inner solver is A11 - A10 A00^-1 A01 of the current forms', 6, TECH)
def e08(ctx):
    repo = ctx.repo
    cls = repo.cls('assembledschur', 'AssembledSchurPC')
    where = cls.loc()
    for nup in (0, 1, 2, 3):
        con = '%d updates' % nup

        def body(it):
            pc, V = build(it)
            o = it.obj(cls, 'schur')
            it.user['ver'] = {'n': 0}
            it.call(it.getattr(o, 'initialize'), [pc], {})
            out = []
            x, y = Sy('X'), Sy('Y')
            for k in range(nup + 1):
                if k:
                    it.user['ver']['n'] = k
                    it.call(it.getattr(o, 'update'), [pc], {})
                n0 = len(it.events)
                it.call(it.getattr(o, 'apply'), [pc, x, y], {})
                out.append([e for e in it.events[n0:] if e.kind == 'solve'])
            return out, it.user.get('others', []), V
        for p in explore(repo, MatPolicy, body):
            if p.outcome == 'raise':
                ctx.ob('the preconditioner runs', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
                continue
            out, others, V = p.value
            n = len(out) - 1
            for k, evs in enumerate(out):
                if len(evs) != 1:
                    ctx.ob('the preconditioner applies the Schur complement', con, False, where, '%d solves per application' % len(evs))
                    continue
                v, x, y = evs[0].args
                inv = [w for w in others]
                ok = len(v) == 2
                good = False
                if ok:
                    b = lambda nm: ('blk', nm, k)   # noqa
                    good = v.get((b('11'),)) == 1 and any(
                        len(w) == 3 and w[0] == b('10') and w[1][0] == 'other' and w[2] == b('01') and c == -1 for w, c in v.items())
                ctx.ob('the preconditioner applies the Schur complement', '%s, application %d' % (con, k), good, where,
                       'the inner solver uses %s' % showm(v))
                ctx.ob('the inner solver maps the residual to the correction', '%s, application %d' % (con, k),
                       isinstance(x, Sy) and x.name == 'X' and isinstance(y, Sy) and y.name == 'Y', where, 'solve(%s, %s)' % (show(x), show(y)))
            ok = len(others) >= 1 and all(inverse_mass(f, V) for f in others)
            ctx.ob('the eliminated block is the mass matrix of the velocity', con, ok, where, 'inverts %s' % '; '.join(show(f) for f in others)[:200])
    # divergence is reported

    def bodyd(it):
        pc, V = build(it)
        o = it.obj(cls, 'schur')
        it.user['diverged'] = True
        it.call(it.getattr(o, 'initialize'), [pc], {})
        it.call(it.getattr(o, 'apply'), [pc, Sy('X'), Sy('Y')], {})
        return None
    for p in explore(repo, MatPolicy, bodyd):
        ctx.ob('a failed inner solve is reported', 'apply', p.outcome == 'raise', where, 'a diverged inner solve goes unnoticed')


def inverse_mass(f, V):
    if isinstance(f, Ex) and f.op == 'attr' and f.args[1] == 'inv':
        t = f.args[0]
    elif isinstance(f, Ex) and f.op in ('inv',):
        t = f.args[0]
    else:
        return False
    if isinstance(t, Ex) and t.op == 'tensor':
        t = t.args[0]
    if not (isinstance(t, Ex) and t.op == '*' and len(t.args) == 2):
        return False
    a, m = t.args
    if not (isinstance(m, Ext) and m.short == 'dx'):
        a, m = m, a
    if not (isinstance(m, Ext) and m.short == 'dx') or not (isinstance(a, Ex) and a.op == 'inner'):
        return False
    x = a.args
    return len(x) == 2 and all(isinstance(y, Ex) and y.op == 'argument' and y.args[1] is V for y in x) and {y.args[0] for y in x} == {
        'TestFunction', 'TrialFunction'}
