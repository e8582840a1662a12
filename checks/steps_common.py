"""Effective schemes of all time integrators (see sa/stepsim.py)."""
import re
from sa.absint import Sy, Ex, Ext, Ob, Cv, Fv, key, show, explore
from sa.repo import AnalysisError, ClassInfo
from sa.stepsim import StepPolicy, LC, S, Arr, ONE, TOL

DT = S.sym('dt')
_cache = {}


class Pol(StepPolicy):
    def notnone(self, it, v):
        return isinstance(v, Sy) and bool(v.tags.get('forcing'))


def integrators(repo):
    """concrete integrator classes of single equations: [(ClassInfo)]"""
    base = None
    for m in repo.modules.values():
        for c in m.classes.values():
            if c.name == 'TimeIntegrator' and m.name.endswith('timeintegrator'):
                base = c
    if base is None:
        raise AnalysisError('class TimeIntegrator not found')
    out = []
    for m in repo.modules.values():
        if '.' in m.name and m.name.split('.')[-1] in ('callback',):
            continue
        for c in m.classes.values():
            if base in c.mro() and c is not base and not abstract(c):
                out.append(c)
    return sorted(out, key=lambda c: (c.module.name, c.name))


def abstract(c):
    """does the class leave an abstract method or property undefined?"""
    seen = set()
    for k in c.mro():
        if not isinstance(k, ClassInfo):
            continue
        for n, m in k.methods.items():
            if n in seen:
                continue
            seen.add(n)
            if m.is_abstract:
                return True
        for n in k.attrs:
            seen.add(n)
    # generic base classes have no tableau of their own
    if c.find_attr('a') is None and c.name.startswith(('DIRKGeneric', 'ERKGeneric')):
        return True
    return False


def class_const(repo, cls, name):
    """constant class attribute, folded; None if absent"""
    from sa.absint import Interp
    a = cls.find_attr(name)
    if a is None:
        return None
    it = Interp(repo, Pol())
    v = it.class_attr(a, name)
    return v


def equation(it, name='eq'):
    eq = it.obj('Equation', name)
    eq.attrs.update(function_space=Sy('fs'), test=Sy('test'), trial=Sy('trial'), __class__=Sy('EqClass'))
    return eq


def make(it, cls, implicitness=True, iterations=None):
    pol = it.policy
    eq = equation(it)
    u = pol.function(it, 'Function', 'solution', LC.atom('u0'))
    f = pol.function(it, 'Function', 'forced', LC.atom('f0'))
    c = pol.function(it, 'Constant', 'cc', LC.atom('c0'))
    it.user['forced'] = f
    fields = {'f': f, 'c': c, 'n': None}
    opts = it.obj('Opts', 'options')
    opts.attrs.update(solver_parameters={}, implicitness_theta=Sy('theta', scalar=True), ad_block_tag='tag',
                      solver_parameters_pressure={'ksp_type': 'gmres'}, solver_parameters_momentum={}, picard_iterations=iterations or 2)
    init = cls.find_method('__init__')
    names = [a.arg for a in init.node.args.args]
    dt = Sy('dt', scalar=True)
    if 'equation_mom' in names:
        em = equation(it, 'eq_mom')
        ti, te = it.obj('Term', 'G'), it.obj('Term', 'A')
        em.attrs.update(terms={'G': ti, 'A': te}, labels={'G': 'implicit', 'A': 'explicit'}, function_space=Sy('fsu'))
        eq.attrs.update(terms={'G': it.obj('Term', 'G2'), 'C': it.obj('Term', 'C2')}, labels={'G': 'implicit', 'C': 'implicit'})
        return it.instantiate(cls, [eq, em, u, fields, dt, opts, Sy('bnd')], {}), u, f
    return it.instantiate(cls, [eq, u, fields, dt, opts, Sy('bnd')], {}), u, f


class Step:
    """one symbolic step: start state, result, tendencies used"""
    def __init__(self, cls, path, start, t, final, ks, log, fields_before, label, steady=None, dt='dt', f_after=None):
        self.cls = cls
        self.path = path
        self.start = start
        self.t = t
        self.final = final
        self.ks = ks
        self.log = log
        self.fb = fields_before
        self.label = label
        self.steady = steady
        self.dt = dt


def simulate(repo, cls):
    """[Scenario] of two consecutive steps with an external change of the state
    and of the time step in between"""
    ck = cls.qualname
    if ck in _cache:
        return _cache[ck]
    res = []

    def body(it):
        pol = it.policy
        I, u, f = make(it, cls)
        steps = []
        it.call(it.getattr(I, 'initialize'), [u], {})
        upd = Sy('update_forcings', forcing=True)

        def go(t, start, label, dt):
            n, l = len(pol.ks), len(pol.log)
            fb = pol.value(it, f)
            it.user['steady'] = []
            pol.ks, keep = [], pol.ks
            pol.time = LC.atom('nt')
            # keep global numbering of tendencies per step
            it.call(it.getattr(I, 'advance'), [Sy(t)], {'update_forcings': upd})
            ks = pol.ks
            steps.append(Step(cls, None, start, LC.atom('sym', t), pol.value(it, u), ks, pol.log[l:], fb, label, it.user.get('steady'), dt))
            return ks
        go('t0', LC.atom('u0'), 'first step', 'dt')
        end0 = pol.value(it, f)
        # the state is changed from outside (limiter, coupling, new initial value)
        u.meta['val'] = LC.atom('v0')
        go('t1', LC.atom('v0'), 'step after the state was changed', 'dt')
        steps[-1].fb = end0
        end1 = pol.value(it, f)
        u.meta['val'] = LC.atom('w0')
        it.call(it.getattr(I, 'set_dt'), [Sy('dt2', scalar=True)], {})
        go('t2', LC.atom('w0'), 'step after set_dt', 'dt2')
        steps[-1].fb = end1
        return I, steps
    try:
        for p in explore(repo, Pol, body, max_paths=64):
            if p.outcome == 'return':
                I, steps = p.value
                for s in steps:
                    s.path = p
                res.append((p, I, steps))
            else:
                res.append((p, None, None))
    except AnalysisError as e:
        res = e
    _cache[ck] = res
    return res


def trivial_groups(p):
    """tendency groups assumed empty on this path (`form == 0`)"""
    out = []
    for c, r, _ in p.factlog:
        s = show(c)
        if r and s.startswith('(0 ==') and 'resid(' in s:
            m = re.search(r"resid\('(\w+)', (\[[^\]]*\]|'[^']*')", s)
            out.append(m.group(2) if m else s)
    return out


def scheme(step):
    """additive Runge-Kutta form of a step: (groups, A, B, order of stages) or message"""
    ks = {k.idx: k for k in step.ks}
    dt = S.sym(step.dt)
    start = list(step.start.d)[0]
    used = [a[1] for a in step.final.d if a[0] == 'K' and a[1] in ks]
    todo = list(used)
    while todo:
        k = ks[todo.pop()]
        for lc in (k.u, k.unl):
            for a in lc.d:
                if a[0] == 'K' and a[1] in ks and a[1] not in used:
                    used.append(a[1])
                    todo.append(a[1])
    used.sort()

    def row(lc, what):
        r = {}
        if not lc.coef(start).close(S.num(1)):
            return None, '%s is %r: the state at the start of the step enters with factor %r instead of 1' % (what, lc, lc.coef(start))
        for a, s in lc.d.items():
            if a == start:
                continue
            if a[0] != 'K' or a[1] not in ks:
                if s.zero():
                    continue
                return None, '%s contains %s which is neither the state at the start of the step nor a tendency of this step' % (what, a,)
            q = s*dt.inv()
            c = {k: v for k, v in q.d.items()}
            for m in c:
                if any(n in ('dt', 'dt2') for n, _ in m):
                    return None, '%s: the factor of tendency %d is %r, not proportional to the time step %s' % (what, a[1], s, step.dt)
            r[a[1]] = q
        return r, None
    b, err = row(step.final, 'the new solution')
    if err:
        return err
    A, N = {}, {}
    for i in used:
        A[i], err = row(ks[i].u, 'the state of stage %d' % i)
        if err:
            return err
        N[i], err = row(ks[i].unl, 'the linearisation state of stage %d' % i)
        if err:
            return err
    return used, ks, A, b, N
