"""A12: an equation is the sum of exactly its terms, each evaluated at the given state."""
import itertools
from sa.core import prop
from sa.absint import Sy, Ex, Ob, explore, show, is_call, call_parts
from sa.formdb import FAMILIES, repo as get_repo
from sa.repo import AnalysisError
from checks.forms_common import CONTINUITY
from checks.c_turbforms import Turb

TECH = ('abstract execution of every equation constructor and of residual() for every kind of label argument, with terms that record the arguments they '
        'get; set of terms evaluated and each argument compared with the documented ones in every guard partition')

LABELS = ['all', 'implicit', 'explicit', 'source', 'nonlinear', ('explicit', 'source'), ['implicit', 'nonlinear'],
          ('implicit', 'explicit', 'source', 'nonlinear')]
STEPPED = {'implicit', 'explicit', 'source'}


class TurbEq(Turb):
    def variants(self):
        return [{'eq': 'TKEEquation'}, {'eq': 'PsiEquation'}]


def families():
    out = [(n, c()) for n, c in FAMILIES.items()]
    out.append(('Turbulence', TurbEq()))
    return out


def summands(v):
    if isinstance(v, Ex) and v.op == '+' and len(v.args) == 2:
        return summands(v.args[0]) + summands(v.args[1])
    if isinstance(v, (int, float)) and v == 0:
        return []
    return [v]


GIVEN = {'solution': 'new_state', 'solution_old': 'old_state', 'fields': 'flds', 'fields_old': 'flds_old', 'bnd_conditions': 'bcs'}


def is_given(v, n):
    return isinstance(v, Sy) and v.name == GIVEN[n]


def part(v):
    """(function, component) of an entry of a mixed function, as long as it stays differentiable with respect to the function"""
    if isinstance(v, Ex) and v.op == 'idx':
        b, i = v.args
        if is_call(b, 'split'):
            a = call_parts(b)[1]
            if len(a) == 1:
                b = a[0]
        return (b, i)
    return None


def entry(v, d, name):
    return isinstance(v, Ex) and v.op == 'idx' and is_given(v.args[0], d) and v.args[1] == name


def expected(fam, v, guards):
    """[(ok, name, message)] of the arguments of a recorded term"""
    if fam in ('SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum'):
        names = ['uv', 'eta', 'uv_old', 'eta_old', 'fields', 'fields_old', 'bnd_conditions']
    else:
        names = ['solution', 'solution_old', 'fields', 'fields_old', 'bnd_conditions']
    f, args, kw = call_parts(v)
    a = dict(zip(names, args))
    a.update(kw)
    if set(a) != set(names) or len(args) > len(names):
        return [(False, 'arguments', 'called with %s' % show(v))]
    out = []
    for n in names:
        x = a[n]
        if n in ('fields', 'fields_old', 'bnd_conditions', 'solution', 'solution_old'):
            ok = is_given(x, n)
        else:
            old = n.endswith('_old')
            sol, fld = ('solution_old', 'fields_old') if old else ('solution', 'fields')
            comp = 0 if n.startswith('uv') else 1
            if fam in ('SWE', 'ModeSplit2D'):
                p = part(x)
                ok = p is not None and is_given(p[0], sol) and p[1] == comp
            elif (fam == 'FreeSurface') == (comp == 1):
                ok = is_given(x, sol)
            else:
                ok = entry(x, fld, 'uv' if comp == 0 else 'eta')
        out.append((ok, n, '%s is %s' % (n, show(x))))
    return out


@prop('A12', 'the residual of every equation is the sum of exactly its terms with the requested labels, evaluated at the given state', 100, TECH)
def a12(ctx):
    repo = get_repo()
    for fam, f in families():
        for var in f.variants():
            con = fam + (' %s' % ', '.join('%s=%s' % kv for kv in sorted(var.items())) if var else '')
            for lab in LABELS:
                one(ctx, repo, fam, f, var, con, lab)


def one(ctx, repo, fam, f, var, con, lab):
    def body(it):
        eq = f.build(it, **var)
        made = [e.args[0] for e in it.events if e.kind == 'new' and e.args[0].cls is not eq.cls and term(e.args[0])]
        terms = eq.attrs['terms']
        for t in terms.values():
            t.attrs['residual'] = ('method', t, 'residual')
        labels = dict(eq.attrs['labels'])
        v = it.call(it.getattr(eq, 'residual'), [lab if not isinstance(lab, list) else list(lab)] + [
            Sy(GIVEN[n]) for n in ('solution', 'solution_old', 'fields', 'fields_old', 'bnd_conditions')], {}, None)
        return eq, dict(terms), labels, made, v
    name = '%s, label %s' % (con, show(lab) if isinstance(lab, str) else '+'.join(lab))
    n = 0
    memo = {}

    def ob(rule, construct, ok, loc='', msg=''):
        if memo.get((rule, construct)) is None or (memo[rule, construct] and not ok):
            memo[rule, construct] = ok
            memo[rule, construct, 'm'] = (loc, msg)
    for p in explore(repo, lambda: f.policy(f.continuities[0]), body):
        n += 1
        if p.outcome != 'return':
            ob('residual assembled', name, False, '', 'raises %s' % show(p.value.exc) if hasattr(p.value, 'exc') else str(p.value))
            continue
        eq, terms, labels, made, v = p.value
        loc = eq.cls.loc()
        g = p.guards()
        want = STEPPED | {'nonlinear'} if lab == 'all' else {lab} if isinstance(lab, str) else set(lab)
        sel = [t for k, t in terms.items() if labels.get(k) in want]
        got = summands(v)
        calls = []
        bad = ''
        for s in got:
            c = call_parts(s) if isinstance(s, Ex) and s.op == 'call' else None
            t = recv(c[0]) if c else None
            if t is None or not any(t is x for x in terms.values()):
                bad = 'contains %s' % show(s)
            else:
                calls.append((t, s))
        if not bad:
            for t in sel:
                k = sum(x is t for x, _ in calls)
                if k != 1:
                    bad = '%s occurs %d times' % (t.cls.name, k)
            for t, _ in calls:
                if not any(t is x for x in sel):
                    bad = '%s is labelled %s' % (t.cls.name, [labels.get(k) for k, x in terms.items() if x is t])
        ob('exactly the terms of the label', name, not bad, loc, bad)
        for t, s in calls:
            for ok, nm, msg in expected(fam, s, g):
                ob('argument of the terms', '%s: %s' % (name, nm), ok, t.cls.loc(), '%s: %s' % (t.cls.name, msg))
        if lab == 'all':
            for k in terms:
                ob('time integrators treat the label', '%s %s' % (con, terms[k].cls.name), labels.get(k) in STEPPED, loc,
                   'label %s is left out by the split schemes' % (labels.get(k),))
            kept = list(terms.values()) + [x for x in eq.attrs.values() if isinstance(x, Ob)]
            for m in made:
                ob('every term created is kept', '%s %s' % (con, m.cls.name), any(m is x for x in kept), loc,
                   '%s was replaced by another term with the same name' % m.cls.name)
    for k in [k for k in memo if len(k) == 2]:
        loc, msg = memo[k + ('m',)]
        ctx.ob(k[0], k[1], memo[k], loc, msg)
    ctx.count('guard partitions', n)


def recv(fn):
    if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method':
        return fn[1]
    if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Ob):
        return fn.args[0]
    return None


def term(o):
    return any(c.name == 'Term' for c in o.cls.mro()) if hasattr(o.cls, 'mro') else False
