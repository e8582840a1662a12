"""B01-B03: time integrators (see checks/steps_common.py for the extraction)."""
import ast
import math
from sa.core import prop
from sa.absint import show
from sa.repo import AnalysisError, ClassInfo
from sa.stepsim import LC, S
from .steps_common import integrators, simulate, scheme, trivial_groups, class_const

TECH = ('abstract interpretation of the integrator classes over a symbolic one-step algebra (states as linear combinations of '
        'the start state and of tendencies, coefficients as folded constants)')

# documented order of accuracy and stability of each scheme (docstrings and the cited papers)
ORDER = {
    'ForwardEuler': 1, 'ERKEuler': 1, 'BackwardEuler': 1, 'BackwardEulerUForm': 1, 'IMEXEuler': 1,
    'ImplicitMidpoint': 2, 'CrankNicolsonRK': 2, 'DIRK22': 2, 'DIRK22UForm': 2, 'DIRKLSPUM2': 2, 'DIRKLPUM2': 2,
    'ERKLSPUM2': 2, 'ERKLPUM2': 2, 'ERKMidpoint': 2, 'ESDIRKMidpoint': 2, 'ESDIRKTrapezoid': 2,
    'IMEXLPUM2': 2, 'IMEXLSPUM2': 2, 'IMEXMidpoint': 2, 'SSPRK22ALE': 2, 'CrankNicolson': 2,
    'DIRK23': 3, 'DIRK33': 3, 'DIRK33UForm': 3, 'DIRK43': 3, 'SSPRK33': 3,
}
# damping of infinitely stiff components, |R(oo)| = 0
LSTABLE = {'BackwardEuler', 'BackwardEulerUForm', 'DIRK22', 'DIRK22UForm', 'DIRK33', 'DIRK33UForm', 'DIRK43', 'DIRKLSPUM2', 'DIRKLPUM2'}
ASTABLE = LSTABLE | {'ImplicitMidpoint', 'CrankNicolsonRK', 'DIRK23', 'ESDIRKTrapezoid', 'CrankNicolson', 'ESDIRKMidpoint'}
# order every option name promises
SPECIAL = {'LeapFrogAM3', 'PressureProjectionPicard', 'SteadyState'}


# ------------------------------------------------------------ linear algebra
def numeric(q, theta=0.5):
    """S without dt as a float"""
    v = 0.0
    for mon, c in q.d.items():
        x = c
        for n, p in mon:
            if n != 'theta':
                raise AnalysisError('scheme coefficient depends on %s' % n)
            x *= theta**p
        v += x
    return v


class Tab:
    """numeric additive tableau: stages with a group, rows, weights"""
    def __init__(self, cls, sch, theta=0.5):
        used, ks, A, b, N = sch
        self.used = used
        self.grp = [ks[i].terms for i in used]
        self.A = [[numeric(A[i].get(j, S()), theta) for j in used] for i in used]
        self.b = [numeric(b.get(j, S()), theta) for j in used]
        self.groups = []
        for g in self.grp:
            if g not in self.groups:
                self.groups.append(g)
        self.n = len(used)

    def c(self, g):
        return [sum(self.A[i][j] for j in range(self.n) if self.grp[j] == g) for i in range(self.n)]

    def conditions(self, order):
        """[(name, value, expected)] of the (additive) order conditions"""
        out = []
        R = range(self.n)
        for s in self.groups:
            S_ = [i for i in R if self.grp[i] == s]
            out.append(('sum b %s' % (s,), sum(self.b[i] for i in S_), 1.0))
            if order >= 2:
                for t in self.groups:
                    c = self.c(t)
                    out.append(('sum b %s c %s' % (s, t), sum(self.b[i]*c[i] for i in S_), 0.5))
            if order >= 3:
                for t in self.groups:
                    for u in self.groups:
                        c, e = self.c(t), self.c(u)
                        out.append(('sum b c c %s %s %s' % (s, t, u), sum(self.b[i]*c[i]*e[i] for i in S_), 1/3))
                        T = [j for j in R if self.grp[j] == t]
                        out.append(('sum b a c %s %s %s' % (s, t, u),
                                    sum(self.b[i]*self.A[i][j]*e[j] for i in S_ for j in T), 1/6))
        return out

    def diag_explicit(self):
        """stages can be ordered so that A is strictly lower triangular"""
        left = set(range(self.n))
        while left:
            free = [i for i in left if all(abs(self.A[i][j]) < 1e-12 for j in left)]
            if not free:
                return False
            left -= set(free)
        return True

    def R(self, z):
        """stability function b^T (I - zA)^-1 1 z + 1 at complex z"""
        M = [[(1.0 if i == j else 0.0) - z*self.A[i][j] for j in range(self.n)] for i in range(self.n)]
        x = solve(M, [1.0 + 0j]*self.n)
        return 1 + z*sum(b*v for b, v in zip(self.b, x))

    def polys(self):
        """(P, Q): numerator det(I - zA + z 1 b^T) and denominator det(I - zA)"""
        n = self.n
        pts = [complex(math.cos(2*math.pi*k/(n+1)), math.sin(2*math.pi*k/(n+1))) for k in range(n+1)]

        def coef(f):
            v = [f(z) for z in pts]
            return [(sum(v[k]*pts[k]**(-m) for k in range(n+1))/(n+1)).real for m in range(n+1)]
        Q = coef(lambda z: det([[(1.0 if i == j else 0.0) - z*self.A[i][j] for j in range(n)] for i in range(n)]))
        P = coef(lambda z: det([[(1.0 if i == j else 0.0) - z*self.A[i][j] + z*self.b[j] for j in range(n)] for i in range(n)]))
        cl = lambda p: [0.0 if abs(x) < 1e-11 else x for x in p]
        return cl(P), cl(Q)


def det(M):
    M = [list(map(complex, r)) for r in M]
    d = 1 + 0j
    n = len(M)
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) < 1e-300:
            return 0j
        if p != c:
            M[p], M[c] = M[c], M[p]
            d = -d
        d *= M[c][c]
        for r in range(c+1, n):
            f = M[r][c]/M[c][c]
            for k in range(c, n):
                M[r][k] -= f*M[c][k]
    return d


def solve(M, rhs):
    n = len(M)
    M = [list(map(complex, r)) + [rhs[i]] for i, r in enumerate(M)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        M[p], M[c] = M[c], M[p]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]/M[c][c]
                for k in range(c, n+1):
                    M[r][k] -= f*M[c][k]
    return [M[i][n]/M[i][i] for i in range(n)]


def deg(p):
    d = len(p) - 1
    while d > 0 and p[d] == 0:
        d -= 1
    return d


def a_stable(tab):
    """(bool, reason): |R| <= 1 on the imaginary axis (E polynomial) and poles in the right half plane"""
    P, Q = tab.polys()

    def sq(p):
        # |p(iy)|^2 as polynomial in y^2
        n = len(p)
        re = {}
        for a in range(n):
            for b in range(n):
                # i^a * conj(i^b) = i^(a-b); odd differences cancel
                if (a - b) % 2:
                    continue
                re[(a+b)//2] = re.get((a+b)//2, 0.0) + p[a]*p[b]*(1 if (a-b) % 4 == 0 else -1)
        return re
    e = sq(Q)
    for k, v in sq(P).items():
        e[k] = e.get(k, 0.0) - v
    m = max(e) if e else 0
    co = [e.get(k, 0.0) for k in range(m+1)]
    scale = max([abs(x) for x in co] + [1e-3])
    co = [0.0 if abs(x) < 1e-8*max(scale, 1) else x for x in co]
    for k in range(-160, 400):
        x = 10**(k/40.0)
        v = sum(c*x**i for i, c in enumerate(co))
        if v < -1e-9*sum(abs(c)*x**i for i, c in enumerate(co)) - 1e-14:
            return False, '|R(iy)| > 1 at y = %.3g' % math.sqrt(x)
    # poles: diagonally implicit schemes have real poles 1/a_ii
    for i in range(tab.n):
        if tab.A[i][i] < -1e-12:
            return False, 'stage coefficient %g is negative (pole in the left half plane)' % tab.A[i][i]
    return True, ''


def r_inf(tab):
    P, Q = tab.polys()
    dp, dq = deg(P), deg(Q)
    if dp < dq:
        return 0.0
    if dp > dq:
        return math.inf
    return abs(P[dp]/Q[dq])


def ssp_disk(tab, r):
    """max |R| on the circle |z + r| = r"""
    m = 0.0
    for k in range(721):
        th = 2*math.pi*k/720
        m = max(m, abs(tab.R(complex(-r + r*math.cos(th), r*math.sin(th)))))
    return m


# ------------------------------------------------------------------- helpers
def paths(ctx, c):
    """non-trivial normal paths with their steps, or None (reported undecided)"""
    res = simulate(ctx.repo, c)
    if isinstance(res, AnalysisError):
        return None, str(res)
    ok = [(p, I, st) for p, I, st in res if st is not None and not trivial_groups(p)]
    if not ok:
        return None, 'no path of the step completes'
    return ok, None


def loc(c):
    return '%s:%d' % (c.module.relpath, c.node.lineno)


def fast(ctx):
    for c in integrators(ctx.repo):
        yield c


@prop('B01', 'the tableau extracted from each integrator fulfils the order, A-/L-stability and CFL conditions it documents', 20, TECH)
def b01(ctx):
    done = {}
    for c in fast(ctx):
        if c.name in SPECIAL:
            continue
        ps, err = paths(ctx, c)
        if ps is None:
            ctx.ob('scheme extracted', c.name, None, loc(c), err, c.qualname)
            continue
        seen = set()
        for p, I, st in ps:
            sch = scheme(st[0])
            if isinstance(sch, str):
                ctx.ob('scheme extracted', c.name, False, loc(c), sch, c.qualname)
                continue
            try:
                tab = Tab(c, sch)
            except AnalysisError as e:
                ctx.ob('scheme extracted', c.name, None, loc(c), str(e), c.qualname)
                continue
            sig = (tuple(map(str, tab.grp)), tuple(tuple(round(x, 11) for x in r) for r in tab.A), tuple(round(x, 11) for x in tab.b))
            if sig in seen:
                continue
            seen.add(sig)
            done.setdefault(c.qualname, tab)
            order = ORDER.get(c.name, 1)
            for nm, v, e in tab.conditions(order):
                ctx.ob('order %d' % order, '%s: %s' % (c.name, nm), abs(v - e) < 2e-8, loc(c),
                       'the order condition "%s" of the effective scheme is %.12g instead of %.12g: %s' % (nm, v, e, describe(tab)), c.qualname)
            if len(tab.groups) > 1:
                continue
            cfl = class_const(ctx.repo, c, 'cfl_coeff')
            impl = not tab.diag_explicit()
            if impl and (c.name in ASTABLE or cfl == math.inf):
                okA, why = a_stable(tab)
                if c.name in ASTABLE:
                    ctx.ob('A-stable', c.name, okA, loc(c), why + ': ' + describe(tab), c.qualname)
                if cfl == math.inf:
                    ctx.ob('declared unconditionally stable', c.name, okA, loc(c),
                           'cfl_coeff declares unconditional stability but ' + why + ': ' + describe(tab), c.qualname)
            if not impl and cfl is not None and not isinstance(cfl, (int, float)):
                ctx.ob('CFL number', c.name, None, loc(c), 'cfl_coeff is %s' % show(cfl), c.qualname)
            elif not impl and cfl is not None:
                if cfl == math.inf:
                    ctx.ob('declared unconditionally stable', c.name, False, loc(c), 'an explicit scheme cannot be unconditionally stable', c.qualname)
                else:
                    m = ssp_disk(tab, float(cfl))
                    ctx.ob('CFL number', c.name, m <= 1 + 1e-6, loc(c),
                           'with cfl_coeff = %g the amplification factor reaches %.6g inside the disk of a forward Euler stable operator' % (cfl, m), c.qualname)
            if c.name in LSTABLE:
                r = r_inf(tab)
                ctx.ob('L-stable', c.name, r < 1e-6, loc(c), '|R(infinity)| = %.3g: %s' % (r, describe(tab)), c.qualname)
    for c in fast(ctx):
        if c.name == 'CrankNicolson':
            ps, err = paths(ctx, c)
            for p, I, st in (ps or []):
                sch = scheme(st[0])
                if isinstance(sch, str):
                    continue
                for th in (0.5, 0.6, 0.75, 1.0):
                    tab = Tab(c, sch, th)
                    okA, why = a_stable(tab)
                    ctx.ob('theta scheme stable', 'CrankNicolson theta=%g' % th, okA, loc(c), why, c.qualname)
    mapping(ctx, done)
    bad = Tab.__new__(Tab)
    bad.n, bad.grp, bad.groups = 2, ['all']*2, ['all']
    bad.A, bad.b = [[0.0, 0.0], [1.0, 0.0]], [0.4, 0.6]
    ctx.selftest('order 2', any(abs(v - e) > 1e-8 for _, v, e in bad.conditions(2)))
    bad.A, bad.b = [[0.0, 0.0], [0.6, 0.4]], [0.6, 0.4]
    ctx.selftest('A-stable', not a_stable(bad)[0])
    bad.A, bad.b = [[0.0, 0.0], [0.5, 0.0]], [0.0, 1.0]
    ctx.selftest('CFL number', ssp_disk(bad, 1.5) > 1.001)


def describe(tab):
    return 'A = %s, b = %s' % ([[round(x, 8) for x in r] for r in tab.A], [round(x, 8) for x in tab.b])


def mapping(ctx, done):
    """option name -> class tables of the solvers: the class implements the named scheme"""
    for m in ctx.repo.modules.values():
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Dict) or len(node.keys) < 2:
                continue
            ents = []
            for k, v in zip(node.keys, node.values):
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    ci = None
                    try:
                        ci = m.resolve(ast.unparse(v)) if isinstance(v, (ast.Attribute, ast.Name)) else None
                    except Exception:
                        ci = None
                    if isinstance(ci, ClassInfo):
                        ents.append((k.value, ci, k.lineno))
            if not ents or not all(c.qualname in done or c.name in SPECIAL for _, c, _ in ents):
                continue
            for name, c, line in ents:
                where = '%s:%d' % (m.relpath, line)
                if name in ('LeapFrog',):
                    name = 'LeapFrogAM3'
                ref = [q for q in done if q.split('.')[-1] == name]
                if name in SPECIAL or c.name in SPECIAL:
                    ctx.ob('option name', '%s -> %s' % (name, c.name), name == c.name, where,
                           'the option %r selects %s' % (name, c.name))
                    continue
                if name == 'SSPIMEX':
                    t = done[c.qualname]
                    good = len(t.groups) == 2 and all(abs(v - e) < 2e-8 for _, v, e in t.conditions(2))
                    ctx.ob('option name', '%s -> %s' % (name, c.name), good, where, 'the option SSPIMEX selects %s which is no 2nd order IMEX scheme' % c.name)
                    continue
                if not ref:
                    ctx.ob('option name', '%s -> %s' % (name, c.name), None, where, 'no scheme of that name')
                    continue
                t, r = done[c.qualname], done[ref[0]]
                same = t.grp == r.grp and close2(t.A, r.A) and close2([t.b], [r.b])
                ctx.ob('option name', '%s -> %s' % (name, c.name), same, where,
                       'the option %r selects %s, whose tableau (%s) is not the one of %s (%s)' % (name, c.name, describe(t), name, describe(r)))


def close2(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(p - q) < 1e-9 for p, q in zip(x, y)) for x, y in zip(a, b))


# ----------------------------------------------------------------------- B02
def declared(ctx, c):
    """[(group test, a, b)] declared by the class, or None"""
    e, d = class_classref(c, 'erk_class'), class_classref(c, 'dirk_class')
    if e is not None and d is not None:
        x, y = declared(ctx, e), declared(ctx, d)
        if x is None or y is None:
            return None
        return dict(expl=x['all'], impl=y['all'])
    a, b = class_const(ctx.repo, c, 'a'), class_const(ctx.repo, c, 'b')
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return dict(all=([[float(x) for x in r] for r in a], [float(x) for x in b]))
    return None


def class_classref(c, name):
    for k in c.mro():
        if isinstance(k, ClassInfo) and name in k.attrs:
            v = k.attrs[name]
            v = getattr(v, 'value', v)
            try:
                r = k.module.resolve(ast.unparse(v))
            except Exception:
                return None
            return r if isinstance(r, ClassInfo) else None
    return None


def label_kind(terms):
    if terms == 'all':
        return 'all'
    t = set([terms] if isinstance(terms, str) else terms)
    if t == {'implicit'}:
        return 'impl'
    if t == {'explicit', 'source'}:
        return 'expl'
    return None


def reach(a, b):
    n = len(b)
    live = {i for i in range(n) if abs(b[i]) > 1e-12}
    while True:
        more = {j for i in live for j in range(n) if abs(a[i][j]) > 1e-12} - live
        if not more:
            return sorted(live)
        live |= more


@prop('B02', 'each step, in every scenario (first step, state changed from outside, new time step), equals the declared scheme applied to the current state', 40, TECH)
def b02(ctx):
    for c in fast(ctx):
        if c.name in SPECIAL:
            continue
        ps, err = paths(ctx, c)
        if ps is None:
            ctx.ob('scheme extracted', c.name, None, loc(c), err, c.qualname)
            continue
        dec = declared(ctx, c)
        done = set()
        for p, I, st in ps:
            base = None
            for s in st:
                name = '%s: %s' % (c.name, s.label)
                sch = scheme(s)
                if isinstance(sch, str):
                    once(ctx, done, 'step of the current state', name, False, loc(c), sch, c.qualname)
                    continue
                once(ctx, done, 'step of the current state', name, True, loc(c), '', c.qualname)
                used, ks, A, b, N = sch
                for i in used:
                    k = ks[i]
                    kind = label_kind(k.terms)
                    if kind is None:
                        once(ctx, done, 'every term once', '%s: %s' % (name, k.terms), False, k.loc,
                             'the tendency of the terms %s is used; the schemes use all terms, or implicit and explicit+source terms' % (k.terms,), c.qualname)
                    # linearisation state
                    nl, own = N[i], A[i]
                    implicit = not own.get(i, S()).zero()
                    good = same_row(nl, own)
                    if not good and implicit:
                        good = not nl or any(same_row(nl, A[j]) for j in used) or partial(nl, own, i) or \
                            same_row(nl, {j: v for j, v in own.items() if ks[j].terms != k.terms})
                    once(ctx, done, 'linearisation state', '%s stage %d' % (name, used.index(i)), good, k.loc,
                         'the tendency of stage %d is evaluated at start + %s but linearised about start + %s' % (used.index(i), own, nl), c.qualname)
                kinds = {label_kind(ks[i].terms) for i in used}
                once(ctx, done, 'every term once', name, kinds in ({'all'}, {'impl', 'expl'}), loc(c),
                     'the step uses the tendencies of %s' % sorted(map(str, kinds)), c.qualname)
                try:
                    tab = Tab(c, sch)
                except AnalysisError as e:
                    once(ctx, done, 'declared tableau', name, None, loc(c), str(e), c.qualname)
                    continue
                if base is None:
                    base = tab
                elif tab.grp != base.grp or not close2(tab.A, base.A) or not close2([tab.b], [base.b]):
                    once(ctx, done, 'same scheme in every step', name, False, loc(c),
                         'this step is %s, the first step is %s' % (describe(tab), describe(base)), c.qualname)
                else:
                    once(ctx, done, 'same scheme in every step', name, True, loc(c), '', c.qualname)
                if dec is None:
                    continue
                compare_declared(ctx, done, c, name, tab, dec)
    specials(ctx)
    ctx.selftest('tableau', reach([[0, 0], [1, 0]], [0, 1]) == [0, 1])


def once(ctx, done, rule, construct, verdict, *a):
    k = (rule, construct, verdict)
    if k not in done:
        done.add(k)
        ctx.ob(rule, construct, verdict, *a)


def same_row(a, b):
    return all(a.get(k, S()).close(b.get(k, S())) for k in set(a) | set(b))


def partial(nl, own, i):
    """start + part of the stage sum (without the stage's own tendency)"""
    return same_row(nl, {k: v for k, v in own.items() if k != i})


def compare_declared(ctx, done, c, name, tab, dec):
    for kind, (a, b) in dec.items():
        live = reach(a, b)
        mine = [i for i in range(tab.n) if kind == 'all' or label_kind(tab.grp[i]) == kind]
        if kind == 'all':
            A = [[tab.A[i][j] for j in mine] for i in mine]
        else:
            A = [[tab.A[i][j] for j in mine] for i in mine]
        B = [tab.b[i] for i in mine]
        wa, wb = [[a[i][j] for j in live] for i in live], [b[i] for i in live]
        if kind != 'all' and len(mine) != len(live):
            # a stage value with no weight in its own group may serve the other group only
            keep = [i for i in range(len(mine)) if abs(B[i]) > 1e-12 or any(abs(A[j][i]) > 1e-12 for j in range(len(mine)))]
            A, B = [[A[i][j] for j in keep] for i in keep], [B[i] for i in keep]
        once(ctx, done, 'declared tableau', '%s (%s)' % (name, kind), close2(A, wa) and close2([B], [wb]), loc(c),
             'the step performed is A = %s, b = %s; the class declares a = %s, b = %s' % (rnd(A), rnd([B])[0], rnd(wa), rnd([wb])[0]), c.qualname)


def rnd(A):
    return [[round(x, 8) for x in r] for r in A]


def mixnorm(lc):
    """normal form in the two blocks of a mixed space"""
    out = LC()
    for a, s in lc.d.items():
        for b in expand(a):
            out = out + LC({b: s})
    return out


def expand(a):
    if a[0] == 'c':
        i, x = a[1], a[2]
        if x[0] == 'c':
            return [x] if x[1] == i else []
        if x[0] == 'blk':
            return [('b0', x[2])] if i == x[1] else []
        return [a]
    if a[0] == 'blk':
        return [('b%d' % a[1], a[2])]
    if a[0] == 'K' or a[0] in ('1', 'sym'):
        return [('c', 0, a), ('c', 1, a)]
    if a[0] in ('u0', 'v0', 'w0'):
        return [('c', 0, a), ('c', 1, a)]
    return [a]


def specials(ctx):
    for c in fast(ctx):
        if c.name == 'SteadyState':
            steady(ctx, c)
        elif c.name == 'PressureProjectionPicard':
            picard(ctx, c)
        elif c.name == 'LeapFrogAM3':
            leapfrog(ctx, c)


def steady(ctx, c):
    ps, err = paths(ctx, c)
    if ps is None:
        ctx.ob('steady state', c.name, None, loc(c), err, c.qualname)
        return
    for p, I, st in ps:
        for s in st:
            fin = list(s.final.d)
            if len(fin) != 1 or fin[0][0] != 'steady' or not s.steady:
                ctx.ob('steady state', '%s: %s' % (c.name, s.label), False, loc(c), 'the new solution is %r, not the root of the residual' % s.final, c.qualname)
                continue
            F, ks, X = s.steady[-1]
            good = len(ks) == 1 and ks[0].terms == 'all' and len(F.d) == 1 and list(F.d) == [('K', ks[0].idx)] \
                and ks[0].u.close(LC({X: S.num(1)})) and ks[0].unl.close(LC({X: S.num(1)}))
            ctx.ob('steady state', '%s: %s' % (c.name, s.label), good, loc(c), 'the equation solved is %r = 0 with tendencies %s' % (F, ks), c.qualname)


def picard(ctx, c):
    ps, err = paths(ctx, c)
    if ps is None:
        ctx.ob('Picard step', c.name, None, loc(c), err, c.qualname)
        return
    th = S.sym('theta')
    for p, I, st in ps:
        for s in st:
            name = '%s: %s' % (c.name, s.label)
            dt = S.sym(s.dt)
            ks = {k.idx: k for k in s.ks}
            fin = mixnorm(s.final)
            want0 = mixnorm(s.start)
            groups = {}
            other = LC()
            for a, v in s.final.d.items():
                b = a[2] if a[0] == 'blk' else a
                if b[0] == 'K' and b[1] in ks:
                    groups.setdefault((ks[b[1]].op, ks[b[1]].terms), []).append((b[1], v, a))
                else:
                    other = other + LC({a: v})
            ctx.ob('step of the current state', name, mixnorm(other).close(want0), loc(c),
                   'the new solution is built on %r instead of the state at the start of the step' % other, c.qualname)
            tot = {}
            for g, ents in groups.items():
                w = S()
                for _, v, _ in ents:
                    w = w + v
                tot[g] = w
            expect = {('eq_mom', 'all'): 1.0, ('eq', 'implicit'): 1.0}
            for g, w in tot.items():
                e = expect.get(g, -1.0 if g[0] == 'term' else None)
                ctx.ob('consistent weights', '%s: %s' % (name, g), e is not None and w.close(dt*S.num(e)), loc(c),
                       'the tendency %s enters with total weight %r (time step %s)' % (g, w, s.dt), c.qualname)
            for g in expect:
                if g not in tot:
                    ctx.ob('consistent weights', '%s: %s' % (name, g), False, loc(c), 'the tendency %s does not enter the step' % (g,), c.qualname)
            ctx.ob('split terms', name, sorted(g[1] for g in tot if g[0] == 'term') == ['G2'], loc(c),
                   'the terms subtracted again are %s; the only momentum term of the implicit group is G' % [g[1] for g in tot if g[0] == 'term'], c.qualname)
            # the term subtracted must cancel the one inside the momentum tendency
            terms = [(i, v) for g, e in groups.items() if g[0] == 'term' for i, v, _ in e]
            for i, v, a in groups.get(('eq_mom', 'all'), []):
                m = ks[i]
                hit = [j for j, w in terms if w.close(-v) and ks[j].u.close(m.u) and ks[j].unl.close(m.unl) and
                       samef(ks[j].fields, m.fields) and samef(ks[j].fields_old, m.fields_old)]
                ctx.ob('splitting cancels', '%s: momentum tendency %d' % (name, list(ks).index(i)), len(hit) == 1, m.loc,
                       'the implicit term contained in the momentum tendency (weight %r, evaluated at %r, %r) is not subtracted at the same '
                       'state with the same weight: %s' % (v, m.u, m.fields, [(w, ks[j].u, ks[j].fields) for j, w in terms]), c.qualname)
            old = [i for i, v, a in groups.get(('eq', 'implicit'), []) if mixnorm(ks[i].u).close(want0)]
            new = [i for i, v, a in groups.get(('eq', 'implicit'), []) if mixnorm(ks[i].u).close(fin)]
            ok = len(old) == 1 and len(new) == 1 and s.final.coef(('K', new[0])).close(dt*th)
            ctx.ob('theta form', '%s: wave terms' % name, ok, loc(c), 'the implicit terms are not theta at the new plus 1-theta at the old state: %r' % s.final, c.qualname)
            mom = groups.get(('eq_mom', 'all'), [])
            mo = [i for i, v, a in mom if v.close(dt*(S.num(1) - th)) and mixnorm(ks[i].u).close(block(want0, 0)) and
                  mixnorm(ks[i].fields['eta']).close(block(want0, 1))]
            mn = [i for i, v, a in mom if v.close(dt*th)]
            ctx.ob('theta form', '%s: momentum terms' % name, len(mo) == 1 and len(mn) == 1, loc(c),
                   'the momentum tendencies are not theta at the new plus 1-theta at the old state: %r' % s.final, c.qualname)


def block(lc, i):
    return LC({a: v for a, v in lc.d.items() if a[0] == 'c' and a[1] == i or a[0] == 'b%d' % i})


def samef(a, b):
    return set(a) == set(b) and all(a[k].close(b[k]) for k in a)


def leapfrog(ctx, c):
    ps, err = paths(ctx, c)
    if ps is None:
        ctx.ob('leap-frog step', c.name, None, loc(c), err, c.qualname)
        return
    g = 1/12
    for p, I, st in ps:
        prev = None
        for s in st:
            name = '%s: %s' % (c.name, s.label)
            ks = {k.idx: k for k in s.ks}
            dt = S.sym(s.dt)
            start = s.start
            kk = [a[1] for a in s.final.d if a[0] == 'K' and a[1] in ks]
            ok = len(kk) == 1 and s.final.close(start + LC({('K', kk[0]): dt}))
            ctx.ob('leap-frog correction', name, ok, loc(c), 'the new solution is %r instead of start + dt*L(half step)' % s.final, c.qualname)
            if not ok:
                continue
            half = ks[kk[0]]
            ctx.ob('every term once', name, half.terms == 'all' and half.u.close(half.unl), half.loc, 'tendency of %s linearised about %r' % (half.terms, half.unl), c.qualname)
            old = prev if prev is not None else start
            pred = [i for i in ks if i != kk[0]]
            ok = len(pred) == 1 and ks[pred[0]].u.close(start) and half.u.close(
                start.times(S.num(.5 + 2*g)) + old.times(S.num(.5 - 2*g)) + LC({('K', pred[0]): dt*S.num(1 - 2*g)}))
            ctx.ob('leap-frog prediction', name, ok, half.loc,
                   'the half step state is %r instead of (1/2-2g) T_old + (1/2+2g) T + (1-2g) dt L(T), g = 1/12' % half.u, c.qualname)
            prev = start


# ----------------------------------------------------------------------- B03
@prop('B03', 'the forcing seen by every tendency is the one at its own stage time t + c dt', 20, TECH)
def b03(ctx):
    for c in fast(ctx):
        ps, err = paths(ctx, c)
        if ps is None:
            ctx.ob('scheme extracted', c.name, None, loc(c), err, c.qualname)
            continue
        done = set()
        for p, I, st in ps:
            for s in st:
                name = '%s: %s' % (c.name, s.label)
                if c.name in SPECIAL:
                    special_forcing(ctx, done, c, s, name)
                    continue
                sch = scheme(s)
                if isinstance(sch, str):
                    once(ctx, done, 'stage forcing', name, None, loc(c), sch, c.qualname)
                    continue
                used, ks, A, b, N = sch
                for i in used:
                    k = ks[i]
                    row = S()
                    for j, v in A[i].items():
                        if ks[j].terms == k.terms:
                            row = row + v
                    if c.name == 'SSPRK22ALE':
                        pass
                    t = s.t + LC.scal(row*S.sym(s.dt))
                    at_time(ctx, done, c, s, k, t, row, '%s stage %d (%s)' % (name, used.index(i), k.terms))
    ctx.selftest('stage forcing', not forced_at(LC.atom('forcing', LC.atom('sym', 't0').k()), LC.atom('sym', 't0') + LC.scal(S.sym('dt'))))


def forced_at(v, t):
    return v is not None and v.close(LC.atom('forcing', t.k()))


def at_time(ctx, done, c, s, k, t, row, construct):
    for nm, fields in (('fields', k.fields), ('fields_old', k.fields_old)):
        v = fields.get('f')
        ok = forced_at(v, t) or (row.zero() and v is not None and v.close(s.fb))
        if not ok and nm == 'fields_old':
            # semi-implicit linearisation may use the fields at the start
            ok = v is not None and (v.close(s.fb) or forced_at(v, s.t))
        once(ctx, done, 'stage forcing', '%s, %s' % (construct, nm), ok, k.loc,
             'this tendency belongs to time %r but uses the forcing %s' % (t, v), c.qualname)
        w = fields.get('c')
        once(ctx, done, 'constant fields', '%s, %s' % (construct, nm), w is not None and w.close(LC.atom('c0')), k.loc, 'the constant field became %r' % w, c.qualname)


def special_forcing(ctx, done, c, s, name):
    new = s.t + LC.scal(S.sym(s.dt))
    for n, k in enumerate(s.ks):
        for nm, fields in (('fields', k.fields), ('fields_old', k.fields_old)):
            v = fields.get('f')
            if c.name == 'PressureProjectionPicard':
                old = k.u.close(s.start) or mixnorm(k.u).close(block(mixnorm(s.start), 0))
                ok = (v is not None and v.close(s.fb)) if old else forced_at(v, new)
            else:
                ok = forced_at(v, new)
            once(ctx, done, 'stage forcing', '%s, tendency %d, %s' % (name, n, nm), ok, k.loc, 'this tendency uses the forcing %s' % v, c.qualname)
