"""D01: turbulence closure updates."""
import itertools
from fractions import Fraction
from sa.core import prop
from sa.absint import Sy, Ex, Ob, Ext, Fv, Cv, Interp, show, explore, is_num, RaiseSig
from sa.repo import AnalysisError
from sa.poly import Poly, make_fn, show_poly
from sa.forms import T, fatom
from sa.pw import PW, sym, same, pmax, pmin
from sa.formdb import repo as get_repo

TECH = ('abstract execution of the pointwise array code with one symbolic node (views, masks and in-place operations tracked); '
        'the resulting canonical expressions are compared with the documented closure')

half = Fraction(1, 2)
FLAGS = ('limit_psi', 'limit_eps', 'limit_len', 'limit_len_min')
COMPUTE = ('compute_cmu0', 'compute_kappa', 'compute_schmidt_nb_psi', 'compute_c3_minus', 'compute_psi_min', 'compute_len_min',
           'compute_galperin_clim')
CLOSURES = {'k-epsilon': (3, Fraction(3, 2), -1), 'k-omega': (-1, half, -1), 'gen': (2, 1, Fraction(-2, 3)), 'n>0': (0, 1, 1), '0<n<1': (0, 1, half)}


class Pol(PW):
    concrete = ('GenericLengthScaleModel', 'ShearFrequencySolver', 'BuoyFrequencySolver', 'PacanowskiPhilanderModel')

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.meta.get('stub') and 'Options' in base.clsname:
            if name in base.attrs:
                return base.attrs[name]
            if name in self.pins:
                return self.pins[name]
            m = base.cls.find_method(name) if hasattr(base.cls, 'find_method') else None
            if m is None:
                return Sy(name)
        return super().attr(it, base, name, node)

    def setattr(self, it, base, name, value, node):
        if isinstance(base, Ob) and base.meta.get('stub') and 'Options' in base.clsname:
            base.attrs[name] = value
            it.event('option', name, [base, value], {}, node)
            return None
        return NotImplemented

    def shapes(self):
        return {}

    def stubcall(self, it, o, name, args, kwargs, node):
        if o.clsname == 'VerticalGradSolver' and name == 'solve':
            a = o.meta['args']
            self.put(it, a['solution'], make_fn('Dz', [self.scalar(it, a['source'])]), node)
            it.event('do', name, [o], {}, node)
            return None
        if 'StabilityFunction' in o.clsname and name not in ('description', 'name'):
            m = o.cls.find_method(name)
            from sa.sysim import bind_method
            b = bind_method(m, args, kwargs) if m else {}
            ps = []
            for k in sorted(b):
                v = b[k]
                if isinstance(v, tuple) and v and v[0] == 'default':
                    continue
                ps.append((k, self.scalar(it, v)))
            it.event('do', name, [o] + list(args), kwargs, node)
            mk = lambda nm: self.arr(it, make_fn(nm + ':' + ','.join(k for k, _ in ps), [p for _, p in ps]))
            if name in ('evaluate', 'eval_funcs'):
                return (mk('S_m'), mk('S_h'))
            return mk(name)
        return super().stubcall(it, o, name, args, kwargs, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], (Sy, Ex)) and fn.args[1] == 'assign' and \
                'von_karman' in show(fn.args[0]):
            it.event('physconst', show(fn.args[0]), list(args), {}, node)
            return None
        return super().call(it, fn, args, kwargs, node)


def opts(it, pol, name='GLSModelOptions'):
    o = it.obj(get_repo().cls('options', name), 'options')
    o.meta['stub'] = True
    return o


def gls(it, rho=True, **kw):
    pol = it.policy
    r = get_repo()
    f = lambda n, shape=(): pol.function(it, n, None, shape)
    solver = Sy('solver')
    a = dict(solver=solver, k_field=f('k'), psi_field=f('psi'), uv_field=f('uv', (3,)), rho_field=f('rho') if rho else None, l_field=f('l'),
             epsilon_field=f('epsilon'), eddy_diffusivity=f('mu_t'), eddy_viscosity=f('nu_t'), n2=f('N2'), m2=f('M2'))
    o = opts(it, pol)
    S = it.call(Cv(r.cls('turbulence', 'GenericLengthScaleModel')), [], dict(a, options=o))
    return S, a, o


def stab(name, **kw):
    ks = sorted(kw)
    return make_fn(name + ':' + ','.join(ks), [kw[k] for k in ks])


def reset(it, fs):
    for n, f in fs.items():
        if isinstance(f, Ob) and f.meta.get('fn'):
            f.meta['c'] = T(f.meta['shape'], {i: Poly.atom(fatom(f.name, i)) for i in itertools.product(*[range(x) for x in f.meta['shape']])})


def val(f):
    return f.meta['c'].s()


def reference(cl, fl, k, psi, n2p, n2, m2):
    """documented diagnostic state after an update"""
    p, m, n = CLOSURES[cl]
    cm, kmin, psimin, epsmin, lmin, clim = [sym(x) for x in ('cmu0', 'k_min', 'psi_min', 'eps_min', 'len_min', 'galperin_clim')]
    tiny = Poly.const(Fraction(1, 10**12))
    k = pmax(k, kmin)
    if fl['limit_psi']:
        # psi^(1/n) = cmu0^(p/n) k^(m/n) l  with  l <= clim sqrt(2 k / N2)
        lim = (cm.pow(Fraction(p, n) if isinstance(p, int) and isinstance(n, int) else Fraction(p) / n) * k.pow(Fraction(m) / n)
               * clim * (Poly.const(2) * k).pow(half) * (n2p + tiny).pow(-half)).pow(n)
        psi = pmin(psi, lim) if n > 0 else pmax(psi, lim)
    psi = pmax(psi, psimin)
    eps = cm.pow(3 + Fraction(p) / n) * k.pow(Fraction(3, 2) + Fraction(m) / n) * psi.pow(Fraction(-1) / n)
    if fl['limit_eps']:
        eps = pmax(eps, cm.pow(3) * k * n2p.pow(half) / (clim * Poly.const(2).pow(half)))
    eps = pmax(eps, epsmin)
    l = cm.pow(3) * k.pow(Fraction(3, 2)) / eps
    if fl['limit_len_min']:
        l = pmax(l, lmin)
    if fl['limit_len']:
        l = pmin(l, clim * (Poly.const(2) * k / (n2p + tiny)).pow(half))
    sm, sh = [stab(x, shear2=m2, buoy2=n2, k=k, eps=eps) for x in ('S_m', 'S_h')]
    nu = pmax(k.pow(half) * l * sm / cm.pow(3), sym('visc_min'))
    mu = pmax(k.pow(half) * l * sh / cm.pow(3), sym('diff_min'))
    return dict(k_field=k, psi_field=psi, epsilon_field=eps, l_field=l, eddy_viscosity=nu, eddy_diffusivity=mu)


def run_one(pins, body):
    r = get_repo()
    ps = list(explore(r, lambda: Pol(pins), body, 16))
    return ps


def basepins(cl, comp=False, **fl):
    p, m, n = CLOSURES[cl]
    d = dict(p=p, m=m, n=n, stability_function_name='Canuto A')
    d.update({c: comp for c in COMPUTE})
    d.update({f: False for f in FLAGS})
    d.update(fl)
    return d


def post(ctx):
    r = get_repo()
    meth = r.cls('turbulence', 'GenericLengthScaleModel').find_method('postprocess')
    for cl in CLOSURES:
        for bits in itertools.product((False, True), repeat=4):
            fl = dict(zip(FLAGS, bits))

            def body(it):
                S, a, o = gls(it)
                S.attrs['_initialized'] = True
                reset(it, a)
                for n in ('n2_pos', 'n2_neg'):
                    reset(it, {n: S.attrs[n]})
                it.user['n2p'] = val(S.attrs['n2_pos'])
                it.call(it.getattr(S, 'postprocess'), [], {})
                return S, a
            for p in run_one(basepins(cl, **fl), body):
                con = 'update of the closure %s with %s' % (cl, ', '.join(f for f in FLAGS if fl[f]) or 'no limits')
                if p.outcome != 'return':
                    ctx.ob('closure update', con, False, meth.loc(), 'raises %s when %s' % (getattr(p.value, 'exc', p.outcome), p.guards()))
                    continue
                S, a = p.value
                ref = reference(cl, fl, sym('k'), sym('psi'), p.it.user['n2p'], sym('N2'), sym('M2'))
                for n, e in ref.items():
                    got = val(a[n])
                    ctx.ob('closure update', '%s: %s' % (con, n.replace('_field', '')), same(got, e), meth.loc(),
                           'is %s instead of %s' % (show_poly(got), show_poly(e)), func=meth.qualname)
                for n in ('n2', 'm2', 'rho_field', 'uv_field'):
                    u = a[n].meta['c'].c
                    ctx.ob('closure update', '%s leaves %s unchanged' % (con, n), all(x.equals(Poly.atom(fatom(a[n].name, i))) for i, x in u.items()),
                           meth.loc(), 'changed')


def dz(p):
    return make_fn('Dz', [p])


def npos(n2):
    """positive and negative part of N2 (floor of the positive part: 1e-12)"""
    q = make_fn('pos', [n2])
    tiny = Poly.const(Fraction(1, 10**12))
    return q * n2 + (1 - q) * tiny, (1 - q) * n2


def pre(ctx):
    r = get_repo()
    for cn, pinned in (('GenericLengthScaleModel', True), ('PacanowskiPhilanderModel', False)):
        meth = r.cls('turbulence', cn).find_method('preprocess')
        for rho, init in itertools.product((True, False), repeat=2):
            def body(it):
                S, a, o = (gls if cn.startswith('Gen') else pp)(it, rho)
                S.attrs['_initialized'] = True
                reset(it, a)
                for n in ('n2_pos', 'n2_neg', 'mu', 'mv', 'mu_tmp', 'n2_tmp'):
                    if n in S.attrs:
                        reset(it, {n: S.attrs[n]})
                it.user['old'] = {n: val(S.attrs[n]) for n in ('n2_pos', 'n2_neg') if n in S.attrs}
                it.call(it.getattr(S, 'preprocess'), [], {'init_solve': init})
                return S, a
            for p in run_one(basepins('k-epsilon'), body):
                con = '%s.preprocess(init_solve=%s) %s density' % (cn, init, 'with' if rho else 'without')
                if p.outcome != 'return':
                    ctx.ob('frequencies', con, False, meth.loc(), 'raises %s when %s' % (getattr(p.value, 'exc', p.outcome), p.guards()))
                    continue
                S, a = p.value
                u, v = [Poly.atom(fatom('uv', (i,))) for i in range(2)]
                m2 = pmax(dz(u) * dz(u) + dz(v) * dz(v), Poly.const(Fraction(1, 10**12)))
                n2 = dz(-sym('g_grav') / sym('rho0') * sym('rho')) if rho else sym('N2')
                want = {'M2': (val(a['m2']), m2), 'N2': (val(a['n2']), n2)}
                if rho:
                    ref = npos(n2)
                    want['N2+'] = (val(S.attrs['n2_pos']), ref[0])
                    if 'n2_neg' in S.attrs:
                        want['N2-'] = (val(S.attrs['n2_neg']), ref[1])
                else:
                    for n, x in p.it.user['old'].items():
                        want[n] = (val(S.attrs[n]), x)
                for n, (got, e) in want.items():
                    ctx.ob('frequencies', '%s: %s' % (con, n), same(got, e), meth.loc(),
                           'is %s instead of %s' % (show_poly(got), show_poly(e)), func=meth.qualname)
                for n in ('k_field', 'psi_field', 'rho_field'):
                    if isinstance(a.get(n), Ob):
                        ctx.ob('frequencies', '%s leaves %s unchanged' % (con, n), val(a[n]).equals(sym(a[n].name)), meth.loc(), 'changed')


def pp(it, rho=True):
    pol = it.policy
    f = lambda n, shape=(): pol.function(it, n, None, shape)
    a = dict(solver=Sy('solver'), uv_field=f('uv', (3,)), rho_field=f('rho') if rho else None, eddy_diffusivity=f('mu_t'),
             eddy_viscosity=f('nu_t'), n2=f('N2'), m2=f('M2'))
    o = opts(it, pol, 'PacanowskiPhilanderModelOptions')
    S = it.call(Cv(get_repo().cls('turbulence', 'PacanowskiPhilanderModel')), [], dict(a, options=o))
    return S, a, o


def pacanowski(ctx):
    meth = get_repo().cls('turbulence', 'PacanowskiPhilanderModel').find_method('postprocess')
    for expo in (1, 2, 3):
        def body(it):
            S, a, o = pp(it)
            reset(it, a)
            reset(it, {'n2_pos': S.attrs['n2_pos']})
            it.user['n2p'] = val(S.attrs['n2_pos'])
            it.call(it.getattr(S, 'postprocess'), [], {})
            return S, a
        for p in run_one(dict(exponent=expo), body):
            con = 'Pacanowski-Philander update, exponent %d' % expo
            if p.outcome != 'return':
                ctx.ob('closure update', con, False, meth.loc(), 'raises %s when %s' % (getattr(p.value, 'exc', p.outcome), p.guards()))
                continue
            S, a = p.value
            den = 1 + sym('alpha') * p.it.user['n2p'] / sym('M2')
            nu = sym('max_viscosity') / den.pow(expo)
            for n, e in (('eddy_viscosity', nu), ('eddy_diffusivity', nu / den)):
                got = val(a[n])
                ctx.ob('closure update', '%s: %s' % (con, n), same(got, e), meth.loc(),
                       'is %s instead of %s' % (show_poly(got), show_poly(e)), func=meth.qualname)


def initial(ctx):
    r = get_repo()
    cls = r.cls('turbulence', 'GenericLengthScaleModel')
    meth = cls.find_method('__init__')
    names = ('cmu0', 'kappa', 'schmidt_nb_psi', 'c3_minus', 'psi_min', 'len_min', 'galperin_clim')
    for cl in CLOSURES:
        pn, mn, nn = CLOSURES[cl]
        for on in [()] + [(c,) for c in COMPUTE] + [COMPUTE]:
            pins = basepins(cl)
            pins.update({c: True for c in on})

            def body(it):
                S, a, o = gls(it)
                return S, a, o
            for p in run_one(pins, body):
                con = 'parameters of %s with %s' % (cl, ', '.join(on) or 'nothing computed')
                if p.outcome != 'return':
                    ctx.ob('closure parameters', con, False, meth.loc(), 'raises %s when %s' % (getattr(p.value, 'exc', p.outcome), p.guards()))
                    continue
                S, a, o = p.value
                it = p.it
                got = {n: it.policy.scalar(it, it.getattr(o, n)) for n in names}
                on_ = set(on)
                want = {n: sym(n) for n in names}
                n_ = Poly.const(nn)
                if 'compute_cmu0' in on_:
                    want['cmu0'] = make_fn('compute_cmu0:', [])
                if 'compute_kappa' in on_:
                    want['kappa'] = stab('compute_kappa', sigma_psi=sym('schmidt_nb_psi'), cmu0=want['cmu0'], n=n_, c1=sym('c1'), c2=sym('c2'))
                elif 'compute_schmidt_nb_psi' in on_:
                    want['schmidt_nb_psi'] = stab('compute_sigma_psi', kappa=sym('kappa'), cmu0=want['cmu0'], n=n_, c1=sym('c1'), c2=sym('c2'))
                if 'compute_c3_minus' in on_:
                    want['c3_minus'] = stab('compute_c3_minus', c1=sym('c1'), c2=sym('c2'), ri_st=sym('ri_st'))
                if 'compute_galperin_clim' in on_:
                    want['galperin_clim'] = stab('compute_length_clim', cmu0=want['cmu0'], ri_st=sym('ri_st'))
                cm = want['cmu0']
                F = Fraction
                if 'compute_psi_min' in on_:
                    # the value of psi that gives eps_min at k_min
                    want['psi_min'] = (cm.pow(3 + F(pn) / nn) * sym('k_min').pow(F(3, 2) + F(mn) / nn) / sym('eps_min')).pow(nn)
                if 'compute_len_min' in on_:
                    want['len_min'] = cm.pow(3) * sym('k_min').pow(F(3, 2)) / sym('eps_min')
                for n in names:
                    ctx.ob('closure parameters', '%s: %s' % (con, n), same(got[n], want[n]), meth.loc(),
                           'is %s instead of %s' % (show_poly(got[n]), show_poly(want[n])), func=meth.qualname)
                pc = [e for e in p.events if e.kind == 'physconst']
                ok = [same(it.policy.scalar(it, e.args[0]), want['kappa']) for e in pc]
                ctx.ob('closure parameters', '%s: von Karman constant of the flow' % con, (ok == [True]) if 'compute_kappa' in on_ else not pc,
                       meth.loc(), 'is %s' % [show(e.args[0]) for e in pc])
        # initial state
        init = cls.find_method('initialize')
        for cont in (False, True):
            def body(it):
                S, a, o = gls(it)
                reset(it, a)
                it.user['first'] = None
                real = it.policy.call

                def call(it_, fn, args, kwargs, node):
                    if isinstance(fn, Fv) and fn.func.name in ('preprocess', 'postprocess'):
                        if fn.func.name == 'preprocess':
                            it_.user['first'] = {n: val(a[n]) for n in ('k_field', 'psi_field', 'epsilon_field', 'n2')}
                        it_.event('phase', fn.func.name, [list(args), dict(kwargs)])
                        return None
                    return real(it_, fn, args, kwargs, node)
                it.policy.call = call
                it.call(it.getattr(S, 'initialize'), [], {'l_init': Sy('l_init')})
                it.policy.call = real
                return S, a
            for p in run_one(dict(basepins(cl), **{'solver._simulation_continued': cont}), body):
                con = 'initial state of %s%s' % (cl, ' in a continued run' if cont else '')
                if p.outcome != 'return' or p.it.user['first'] is None:
                    ctx.ob('initial state', con, False, init.loc(), 'no initial state (%s)' % p.outcome)
                    continue
                st = p.it.user['first']
                F = Fraction
                cm, k0 = sym('cmu0'), sym('k_min')
                if cont:
                    want = {n: sym(n[:-6]) for n in ('k_field', 'psi_field')}
                else:
                    eps = cm.pow(3) * k0.pow(F(3, 2)) / sym('l_init')
                    want = dict(k_field=k0, epsilon_field=eps,
                                psi_field=(cm.pow(3 + F(pn) / nn) * k0.pow(F(3, 2) + F(mn) / nn) / eps).pow(nn))
                for n, e in want.items():
                    ctx.ob('initial state', '%s: %s' % (con, n[:-6]), same(st[n], e), init.loc(),
                           'is %s instead of %s' % (show_poly(st[n]), show_poly(e)), func=init.qualname)
                ph = [e.fn for e in p.events if e.kind == 'phase']
                ctx.ob('initial state', '%s: diagnostics computed from it' % con, ph == ['preprocess', 'postprocess'], init.loc(), 'runs %s' % ph)
                kw = [e.args for e in p.events if e.kind == 'phase' and e.fn == 'preprocess']
                ok = all(x[1].get('init_solve', x[0][0] if x[0] else False) is True for x in kw)
                ctx.ob('initial state', '%s: first frequencies are not relaxed' % con, ok, init.loc(), 'init_solve not set')
                ctx.ob('initial state', '%s: marked initialized' % con, p.value[0].attrs.get('_initialized') is True, init.loc(), 'not marked')


def names_dispatch(ctx):
    """every documented stability function name selects the function of that name"""
    r = get_repo()
    import ast
    cls = r.cls('options', 'GLSModelOptions')
    e = cls.find_attr('stability_function_name')
    e = e[1] if isinstance(e, tuple) else e
    opts_ = None
    for n in ast.walk(e) if isinstance(e, ast.AST) else ():
        if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) == 'Enum':
            opts_ = ast.literal_eval(n.args[0])
    if not opts_:
        raise AnalysisError('the documented stability functions were not found')
    meth = r.cls('turbulence', 'GenericLengthScaleModel').find_method('__init__')
    for nm in opts_:
        def body(it):
            S, a, o = gls(it)
            return S
        for p in run_one(dict(basepins('k-epsilon'), stability_function_name=nm), body):
            new = [e for e in p.events if e.kind == 'new' and 'StabilityFunction' in str(e.fn)]
            ext = [e for e in p.events if e.kind == 'call' and isinstance(e.fn, Ext) and 'StabilityFunction' in e.fn.name]
            S = p.value if p.outcome == 'return' else None
            sf = S.attrs.get('stability_func') if S is not None else None
            ok = len(new) == 1 and not ext and isinstance(sf, Ob)
            got = None
            if ok:
                got = sf.cls.find_attr('name')
                got = got[1] if isinstance(got, tuple) else got
                got = ast.literal_eval(got) if isinstance(got, ast.AST) else got
                ok = str(got).replace('-', ' ') == nm.replace('-', ' ')
            ctx.ob('stability function', 'stability_function_name = %r' % nm, ok, meth.loc(),
                   'creates %s' % ([e.fn.name + ' (undefined)' for e in ext] or [str(e.fn) for e in new] or 'nothing') if not got else 'selects %s' % got,
                   func=meth.qualname)


@prop('D01', 'closure update, frequencies, initial state and parameter choice of the turbulence models', 60, TECH)
def d01(ctx):
    names_dispatch(ctx)
    initial(ctx)
    pre(ctx)
    post(ctx)
    pacanowski(ctx)
