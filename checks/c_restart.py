"""C02: continuing from stored state; C03: exported files (see c_export)."""
import ast
from sa.core import prop
from sa.absint import explore, Sy, Ex, Ext, Ob, Fv, RaiseSig, show, key, is_conc
from sa.sysim import SysPolicy, make_solver, is_fn, bind_args
from sa.lin import lin, show_lin, num
from sa.repo import AnalysisError

TECH = ('abstract interpretation of export and load_state against an abstract checkpoint store (file name -> functions, attributes) with '
        'tracked field contents; store/load round trip decided on every guard partition')


_MD = {}


def metadata_of(repo):
    """field_metadata after executing the module level statements of field_defs"""
    if id(repo) not in _MD:
        d = {}
        for st in repo.mod('field_defs').tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and \
                    isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == 'field_metadata':
                k = ast.literal_eval(st.targets[0].slice)
                try:
                    v = ast.literal_eval(st.value)
                except ValueError:
                    raise AnalysisError('field_metadata[%r] is not a literal' % k)
                d[k] = v
        _MD[id(repo)] = d
    return _MD[id(repo)]


class StorePolicy(SysPolicy):
    """Fields with tracked contents and an abstract file system."""
    concrete = ('FlowSolver', 'FlowSolver2d', 'FrozenClass', 'ExportManager', 'HDF5Exporter', 'VTKExporter')
    include_attrs = True

    def content(self, it, f):
        return it.user.setdefault('content', {}).get(f.oid, Ex('initial', f))

    def set_content(self, it, f, v):
        it.user.setdefault('content', {})[f.oid] = v
        for i, c in enumerate(f.meta.get('subs') or ()):
            it.user['content'][c.oid] = Ex('comp', v, i) if not is_fn(v) else v

    def wrote(self, it, o, how, src, node):
        cur = self.content(it, o)
        val = self.content(it, src) if is_fn(src) else src
        if how in ('assign', 'project', 'interpolate'):
            new = val if is_fn(src) else Ex(how, val)
        elif how == '+=':
            new = Ex('+', cur, val)
        elif how == '-=':
            new = Ex('-', cur, val)
        else:
            new = Ex(how, cur, val)
        if is_fn(src) and src.meta.get('subs') and o.meta.get('subs'):
            for a, b in zip(o.meta['subs'], src.meta['subs']):
                it.user['content'][a.oid] = self.content(it, b)
            it.user['content'][o.oid] = new
        else:
            self.set_content(it, o, new)
        super().wrote(it, o, how, src, node)

    def decide(self, it, cond):
        r = super().decide(it, cond)
        if r is None:
            s = show(cond)
            if 'verbose' in s or 'rank' in s:
                return False
            if isinstance(cond, Ex) and cond.op == 'is' and isinstance(cond.args[0], Sy) and (
                    cond.args[0].name.startswith('given_') or cond.args[0].name in ('t_stored', 'n_export', 'dir:stored', 'dir:run', 'stored_date')):
                return False
            if isinstance(cond, Ex) and cond.op == 'isinstance' and 'str' in show(cond.args[1]):
                return isinstance(cond.args[0], Ex) and cond.args[0].op == 'iso'
            if isinstance(cond, Sy) and cond.name.startswith('given_'):
                return None         # zero is a valid value
        return r

    def compare(self, it, op, a, b):
        if op in ('==', '!=') and show(a) in ('dir:run', 'dir:stored') and show(b) in ('dir:run', 'dir:stored'):
            return (show(a) == show(b)) == (op == '==')
        return super().compare(it, op, a, b)

    def name(self, it, name, module):
        if name == 'field_metadata':
            return metadata_of(it.repo)
        return NotImplemented

    # ------------------------------------------------------ file system
    def disk(self, it):
        return it.user.setdefault('disk', {})

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Fv) and fn.func.name in ('create_directory',):
            return args[0]
        if isinstance(fn, Fv) and fn.func.name in ('get_visu_space', 'is_2d'):
            return Ex('call', fn, tuple(args), ())
        if isinstance(fn, Ext):
            s = fn.short
            if s in ('CheckpointFile', 'DumbCheckpoint'):
                md = kwargs.get('mode', args[1] if len(args) > 1 else None)
                md = md if isinstance(md, str) else ('w' if 'CREATE' in show(md) else 'r' if 'READ' in show(md) else show(md))
                o = it.obj('h5', 'h5')
                o.meta.update(h5=True, mode=md, file=key(args[0]), fname=args[0])
                if md.startswith('w'):
                    self.disk(it)[key(args[0])] = dict(attrs={}, funcs={}, mesh=None, name=args[0])
                elif key(args[0]) not in self.disk(it):
                    it.event('nofile', 'open', [args[0]], {}, node)
                    raise RaiseSig('OSError', it.loc(node))
                it.event('open', md, [args[0]], {}, node)
                return o
            if s == 'fromisoformat':
                x = args[0]
                if isinstance(x, Ex) and x.op == 'iso':
                    return x.args[0]
                if x is None:
                    raise RaiseSig('TypeError', it.loc(node))
            if s == 'float' and args and isinstance(args[0], (Sy, Ex)):
                return args[0]
            if s == 'hasattr' and len(args) == 2 and args[1] == 'sfXC':
                return True
            if s == 'join' and 'path' in fn.name:
                return Ex('path', *args)
            if s == 'OrderedDict' and not args:
                return {}
            if s == 'isinstance' and args and is_fn(args[0]):
                return 'Function' in show(args[1])
        if isinstance(fn, Ex) and fn.op == 'attr' and fn.args[1] == 'isoformat':
            return Ex('iso', fn.args[0])
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Ob) and fn.args[0].meta.get('h5') or (
                isinstance(fn, tuple) and len(fn) == 3 and isinstance(fn[1], Ob) and fn[1].meta.get('h5')):
            o, name = (fn.args[0], fn.args[1]) if isinstance(fn, Ex) else (fn[1], fn[2])
            return self.h5(it, o, name, args, kwargs, node)
        if isinstance(fn, tuple) and len(fn) == 3 and isinstance(fn[1], dict) and fn[2] == 'update' and args and \
                isinstance(args[0], Ob) and args[0].meta.get('store'):
            fn[1].update(args[0].attrs)
            return None
        return super().call(it, fn, args, kwargs, node)

    def h5(self, it, o, name, args, kwargs, node):
        d = self.disk(it)[o.meta['file']]
        if name == 'set_attr':
            d['attrs'][(args[0], args[1])] = args[2]
            return None
        if name == 'has_attr':
            return (args[0], args[1]) in d['attrs'] and self.include_attrs
        if name == 'get_attr':
            if (args[0], args[1]) in d['attrs'] and self.include_attrs:
                return d['attrs'][(args[0], args[1])]
            raise RaiseSig('KeyError', it.loc(node))
        if name in ('save_mesh',):
            d['mesh'] = args[0]
            return None
        if name in ('save_function', 'store'):
            f = args[0]
            n = kwargs.get('name') or f.name
            d['funcs'][n] = self.content(it, f)
            it.event('saved', name, [f, o.meta['fname'], self.content(it, f)], {}, node)
            return None
        if name == 'load_function':
            n = kwargs.get('name', args[1] if len(args) > 1 else None)
            if n not in d['funcs']:
                it.event('nofunc', 'load', [n], {}, node)
                raise RaiseSig('RuntimeError', it.loc(node))
            g = self.function(it)
            self.set_content(it, g, d['funcs'][n])
            return g
        if name == 'load':
            f = args[0]
            n = kwargs.get('name') or f.name
            if n not in d['funcs']:
                raise RaiseSig('RuntimeError', it.loc(node))
            self.set_content(it, f, d['funcs'][n])
            it.event('write', 'load', [f, d['funcs'][n]], {}, node)
            return None
        return Ex('call', Ex('attr', o, name), tuple(args), ())

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.meta.get('h5'):
            return ('method', base, name)
        if isinstance(base, (Sy, Ex)) and name == 'isoformat':
            return Ex('attr', base, name)
        return super().attr(it, base, name, node)

    # effects of abstract objects
    def effect(self, it, o, func, args, kwargs, node):
        f = it.user.get('S')
        if func.name == '_remove_depth_average_from_uv_3d' and f is not None:
            uv = f.attrs['fields'].attrs['uv_3d']
            self.set_content(it, uv, Ex('deviation', self.content(it, uv)))
            dav = f.attrs['fields'].attrs['uv_dav_3d']
            self.set_content(it, dav, Ex('depth average', self.content(it, uv)))
        e = it.events[-1]
        if f is not None:
            e.extra = dict(continued=f.attrs.get('_simulation_continued'),
                           content={n: self.content(it, x) for n, x in f.attrs['fields'].attrs.items() if is_fn(x)})


FIELDS = {'2d': ('uv_2d', 'elev_2d'), '3d': ('uv_2d', 'elev_2d', 'uv_3d', 'salt_3d', 'temp_3d', 'tke_3d', 'psi_3d')}


def build(it, kind, outdir, tag):
    mod, cls = ('solver2d', 'FlowSolver2d') if kind == '2d' else ('solver', 'FlowSolver')
    repo, pol = it.repo, it.policy
    S = make_solver(it, mod, cls)
    A = S.attrs
    A['options'] = Sy('options')
    A['dt'] = Sy('dt')
    A['_initialized'] = True
    A['_field_preproc_funcs'] = {}
    A['callbacks'] = Sy('callbacks')
    A['sediment_model'] = None
    A['i_export'] = 0
    A['iteration'] = 0
    A['simulation_time'] = 0
    A['_simulation_continued'] = False
    A['export_initial_state'] = True
    A['next_export_t'] = Sy('next_export_t_from_constructor')
    f = A['fields']
    if True:
        sol = pol.function(it, 'solution_2d')
        f.attrs['solution_2d'] = sol
        uv, elev = it.getattr(sol, 'subfunctions')
        uv.name, elev.name = 'uv_2d', 'elev_2d'
        f.attrs['uv_2d'], f.attrs['elev_2d'] = uv, elev
    names = FIELDS[kind][2:] + (('uv_dav_3d', 'uv_dav_2d', 'v_elem_size_3d') if kind == '3d' else ())
    for n in names:
        f.attrs[n] = pol.function(it, n)
    for n, o in f.attrs.items():
        o.name = n
        o.meta['space'] = Sy('space:' + n)
        pol.set_content(it, o, Ex('state', n, tag))
    for i, n in enumerate(('uv_2d', 'elev_2d')):
        pol.set_content(it, f.attrs[n], Ex('state', n, tag))
    if kind == '3d':
        T = it.obj(repo.cls('coupled_timeintegrator', 'CoupledTwoStageRK'), 'timestepper')
        T.meta['stub'] = True
        A['timestepper'] = T
        M = it.obj(repo.cls('turbulence', 'GenericLengthScaleModel'), 'turbulence_model')
        M.meta['stub'] = True
        A['turbulence_model'] = M
    else:
        T = it.obj(repo.cls('timeintegrator', 'CrankNicolson'), 'timestepper')
        T.meta['stub'] = True
        A['timestepper'] = T
    A['options.dir'] = outdir
    return S


def set_dir(it, d):
    it.overlay[(key(Sy('options')), 'output_directory')] = d


N = Sy('n_export')
TS = Sy('t_stored')
DATE = Ex('attr', Sy('options'), 'simulation_initial_date')


class Res:
    pass


def scenario(kind, other, over, meta, legacy=False):
    """store with run 1 at export N, load with run 2"""
    def body(it):
        pol = it.policy
        run, stored = Sy('dir:run'), Sy('dir:stored')
        set_dir(it, stored if other else run)
        if it.truth(Ex('not', Ex('is', DATE, None))):
            it.overlay[(key(Sy('options')), 'simulation_initial_date')] = Sy('stored_date')
        S1 = build(it, kind, None, 'run1')
        it.user['S'] = S1
        it.call(it.getattr(S1, 'create_exporters'), [], {})
        for e in S1.attrs['exporters'].values():
            it.call(it.getattr(e, 'set_next_export_ix'), [N], {})
        S1.attrs['i_export'] = N
        S1.attrs['simulation_time'] = TS
        if legacy:
            for m in S1.attrs['exporters'].values():
                for x in it.getattr(m, 'exporters').values():
                    x.attrs['dumb_checkpoint'] = True
        it.call(it.getattr(S1, 'export'), [], {'time': TS})
        k1 = len(it.events)
        pol.include_attrs = meta
        set_dir(it, run)
        it.overlay[(key(Sy('options')), 'simulation_initial_date')] = DATE
        S2 = build(it, kind, None, 'run2')
        it.user['S'] = S2
        it.call(it.getattr(S2, 'create_exporters'), [], {})
        kw = {}
        if other:
            kw['outputdir'] = stored
        for o in over:
            kw[o] = Sy('given_' + o)
        if legacy:
            kw['legacy_mode'] = True
        it.call(it.getattr(S2, 'load_state'), [N], kw)
        r = Res()
        r.S1, r.S2, r.k1 = S1, S2, k1
        return r
    return body


def pins(kind):
    p = {'options.no_exports': False, 'options.simulation_export_time': Sy('E'),
         'options.fields_to_export': ['uv_2d', 'elev_2d'], 'options.fields_to_export_hdf5': list(FIELDS[kind]),
         'options.use_turbulence': True, 'options.turbulence_model_type': 'gls', '_initialized': True,
         'options.use_ale_moving_mesh': True, 'options.sediment_model_options.solve_suspended_sediment': False}
    return p


def is_state(v, n):
    return isinstance(v, Ex) and v.op == 'state' and v.args[0] == n and v.args[1] == 'run1'


def restored(v, n, kind):
    """content of a field after load against what run 1 had when it exported"""
    v = strip(v)
    if n == 'uv_3d':
        # stored: deviation + depth average; restored: deviation of the total
        if not (isinstance(v, Ex) and v.op == 'deviation'):
            return False
        w = strip(v.args[0])
        return isinstance(w, Ex) and w.op == '+' and {show(x) for x in w.args} == {
            show(Ex('state', 'uv_3d', 'run1')), show(Ex('state', 'uv_dav_3d', 'run1'))}
    return is_state(v, n)


def strip(v):
    while isinstance(v, Ex) and v.op in ('assign', 'project', 'interpolate') and len(v.args) == 1:
        v = v.args[0]
    return v


def judge(ctx, kind, con, p, other, over, meta):
    where = 'thetis/solver2d.py' if kind == '2d' else 'thetis/solver.py'
    g = p.guards()
    if p.outcome == 'raise':
        nf = [e for e in p.events if e.kind in ('nofile', 'nofunc')]
        ctx.ob('stored state can be loaded', con, False, str(p.value.loc), 'storing and loading the state raises %s%s [%s]' % (
            p.value.exc, ' (%s)' % ', '.join(show(e.args[0]) for e in nf) if nf else '', g))
        return
    ctx.ob('stored state can be loaded', con, True)
    it, pol = p.it, p.it.policy
    S1, S2 = p.value.S1, p.value.S2
    A = S2.attrs
    fact = {show(c): v for c, v, _ in p.factlog}
    active = list(FIELDS[kind])
    for n, o in (('salt_3d', 'options.solve_salinity'), ('temp_3d', 'options.solve_temperature')):
        if n in active and fact.get(o) is False:
            active.remove(n)
    for n in active:
        v = pol.content(it, A['fields'].attrs[n])
        ctx.ob('prognostic field restored', con + ': ' + n, restored(v, n, kind), where,
               '%s holds %s after load_state, expected the stored field [%s]' % (n, show(v), g))
    # run 1 unchanged by exporting
    for n in FIELDS[kind]:
        v = pol.content(it, S1.attrs['fields'].attrs[n])
        ok = is_state(v, n) or (n == 'uv_3d' and show(v) == show(Ex('-', Ex('+', Ex('state', n, 'run1'), Ex('state', 'uv_dav_3d', 'run1')),
                                                                 Ex('state', 'uv_dav_3d', 'run1'))))
        ctx.ob('export leaves the state unchanged', con + ': ' + n, ok, where, '%s holds %s after export [%s]' % (n, show(v), g))
    for nm, m in S1.attrs['exporters'].items():
        for n, x in it.getattr(m, 'exporters').items():
            v = x.attrs.get('next_export_ix')
            ctx.ob('file index advances by one per export', con + ': ' + nm, v is not None and lin(v) == lin(N) + num(1), where,
                   'after export n the %s exporter of %s continues with index %s [%s]' % (nm, n, show(v), g))
    # integrators initialized from the restored state
    ini = [e for e in p.events[p.value.k1:] if e.kind == 'do' and e.fn == 'initialize' and e.args[0] is A['timestepper']]
    ok = bool(ini) and all(restored(ini[-1].extra['content'][n], n, kind) for n in active)
    ctx.ob('time integrator initialized from restored state', con, ok, ini[-1].loc if ini else where,
           'the time integrator is not initialized after the state is loaded [%s]' % g)
    if kind == '3d':
        for e in p.events[p.value.k1:]:
            if e.kind == 'do' and e.fn == 'initialize' and e.args[0] is A['turbulence_model']:
                ctx.ob('turbulence fields not reset', con, e.extra['continued'] is True, e.loc,
                       'the turbulence model is initialized without the simulation being marked as continued, which resets tke and psi [%s]' % g)
    # time and counters
    E, dt = Sy('E'), Sy('dt')
    ix = Sy('given_i_export') if 'i_export' in over else N
    ctx.ob('export index continues', con, lin(A['i_export']) == lin(ix), where, 'i_export is %s, expected %s [%s]' % (
        show(A['i_export']), show(ix), g))
    it_exp = A['iteration']
    if 'iteration' in over:
        ctx.ob('iteration count', con, lin(it_exp) == lin(Sy('given_iteration')), where, 'iteration is %s, the caller gave given_iteration [%s]' % (
            show(it_exp), g))
    t = A['simulation_time']
    if 't' in over:
        want = lin(Sy('given_t'))
    elif meta:
        want = lin(TS)
    else:
        want = lin(it_exp) * lin(dt)
    ok = t is not None and lin(t) == want
    ctx.ob('simulation time restored', con, ok, where, 'simulation time is %s, expected %s [%s]' % (show(t), show_lin(want), g))
    if kind == '3d' and t is not None:
        ne = A['next_export_t']
        ctx.ob('next export one interval after the restart time', con, lin(ne) == lin(t) + lin(E) or equal_at_index(ne, t, over, meta), where,
               'next_export_t is %s with simulation time %s: the next export is not due one export interval after the restart [%s]' % (
                   show(ne), show(t), g))
    # file numbering
    ini_exp = A['export_initial_state']
    ctx.ob('initial state exported iff it is not already stored', con, ini_exp is bool(other), where,
           'export_initial_state is %s after loading from %s directory [%s]' % (show(ini_exp), 'another' if other else 'the same', g))
    for nm, m in A['exporters'].items():
        xs = it.getattr(m, 'exporters') if isinstance(m, Ob) else {}
        for n, x in xs.items():
            v = x.attrs.get('next_export_ix')
            if v is None:
                continue
            w = lin(ix) + (num(0) if other else num(1))
            if nm == 'vtk':
                c = it.getattr(it.getattr(x, 'outfile'), 'counter')
                start = None
                if isinstance(c, Ex) and c.op == 'call':
                    start = dict(c.args[2]).get('start', c.args[1][0] if c.args[1] else None)
                ctx.ob('next export file index', con + ': vtk file counter', None if start is None else lin(start) == w, where,
                       'the vtk file counter of %s continues at %s, expected %s [%s]' % (n, show(c), show_lin(w), g))
            if x.attrs.get('include_time') is True:
                ctx.ob('start date of later files', con + ': ' + nm, key(x.attrs.get('initial_time')) == key(it.getattr(Sy('options'), 'simulation_initial_date')),
                       where, 'later files of %s are labelled with the start date %s, but times count from %s [%s]' % (
                           n, show(x.attrs.get('initial_time')), show(it.getattr(Sy('options'), 'simulation_initial_date')), g))
            ctx.ob('next export file index', con + ': ' + nm, lin(v) == w, where, '%s exporter of %s continues with file index %s, expected %s [%s]' % (
                nm, n, show(v), show_lin(w), g))
    # date
    d = it.getattr(Sy('options'), 'simulation_initial_date')
    dnone = fact.get('(options.simulation_initial_date is None)')
    if 't' not in over and meta and dnone is False:
        ctx.ob('stored start date used with the stored time', con, isinstance(d, Sy) and d.name == 'stored_date', where,
               'the stored time is used with start date %s [%s]' % (show(d), g))
    if 't' in over:
        ctx.ob('caller\'s start date kept', con, key(d) == key(DATE), where,
               'the simulation start date is replaced by the stored one although the caller gave the simulation time [%s]' % g)


def equal_at_index(ne, t, over, meta):
    """next export time computed from the export index: equal to t + E only if the time was stored at export n and no counter was overridden"""
    return False


CASES = []
for other in (False, True):
    for over in ((), ('t',), ('i_export',), ('iteration', 't', 'i_export'), ('iteration',)):
        for meta in (True, False):
            CASES.append((other, over, meta))


@prop('C02', 'state stored by export n of one run and loaded by load_state(n) of another: every active prognostic field is restored, the integrators are '
      'initialized from it, time, counters, next export and file numbering continue; in every combination of directory, overrides and stored metadata',
      150, TECH)
def c02(ctx):
    for kind in ('2d', '3d'):
        for other, over, meta in CASES:
            con = '%s, %s directory, %s%s' % (kind, 'other' if other else 'same', 'given ' + ','.join(over) if over else 'no overrides',
                                              '' if meta else ', no stored time')
            n = 0
            for p in explore(ctx.repo, lambda: StorePolicy(pins(kind)), scenario(kind, other, over, meta)):
                n += 1
                judge(ctx, kind, con, p, other, over, meta)
            ctx.count('traces', n)
        for other in (False, True):
            con = '%s, %s directory, legacy format' % (kind, 'other' if other else 'same')
            for p in explore(ctx.repo, lambda: StorePolicy(pins(kind)), scenario(kind, other, (), False, legacy=True)):
                judge(ctx, kind, con, p, other, (), False)
        for f in ('load_state', 'export', 'create_exporters', 'assign_initial_conditions'):
            ctx.funcs.add(('FlowSolver2d.' if kind == '2d' else 'FlowSolver.') + f)
    ctx.funcs.update(['ExportManager.__init__', 'ExportManager.add_export', 'ExportManager.export', 'ExportManager.set_next_export_ix',
                      'HDF5Exporter.export_as_index', 'HDF5Exporter.load', 'HDF5Exporter.gen_filename'])
