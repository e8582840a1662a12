"""C03: exported files hold the current fields under their own names and numbers."""
from sa.core import prop
from sa.absint import explore, Sy, Ex, Ext, Ob, Fv, RaiseSig, show, key
from sa.sysim import is_fn
from sa.repo import AnalysisError
from .c_restart import StorePolicy, metadata_of, build, set_dir, pins

TECH = ('abstract interpretation of the export classes with abstract VTK and HDF5 files, counters and tracked field contents over '
        'sequences of exports; comparison of the trace of writes with the documented one')

MD = {'a_2d': dict(name='field a', shortname='A', unit='m', filename='FieldA'),
      'b_2d': dict(name='field b', shortname='B', unit='s', filename='FieldB'),
      'c_2d': dict(name='field c', shortname='C', unit='s', filename='FieldC'),
      'n_2d': dict(name='missing', shortname='N', unit='s', filename='FieldN')}


def stored(v):
    """the value that was cast"""
    while isinstance(v, Ex) and v.op in ('cast', 'assign', 'project', 'interpolate') and len(v.args) == 1:
        v = v.args[0]
    return v


def path(x):
    """normalised path string"""
    if isinstance(x, str):
        s = x
    elif isinstance(x, Ex) and x.op == 'path':
        s = '/'.join(path(a) for a in x.args)
    elif isinstance(x, Ex) and x.op in ('fstr', '+'):
        s = ''.join(path(a) for a in x.args)
    else:
        s = '<%s>' % show(x)
    while '//' in s:
        s = s.replace('//', '/')
    return s


class ExportPolicy(StorePolicy):
    concrete = ('ExporterBase', 'ExportManager', 'HDF5Exporter', 'VTKExporter', 'FrozenClass')
    md = MD

    def name(self, it, name, module):
        if name == 'field_metadata':
            return self.md
        return NotImplemented

    def decide(self, it, cond):
        if isinstance(cond, Ex) and cond.op == 'is' and isinstance(cond.args[0], Sy) and cond.args[1] is None and cond.args[0].name[0] == 't':
            return False
        return super().decide(it, cond)

    def compare(self, it, op, a, b):
        if op in ('==', '!=') and all(isinstance(x, Ob) and x.clsname == 'Space' for x in (a, b)):
            return (a is b) == (op == '==')
        return super().compare(it, op, a, b)

    def cast(self, it, how, fn, space):
        o = it.obj('CastOperator')
        o.meta.update(cast=how, src=fn, space=space)
        return o

    def evaluate(self, it, op):
        g = self.function(it, space=op.meta['space'])
        g.meta['from'] = op.meta['src']
        self.set_content(it, g, Ex('cast', self.content(it, op.meta['src'])))
        return g

    def instantiate(self, it, cls, args, kwargs, node):
        return super().instantiate(it, cls, args, kwargs, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, tuple) and len(fn) == 2 and fn[0] == 'rec':
            it.event('preproc', fn[1], [], {}, node)
            f = it.user['pre'].get(fn[1])
            if f is not None:
                self.set_content(it, f, Ex('preprocessed', self.content(it, f), it.user.setdefault('np', [0])[0]))
                it.user['np'][0] += 1
            return None
        if isinstance(fn, Fv) and fn.func.name == 'get_visu_space':
            return it.obj('VisuSpace', None, of=args[0])
        if isinstance(fn, Fv) and fn.func.name == 'get_functionspace' and fn.func.cls is None:
            return it.obj('VisuSpace', None, of=None)
        if isinstance(fn, Ext):
            s = fn.short
            if s in ('VTKFile', 'File'):
                o = it.obj('vtk', 'vtk')
                o.meta.update(vtk=True, path=path(args[0]))
                o.attrs['counter'] = [0]
                it.event('vtkopen', path(args[0]), [], {}, node)
                return o
            if s == 'count' and ('itertools' in fn.name or fn.name == 'count'):
                return [kwargs.get('start', args[0] if args else 0)]
            if s in ('Projector', 'Interpolator') and len(args) >= 2 and any(is_fn(a) for a in args[:2]):
                return self.cast(it, s, args[0], args[1])
            if s == 'interpolate' and len(args) == 2 and is_fn(args[0]):
                return Ex('interpolation', args[0], args[1])
            if s == 'get_interpolator' and args and isinstance(args[0], Ex) and args[0].op == 'interpolation':
                return self.cast(it, s, *args[0].args)
            if s in ('assemble',) and args and isinstance(args[0], Ex) and args[0].op == 'interpolation':
                return self.evaluate(it, self.cast(it, s, *args[0].args))
            if s == 'project' and len(args) == 2 and is_fn(args[0]):
                return self.evaluate(it, self.cast(it, s, *args))
            if s == 'callable' and isinstance(args[0], tuple):
                return True
            if s in ('id', 'hash') and args and isinstance(args[0], Ob):
                return args[0].oid
            if s == 'isinstance' and args and isinstance(args[0], Ob) and not is_fn(args[0]) and 'Function' in show(args[1]):
                return False
        if isinstance(fn, Ex) and fn.op == 'attr' and isinstance(fn.args[0], Ob) and fn.args[0].meta.get('cast') or \
                isinstance(fn, tuple) and len(fn) == 3 and isinstance(fn[1], Ob) and fn[1].meta.get('cast'):
            o, n = (fn.args[0], fn.args[1]) if isinstance(fn, Ex) else fn[1:]
            if n in ('assemble', 'project', 'interpolate'):
                return self.evaluate(it, o)
        if isinstance(fn, tuple) and len(fn) == 3 and isinstance(fn[1], Ob) and fn[1].meta.get('vtk'):
            o = fn[1]
            if fn[2] in ('write', 'save'):
                c = o.attrs['counter']
                it.event('vtkwrite', o.meta['path'], [[(g, g.name, self.content(it, g), g.meta.get('from'), g.meta.get('space')) for g in args],
                                                      c[0], kwargs.get('time')], {}, node)
                c[0] = c[0] + 1
                return None
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and is_fn(fn[1]) and fn[2] == 'rename':
            n = kwargs.get('name', args[0] if args else None)
            it.event('rename', n, [fn[1]], {}, node)
            fn[1].name = n
            return None
        return super().call(it, fn, args, kwargs, node)

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.meta.get('cast') and name in ('assemble', 'project', 'interpolate'):
            return ('method', base, name)
        if isinstance(base, Ob) and base.meta.get('vtk') and name in ('write', 'save'):
            return ('method', base, name)
        return super().attr(it, base, name, node)


def fields(it, names=('a_2d', 'b_2d', 'c_2d')):
    pol = it.policy
    d = {}
    for n in names:
        f = pol.function(it, n, space=it.obj('Space', 'space:' + n))
        f.name = n
        pol.set_content(it, f, Ex('value', n, 0))
        d[n] = f
    return d


def change(it, d, k):
    for n, f in d.items():
        if is_fn(f):
            it.policy.set_content(it, f, Ex('value', n, k))


def manager(it, d, kind, exported, **kw):
    cls = it.repo.cls('exporter', 'ExportManager')
    return it.instantiate(cls, ['out', list(exported), d, MD], dict(export_type=kind, **kw))


FILES = {'a_2d': ('A', 'FieldA'), 'b_2d': ('B', 'FieldB'), 'c_2d': ('C', 'FieldC')}
PRE = 'b_2d'


def vtk_path(out, f):
    return '%s/%s/%s.pvd' % (out, f, f)


def run(repo, body, pol=ExportPolicy):
    ps = explore(repo, lambda: pol({}), body)
    return ps


def single(ctx, rule, con, ps, where):
    """the paths that return; raising paths are violations"""
    out = []
    for p in ps:
        if p.outcome == 'raise':
            ctx.ob(rule, con, False, str(p.value.loc), 'raises %s [%s]' % (p.value.exc, p.guards()))
        else:
            out.append(p)
    return out


WHERE = 'thetis/exporter.py'


def no_date(p):
    return any(v is True and show(c) in ('(date0 is None)', '(date1 is None)') for c, v, _ in p.factlog)


def chunks(events, marks):
    out, cur = [], None
    for e in events:
        if e.kind == 'mark':
            if cur is not None:
                out.append((name, cur))
            name, cur = e.fn, []
        elif cur is not None:
            cur.append(e)
    if cur is not None:
        out.append((name, cur))
    return out


def body_sequence(kind, project=False):
    def body(it):
        d = fields(it)
        it.user['pre'] = {PRE: d[PRE]}
        src = dict(d)
        src['n_2d'] = None
        pre = {PRE: ('rec', PRE), 'c_2d': ('rec', 'c_2d')}
        kw = dict(next_export_ix=0)
        if kind == 'hdf5':
            kw.update(include_time=True, initial_time=Sy('date0'))
        m = manager(it, src, kind, ['a_2d', PRE, 'n_2d', 'zz_2d'], preproc_funcs=pre, **kw)
        if project:
            for x in it.getattr(m, 'exporters').values():
                x.attrs['project_output'] = True
        it.user['m'], it.user['d'] = m, d
        for k, ix in ((1, 0), (2, 1), (3, 7)):
            if k == 3:
                it.call(it.getattr(m, 'set_next_export_ix'), [7], {})
                if kind == 'hdf5':
                    it.call(it.getattr(m, 'set_initial_time'), [Sy('date1')], {})
            change(it, d, k)
            it.event('mark', ix, [k])
            it.call(it.getattr(m, 'export'), [], dict(time=Sy('t%d' % k)))
        it.event('mark', 'end', [])
        return m
    return body


def expect_content(n, k):
    """content of field n at the k-th export"""
    v = Ex('value', n, k)
    return v


def preprocessed(v, n, k):
    return isinstance(v, Ex) and v.op == 'preprocessed' and show(v.args[0]) == show(Ex('value', n, k))


def judge_sequence(ctx, kind, p, con):
    m = p.value
    g = p.guards()
    ex = p.it.getattr(m, 'exporters')
    ctx.ob('one exporter per existing requested field', con, set(ex) == {'a_2d', PRE}, WHERE,
           'exporters are %s for the requested fields a_2d, b_2d and two that do not exist [%s]' % (sorted(map(str, ex)), g))
    d = p.it.user['d']
    k = 0
    for ix, evs in chunks(p.events, None):
        if ix == 'end':
            continue
        k += 1
        if kind == 'vtk':
            writes = [e for e in evs if e.kind == 'vtkwrite']
        else:
            writes = [e for e in evs if e.kind == 'saved']
        for n in ('a_2d', PRE):
            short, file = FILES[n]
            where = 'out/%s/%s.pvd' % (file, file) if kind == 'vtk' else 'out/%s_%05d.h5' % (file, ix)
            if kind == 'vtk':
                mine = [e for e in writes if path(e.fn) == where]
            else:
                mine = [e for e in writes if path(e.args[1]) == where]
            c = '%s: %s export %d' % (con, n, k)
            if not ctx.ob('each field written once to its own file', c, len(mine) == 1, (mine or writes or [None])[0].loc if (mine or writes) else WHERE,
                          'export number %d writes %d times to %s; files written: %s [%s]' % (
                              ix, len(mine), where, sorted({path(e.fn if kind == 'vtk' else e.args[1]) for e in writes}), g)):
                continue
            e = mine[0]
            if kind == 'vtk':
                outs, number, time = e.args
                ok = len(outs) == 1 and number == ix
                ctx.ob('file number is the export number', c, ok, e.loc, 'the file gets number %s, expected %s [%s]' % (show(number), ix, g))
                o, name, val, src, space = outs[0]
                ctx.ob('time of the record is the export number', c, time is None or time == ix, e.loc, 'time %s, expected %s [%s]' % (show(time), ix, g))
                ctx.ob('named after the metadata', c, name == short, e.loc, 'the exported function is named %r, expected %r [%s]' % (name, short, g))
                v = stored(val)
                sp = isinstance(space, Ob) and space.meta.get('of') is None and space.attrs.get('of') is d[n].meta['space'] or \
                    isinstance(space, Ob) and (space.attrs.get('of') is d[n].meta['space'])
                ctx.ob('cast to the visualization space of its function', c, bool(sp) or o is d[n], e.loc, 'written in the space %s [%s]' % (show(space), g))
            else:
                f, fname, v = e.args
                ctx.ob('the field itself is stored', c, f is d[n], e.loc, 'stores %s [%s]' % (show(f), g))
                at = p.it.user['disk'].get(key(fname), {}).get('attrs', {})
                want = {('/', 'time'): Sy('t%d' % k), ('/', 'initial_time_iso'): Ex('iso', Sy('date1' if k == 3 else 'date0'))}
                if no_date(p):
                    want.pop(('/', 'initial_time_iso'))
                bad = [a for a in want if show(at.get(a)) != show(want[a])]
                ctx.ob('time stored with the field', c, not bad, e.loc, 'attributes %s [%s]' % (
                    {a[1]: show(at.get(a)) for a in bad}, g))
                ctx.ob('mesh stored with the field', c, p.it.user['disk'].get(key(fname), {}).get('mesh') is not None, e.loc, 'mesh not saved [%s]' % g)
            ok = preprocessed(v, n, k) if n == PRE else show(v) == show(Ex('value', n, k))
            ctx.ob('the current value is written', c, ok, e.loc, 'export %d writes %s while the field holds %s [%s]' % (
                k, show(v), show(Ex('value', n, k)) + (' before its preprocessor' if n == PRE else ''), g))
        extra = [e for e in writes if path(e.fn if kind == 'vtk' else e.args[1]) not in (
            [vtk_path('out', FILES[n][1]) for n in ('a_2d', PRE)] if kind == 'vtk' else ['out/%s_%05d.h5' % (FILES[n][1], ix) for n in ('a_2d', PRE)])]
        ctx.ob('nothing else is written', '%s export %d' % (con, k), not extra, extra[0].loc if extra else WHERE,
               'writes %s [%s]' % ([path(e.fn if kind == 'vtk' else e.args[1]) for e in extra], g))
        pre = [e.fn for e in evs if e.kind == 'preproc']
        ctx.ob('preprocessor of an exported field runs once per export', '%s export %d' % (con, k), pre == [PRE], WHERE,
               'preprocessors called: %s, expected the one of b_2d [%s]' % (pre, g))
        ren = [e for e in evs if e.kind == 'rename' and any(e.args[0] is f for f in d.values())]
        ctx.ob('fields keep their names', '%s export %d' % (con, k), not ren, ren[0].loc if ren else WHERE,
               'export renames the field %s [%s]' % (show(ren[0].fn) if ren else '', g))
    for n, x in ex.items():
        ctx.ob('next export number', con + ': %s' % n, x.attrs.get('next_export_ix') == 8, WHERE,
               'after export 7 the exporter of %s continues with %s [%s]' % (n, show(x.attrs.get('next_export_ix')), g))


# ------------------------------------------------------------- user exports
def body_custom(kind):
    def body(it):
        d = fields(it)
        it.user['pre'] = {}
        m1 = manager(it, {}, kind, [])
        add = it.getattr(m1, 'add_export')
        it.call(add, ['mine', d['a_2d']], dict(export_type=kind, shortname='Mine', filename='MyFile', outputdir='other', next_export_ix=4,
                                               preproc_func=('rec', 'mine')))
        it.call(add, ['b_2d', d['b_2d']], dict(export_type=kind, preproc_func=('rec', 'b_2d')))
        it.call(add, ['c_2d', d['c_2d']], dict(export_type=kind, filename='Other'))
        it.event('mark', 'first', [])
        it.call(it.getattr(m1, 'export'), [], {})
        m2 = manager(it, {'b_2d': d['b_2d'], 'mine': d['a_2d']}, kind, ['b_2d'])
        it.event('mark', 'second', [])
        it.call(it.getattr(m2, 'export'), [], {})
        it.call(add, ['b_2d', d['c_2d']], dict(export_type=kind, next_export_ix=3))
        it.event('mark', 'replaced', [])
        it.call(it.getattr(m1, 'export'), [], {})
        it.event('mark', 'unknown', [])
        try:
            it.call(add, ['nobody', d['a_2d']], dict(export_type=kind, shortname='x'))
            it.user['unknown'] = None
        except RaiseSig as e:
            it.user['unknown'] = e.exc
        it.user['d'] = d
        return m1
    return body


def judge_custom(ctx, kind, p, con):
    g = p.guards()
    ch = dict(chunks(p.events, None))

    def got(name):
        out = []
        for e in ch.get(name, ()):
            if e.kind == 'vtkwrite':
                out.append((path(e.fn), e.args[0][0][1], e.args[1]))
            elif e.kind == 'saved':
                out.append((path(e.args[1]), None, None))
        return sorted(out, key=str)
    if kind == 'vtk':
        want1 = [('other/MyFile/MyFile.pvd', 'Mine'), ('out/FieldB/FieldB.pvd', 'B'), ('out/Other/Other.pvd', 'C')]
        want2 = [('out/FieldB/FieldB.pvd', 'B')]
    else:
        want1 = [('other/MyFile_00004.h5', None), ('out/FieldB_00000.h5', None), ('out/Other_00000.h5', None)]
        want2 = [('out/FieldB_00000.h5', None)]
    for nm, want in (('first', want1), ('second', want2)):
        w = [x[:2] for x in got(nm)]
        ctx.ob('added fields use the given or documented name and file', con + ': ' + nm, w == sorted(want, key=str), WHERE,
               'writes %s, expected %s [%s]' % (w, want, g))
    d = p.it.user['d']
    out = []
    for e in ch.get('replaced', ()):
        if e.kind == 'vtkwrite' and path(e.fn) == 'out/FieldB/FieldB.pvd':
            out.append((stored(e.args[0][0][2]), e.loc))
        if e.kind == 'saved' and path(e.args[1]) == 'out/FieldB_00003.h5':
            out.append((e.args[2], e.loc))
    want = Ex('value', 'c_2d', 0)
    ctx.ob('the function registered last under a name is written', con, len(out) == 1 and show(out[0][0]) == show(want), out[0][1] if out else WHERE,
           'the field was registered again with another function, the export writes %s [%s]' % ([show(v) for v, _ in out], g))
    pre = [e.fn for e in ch.get('first', ()) if e.kind == 'preproc']
    ctx.ob('preprocessor of an exported field runs once per export', con, sorted(pre) == ['b_2d', 'mine'], WHERE, 'called: %s [%s]' % (pre, g))
    pre = [e.fn for e in ch.get('second', ()) if e.kind == 'preproc']
    ctx.ob('managers are independent', con, not pre, WHERE,
           'a second manager without preprocessors calls the preprocessors of the first: %s [%s]' % (pre, g))
    ctx.ob('unknown field without names is rejected', con, p.it.user['unknown'] == 'AssertionError', WHERE,
           'adding an export of an unknown field without file name: %s [%s]' % (p.it.user['unknown'], g))


# ------------------------------------------------------------ solver exports
class SolverExportPolicy(ExportPolicy):
    concrete = ExportPolicy.concrete + ('FlowSolver', 'FlowSolver2d')

    def __init__(self, p):
        super().__init__(p)
        self.md = None

    def name(self, it, name, module):
        if name == 'field_metadata':
            if self.md is None:
                self.md = {k: dict(v) for k, v in metadata_of(it.repo).items()}
            return self.md
        return NotImplemented


def body_solver(kind):
    def body(it):
        set_dir(it, 'out')
        it.overlay[(key(Sy('options')), 'no_exports')] = False
        it.overlay[(key(Sy('options')), 'simulation_initial_date')] = Sy('date0')
        S = build(it, kind, None, 'run')
        S.attrs['i_export'] = 5
        S.attrs['simulation_time'] = Sy('t5')
        pol = it.policy
        f = pol.function(it, 'custom', space=Sy('space:custom'))
        pol.set_content(it, f, Ex('state', 'custom', 'run'))
        it.user['pre'] = {'custom': f}
        it.call(it.getattr(S, 'add_new_field'), [f, 'custom_2d', 'My field', 'MyFile'], dict(preproc_func=('rec', 'custom')))
        it.user['label'] = f.name
        it.call(it.getattr(S, 'create_exporters'), [], {})
        it.event('mark', 0, [])
        it.call(it.getattr(S, 'export'), [], dict(time=Sy('t5')))
        it.event('mark', 1, [])
        it.call(it.getattr(S, 'export'), [], dict(time=Sy('t6')))
        it.event('mark', 'end', [])
        return S
    return body


def solver_exports(ctx):
    for kind in ('2d', '3d'):
        p_ = dict(pins(kind))
        vf, hf = ['elev_2d', 'custom_2d'], ['uv_2d', 'custom_2d']
        p_['options.fields_to_export'], p_['options.fields_to_export_hdf5'] = vf, hf
        where = 'thetis/solver2d.py' if kind == '2d' else 'thetis/solver.py'
        con = '%s solver export' % kind
        ps = explore(ctx.repo, lambda: SolverExportPolicy(p_), body_solver(kind))
        for p in single(ctx, 'export runs', con, ps, where):
            g = p.guards()
            md = p.it.policy.md
            for ix, evs in chunks(p.events, None):
                if ix == 'end':
                    continue
                w = sorted((path(e.fn), e.args[1], e.args[0][0][1]) for e in evs if e.kind == 'vtkwrite')
                want = sorted((vtk_path('out', md[n]['filename']), ix, md[n]['shortname']) for n in vf if n in md)
                ctx.ob('VTK files of an export', '%s %d' % (con, ix), len(want) == 2 and w == want, where, 'writes %s, expected %s [%s]' % (w, want, g))
                h = sorted(path(e.args[1]) for e in evs if e.kind == 'saved')
                want = sorted('out/hdf5/%s_%05d.h5' % (md[n]['filename'], ix) for n in hf if n in md)
                ctx.ob('HDF5 files of an export', '%s %d' % (con, ix), len(want) == 2 and h == want, where, 'writes %s, expected %s [%s]' % (h, want, g))
                pre = [e.fn for e in evs if e.kind == 'preproc']
                ctx.ob('preprocessor of the new field', '%s %d' % (con, ix), pre == ['custom', 'custom'], where, 'called %s [%s]' % (pre, g))
                t = [p.it.user['disk'][key(e.args[1])]['attrs'].get(('/', 'time')) for e in evs if e.kind == 'saved']
                ctx.ob('time of an export', '%s %d' % (con, ix), all(show(x) == 't%d' % (5 + ix) for x in t), where, 'times %s [%s]' % (
                    [show(x) for x in t], g))
            d = md.get('custom_2d') or {}
            ctx.ob('metadata of a new field', con, d == dict(name='My field', shortname='My field', unit='-', filename='MyFile')
                   and p.it.user['label'] == 'custom_2d', where, 'metadata %s, function named %r [%s]' % (d, p.it.user['label'], g))


# ----------------------------------------------------- the two file exporters
def body_hdf5(it):
    d = fields(it)
    r = it.repo
    cls = r.cls('exporter', 'HDF5Exporter')
    a, b = d['a_2d'], d['b_2d']
    x = it.instantiate(cls, [a.meta['space'], 'out', 'pre'], dict(next_export_ix=3, include_time=True, initial_time=Sy('date0')))
    res = {}
    it.call(it.getattr(x, 'export_as_index'), [12, a], dict(time=Sy('t12')))
    res['next'] = x.attrs.get('next_export_ix')
    change(it, d, 5)
    it.call(it.getattr(x, 'export'), [a], dict(time=Sy('t13')))
    res['next2'] = x.attrs.get('next_export_ix')
    res['files'] = sorted(path(v['name']) for v in it.policy.disk(it).values())
    change(it, d, 9)
    c = it.policy.function(it, 'a_2d', space=a.meta['space'])
    res['meta'] = it.call(it.getattr(x, 'load'), [12, c], {})
    res['loaded'] = it.policy.content(it, c)
    res['meta2'] = it.call(it.getattr(x, 'load'), [13, c], {})
    res['loaded2'] = it.policy.content(it, c)
    res['next3'] = x.attrs.get('next_export_ix')
    for nm, f in (('wrong space stored', lambda: it.call(it.getattr(x, 'export'), [b], dict(time=Sy('t')))),
                  ('wrong space loaded', lambda: it.call(it.getattr(x, 'load'), [12, b], {})),
                  ('time missing', lambda: it.call(it.getattr(x, 'export'), [a], {}))):
        try:
            f()
            res[nm] = None
        except RaiseSig as e:
            res[nm] = e.exc
    y = it.instantiate(cls, [a.meta['space'], 'out', 'notime'], {})
    it.call(it.getattr(y, 'export'), [a], {})
    res['meta3'] = it.call(it.getattr(y, 'load'), [0, c], {})
    res['files'] = sorted(path(v['name']) for v in it.policy.disk(it).values())
    return res


def judge_hdf5(ctx, p):
    r, g, con = p.value, p.guards(), 'HDF5Exporter'
    ctx.ob('index', con, (r['next'], r['next2'], r['next3']) == (13, 14, 14), WHERE,
           'next index after export 12, export and loads: %s, expected 13, 14, 14 [%s]' % ([show(r[k]) for k in ('next', 'next2', 'next3')], g))
    ctx.ob('file name', con, set(r['files']) == {'out/pre_00012.h5', 'out/pre_00013.h5', 'out/notime_00000.h5'}
           or set(r['files']) == {'out/pre_00012.h5', 'out/pre_00013.h5', 'out/pre_00014.h5', 'out/notime_00000.h5'}, WHERE,
           'files %s [%s]' % (r['files'], g))

    def val(v):
        return show(stored(v))
    ctx.ob('load reads what export of that index stored', con, val(r['loaded']) == show(Ex('value', 'a_2d', 0))
           and val(r['loaded2']) == show(Ex('value', 'a_2d', 5)), WHERE, 'load(12) gives %s, load(13) %s [%s]' % (
               val(r['loaded']), val(r['loaded2']), g))
    for k, t in (('meta', 't12'), ('meta2', 't13')):
        m = r[k] if isinstance(r[k], dict) else {}
        ctx.ob('load returns the stored time', con + ' ' + k, show(m.get('time')) == t and show(m.get('initial_time_iso')) == ('None' if no_date(p) else 'date0'), WHERE,
               'metadata %s [%s]' % ({a: show(b) for a, b in m.items()}, g))
    m = r['meta3'] if isinstance(r['meta3'], dict) else {'time': 'no dictionary'}
    ctx.ob('missing metadata is reported as None', con, m.get('time') is None and m.get('initial_time_iso') is None, WHERE,
           'metadata %s [%s]' % ({a: show(b) for a, b in m.items()}, g))
    for k in ('wrong space stored', 'wrong space loaded', 'time missing'):
        ctx.ob('misuse is rejected', con + ': ' + k, r[k] is not None, WHERE, 'accepted [%s]' % g)


def body_vtk(it):
    cls = it.repo.cls('exporter', 'VTKExporter')
    out = {}
    d = fields(it)
    for fn in ('abc', 'abc.pvd', 'x', '.pvdx'):
        n0 = len(it.events)
        it.instantiate(cls, [it.obj('VisuSpace', None, of=d['a_2d'].meta['space']), 'A', 'out', fn], {})
        out[fn] = [e.fn for e in it.events[n0:] if e.kind == 'vtkopen']
    # several functions through one exporter
    x = it.instantiate(cls, [it.obj('VisuSpace', None, of=d['a_2d'].meta['space']), 'A', 'out', 'seq'], dict(next_export_ix=2))
    it.call(it.getattr(x, 'set_next_export_ix'), [2], {})
    n0 = len(it.events)
    for k, n in ((1, 'a_2d'), (2, 'b_2d'), (3, 'a_2d'), (4, 'b_2d')):
        change(it, d, k)
        it.call(it.getattr(x, 'export'), [d[n]], {})
    out['seq'] = [(e.args[1], e.args[2], e.args[0][0][2]) for e in it.events[n0:] if e.kind == 'vtkwrite']
    return out


def judge_vtk(ctx, p):
    r, g, con = p.value, p.guards(), 'VTKExporter'
    for fn, want in (('abc', 'abc.pvd'), ('abc.pvd', 'abc.pvd'), ('x', 'x.pvd'), ('.pvdx', '.pvdx.pvd')):
        got = [w.split('/')[-1] for w in r[fn]]
        ctx.ob('suffix added once', '%s(%r)' % (con, fn), got == [want], WHERE, 'the file is %s, expected %s [%s]' % (got, want, g))
        ctx.ob('file in the output directory', '%s(%r)' % (con, fn), all(w.startswith('out/') for w in r[fn]), WHERE, 'file %s [%s]' % (r[fn], g))
    want = [(2 + i, show(Ex('value', n, k))) for i, (k, n) in enumerate(((1, 'a_2d'), (2, 'b_2d'), (3, 'a_2d'), (4, 'b_2d')))]
    got = [(a, show(stored(v))) for a, t, v in r['seq']]
    ctx.ob('the function that was given is written', con, got == want, WHERE, 'writes (number, value) %s, expected %s [%s]' % (got, want, g))


# ------------------------------------------------------- visualization space
class SpacePolicy(StorePolicy):
    def __init__(self, cg, shape, dim):
        super().__init__({})
        self.cg, self.shape, self.dim = cg, shape, dim

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and base.clsname == 'Space':
            if name == 'value_shape':
                return self.shape
            if name in ('mesh',):
                return ('method', base, name)
        if isinstance(base, Ob) and base.clsname == 'Mesh':
            if name in ('cell_dimension', 'ufl_cell', 'geometric_dimension', 'topological_dimension'):
                return ('method', base, name)
        if isinstance(base, Ob) and base.clsname == 'Cell' and name == 'sub_cells':
            return (Sy('tri'), Sy('interval'))
        return super().attr(it, base, name, node)

    def call(self, it, fn, args, kwargs, node):
        if isinstance(fn, Fv) and fn.func.name == 'get_visu_space':
            return NotImplemented
        if isinstance(fn, Ext):
            if fn.short == 'is_cg':
                return self.cg
            if fn.short in ('FiniteElement', 'TensorProductElement', 'FunctionSpace', 'VectorFunctionSpace', 'TensorFunctionSpace'):
                return Ex('call', Ext(fn.short), tuple(args), tuple(sorted(kwargs.items())))
        if isinstance(fn, tuple) and len(fn) == 3 and isinstance(fn[1], Ob):
            if fn[1].clsname == 'Space' and fn[2] == 'mesh':
                return it.user['mesh']
            if fn[1].clsname == 'Mesh':
                if fn[2] == 'cell_dimension':
                    return 2 if self.dim == 2 else (2, 1)
                if fn[2] in ('geometric_dimension', 'topological_dimension'):
                    return self.dim
                return it.obj('Cell')
        return super().call(it, fn, args, kwargs, node)


def visu_spaces(ctx):
    f = ctx.repo.mod('exporter').functions['get_visu_space']
    for dim in (2, 3):
        for cg in (True, False):
            for shape in ((), (2,), (3,), (dim, dim)):
                def body(it):
                    it.user['mesh'] = it.obj('Mesh')
                    return it.call(Fv(f), [it.obj('Space', 'fs')], {})
                con = 'get_visu_space %dD %s shape %s' % (dim, 'continuous' if cg else 'discontinuous', shape)
                for p in single(ctx, 'visualization space', con, explore(ctx.repo, lambda: SpacePolicy(cg, shape, dim), body), f.loc()):
                    v = p.value
                    ok = isinstance(v, Ex) and v.op == 'call'
                    msg = show(v)
                    if ok:
                        ctor, args, kw = v.args[0].short, v.args[1], dict(v.args[2])
                        mesh, elt = args[0], args[1]
                        want = {0: 'FunctionSpace', 1: 'VectorFunctionSpace', 2: 'TensorFunctionSpace'}[len(shape)]
                        ok = ctor == want and mesh is p.it.user['mesh'] and elements(elt) == [
                            ('Lagrange' if cg else 'Discontinuous Lagrange', 1)] * (1 if dim == 2 else 2)
                        if len(shape) == 1:
                            ok = ok and kw.get('dim', args[2] if len(args) > 2 else dim) == shape[0]
                    ctx.ob('visualization space', con, ok, f.loc(), 'is %s' % msg, f.qualname)


NAMES = {'CG': 'Lagrange', 'DG': 'Discontinuous Lagrange', 'P': 'Lagrange', 'DP': 'Discontinuous Lagrange'}


def elements(e):
    if isinstance(e, Ex) and e.op == 'call':
        n = e.args[0].short
        if n == 'TensorProductElement':
            return [x for a in e.args[1] for x in elements(a)]
        if n == 'FiniteElement':
            a = e.args[1]
            return [(NAMES.get(a[0], a[0]), a[2] if len(a) > 2 else dict(e.args[2]).get('degree'))]
    return [show(e)]


# ---------------------------------------------------------------- metadata
def metadata(ctx):
    md = metadata_of(ctx.repo)
    where = 'thetis/field_defs.py'
    files = {}
    for n, d in md.items():
        miss = [k for k in ('name', 'shortname', 'unit', 'filename') if not isinstance(d.get(k), str) or (k != 'unit' and not d[k])]
        ctx.ob('metadata complete', n, not miss, where, 'field %s has no %s' % (n, ', '.join(miss)))
        files.setdefault(d.get('filename'), []).append(n)
    for f, ns in files.items():
        ctx.ob('file name unique', str(f), len(ns) == 1, where, 'fields %s are exported to the same file %s' % (', '.join(ns), f))


@prop('C03', 'over sequences of exports with changing fields, every existing requested field is written once per export to the file of its '
      'metadata with the export number and its current (preprocessed) value; file names, names, attributes, space and metadata table',
      60, TECH)
def c03(ctx):
    metadata(ctx)
    for kind in ('vtk', 'hdf5'):
        for proj in ((False, True) if kind == 'vtk' else (False,)):
            con = 'ExportManager %s%s' % (kind, ' projected' if proj else '')
            for p in single(ctx, 'export runs', con, run(ctx.repo, body_sequence(kind, proj)), WHERE):
                judge_sequence(ctx, kind, p, con)
        con = 'ExportManager.add_export %s' % kind
        for p in single(ctx, 'export runs', con, run(ctx.repo, body_custom(kind)), WHERE):
            judge_custom(ctx, kind, p, con)
    for p in single(ctx, 'export runs', 'HDF5Exporter', run(ctx.repo, body_hdf5), WHERE):
        judge_hdf5(ctx, p)
    for p in single(ctx, 'export runs', 'VTKExporter', run(ctx.repo, body_vtk), WHERE):
        judge_vtk(ctx, p)
    visu_spaces(ctx)
    solver_exports(ctx)
