"""C06: log files are complete."""
import ast
import itertools

from sa.core import prop
from sa.absint import explore, Sy, Ex, Ext, Ob, Fv, Policy, RaiseSig, show
from sa.repo import AnalysisError, ClassInfo
from sa.spmd import local_nodes

TECH = ('abstract interpretation of the logging set-up with abstract loggers, handlers, buffers and files over sequences of messages and '
        'directory changes, on the first and on the other processes; who attaches file handlers')


class LogPolicy(Policy):
    def __init__(self, rank, files):
        self.rank = rank
        self.files0 = files

    def fs(self, it):
        if 'files' not in it.user:
            it.user['files'] = {k: list(v) for k, v in self.files0.items()}
            it.user['dirs'] = {k.rsplit('/', 1)[0] for k in self.files0}
            it.user['loggers'] = {}
            it.user['touched'] = []
        return it.user['files']

    def logger(self, it, name):
        self.fs(it)
        d = it.user['loggers']
        if name not in d:
            o = it.obj('Logger', name)
            o.attrs['handlers'] = []
            o.meta['logger'] = name
            o.attrs['propagate'] = True
            d[name] = o
        return d[name]

    def emit(self, it, lg, rec):
        files = self.fs(it)
        if lg.attrs.get('propagate') is not False:
            it.event('propagated', lg.meta['logger'], [rec], {}, None)
        for h in lg.attrs['handlers']:
            k = h.meta.get('h')
            if k == 'file':
                files.setdefault(h.meta['path'], []).append(rec)
            elif k == 'stream':
                s = h.attrs.get('stream')
                if isinstance(s, Ob) and s.meta.get('sio'):
                    s.meta['text'].append(rec)
                else:
                    it.event('screen', lg.meta['logger'], [rec], {}, None)

    def handler(self, it, kind, isa, **kw):
        o = it.obj(kind, kind)
        o.meta.update(h={'FileHandler': 'file', 'NullHandler': 'null'}.get(kind, 'stream'), isa=isa, **kw)
        return o

    def name(self, it, name, module):
        if name == 'COMM_WORLD':
            return self.comm(it)
        return NotImplemented

    def comm(self, it):
        if 'comm' not in it.user:
            c = it.obj('Comm', 'comm')
            c.attrs.update(rank=self.rank, size=2)
            it.user['comm'] = c
        return it.user['comm']

    def instantiate(self, it, cls, args, kwargs, node):
        names = {b.split('.')[-1] for b in cls.external_bases()}
        if names & {'StreamHandler', 'FileHandler', 'MemoryHandler'}:
            o = it.obj(cls, cls.name)
            o.meta['h'] = 'stream'
            o.attrs['stream'] = kwargs.get('stream', args[0] if args else None)
            return o
        return NotImplemented

    def attr(self, it, base, name, node):
        if isinstance(base, Ob) and (base.meta.get('logger') or base.meta.get('h') or base.meta.get('sio') or base.meta.get('fh')
                                     or base.cls == 'Comm' and name in ('barrier', 'Barrier')) \
                and name not in base.attrs:
            return ('method', base, name)
        return NotImplemented

    def call(self, it, fn, args, kwargs, node):
        files = self.fs(it)
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == 'method' and isinstance(fn[1], Ob):
            o, n = fn[1], fn[2]
            if o.cls == 'Comm':
                return None
            if o.meta.get('logger'):
                if n in ('info', 'warning', 'debug', 'error', 'critical'):
                    self.emit(it, o, args[0])
                    return None
                if n == 'log':
                    self.emit(it, o, args[1])
                    return None
                if n == 'addHandler':
                    if not any(h is args[0] for h in o.attrs['handlers']):
                        o.attrs['handlers'].append(args[0])
                    return None
                if n == 'removeHandler':
                    hs = o.attrs['handlers']
                    for i, h in enumerate(hs):
                        if h is args[0]:
                            del hs[i]
                            break
                    return None
                if n == 'hasHandlers':
                    return bool(o.attrs['handlers'])
                if n in ('setLevel', 'addFilter'):
                    return None
            if o.meta.get('h'):
                if n in ('setFormatter', 'setLevel', 'flush', 'close'):
                    return None
            if o.meta.get('sio'):
                if n == 'getvalue':
                    return Ex('text', *o.meta['text'])
                if n in ('truncate', 'seek', 'close'):
                    if n in ('truncate', 'close'):
                        o.meta['text'] = []
                    return None
                if n == 'write':
                    o.meta['text'].append(args[0])
                    return None
            if o.meta.get('fh'):
                if n == 'write':
                    v = args[0]
                    files[o.meta['fh']].extend(v.args if isinstance(v, Ex) and v.op == 'text' else [v] if v != '' else [])
                    return None
                if n == 'read':
                    return Ex('text', *files[o.meta['fh']])
                if n in ('__enter__',):
                    return o
                if n in ('close', '__exit__', 'flush'):
                    return None
        if isinstance(fn, Ext):
            s = fn.short
            full = fn.name
            if s == 'getLogger':
                return self.logger(it, args[0])
            if s == 'StringIO':
                o = it.obj('StringIO', 'buffer')
                o.meta.update(sio=True, text=[])
                return o
            if s == 'Formatter':
                return Ex('formatter', *(list(args) + list(kwargs.values())))
            if s == 'StreamHandler':
                o = self.handler(it, 'StreamHandler', ('StreamHandler', 'Handler'))
                o.attrs['stream'] = kwargs.get('stream', args[0] if args else None)
                return o
            if s == 'NullHandler':
                return self.handler(it, 'NullHandler', ('NullHandler', 'Handler'))
            if s == 'FileHandler':
                p = norm(args[0])
                m = kwargs.get('mode', args[1] if len(args) > 1 else 'a')
                self.touch(it, p, 'FileHandler')
                if m == 'w' or p not in files:
                    files[p] = []
                return self.handler(it, 'FileHandler', ('FileHandler', 'StreamHandler', 'Handler'), path=p)
            if s == 'open':
                p = norm(args[0])
                m = kwargs.get('mode', args[1] if len(args) > 1 else 'r')
                if not isinstance(m, str):
                    raise AnalysisError('mode of open')
                if m[0] in 'wax' or '+' in m:
                    self.touch(it, p, 'open')
                    if p.rsplit('/', 1)[0] not in it.user['dirs']:
                        raise RaiseSig('FileNotFoundError', it.loc(node))
                if m[0] == 'w' or p not in files:
                    files[p] = []
                o = it.obj('TextFile', p)
                o.meta['fh'] = p
                return o
            if s == 'join' and 'path' in full:
                return '/'.join(str(a) for a in args)
            if s in ('isfile',):
                return norm(args[0]) in files
            if s == 'isdir':
                return norm(args[0]) in it.user['dirs']
            if s == 'exists' and 'path' in full:
                return norm(args[0]) in files or norm(args[0]) in it.user['dirs']
            if s in ('remove', 'unlink') and args and isinstance(args[0], str):
                self.touch(it, norm(args[0]), s)
                files.pop(norm(args[0]), None)
                return None
            if s in ('makedirs', 'mkdir'):
                self.touch(it, norm(args[0]), s)
                it.user['dirs'].add(norm(args[0]))
                return None
            if s in ('split', 'dirname', 'basename') and 'path' in full:
                d, b = args[0].rsplit('/', 1) if '/' in args[0] else ('', args[0])
                return {'split': (d, b), 'dirname': d, 'basename': b}[s]
            if s == 'isinstance' and isinstance(args[0], Ob) and args[0].meta.get('isa'):
                ts = args[1] if isinstance(args[1], (tuple, list)) else (args[1],)
                return any((t.short if isinstance(t, Ext) else getattr(getattr(t, 'cls', None), 'name', None)) in args[0].meta['isa'] for t in ts)
        return NotImplemented

    def touch(self, it, p, how):
        it.user['touched'].append((how, p))


def norm(p):
    if not isinstance(p, str):
        raise AnalysisError('path %s' % show(p))
    while '//' in p:
        p = p.replace('//', '/')
    return p.rstrip('/')


def script(repo, rank, files, steps):
    def body(it):
        m = repo.mod('log')
        it.policy.fs(it)
        setup = Fv(repo.func('log', 'set_thetis_loggers'))
        setdir = Fv(repo.func('log', 'set_log_directory'))
        comm = it.policy.comm(it)
        it.call(setup, [], dict(comm=comm))
        for st in steps:
            if st[0] == 'dir':
                it.call(setdir, [st[1]], dict(comm=comm, mode=st[2]))
            elif st[0] == 'setup':
                it.call(setup, [], dict(comm=comm))
            else:
                it.call(it.global_name({'thetis': 'warning', 'thetis_output': 'print_output'}[st[0]], m), [st[1]], {})
        return dict(files=it.user['files'], touched=it.user['touched'], screen=[e.args[0] for e in it.events if e.kind == 'screen'],
                    prop=[e.args[0] for e in it.events if e.kind == 'propagated'])
    return explore(repo, lambda: LogPolicy(rank, files), body)


T, O = 'thetis', 'thetis_output'
BASE = [(T, 'a1'), (O, 'a2')]
SCENARIOS = [
    # name, files before, steps, expected {file: records}, switched directory
    ('new directory', {}, BASE + [('dir', 'out', 'w'), (T, 'b1'), (O, 'b2')], {'out/log': ['a1', 'a2', 'b1', 'b2']}),
    ('nothing logged before', {}, [('dir', 'out', 'w'), (O, 'b1')], {'out/log': ['b1']}),
    ('overwriting an old log', {'out/log': ['old']}, BASE + [('dir', 'out', 'w'), (O, 'b1')], {'out/log': ['a1', 'a2', 'b1']}),
    ('appending to an old log', {'out/log': ['old']}, BASE + [('dir', 'out', 'a'), (O, 'b1')], {'out/log': ['old', 'a1', 'a2', 'b1']}),
    ('appending without an old log', {}, BASE + [('dir', 'out', 'a'), (O, 'b1')], {'out/log': ['a1', 'a2', 'b1']}),
    ('directory set twice', {}, BASE + [('dir', 'out', 'w'), (O, 'b1'), ('dir', 'out', 'w'), (O, 'b2')], {'out/log': ['a1', 'a2', 'b1', 'b2']}),
    ('directory set twice, appending', {'out/log': ['old']}, BASE + [('dir', 'out', 'a'), (O, 'b1'), ('dir', 'out', 'a'), (O, 'b2')],
     {'out/log': ['old', 'a1', 'a2', 'b1', 'b2']}),
    ('second directory', {}, BASE + [('dir', 'out', 'w'), (O, 'b1'), ('dir', 'new', 'w'), (O, 'c1'), (T, 'c2')], None),
    ('third directory', {}, [('dir', 'out', 'w'), (O, 'b1'), ('dir', 'new', 'w'), (O, 'c1'), ('dir', 'x', 'w'), (O, 'd1'), (T, 'd2')], None),
]


@prop('C06', 'the log file holds every message once and in order, continued runs append, and only the first process writes it', 20, TECH)
def c06(ctx):
    repo = ctx.repo
    where = 'thetis/log.py'
    for name, files, steps, want in SCENARIOS:
        for rank in (0, 1):
            con = '%s, process %d' % (name, rank)
            ps = script(repo, rank, files, steps)
            for p in ps:
                if p.outcome == 'raise':
                    ctx.ob('the log can be set up', con, False, str(p.value.loc), 'raises %s' % p.value.exc)
                    continue
                r = p.value
                msgs = [s[1] for s in steps if s[0] in (T, O)]
                if rank == 1:
                    ctx.ob('only the first process touches the file system', con, not r['touched'], where, 'does %s' % r['touched'][:3])
                    ctx.ob('only the first process prints', con, not [x for x in r['screen'] if x in msgs] and not r['prop'], where, 'prints %s' % r['screen'][:3])
                    continue
                ctx.ob('every message is shown once', con, [x for x in r['screen'] if x in msgs] == msgs and not r['prop'], where,
                       'shows %s' % [x for x in r['screen'] if isinstance(x, str)])
                if want is not None:
                    for fn, recs in want.items():
                        got = r['files'].get(fn)
                        ctx.ob('the log file holds every message once', con, got == recs, where, '%s holds %s, expected %s' % (fn, got, recs))
                    ctx.ob('nothing else is written', con, set(r['files']) == set(want), where, 'files %s' % sorted(r['files']))
                else:
                    groups = []
                    cur = None
                    for s in steps:
                        if s[0] == 'dir':
                            cur = s[1] + '/log'
                            groups.append((cur, []))
                        elif cur:
                            groups[-1][1].append(s[1])
                    for fn, recs in groups:
                        got = r['files'].get(fn, [])
                        ok = [x for x in got if x in recs] == recs and not any(
                            x in got for g, rr in groups if g != fn for x in rr)
                        ctx.ob('messages go to the log of the current directory', '%s: %s' % (con, fn), ok, where, '%s holds %s' % (fn, [
                            x if isinstance(x, str) else show(x) for x in got]))
    # nobody else attaches file handlers to these loggers
    n = 0
    for m in repo.modules.values():
        if m.name.endswith('.log'):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                f = x.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
                if nm in ('FileHandler', 'addHandler'):
                    n += 1
                    ctx.ob('messages are written to the log file once', '%s: %s' % (m.name, nm), False, '%s:%d' % (m.relpath, x.lineno),
                           'a second handler writes the messages to the log again: %s' % ast.unparse(x)[:70])
    ctx.ob('messages are written to the log file once', 'handlers attached outside of log.py', n == 0, where)
    # the solvers choose the mode by keep_log
    for mod, cls in (('solver2d', 'FlowSolver2d'), ('solver', 'FlowSolver')):
        c = repo.cls(mod, cls)
        ctx.ob('the directory is set by the solver', cls, any(
            isinstance(x, ast.Call) and (getattr(x.func, 'id', None) or getattr(x.func, 'attr', None)) == 'set_log_directory'
            for f in c.methods.values() for x in local_nodes(f.node)) or None, c.loc())
