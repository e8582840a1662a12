"""C05: processes of a parallel run stay together."""
import ast

from sa.core import prop
from sa.spmd import Spmd, local_nodes, ordered_statements, is_red, comm_like

TECH = ('interprocedural classification of process dependent values over the syntax tree (fixed point over locals, attributes and return values), '
        'comparison of the sequences of collective calls of the branches of process dependent conditions, flow of locally reduced scalars, '
        'and dominance of file writes by single-process conditions')

WRITE_OS = {'makedirs', 'mkdir', 'remove', 'rename', 'rmdir', 'unlink', 'symlink', 'replace', 'rmtree', 'copyfile', 'copy', 'move', 'copytree',
            'removedirs'}
WRITE_NP = {'save', 'savez', 'savetxt', 'savez_compressed', 'tofile'}


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def str_mode(call, pos):
    for k in call.keywords:
        if k.arg == 'mode':
            return k.value
    return call.args[pos] if len(call.args) > pos else None


def write_of(fn, call):
    """what a call writes on the file system, or None"""
    f = call.func
    if isinstance(f, ast.Name):
        nm, root = f.id, None
    elif isinstance(f, ast.Attribute):
        nm, root = f.attr, root_name(f.value)
    else:
        return None
    if nm == 'open' and root in (None, 'io', 'codecs'):
        m = str_mode(call, 1)
        if m is None:
            return None
        if isinstance(m, ast.Constant):
            return 'open' if any(c in str(m.value) for c in 'wax+') else None
        return 'open'
    if nm == 'File' and root == 'h5py':
        m = str_mode(call, 1)
        if m is None or isinstance(m, ast.Constant) and m.value == 'r':
            return None
        return 'h5py.File'
    if nm == 'Dataset' and root == 'netCDF4':
        m = str_mode(call, 1)
        if m is None or isinstance(m, ast.Constant) and m.value == 'r':
            return None
        return 'netCDF4.Dataset'
    if root in ('os', 'shutil') and nm in WRITE_OS:
        return root + '.' + nm
    if root in ('numpy', 'np') and nm in WRITE_NP:
        return root + '.' + nm
    if nm == 'FileHandler':
        return 'logging.FileHandler'
    return None


def guarded_calls(s, fn):
    """[(call, guarded)] of a function: guarded when executed by one process, or over process local items"""
    out = []

    def expr(e, g):
        if e is None:
            return
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            for x in e.values:
                expr(x, g)
                if s.val(fn, x, fn.env) == 'ROOT':
                    g = True
            return
        if isinstance(e, ast.IfExp):
            c = s.val(fn, e.test, fn.env)
            expr(e.test, g)
            expr(e.body, g or c == 'ROOT')
            expr(e.orelse, g or c == 'NROOT')
            return
        for c in ast.iter_child_nodes(e):
            if not isinstance(c, ast.Lambda):
                expr(c, g)
        if isinstance(e, ast.Call):
            out.append((e, g))

    def ends(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def go(body, g):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(st, ast.If):
                c = s.val(fn, st.test, fn.env)
                expr(st.test, g)
                go(st.body, g or c == 'ROOT')
                go(st.orelse, g or c == 'NROOT')
                if c == 'NROOT' and ends(st.body) or c == 'ROOT' and st.orelse and ends(st.orelse):
                    g = True
                continue
            if isinstance(st, (ast.For, ast.AsyncFor)):
                expr(st.iter, g)
                go(st.body, g or s.val(fn, st.iter, fn.env) == 'LOC')
                go(st.orelse, g)
                continue
            if isinstance(st, ast.While):
                expr(st.test, g)
                go(st.body, g)
                go(st.orelse, g)
                continue
            if isinstance(st, (ast.With, ast.AsyncWith)):
                for i in st.items:
                    expr(i.context_expr, g)
                go(st.body, g)
                continue
            if isinstance(st, ast.Try):
                go(st.body, g)
                for h in st.handlers:
                    go(h.body, g)
                go(st.orelse, g)
                go(st.finalbody, g)
                continue
            for c in ast.iter_child_nodes(st):
                expr(c, g)
    go(fn.node.body, False)
    return out


def analyse(ctx, s, emit=True):
    """all findings: [(rule, construct, loc, msg)]"""
    out = []
    # --- collective calls
    nb = 0
    for fn in s.fns:
        found, st = s.check_sequences(fn)
        nb += st['branches']
        if st['branches']:
            bad = {id(n): (n, t, w) for n, t, w in found}
            if not bad:
                out.append(('processes make the same collective calls', fn.qual, fn.loc(), True, ''))
        for n, t, w in found:
            out.append(('processes make the same collective calls', '%s: %s' % (fn.qual, t), fn.loc(n), False, 'the collective operation %s %s' % (t, w)))
    # --- reductions
    nred = 0
    for fn in s.fns:
        for n in local_nodes(fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'allreduce' and comm_like(n.func.value) and n.args:
                v = s.val_at(fn, n.args[0], n)
                nred += 1
                op = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'op'), None)
                opn = op.attr if isinstance(op, ast.Attribute) else op.id if isinstance(op, ast.Name) else 'SUM' if op is None else None
                if is_red(v) and v[4:] in ('MIN', 'MAX', 'SUM', 'PROD', 'LOR', 'LAND') and opn in ('MIN', 'MAX', 'SUM', 'PROD', 'LOR', 'LAND'):
                    out.append(('a local %s is reduced with the same operation' % v[4:].lower(), '%s: %s' % (fn.qual, ast.unparse(n)[:70]), fn.loc(n),
                                opn == v[4:], 'the processes combine their local %s with %s' % (v[4:].lower(), opn)))
    # --- local scalars must not leave a function unreduced
    for fn in s.fns:
        for st in ordered_statements(fn.node):
            for what, e, n in sinks(fn, st):
                v = s.val_at(fn, e, st)
                if is_red(v):
                    if what == 'returned' and helper(s, fn):
                        continue
                    out.append(('scalars of local data are reduced over all processes', '%s: %s' % (fn.qual, what), fn.loc(n), False,
                                'the %s of the data of one process (%s) is %s without a reduction over the communicator'
                                % (v[4:].lower(), ast.unparse(e)[:60], what)))
    # --- single writers
    sites = {}
    for fn in s.fns:
        fn.calls_g = guarded_calls(s, fn)
        for c, g in fn.calls_g:
            for t in s.callees(fn, c) or []:
                sites.setdefault(t, []).append((fn, g))
    unguarded = {}
    nw = 0
    for fn in s.fns:
        for c, g in fn.calls_g:
            w = write_of(fn, c)
            if w:
                nw += 1
                if g:
                    out.append(('shared files are written by one process', '%s: %s' % (fn.qual, w), fn.loc(c), True, ''))
                else:
                    unguarded.setdefault(fn, []).append((c, w))

    def excused(fn, seen=()):
        if fn in seen:
            return True
        ss = sites.get(fn, [])
        if not ss or not (fn.name.startswith('_') and not fn.name.startswith('__') or fn.outer is not None):
            return False
        return all(g or excused(f, seen + (fn,)) for f, g in ss)
    for fn, ws in unguarded.items():
        ok = excused(fn)
        for c, w in ws:
            out.append(('shared files are written by one process', '%s: %s' % (fn.qual, w), fn.loc(c), ok,
                        'every process executes %s' % ast.unparse(c)[:80]))
    # --- directories exist on return
    for fn in s.fns:
        for st in ordered_statements(fn.node):
            if isinstance(st, ast.If) and s.val(fn, st.test, fn.env) in ('ROOT', 'NROOT'):
                mk = [n for n in local_nodes(st) if isinstance(n, ast.Call) and write_of(fn, n) in ('os.makedirs', 'os.mkdir')]
                rets = [x for x in ordered_statements(fn.node) if isinstance(x, ast.Return) and x.value is not None
                        and x.lineno > mk[0].lineno] if mk else []
                if mk and rets:
                    later = [n for x in fn.node.body for n in ast.walk(x) if isinstance(n, ast.Call) and n.lineno > mk[0].lineno
                             and (s.external_collective(fn, n) in ('barrier', 'Barrier', 'bcast', 'allreduce', 'allgather')
                                  or any(c.colls for c in s.callees(fn, n) or []))]
                    before_all = [n for n in later if n.lineno < rets[-1].lineno]
                    out.append(('a directory made by one process is complete before any process goes on', fn.qual, fn.loc(mk[0]), bool(before_all),
                                'processes return before the directory made by the first process exists'))
    ctx_counts = dict(functions=len(s.fns), collective=sum(f.colls for f in s.fns), branches=nb, reductions=nred, writes=nw)
    return out, ctx_counts


def sinks(fn, st):
    if isinstance(st, ast.Return) and st.value is not None:
        yield 'returned', st.value, st
    if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and st.value is not None:
        for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
            if isinstance(t, ast.Attribute):
                yield 'stored as %s' % ast.unparse(t), st.value, st
    for n in local_nodes(st) if not isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)) else []:
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if nm in ('Constant', 'assign', 'domain_constant', 'append', 'set_dt') and n.args:
                yield 'passed to %s' % nm, n.args[0], n


def helper(s, fn):
    """the callers reduce what the function returns"""
    ss = []
    for g in s.fns:
        for n in local_nodes(g.node):
            if isinstance(n, ast.Call) and fn in (s.callees(g, n) or []):
                ss.append((g, n))
    if not ss:
        return False
    for g, n in ss:
        st = next((x for x in ordered_statements(g.node) if n in list(ast.walk(x)) and not isinstance(
            x, (ast.If, ast.For, ast.While, ast.With, ast.Try))), None)
        if st is None:
            return False
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'allreduce' for x in ast.walk(st)):
            continue
        names = set()
        if isinstance(st, ast.Assign):
            names = {t.id for t in st.targets if isinstance(t, ast.Name)}
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'allreduce' and
                   any(isinstance(y, ast.Name) and y.id in names for a in x.args for y in ast.walk(a)) for x in local_nodes(g.node)):
            return False
    return True


@prop('C05', 'calls made together by all processes are never made by some of them only, scalars of local data are reduced, shared files have one writer',
      30, TECH)
def c05(ctx):
    s = Spmd(ctx.repo)
    out, counts = analyse(ctx, s)
    for k, v in counts.items():
        ctx.count(k, v)
    for rule, construct, loc, ok, msg in out:
        ctx.ob(rule, construct, ok, loc=loc, msg=msg, func=construct.split(':')[0])
