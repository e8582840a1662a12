"""Shared by the checks that work on the extracted weak forms."""
from fractions import Fraction
from sa import formdb
from sa.forms import Form, T, fatom, INTERIOR, EXTERIOR
from sa.poly import Poly, make_fn
from sa.strong import *          # noqa
from sa.repo import AnalysisError

_CACHE = {}


def records(ctx, families, terms=None, bcs=None, lag=False):
    """Weak forms of the families; analysis failures become undecided."""
    k = (tuple(families), tuple(terms) if terms else None, repr(bcs), lag)
    if k not in _CACHE:
        _CACHE[k] = formdb.collect(list(families), terms, bcs, lag=lag)
    recs, errs = _CACHE[k]
    for what, msg in errs:
        ctx.ob('extract', what, None, msg=msg)
    ctx.count('weak forms', len(recs))
    for r in recs:
        ctx.funcs.add(r.func)
    return recs


FAM = {}


def fam(name):
    if name not in FAM:
        FAM[name] = formdb.FAMILIES[name]()
    return FAM[name]


def TEST(rec):
    f = rec.family
    if f in ('SWE', 'ModeSplit2D', 'FreeSurface', 'SWMomentum'):
        return 'eta_test' if rec.clsname in CONTINUITY else 'u_test'
    return 'test'


CONTINUITY = {'HUDivTerm', 'ContinuitySourceTerm', 'BathymetryDisplacementMassTerm'}
def test_of(form):
    """name of the test function occurring in a form"""
    names = set()
    for p in form.m.values():
        for a in p.atoms():
            if a[0] == 'f' and a[1] in ('test', 'u_test', 'eta_test'):
                names.add(a[1])
    return names.pop() if len(names) == 1 else None


def canon(rec):
    return rec.form


def items(form):
    return [] if form is None else list(form.m.items())


class Need(Exception):
    def __init__(self, key):
        self.key = key


class Opts:
    """The guards of a record; unknown guards are forked on."""
    def __init__(self, rec, extra):
        self.rec = rec
        self.extra = extra

    def given(self, name):
        for k in (name, name + '^'):
            if k in self.rec.given:
                return self.rec.given[k]
        if ('g', name) in self.extra:
            return self.extra[('g', name)]
        raise Need(('g', name))

    def opt(self, name):
        for k in self.rec.opts:
            if k == name or k.endswith('.' + name) or k.strip('()') == name:
                return self.rec.opts[k]
        if ('o', name) in self.extra:
            return self.extra[('o', name)]
        raise Need(('o', name))


def completions(rec, ref):
    """Evaluate ref(Opts) for every completion of the guards it asks for."""
    out = []
    work = [{}]
    while work:
        ex = work.pop()
        try:
            out.append((ex, ref(Opts(rec, ex))))
        except Need as n:
            for v in (True, False):
                d = dict(ex)
                d[n.key] = v
                work.append(d)
    return out


def depth(e, o, eta=None, bath=None):
    """documented total depth"""
    b = bath or e.s('bath')
    if not o.opt('nonlinear_depth'):
        return b
    h = b + (eta if eta is not None else e.s('eta'))
    if o.opt('wetting_drying'):
        a = e.s('wd_alpha')
        h = h + (sqrt(h * h + a * a) - h) * Fraction(1, 2)
    return h


def short(p, n=240):
    s = repr(p)
    return s if len(s) <= n else s[:n] + '…'


def cname(rec, extra=''):
    g = rec.guards
    return '%s.%s%s' % (rec.family, rec.term, extra)
