"""All weak forms of the package, extracted in parallel from the source."""
import multiprocessing
import os
from .repo import Repo, AnalysisError
from . import eqs
from .absint import show

FAMILIES = {c.__name__: c for c in (eqs.SWE, eqs.ModeSplit2D, eqs.FreeSurface, eqs.SWMomentum, eqs.Tracer2D, eqs.Sediment2D,
                                    eqs.Exner, eqs.Tracer3D, eqs.Momentum3D)}

_REPO = None


def repo():
    global _REPO
    if _REPO is None:
        _REPO = Repo(os.environ.get('SA_REPO', '/repo'))
    return _REPO


class Rec:
    """One weak form: a term under one guard partition."""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def where(self):
        return '%s %s.residual [bc=%s, %s]%s' % (self.loc, self.clsname, self.bc, cont_str(self.cont),
                                                  (' when ' + self.guards) if self.guards else '')


def cont_str(c):
    return ', '.join('%s=%s' % (k, v[0]) for k, v in c.items())


def _job(a):
    fam, var, cont, terms, bcs, lag = a
    f = FAMILIES[fam]()
    f.keep_lag = lag
    r = repo()
    out = []
    try:
        f.variants = lambda: [var]
        for d in f.forms(r, terms=terms, bcs=bcs, continuities=[cont]):
            m = d['cls'].find_method('residual')
            given = {}
            opts = {}
            for c, v, _ in d['path'].factlog:
                s = show(c)
                if s.startswith('given('):
                    given[s[6:-1]] = v
                else:
                    opts[s] = v
            out.append(Rec(family=fam, var=var, term=d['term'], clsname=d['cls'].name, label=d['label'], bc=d['bc'],
                           cont=cont, guards=d['guards'], form=d['form'], given=given, opts=opts,
                           bnd_used=bool(d['path'].it.user.get('bnd_used')),
                           raised=None if d['raised'] is None else (d['raised'].exc, d['raised'].loc),
                           loc=m.loc() if m else '?', func=m.qualname if m else '?'))
    except AnalysisError as e:
        return a, out, str(e)
    return a, out, None


def jobs(families, repo_, terms=None, bcs=None, lag=False):
    js = []
    for fam in families:
        f = FAMILIES[fam]()
        for var in f.variants():
            for cont in f.continuities:
                for tn, info in f.term_names_variant(repo_, var, cont).items():
                    if terms is not None and info[0].name not in terms:
                        continue
                    js.append((fam, var, cont, [info[0].name], bcs, lag))
    # dedupe (terms of one class with several names are handled together)
    seen, out = set(), []
    for j in js:
        k = repr(j)
        if k not in seen:
            seen.add(k)
            out.append(j)
    # expensive ones first
    out.sort(key=lambda j: 0 if 'Viscosity' in j[3][0] else 1)
    return out


def collect(families, terms=None, bcs=None, procs=None, lag=False):
    """(records, errors): errors are analyses without an answer."""
    r = repo()
    js = jobs(families, r, terms, bcs, lag)
    procs = procs or min(8, os.cpu_count() or 1)
    recs, errs = [], []
    if procs > 1 and len(js) > 2:
        with multiprocessing.get_context('fork').Pool(procs) as pool:
            res = pool.map(_job, js, chunksize=1)
    else:
        res = [_job(j) for j in js]
    for a, out, err in res:
        recs.extend(out)
        if err:
            errs.append(('%s %s %s' % (a[0], a[3][0], cont_str(a[2])), err))
    return recs, errs
