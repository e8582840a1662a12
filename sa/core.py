"""Check framework: obligations, verdicts, known findings, evidence."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


class Prop:
    def __init__(self, pid, fn, rule, minimum, technique):
        self.pid = pid
        self.fn = fn
        self.rule = rule
        self.minimum = minimum
        self.technique = technique


def prop(pid, rule, minimum, technique):
    """Register the decision procedure of one property.

    rule: what is decided, in one sentence; minimum: number of obligations
    confirmed by hand on the reference tree below which the run is broken."""
    def deco(fn):
        REGISTRY[pid] = Prop(pid, fn, rule, minimum, technique)
        return fn
    return deco


class Ctx:
    def __init__(self, pid, tier, repo):
        self.pid = pid
        self.tier = tier
        self.repo = repo
        self.n = 0
        self.ok = 0
        self.viol = []
        self.undecided = []
        self.by_rule = {}
        self.funcs = set()
        self.samples = []
        self.counts = {}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ob(self, rule, construct, verdict, loc='', msg='', func=None):
        """One obligation.  verdict: True discharged, False violated, None
        undecided (the analysis has no answer)."""
        self.n += 1
        r = self.by_rule.setdefault(rule, [0, 0, 0])
        if func:
            self.funcs.add(func)
        if verdict is True:
            self.ok += 1
            r[0] += 1
            if r[0] <= 2 and len(self.samples) < 24:
                self.samples.append('%s: %s%s' % (rule, construct, (' @ ' + loc) if loc else ''))
        elif verdict is False:
            r[1] += 1
            self.viol.append(dict(rule=rule, construct=construct, loc=loc, msg=msg))
        else:
            r[2] += 1
            self.undecided.append(dict(rule=rule, construct=construct, loc=loc, msg=msg))
        return verdict

    def selftest(self, name, fired):
        """A positive example that the rule must flag on every run."""
        self.count('positive self tests')
        if not fired:
            raise AssertionError('self test of rule %s does not fire' % name)


def load_known():
    """[(property, key, text)] of recorded, unrepaired findings."""
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = line[len('known:'):].strip()
                head, text = d.split('::', 1)
                parts = head.split(None, 1)
                pid = parts[0].split('=', 1)[1]
                k = parts[1].split('=', 1)[1].strip()
                out.append((pid, k, text.strip()))
    return out


def vkey(v):
    return '%s|%s' % (v['rule'], v['construct'])


class TimeUp(BaseException):
    pass


def watch(ctx, t0):
    """stop after SA_TIME seconds, or earlier once a violation is known; what
    was not reached is undecided"""
    limit = int(os.environ.get('SA_TIME', '700' if ctx.tier == 'quick' else '6000'))
    early = min(300, limit)

    def ring(sig, frame):
        if ctx.viol or time.time() - t0 >= limit - 5:
            raise TimeUp()
        signal.alarm(20)
    signal.signal(signal.SIGALRM, ring)
    signal.alarm(early)


def run(pid, tier='quick'):
    from .repo import Repo, AnalysisError
    t0 = time.time()
    p = REGISTRY[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    root = os.environ.get('SA_REPO', '/repo')
    err = None
    repo = Repo(root)
    ctx = Ctx(pid, tier, repo)
    watch(ctx, t0)
    try:
        p.fn(ctx)
    except TimeUp:
        ctx.undecided.append(dict(rule='time limit', construct='remaining obligations', loc='', msg='stopped after %d s' % (time.time() - t0)))
    except Exception as e:
        err = ''.join(traceback.format_exc())
    finally:
        signal.alarm(0)
    known = [(k, t) for q, k, t in load_known() if q == pid]
    kfound, new = [], []
    for v in ctx.viol:
        hit = [t for k, t in known if k == vkey(v)]
        if hit:
            kfound.append((v, hit[0]))
        else:
            new.append(v)
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    files = sorted(repo.files_used()) if hasattr(repo, 'files_used') else sorted(m.relpath for m in repo.modules.values())
    digest = hashlib.sha256()
    for m in sorted(repo.modules.values(), key=lambda m: m.relpath):
        digest.update(open(os.path.join(root, m.relpath), 'rb').read())
    cov = dict(explanation='static analysis of the current source; ' + p.rule,
               rule=p.rule,
               obligations=ctx.n, discharged=ctx.ok, violated=len(ctx.viol), undecided=len(ctx.undecided),
               minimum_obligations=p.minimum,
               by_rule={k: dict(discharged=a, violated=b, undecided=c) for k, (a, b, c) in sorted(ctx.by_rule.items())},
               functions_analysed=sorted(ctx.funcs), n_functions=len(ctx.funcs),
               modules_parsed=len(files), source_sha256=digest.hexdigest(),
               measured=ctx.counts, samples=ctx.samples,
               known_findings=['%s: %s' % (vkey(v), t) for v, t in kfound],
               undecided_obligations=['%(rule)s|%(construct)s: %(msg)s' % u for u in ctx.undecided[:50]])
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=['UFL/Firedrake operators have their documented meaning',
                           'the package is called through its public interface (no monkey patching)'],
              violations=len(new))
    cov['violation_list'] = [dict(v) for v in new][:200]
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    rep = os.path.join(evdir, pid + '.report.txt')
    with open(rep, 'w') as f:
        f.write('property %s\nrule: %s\n' % (pid, p.rule))
        f.write('replay: cd %s && python3 check.py %s\n\n' % (ROOT, pid))
        for v in new:
            f.write('VIOLATION %s\n  at %s\n  %s\n\n' % (vkey(v), v['loc'], v['msg']))
        for u in ctx.undecided:
            f.write('UNDECIDED %s at %s: %s\n' % (vkey(u), u['loc'], u['msg']))
        if err:
            f.write('ANALYSIS ERROR\n' + err)
    print('%s: %d obligations, %d discharged, %d violated (%d known), %d undecided, %d functions, %.1f s' % (
        pid, ctx.n, ctx.ok, len(ctx.viol), len(kfound), len(ctx.undecided), len(ctx.funcs), time.time() - t0))
    seen = set()
    for v, t in kfound:
        if t not in seen:
            seen.add(t)
            print('KNOWN-FINDING: property=%s %s' % (pid, t))
    for u in ctx.undecided[:20]:
        print('UNDECIDED %s|%s at %s: %s' % (u['rule'], u['construct'], u['loc'], u['msg'][:200]))
    shown = set()
    for v in new:
        if vkey(v) in shown:
            continue
        shown.add(vkey(v))
        if len(shown) <= 12:
            print('  %s  [%s] %s: %s' % (v['loc'], v['rule'], v['construct'], v['msg'][:600]))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if err:
        print('ANALYSIS-ERROR property=%s' % pid)
        print(err)
        return 2
    if ctx.n < p.minimum:
        print('ANALYSIS-BROKEN property=%s only %d obligations found (minimum %d)' % (pid, ctx.n, p.minimum))
        return 2
    return 0
