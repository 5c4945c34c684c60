"""Obligations, evidence, known findings and exit codes of one check."""
import contextlib
import json
import os
import time
import traceback

from . import terms as T
from .interp import Interp, PathLimit, explore, Outcome
from .values import Unsupported, PyRaise, VFunc, VBound, VClass, VProperty, VStatic, VClassMethod, VInst

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


class Prop:
    def __init__(self, pid, fn, rule, minimum, technique, note):
        self.pid, self.fn, self.rule, self.minimum = pid, fn, rule, minimum
        self.technique, self.note = technique, note


def prop(pid, rule, minimum, technique='', note=''):
    def deco(fn):
        REGISTRY[pid] = Prop(pid, fn, rule, minimum, technique, note)
        return fn
    return deco


def func_of(f):
    while True:
        if isinstance(f, VBound):
            f = f.func
        elif isinstance(f, (VProperty, VStatic, VClassMethod)):
            f = f.f
        else:
            return f


def where(f):
    """file:line qualname of a function or class of the repository."""
    f = func_of(f)
    if isinstance(f, (VFunc, VClass)) and f.node is not None:
        return '%s:%d %s' % (f.module.path, f.node.lineno, f.qualname)
    return str(f)


class Violation:
    def __init__(self, key, loc, msg):
        self.key, self.loc, self.msg = key, loc, msg


class Ctx:
    def __init__(self, prop, repo, tier, seed):
        self.prop = prop
        self.repo = repo
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.inconclusive = []
        self.counts = {}
        self.samples = []
        self.interps = []
        self.assumptions = []
        self.path_map = None
        self.verdicts = {}
        self.path = None          # trace partition whose decisions `equal` assumes

    def paths(self, key, i, fn, loc='', assume=None, limit=400):
        """Analyse fn on every trace partition; yields its value with the partition's facts in force."""
        n = 0
        for o in explore(i, fn, assume, limit):
            if o.kind == 'raise':
                self.fail(key, loc, 'the analysed code raises %s on path %s' % (exc_text(o.value), o.path()[-4:]))
                continue
            n += 1
            self.path = o
            try:
                yield o.value
            finally:
                self.path = None
        self.count('paths', n)

    # -- engine

    def interp(self, **stubs):
        i = Interp(self.repo)
        i.stubs.update(stubs)
        self.interps.append(i)
        return i

    def seeds(self):
        n = 8 if self.thorough else 3
        return tuple('%s.%d' % (self.seed, k) for k in range(n))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # -- obligations

    def ok(self, key, cond, loc='', msg=''):
        """One obligation with an already decided verdict."""
        self.obligations += 1
        if cond:
            self.discharged += 1
            if len(self.samples) < 12:
                self.samples.append('%s: %s' % (key, loc))
        else:
            self.violations.append(Violation(key, str(loc), msg))
        return bool(cond)

    def fail(self, key, loc='', msg=''):
        return self.ok(key, False, loc, msg)

    def inconcl(self, key, loc, msg):
        self.obligations += 1
        self.inconclusive.append((key, str(loc), msg))

    def equal(self, key, a, b, loc='', msg='', **kw):
        """Obligation: terms a and b have the same value number."""
        kw.setdefault('seeds', self.seeds())
        if a is None or b is None or isinstance(a, (str, VInst)) or isinstance(b, (str, VInst)):
            return self.ok(key, a is b, loc, msg + ' [got %s, expected %s]' % (show(a), show(b)))
        if self.path is not None:
            env = self.path.equalities()
            if env:
                a, b = [T.substitute(x, env) if isinstance(x, T.Term) else x for x in (a, b)]
            pm = self.path_map or (lambda c: c)
            kw.setdefault('path', [(pm(T.substitute(c, env)), v) for c, v in self.path.decisions if isinstance(c, T.Term)])
        try:
            memo = None
            if set(kw) <= {'seeds', 'dom', 'path', 'tol'}:
                memo = (a, b, tuple(kw['seeds']), kw.get('dom'), tuple(kw.get('path') or ()), kw.get('tol'))
            v, w = self.verdicts[memo] if memo in self.verdicts else T.equal(a, b, want=len(kw['seeds']), **kw)
            if memo:
                self.verdicts[memo] = v, w
            if v is None:
                self.count('vacuous')
                return None
        except (T.Inconclusive, T.TermError) as e:
            self.inconcl(key, loc, str(e))
            return None
        return self.ok(key, v, loc, '%s [got %s; expected %s; %s]' % (msg, show(a), show(b), w))

    @contextlib.contextmanager
    def guard(self, key, loc='', raises_ok=False):
        """Everything inside belongs to obligation `key`; unsupported constructs make it inconclusive."""
        try:
            yield
        except PyRaise as e:
            self.fail(key, loc, 'the analysed code raises %s' % exc_text(e.value))
        except (Unsupported, PathLimit, T.TermError, T.Inconclusive) as e:
            self.inconcl(key, loc, '%s: %s' % (type(e).__name__, e))
        except RecursionError:
            self.inconcl(key, loc, 'recursion limit')
        except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError) as e:
            self.inconcl(key, loc, 'analyser: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4)))


def exc_text(v):
    if isinstance(v, VInst):
        return '%s%s' % (v.name, tuple(str(a)[:160] for a in v.attrs.get('args', ())))
    return str(v)


def show(x):
    try:
        s = T.show(x, 7) if isinstance(x, T.Term) else str(x)
    except Exception:
        s = object.__repr__(x)
    return s if len(s) < 400 else s[:400] + '…'


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                parts = line.split(None, 3)
                pid = parts[1].split('=', 1)[1]
                key = parts[2].split('=', 1)[1]
                out.setdefault(pid, {})[key] = parts[3] if len(parts) > 3 else ''
    return out


def run(pid, repo, tier, seed):
    p = REGISTRY[pid]
    t0 = time.time()
    ctx = Ctx(p, repo, tier, seed)
    err = None
    T.reset_search()
    try:
        p.fn(ctx)
    except PyRaise as e:
        ctx.fail('toplevel', '', 'the analysed code raises %s' % exc_text(e.value))
    except (Unsupported, PathLimit, T.TermError, T.Inconclusive) as e:
        ctx.inconcl('toplevel', '', '%s: %s' % (type(e).__name__, e))
    except Exception:
        err = traceback.format_exc()
    known = known_findings().get(pid, {})
    new = [v for v in ctx.violations if v.key not in known]
    old = [v for v in ctx.violations if v.key in known]
    funcs = sorted(set().union(*[i.functions_seen for i in ctx.interps])) if ctx.interps else []
    mods = sorted(set().union(*[set(i.modules) for i in ctx.interps])) if ctx.interps else []
    unm = sorted(set().union(*[i.unmodelled for i in ctx.interps])) if ctx.interps else []
    cov = {'explanation': p.rule, 'obligations': ctx.obligations, 'discharged': ctx.discharged,
           'inconclusive': len(ctx.inconclusive), 'minimum_obligations': p.minimum,
           'modules_analysed': mods, 'functions_analysed': len(funcs), 'functions': funcs[:400],
           'uninterpreted_library_calls': unm, 'samples': ctx.samples,
           'known_findings_seen': [v.key for v in old]}
    cov['partitions_reached_by_directed_search'] = T.STEER['found']
    cov['partitions_not_reached_by_directed_search'] = T.STEER['none']
    cov.update({'count_' + k: v for k, v in ctx.counts.items()})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 3), 'violations': len(new),
          'assumptions': ctx.assumptions}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rep = os.path.join(VERIF, 'evidence', pid + '.report.txt')
    with open(rep, 'w') as f:
        f.write('property %s\nrule: %s\n' % (pid, p.rule))
        for v in new:
            f.write('VIOLATION %s\n  at %s\n  %s\n' % (v.key, v.loc, v.msg))
        for v in old:
            f.write('KNOWN-FINDING %s\n  at %s\n  %s\n' % (v.key, v.loc, v.msg))
        for k, l, m in ctx.inconclusive:
            f.write('INCONCLUSIVE %s\n  at %s\n  %s\n' % (k, l, m))
        if err:
            f.write(err)
    print('%s: %d obligations, %d discharged, %d violations (%d known), %d inconclusive, %d functions, %.1fs'
          % (pid, ctx.obligations, ctx.discharged, len(ctx.violations), len(old), len(ctx.inconclusive),
             len(funcs), time.time() - t0))
    for v in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[v.key] or v.msg[:200], v.key))
    shown = set()
    for v in new:
        if v.key not in shown and len(shown) < 12:
            shown.add(v.key)
            print('  %s\n    at %s\n    %s' % (v.key, v.loc, v.msg[:260]))
    for k, l, m in ctx.inconclusive[:6]:
        print('  INCONCLUSIVE %s at %s: %s' % (k, l, m[-600:]))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if err:
        print(err)
        return 2
    if ctx.inconclusive:
        return 2
    if ctx.obligations < p.minimum:
        print('ANALYSIS-BROKEN: only %d obligations, %d confirmed by hand' % (ctx.obligations, p.minimum))
        return 2
    return 0
