"""C14-C16: events, post-processing of inflation's start and end, wiring of the ODE solver."""
import itertools
from ..bg import *  # noqa
from ..report import exc_text

EVENTS = 'primpy.events:'
VALUE = T.sym('value')


def edom(t):
    if t.op == 'sym' and t.args[0].split('#')[0].split('@')[0] in ('_N',):
        return (0.5, 2)
    return domain()(t)


def fvals(ctx, dom, n, **fixed):
    for s in range(n):
        yield T.Valuation('%s/%d' % (ctx.seed, s), dom=dom, fixed=fixed.get('fixed'))


def same_sign(ctx, key, got, f, loc, msg, log=False):
    """got has the sign of f - value (log: of ln f - ln value) everywhere, in particular right next to the root."""
    got, f = T.lift(got), T.lift(f)
    n = 0
    for s in range(24 if ctx.thorough else 8):
        v = T.Valuation('%s/%s/%d' % (ctx.seed, key, s), dom=edom)
        x = v(f)
        if log and x <= 0:
            continue
        for e in (-1, -T.mpf(10)**-9, 0, T.mpf(10)**-9, 1):
            val = x * T.mpmath.exp(e) if log else x + e
            y = T.Valuation('%s/%s/%d' % (ctx.seed, key, s), dom=edom, fixed={VALUE: val})(got)
            y = y if abs(y) > T.mpf(10)**-20 else 0
            n += 1
            if (y > 0) - (y < 0) != (e < 0) - (e > 0):
                return ctx.fail(key, loc, msg)
    ctx.ok(key, n > 0, loc, 'no valuation')


def event(i, name, *a, **kw):
    return i.call(i.get(EVENTS + name), list(a), kw)


@prop('C14', 'Every event vanishes exactly where the tracked condition is met, with the sign that makes directions mean '
      'what they say; direction, terminal flag and names identify the event, and a start of integration is no transition.', 200,
      technique='abstract interpretation of event functions; sign comparison next to the root by random interpretation; enumeration of names')
def c14(ctx):
    i = ctx.interp()
    for kind in KINDS:
        with ctx.guard(kind):
            for conf in ({'track_eta': True}, {}) if kind == 't' else ({'track_time': True, 'track_eta': True}, {'track_time': True}):
                events_of(ctx, i, kind, conf)
    with ctx.guard('names'):
        names(ctx, i)
    with ctx.guard('defaults'):
        eq = equations(i, 't')
        stop = {'UntilTEvent': True, 'UntilNEvent': True, 'InflationEvent': False, 'AfterInflationEndEvent': True, 'CollapseEvent': True,
                'Phi0Event': True, 'ModeExitEvent': True}
        for c, term in stop.items():
            e = event(i, c, eq, **({'value': VALUE} if c in NEEDS_VALUE else {}))
            loc = where(i.get(EVENTS + c))
            ctx.ok('%s.terminal' % c, i.getattr(e, 'terminal') is term, loc, 'default terminal=%s' % show(i.getattr(e, 'terminal')))
            want = 1 if c == 'AfterInflationEndEvent' else 0
            ctx.ok('%s.direction' % c, T.lift(i.getattr(e, 'direction')) is T.num(want), loc, 'default direction=%s' % show(i.getattr(e, 'direction')))


NEEDS_VALUE = ('UntilTEvent', 'UntilNEvent', 'ModeExitEvent')


def events_of(ctx, i, kind, conf):
    eq = equations(i, kind, **conf)
    x, y, ix = state(i, eq, kind)
    at = lambda n: T.lift(call(i, eq, n, x, y))  # noqa
    tag = '%s[%s]' % (kind, ','.join(conf))
    H2, w, inf = at('H2'), at('w'), at('inflating')
    aH = T.mul(T.fn('exp', NN), T.fn('sqrt', H2))
    table = {'UntilTEvent': TT, 'UntilNEvent': NN, 'InflationEvent': inf, 'AfterInflationEndEvent': w, 'CollapseEvent': H2,
             'Phi0Event': PHI, 'ModeExitEvent': aH}
    for c, f in table.items():
        cls = i.get(EVENTS + c)
        loc = where(i.class_attr(cls, '__call__'))
        for d, term in itertools.product((-1, 0, 1), (True, False)):
            e = event(i, c, eq, value=VALUE, direction=d, terminal=term)
            g = i.call(e, [x, y], {})
            if (d, term) == (1, True) or ctx.thorough:
                same_sign(ctx, '%s.%s.%d%d.root' % (tag, c, d, term), g, f, loc, 'does not change sign where %s reaches the value' % c,
                          log=c == 'ModeExitEvent')
            ctx.ok('%s.%s.%d%d.flags' % (tag, c, d, term), T.lift(i.getattr(e, 'direction')) is T.num(d)
                   and i.getattr(e, 'terminal') in (term, int(term)), where(cls), 'direction or terminal flag is not the requested one')
        if c not in NEEDS_VALUE:
            e = event(i, c, eq)
            ctx.equal('%s.%s.zero' % (tag, c), T.sub(T.lift(i.call(e, [x, y], {})), T.lift(i.call(event(i, c, eq, value=VALUE), [x, y], {}))),
                      VALUE, loc, 'the default root is not zero', dom=edom)
    loc = where(i.class_attr(i.get(EVENTS + 'InflationEvent'), '__call__'))
    t0 = T.sym('t_i')
    for d in (-1, 1):
        for term in (True, False):
            for o in explore(i, lambda it: it.call(event(it, 'InflationEvent', equations(it, kind, **conf), direction=d, terminal=term,
                                                         value=VALUE, t_i=t0), [x, y], {})):
                same = [b for a, b in o.decisions if a.op == 'eq' and t0 in T.symbols(a)]
                key = '%s.start.%d%d.%s' % (tag, d, term, same)
                if not same:
                    g = T.Valuation(0, dom=edom, fixed={t0: T.mpf(7)/10, x: T.mpf(7)/10, VALUE: -d * T.mpf(10)**6})(T.lift(o.value))
                    ctx.ok(key, g * d > 0, loc, 'the start of the integration counts as a transition')
                elif same[0]:
                    g = T.Valuation(0, dom=edom)(T.lift(o.value))
                    ctx.ok(key, g * d > 0, loc, 'the start of the integration counts as a transition')
                else:
                    same_sign(ctx, key, o.value, inf, loc, 'InflationEvent away from the start is not that of inflation')


def names(ctx, i):
    eq = equations(i, 't')
    seen = {}
    for c in ('UntilTEvent', 'UntilNEvent', 'InflationEvent', 'AfterInflationEndEvent', 'CollapseEvent', 'Phi0Event', 'ModeExitEvent'):
        loc = where(i.get(EVENTS + c))
        plain = c in ('UntilTEvent', 'UntilNEvent', 'CollapseEvent')
        for d, term, v in itertools.product((0,) if plain else (-1, 0, 1), (True,) if plain else (True, False),
                                            (Fraction(1, 20), 3, Fraction(10)**7) if c == 'ModeExitEvent' else (0,)):
            n = i.getattr(event(i, c, eq, value=T.num(v), direction=d, terminal=term), 'name')
            what = (c, d, term, v)
            ctx.ok('names.%s%s' % (c, what[1:]), isinstance(n, str) and n not in seen, loc, 'name %s of %s is also that of %s' % (n, what, seen.get(n)))
            seen[n] = what
            term_ = int(term)
            want = {'UntilTEvent': 'UntilT', 'UntilNEvent': 'UntilN', 'CollapseEvent': 'Collapse', 'InflationEvent': 'Inflation_dir%d_term%d' % (d, term_),
                    'AfterInflationEndEvent': 'AfterInflationEnd_dir%d_term%d' % (d, term_), 'Phi0Event': 'Phi0_dir%d_term%d' % (d, term_),
                    'ModeExitEvent': 'ModeExit_dir%d_term%d_%e' % (d, term_, v)}[c]
            ctx.ok('names.%s%s.key' % (c, what[1:]), n == want, loc, '%s is listed as %s instead of %s' % (c, n, want))


# ------------------------------------------------------------------ start and end of inflation
def track(it, eq, conf):
    """[(event name, number of occurrences)] of tracked events, named by the event classes themselves."""
    out = []
    for what, n in conf.items():
        if n is None:
            continue
        if what == 'Collapse':
            e = event(it, 'CollapseEvent', eq)
        elif what == 'UntilN':
            e = event(it, 'UntilNEvent', eq, value=VALUE)
        else:
            d, t = what
            e = event(it, 'InflationEvent', eq, direction=d, terminal=t)
        out.append((it.getattr(e, 'name'), n))
    return out


def finite(atom):
    if atom.op in ('app', 'papp') and atom.args[0] == 'numpy.isfinite':
        return True
    if atom.op == 'eq' and T.num(0) in atom.args and any(x.op in ('app', 'papp') and x.args[0] == 'numpy.isfinite' for x in atom.args):
        return False
    return None


def confs(thorough):
    B, E1, E0, C = (1, False), (-1, True), (-1, False), 'Collapse'
    out = [{}]
    for b in (None, 0, 1, 2):
        for e in ((E1, None), (E1, 0), (E1, 1), (E0, 1), (E0, 2), (E0, 0)):
            for c in (None, 0, 1):
                out.append({B: b, e[0]: e[1], C: c})
    out += [{B: 1, E1: 1, E0: 2, C: 0}, {B: 1, E1: 0, E0: 2, C: 0}, {E0: 1, E1: 1, B: 1}, {E0: 1, E1: 0, B: 1}, {'UntilN': 1, B: 0, E1: 0}]
    return out if thorough else [c for n, c in enumerate(out) if n % 3 == 0 or n >= len(out) - 5]


@prop('C15', 'Start and end of inflation are those of the tracked transitions (or the first point when inflating from the '
      'start), with all quantities at them evaluated there, NaN and the right warning when undetermined, '
      'and the inflating stretch lies strictly between.', 700,
      technique='abstract interpretation of the post-processing over trace partitions; decision table by random interpretation; GVN')
def c15(ctx):
    for n, conf in enumerate(confs(ctx.thorough)):
        for kind in KINDS if ctx.thorough else (('t', 'N')[n % 2],):
            for verbose in (True, False) if ctx.thorough or n % 4 == 0 else (True,):
                Kv = (0, 1, -1)[n % 3]
                key = '%s.%s%s' % (kind, ','.join('%s:%s' % ('%+d%d' % k if isinstance(k, tuple) else k, v) for k, v in conf.items()
                                                  if v is not None), '' if verbose else '.quiet')
                with ctx.guard(key):
                    one_post(ctx, key, kind, Kv, conf, verbose)


def one_post(ctx, key, kind, Kv, conf, verbose):
    i = ctx.interp()

    def run(it):
        eq = equations(it, kind, K=Kv, verbose=verbose)
        raw = raw_solution(it, kind, eq, track(it, eq, conf))
        te, ye = raw.attrs['t_events'], raw.attrs['y_events']
        keys = list(raw.attrs['event_keys'])
        m = len(it.trace)
        sol = call(it, eq, 'sol', raw)
        warns = [e.data[0] for e in it.trace[m:] if e.kind == 'warn']
        return eq, sol, keys, te, ye, warns, idx_of(it, eq)
    outs = explore(i, run, finite)
    seen = {}
    for o in outs:
        if o.kind == 'raise':
            ctx.fail(key + '.raises', '', 'post-processing raises %s' % exc_text(o.value))
            continue
        eq, sol, keys, te, ye, warns, ix = o.value
        loc = where(i.class_attr(eq.cls, 'sol'))
        A = sol.attrs
        path = o
        ev = {}
        for j, k in enumerate([k for k, v in conf.items() if v is not None]):
            ev[k] = (te[j], ye[j])

        def at(k):
            """Quantities at the first occurrence of event k."""
            t, y = ev[k]
            x, s = t.elems[0], y.elems[0]
            N = x if kind == 'N' else s.elems[ix['_N']]
            return {'_N': N, 'H': T.lift(call(i, eq, 'H', x, s)), 'phi': s.elems[ix['phi']]}
        happened = lambda k: bool(conf.get(k))  # noqa
        # first point
        x0 = i.getitem(A['x'], 0)
        y0 = VArray([i.getitem(A[q], 0) for q in sorted(ix, key=ix.get)])
        p0 = {'_N': T.lift(i.getitem(A['_N'], 0)), 'H': T.lift(call(i, eq, 'H', x0, y0))}
        acc = T.lift(call(i, eq, 'inflating', x0, y0))
        cases = {}
        for s in range(80):
            v = T.Valuation('%s/%s/%d' % (ctx.seed, key, s), dom=wide, fixed=dict(path.equalities()))
            if not T.satisfies(v, path.decisions):
                continue
            if happened('Collapse'):
                cases[None] = v
            elif v(acc) >= 0:
                cases['first'] = v
            elif happened((1, False)):
                cases['event'] = v
            else:
                cases[None] = v
        for c, v in cases.items():
            want = p0 if c == 'first' else at((1, False)) if c == 'event' else None
            k = '%s.beg.%s' % (key, c)
            seen[c] = True
            for nm, w in (('_N_beg', '_N'), ('H_beg', 'H')):
                same(ctx, '%s.%s' % (k, nm), v, A.get(nm), want and want[w], loc, '%s is not that of the start of inflation' % nm)
            same(ctx, k + '._logaH_beg', v, A.get('_logaH_beg'), want and T.add(want['_N'], T.fn('log', want['H'])), loc, 'wrong _logaH_beg')
            # end
            e = next((q for q in ((-1, True), (-1, False)) if happened(q)), None)
            end = at(e) if e else None
            if end:
                end['V'] = T.lift(call(i, A['potential'], 'V', end['phi']))
                end['logaH'] = T.add(end['_N'], T.fn('log', end['H']))
            for nm, w in (('_N_end', '_N'), ('phi_end', 'phi'), ('H_end', 'H'), ('V_end', 'V'), ('_logaH_end', 'logaH')):
                same(ctx, '%s.%s' % (k, nm), v, A.get(nm), end and end[w], loc, '%s is not that of the end of inflation' % nm)
            both = end is not None and want is not None
            same(ctx, k + '.N_tot', v, A.get('N_tot'), T.sub(end['_N'], want['_N']) if both else None, loc, 'N_tot is not the e-folds of inflation')
            expect = set()
            if verbose:
                if happened('Collapse'):
                    expect.add('CollapseWarning')
                elif want is None:
                    expect.add('InflationStartWarning')
                if end is None:
                    expect.add('InflationEndWarning')
            got = [w_.name if isinstance(w_, VClass) else str(w_) for w_ in warns]
            ctx.ok(k + '.warnings', set(got) == expect and len(got) == len(expect), loc, 'warns %s instead of %s' % (got, sorted(expect)))
            if both:
                mask_between(ctx, k + '.mask', A.get('inflation_mask'), want['_N'], end['_N'], loc)
            else:
                ctx.ok(k + '.mask', 'inflation_mask' not in A, loc, 'an inflating stretch is reported although its ends are unknown')
        # quantities along the solution
        full = VArray([A[q] for q in sorted(ix, key=ix.get)])
        ctx.path = path
        H = T.lift(call(i, eq, 'H', A['x'], full))
        logaH = T.add(T.lift(A['_N']), T.fn('log', H))
        for nm, w in (('H', H), ('w', T.lift(call(i, eq, 'w', A['x'], full))), ('_logaH', logaH),
                      ('Omega_K', T.mul(-Kv, T.fn('exp', T.mul(-2, logaH))))):
            ctx.equal('%s.%s' % (key, nm), T.lift(A[nm]) if nm in A else None, w, loc, '%s along the solution is wrong' % nm, dom=edom)
        ctx.path = None
        ctx.ok(key + '.K', T.lift(A.get('K')) is T.num(Kv) and A.get('potential') is i.getattr(eq, 'potential'), loc,
               'curvature or potential is not that of the equations')
    want = {None} if conf.get('Collapse') else {'first', 'event' if conf.get((1, False)) else None}
    ctx.ok(key + '.cases', set(seen) == want, '', 'analysed cases %s, expected %s' % (set(seen), want))


def wide(t):
    """Kinetic as well as potential domination."""
    if t.op == 'sym' and t.args[0].startswith('dphi') or t.op == 'idx' and t.args[0].op == 'sym' and t.args[0].args[0].startswith('dphi'):
        return (0.05, 2.3)
    return edom(t)


def same(ctx, key, v, got, want, loc, msg):
    """got evaluates like want under v; want None stands for undetermined (NaN)."""
    if got is None:
        return ctx.fail(key, loc, msg + ' (missing)')
    x = v(T.lift(got))
    if want is None:
        return ctx.ok(key, T.mpmath.isnan(x), loc, msg + ' (should be NaN)')
    y = v(T.lift(want))
    return ctx.ok(key, T.close(x, y, 1e-20), loc, msg + ' [got %s, expected %s]' % (show(got), show(want)))


def mask_between(ctx, key, mask, lo, hi, loc):
    if mask is None:
        return ctx.fail(key, loc, 'the inflating stretch is missing')
    N = T.sym('_N', 'a')
    bad = []
    for x in (Fraction(-1, 10**9), 0, Fraction(1, 10**9), Fraction(1, 2), 1 - Fraction(1, 10**9), 1, 1 + Fraction(1, 10**9), -1, 2):
        fixed = {}
        a, b = T.mpf(20), T.mpf(80)
        fixed[N] = a + (b - a) * T.mpf(x.numerator if isinstance(x, Fraction) else x) / (x.denominator if isinstance(x, Fraction) else 1)
        fixed[lo], fixed[hi] = a, b
        r = T.Valuation(1, fixed=fixed)(T.lift(mask))
        if bool(r) != (0 < x < 1):
            bad.append(str(x))
    ctx.ok(key, not bad, loc, 'the inflating stretch is not strictly between start and end (relative positions %s)' % bad)


# ------------------------------------------------------------------ solver
ICS = 'primpy.initialconditions:'
IVP = 'scipy.integrate.solve_ivp'
TI, ETAI, XEND, PHII, NI, OKI = [T.sym(n) for n in ('t_i', 'eta_i', 'x_end', 'phi_i', 'N_i', 'Omega_Ki')]


def trackings(kind):
    return [{'track_eta': e} for e in (False, True)] if kind == 't' else [
        {'track_eta': e, 'track_time': t} for e in (False, True) for t in (False, True)]


def icdom(t):
    """Potential energies far above the curvature, so that inflation can start."""
    if t.op == 'sym':
        r = {'N_i': (1.5, 4), 'Omega_Ki': (-0.9, -0.1), 't_i': (0.5, 2), 'eta_i': (0.5, 2)}.get(t.args[0])
        if r:
            return r
    return edom(t)


def elements(y):
    return list(y.elems) if y.elems is not None and not y.stores else None


@prop('C16', 'Solving hands the equations, the range and state prepared by the initial conditions, the events and all solver '
      'options to the integrator, and labels every column and every event of its result with the right name.', 5000,
      technique='abstract interpretation with a recorded integrator; identity of arguments and results')
def c16(ctx):
    for kind in KINDS:
        for n, conf in enumerate(trackings(kind)):
            for opts in ({}, {'method': 'DOP853', 'rtol': T.sym('rtol'), 'atol': T.sym('atol'), 't_eval': T.sym('t_eval', 'a'), 'dense_output': True,
                              'max_step': T.sym('max_step')}):
                for events in (False, True):
                    key = '%s[%s].%s%s' % (kind, ','.join(k for k, v in conf.items() if v), 'options' if opts else 'plain', '.events' if events else '')
                    with ctx.guard(key):
                        one_solve(ctx, key, kind, conf, opts, events)


def one_solve(ctx, key, kind, conf, opts, events):
    calls = []

    def ivp(it, a, k):
        eq = a[0] if a else k['fun']
        ix = idx_of(it, eq)
        y0 = a[2] if len(a) > 2 else k['y0']
        evs = it.iterate(k['events']) if k.get('events') is not None else []
        raw = raw_solution(it, kind, eq, [('e%d' % j, (1, 0, 2)[j % 3]) for j in range(len(evs))])
        del raw.attrs['event_keys']
        keep = {q: raw.attrs[q] for q in ('t', 'y', 't_events', 'y_events')}
        calls.append((list(a), dict(k), elements(y0) if isinstance(y0, VArray) else [it.getitem(y0, j) for j in range(len(ix))], evs, keep))
        return raw
    i = ctx.interp(**{IVP: ivp})

    def run(it):
        del calls[:]
        eq = equations(it, kind, **conf)
        ic = it.call(it.get(ICS + 'InflationStartIC'), [eq, PHII], dict(t_i=TI, eta_i=ETAI, x_end=XEND, N_i=NI))
        evs = [event(it, 'InflationEvent', eq, direction=1), event(it, 'InflationEvent', eq, direction=-1, terminal=True),
               event(it, 'UntilNEvent', eq, value=VALUE), event(it, 'Phi0Event', eq)] if events else []
        sol = it.call(it.get('primpy.solver:solve'), [ic], dict(opts, **({'events': evs} if events else {})))
        y0 = VArray(elems=[T.num(0)] * len(idx_of(it, eq)))
        ref = it.call(it.get(ICS + 'InflationStartIC'), [eq, PHII], dict(t_i=TI, eta_i=ETAI, x_end=XEND, N_i=NI))
        it.call(ref, [], {'y0': y0})
        return eq, ic, ref, evs, sol, y0, list(calls)
    n = 0
    for o in explore(i, run, finite):
        if o.kind == 'raise':
            if o.exc_name not in ('InflationStartError',):
                ctx.fail(key + '.raises', '', 'solve raises %s' % exc_text(o.value))
            continue
        n += 1
        eq, ic, ref, evs, sol, y0, cs = o.value
        loc = where(i.get('primpy.solver:solve'))
        if not ctx.ok(key + '.once', len(cs) == 1, loc, '%d integrations' % len(cs)):
            continue
        a, k, y, ev, raw = cs[0]
        ctx.ok(key + '.equations', (a[0] if a else k.get('fun')) is eq, loc, 'something else than the equations is integrated')
        span = a[1] if len(a) > 1 else k.get('t_span')
        span = [T.lift(q) for q in i.iterate(span)]
        ix = idx_of(i, eq)
        ctx.ok(key + '.span', len(span) == 2 and span[0] is T.lift(ref.attrs['x_ini']) and span[1] is T.lift(ref.attrs['x_end']), loc,
               'integrates from %s to %s' % tuple(show(q) for q in span))
        for q, j in ix.items():
            ctx.equal('%s.y0.%s' % (key, q), T.lift(y[j]), T.lift(y0.elems[j]), loc, 'the integration does not start in the prepared state', dom=icdom)
        ctx.ok(key + '.events', len(ev) == len(evs) and all(p is q for p, q in zip(ev, evs)), loc, 'tracked events are not the requested ones')
        for q, w in opts.items():
            ctx.ok('%s.option.%s' % (key, q), k.get(q) is w or k.get(q) == w, loc, 'option %s is not passed to the integrator' % q)
        if not opts:
            for q, w in (('rtol', 1e-10), ('atol', 1e-12)):
                r = k.get(q)
                r = None if r is None else T.Valuation(0)(T.lift(r))
                ctx.ok('%s.default.%s' % (key, q), r is not None and r <= w * (1 + 1e-9), loc, 'default %s is looser than %g' % (q, w))
            extra = set(k) - {'fun', 't_span', 'y0', 'events', 'method', 'rtol', 'atol'}
            ctx.ok(key + '.noextra', not extra, loc, 'passes %s that nobody asked for' % sorted(extra))
        labels(ctx, key, i, kind, eq, sol, evs, raw, ix)
    ctx.ok(key + '.paths', n > 0, '', 'no path returns a solution')


def labels(ctx, key, i, kind, eq, sol, evs, raw, ix):
    loc = where(i.class_attr(eq.cls, 'sol'))
    A, xn = sol.attrs, 't' if kind == 't' else '_N'
    ctx.ok(key + '.x', A.get('independent_variable') == xn and A.get('x') is raw['t'] and A.get(xn) is raw['t'], loc,
           'independent variable is not labelled %s' % xn)
    if 't' not in ix and xn != 't':
        ctx.ok(key + '.no_t', 't' not in A, loc, 'e-folds are still labelled as time')
    for q, j in ix.items():
        ctx.equal('%s.column.%s' % (key, q), T.lift(A[q]) if q in A else None, T.lift(i.getitem(raw['y'], j)), loc, 'column %s is mislabelled' % q)
    names = [i.getattr(e, 'name') for e in evs]
    D = {}
    for q in ['x', xn, 'y'] + list(ix):
        d = A.get(q + '_events')
        if not ctx.ok('%s.%s_events' % (key, q), d is not None and [k for k in i.iterate(d)] == names, loc, '%s_events does not list the tracked events' % q):
            continue
        D[q] = [i.getitem(d, nm) for nm in names]
    for j, nm in enumerate(names):
        te, ye = raw['t_events'][j], raw['y_events'][j]
        for q in ('x', xn):
            ctx.ok('%s.%s_events.%s' % (key, q, nm), q in D and D[q][j] is te, loc, '%s_events of %s are those of another event' % (q, nm))
        ctx.ok('%s.y_events.%s' % (key, nm), 'y' in D and D['y'][j] is ye, loc, 'y_events of %s are those of another event' % nm)
        for q, c in ix.items():
            got = D.get(q) and [T.lift(e) for e in i.iterate(D[q][j])]
            ctx.ok('%s.%s_events.%s' % (key, q, nm), got is not None and got == [T.lift(r.elems[c]) for r in ye.elems], loc,
                   '%s_events of %s are not column %d of its occurrences' % (q, nm, c))


# ------------------------------------------------------------------ initial conditions
def prepare(it, cls, kind, Kv, conf, spec, extra=None):
    """(equations, initial conditions, initial state or None) for the given specification."""
    eq = equations(it, kind, K=Kv, **conf)
    kw = {k: {'N_i': NI, 'Omega_Ki': OKI}[k] for k in spec}
    kw.update(t_i=TI, eta_i=ETAI)
    kw.update(extra or {})
    ic = it.call(it.get(ICS + cls), [eq, PHII], {k: v for k, v in kw.items() if v is not None})
    y0 = VArray(elems=[T.num(0)] * len(idx_of(it, eq)))
    it.call(ic, [], {'y0': y0})
    return eq, ic, y0


def ic_domains(Kv):
    """Both sides of every limit of what can start inflating."""
    def d(t):
        if t.op == 'sym':
            return {'N_i': (-1.5, 4), 'Omega_Ki': (-3, -0.1) if Kv > 0 else (0.1, 1.9), 't_i': (0.5, 2), 'eta_i': (0.5, 2)}.get(t.args[0]) or edom(t)
        return edom(t)
    return d


@prop('C17', 'Initial conditions satisfy the Friedmann equation with the requested curvature and place it, the field and '
      'the clocks in the right components; slow-roll starts on the attractor, inflation-start exactly at the onset; '
      'impossible starts are rejected.', 4000,
      technique='abstract interpretation over all configurations and trace partitions; GVN of the initial state in the equations; decision table')
def c17(ctx):
    for cls in ('SlowRollIC', 'InflationStartIC'):
        for kind in KINDS:
            for conf in trackings(kind):
                for Kv in (0, 1, -1):
                    for spec in (('N_i',), ('Omega_Ki',)) if Kv else (('N_i',),):
                        for given_end in (True, False):
                            if not given_end and (conf.get('track_eta') or not conf.get('track_time', True)):
                                continue
                            key = '%s.%s[%s].K%+d.%s%s' % (cls, kind, ','.join(k for k, v in conf.items() if v), Kv, spec[0], '' if given_end else '.default_end')
                            with ctx.guard(key):
                                one_ic(ctx, key, cls, kind, Kv, conf, spec, given_end)
                with ctx.guard('%s.%s.guards' % (cls, kind)):
                    guards(ctx, cls, kind, conf)


def one_ic(ctx, key, cls, kind, Kv, conf, spec, given_end):
    i = ctx.interp()
    dom = ic_domains(Kv)
    outs = explore(i, lambda it: prepare(it, cls, kind, Kv, conf, spec, {'x_end': XEND} if given_end else None))
    c = i.get(ICS + cls)
    loc = where(i.class_attr(c, '__init__'))
    V = T.app(VNAMES[0], [PHII], pointwise=True)
    slow = cls == 'SlowRollIC'
    frac = 3 if slow else 2
    hits = set()
    for o in outs:
        n = 0
        for s in range(60):
            fixed = dict(o.equalities())
            v = T.Valuation('%s/%s/%d' % (ctx.seed, key, s), dom=dom, fixed=fixed)
            if spec == ('N_i',) and Kv > 0 and s % 2 and NI not in fixed:      # close to the edge of what is possible
                edge = T.mpmath.log(frac / v(V)) / 2 + (T.mpf(1) / 20 if s % 4 == 1 else -T.mpf(1) / 20)
                v = T.Valuation('%s/%s/%d' % (ctx.seed, key, s), dom=dom, fixed={**fixed, NI: edge})
            if not T.satisfies(v, o.decisions):
                continue
            if spec == ('N_i',):
                bad = v(V) / frac * T.mpmath.exp(2 * v(NI)) - Kv < 0
            else:
                bad = v(OKI) >= 1
            n += 1
            hits.add(bad)
            if n > 6:
                continue
            if bad:
                if not ctx.ok(key + '.rejected', o.kind == 'raise' and o.exc_name == 'InflationStartError', loc,
                              'a start that cannot inflate is accepted (%s)' % o.path()[-2:]):
                    break
                geo = {1: 'closed', -1: 'open'}[Kv]
                ctx.ok(key + '.geometry', o.value.attrs.get('geometry') == geo, loc, 'the error names %s universes' % o.value.attrs.get('geometry'))
                continue
            if not ctx.ok(key + '.accepted', o.kind == 'return', loc, 'a possible start is rejected: %s' % (o.kind == 'raise' and exc_text(o.value))):
                break
            eq, ic, y0 = o.value
            ix = idx_of(i, eq)
            Y = {q: T.lift(y0.elems[p]) for q, p in ix.items()}
            N = T.lift(ic.attrs['N_i'])
            Nv = v(N)
            H2 = v(V) / frac - Kv * T.mpmath.exp(-2 * Nv)
            ok = v(OKI) if spec == ('Omega_Ki',) else -Kv * T.mpmath.exp(-2 * Nv) / H2
            dphi = -T.mpmath.sqrt(v(V)) if not slow else -v(T.app(VNAMES[1], [PHII], pointwise=True)) / (3 * T.mpmath.sqrt(H2))
            want = {'phi': v(PHII), '_N': Nv, 't': v(TI), 'eta': v(ETAI), 'dphidt': dphi, 'dphidN': dphi / T.mpmath.sqrt(H2)}
            for q in ix:
                near(ctx, '%s.y0.%s' % (key, q), v, Y[q], want[q], loc, 'component %s of the initial state is wrong' % q)
            A = ic.attrs
            near(ctx, key + '.curvature', v, A.get('Omega_Ki'), -Kv * T.mpmath.exp(-2 * Nv) / H2, loc, 'Omega_Ki is not the curvature of the start')
            near(ctx, key + '.requested', v, A.get('Omega_Ki') if spec[0] == 'Omega_Ki' else N, ok if spec[0] == 'Omega_Ki' else v(NI), loc,
                 'the requested %s is not kept' % spec[0])
            near(ctx, key + '.H_i', v, A.get('H_i'), T.mpmath.sqrt(H2), loc, 'H_i violates the Friedmann equation')
            near(ctx, key + '.aH_i', v, A.get('aH_i'), T.mpmath.sqrt(H2) * T.mpmath.exp(Nv), loc, 'aH_i is not a H')
            near(ctx, key + '.V_i', v, A.get('V_i'), v(V), loc, 'V_i is not the potential at phi_i')
            near(ctx, key + '.x_ini', v, A.get('x_ini'), v(TI) if kind == 't' else Nv, loc, 'the integration does not start at the initial clock')
            if given_end:
                ctx.ok(key + '.x_end', A.get('x_end') is XEND, loc, 'the end of the integration is not the requested one')
            else:
                near(ctx, key + '.x_end', v, A.get('x_end'), T.mpf(10)**300, loc, 'the default end of the integration is not 1e300')
            if not slow:
                x = A.get('x_ini')
                near(ctx, key + '.friedmann', v, call(i, eq, 'H2', x, y0), H2, loc, 'the initial state violates the Friedmann equation')
                r = v(T.div(T.lift(call(i, eq, 'inflating', x, y0)), V))
                ctx.ok(key + '.onset', abs(r) < T.mpf(10)**-12, loc, 'inflation does not set in exactly at the initial state')
    ctx.ok(key + '.sampled', hits == {True, False} if (spec[0] == 'N_i' and Kv > 0) or (spec[0] == 'Omega_Ki' and Kv < 0) else hits == {False}, loc, 'cases %s' % hits)


def near(ctx, key, v, got, want, loc, msg):
    if got is None:
        return ctx.fail(key, loc, msg + ' (missing)')
    x = v(T.lift(got))
    return ctx.ok(key, T.close(x, want, 1e-14), loc, '%s [%s instead of %s]' % (msg, T.mpmath.nstr(x, 6), T.mpmath.nstr(want, 6)))


def guards(ctx, cls, kind, conf):
    """Contradictory, missing and unsupported specifications."""
    i = ctx.interp()
    loc = where(i.class_attr(i.get(ICS + cls), '__init__'))
    key = '%s.%s[%s]' % (cls, kind, ','.join(k for k, v in conf.items() if v))
    for spec in (('N_i', 'Omega_Ki'), ()):
        for o in explore(i, lambda it: prepare(it, cls, kind, -1, conf, spec)):
            ctx.ok('%s.%s' % (key, '+'.join(spec) or 'nothing'), o.kind == 'raise' and o.exc_name in ('TypeError', 'AssertionError', 'ValueError'),
                   loc, 'a start with %s specified is accepted' % (' and '.join(spec) or 'neither N_i nor Omega_Ki'))
    need = {'track_time': 't_i', 'track_eta': 'eta_i'}
    for flag, par in need.items():
        if not conf.get(flag):
            continue
        for o in explore(i, lambda it: prepare(it, cls, kind, -1, conf, ('N_i',), {par: None}), domain_only):
            ctx.ok('%s.%s' % (key, par), o.kind == 'raise' and o.exc_name in ('AssertionError', 'TypeError', 'ValueError'), loc,
                   '%s is tracked without its initial value' % par)


def domain_only(atom):
    """Inflation can start."""
    if atom.op in ('lt', 'not') and any(x.op == 'app' or x.op == 'papp' for x in T.subterms(atom)):
        return bool(T.Valuation(0, dom=icdom)(atom))
    return None


# ------------------------------------------------------------------ shooting
X, NTOT, NSTAR_, H_ = [T.sym(n) for n in ('x', 'N_tot', 'N_star', 'h')]
OK0 = {1: T.num(Fraction(-1, 23)), -1: T.num(Fraction(1, 29))}
BR = (T.sym('phi_lo'), T.sym('phi_hi'))
OPTS = {'rtol': T.sym('rtol'), 'atol': T.sym('atol'), 'max_step': T.sym('max_step')}


def impossible(ctx, key, kind):
    """A trial whose start is impossible counts as too few e-folds."""
    i = ctx.interp()
    loc = where(i.class_attr(i.get(ICS + 'ISIC_Nt'), '__call__'))

    def run(it):
        eq, ic = shooter(it, 'ISIC_Nt', kind, 1, 'N_i', {})
        y0 = VArray(elems=[T.num(0)] * len(idx_of(it, eq)))
        m = len(it.trace)
        it.call(ic, [], dict(OPTS, y0=y0))
        e = [e.data for e in it.trace[m:] if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar'][0]
        f = e[1][0] if e[1] else e[2]['f']
        args = e[2].get('args', ())
        args = list(args) if isinstance(args, tuple) else [args]
        return it.call(f, [X] + args, {})

    flat = {T.app(VNAMES[0], [X], pointwise=True): T.mpf(10)**-30}     # the potential is too low there

    def no_start(atom):
        if 'x' in {q.args[0] for q in T.symbols(atom)} and atom.op in ('lt', 'eq', 'not') and '@' not in str(atom):
            return bool(T.Valuation(0, dom=sdom(1), fixed=flat)(atom))
        return start_ok(1)(atom)
    n = 0
    for o in explore(i, run, no_start):
        n += 1
        if o.kind == 'raise':
            ctx.ok(key, False, loc, 'a trial that cannot start raises %s' % exc_text(o.value))
        else:
            v = T.Valuation('%s/%s' % (ctx.seed, key), dom=sdom(1), fixed=flat)
            ctx.ok(key, v(T.lift(o.value)) < 0, loc, 'a trial that cannot start is not counted as negative')
    ctx.ok(key + '.reached', n > 0, loc, 'no path')


def shooter(it, cls, kind, Kv, spec, conf, ends=True):
    eq = equations(it, kind, K=Kv, **conf)
    kw = dict(phi_i_bracket=list(BR), t_i=TI, eta_i=ETAI, **({'x_end': XEND} if ends else {}))
    kw.update({spec: {'N_i': NI, 'Omega_Ki': OKI}[spec]})
    if cls == 'ISIC_Nt':
        kw['N_tot'] = NTOT
    else:
        kw.update(N_star=NSTAR_, Omega_K0=OK0[Kv], h=H_)
    return eq, it.call(it.get(ICS + cls), [eq], kw)


def sdom(Kv):
    base = icdom

    def d(t):
        if t.op == 'sym':
            r = {'N_tot': (40, 70), 'N_star': (40, 60), 'h': (0.5, 0.9),
                 'Omega_Ki': (-0.9, -0.1) if Kv > 0 else (0.1, 0.9), 'N_i': (1.5, 4)}.get(t.args[0])
            if r:
                return r
            if t.args[0] in NATURE:
                return NATURE[t.args[0]]
            if t.args[0].startswith('_N@beg'):
                return (1, 5)
            if t.args[0].startswith('_N@end'):
                return (30, 90)
        if t.op in ('app', 'papp') and t.args[0] in ('numpy.min', 'numpy.amin', 'min'):      # the pivot scale leaves the horizon during inflation
            return (-20, -10)
        if t.op in ('app', 'papp') and t.args[0] in ('numpy.max', 'numpy.amax', 'max'):
            return (10, 20)
        return base(t)
    return d


# what becomes of one trial: occurrences of the start, the end, the e-fold limit and the collapse
TRIALS = {'inflates': (1, 1, 0, 0), 'limit': (1, 0, 1, 0), 'collapse': (0, 0, 0, 1), 'collapse_late': (1, 0, 0, 1), 'step': (1, 0, 0, 0), 'other': (1, 0, 0, 0)}


@prop('C18', 'Shooting for a number of e-folds searches the requested field range for the root of (obtained minus requested), '
      'each trial being an inflation-start integration with the same specification and options, signs right when a trial does not '
      'inflate or overshoots, and ends in the inflation-start state at the root.', 3000,
      technique='abstract interpretation with recorded root finder and integrator; GVN of trial states, trial values and final state')
def c18(ctx):
    n = 0
    for cls in ('ISIC_Nt', 'ISIC_NsOk'):
        for kind in KINDS:
            for Kv in (1, -1) if cls == 'ISIC_NsOk' else (0, 1, -1):
                for spec in ('N_i', 'Omega_Ki') if Kv else ('N_i',):
                    n += 1
                    conf = {'track_eta': bool(n % 2), **({'track_time': bool(n % 3)} if kind == 'N' else {})}
                    key = '%s.%s.K%+d.%s' % (cls, kind, Kv, spec)
                    with ctx.guard(key):
                        search(ctx, key, cls, kind, Kv, spec, conf)
                    for name, occ in TRIALS.items():
                        if not ctx.thorough and (n + len(name) + Kv) % 2 and (name != 'inflates' or cls == 'ISIC_NsOk'):
                            continue
                        with ctx.guard(key + '.' + name):
                            trial(ctx, key + '.' + name, cls, kind, Kv, spec, conf, name, occ)
    for kind in KINDS:
        with ctx.guard('impossible.' + kind):
            impossible(ctx, 'impossible.' + kind, kind)
        for cls in ('ISIC_Nt', 'ISIC_NsOk'):
            for opts in ({}, dict(OPTS, method='DOP853'), {'method': 'Radau', 'first_step': T.sym('first_step')}):
                key = 'solve.%s.%s.%s' % (cls, kind, opts.get('method', 'default'))
                with ctx.guard(key):
                    end_to_end(ctx, key, cls, kind, opts)
        for cls in ('ISIC_Nt', 'ISIC_NsOk'):
            with ctx.guard('default_end.%s.%s' % (cls, kind)):
                i = ctx.interp()
                for o in explore(i, lambda it: shooter(it, cls, kind, -1, 'N_i', {}, ends=False)[1], start_ok(-1)):
                    ctx.ok('default_end.%s.%s' % (cls, kind), o.kind == 'return' and o.value.attrs.get('x_end') in (10**300, 1e300), where(i.get(ICS + cls)),
                           'the default end of the integration is not 1e300')
    i = ctx.interp()
    for kind in KINDS:
        for o in explore(i, lambda it: it.call(it.get(ICS + 'ISIC_NsOk'), [equations(it, kind, K=1)], dict(
                N_star=NSTAR_, Omega_K0=0, h=H_, phi_i_bracket=list(BR), N_i=NI, t_i=TI)), domain_only):
            ctx.ok('flat.' + kind, o.kind == 'raise' and o.exc_name in ('AssertionError', 'ValueError', 'TypeError'), where(i.get(ICS + 'ISIC_NsOk')),
                   'shooting with Omega_K0=0 is accepted')


def start_ok(Kv):
    """Inflation can start for every field value of interest."""
    d = sdom(Kv)

    def f(atom):
        if atom.op == 'not':
            r = f(atom.args[0])
            return None if r is None else not r
        if atom.op in ('lt', 'eq'):
            names = {s.args[0] for s in T.symbols(atom)}
            if names == {'h'}:
                return bool(T.Valuation(0, dom=d)(atom))
            if names & {'N_i', 'Omega_Ki'} and not any('@' in q for q in names) and names <= {'N_i', 'Omega_Ki', 'phi_lo', 'phi_hi', 'x', 'root#1', 'K'}:
                return bool(T.Valuation(0, dom=d)(atom))
        return finite(atom)
    return f


def state_of(it, eq, ic):
    y0 = VArray(elems=[T.num(0)] * len(idx_of(it, eq)))
    it.call(ic, [], {'y0': y0})
    return y0


def search(ctx, key, cls, kind, Kv, spec, conf):
    i = ctx.interp()
    dom = sdom(Kv)

    def run(it):
        eq, ic = shooter(it, cls, kind, Kv, spec, conf)
        y0 = VArray(elems=[T.num(0)] * len(idx_of(it, eq)))
        m = len(it.trace)
        r = it.call(ic, [], dict(OPTS, y0=y0))
        roots = [e.data for e in it.trace[m:] if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar']
        root = roots[0][3].attrs['root'] if roots else None
        ref, yr = None, None
        if root is not None:
            ref = it.call(it.get(ICS + 'InflationStartIC'), [eq], dict(phi_i=root, t_i=TI, eta_i=ETAI, x_end=XEND, **{spec: {'N_i': NI, 'Omega_Ki': OKI}[spec]}))
            yr = state_of(it, eq, ref)
        return eq, ic, y0, r, roots, ref, yr
    c = i.get(ICS + cls)
    loc = where(i.class_attr(c, '__call__'))
    outs = explore(i, run, start_ok(Kv))
    for o in outs:
        if o.kind == 'raise':
            ctx.fail(key + '.raises', loc, 'shooting raises %s' % exc_text(o.value))
            continue
        eq, ic, y0, r, roots, ref, yr = o.value
        if not ctx.ok(key + '.search', len(roots) == 1, loc, '%d root searches' % len(roots)):
            continue
        _, a, k, res = roots[0]
        br = [T.lift(q) for q in i.iterate(k['bracket'])] if k.get('bracket') is not None else None
        ctx.ok(key + '.bracket', br is not None and br == list(BR), loc, 'the searched range is not the requested one')
        for q, p in idx_of(i, eq).items():
            ctx.equal('%s.final.%s' % (key, q), T.lift(y0.elems[p]), T.lift(yr.elems[p]), loc, 'the final state is not that of an inflation start at the root', dom=dom)
        for q in ('phi_i', 'N_i', 'Omega_Ki', 'H_i', 'aH_i', 'V_i', 'x_ini', 'x_end'):
            ctx.equal('%s.final.%s' % (key, q), ic.attrs.get(q) is not None and T.lift(ic.attrs[q]), T.lift(ref.attrs[q]), loc,
                      '%s is not that of an inflation start at the root' % q, dom=dom)
        ctx.ok(key + '.returns', isinstance(r, tuple) and len(r) == 2 and T.lift(r[0]) is res.attrs['root'] and r[1] is res, loc,
               'does not return the root and the report of the search')
    ctx.ok(key + '.paths', any(o.kind == 'return' for o in outs), loc, 'no path')


def end_to_end(ctx, key, cls, kind, opts):
    """`solve` with shooting initial conditions: trials use the options of the final integration."""
    calls = []

    def ivp(it, a, k):
        eq = a[0] if a else k['fun']
        evs = it.iterate(k['events']) if k.get('events') is not None else []
        raw = raw_solution(it, kind, eq, [('e%d' % j, 1) for j in range(len(evs))])
        del raw.attrs['event_keys']
        calls.append((list(a), dict(k)))
        return raw
    i = ctx.interp(**{IVP: ivp, 'numpy.isin': lambda it, a, k: True})

    def run(it):
        del calls[:]
        eq, ic = shooter(it, cls, kind, -1, 'N_i', {})
        m = len(it.trace)
        evs = [event(it, 'InflationEvent', eq, direction=-1, terminal=True)]
        it.call(it.get('primpy.solver:solve'), [ic], dict(opts, events=evs))
        final = list(calls)
        del calls[:]
        e = [e.data for e in it.trace[m:] if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar'][0]
        args = e[2].get('args', ())
        try:
            it.call(e[1][0] if e[1] else e[2]['f'], [X] + (list(args) if isinstance(args, tuple) else [args]), {})
        except PyRaise:
            pass
        return final, list(calls)
    loc = where(i.get('primpy.solver:solve'))
    n = 0
    for o in explore(i, run, start_ok(-1)):
        if o.kind == 'raise':
            ctx.fail(key + '.raises', loc, 'raises %s' % exc_text(o.value))
            continue
        n += 1
        final, trials = o.value
        if ctx.ok(key + '.calls', len(final) == 1 and len(trials) == 1, loc, '%d and %d integrations' % (len(final), len(trials))):
            f, t = [{q: w for q, w in c[0][1].items() if q not in ('fun', 't_span', 'y0', 'events', 't_eval', 'dense_output')} for c in (final, trials)]
            f, t = [dict({'method': 'RK45'}, **q) for q in (f, t)]
            same = set(f) == set(t) and all(f[q] == t[q] if isinstance(f[q], str) or isinstance(t[q], str) else f[q] is t[q] or T.lift(f[q]) is T.lift(t[q]) for q in f)
            ctx.ok(key + '.options', same, loc, 'trials are integrated with %s, the solution with %s' % (showd(t), showd(f)))
    ctx.ok(key + '.paths', n > 0, loc, 'no path')


def showd(d):
    return ', '.join('%s=%s' % (q, show(w)) for q, w in sorted(d.items()))


def trial(ctx, key, cls, kind, Kv, spec, conf, name, occ):
    """One evaluation of the searched function."""
    dom = sdom(Kv)
    calls = []
    msg = {'step': 'Required step size is less than spacing between numbers.', 'other': 'failed'}.get(name, 'ok')

    def ivp(it, a, k):
        eq = a[0] if a else k['fun']
        ix = idx_of(it, eq)
        y0 = a[2] if len(a) > 2 else k['y0']
        evs = it.iterate(k['events'])
        kinds = []
        for e in evs:
            cn = e.cls.name
            d = it.getattr(e, 'direction')
            kinds.append({'InflationEvent': 'beg' if T.lift(d) is T.num(1) else 'end', 'UntilNEvent': 'until', 'CollapseEvent': 'collapse'}.get(cn, cn))
        raw = raw_solution(it, kind, eq, [(q, dict(zip(('beg', 'end', 'until', 'collapse'), occ)).get(q, 0)) for q in kinds])
        del raw.attrs['event_keys']
        raw.attrs['message'] = msg
        calls.append((list(a), dict(k), [it.getitem(y0, j) for j in range(len(ix))], evs, kinds))
        return raw
    i = ctx.interp(**{IVP: ivp, 'numpy.isin': lambda it, a, k: True})

    def run(it):
        del calls[:]
        eq, ic = shooter(it, cls, kind, Kv, spec, conf)
        y0 = VArray(elems=[T.num(0)] * len(idx_of(it, eq)))
        m = len(it.trace)
        it.call(ic, [], dict(OPTS, y0=y0))
        e = [e.data for e in it.trace[m:] if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar'][0]
        f = e[1][0] if e[1] else e[2]['f']
        args = e[2].get('args', ())
        args = list(args) if isinstance(args, tuple) else [args]
        del calls[:]
        ref = it.call(it.get(ICS + 'InflationStartIC'), [eq], dict(phi_i=X, t_i=TI, eta_i=ETAI, x_end=XEND, **{spec: {'N_i': NI, 'Omega_Ki': OKI}[spec]}))
        yr = state_of(it, eq, ref)
        mark = len(it.decisions)
        try:
            val, err = it.call(f, [X] + args, {}), None
        except PyRaise as ex:
            val, err = None, ex.value
        sol = None
        if name == 'inflates':
            raw = raw_solution(it, kind, eq, [(it.getattr(q, 'name'), dict(zip(('beg', 'end', 'until', 'collapse'), occ)).get(w, 0))
                                              for q, w in zip(calls[0][3], calls[0][4])]) if calls else None
            sol = raw and call(it, eq, 'sol', raw)
            if sol is not None and cls == 'ISIC_NsOk':
                try:
                    call(it, sol, 'calibrate_scale_factor', Omega_K0=OK0[Kv], h=H_)
                except PyRaise as ex:
                    sol.attrs['N_star'] = ex.value
        return eq, ref, yr, val, err, list(calls), sol, mark
    loc = where(i.class_attr(i.get(ICS + cls), '__call__'))
    n = 0
    for o in explore(i, run, start_ok(Kv)):
        if o.kind == 'raise':
            ctx.fail(key + '.raises', loc, 'raises %s' % exc_text(o.value))
            continue
        eq, ref, yr, val, err, cs, sol, mark = o.value
        n += 1
        if not ctx.ok(key + '.once', len(cs) == 1, loc, '%d integrations in one trial' % len(cs)):
            continue
        a, k, y, evs, kinds = cs[0]
        for q, p in idx_of(i, eq).items():
            ctx.equal('%s.state.%s' % (key, q), T.lift(y[p]), T.lift(yr.elems[p]), loc, 'a trial does not start in the inflation-start state', dom=dom)
        span = [T.lift(q) for q in i.iterate(a[1] if len(a) > 1 else k['t_span'])]
        ctx.ok(key + '.span', span == [T.lift(ref.attrs['x_ini']), T.lift(ref.attrs['x_end'])], loc, 'a trial covers another range')
        for q, w in OPTS.items():
            ctx.ok('%s.option.%s' % (key, q), k.get(q) is w, loc, 'option %s is not used in trials' % q)
        flags = {w: (i.getattr(e, 'direction'), i.getattr(e, 'terminal'), i.getattr(e, 'value')) for e, w in zip(evs, kinds)}
        want = {'beg': (1, False), 'end': (-1, True), 'until': (0, True), 'collapse': (0, True)}
        ctx.ok(key + '.events', set(flags) >= set(want) and all((flags[w][0], bool(flags[w][1])) == d for w, d in want.items()), loc,
               'trials do not track start, end, e-fold limit and collapse')
        hit = False
        fixed = dict(o.equalities())
        if name == 'limit':         # the integration stopped there
            fixed[T.lift(i.getitem(T.sym('_N', 'a'), -1))] = T.num(500)
        if name == 'inflates' and sol is not None and isinstance(sol.attrs.get('_N_end'), Term):    # and here, at the end of inflation
            fixed[T.lift(i.getitem(T.sym('_N', 'a'), -1))] = sol.attrs['_N_end']
        last = T.lift(i.getitem(T.sym('_N', 'a'), -1))
        for shift in (-1, 1) if name in ('step', 'other', 'collapse_late') and last not in fixed else (None,):
            for s in range(60):
                tag = '%s/%s/%d' % (ctx.seed, key, s)
                v = T.Valuation(tag, dom=dom, fixed=fixed)
                far = v(T.lift(ref.attrs['N_i'])) + v(NTOT) if cls == 'ISIC_Nt' else v(T.fn('log', a0_of(i, Kv)))
                if shift:           # the integration breaks off a little before or after the limit
                    v = T.Valuation(tag, dom=dom, fixed={**fixed, last: far + T.mpf(shift) / 3})
                if not T.satisfies(v, o.decisions):
                    continue
                hit = True
                if 'until' in flags:
                    ctx.ok(key + '.limit', v(T.lift(flags['until'][2])) >= far - T.mpf(10)**-12, loc,
                           'trials stop before they can reach the requested e-folds')
                verdict(ctx, i, key, cls, name, v, val, err, sol, loc, far)
                break
        ctx.count('trial_paths_sampled' if hit else 'trial_paths_unsampled')
        if hit:
            ctx.counts[key] = 1
    ctx.ok(key + '.sampled', ctx.counts.pop(key, 0) == 1, loc, 'no path of a trial is reached')


def a0_of(i, Kv):
    """Scale factor today: curvature scale over |Omega_K0|^(1/2)."""
    H0 = T.lift(i.call(i.get('primpy.bigbang:get_H0'), [], dict(h=H_, units='planck')))
    return T.div(T.fn('sqrt', T.div(1, T.fn('abs', OK0[Kv]))), H0)


def verdict(ctx, i, key, cls, name, v, val, err, sol, loc, far):
    target = NTOT if cls == 'ISIC_Nt' else NSTAR_
    if name == 'inflates':
        if sol is None:
            return
        tot = v(T.lift(sol.attrs['N_tot']))
        if cls == 'ISIC_NsOk' and tot <= v(NSTAR_):
            ctx.ok(key + '.short', err is None and v(T.lift(val)) < 0, loc, 'a trial with too little inflation is not counted as negative')
            return
        got = sol.attrs.get('N_tot' if cls == 'ISIC_Nt' else 'N_star')
        if isinstance(got, VInst):
            ctx.ok(key + '.uncalibrated', err is not None and err.name == got.name, loc,
                   'the failure %s of calibrating a trial is lost' % exc_text(got))
            return
        ctx.ok(key + '.value', err is None and T.close(v(T.lift(val)), v(T.sub(T.lift(got), target)), 1e-12), loc,
               'the searched function is not obtained minus requested e-folds%s' % why(err))
        return
    last = v(T.lift(i.getitem(T.sym('_N', 'a'), -1)))
    if name == 'limit' or last >= far:
        ctx.ok(key + '.over', err is None and v(T.lift(val)) > 0, loc, 'a trial that inflates too long is not counted as positive%s' % why(err))
    elif name.startswith('collapse'):
        ctx.ok(key + '.under', err is None and v(T.lift(val)) < 0, loc, 'a collapsing trial is not counted as negative%s' % why(err))
    else:
        want = 'StepSizeError' if name == 'step' else 'PrimpyError'
        ctx.ok(key + '.error', err is not None and err.name == want, loc, 'a failed integration does not raise %s%s' % (want, why(err)))


def why(err):
    return '' if err is None else ': ' + exc_text(err)
