"""C26-C28: slow-roll approximations of the primordial power spectra."""
import contextlib
import itertools
import mpmath
from ..bg import *  # noqa
from ..report import exc_text
from .calibration import APPROX, NSTAR, OK0, LITTLE_H, as_interp, cdom, std_assume

mpf = T.mpf
PNT = {n: T.sym(n, 'a') for n in ('phi', 'dphi', '_N')}
PIV = {n: T.sym(n + '*') for n in PNT}
APPROX_AT = 'primpy/inflation.py: calibrate_scale_factor'
LNKS = T.fn('log', Fraction(5, 100))
ORDER = {('CGS', 0): 0, ('CGS', 1): 1, ('CGS', 2): 2, ('CGS', 3): 3, ('LLMS', 3): 2, ('STE', 3): 2,
         ('ARBDS', 1): 1, ('ARBDS', 2): 2, ('ARBDS', 3): 3}


def flat(a):
    for x in a:
        if isinstance(x, tuple):
            yield from flat(x)
        elif isinstance(x, Term):
            yield x


class Local:
    """Reads terms over the whole solution at one point of it: an array restricted to a stretch is its own
    element, a spline over log k at log k its ordinate, and an interpolation to the crossing the pivot element."""

    def __init__(self, post):
        self.memo = {}
        self.lookups = []
        self.cross = post['_N_cross']
        self.star = {PNT[n]: PIV[n] for n in PNT}

    def __call__(self, x):
        if isinstance(x, tuple):
            return tuple(self(e) for e in x)
        if not isinstance(x, Term):
            return x
        if x in self.memo:
            return self.memo[x]
        q = as_interp(x)
        if x is self.cross:
            r = PIV['_N']
        elif q is not None:
            r = self(q[1])
            pivot = 'spline' not in str(x.args[1][0].args[0]).lower() if isinstance(x.args[1][0], Term) else True
            if pivot:
                r = T.substitute(r, self.star)
            self.lookups.append((pivot, x, q))
        elif x.op == 'idx' and isinstance(x.args[1], Term) and T.is_array(x.args[1]):
            r = self(x.args[0])
        elif x.op in ('sym', 'num', 'const'):
            r = x
        else:
            r = T.substitute(x, {a: self(a) for a in flat(x.args)})
        self.memo[x] = r
        return r


def ladder(kind, star=''):
    """Field velocity and potential derivatives of a flat background with given H and Hubble-flow parameters."""
    H, e1, e2, e3, e4 = [T.sym(n + star) for n in ('H', 'e1', 'e2', 'e3', 'e4')]
    flow = {H: T.neg(T.mul(e1, H)), e1: T.mul(e1, e2), e2: T.mul(e2, e3), e3: T.mul(e3, e4), e4: 0}
    s = T.fn('sqrt', T.mul(2, e1))
    H2 = T.mul(H, H)
    V = T.mul(H2, T.sub(3, e1))
    dV = T.neg(T.mul(H2, T.mul(s, T.add(T.div(e2, 2), T.sub(3, e1)))))
    d2 = T.div(T.diff(dV, flow), s)
    d3 = T.div(T.diff(d2, flow), s)
    src = PIV if star else PNT
    out = {src['dphi']: T.mul(s, H) if kind == 't' else s}
    for n, v in zip(VNAMES, (V, dV, d2, d3)):
        out[T.app(n, [src['phi']], pointwise=True)] = v
    return out, flow


D = mpf(10)**-9          # size of the Hubble-flow parameters in the expansion


def value(t, eps, H=mpf('0.6'), dN=0):
    f = {PNT['_N']: mpf(1) + dN, PIV['_N']: mpf(1), T.sym('H'): H, T.sym('H*'): H}
    for j, e in enumerate(eps):
        for s in ('', '*'):
            f[T.sym('e%d%s' % (j + 1, s))] = e
    f.update({T.sym('H'): H})
    return T.Valuation(1, fixed=f)(t)


def samples(ctx):
    for s in range(6 if ctx.thorough else 2):
        h = lambda n, s=s: mpf(3 + 17 * T._hash01('%s' % s, 'eps', str(n))) / 10  # noqa
        yield [D * h(j) for j in range(3)] + [mpf(0)], h('dN') - mpf('0.8')


def spectra(i, kind, Kv, method='CGS', order=3, queries=True, reverse=False, **kw):
    """Outcome of one calibration with the given approximation and queries of all approximations."""
    def go(it):
        eq, sol = solution(it, kind, Kv)
        args = dict(N_star=NSTAR) if Kv == 0 else dict(Omega_K0=OK0, h=LITTLE_H)
        call(it, sol, 'calibrate_scale_factor', method=method, order=order, **args, **kw)
        post = dict(sol.attrs)
        r = {}
        for m, o in (APPROX[::-1] if reverse else APPROX) if queries else ():
            for n in 'ts' if reverse else 'st':
                r[n, m, o] = call(it, sol, 'P_%s_approx' % n, T.sym('k'), method=m, order=o)
        if reverse:
            for n in 'st':      # the documented defaults
                r[n, 'default', 0] = call(it, sol, 'P_%s_approx' % n, T.sym('k'))
        return post, r, dict(sol.attrs)
    outs = explore(i, go, std_assume(kind))
    for o in outs:
        if o.kind == 'return':
            return o.value
    raise NoSpectrum('%s%d: %s' % (method, order, exc_text(outs[0].value)))


class NoSpectrum(Exception):
    """Every path of a documented choice of approximation raises."""


@contextlib.contextmanager
def accepted(ctx, key):
    with ctx.guard(key):
        try:
            yield
        except NoSpectrum as e:
            ctx.fail(key + '.accepted', APPROX_AT, 'a documented approximation is not available: %s' % e)


@prop('C26', 'Expanded in Hubble-flow parameters, all approximations of a spectrum agree at horizon crossing to the order '
      'each claims, and expansions about the pivot do not depend on which point is the pivot, to that order.', 800,
      technique='abstract interpretation to closed forms; substitution of the exact background ladder; asymptotic order comparison of value numbers')
def c26(ctx):
    time_variables(ctx)
    for kind in ('t', 'N'):
        i = ctx.interp()
        with accepted(ctx, kind):
            post, r, _ = spectra(i, kind, 0)
            loc = where(post['derive_approx_power'])
            L = Local(post)
            env, _ = ladder(kind)
            env2, flow = ladder(kind, '*')
            env.update(env2)
            P = {k: T.substitute(L(t), env) for k, t in r.items()}
            for k, t in P.items():
                bad = [s for s in T.subterms(t) if s.op in ('papp', 'app', 'idx')] + [
                    s for s in T.symbols(t) if s.args[0] not in ('H', 'H*', '_N', '_N*') and s.args[0][0] != 'e']
                ctx.ok('%s.%s.%s%d.closed' % ((kind,) + k), not bad, loc, 'the spectrum depends on %s' % [T.show(b) for b in bad][:3])
            lookups(ctx, kind, L, post, env, loc)
            positive(ctx, kind, post, r, P, env, loc)
            lead = {'s': lambda H, e: H**2 / (8 * mpmath.pi**2 * e[0]), 't': lambda H, e: 2 * (H / mpmath.pi)**2}
            for (n, m, o), t in P.items():
                key = '%s.%s.%s%d' % (kind, n, m, o)
                for j, (eps, dN) in enumerate(samples(ctx)):
                    # expansions about the pivot refer to k = -1/eta: ln(-k eta) = e1 to this order, for k = aH
                    at = eps[0] if m == 'ARBDS' else 0
                    H = mpf('0.3') + dN**2
                    v = mpmath.log(value(t, eps, H, at))
                    d = abs(v - mpmath.log(lead[n](H, eps)))
                    ctx.ok(key + '.leading', d < mpf('1e-6'), loc, 'leading order is not that of slow roll (relative %s)' % mpmath.nstr(d, 4))
                    for (n2, m2, o2), t2 in P.items():
                        if n2 != n or (m2, o2) == (m, o):
                            continue
                        q = min(ORDER[m, o], ORDER[m2, o2])
                        at2 = eps[0] if m2 == 'ARBDS' else 0
                        d = abs(v - mpmath.log(value(t2, eps, H, at2))) / D**q
                        ctx.ok('%s~%s%d' % (key, m2, o2), d < mpf('1e-6'), loc, 'differs from %s%d at order %d by %s' % (
                            m2, o2, q, mpmath.nstr(d, 5)))
                if m in ('LLMS', 'ARBDS'):
                    S = lambda x: T.sym(x + '*')  # noqa
                    lp = T.fn('log', t)
                    by_pivot = T.diff(lp, {**flow, PIV['_N']: T.num(1)})
                    by_k = T.diff(lp, {PNT['_N']: T.num(1)})
                    if m == 'ARBDS':       # ln k of the pivot moves with -1/eta
                        by_pivot = T.add(by_pivot, T.mul(T.mul(S('e1'), S('e2')), by_k))
                    for eps, dN in samples(ctx):
                        d = abs(value(by_pivot, eps, mpf('0.6'), dN)) / D**ORDER[m, o]
                        ctx.ok(key + '.pivot', d < mpf('1e-6'), loc, 'depends on the choice of pivot at order %d by %s' % (ORDER[m, o], mpmath.nstr(d, 5)))


def positive(ctx, kind, post, r, P, env, loc):
    """Only points where both spectra are positive enter the splines of their logarithms."""
    for (n, m, o), t in r.items():
        L = Local(post)
        L(t)
        masks = [T.substitute(L(mk), env) for pivot, x, q in L.lookups if not pivot for mk in stretches(T.lift(q[1]))]
        if not masks and m not in ('LLMS',):
            continue
        seen = set()
        for j in range(60 if ctx.thorough else 24):
            h = lambda x: mpf(T._hash01('mask%d' % j, x))  # noqa
            eps = [h('e1') + mpf('0.01')] + [6 * h('e%d' % q) - 3 for q in (2, 3)] + [mpf(0)]
            v = {x: mpmath.re(value(P[x, m, o], eps, mpf('0.5'), h('dN') - mpf('0.5'))) for x in 'st'}
            good = v['s'] > 0 and v['t'] > 0
            keep = all(bool(value(mk, eps, mpf('0.5'), h('dN') - mpf('0.5'))) for mk in masks) if masks else True
            if not good or all('e' in {a.args[0][0] for a in T.symbols(mk)} for mk in masks):
                seen.add((good, keep))
        key = '%s.%s.%s%d.positive' % (kind, n, m, o)
        ctx.ok(key, (False, True) not in seen, loc, 'points with a negative spectrum enter the spline of its logarithm')
        ctx.ok(key + '.all', (True, False) not in seen, loc, 'points with positive spectra are left out of the spline')


def stretches(t):
    """Outermost masks by which the elements of t are selected."""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen or as_interp(x) is not None:
            continue
        seen.add(x)
        if x.op == 'idx' and isinstance(x.args[1], Term) and T.is_array(x.args[1]):
            out.add(x.args[1])
        else:
            todo.extend(flat(x.args))
    return out


def time_variables(ctx):
    """Backgrounds solved in cosmic time and in e-folds give the same spectra, with any curvature."""
    for Kv in (1, -1):
        with accepted(ctx, 'K%+d' % Kv):
            R = {}
            for kind in 'tN':
                post, r, _ = spectra(ctx.interp(), kind, Kv)
                L = Local(post)
                R[kind] = {k: L(t) for k, t in r.items()}
                if kind == 't':
                    H, loc = L(T.lift(post['H'])), where(post['derive_approx_power'])
                    per_efold = {}
                    for a in (PNT, PIV):
                        per_efold[a['dphi']] = T.div(a['dphi'], H if a is PNT else T.substitute(H, L.star))
            for k, t in R['t'].items():
                ctx.equal('K%+d.%s.%s%d.tN' % ((Kv,) + k), t, T.substitute(R['N'][k], per_efold), loc,
                          'the spectrum depends on the time variable of the background', dom=cdom)


def lookups(ctx, kind, L, post, env, loc):
    """Splines run over log k; lookups of pivot values use the crossing of the same abscissa."""
    lk = T.substitute(L(T.lift(post['logk'])), env)
    for n, (pivot, x, (X, Y, at)) in enumerate(L.lookups):
        mx, my = stretches(T.lift(X)), stretches(T.lift(Y))
        key = '%s.lookup%d' % (kind, n)
        ctx.ok(key + '.stretch', mx == my, loc, 'abscissa and ordinate cover different stretches')
        if pivot:
            a = T.substitute(T.substitute(L(T.lift(X)), L.star), env)
            b = T.substitute(T.substitute(L(T.lift(at)), {post['_N_cross']: PIV['_N']}), env)
            ctx.equal(key + '.at', a, b, loc, 'pivot values are not looked up at the crossing', dom=cdom)
        else:
            ctx.equal(key + '.x', T.substitute(L(T.lift(X)), env), lk, loc, 'spectrum is not splined over log k', dom=cdom)
            ok = at is T.fn('log', T.sym('k')) or at is LNKS or T.equal(at, T.fn('log', T.sym('k')), dom=cdom)[0] or T.equal(at, LNKS, dom=cdom)[0]
            ctx.ok(key + '.k', ok, loc, 'spectrum is not looked up at log k')


def d_of(S, n):
    return T.app('interp', [S, LNKS], {}, pointwise=True) if n == 0 else T.app('spline_d', [S, LNKS, n], {}, pointwise=True)


@prop('C27', 'Amplitudes, tilts, runnings and the tensor-to-scalar ratio are the derivatives of the selected approximation '
      'of the right spectrum at the pivot, for every method, order and spline option.', 600,
      technique='abstract interpretation over all methods, orders and options; GVN of reported numbers against spline derivatives')
def c27(ctx):
    combos = list(itertools.product((0, 1, -1), APPROX)) if ctx.thorough else (
        [(0, a) for a in APPROX] + [(1 if j % 2 else -1, a) for j, a in enumerate(APPROX)])
    opts = [{}, {'k': 5, 'ext': 'zeros'}, {'ext': 'extrapolate', 'check_finite': True}]
    for n, (Kv, (m, o)) in enumerate(combos):
        for kind in (('t', 'N') if ctx.thorough else (('t', 'N')[n % 2],)):
            for j, opt in enumerate(opts):
                key = 'K%+d.%s.%s%d.%s' % (Kv, kind, m, o, '+'.join(sorted(opt)) or 'plain')
                i = ctx.interp()
                with accepted(ctx, key):
                    mark = len(i.trace)
                    post, r, _ = spectra(i, kind, Kv, m, o, queries=False, **opt)
                    loc = where(post['derive_approx_power'])
                    Ss, St = post['logk2logP_s'], post['logk2logP_t']
                    for name, S in (('s', Ss), ('t', St)):
                        kw = S.attrs.get('$kw', {})
                        ctx.ok('%s.%s.options' % (key, name), kw.get('k', 3) == opt.get('k', 3) and kw.get('ext', 0) == opt.get('ext', 'const')
                               and kw.get('check_finite', False) == opt.get('check_finite', False), loc, 'spline options %s are not the requested ones' % kw)
                        Pn = {'s': 'P_scalar_approx', 't': 'P_tensor_approx'}[name]
                        got, want = strip(T.fn('exp', T.lift(S.attrs['y']))), strip(T.lift(post[Pn]))
                        ctx.equal('%s.%s.spline' % (key, name), got, want, loc,
                                  'the splined spectrum is not %s' % Pn, dom=cdom)
                        ctx.equal('%s.%s.logk' % (key, name), strip(T.lift(S.attrs['x'])), strip(T.lift(post['logk'])), loc,
                                  'the spline does not run over log k', dom=cdom)
                    d, e = [[d_of(S.term, q) for q in range(4)] for S in (Ss, St)]
                    want = {'A_s': T.fn('exp', d[0]), 'n_s': T.add(1, d[1]), 'n_run': d[2], 'n_runrun': d[3],
                            'A_t': T.fn('exp', e[0]), 'n_t': e[1], 'r': T.div(T.fn('exp', e[0]), T.fn('exp', d[0]))}
                    for nm, w in want.items():
                        ctx.equal('%s.%s' % (key, nm), T.lift(post[nm]) if nm in post else None, w, loc,
                                  '%s is not that of the selected spectrum at the pivot' % nm, dom=cdom)


def strip(t):
    """Pointwise reading of an array expression: restrictions to stretches dropped."""
    memo = {}

    def s(x):
        if isinstance(x, tuple):
            return tuple(s(e) for e in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'idx' and isinstance(x.args[1], Term) and T.is_array(x.args[1]):
            r = s(x.args[0])
        elif x.op in ('sym', 'num', 'const') or x.op == 'papp' and x.args[0] == 'interp':
            r = x
        else:
            r = T.substitute(x, {a: s(a) for a in flat(x.args)})
        memo[x] = r
        return r
    return s(t)


@prop('C28', 'A spectrum query returns the spectrum of the requested type, method and order at the requested wavenumbers, '
      'whatever was derived before, and leaves the reported numbers as they are.', 420,
      technique='abstract interpretation over all pairs of derived and requested approximations; GVN')
def c28(ctx):
    n = 0
    for Kv in (0, 1, -1) if ctx.thorough else (0, -1):
        for kind in (('t', 'N') if ctx.thorough or Kv == 0 else ('t',)):
            i = ctx.interp()
            with accepted(ctx, 'K%+d.%s' % (Kv, kind)):
                ref, res = {}, {}
                for m, o in APPROX:
                    post, r, after = spectra(i, kind, Kv, m, o)
                    res[m, o, ''] = post, r, after
                    res[m, o, ' in reverse order'] = spectra(i, kind, Kv, m, o, reverse=True)
                    for x in 'st':
                        ref[x, m, o] = T.fn('exp', T.app('interp', [post['logk2logP_' + x].term, T.fn('log', T.sym('k'))], {}, pointwise=True))
                for x in 'st':
                    ref[x, 'default', 0] = ref[x, 'CGS', 3]
                for (m0, o0, how), (post, r, after) in res.items():
                    loc = where(post['P_s_approx'])
                    for (x, m, o), t in r.items():
                        ctx.equal('K%+d.%s.%s%d.%s.%s%d' % (Kv, kind, m0, o0, x, m, o), t, ref[x, m, o], loc,
                                  'after deriving %s%d the query%s for P_%s %s%d returns something else' % (m0, o0, how, x, m, o), dom=cdom)
                        n += 1
                    keep = [q for q, v in post.items() if isinstance(v, (Term, int, float, Fraction)) and q not in ('P_scalar_approx', 'P_tensor_approx')]
                    bad = [q for q in keep if after.get(q) is not post[q]]
                    ctx.ok('K%+d.%s.%s%d.untouched' % (Kv, kind, m0, o0), not bad, loc, 'queries change %s' % bad)
