"""C19-C25: calibration of the scale factor, reheating, bookkeeping of e-folds."""
import hashlib
import itertools
from ..bg import *  # noqa
from ..interp import Outcome  # noqa

NSTAR, RHO, W, DN, DM1, OK0, LITTLE_H, GTH = [T.sym(n) for n in (
    'N_star', 'rho_reh_GeV', 'w_reh', 'DeltaN_reh', 'DeltaN_minus1', 'Omega_K0', 'h', 'g_th')]
SYMS = {'N_star': NSTAR, 'rho_reh_GeV': RHO, 'w_reh': W, 'DeltaN_reh': DN, 'DeltaN_minus1': DM1, 'Omega_K0': OK0,
        'h': LITTLE_H, 'g_th': GTH}
CAL = {'N_star': (-15, 120), 'rho_reh_GeV': (1e-22, 1e20, 'log'), 'w_reh': (-0.8, 1.0), 'DeltaN_reh': (-8, 60), 'DeltaN_minus1': (-90, 60),
       'Omega_K0': (-0.2, 0.2), 'h': (-0.4, 1.2), 'g_th': (10, 200), '_N@beg': (0, 2), '_N@end': (15, 140), '_N@end0': (15, 140),
       'numpy.min': (-14, 5), 'numpy.max': (-11, 12), 'interp': (0, 60), 'background.N_star': (20, 60), 'n_s': (0.9, 1),
       'phi@end': (0.7, 1.9), 'dphi@end': (0.3, 0.9), 'N_star_min': (10, 25), 'N_star_max': (80, 100), 'k': (0.4, 6)}
_B = dict(BASE, **CAL)
RHOKEYS = ('rho_reh_GeV', 'w_reh', 'DeltaN_reh', 'DeltaN_minus1')


def cdom(t):
    b = t
    while b.op == 'idx':
        b = b.args[0]
    if b.op == 'sym':
        return _B.get(b.args[0].split('#')[0])
    if b.op in ('papp', 'app'):
        return _B.get(b.args[0], RANGES.get(b.args[0]))
    return None


# units, written once from the constants of nature (independent of primpy.units)
def consts(i):
    g = {n: T.lift(i.get('scipy.constants:' + n) if False else lib_const(i, n)) for n in ('c', 'hbar', 'G', 'k', 'e')}
    m = T.fn('sqrt', T.div(T.mul(g['hbar'], g['c']), T.mul(T.mul(8, T.PI), g['G'])))     # reduced Planck mass, kg
    lp = T.div(g['hbar'], T.mul(m, g['c']))                                             # reduced Planck length, m
    gev = T.mul(T.mul(Fraction(10)**9, g['e']), 1)
    tp = T.div(T.mul(m, T.power(g['c'], 2)), g['k'])
    Mpc = T.mul(Fraction(10)**6, T.lift(lib_const(i, 'parsec')))
    neff = Fraction(3044, 1000)
    g0 = T.add(2, T.mul(T.mul(Fraction(7, 4), neff), Fraction(4, 11)))
    return dict(g, lp=lp, Mpc=Mpc, mpGeV=T.div(T.mul(m, T.power(g['c'], 2)), gev), T0=T.div(Fraction('2.72548'), tp), g0=g0)


def lib_const(i, n):
    from ..lib import external_value
    return external_value('scipy.constants.' + n)


# a state that is not inflating (kinetic energy dominates), for solutions whose inflating stretch starts at an event
KINETIC = {'dphi': (1.6, 2.1), 'pot.V': (0.1, 0.5)}


def std_assume(kind, tracked=False):
    """Facts of a normal background: events have finite data; inflation is under way at the first point, or (tracked) it
    starts later, at the event that marks it."""
    def f(atom):
        a = atom
        if a.op == 'not':
            r = f(a.args[0])
            return None if r is None else not r
        if a.op == 'eq' and any(x.op in ('app', 'papp') and x.args[0] == 'numpy.isfinite' for x in a.args if isinstance(x, Term)):
            return False
        if a.op in ('app', 'papp') and a.args[0] == 'numpy.isfinite':
            return True
        if a.op in ('lt', 'eq'):
            sy = T.symbols(a)
            names = {s.args[0] for s in sy}
            if names and names <= {'phi', 'dphi', '_N', 'K', 't', 'eta'} and any(s.op == 'idx' for s in T.subterms(a)):
                return bool(T.Valuation(0, dom=domain(KINETIC if tracked else None))(a))
        return None
    return f


def bg_copy():
    b = VInst(VExternal('opaque.background'), name='background')
    b.bunch = True
    for n in ('N_star', 'delta_N_calib', '_logaH_star', '_N_cross', '_N_reh', '_N_end', 'w_reh', 'rho_reh_GeV', 'rho_reh_mp4',
              'DeltaN_reh', 'DeltaN_minus1', 'H_star'):
        b.attrs[n] = T.sym('background.' + n)
    b.attrs['_N_cross'] = T.sub(b.attrs['_N_end'], b.attrs['N_star'])     # a calibrated background is consistent
    return b


def given(args):
    """Arguments of a configuration with symbols filled in."""
    kw = {}
    for k, v in args.items():
        kw[k] = SYMS.get(k, True) if v is True else v
    return kw


def configs(thorough=False):
    """(label, K, arguments) of every way to call the calibration."""
    out = []
    sub = lambda keys: [dict((k, True) for k, b in zip(keys, bits) if b) for bits in  # noqa
                        itertools.product((0, 1), repeat=len(keys))]
    for r in sub(('rho_reh_GeV', 'w_reh', 'DeltaN_reh')):
        out.append((0, dict(r, calibration_method='N_star', N_star=True)))
    out.append((0, dict(calibration_method='N_star')))
    out.append((0, dict(N_star=True, g_th=True)))
    out.append((0, dict(N_star=True, w_reh=True, g_th=True)))
    out.append((0, dict(N_star=True, rho_reh_GeV=True, g_th=True)))
    out.append((0, dict(N_star=True, Omega_K0=0)))
    out.append((0, dict(N_star=True, Omega_K0=True)))
    out.append((0, dict(calibration_method='something else', N_star=True)))
    out.append((0, dict(calibration_method='Omega_K0', N_star=True)))
    for r in sub(RHOKEYS):
        out.append((0, dict(r, calibration_method='reheating')))
    for r in ((), ('w_reh', 'DeltaN_reh'), ('w_reh', 'rho_reh_GeV'), ('DeltaN_minus1', 'rho_reh_GeV')):
        out.append((0, dict(((k, True) for k in r), calibration_method='reheating', g_th=True)))
    out.append((0, dict(calibration_method='reheating', N_star=True)))
    out.append((0, dict(N_star=True, background=True)))
    out.append((0, dict(background=True)))
    for Kv in (1, -1):
        for r in sub(('rho_reh_GeV',)):
            out.append((Kv, dict(r, calibration_method='Omega_K0', Omega_K0=True, h=True)))
        out.append((Kv, dict(Omega_K0=True, h=True, rho_reh_GeV=True, g_th=True)))
        out.append((Kv, dict(Omega_K0=True)))
        out.append((Kv, dict(h=True)))
        out.append((Kv, dict(Omega_K0=0, h=True)))
        out.append((Kv, dict(Omega_K0=True, h=True, N_star=True)))
        out.append((Kv, dict(Omega_K0=True, h=True, calibration_method='N_star')))
        out.append((Kv, dict(Omega_K0=True, h=True, calibration_method='reheating')))
        out.append((Kv, dict(calibration_method='reheating')))
        out.append((Kv, dict(calibration_method='reheating', h=True, N_star=True)))
        for r in sub(('rho_reh_GeV', 'w_reh', 'DeltaN_reh')):
            out.append((Kv, dict(r, calibration_method='reheating', h=True)))
        out.append((Kv, dict(calibration_method='reheating', h=True, DeltaN_minus1=True)))
        out.append((Kv, dict(calibration_method='reheating', h=True, w_reh=True, DeltaN_reh=True, g_th=True)))
    return [('K%+d.%s.%s' % (Kv, a.get('calibration_method', 'default').split()[0],
                             '+'.join(sorted(k + ('' if v is True else '=%s' % v) for k, v in a.items()
                                             if k != 'calibration_method')) or 'none'), Kv, a) for Kv, a in out]


class Run:
    """Snapshot of one calibration."""


def calibrate(it, kind, Kv, args, stale=None, then=None):
    r = Run()
    r.eq, r.sol = solution(it, kind, Kv)
    r.pre = dict(r.sol.attrs)
    for n in stale or ():
        r.sol.attrs[n] = T.sym('stale.' + n)
    kw = given(args)
    if kw.get('background') is True:
        kw['background'] = bg_copy()
    r.bg, r.kw = kw.get('background'), kw
    r.mark = len(it.trace)
    call(it, r.sol, 'calibrate_scale_factor', **kw)
    r.post = dict(r.sol.attrs)
    r.trace = it.trace[r.mark:]
    if then is not None:
        then(it, r)
    return r


def kinds(ctx, n):
    return ('t', 'N') if ctx.thorough else (('t', 'N')[n % 2],)


def regimes(ctx, n):
    """(kind, does the inflating stretch start at an event) of the n-th configuration."""
    return itertools.product('tN', (False, True)) if ctx.thorough else (('tN'[n % 2], False), ('Nt'[n % 2], True))


def accepted(ctx, confs=None, **kw):
    """(key, kind, K, args, Run, interp) of every accepted path of every configuration."""
    for n, (key, Kv, args) in enumerate(confs or configs()):
        for kind, tracked in regimes(ctx, n):
            i = ctx.interp()
            loc = where(i.get('primpy.inflation:InflationEquations'))
            with ctx.guard(key):
                for o in explore(i, lambda it: calibrate(it, kind, Kv, args, **kw), std_assume(kind, tracked)):
                    if o.kind == 'raise':
                        continue
                    ctx.path = o
                    ctx.count('paths')
                    loc = where(o.value.pre['calibrate_scale_factor'])
                    try:
                        yield key, kind, Kv, args, o.value, i, loc
                    finally:
                        ctx.path = None


def get(r, n):
    """Final attribute as term (None if missing)."""
    v = r.post.get(n)
    return None if v is None else T.lift(v)


def isnan(t):
    return t is T.NAN


def eq(ctx, key, a, b, loc, msg):
    if a is None or b is None:
        return ctx.ok(key, False, loc, msg + ' (attribute missing)')
    return ctx.equal(key, a, b, loc, msg, dom=cdom, tol=1e-9)


@prop('C19', 'On every accepted path of every calibration call, reheating quantities obey rho_reh = 3/2 V_end '
      'exp(-3(1+w) dN), dN_minus1 = dN (1-3w)/4, entropy conservation at the end of reheating and at the end of '
      'inflation, the GeV-Planck conversion, and keep requested values; undetermined ones are NaN together.', 420,
      technique='abstract interpretation of all calibration calls over trace partitions; GVN against energy and entropy relations')
def c19(ctx):
    for key, kind, Kv, args, r, i, loc in accepted(ctx):
        if r.bg is not None:
            continue
        c = consts(i)
        gth = T.lift(r.kw.get('g_th', 100))
        cc = T.add(T.add(T.div(T.fn('log', T.div(45, T.power(T.PI, 2))), 4), T.neg(T.div(T.fn('log', c['g0']), 3))),
                   T.div(T.fn('log', gth), 12))
        rho, mp4, w, dn, dm1 = [get(r, n) for n in ('rho_reh_GeV', 'rho_reh_mp4', 'w_reh', 'DeltaN_reh', 'DeltaN_minus1')]
        Ve, N0, Nend, Nreh = get(r, 'V_end'), get(r, 'N0'), get(r, 'N_end'), get(r, 'N_reh')
        T4 = T.power(c['T0'], 4)
        known = [x is not None and not isnan(x) for x in (rho, mp4, w, dn)]
        info = any(k in args for k in RHOKEYS[:3]) or args.get('calibration_method') == 'reheating' and 'DeltaN_minus1' not in args
        ctx.ok(key + '.together', len(set(known)) == 1, loc, 'rho_reh, w_reh, DeltaN_reh are only partly determined: %s' % known)
        zero = ctx.path.equalities().get(DM1) is T.num(0)
        ctx.ok(key + '.determined', known[0] == bool(info or zero), loc, 'reheating is %sdetermined' % ('' if known[0] else 'not '))
        for n, t in (('rho_reh_GeV', rho), ('w_reh', w), ('DeltaN_reh', dn), ('DeltaN_minus1', dm1)):
            if args.get(n):
                eq(ctx, key + '.honour.' + n, t, SYMS[n], loc, 'requested %s is not kept' % n)
        if all(known):
            R = T.mul(T.mul(Fraction(3, 2), Ve), T.fn('exp', T.mul(T.mul(-3, T.add(1, w)), dn)))
            eq(ctx, key + '.rho', T.fn('log', mp4), T.fn('log', R), loc, 'rho_reh is not 3/2 V_end exp(-3(1+w) DeltaN_reh)')
            eq(ctx, key + '.GeV', T.power(rho, 4), T.mul(mp4, T.power(c['mpGeV'], 4)), loc, 'rho_reh in GeV and in Planck units differ')
            eq(ctx, key + '.minus1', dm1, T.mul(dn, T.div(T.sub(1, T.mul(3, w)), 4)), loc, 'DeltaN_minus1 is not DeltaN_reh (1-3w)/4')
            eq(ctx, key + '.entropy_reh', Nreh, T.add(T.sub(N0, cc), T.div(T.fn('log', T.div(T.mul(Fraction(3, 2), T4), mp4)), 4)),
               loc, 'entropy is not conserved since the end of reheating')
        else:
            ctx.ok(key + '.nan_N_reh', isnan(Nreh), loc, 'N_reh is given although reheating is undetermined')
        if dm1 is not None and not isnan(dm1):
            eq(ctx, key + '.entropy_end', Nend, T.sub(T.sub(T.sub(N0, cc), T.div(T.fn('log', T.div(Ve, T4)), 4)), dm1),
               loc, 'e-folds since the end of inflation disagree with entropy conservation and DeltaN_minus1')
        else:
            ctx.ok(key + '.nan_minus1', Kv != 0 and not any(known), loc, 'DeltaN_minus1 is not determined')


@prop('C20', 'On every accepted path of every calibration call, all e-fold labels are shifted by one common offset and '
      'differences between them are the reported durations.', 1200,
      technique='abstract interpretation of all calibration calls over trace partitions; GVN')
def c20(ctx):
    for key, kind, Kv, args, r, i, loc in accepted(ctx):
        d = get(r, 'delta_N_calib')
        for a, b in (('N', '_N'), ('N_beg', '_N_beg'), ('N_end', '_N_end'), ('N_cross', '_N_cross'), ('N_reh', '_N_reh')):
            A, B = get(r, a), get(r, b)
            if B is not None and isnan(B):
                ctx.ok('%s.%s' % (key, a), A is not None and isnan(A), loc, '%s is finite but %s is not' % (a, b))
                continue
            eq(ctx, '%s.%s' % (key, a), A, None if B is None or d is None else T.add(B, d), loc, '%s is not %s plus the common offset' % (a, b))
        eq(ctx, key + '.N_star', get(r, 'N_star'), T.sub(get(r, 'N_end'), get(r, 'N_cross')), loc, 'N_star is not N_end - N_cross')
        eq(ctx, key + '.N_dagg', get(r, 'N_dagg'), T.sub(get(r, 'N_cross'), get(r, 'N_beg')), loc, 'N_dagg is not N_cross - N_beg')
        eq(ctx, key + '.N0', get(r, 'N0'), T.fn('log', get(r, 'a0')), loc, 'N0 is not ln(a0)')
        for n in ('_N', '_N_beg', 'N_tot', '_logaH', 'H', 'H_end', 'V_end', 'K', 'phi', 'Omega_K') + (() if r.bg else ('_N_end',)):
            ctx.ok('%s.keep.%s' % (key, n), r.post.get(n) is r.pre.get(n) or r.bg is None and n in r.post and isinstance(r.pre.get(n), Term)
                   and T.equal(r.post[n], r.pre[n], dom=cdom)[0], loc, 'calibration changes the uncalibrated %s' % n)
        if r.bg is not None:
            for n in ('N_star', 'delta_N_calib', '_logaH_star', '_N_cross', '_N_end', '_N_reh'):
                eq(ctx, '%s.copy.%s' % (key, n), get(r, n), T.lift(r.bg.attrs[n]), loc, '%s is not copied from the given background' % n)
        else:
            if args.get('N_star'):
                eq(ctx, key + '.honour.N_star', get(r, 'N_star'), NSTAR, loc, 'requested N_star is not kept')
            dn = get(r, 'DeltaN_reh')
            if dn is not None and not isnan(dn):
                eq(ctx, key + '.DeltaN_reh', T.sub(get(r, 'N_reh'), get(r, 'N_end')), dn, loc, 'DeltaN_reh is not N_reh - N_end')


def as_interp(t):
    """(x, y, query) if the term is an interpolation."""
    if isinstance(t, Term) and t.op == 'papp' and t.args[0] == 'interp':
        a = t.args[1]
        if isinstance(a[0], Term) and a[0].op in ('app', 'papp') and a[0].args[0].startswith('interpolator:'):
            return a[0].args[1][0], a[0].args[1][1], a[1]
    if isinstance(t, Term) and t.op == 'app' and t.args[0] == 'interp' and len(t.args[1]) == 3:
        return t.args[1][1], t.args[1][2], t.args[1][0]
    return None


def boolean_leaves(t, out):
    if isinstance(t, Term) and t.op in ('band', 'bor', 'not'):
        for a in t.args:
            boolean_leaves(a, out)
    elif isinstance(t, Term) and t.op not in ('lt', 'eq'):
        out.add(t)
    return out


def implies(ctx, a, b, n=160):
    """Does condition a imply condition b (random interpretation, opaque conditions are random booleans)?"""
    leaves = sorted(boolean_leaves(a, boolean_leaves(b, set())), key=lambda t: t.id if hasattr(t, 'id') else id(t))
    tot = 0
    for s in range(n):
        v = T.Valuation('%s.%d' % (ctx.seed, s), fixed={x: bool((s >> j) & 1) for j, x in enumerate(leaves)}, dom=cdom)
        x, y = v(a), v(b)
        if not isinstance(x, bool) or not isinstance(y, bool):
            return False
        tot += x
        if x and not y:
            return False
    return tot > 0


def masked(t):
    """(array, mask) of an array restricted by a mask, pulled out of pointwise arithmetic."""
    masks = {s.args[1] for s in T.subterms(t) if s.op == 'idx' and isinstance(s.args[1], Term) and T.is_array(s.args[1])}
    return masks


class Unknown(Exception):
    """The model evaluation does not know an array operation."""


def model_select(mask, pre, L, seed):
    """Indices selected by a mask in a finite model of the background whose neighbouring samples partly coincide,
    with the wavenumbers there and the indices of the inflating stretch."""
    runs = [1, 2, 1, 1, 3, 1, 2, 1, 1]
    n = sum(runs)
    base = []
    for j, m in enumerate(runs):
        base += [j] * m
    leaves = {s for t in (mask, pre, L) for s in T.subterms(t) if s.op == 'sym' and T.is_array(s)}
    sc = {s for t in (mask, pre, L) for s in T.symbols(t) if not T.is_array(s)}
    val = {s: [T.Valuation('%s.%s.%d' % (seed, s.args[0], b), dom=cdom)(s) for b in base] for s in leaves}
    v0 = T.Valuation(seed, dom=cdom)
    for s in leaves:
        if s.args[0] == '_N':          # sorted
            val[s] = [v0(s) + T.mpf(b) / 10 for b in base]
            N = val[s]
    fixed = {s: v0(s) for s in sc}
    for s in sc:
        if s.args[0].startswith('_N@beg'):
            fixed[s] = N[0] + T.mpf('0.05')
        elif s.args[0].startswith('_N@end'):
            fixed[s] = N[-1] - T.mpf('0.05')
    memo = {}

    def point(t, j):
        """Value of a term at sample j."""
        if not isinstance(t, Term):
            return v0(t)
        if t in fixed:
            return fixed[t]
        if t in val:
            return val[t][j]
        inner, todo = {}, [t]
        while todo:
            s = todo.pop()
            known = len(inner)
            if s in val:
                inner[s] = val[s][j]
            elif s.op == 'idx' and s.args[0] in val:
                if not T.is_array(s):
                    inner[s] = val[s.args[0]][int(v0(s.args[1]))]
                else:
                    raise Unknown(T.show(s))
            elif s.op == 'app' and T.is_array(s):
                inner[s] = array(s)[j]
            elif s.op == 'app' and s.args[0] == 'numpy.size' or s.op == 'size':
                inner[s] = T.mpf(n)
            if len(inner) == known:
                todo += [e for a in s.args for e in (a if isinstance(a, tuple) else [a]) if isinstance(e, Term) and e not in inner]
        return T.Valuation(seed, fixed={**fixed, **inner}, dom=cdom)(t)

    def array(t):
        if t not in memo:
            name, a = t.args[0], t.args[1]
            if name == 'numpy.arange' and len(a) == 1:
                r = [T.mpf(j) for j in range(int(point(a[0], 0)))]
            elif name in ('numpy.unique', 'numpy.unique_index'):
                x = whole(a[0])
                u = sorted(set(x))
                r = u if name == 'numpy.unique' else [T.mpf(x.index(y)) for y in u]
            elif name == 'numpy.isin' and len(a) == 2:
                y = set(whole(a[1]))
                r = [x in y for x in whole(a[0])]
            else:
                raise Unknown(name)
            memo[t] = r
        return memo[t]

    def whole(t):
        if t.op == 'app' and T.is_array(t):
            return array(t)
        return [point(t, j) for j in range(n)]
    x, y, k = [whole(t) for t in (mask, pre, L)]
    return [j for j in range(n) if x[j]], k, [j for j in range(n) if y[j]]


def each_once(ctx, mask, pre, L):
    """Does the mask select every wavenumber of the inflating stretch exactly once? (None: cannot tell)"""
    for s in range(3):
        try:
            got, k, infl = model_select(mask, pre, L, '%s.mask%d' % (ctx.seed, s))
        except (Unknown, T.TermError):
            return None
        if len({k[j] for j in got}) != len(got) or {k[j] for j in got} != {k[j] for j in infl} or len(infl) < 5:
            return False
    return True


@prop('C21', 'On every accepted path of every calibration call: comoving wavenumbers, scale factor, offset, horizon and '
      'pivot crossing are mutually consistent (k = aH with k = K_STAR at the crossing), curvature today matches a0 and h, '
      'and the reported wavenumbers are those of the inflating stretch.', 700,
      technique='abstract interpretation of all calibration calls over trace partitions; GVN; structural matching of interpolations')
def c21(ctx):
    for key, kind, Kv, args, r, i, loc in accepted(ctx):
        c = consts(i)
        KS = T.num(Fraction(5, 100))
        KSlp = T.mul(T.div(KS, c['Mpc']), c['lp'])
        a0M, a0, ls, d = [get(r, n) for n in ('a0_Mpc', 'a0', '_logaH_star', 'delta_N_calib')]
        mask = r.post.get('inflation_mask')
        L, Nu = get(r, '_logaH'), get(r, '_N')
        eq(ctx, key + '.a0_Mpc', T.mul(a0M, KS), T.fn('exp', ls), loc, 'the pivot scale is not aH at its horizon crossing')
        if r.bg is None:
            eq(ctx, key + '.offset', T.add(ls, d), T.add(get(r, 'N0'), T.fn('log', KSlp)), loc, 'offset does not put the pivot scale at k = aH/a0')
        eq(ctx, key + '.logk', get(r, 'logk'), T.index(T.sub(L, T.fn('log', a0M)), mask), loc, 'logk is not log(aH/a0) on the inflating stretch')
        eq(ctx, key + '.k_iMpc', get(r, 'k_iMpc'), T.fn('exp', get(r, 'logk')), loc, 'k_iMpc is not exp(logk)')
        eq(ctx, key + '._k', get(r, '_k'), T.index(T.fn('exp', L), mask), loc, '_k is not aH on the inflating stretch')
        if r.bg is None:
            eq(ctx, key + '.cHH', T.mul(get(r, 'cHH_Mpc'), T.div(T.fn('exp', L), a0M)), T.num(1), loc, 'cHH_Mpc is not a0/(aH)')
            eq(ctx, key + '.cHH_end', T.mul(get(r, 'cHH_end_Mpc'), T.div(T.fn('exp', get(r, '_logaH_end')), a0M)), T.num(1), loc,
               'cHH_end_Mpc is not a0/(aH) at the end of inflation')
        ctx.ok(key + '.mask', implies(ctx, mask, r.pre['inflation_mask']), loc, 'wavenumbers outside the inflating stretch are reported')
        once = each_once(ctx, T.lift(mask), T.lift(r.pre['inflation_mask']), L)
        if once is None:
            ctx.count('masks not evaluated')
        ctx.ok(key + '.once', once is not False, loc, 'the wavenumbers are not strictly ordered, or some are missing: samples that share a '
               'wavenumber are not reduced to one')
        if Kv == 0:
            eq(ctx, key + '.a0', a0, T.num(1), loc, 'a0 is not 1 in a flat universe')
            eq(ctx, key + '.Omega_K0', get(r, 'Omega_K0'), T.num(0), loc, 'curvature today in a flat universe')
        else:
            eq(ctx, key + '.Omega_K0', T.mul(get(r, 'Omega_K0'), T.power(T.mul(T.mul(a0M, LITTLE_H), 10**5), 2)),
               T.mul(-Kv, T.power(c['c'], 2)), loc, 'curvature today, a0 and h are inconsistent')
            eq(ctx, key + '.a0', T.mul(a0, c['lp']), T.mul(a0M, c['Mpc']), loc, 'a0 and a0_Mpc are inconsistent')
            if args.get('Omega_K0'):
                eq(ctx, key + '.honour.Omega_K0', get(r, 'Omega_K0'), OK0, loc, 'requested Omega_K0 is not kept')
        # crossing: N_cross and logaH_star related by interpolation along the inflating stretch
        if r.bg is None:
            nc = get(r, '_N_cross')
            q = as_interp(nc)
            if q is not None:
                x, y, at = q
                ms = masked(x) | masked(y)
                ok = len(ms) == 1
                if ctx.ok(key + '.cross.mask', ok, loc, 'crossing interpolates arrays over different stretches: %s' % ms):
                    m = ms.pop()
                    eq(ctx, key + '.cross.x', T.sub(x, at), T.sub(T.index(L, m), ls), loc, 'crossing is not looked up by log(aH)')
                    eq(ctx, key + '.cross.y', y, T.index(Nu, m), loc, 'crossing is not an e-fold number')
                continue
            for s in T.subterms(ls):
                q = as_interp(s)
                if q is not None:
                    x, y, at = q
                    ms = masked(x) | masked(y)
                    if ctx.ok(key + '.cross.mask', len(ms) == 1, loc, 'crossing interpolates arrays over different stretches: %s' % ms):
                        m = ms.pop()
                        eq(ctx, key + '.cross.x', T.sub(x, at), T.sub(T.index(Nu, m), nc), loc, 'log(aH) at crossing is not looked up by e-folds')
                        eq(ctx, key + '.cross.y', T.sub(y, s), T.sub(T.index(L, m), ls), loc, 'log(aH) at crossing is not log(aH)')
                    break
            else:
                ctx.fail(key + '.cross', loc, 'crossing is not obtained by interpolation along the background')


# ------------------------------------------------------------------ acceptance
def instant_rule(v):
    """Verdict on reheating parameters (None or number): 'instant', 'general' or 'conflict'."""
    rho, w, dn, dm = [v.get(k) for k in RHOKEYS]
    third = T.mpf(1) / 3
    yes = [w is not None and T.close(w, third, 1e-12), dn is not None and dn == 0, dm is not None and dm == 0]
    no = [w is not None and not yes[0], dn is not None and dn != 0, dm is not None and dm != 0, rho is not None]
    if any(yes) or not any(x is not None for x in (rho, w, dn, dm)):
        return 'conflict' if any(no) else 'instant'
    return 'general'


def expected_errors(Kv, args, v, val, pre, r, bgN):
    """Exception names allowed for these argument values; empty: must be accepted. None: unspecified."""
    e = set()
    method = args.get('calibration_method', 'N_star' if Kv == 0 else 'Omega_K0')
    ok0, h, ns = v.get('Omega_K0'), v.get('h'), v.get('N_star')
    rho, w, dn, dm = [v.get(k) for k in RHOKEYS]
    if method not in (('N_star', 'reheating') if Kv == 0 else ('Omega_K0', 'reheating')):
        e.add('NotImplementedError')
    bad = dn is not None and dn < 0 or w is not None and w < -T.mpf(1) / 3
    if Kv == 0:
        if ok0 is not None and ok0 != 0:
            e.add('ValueError')
        if args.get('background'):
            if ns is None or ns <= 0 or not T.close(ns, bgN, 1e-12):
                e.add('ValueError')
            return e
        if method == 'N_star':
            if ns is None or ns <= 0:
                return e | {'ValueError'}
            if ns > val(pre['N_tot']):
                e.add('InsufficientInflationError')
            if sum(x is not None for x in (rho, w, dn)) > 1 or dn is not None:
                e.add('ValueError')
            if w is not None and rho is None and dn is None:
                third = T.close(w, T.mpf(1) / 3, 1e-12)
                if third or w < -T.mpf(1) / 3:
                    e.add('ValueError')
                elif 'ValueError' not in e and 'InsufficientInflationError' not in e:
                    d = r and r.get('DeltaN_reh')
                    if d is None:
                        return None
                    if val(d) < 0:
                        e.add('ValueError')
            return e
    else:
        if ns is not None or h is None or h <= 0:
            e.add('ValueError')
        if method == 'Omega_K0':
            if ok0 is None or ok0 == 0 or (ok0 > 0) == (Kv > 0):
                e.add('ValueError')
            return e
        if method == 'reheating' and ok0 is not None:
            e.add('ValueError')
    if method == 'reheating':
        if bad:
            e.add('ValueError')
        rule = instant_rule(v) if ns is None else 'general'
        if rule == 'conflict':
            e.add('ValueError')
        elif rule == 'general':
            if Kv == 0 and dm is not None:
                if w is not None or dn is not None:
                    e |= {'NotImplementedError', 'ValueError'}
            elif not (w is not None and (dn is None) != (rho is None)):
                e.add('ValueError')
    return e


@prop('C22', 'For every way to call the calibration (which arguments are given, which method, flat/open/closed) and every '
      'path, the outcome (accepted, or which error) is the one the decision table demands for argument values on that '
      'path; pivot scales outside the horizon range of inflation are rejected.', 260,
      technique='abstract interpretation of all calibration calls over trace partitions; path conditions compared with a decision table by random interpretation')
def c22(ctx):
    for n, (key, Kv, args) in enumerate(configs()):
        for kind, tracked in regimes(ctx, n):
            i = ctx.interp()
            loc = where(i.get('primpy.inflation:InflationEquations'))

            def run(it):
                eq_, sol = solution(it, kind, Kv)
                pre = dict(sol.attrs)
                kw = given(args)
                if kw.get('background') is True:
                    kw['background'] = bg_copy()
                try:
                    call(it, sol, 'calibrate_scale_factor', **kw)
                except PyRaise as e:
                    return e.value.name, pre, dict(sol.attrs)
                return None, pre, dict(sol.attrs)
            with ctx.guard(key):
                hits = 0
                for o in explore(i, run, std_assume(kind, tracked)):
                    got, pre, post = o.value
                    loc = where(pre['calibrate_scale_factor'])
                    hits += table_row(ctx, key, Kv, args, o, got, pre, post, loc)
                ctx.ok(key + '.sampled', hits > 0, loc, 'no argument values reach any path')


def table_row(ctx, key, Kv, args, o, got, pre, post, loc):
    env = o.equalities()
    n = 0
    need = 12 if ctx.thorough else 4
    edges = boundaries(args, pre)
    for s in range(400 + EDGES):
        fixed = dict(env)
        if s >= 400:
            for j, (k, vs) in enumerate(edges.items()):
                h = hash_pick('%s/%d/%d' % (ctx.seed, s, j), len(vs) + 1)
                if h < len(vs):
                    fixed.setdefault(SYMS[k], vs[h])
        elif n >= need:
            continue
        v = T.Valuation('%s/%d' % (ctx.seed, s), fixed=fixed, dom=cdom)
        try:
            if not T.satisfies(v, [d for d in o.decisions]):
                continue
            vals = {k: (v(SYMS[k]) if a is True else T.mpf(a)) for k, a in args.items() if k in SYMS}
            want = expected_errors(Kv, args, vals, v, pre, post, v(T.sym('background.N_star')))
            if want is None:
                continue
            if not want and args.get('background') is None:
                out = outside(v, Kv, args, pre, post)
                if out is None and got == 'InsufficientInflationError':
                    continue
                if out:
                    want = {'InsufficientInflationError'}
        except T.TermError:
            continue
        n += 1
        if (got not in want) if (want or got) else False:
            ctx.fail('%s.%s' % (key, got or 'accept'), loc, 'calibration %s where it must %s (path %s)' % (
                'raises ' + got if got else 'accepts', 'raise ' + '/'.join(sorted(want)) if want else 'accept', o.path()[-3:]))
            return n
    if n:
        ctx.ok('%s.%s' % (key, got or 'accept'), True, loc)
    else:
        ctx.count('unsampled_paths')
    return n


EDGES = 60


def hash_pick(key, n):
    return int(hashlib.sha256(key.encode()).hexdigest(), 16) % n


def boundaries(args, pre):
    """Values of the arguments at and next to the limits of what is acceptable."""
    e = Fraction(1, 10**7)
    t = Fraction(1, 3)
    b = {'N_star': [T.num(0), T.num(-e), T.num(e), T.mul(pre['N_tot'], 1 + e), T.mul(pre['N_tot'], 1 - e)],
         'h': [T.num(0), T.num(-e), T.num(e)], 'Omega_K0': [T.num(0), T.num(e), T.num(-e)],
         'w_reh': [T.num(x) for x in (t, t + e, t - e, -t - e, -t + e, 0)],
         'DeltaN_reh': [T.num(x) for x in (0, e, -e)], 'DeltaN_minus1': [T.num(x) for x in (0, e, -e)], 'rho_reh_GeV': []}
    return {k: b[k] for k in b if args.get(k) is True}


def outside(v, Kv, args, pre, post):
    """Pivot scale outside the horizon range of inflation."""
    if Kv == 0:
        if args.get('calibration_method') != 'reheating':
            return False
        if '_logaH_star' not in post:
            return None
        ls = v(post['_logaH_star'])
        return ls < v(pre['_logaH_beg']) or ls > v(pre['_logaH_end'])
    if 'logk' not in post:
        return None
    lk = T.lift(post['logk'])
    p = T.fn('log', Fraction(5, 100))
    return v(p) < v(T.app('numpy.min', [lk])) or v(p) > v(T.app('numpy.max', [lk]))


# ------------------------------------------------------------------ no leftovers
SPECTRAL = ('A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r', 'logk2logP_s', 'logk2logP_t', 'P_scalar_approx', 'P_tensor_approx')
APPROX = [('CGS', o) for o in (0, 1, 2, 3)] + [('LLMS', 3), ('STE', 3)] + [('ARBDS', o) for o in (1, 2, 3)]


def sentinel(n, like):
    """Value left behind by an earlier calibration."""
    t = T.sym('stale.' + n)
    if isinstance(like, VInst):
        o = VInst(like.cls, name='stale')
        o.term = t
        return o
    if isinstance(like, (Term, int, float, Fraction, VArray)) or like is None:
        return t
    return VBuiltin('stale.' + n, lambda i, a, k: t)


def is_stale(v):
    v = getattr(v, 'term', v)
    return isinstance(v, Term) and any(s.args[0].startswith('stale.') for s in T.symbols(v)) or isinstance(v, VBuiltin) and v.name.startswith('stale.')


@prop('C23', 'After every accepted calibration nothing reported (reference points, reheating, wavenumbers, spectra of any '
      'approximation) depends on the outcome of an earlier calibration.', 4000,
      technique='taint analysis by abstract interpretation: results of an earlier calibration are sentinels, tracked through all paths')
def c23(ctx):
    confs = configs()
    written = {True: {}, False: {}}
    quiet = type('Quiet', (), {'thorough': False, 'interp': ctx.interp, 'guard': ctx.guard, 'path': None,
                               'count': lambda *a: None})()

    def everything(it, r):
        """Ask for every approximate spectrum, whose parts may be kept."""
        k = T.sym('k')
        r.spec = {}
        for m, o in APPROX if not r.bg else ():
            for n in ('P_s_approx', 'P_t_approx'):
                r.spec[n, m, o] = call(it, r.sol, n, k, method=m, order=o)

    def ask(it, r):
        everything(it, r)
        r.post = dict(r.sol.attrs)
    for key, kind, Kv, args, r, i, loc in accepted(quiet, confs, then=ask):
        for n, v in r.post.items():
            if n not in r.pre:        # (the end of inflation may be copied for good)
                written[Kv == 0].setdefault(n, v)

    def twice(it, kind, Kv, args):
        r = Run()
        r.eq, r.sol = solution(it, kind, Kv)
        for n, v in written[Kv == 0].items():
            r.sol.attrs[n] = sentinel(n, v)
        r.pre = r.sol.attrs
        kw = given(args)
        if kw.get('background') is True:
            kw['background'] = bg_copy()
        r.bg = kw.get('background')
        call(it, r.sol, 'calibrate_scale_factor', **kw)
        r.post = dict(r.sol.attrs)
        everything(it, r)
        return r
    for n, (key, Kv, args) in enumerate(confs):
        for kind in kinds(ctx, n):
            i = ctx.interp()
            with ctx.guard(key):
                for o in explore(i, lambda it: twice(it, kind, Kv, args), std_assume(kind, n // 2 % 2 == 1)):
                    for atom, val in o.decisions:
                        if is_stale(atom):
                            ctx.fail(key + '.decision', '', 'the calibration decides on leftovers of an earlier one: %s' % T.show(atom))
                    if o.kind == 'raise':
                        continue
                    r = o.value
                    loc = where(r.pre['calibrate_scale_factor'])
                    ctx.count('paths')
                    for a in written[Kv == 0]:
                        if r.bg is not None and (a in SPECTRAL or a.startswith(('P_s_approx_', 'P_t_approx_'))):
                            continue
                        ctx.ok('%s.%s' % (key, a), not is_stale(r.post.get(a)), loc, '%s is left over from an earlier calibration' % a)
                    for (a, m, d), v in r.spec.items():
                        ctx.ok('%s.%s.%s%d' % (key, a, m, d), v is not None and not is_stale(v), loc,
                               '%s(%s, order %d) is left over from an earlier calibration' % (a, m, d))


@prop('C24', 'The instant-reheating test is false whenever the number of e-folds is given, otherwise true exactly when no '
      'parameter or only instant ones are given, and rejects instant parameters mixed with others.', 60,
      technique='abstract interpretation over all argument patterns; path conditions compared with a truth table by random interpretation')
def c24(ctx):
    names = ('N_star',) + RHOKEYS
    for bits in itertools.product((0, 1), repeat=5):
        i = ctx.interp()
        f = i.get('primpy.reheating:is_instant_reheating')
        loc = where(f)
        kw = {n: (SYMS[n] if b else None) for n, b in zip(names, bits)}
        key = '+'.join(n for n, b in zip(names, bits) if b) or 'none'
        hits = 0
        with ctx.guard(key, loc):
            for o in explore(i, lambda it: it.call(f, [], dict(kw))):
                env = o.equalities()
                good = True
                got = o.exc_name if o.kind == 'raise' else o.value
                for s in range(200):
                    v = T.Valuation('%s/%d' % (ctx.seed, s), fixed=dict(env), dom=cdom)
                    if not T.satisfies(v, o.decisions):
                        continue
                    vals = {n: v(t) for n, t in kw.items() if t is not None}
                    rule = instant_rule(vals)
                    want = False if kw['N_star'] is not None else 'ValueError' if rule == 'conflict' else rule == 'instant'
                    hits += 1
                    good = good and got == want and type(got) is type(want)
                    if s > 20 and good:
                        break
                ctx.ok('%s.%s' % (key, got), good, loc, 'wrong verdict %s for %s on path %s' % (got, key, o.path()))
            ctx.ok(key + '.sampled', hits > 0, loc, 'no values reach any path')


@prop('C25', 'Setting the spectral index in post-processing finds the root of the calibrated spectral index over the '
      'requested range, rejects targets outside it and curved universes, and leaves the state of a plain calibration.', 1000,
      technique='abstract interpretation with a recorded root finder; GVN of the searched function and of the final state')
def c25(ctx):
    lo, hi, tgt = T.sym('N_star_min'), T.sym('N_star_max'), T.sym('n_s')
    dom = lambda t: (1.35, 2.65) if t is tgt else cdom(t)  # noqa

    def fresh(i, kind, *ns, **kw):
        """State after plain calibrations at each of ns in turn."""
        def go(it):
            _, sol = solution(it, kind, 0)
            for x in ns[:-1]:
                call(it, sol, 'calibrate_scale_factor', calibration_method='N_star', N_star=x)
            call(it, sol, 'calibrate_scale_factor', calibration_method='N_star', N_star=ns[-1], **kw)
            return dict(sol.attrs)
        out = [o for o in explore(i, go, std_assume(kind)) if o.kind == 'return']
        return out[0].value
    for Kv in (1, -1):
        for kind in KINDS:
            i = ctx.interp()
            with ctx.guard('K%+d' % Kv):
                def curved(it):
                    r.eq, r.sol = solution(it, kind, Kv)
                    r.pre = dict(r.sol.attrs)
                    return call(it, r.sol, 'set_ns', tgt)
                r = Run()
                for o in explore(i, curved, std_assume(kind)):
                    ctx.ok('K%+d.%s.rejected' % (Kv, kind), o.kind == 'raise' and o.exc_name == 'PrimpyError', where(r.pre['set_ns']),
                           'setting n_s in a curved universe is not rejected')
                    ctx.ok('K%+d.%s.untouched' % (Kv, kind), all(r.sol.attrs.get(n) is v for n, v in r.pre.items())
                           and set(r.pre) == set(r.sol.attrs), where(r.pre['set_ns']), 'a rejected request changes the solution')
    opts = {'xtol': T.sym('xtol'), 'method': 'brentq'}
    quick = [('t', None, {}, 0), ('t', RHO, opts, 1), ('N', RHO, {}, 0), ('N', None, opts, 1)]
    for kind, rho, opt, defaults in itertools.product(KINDS, (None, RHO), ({}, opts), (0, 1)) if ctx.thorough else quick:
        key = '%s.%s%s%s' % (kind, 'rho' if rho is not None else 'plain', '.opts' if opt else '', '.default' if defaults else '')
        i = ctx.interp(**{'numpy.isin': lambda it, a, k: True})     # (no exactly coinciding grid points)
        with ctx.guard(key):
            one_set_ns(ctx, key, i, kind, rho, opt, 20 if defaults else lo, 90 if defaults else hi, tgt, dom, fresh, defaults)


def one_set_ns(ctx, key, i, kind, rho, opts, lo, hi, tgt, dom, fresh, defaults):
    def run(it):
        r = Run()
        r.eq, r.sol = solution(it, kind, 0)
        r.fn = r.sol.attrs['set_ns']
        m = len(it.trace)
        kw = dict(opts)
        if rho is not None:
            kw['rho_reh_GeV'] = rho
        if not defaults:
            kw.update(N_star_min=lo, N_star_max=hi)
        try:
            call(it, r.sol, 'set_ns', tgt, **kw)
            r.error = None
        except PyRaise as e:
            r.error = e.value.name
        r.post = dict(r.sol.attrs)
        r.roots = [e for e in it.trace[m:] if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar']
        r.f = None
        if r.error is None and len(r.roots) == 1:
            a, k = r.roots[0].data[1:3]
            r.f = it.call(a[0] if a else k['f'], [T.sym('x')], {})
        return r
    nmin, nmax, at_x = [fresh(i, kind, *x)['n_s'] for x in ((lo,), (lo, hi), (lo, hi, T.sym('x')))]
    n = 0
    for o in explore(i, run, std_assume(kind)):
        if o.kind == 'raise':
            if any(isinstance(a, Term) and T.sym('x') in T.symbols(a) for a, _ in o.decisions):
                continue            # the probe x itself is unsuitable
            ctx.fail(key + '.raises', '', 'set_ns raises %s' % o.exc_name)
            continue
        r = o.value
        loc = where(r.fn)
        n += 1
        sides = set()
        for s in range(60):
            v = T.Valuation('%s/%d' % (ctx.seed, s), fixed=dict(o.equalities()), dom=dom)
            if T.satisfies(v, o.decisions):
                a, b, t = v(nmin), v(nmax), v(tgt)
                sides.add('low' if a < t and b < t else 'high' if a > t and b > t else 'inside')
        if r.error == 'PrimpyError':
            ctx.ok(key + '.outside', sides <= {'low', 'high'}, loc, 'a target inside the range is rejected (%s)' % o.path()[-2:])
            continue
        if r.error is not None:
            ctx.ok(key + '.error', r.error in ('ValueError', 'InsufficientInflationError'), loc, 'unexpected %s' % r.error)
            continue
        ctx.ok(key + '.inside', sides <= {'inside'}, loc, 'a target outside the range is accepted (%s)' % o.path()[-2:])
        if not ctx.ok(key + '.search', len(r.roots) == 1, loc, '%d root searches' % len(r.roots)):
            continue
        a, k, res = r.roots[0].data[1:4]
        br = k.get('bracket')
        br = i.iterate(br) if br is not None else []
        ctx.ok(key + '.bracket', len(br) == 2 and {T.lift(x) for x in br} == {T.lift(lo), T.lift(hi)}, loc, 'the search range is not the requested one')
        for n_, v_ in opts.items():
            ctx.ok('%s.option.%s' % (key, n_), k.get(n_) is v_ or k.get(n_) == v_, loc, 'option %s is not passed to the root finder' % n_)
        ctx.path = o
        f = r.f
        ctx.ok(key + '.fn', f is not None and root_function(ctx, f, at_x, tgt, o, dom), loc, 'the searched function does not vanish exactly at the target n_s')
        ref = fresh(i, kind, lo, hi, res.attrs['root'], **({'rho_reh_GeV': rho} if rho is not None else {}))
        for nm, want in ref.items():
            if isinstance(want, (Term, int, float, Fraction)):
                got = r.post.get(nm)
                eq2(ctx, '%s.state.%s' % (key, nm), got, want, loc, '%s is not that of a calibration at the root' % nm, dom)
        ctx.path = None
    ctx.ok(key + '.paths', n > 2, '', 'only %d paths' % n)


def eq2(ctx, key, a, b, loc, msg, dom):
    if a is None:
        return ctx.ok(key, False, loc, msg + ' (missing)')
    return ctx.equal(key, T.lift(a), T.lift(b), loc, msg, dom=dom, tol=1e-9)


def root_function(ctx, f, at_x, tgt, o, dom):
    """f vanishes where at_x equals the target, and only there."""
    f = T.lift(f)
    for s in ctx.seeds():
        v = T.Valuation('%s/r%s' % (ctx.seed, s), dom=dom)
        w = T.Valuation('%s/r%s' % (ctx.seed, s), fixed={tgt: v(at_x)}, dom=dom)
        if abs(w(f)) > 1e-12 or abs(v(f)) < 1e-6 * abs(v(T.sub(at_x, tgt))):
            return False
    return True
