"""C32-C35: standard Big Bang cosmology after inflation."""
from ..common import *  # noqa
from ..report import exc_text
from .calibration import consts

BB = 'primpy.bigbang:'
HH, OK, OM, N = [T.sym(n) for n in ('h', 'Omega_K0', 'Omega_m0', 'N')]
DOM = natural({'h': (0.4, 0.9), 'Omega_m0': (0.05, 0.9), 'Omega_K0': (-0.1, 0.1), 'N': (-8, 1)})


def bb(it, name, **kw):
    return it.call(it.get(BB + name), [], kw)


def at(i, name):
    return where(i.get(BB + name))


def unit_of(g, kind, unit):
    """How many SI units one of the given units is."""
    return {('H', 'SI'): 1, ('H', 'H0'): T.div(1000, g['Mpc']), ('H', 'planck'): T.div(g['c'], g['lp']),
            ('L', 'SI'): 1, ('L', 'Mpc'): g['Mpc'], ('L', 'planck'): g['lp']}[kind, unit]


def radiation(g):
    """Energy density of photons and massless neutrinos over 3 H^2 / 8 pi G at h = 1, from Planck's law."""
    kT = T.mul(g['k'], Fraction('2.72548'))
    photons = T.div(T.mul(T.div(T.power(T.PI, 2), 15), T.power(kT, 4)), T.mul(T.power(g['hbar'], 3), T.power(g['c'], 3)))
    nu = T.mul(T.mul(Fraction(7, 8), Fraction(3044, 1000)), T.power(Fraction(4, 11), Fraction(4, 3)))
    rho = T.div(T.mul(photons, T.add(1, nu)), T.power(g['c'], 2))
    H1 = T.div(100 * 1000, g['Mpc'])
    return T.div(T.mul(rho, T.mul(8, T.mul(T.PI, g['G']))), T.mul(3, T.power(H1, 2)))


def a0_lp(g, v):
    """Scale factor today in reduced Planck lengths: c / H0 / sqrt|Omega_K0|, or 1 if flat."""
    ok = v(OK)
    if ok == 0:
        return T.mpf(1)
    return v(g['c']) / (v(HH) * 100000 / v(g['Mpc'])) / T.mpmath.sqrt(abs(ok)) / v(g['lp'])


def sample(ctx, tag, n, **fixed):
    for s in range(n):
        yield T.Valuation('%s/%s/%d' % (ctx.seed, tag, s), dom=DOM, fixed=fixed_values(**fixed))


def the_path(ctx, key, outs, v, loc):
    got = pick(outs, v)
    if ctx.ok(key + '.paths', len(got) == 1, loc, '%d paths for one input' % len(got)):
        return got[0]


@prop('C32', 'Hubble rate, scale factor, comoving Hubble horizon and BBN time today agree between all unit systems; units that do not exist are rejected; '
      'the curvature scale fixes the scale factor.', 150,
      technique='abstract interpretation over trace partitions; GVN against an independent set of units')
def c32(ctx):
    i = ctx.interp()
    g = consts(i)
    loc = at(i, 'get_H0')
    for u in ('planck', 'H0', 'SI', None):
        for o in explore(i, lambda it: bb(it, 'get_H0', h=HH, **({'units': u} if u else {}))):
            want = T.div(T.div(T.mul(HH, 100 * 1000), g['Mpc']), unit_of(g, 'H', u or 'planck'))
            ctx.equal('H0.%s' % u, o.kind == 'return' and T.lift(o.value), want, loc, 'the Hubble rate today is not 100 h km/s/Mpc in these units')
    for u in ('Mpc', 'lp', 'planck ', 'h0', 'si', '', 'spam'):
        reject(ctx, i, 'H0.' + u, lambda it: bb(it, 'get_H0', h=HH, units=u), loc)
    loc = at(i, 'get_a0')
    for u in ('planck', 'Mpc', 'SI', None):
        outs = explore(i, lambda it: bb(it, 'get_a0', h=HH, Omega_K0=OK, **({'units': u} if u else {})))
        for ok in (0, Fraction(1, 10**9), Fraction(-1, 10**9), Fraction(1, 10**14), Fraction(-1, 10**14), Fraction(1, 10**22), Fraction(-1, 10**22), Fraction(1, 7), Fraction(-1, 5), Fraction(-3), Fraction(9, 10)):
            for v in sample(ctx, 'a0', 3, Omega_K0=ok):
                o = the_path(ctx, 'a0.%s' % u, outs, v, loc)
                if not o or not ctx.ok('a0.%s.returns' % u, o.kind == 'return', loc, 'raises'):
                    continue
                want = a0_lp(g, v) * v(g['lp']) / v(T.lift(unit_of(g, 'L', u or 'planck'))) if ok else 1
                ctx.ok('a0.%s.value' % u, same(real_value(v, o.value), want), loc,
                       'the scale factor today is not c/H0/sqrt|Omega_K0| in these units' if ok else 'the scale factor today is not 1 in a flat universe')
    for u in ('H0', 'lp', 'm', 'mpc', 'spam'):
        reject(ctx, i, 'a0.' + u, lambda it: bb(it, 'get_a0', h=HH, Omega_K0=T.num(Fraction(1, 9)), units=u), loc)
    loc = at(i, 'get_N_BBN')
    outs = explore(i, lambda it: bb(it, 'get_N_BBN', h=HH, Omega_K0=OK))
    for ok in (0, Fraction(1, 7), Fraction(-1, 5), Fraction(1, 10**6), Fraction(-1, 10**6), Fraction(1, 10**12), Fraction(-1, 10**12), Fraction(1, 10**20), Fraction(-1, 10**20)):
        for v in sample(ctx, 'bbn', 3, Omega_K0=ok):
            o = the_path(ctx, 'N_BBN', outs, v, loc)
            if o and ctx.ok('N_BBN.returns', o.kind == 'return', loc, 'raises'):
                ctx.ok('N_BBN.value', same(real_value(v, o.value), T.mpmath.log(a0_lp(g, v) / (1 + T.mpf(10)**9))), loc, 'BBN is not at redshift 1e9')
    loc = at(i, 'comoving_Hubble_horizon')
    quiet = lambda it: it  # noqa
    for u in ('planck', 'Mpc', 'SI', None):
        hu = {'Mpc': 'H0'}.get(u, u or 'planck')

        def both(it):
            return (bb(it, 'comoving_Hubble_horizon', N=N, Omega_m0=OM, Omega_K0=OK, h=HH, **({'units': u} if u else {})),
                    bb(it, 'Hubble_parameter', N=N, Omega_m0=OM, Omega_K0=OK, h=HH, units=hu))
        outs = explore(i, both)
        for ok in (0, Fraction(1, 50), Fraction(-1, 30), Fraction(1, 10**6), Fraction(-1, 10**6), Fraction(1, 10**12), Fraction(-1, 10**12), Fraction(1, 10**20), Fraction(-1, 10**20)):
            for v in sample(ctx, 'chh', 3, Omega_K0=ok, Omega_m0=Fraction(3, 10)):
                o = the_path(ctx, 'cHH.%s' % u, outs, v, loc)
                if not o or not ctx.ok('cHH.%s.returns' % u, o.kind == 'return', loc, 'raises'):
                    continue
                d, H = [real_value(v, x) for x in o.value]
                si = v(g['c']) * a0_lp(g, v) / T.mpmath.exp(v(N)) / (H * v(T.lift(unit_of(g, 'H', hu))))
                ctx.ok('cHH.%s.value' % u, same(d * v(T.lift(unit_of(g, 'L', u or 'planck'))), si), loc,
                       'the comoving Hubble horizon is not c a0 / (a H) in these units')
    for u in ('lp', 'm', 'mpc', 'spam'):
        reject(ctx, i, 'cHH.' + u, lambda it: bb(it, 'comoving_Hubble_horizon', N=N, Omega_m0=T.num(Fraction(3, 10)), Omega_K0=T.num(Fraction(1, 50)), h=HH, units=u), loc)


def reject(ctx, i, key, f, loc):
    for o in explore(i, f):
        ctx.ok(key + '.rejected', o.kind == 'raise' and o.exc_name == 'NotImplementedError', loc, 'units that do not exist are accepted')


def fate(om, ol):
    """'bounce', 'recollapse' or 'expands', from the roots of the Friedmann equation without radiation."""
    m = T.mpmath
    if om == 0:
        roots = [m.sqrt(ol / (ol - 1))] if ol != 1 and ol / (ol - 1) > 0 else []
    else:
        with m.workdps(60):
            roots = [r.real for r in m.polyroots([om, 1 - om - ol, 0, ol], maxsteps=2000, extraprec=2000) if abs(r.imag) < T.mpf(10)**-25]
    past = [r for r in roots if r > 1 + T.mpf(10)**-25]
    future = [r for r in roots if T.mpf(10)**-25 < r < 1 - T.mpf(10)**-25]
    return 'bounce' if past else 'recollapse' if future else 'expands'


@prop('C33', 'The Hubble rate of the standard cosmology equals the value today now, has the densities of matter, radiation (Planck\'s law), '
      'curvature and Lambda summing to one with their scalings, refuses universes without a Big Bang and warns about those that recollapse; '
      'the effective equation of state of reheating recovers the one that was put in.', 100,
      technique='abstract interpretation over trace partitions; decision table from the roots of the Friedmann equation; GVN')
def c33(ctx):
    i = ctx.interp()
    g = consts(i)
    loc = at(i, 'Hubble_parameter')
    r1 = radiation(g)
    for name, want in (('get_rho_crit_kg_im3', T.div(T.mul(3, T.power(T.div(T.mul(HH, 100000), g['Mpc']), 2)), T.mul(8, T.mul(T.PI, g['G'])))),
                       ('get_Omega_r0', T.div(r1, T.power(HH, 2)))):
        for o in explore(i, lambda it: bb(it, name, h=HH)):
            ctx.equal(name, o.kind == 'return' and T.lift(o.value), want, at(i, name), 'is not the density of the standard cosmology', dom=DOM)
    for u in ('planck', 'H0', 'SI', None):
        def run(it):
            m = len(it.trace)
            H = bb(it, 'Hubble_parameter', N=N, Omega_m0=OM, Omega_K0=OK, h=HH, **({'units': u} if u else {}))
            return H, [e.data[0] for e in it.trace[m:] if e.kind == 'warn']
        outs = explore(i, run)
        seen = set()
        grid = [(Fraction(3, 10), 0), (Fraction(3, 10), Fraction(1, 20)), (Fraction(3, 10), Fraction(-1, 20)), (Fraction(3, 10), Fraction(1, 10**8)),
                (Fraction(3, 10), Fraction(-1, 10**8)), (Fraction(3, 10), Fraction(1, 10**13)), (Fraction(3, 10), Fraction(-1, 10**13)), (Fraction(1, 20), Fraction(-3, 10)),
                (Fraction(1, 20), Fraction(-1, 9)), (0, Fraction(-1, 100)), (0, Fraction(1, 100)), (Fraction(1), Fraction(1, 100)),
                (Fraction(3, 2), Fraction(-1, 2)), (Fraction(3, 2), Fraction(-51, 100)), (Fraction(3, 2), Fraction(-505, 1000)), (Fraction(3), Fraction(-1)),
                (Fraction(3), Fraction(-3)), (Fraction(3), Fraction(-7)), (Fraction(7, 10), Fraction(1, 2)), (Fraction(2, 5), Fraction(-3, 2)),
                (Fraction(2, 5), Fraction(-6, 5)), (Fraction(6, 10), Fraction(-17, 10)), (Fraction(6, 10), Fraction(-3, 2)), (Fraction(0), Fraction(1))]
        for om, ok in grid:
            for v in sample(ctx, 'H', 3, Omega_m0=om, Omega_K0=ok):
                back = v(N)
                if ok:          # close to today, when curvature and Lambda matter
                    v = T.Valuation('H', dom=DOM, fixed={**fixed_values(Omega_m0=om, Omega_K0=ok), HH: v(HH), N: T.mpmath.log(a0_lp(g, v)) + back})
                om_, ok_, orad = v(OM), v(OK), v(r1) / v(HH)**2
                ol = 1 - orad - om_ - ok_
                want = fate(om_, ol)
                seen.add(want)
                key = 'H.%s.%s' % (u, want)
                o = the_path(ctx, key, outs, v, loc)
                if not o:
                    continue
                if want == 'bounce':
                    ctx.ok(key, o.kind == 'raise' and o.exc_name == 'BigBangError', loc, 'a universe without a Big Bang is accepted (Omega_m0=%s, Omega_K0=%s)' % (om, ok))
                    continue
                if not ctx.ok(key + '.returns', o.kind == 'return', loc, 'a universe with a Big Bang is refused (Omega_m0=%s, Omega_K0=%s)' % (om, ok)):
                    continue
                H, warns = o.value
                names = [w.name if isinstance(w, VClass) else str(w) for w in warns]
                ctx.ok(key + '.warning', names == (['BigBangWarning'] if want == 'recollapse' else []), loc,
                       'warns %s (Omega_m0=%s, Omega_K0=%s)' % (names, om, ok))
                x = a0_lp(g, v) / T.mpmath.exp(v(N)) if ok else T.mpmath.exp(-v(N))
                H0 = v(HH) * 100000 / v(g['Mpc']) / v(T.lift(unit_of(g, 'H', u or 'planck')))
                E2 = orad * x**4 + om_ * x**3 + ok_ * x**2 + ol
                if E2 <= T.mpf(10)**-6:      # past the turnaround of a universe that recollapses: no such time exists
                    continue
                ctx.ok(key + '.value', same(real_value(v, H)**2, H0**2 * E2, 1e-15), loc, 'the Hubble rate violates the Friedmann equation')
        ctx.ok('H.%s.sampled' % u, seen == {'bounce', 'recollapse', 'expands'}, loc, 'cases %s' % seen)
    loc = at(i, 'get_w_delta_reh')
    n0, n1, l0, w = [T.sym(n) for n in ('N_end', 'N_reh', 'log_cHH_end', 'w')]
    slope = T.div(T.add(1, T.mul(3, w)), 2)
    for o in explore(i, lambda it: bb(it, 'get_w_delta_reh', N_end=n0, N_reh=n1, log_cHH_end=l0, log_cHH_reh=T.add(l0, T.mul(slope, T.sub(n1, n0))))):
        r = i.iterate(o.value) if o.kind == 'return' else (None, None)
        ctx.equal('w_reh', r[0] is not None and T.lift(r[0]), w, loc, 'the equation of state of reheating is not recovered')
        ctx.equal('delta_reh', r[1] is not None and T.lift(r[1]), T.sub(n1, n0), loc, 'the duration of reheating is wrong')


QUAD = 'scipy.integrate.quad'


def ordinary(atom):
    """The universe has a Big Bang and expands."""
    if atom.op in ('lt', 'eq') and {s.args[0] for s in T.symbols(atom)} <= {'h', *NATURE}:
        return bool(T.Valuation(0, dom=DOM)(atom))
    return None


@prop('C34', 'Conformal time of the standard cosmology integrates 1/(a H) over e-folds between the given limits for single values and element by element, '
      'and the conformal time ratio divides the conformal time until the end of inflation by that from there until today.', 40,
      technique='abstract interpretation with a recorded quadrature; identity of limits; GVN of the integrand')
def c34(ctx):
    i = ctx.interp()
    loc = at(i, 'conformal_time')
    N0 = T.sym('N_start')
    om, ok = T.num(Fraction(3, 10)), T.num(Fraction(-1, 50))
    x = T.sym('x')

    def quads(it, m):
        return [e.data for e in it.trace[m:] if e.kind == 'ext' and e.data[0] == QUAD]

    def check(key, it, q, lo, hi, m0=om, k0=ok):
        _, a, k, res = q
        get = lambda n, p: k[n] if n in k else a[p] if len(a) > p else None  # noqa
        ctx.equal(key + '.from', get('a', 1) is not None and T.lift(get('a', 1)), lo, loc, 'the lower limit is wrong', dom=DOM)
        ctx.equal(key + '.to', get('b', 2) is not None and T.lift(get('b', 2)), hi, loc, 'the upper limit is wrong', dom=DOM)
        f = get('func', 0)
        args = get('args', 3)
        args = [] if args is None else list(args) if isinstance(args, (tuple, list)) else [args]
        val = it.call(f, [x] + args, {})
        H = bb(it, 'Hubble_parameter', N=x, Omega_m0=m0, Omega_K0=k0, h=HH, units='planck')
        ctx.equal(key + '.integrand', T.mul(T.lift(val), T.mul(T.lift(H), T.fn('exp', x))), T.num(1), loc, 'the integrand is not 1/(a H)', dom=DOM)
        return res
    for name, val in (('float', T.sym('N')), ('int', 150), ('pyfloat', Fraction(3, 2))):
        def run(it):
            m = len(it.trace)
            r = bb(it, 'conformal_time', N_start=N0, N=val, Omega_m0=om, Omega_K0=ok, h=HH)
            qs = quads(it, m)
            ctx.ok(name + '.once', len(qs) == 1, loc, '%d quadratures' % len(qs))
            res = check(name, it, qs[0], N0, T.lift(val))
            first = it.getitem(res, 0)
            ctx.ok(name + '.value', r is res or r is first or it.getitem(r, 0) is first, loc, 'does not return the integral')
            return r
        for o in explore(i, run, ordinary):
            ctx.ok(name + '.returns', o.kind == 'return', loc, 'raises %s' % (o.kind == 'raise' and exc_text(o.value)))
    els = [T.sym('n%d' % q) for q in range(3)]

    def arr(it):
        m = len(it.trace)
        r = bb(it, 'conformal_time', N_start=N0, N=VArray(elems=list(els)), Omega_m0=om, Omega_K0=ok, h=HH)
        qs = quads(it, m)
        ctx.ok('array.each', len(qs) == 3, loc, '%d quadratures for 3 values' % len(qs))
        out = it.iterate(r)
        ctx.ok('array.shape', len(out) == 3, loc, '%d results for 3 values' % len(out))
        for n, (q, e) in enumerate(zip(qs, els)):
            res = check('array', it, q, N0, e)
            ctx.ok('array.value', out[n] is it.getitem(res, 0), loc, 'result %d is not the integral up to element %d' % (n, n))
    for o in explore(i, arr, ordinary):
        ctx.ok('array.returns', o.kind == 'return', loc, 'raises %s' % (o.kind == 'raise' and exc_text(o.value)))
    for bad in ('5', None, [Fraction(1), Fraction(2)]):
        for o in explore(i, lambda it: bb(it, 'conformal_time', N_start=N0, N=bad, Omega_m0=om, Omega_K0=ok, h=HH)):
            ctx.ok('type', o.kind == 'raise' and o.exc_name == 'TypeError', loc, 'accepts an upper limit of the wrong type')
    loc = at(i, 'conformal_time_ratio')
    for back in (False, True):
        def run(it):
            m = len(it.trace)
            b = VInst(VExternal('opaque.background'), name='background')
            b.bunch = True
            eta = T.sym('eta', 'a')
            dN, end = T.sym('delta_N_calib'), T.sym('_N_end')
            N_end = T.add(end, dN)
            b.attrs.update(eta=eta, _N_end=end, N_end=N_end, delta_N_calib=dN, a0=T.sym('a0'), N0=T.fn('log', T.sym('a0')))
            kw = {}
            beg = it.getitem(eta, 0)
            if back:
                c = VInst(VExternal('opaque.background'), name='backward')
                c.bunch = True
                e2 = T.sym('eta_backward', 'a')
                c.attrs.update(eta=e2, _N_end=T.sym('other'), N_end=T.sym('other2'), delta_N_calib=T.sym('other3'), a0=T.sym('other0'))
                kw['b_backward'] = c
                beg = it.getitem(e2, -1)
            r = bb(it, 'conformal_time_ratio', Omega_m0=om, Omega_K0=ok, h=HH, b_forward=b, **kw)
            qs = quads(it, m)
            ctx.ok('ratio.once', len(qs) == 1, loc, '%d quadratures' % len(qs))
            res = check('ratio', it, qs[0], N_end, T.fn('log', T.sym('a0')))
            # conformal time of the integration is in terms of the uncalibrated scale factor exp(_N)
            before = T.mul(T.sub(T.lift(it.getitem(eta, -1)), T.lift(beg)), T.fn('exp', T.neg(dN)))
            want = T.div(before, T.lift(it.getitem(res, 0)))
            ctx.equal('ratio%s.value' % ('.backward' if back else ''), T.lift(r), want, loc, 'is not the conformal time before over that after the end of inflation')
        for o in explore(i, run, ordinary):
            ctx.ok('ratio.returns', o.kind == 'return', loc, 'raises %s' % (o.kind == 'raise' and exc_text(o.value)))


def beside(outs, x):
    """Values of a variable on either side of, and between, the constants that the paths compare it with."""
    cs = {abs(s.args[0]) for o in outs for a, _ in o.decisions if isinstance(a, Term) and x in T.symbols(a)
          for s in T.subterms(a) if s.op == 'num' and s.args[0] != 0}
    out = {Fraction(1, 10**12), Fraction(1, 10**9)}
    for c in cs:
        out |= {Fraction(c) * (1 - Fraction(1, 10**4)), Fraction(c) * (1 + Fraction(1, 10**4)), Fraction(c) / 2, Fraction(c) * 2, Fraction(c) / 10}
    return sorted(out)


@prop('C35', 'The dividing lines of universes with and without a Big Bang, and of those that expand forever or recollapse, are where the Hubble rate '
      'has a double zero in the past or the future; negative matter density is rejected.', 60,
      technique='abstract interpretation over trace partitions; double-root condition of the Friedmann equation by random interpretation')
def c35(ctx):
    i = ctx.interp()
    tiny = T.mpf(10)**-12
    grid = [Fraction(1, 10**6), Fraction(1, 1000), Fraction(1, 20), Fraction(3, 10), Fraction(49999, 100000), Fraction(1, 2), Fraction(50001, 100000), Fraction(7, 10),
            Fraction(99999, 100000), Fraction(1), Fraction(100001, 100000), Fraction(3, 2), Fraction(2), Fraction(5), Fraction(40), Fraction(1000)]
    for name, past in (('no_Big_Bang_line', True), ('expand_recollapse_line', False)):
        loc = at(i, name)
        outs = explore(i, lambda it: bb(it, name, Omega_m0=OM))
        for om in [Fraction(0)] + sorted(set(grid + beside(outs, OM))):
            for v in sample(ctx, name, 1, Omega_m0=om):
                key = '%s.%s' % (name, om)
                o = the_path(ctx, key, outs, v, loc)
                if not o or not ctx.ok(key + '.returns', o.kind == 'return', loc, 'raises'):
                    continue
                x, m = real_value(v, o.value), v(OM)
                if not ctx.ok(key + '.real', not T.mpmath.isnan(x), loc, 'is not defined'):
                    continue
                if om == 0:
                    ctx.ok(key, abs(x - (1 if past else 0)) < tiny, loc, 'is wrong for an empty universe')
                    continue
                if not past and om <= 1:
                    ctx.ok(key, abs(x) < tiny, loc, 'is not Omega_L0=0')
                    continue
                k = 1 - m - x
                ctx.ok(key + '.double_zero', abs(4 * k**3 + 27 * m**2 * x) < tiny * (4 * abs(k)**3 + 27 * m**2 * abs(x)), loc, 'the Hubble rate has no double zero there')
                root = -2 * k / (3 * m)
                ctx.ok(key + '.when', root > 1 + tiny if past else 0 < root < 1 - tiny, loc, 'the double zero is not in the %s' % ('past' if past else 'future'))
        for om in (Fraction(-1, 10**6), Fraction(-1), Fraction(-50)):
            for v in sample(ctx, name, 1, Omega_m0=om):
                o = the_path(ctx, name + '.negative', outs, v, loc)
                ctx.ok(name + '.negative', bool(o) and o.kind == 'raise' and o.exc_name == 'ValueError', loc, 'negative matter density is accepted')
