"""C37, C38: the theory classes for the sampler Cobaya."""
import itertools
from ..common import *  # noqa
from ..bg import solution
from ..report import exc_text
from .calibration import consts

PL = 'cobaya_wrapper.powerlaw_pps'
FE = 'cobaya_wrapper.feature_pps'
SR = 'cobaya_wrapper.slowroll_pps'
OPT = ['n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'n_t_run', 'r']
LOGGERS = {'mpi_info', 'mpi_warning', 'mpi_debug'}


def theory(i, cls):
    """An initialised theory; what it inherits from the sampler are only methods for messages."""
    def inherited(name):
        return VBuiltin(name, lambda it, a, k: None) if name in LOGGERS else None
    o = VInst(cls)
    for n in LOGGERS:
        o.attrs[n] = inherited(n)
    call(i, o, 'initialize')
    return o


def theories(i, mod):
    m = i.load(mod)
    base = i.get(PL + ':ExternalPrimordialPowerSpectrum')
    return [c for c in m.attrs.values() if isinstance(c, VClass) and c.module is m and base in c.mro and c is not base]


def names_of(i, o, meth):
    return [x for x in i.iterate(call(i, o, meth))]


GRID = T.sym('k', 'a')


def regrid(t):
    """(term on a symbolic grid of wavenumbers, the grids it was on)."""
    g = [x for x in T.subterms(T.lift(t)) if x.op in ('app', 'papp') and x.args[0] in ('numpy.logspace', 'numpy.geomspace', 'numpy.linspace')]
    return T.substitute(T.lift(t), {x: GRID for x in g}), g


def closed_grid(x):
    return isinstance(x, VArray)


def grid_ends(v, g):
    """Values of the first and the last point of a regular grid."""
    a, b, n = [T.lift(x) for x in (list(g.args[1]) + [50])[:3]]
    a, b = (T.power(10, a), T.power(10, b)) if g.args[0] == 'numpy.logspace' else (a, b)
    return (v(a), v(b)) if v(n) >= 1000 else (T.mpf(-1), T.mpf(-1))


def check_grid(ctx, key, g, kmin, kmax, loc):
    """Is the grid regular in log(k) from kmin to kmax?"""
    name, a, b = g.args[0], g.args[1][0], g.args[1][1]
    if not ctx.ok(key + '.regular', name in ('numpy.logspace', 'numpy.geomspace'), loc, 'the wavenumbers are not regular in log(k)'):
        return
    if name == 'numpy.logspace':
        a, b = T.power(10, a), T.power(10, b)
    ctx.equal(key + '.kmin', a, T.lift(kmin), loc, 'the wavenumbers do not begin at the declared kmin')
    ctx.equal(key + '.kmax', b, T.lift(kmax), loc, 'the wavenumbers do not end at the declared kmax')
    n = T.lift(g.args[1][2]) if len(g.args[1]) > 2 else None
    ctx.ok(key + '.num', n is not None and ev(n, 1) >= 100, loc, 'only %s wavenumbers' % (n,))
    v = T.Valuation(1)
    ctx.ok(key + '.range', v(T.lift(kmin)) <= T.mpf('1e-6') and v(T.lift(kmax)) >= 10, loc, 'the range of wavenumbers does not cover what Boltzmann codes ask for')


def spectra_of(ctx, key, st, loc):
    """The two spectra of a state, on a symbolic grid."""
    out = []
    for n in ('primordial_scalar_pk', 'primordial_tensor_pk'):
        d = st.get(n)
        if not ctx.ok(key + '.has.' + n, isinstance(d, dict) and {'kmin', 'kmax', 'Pk', 'log_regular'} <= set(d), loc, 'no %s in the state' % n):
            return None
        ctx.ok(key + '.log_regular', d['log_regular'] is True, loc, 'is not declared as regular in log(k)')
        pk, grids = regrid(d['Pk'])
        for g in grids:
            check_grid(ctx, key + '.grid', g, d['kmin'], d['kmax'], loc)
        out.append(pk)
    return out


def expected(v, given, kp, feature):
    """Scalar and tensor spectra at the valuation's k, or None if the parameters contradict each other."""
    p = {n: v(T.sym(n)) for n in given}
    A_s, n_s = p['A_s'], p.get('n_s', T.mpf(1))
    A_t, n_t, ntr = p.get('A_t', T.mpf(0)), p.get('n_t'), p.get('n_t_run', T.mpf(0))
    r = p.get('r', A_t / A_s)
    if n_t is None:
        if ntr != 0:
            return None
        n_t = -r / 8 * (2 - n_s - r / 8)
        ntr = r / 8 * (r / 8 + n_s - 1)
    if A_t > 0 and not same(r, A_t / A_s):
        return None
    if A_t == 0:
        A_t = r * A_s
    k = v(GRID)
    lk = T.mpmath.log(k / kp)
    f = feature(p, k, kp) if feature else 1
    return (f * A_s * T.mpmath.exp((n_s - 1) * lk + p.get('n_run', 0) / T.mpf(2) * lk**2 + p.get('n_runrun', 0) / T.mpf(6) * lk**3),
            f * A_t * T.mpmath.exp(n_t * lk + ntr / 2 * lk**2))


def f_log(p, k, kp):
    return 1 + p.get('A_log', 0) * T.mpmath.cos(p.get('w_log', 0) * T.mpmath.log(k / kp) + 2 * T.mpmath.pi * p.get('p_log', 0))


def f_lin(p, k, kp):
    return 1 + p.get('A_lin', 0) * T.mpmath.cos(p.get('w_lin', 0) * k / kp + 2 * T.mpmath.pi * p.get('p_lin', 0))


def f_cut(p, k, kp):
    return 1 - T.mpmath.exp(-(k / p.get('k_cut', T.mpf('0.001')))**p.get('s_cut', T.mpf(2)))


FEATURES = {'PowerLawPPS': ((), None), 'LogOscillationPPS': (('A_log', 'w_log', 'p_log'), f_log),
            'LinOscillationPPS': (('A_lin', 'w_lin', 'p_lin'), f_lin), 'CutoffPPS': (('k_cut', 's_cut'), f_cut)}
PDOM = ranges({'A_s': (1e-9, 3e-9), 'n_s': (0.9, 1.1), 'n_run': (-0.1, 0.1), 'n_runrun': (-0.1, 0.1), 'A_t': (1e-10, 2e-10), 'n_t': (-0.1, 0.1),
               'n_t_run': (-0.05, 0.05), 'r': (0.01, 0.2), 'k': (0.001, 0.3), 'k_pivot': (0.01, 0.1), 'A_log': (0.1, 0.5), 'A_lin': (0.1, 0.5),
               'w_log': (1, 20), 'w_lin': (1, 20), 'p_log': (0, 1), 'p_lin': (0, 1), 'k_cut': (0.01, 0.02), 's_cut': (0.5, 2)})


def situations(given):
    """Special values of the tensor parameters: zero, and consistent or contradicting amplitude and ratio."""
    choices = []
    for n in ('A_t', 'r', 'n_t_run'):
        if n in given:
            choices.append([(n, None), (n, 0)])
    out = [dict(c) for c in itertools.product(*choices)]
    if 'A_t' in given and 'r' in given:
        out += [dict(c, r='match') for c in out if c.get('A_t') is None]
    return out


def valuation(ctx, tag, case, kp):
    fx = {T.sym(n): T.mpf(0) for n, x in case.items() if x == 0}
    v = T.Valuation('%s/%s' % (ctx.seed, tag), dom=PDOM, fixed=fx)
    if case.get('r') == 'match':
        fx[T.sym('r')] = v(T.sym('A_t')) / v(T.sym('A_s'))
        v = T.Valuation('%s/%s' % (ctx.seed, tag), dom=PDOM, fixed=fx)
    return v


def power_law(ctx, i, c, extra, feature):
    loc = where(i.class_attr(c, 'calculate'))
    key = c.name
    with ctx.guard(key, loc):
        o = theory(i, c)
        sup = names_of(i, o, 'get_can_support_params')
        ctx.ok(key + '.params', set(sup) == {'A_s', *OPT, *extra} and len(sup) == len(set(sup)), where(i.class_attr(c, 'get_can_support_params')),
               'declares the parameters %s' % sorted(map(str, sup)))
        ctx.equal(key + '.pivot', T.lift(i.getattr(o, 'k_pivot')), T.num(Fraction(1, 20)), where(c), 'the pivot scale is not the documented 0.05 / Mpc')
    sets = [s for n in range(len(OPT) + 1) for s in itertools.combinations(OPT, n)]
    if not ctx.thorough:
        sets = [s for s in sets if not ({'n_run', 'n_runrun'} & set(s)) or {'n_run', 'n_runrun', 'n_s'} <= set(s)]
    ex = [s for n in range(len(extra) + 1) for s in itertools.combinations(extra, n)]
    for s in sets:
        for x in ex if ctx.thorough or len(s) in (0, len(OPT)) else (extra,):
            given = ('A_s',) + s + tuple(x)
            for own in (False, True):
                if own and len(s) != 3:
                    continue

                def run(it):
                    o = theory(it, c)
                    if own:
                        o.attrs['k_pivot'] = T.sym('k_pivot')
                    st = {}
                    call(it, o, 'calculate', st, **{n: T.sym(n) for n in given})
                    return st
                with ctx.guard(key, loc):
                    outs = explore(i, run)
                    for m, case in enumerate(situations(given)):
                        v = valuation(ctx, '%s.%s.%d' % (key, ','.join(given), m), case, own)
                        want = expected(v, given, v(T.sym('k_pivot')) if own else T.mpf(1) / 20, feature)
                        text = 'with %s %s' % (', '.join(given), {n: q for n, q in case.items() if q is not None} or '')
                        if want is not None and case.get('r') == 'match':       # equality of computed numbers cannot be sampled: take both branches
                            got = [o for o in outs if T.satisfies(v, [d for d in o.decisions if not _is_match(d)])]
                            got = [o for o in got if o.kind == 'return']
                        else:
                            got = pick(outs, v)
                        if not ctx.ok(key + '.path', len(got) == 1, loc, '%s: %d paths' % (text, len(got))):
                            continue
                        o = got[0]
                        if want is None:
                            ctx.ok(key + '.contradiction', o.kind == 'raise', loc, 'accepts contradicting parameters ' + text)
                            continue
                        if not ctx.ok(key + '.accepts', o.kind == 'return', loc, 'raises %s %s' % (exc_text(o.value) if o.kind == 'raise' else '', text)):
                            continue
                        pk = spectra_of(ctx, key, o.value, loc)
                        if pk is None:
                            continue
                        for n, a, b in zip(('scalar', 'tensor'), pk, want):
                            ctx.ok('%s.%s' % (key, n), same(real_value(v, a), b), loc, 'wrong %s power spectrum %s' % (n, text))


def _is_match(d):
    """Decision about whether r equals A_t / A_s."""
    a = d[0]
    while isinstance(a, Term) and a.op == 'not':
        a = a.args[0]
    return isinstance(a, Term) and a.op == 'eq' and {'r', 'A_t', 'A_s'} <= {x.args[0] for x in T.subterms(a) if x.op == 'sym'}


def getters(ctx, i, c):
    loc = where(c)
    with ctx.guard(c.name + '.getters', loc):
        o = theory(i, c)
        st = {n: {'Pk': T.sym(n)} for n in ('primordial_scalar_pk', 'primordial_tensor_pk')}
        o.attrs['current_state'] = st
        for n in st:
            got = call(i, o, 'get_' + n)
            ctx.ok('%s.get_%s' % (c.name, n), got is st[n], where(i.class_attr(c, 'get_' + n)), 'does not return the %s of the current state' % n)


@prop('C37', 'Power-law and feature spectra: the documented formulas at every wavenumber of the declared grid, for every subset of the declared parameters; the consistency relation '
      'fills in the tensor tilt; contradictions are rejected.', 900,
      technique='abstract interpretation over trace partitions for every subset of parameters; random interpretation against closed forms')
def c37(ctx):
    i = ctx.interp()
    found = theories(i, PL) + theories(i, FE)
    for n in FEATURES:
        ctx.ok(n + '.exists', n in [c.name for c in found], FE, 'theory %s does not exist' % n)
    for c in found:
        if c.name in FEATURES:
            power_law(ctx, i, c, *FEATURES[c.name])
        getters(ctx, i, c)


# ------------------------------------------------------------------ C38
SOLVE = 'primpy.solver.solve'
LAM0, PHI90 = T.sym('Lambda_guess'), T.sym('phi_90')
B = ('N_star', 'N_end', 'phi_end', 'V_end', 'H_end', 'N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1', 'A_s', 'n_s', 'n_run', 'n_runrun',
     'A_t', 'n_t', 'r', 'N0', 'N_tot')


class Shoot:
    """Stand-ins for potential and solver, that record how they are used."""

    def __init__(self, ok=True, nan=()):
        self.pots, self.guess, self.solves, self.cal, self.phi90, self.backgrounds = [], [], [], [], [], []
        self.success, self.nan = ok, nan

    def potential_of(self, it, n):
        return it.getattr(it.getattr(self.solves[n]['ic'], 'equations'), 'potential')

    def potential(self, it, a, k):
        o = VInst(VExternal('opaque.potential'), name='potential')
        self.pots.append(dict(k))
        lam = k.get('Lambda')
        o.attrs['Lambda'] = lam if lam is not None else 1

        def guess(it, a, kk):
            self.guess.append((tuple(a), dict(kk)))
            return (LAM0, T.sym('phi_g'), T.sym('N_g'))
        o.attrs['sr_As2Lambda'] = VBuiltin('sr_As2Lambda', guess)
        o.attrs['sr_N2phi'] = VBuiltin('sr_N2phi', lambda it, a, kk: (self.phi90.append(a[0] if a else kk.get('N')), PHI90)[1])
        for n in ('V', 'dV', 'd2V', 'd3V'):
            o.attrs[n] = VBuiltin(n, lambda it, a, kk, n=n: T.app('pot.' + n, [T.lift(lam if lam is not None else 1), T.lift(a[0] if a else kk['phi'])], pointwise=True))
        o.spec = dict(k)
        return o

    def solve(self, it, a, k):
        n = len(self.solves)
        k = dict(k)
        if a:
            k['ic'] = a[0]
        self.solves.append(k)
        b = VInst(VExternal('opaque.background'), name='solution')
        b.bunch = True
        eq = it.getattr(k['ic'], 'equations')
        b.attrs.update({q: T.sym('%s@%d' % (q, n)) for q in B})
        b.attrs.update({q: T.NAN for q in self.nan})
        b.attrs.update(success=self.success, message=T.sym('message'), potential=it.getattr(eq, 'potential'))
        b.attrs.update({q: T.sym(q + '@%d' % n, 'a') for q in ('dphidt', 'phi', '_N')})
        b.attrs['V'] = it.call(it.getattr(b.attrs['potential'], 'V'), [b.attrs['phi']], {})
        b.attrs['H'] = T.fn('sqrt', T.div(T.add(T.div(T.power(b.attrs['dphidt'], 2), 2), b.attrs['V']), 3))
        b.attrs['inflation_mask'] = T.sym('mask@%d' % n, 'a')
        b.attrs['calibrate_scale_factor'] = VBuiltin('calibrate_scale_factor', lambda it, aa, kk: self.cal.append((n, 'calibrate', self.named(it, aa, kk))))
        b.attrs['set_ns'] = VBuiltin('set_ns', lambda it, aa, kk: self.cal.append((n, 'set_ns', dict(kk, **({'n_s': aa[0]} if aa else {})))))
        for q in ('P_s_approx', 'P_t_approx'):
            b.attrs[q] = VBuiltin(q, lambda it, aa, kk, q=q: T.app(q, [T.num(n), T.lift(aa[0])]))
        self.backgrounds.append(b)
        return b

    def named(self, it, a, k):
        k = dict(k)
        for n, x in zip(('calibration_method', 'Omega_K0', 'h', 'N_star'), a):
            k.setdefault(n, x)
        k.setdefault('calibration_method', 'N_star')
        return {n: x for n, x in k.items() if x is not None}


def shoot(i, c, given, success=True, nan=()):
    """All trace partitions of one evaluation: (record, error, state, provided names)."""
    def run(it):
        s = Shoot(success, nan)
        it.stubs[SOLVE] = lambda it, a, k: s.solve(it, a, k)
        o = theory(it, c)
        o.attrs['Pot'] = VBuiltin('Pot', s.potential)
        st = {}
        try:
            call(it, o, 'calculate', st, **{n: T.sym(n) for n in given})
        except PyRaise as e:
            return (s, e.value, None)
        return (s, None, st)
    return explore(i, run)


SDOM = natural({'A_s': (1.9e-9, 2.1e-9), 'n_s': (0.95, 0.97), 'N_star': (50, 60), 'rho_reh_GeV': (1e3, 1e9), 'w_reh': (-0.2, 0.9), 'phi0': (12, 15), 'p': (1, 3),
                'alpha': (1, 3), 'Lambda_guess': (1e-3, 2e-3), 'phi_90': (9, 11)})
UNMET = {'A_s': (1e-9, 1.8e-9), 'w_reh': (-0.3, 0.9), 'DeltaN_reh': (1, 10), 'N_reh': (-70, -50), 'N0': (-5, 5), 'N_tot': (80, 90), 'N_star': (50, 60),
         'n_s': (0.95, 0.97), 'dphidt': (1e-7, 1e-6), 'phi': (5, 9)}


def sdom(t):
    if t.op == 'sym' and '@' in t.args[0]:
        return UNMET.get(t.args[0].split('@')[0])
    if t.op in ('app', 'papp') and t.args[0].startswith('pot.'):
        return (1e-13, 3e-13)
    return SDOM(t)


def reached(v, n, rel):
    """Fix the amplitude of trial n to the target, up to a relative difference."""
    return {T.sym('A_s@%d' % n): v(T.sym('A_s')) * (1 + T.mpf(rel))}


def rho_end(i, n, s):
    """Energy density in GeV at the last point of inflation in trial n."""
    g = consts(i)
    gev = T.mul(Fraction(10)**9, g['e'])
    mp = T.fn('sqrt', T.div(T.mul(g['hbar'], g['c']), T.mul(8, T.mul(T.PI, g['G']))))
    gev4 = T.power(T.div(T.mul(mp, T.power(g['c'], 2)), gev), 4)         # reduced Planck mass in GeV, to the fourth power
    last = lambda x: i.getitem(i.getitem(T.sym('%s@%d' % (x, n), 'a'), T.sym('mask@%d' % n, 'a')), -1)  # noqa
    V = i.call(i.getattr(s.potential_of(i, n), 'V'), [last('phi')], {})
    return T.power(T.mul(T.add(T.div(T.power(last('dphidt'), 2), 2), V), gev4), Fraction(1, 4))


SETS = [('N_star',), (), ('N_star', 'rho_reh_GeV'), ('w_reh', 'rho_reh_GeV'), ('N_star', 'w_reh', 'rho_reh_GeV'), ('n_s',), ('n_s', 'N_star'),
        ('n_s', 'N_star', 'rho_reh_GeV'), ('n_s', 'N_star', 'w_reh', 'rho_reh_GeV'), ('N_star', 'phi0'), ('N_star', 'p'), ('N_star', 'alpha', 'p'),
        ('w_reh', 'rho_reh_GeV', 'phi0', 'p', 'alpha'), ('n_s', 'phi0')]


def scenarios(ctx, i, c):
    """One theory with stand-ins for potential and solver."""
    loc = where(i.class_attr(c, 'calculate'))
    for given in SETS:
        key = 'SlowRoll[%s]' % ','.join(given)
        given = ('A_s',) + given
        has = lambda n: n in given  # noqa
        with ctx.guard(key, loc):
            outs = shoot(i, c, given)
            for m in (0, 1, 4, 10, None):
                for rel in ('1e-7', '-1e-7') if m is not None else ('0',):
                    fx = {}
                    v0 = T.Valuation('%s/%s/%s' % (ctx.seed, key, m), dom=sdom)
                    if m is not None:
                        fx.update(reached(v0, m, rel))
                    if rel == '-1e-7':      # the other side of the special cases
                        fx[T.sym('phi0')] = T.mpf('8.5')
                        fx.update({T.sym('N_tot@%d' % j): T.mpf(48) for j in range(20)})
                    v = T.Valuation('%s/%s/%s' % (ctx.seed, key, m), dom=sdom, fixed=fx)
                    one_shoot(ctx, i, key, given, has, outs, v, m, loc)
            v0 = T.Valuation('%s/%s' % (ctx.seed, key), dom=sdom)
            for rel in ('1e-3', '-1e-3'):       # close to, but not at the target
                v = T.Valuation('%s/%s' % (ctx.seed, key), dom=sdom, fixed={**reached(v0, 0, rel), **reached(v0, 1, '0')})
                for o in pick(outs, v):
                    ctx.ok(key + '.precision', o.kind == 'return' and len(o.value[0].solves) == 2, loc, 'accepts an amplitude off by %s' % rel)
            bad = [('w_reh', '-0.34'), ('w_reh', '-0.9'), ('w_reh', '1.01'), ('w_reh', '2'), ('DeltaN_reh', '-0.01'), ('DeltaN_reh', '-3'), ('N_reh', '6'), ('N_reh', '40'), ('w_reh', '1')]
            for n, x in bad + [('w_reh', '-0.33'), ('w_reh', '0.99'), ('DeltaN_reh', '0.01'), ('DeltaN_reh', '0')]:
                fx = dict(reached(v0, 1, '0'))
                fx[T.sym(n + '@1')] = T.mpf(x)
                v = T.Valuation('%s/%s' % (ctx.seed, key), dom=sdom, fixed=fx)
                for o in pick(outs, v):
                    err = o.value[1] if o.kind == 'return' else o.value
                    if (n, x) in bad:
                        ctx.ok(key + '.unrealistic', err is not None and is_primpy(i, err), loc, 'accepts a reheating history with %s=%s' % (n, x))
                    else:
                        ctx.ok(key + '.realistic', err is None, loc, 'rejects a reheating history with %s=%s' % (n, x))
                    ctx.count('reheating')
            if has('rho_reh_GeV'):
                for n in (0, 1):
                    for f in ('0.8', '0.98', '1.02', '1.3'):
                        fx = dict(reached(v0, 1, '0'))
                        fx[_last(i, 'dphidt', n)] = T.mpf('3e-7')
                        fx[_last(i, 'dphidt', 1 - n)] = T.mpf('1e-5')       # the other trial must not interfere: its field velocity is large
                        v1 = T.Valuation('%s/%s' % (ctx.seed, key), dom=sdom, fixed=fx)
                        full = [o.value[0] for o in pick(outs, v1) if o.kind == 'return' and len(o.value[0].solves) > n]
                        if not ctx.ok(key + '.rho_end', bool(full), loc, 'no path'):
                            continue
                        lim = v1(rho_end(i, n, full[0])) * T.mpf(f)
                        fx[T.sym('rho_reh_GeV')] = lim
                        v = T.Valuation('%s/%s' % (ctx.seed, key), dom=sdom, fixed=fx)
                        for o in pick(outs, v):
                            err = o.value[1] if o.kind == 'return' else o.value
                            ctx.ok(key + '.rho_end', (err is not None and is_primpy(i, err)) if T.mpf(f) > 1 else err is None, loc,
                                   'reheating at %s of the energy scale of the end of inflation is %s' % (f, 'accepted' if err is None else 'rejected'))
                            ctx.count('rho_end')
    for given in (('A_s', 'N_star'), ('A_s', 'w_reh', 'rho_reh_GeV')):
        with ctx.guard('SlowRoll.failure', loc):
            for o in shoot(i, c, given, success=False):
                err = o.value[1] if o.kind == 'return' else o.value
                if o.kind == 'return' and o.value[0].solves:
                    ctx.ok('SlowRoll.failure', err is not None and err.name == 'StepSizeError', loc, 'a failed integration goes unnoticed')
    with ctx.guard('SlowRoll.unknown', loc):     # without information on reheating its parameters are undefined, which is no reason to reject
        outs = shoot(i, c, ('A_s', 'N_star'), nan=('w_reh', 'DeltaN_reh', 'N_reh', 'rho_reh_GeV'))
        v0 = T.Valuation('%s/nan' % ctx.seed, dom=sdom)
        v = T.Valuation('%s/nan' % ctx.seed, dom=sdom, fixed=reached(v0, 0, '0'))
        got = pick(outs, v)
        ctx.ok('SlowRoll.unknown', len(got) == 1 and got[0].kind == 'return' and got[0].value[1] is None, loc, 'rejects backgrounds without information on reheating')


def _last(i, x, n):
    return i.getitem(i.getitem(T.sym('%s@%d' % (x, n), 'a'), T.sym('mask@%d' % n, 'a')), -1)


def is_primpy(i, err):
    return isinstance(err, VInst) and isinstance(err.cls, VClass) and any(isinstance(k, VClass) and k.name == 'PrimpyError' for k in err.cls.mro)


def one_shoot(ctx, i, key, given, has, outs, v, m, loc):
    got = pick(outs, v)
    if not ctx.ok(key + '.path', len(got) == 1, loc, '%d paths for one input' % len(got)):
        return
    o = got[0]
    if o.kind == 'raise':
        return ctx.fail(key + '.raises', loc, 'raises %s' % exc_text(o.value))
    s, err, st = o.value
    n = len(s.solves)
    if m is None:
        ctx.ok(key + '.gives_up', err is not None and is_primpy(i, err) and n >= 5, loc, 'does not report that the amplitude cannot be met')
    else:
        ctx.ok(key + '.meets', err is None, loc, 'raises although trial %d meets the amplitude: %s' % (m, exc_text(err) if err is not None else ''))
        ctx.ok(key + '.trials', n == m + 1, loc, 'uses %d trials although trial %d meets the amplitude' % (n, m))
    # first guess
    g = [(a, k) for a, k in s.guess]
    ctx.ok(key + '.guess', len(g) >= 1, loc, 'no first guess of the amplitude of the potential')
    pk = {q for q in ('phi0', 'p', 'alpha') if has(q)}
    for a, k in g:
        k = dict(zip(('A_s', 'N_star', 'phi_star'), a), **k)
        ctx.ok(key + '.guess.A_s', k.get('A_s') is T.sym('A_s'), loc, 'first guess for the wrong amplitude')
        ctx.ok(key + '.guess.N_star', k.get('N_star') is T.sym('N_star') if has('N_star') else k.get('N_star') is not None, loc, 'first guess for the wrong N_star')
        ctx.ok(key + '.guess.params', all(k.get(q) is T.sym(q) for q in pk) and not ({'phi0', 'p', 'alpha'} - pk) & {q for q, x in k.items() if x is not None}, loc,
               'first guess with the wrong parameters of the potential')
    # potentials, initial conditions and integrations
    lam = LAM0
    phi_i = min(v(PHI90), v(T.sym('phi0'))) if has('phi0') else v(PHI90)
    for n90 in s.phi90:
        ctx.ok(key + '.phi_i', v(T.lift(n90)) >= 80, loc, 'starts only %s e-folds before the end of inflation' % n90)
    for j, k in enumerate(s.solves):
        ic = k['ic']
        eq = i.getattr(ic, 'equations')
        spec = i.getattr(eq, 'potential').spec
        ctx.ok(key + '.potential', set(spec) == pk | {'Lambda'} and all(spec[q] is T.sym(q) for q in pk), loc, 'trial %d has the wrong parameters of the potential: %s' % (j, spec))
        ctx.ok(key + '.Lambda', same(v(T.lift(spec.get('Lambda', 0))), v(lam)), loc, 'trial %d does not have the amplitude of the potential that A_s ~ Lambda^4 predicts' % j)
        lam = T.mul(lam, T.power(T.div(T.sym('A_s'), T.sym('A_s@%d' % j)), Fraction(1, 4)))
        ctx.ok(key + '.flat', v(T.lift(i.getattr(eq, 'K'))) == 0, loc, 'the background is not flat')
        ctx.ok(key + '.ic', same(v(T.lift(i.getattr(ic, 'phi_i'))), phi_i), loc, 'inflation does not begin at the intended field value')
        inf = [e for e in i.iterate(k.get('events') or []) if isinstance(e.cls, VClass) and 'InflationEvent' in [q.name for q in e.cls.mro if isinstance(q, VClass)]]
        dirs = {(int(ev(T.lift(i.getattr(e, 'direction')), 1)), bool(i.truth(i.getattr(e, 'terminal')))) for e in inf}
        ctx.ok(key + '.events', (-1, True) in dirs and (1, True) not in dirs and (1, False) in dirs, loc, 'start and end of inflation are not tracked: %s' % sorted(dirs))
        ctx.ok(key + '.rtol', 'rtol' in k and 0 < ev(T.lift(k['rtol']), 1) <= 1e-8 and 0 <= ev(T.lift(k.get('atol', 0)), 1) <= 1e-10, loc, 'integrates with a low precision')
        if k.get('t_eval') is not None:
            ctx.equal(key + '.t_i', T.lift(i.getitem(k['t_eval'], 0)), T.lift(i.getattr(ic, 't_i' if 't_i' in ic.attrs else 'x_ini')), loc,
                      'the times of evaluation do not begin at the initial time')
            a, b = [v(T.lift(i.getitem(k['t_eval'], q))) for q in (0, -1)] if closed_grid(k['t_eval']) else grid_ends(v, k['t_eval'])
            ctx.ok(key + '.times', 0 < a <= T.mpf(10)**6 and b >= T.mpf(10)**10, loc, 'the times of evaluation run from %s to %s' % (T.mpmath.nstr(a, 5), T.mpmath.nstr(b, 5)))
        # calibration
        cal = [(kind, d) for q, kind, d in s.cal if q == j]
        want = 'reheating' if has('w_reh') and has('rho_reh_GeV') else 'N_star'
        ctx.ok(key + '.calibrated', len(cal) >= 1 and cal[0][0] == 'calibrate' and cal[0][1]['calibration_method'] == want, loc,
               'trial %d is not calibrated by %s: %s' % (j, want, cal))
        for kind, d in cal:
            rho = d.get('rho_reh_GeV')
            ctx.ok(key + '.rho_reh', (rho is T.sym('rho_reh_GeV')) if has('rho_reh_GeV') else rho is None, loc, 'reheating temperature is not handed on to %s' % kind)
            if want == 'reheating':
                ctx.ok(key + '.w_reh', d.get('w_reh') is T.sym('w_reh') and kind == 'calibrate', loc, 'w_reh is not handed on')
            elif not has('n_s'):
                Ns = d.get('N_star')
                ctx.ok(key + '.N_star', (Ns is T.sym('N_star')) if has('N_star') else Ns is not None and 50 <= ev(T.lift(Ns), 1) <= 90, loc, 'calibrated with the wrong N_star')
        ns = [d for kind, d in cal if kind == 'set_ns']
        if want == 'N_star' and has('n_s'):
            ctx.ok(key + '.set_ns', len(ns) == 1 and ns[0].get('n_s') is T.sym('n_s'), loc, 'n_s is not set')
            for d in ns:
                hi = v(T.lift(d.get('N_star_max', 90)))
                full = v(T.sym('N_star')) if has('N_star') else T.mpf(75)
                tot = v(T.sym('N_tot@%d' % j))
                ctx.ok(key + '.set_ns.range', 5 < v(T.lift(d.get('N_star_min', 20))) < 40 and hi < tot and (same(hi, full) if full < tot - 1 else hi > tot - 1.5), loc,
                       'n_s is looked for in the wrong range of N_star')
        else:
            ctx.ok(key + '.set_ns', not ns, loc, 'sets n_s, which was not given')
    if err is None and m is not None:
        pk2 = spectra_of(ctx, key, st, loc)
        if pk2 is not None:
            last = T.num(n - 1)
            ctx.equal(key + '.scalar', pk2[0], T.app('P_s_approx', [last, GRID]), loc, 'not the scalar spectrum of the accepted background')
            ctx.equal(key + '.tensor', pk2[1], T.app('P_t_approx', [last, GRID]), loc, 'not the tensor spectrum of the accepted background')
        der = st.get('derived')
        if ctx.ok(key + '.derived', isinstance(der, dict), loc, 'no derived parameters'):
            for q, x in der.items():
                ctx.ok(key + '.derived', x is s.backgrounds[n - 1].attrs.get(q), loc, 'derived parameter %s is not that of the accepted background' % q)
            ctx.ok(key + '.provided', PROVIDE <= set(der), loc, 'derived parameters are missing: %s' % sorted(PROVIDE - set(der)))


PROVIDE = {'N_star', 'N_end', 'phi_end', 'V_end', 'H_end', 'N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1', 'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r'}


def potentials_of(ctx, i, c):
    """Every model uses the potential it is named after, in every evaluation."""
    loc = where(c)
    pot = i.get('primpy.potentials:' + c.name.replace('SlowRollPPS', '') + 'Potential')

    def run(it, given):
        s = Shoot(False)
        it.stubs[SOLVE] = lambda it, a, k: s.solve(it, a, k)
        o = theory(it, c)
        try:
            call(it, o, 'calculate', {}, **{n: T.sym(n) for n in given})
        except PyRaise as e:
            return (s, e.value)
        return (s, None)
    given = ['A_s', 'N_star']
    with ctx.guard(c.name, loc):
        sup = names_of(i, theory(i, c), 'get_can_support_params')
        for _ in range(5):
            outs = explore(i, lambda it: run(it, given))
            need = [o.value[1].attrs['args'][0] for o in outs if o.kind == 'return' and o.value[1] is not None and o.value[1].name == 'KeyError']
            if not need:
                break
            if not ctx.ok(c.name + '.parameter', need[0] in sup and need[0] not in given, loc, 'the potential needs %s, which is not supported' % need[0]):
                return
            given.append(need[0])
        n = 0
        for o in outs:
            if o.kind != 'return':
                ctx.fail(c.name + '.raises', loc, 'raises %s' % exc_text(o.value))
                continue
            s, err = o.value
            if not s.solves:
                ctx.ok(c.name + '.start', err is not None and err.name == 'InflationStartError', loc, 'raises %s' % (exc_text(err) if err is not None else 'nothing'))
                continue
            n += 1
            p = i.getattr(i.getattr(s.solves[0]['ic'], 'equations'), 'potential')
            ctx.ok(c.name + '.potential', isinstance(p, VInst) and p.cls is pot, loc, 'uses %s' % p)
            for q in given[2:]:
                ctx.ok('%s.%s' % (c.name, q), i.getattr(p, q) is T.sym(q), loc, 'parameter %s does not reach the potential' % q)
        ctx.ok(c.name + '.runs', n > 0, loc, 'no evaluation gets as far as the integration')


def provided(ctx, i, c):
    """The parameters that are declared as provided exist after each calibration that is used."""
    loc = where(i.class_attr(c, 'get_can_provide_params'))
    sup = set(names_of(i, theory(i, c), 'get_can_support_params'))
    pro = set(names_of(i, theory(i, c), 'get_can_provide_params'))
    ctx.ok(c.name + '.supports', {'A_s', 'n_s', 'N_star', 'rho_reh_GeV', 'w_reh', 'phi0', 'p', 'alpha'} == sup, where(i.class_attr(c, 'get_can_support_params')),
           'supports %s' % sorted(map(str, sup)))
    ctx.ok(c.name + '.provides', PROVIDE <= pro, loc, 'does not provide %s' % sorted(PROVIDE - pro))
    for kw in ({'calibration_method': 'N_star', 'N_star': T.sym('N_star')}, {'N_star': T.sym('N_star'), 'rho_reh_GeV': T.sym('rho_reh_GeV')},
               {'calibration_method': 'reheating', 'w_reh': T.sym('w_reh'), 'rho_reh_GeV': T.sym('rho_reh_GeV')}):
        with ctx.guard('provides', loc):
            def run(it):
                _, b = solution(it, 't', 0)
                call(it, b, 'calibrate_scale_factor', **kw)
                missing = []
                for n in sorted(pro):
                    try:
                        it.getattr(b, n)
                    except PyRaise as e:
                        if e.value.name != 'AttributeError':
                            raise
                        missing.append(n)
                return missing
            for o in explore(i, run):
                if o.kind == 'return':
                    ctx.ok('provides[%s]' % kw.get('calibration_method', ''), not o.value, loc, 'declared as provided, but not known after calibration: %s' % o.value)
                    ctx.count('provided')
    ctx.ok('provides.paths', ctx.counts.get('provided', 0) >= 3, loc, 'no path')


@prop('C38', 'The slow-roll theory: shooting for the amplitude of scalar perturbations with the predicted scaling, the intended calibration for every combination of parameters, '
      'rejection of unrealistic reheating only, spectra and derived parameters of the accepted background, the potential that the model is named after.', 1000,
      technique='abstract interpretation over trace partitions with stand-ins for potential and solver; random interpretation')
def c38(ctx):
    i = ctx.interp()
    found = theories(i, SR)
    base = i.get(SR + ':SlowRollPPS')
    pots = {c.name.replace('Potential', '') for c in concrete_classes(i, 'primpy.potentials', 'InflationaryPotential')}
    scenarios(ctx, i, base)
    provided(ctx, i, base)
    getters(ctx, i, base)
    for n in MODELS:
        ctx.ok(n + '.exists', n + 'SlowRollPPS' in [c.name for c in found], SR, 'theory %sSlowRollPPS does not exist' % n)
    for c in found:
        if c.name != base.name and c.name.replace('SlowRollPPS', '') in pots:
            potentials_of(ctx, i, c)
    for key in ('reheating', 'rho_end'):
        ctx.ok(key + '.sampled', ctx.counts.get(key, 0) > 40, SR, 'cases')


MODELS = ('Monomial', 'Linear', 'Quadratic', 'Starobinsky', 'Natural', 'DoubleWell2', 'DoubleWell4', 'Tmodel', 'RadionGauge', 'RadionGauge2')
