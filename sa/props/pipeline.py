"""C31: the mode pipeline from background to primordial power spectrum."""
from ..bg import *  # noqa
from ..models import Model, Unknown, Empty
from .perturb import background, construct, VACS

MED = 'numpy.nanmedian'
LOGAH, NARR = T.sym('_logaH', 'a'), T.sym('_N', 'a')
SIG = ['ts', 'ws', 'gs', 'ti', 'tf', 'x0', 'dx0']
DEFAULTS = {'logw': False, 'logg': False, 't_eval': None, 'rtol': None, 'even_grid': False}
RNG = {'k': (0.4, 6), 'k1': (0.4, 6), 'k2': (0.4, 6), '_logaH': (-1.0, 7.5), '_N': (0, 18), 'K': (-1, 1), 'H': (0.5, 2),
       'fac_beg': (1.5, 20), 'fac_end': (20, 900), '_logaH_star': (1, 2), 'phi': (0.7, 1.9), 'dphidt': (0.3, 0.9),
       'dphidN': (0.3, 0.9)}


def dom(t):
    while t.op == 'idx':
        t = t.args[0]
    if t.op == 'sym':
        return RNG.get(t.args[0])
    return RANGES.get(t.args[0]) if t.op in ('papp', 'app') else None


def osolve(it, a, k):
    n = sum(1 for e in it.trace if e.kind == 'oscode')
    d = dict(DEFAULTS, **dict(zip(SIG, a)), **k)
    it.log('oscode', n, d)
    out = {x: T.sym('%s.%d' % (x, n), 'a') for x in ('types', 't', 'sol', 'dsol')}
    if d['t_eval'] is not None:
        out.update({x: T.sym('%s.%d' % (x, n), 'a') for x in ('x_eval', 'dx_eval')})
    return out


def bool_equiv(ctx, a, b, n=240):
    """+1 / -1 / 0: two conditions agree / are opposite / are unrelated under random interpretation."""
    if (a, b) in _equiv:
        return _equiv[a, b]
    r = _equiv[a, b] = _bool_equiv(ctx, a, b, n)
    return r


_equiv = {}


def _bool_equiv(ctx, a, b, n):
    same = opp = 0
    for s in range(n):
        v = T.Valuation('%s/%d' % (ctx.seed, s), dom=dom)
        try:
            x, y = v(a), v(b)
        except (T.TermError, TypeError):
            return 0
        if not isinstance(x, bool) or not isinstance(y, bool):
            return 0
        same += x == y
        opp += x != y
        if same and opp:
            return 0
    # on either side of the thresholds
    want = bool(same)
    for x, y in ((True, False), (False, True)):
        path = [(a, x), (b, y if want else x)]
        for s in range(2):
            over = T.steered(path, 'equiv%d' % s, None, dom, None)
            if over is not None and T.satisfies(T.Steered('equiv%d' % s, over, dom=dom), path):
                return 0
    return 1 if want else -1


def finite_model(seed, kind, ks, conf, n):
    """A background of a few samples: kinetic dominance (shrinking comoving Hubble scale), then inflation."""
    u = lambda name, lo, hi: T.mpf(lo) + (T.mpf(hi) - T.mpf(lo)) * T._hash01('%s/%d' % (seed, n), 'model', name)  # noqa
    size, before = 24, n % 4
    N, L, t = [u('N', -3, 3)], [u('L', -1, 1) + 2 * before], [u('t', 1, 2)]
    for j in range(1, size):
        dN = u('dN%d' % j, 0.2, 2.5 if n % 3 else 1.2)
        N.append(N[-1] + dN)
        L.append(L[-1] + (u('dL%d' % j, 0.8, 1) if j > before else u('dL%d' % j, -2.5, -1)) * dN)
        t.append(t[-1] * (1 + u('dt%d' % j, 0.1, 0.9)))
    val = {LOGAH: L, NARR: N, T.sym('t', 'a'): t, K: T.mpf(n % 3 - 1)}
    for q, k in enumerate(ks):
        lo = min(L) - 2
        val[k] = T.mpmath.exp(u('k%d' % q, lo, lo + (0.3 + 0.5 * (n % 2)) * (L[-1] - lo)))
    for f, draw in (('fac_beg', [0, u('fb', 0.05, 1), u('fb', 1, 4), 0, u('fb', 2, 30)][n % 5]), ('fac_end', u('fe', 2, 200))):
        if isinstance(conf.get(f), Term):
            val[conf[f]] = T.mpf(draw)
    return Model(val)


def selection(m, k, conf):
    """First and last sample of the integration that the property asks for, or None if there is none in the model."""
    L, N = m(LOGAH), m(NARR)
    fb, fe = m(T.lift(conf.get('fac_beg', 0))), m(T.lift(conf.get('fac_end', 100)))
    logk = T.mpmath.log(m(k))
    inside = [j for j, x in enumerate(L) if fb and logk - x > T.mpmath.log(fb)]
    b = inside[-1] if inside else 0
    past = [j for j, x in enumerate(L) if x - logk > T.mpmath.log(fe)]
    ten = [j for j, x in enumerate(N) if x - N[b] > 10]
    if not past or not ten:
        return None
    e = past[0]
    return b, e if N[e] - N[b] >= 10 else ten[0], bool(inside), N[e] - N[b] >= 10


def holds(m, decisions):
    """Is this a model of the decisions on a path, as far as they can be evaluated?"""
    for atom, val in decisions:
        try:
            if isinstance(atom, Term) and m(atom) is not val:
                return False
        except (Unknown, Empty):
            pass
    return True


def check_range(ctx, key, loc, kk, ks, calls, conf, path):
    """The integration covers the samples that the horizon factors and the minimum of 10 e-folds select."""
    x = T.sym('t', 'a') if conf['kind'] == 't' else NARR
    done = 0
    for n in range(30):
        mk = ('%s/%s' % (ctx.seed, key), conf['kind'], n)
        if mk not in conf['models']:
            conf['models'][mk] = finite_model(mk[0], conf['kind'], ks, conf, n)
        m = conf['models'][mk]
        want = selection(m, kk, conf)
        if want is None or not holds(m, path.decided.items()):
            continue
        done += 1
        b, e, inside, far = want
        xs = m(x)
        for c in {tuple(T.lift(c[a]) for a in ('ti', 'tf', 'ts')): c for c in calls}.values():
            try:
                got = m(T.lift(c['ti'])), m(T.lift(c['tf'])), m(T.lift(c['ts']))
            except Empty:
                ctx.fail(key + '.exists', loc, 'the start or end index does not exist although the background goes on for long enough')
                return False
            except Unknown as err:
                ctx.fail(key + '.range', loc, 'integration limits are not chosen from the background alone: %s' % err)
                return False
            ctx.ok(key + '.beg', got[0] == xs[b], loc,
                   'integration does not begin at the last sample inside the horizon by fac_beg (the first sample if there is none): ' + show(c['ti']))
            ctx.ok(key + '.end' if far else key + '.min10', got[1] == xs[e], loc,
                   ('integration does not stop at the first sample outside the horizon by fac_end: ' if far else
                    'integration does not stop 10 e-folds after the beginning although the horizon exit comes earlier: ') + show(c['tf']))
            ctx.ok(key + '.grid', got[2] == xs[b:e + 1], loc, 'time grid does not run from the start to the end index inclusive')
        ctx.count('beg_last' if inside else 'beg_at')
        ctx.count('end_horizon' if far else 'end_10efolds')
    ctx.count('models_per_path', done)
    return True


def long_model(conf, ks):
    """A background where the horizon exit is far more than 10 e-folds after the start."""
    N = [T.mpf(j) for j in range(60)]
    return Model({NARR: N, LOGAH: [x - 12 for x in N], T.sym('t', 'a'): [x + 1 for x in N], **{k: T.mpf(1 + q) / 2 for q, k in enumerate(ks)}})


def check_calls(ctx, it, key, loc, kk, ks, calls, conf, path):
    """Obligations on the four integrator calls of one wavenumber. Returns (ib, ie) or None."""
    if not ctx.ok(key + '.calls', len(calls) == 4, loc, '%d integrations instead of 4' % len(calls)):
        return None
    x = T.sym('t', 'a') if conf['kind'] == 't' else NARR
    ends = set()
    for c in calls:
        ti, tf = T.lift(c['ti']), T.lift(c['tf'])
        if not (ti.op == tf.op == 'idx' and ti.args[0] is x and tf.args[0] is x):
            ctx.fail(key + '.range', loc, 'integration limits are not points of the background: %s, %s' % (ti, tf))
            return None
        ends.add((ti.args[1], tf.args[1]))
    ctx.ok(key + '.same-range', len(ends) == 1, loc, 'the four integrations cover different ranges')
    ib, ie = ends.pop()
    if not check_range(ctx, key, loc, kk, ks, calls, conf, path):
        return None
    p = construct(it, conf['kind'], k=kk, idx_beg=ib, idx_end=ie, vacuum=conf['vac'])
    for n, c in enumerate(calls):
        m = it.getattr(p, ('scalar', 'tensor')[n // 2])
        fr, da = T.lift(it.getattr(m, 'ms_frequency')), T.lift(it.getattr(m, 'ms_damping'))
        w = T.fn('exp', c['ws']) if c['logw'] else c['ws']
        g = T.fn('exp', c['gs']) if c['logg'] else c['gs']
        ctx.equal(key + '.ws', T.power(w, 2), T.power(fr, 2), loc, 'wrong frequency passed to the integrator', dom=dom)
        ctx.equal(key + '.gs', g, da, loc, 'wrong damping passed to the integrator', dom=dom)
        for nm, j in (('x0', 0), ('dx0', 1)):
            ctx.equal(key + '.' + nm, T.lift(c[nm]), T.lift(conf['y0'][2 * (n % 2) + j]), loc,
                      'initial values of the two independent solutions are mixed up')
        ctx.equal(key + '.rtol', T.lift(c['rtol']), T.lift(conf['rtol']), loc, 'tolerance not forwarded')
        ctx.ok(key + '.even_grid', c['even_grid'] is conf.get('even_grid', False), loc, 'even_grid not forwarded')
        te = c['t_eval']
        if not conf.get('num_eval'):
            ctx.ok(key + '.t_eval', te is None, loc, 'dense output without being asked for')
        else:
            te = T.lift(te)
            name = te.args[0] if te.op in ('app', 'papp') else None
            log = name == 'numpy.logspace'
            ok = name in ('numpy.linspace', 'numpy.logspace', 'numpy.geomspace') and len(te.args[1]) >= 2
            if ctx.ok(key + '.t_eval', ok, loc, 'evaluation points are not a grid: %s' % show(te)):
                a, b = [T.lift(q) for q in te.args[1][:2]]
                xi, xe = T.index(x, ib), T.index(x, ie)
                if log:
                    xi, xe = T.fn('log10', xi), T.fn('log10', xe)
                ctx.equal(key + '.t_eval.beg', a, xi, loc, 'dense output does not begin at the start', dom=dom)
                ctx.equal(key + '.t_eval.end', b, xe, loc, 'dense output does not stop at the end', dom=dom)
                num = te.args[1][2] if len(te.args[1]) > 2 else dict(te.args[2]).get('num')
                ctx.ok(key + '.t_eval.num', T.lift(num) is T.lift(conf['num_eval']), loc, 'wrong number of evaluation points')
    return p


def expected(it, p, kk, vac, base, tag, evaluated=False):
    """Power |a y1 + b y2|^2 * norm with a, b matched to the vacuum initial conditions."""
    m = it.getattr(p, 'scalar' if tag == 's' else 'tensor')
    u, du = [T.lift(z) for z in it.iterate(call(it, m, 'get_vacuum_ic_' + vac))]
    off = base + (0 if tag == 's' else 2)
    y = [T.sym('sol.%d' % (off + n), 'a') for n in (0, 1)]
    d = [T.sym('dsol.%d' % (off + n), 'a') for n in (0, 1)]
    y1, y2, d1, d2 = [T.index(z, 0) for z in y + d]
    det = T.sub(T.mul(y1, d2), T.mul(d1, y2))
    a = T.div(T.sub(T.mul(u, d2), T.mul(du, y2)), det)
    b = T.div(T.sub(T.mul(du, y1), T.mul(u, d1)), det)
    if evaluated:
        e1, e2 = [T.sym('x_eval.%d' % (off + n), 'a') for n in (0, 1)]
    else:
        e1, e2 = [T.app(MED, [T.index(z, slice(-5, None))]) for z in y]
    amp = T.power(T.fn('abs', T.add(T.mul(a, e1), T.mul(b, e2))), 2)
    norm = T.div(T.power(kk, 3), T.mul(2, T.power(T.PI, 2)))
    return T.mul(amp, norm if tag == 's' else T.mul(2, norm))


@prop('C31', 'For each wavenumber: four integrator calls (two independent solutions of scalar, then tensor) with '
      'frequency, damping, grid, limits, initial values and tolerances of that mode; start/end chosen by the '
      'horizon factors and the 10 e-fold minimum; the power of every requested vacuum is |a y1+b y2|^2 k^3/2pi^2 '
      '(twice that for tensors) with a, b matching that vacuum at the start; results land in the right slot.', 400,
      technique='abstract interpretation with a recorded integrator stub over all trace partitions; GVN of arguments and results')
def c31(ctx):
    confs = []
    for kind in KINDS:
        confs.append(dict(kind=kind, k='scalar', vac=VACS))
        confs.append(dict(kind=kind, k='scalar', vac=('HD',), fac_beg=T.sym('fac_beg'), fac_end=T.sym('fac_end'),
                          rtol=T.sym('rtol'), even_grid=True))
        confs.append(dict(kind=kind, k='array', vac=None, long=True))
        confs.append(dict(kind=kind, k='array', vac=VACS, long=True))
        confs.append(dict(kind=kind, k='array', vac=('k', 'HD'), long=True, drop=False))
        confs.append(dict(kind=kind, k='scalar', vac=('RST', 'k'), long=True, num_eval=7,
                          y0=tuple(T.sym('Y%d' % n) for n in range(4))))
    for n, conf in enumerate(confs):
        i = ctx.interp(**{'pyoscode.solve': osolve})
        f = i.get('primpy.oscode_solver:solve_oscode')
        loc = where(f)
        kind = conf['kind']
        key = '%s.%s.%s' % (kind, conf['k'], '+'.join(conf['vac']) if conf['vac'] else 'default')
        ks = [KK_ for KK_ in ([T.sym('k')] if conf['k'] == 'scalar' else [T.sym('k1'), T.sym('k2')])]
        kw = {'k': ks[0] if conf['k'] == 'scalar' else VArray(list(ks))}
        for a, b in (('fac_beg', 'fac_beg'), ('fac_end', 'fac_end'), ('rtol', 'rtol'), ('even_grid', 'even_grid'),
                     ('num_eval', 'num_eval'), ('y0', 'y0')):
            if a in conf:
                kw[b] = conf[a]
        if conf['vac']:
            kw['vacuum'] = conf['vac']
        if conf.get('drop') is False:
            kw['drop_closed_large_scales'] = False
        conf['vac'] = conf['vac'] or ('RST',)
        conf['models'] = {}
        afar = long_model(conf, ks)
        conf.setdefault('rtol', Fraction(5, 100000))
        conf.setdefault('y0', tuple(T.sym('ic%d' % q) for q in range(4)))

        def assume(atom):
            if atom.op == 'app' and atom.args[0] == 'numpy.all' and LOGAH not in T.symbols(atom):      # sign of the frequencies
                return True
            if atom.op == 'lt' and conf.get('long') and any(s.op == 'idx' and s.args[0] is NARR for s in T.subterms(atom)):
                try:
                    return afar(atom)
                except (Unknown, Empty):
                    return None
            return None

        def run(it):
            b = background(it, kind)
            r = it.call(f, [b], dict(kw))
            calls = [e.data[1] for e in it.trace if e.kind == 'oscode']
            m = len(it.decisions)
            return r, calls, b
        with ctx.guard(key):
            for r, calls, b in ctx.paths(key, i, run, loc, assume=assume):
                path = ctx.path
                ctx.ok(key + '.return', isinstance(r, VInst) and i.hasattr(r, 'k'), loc, 'unexpected result %s' % r)
                if conf['k'] == 'scalar':
                    ctx.ok(key + '.type', i.hasattr(r, 'scalar') and i.hasattr(r, 'tensor'), loc,
                           'a single wavenumber does not return the perturbation itself')
                else:
                    ctx.equal(key + '.k_iMpc', T.lift(i.getitem(i.getattr(r, 'k_iMpc'), 1)),
                              T.div(T.mul(ks[1], Fraction(5, 100)), T.fn('exp', T.sym('_logaH_star'))), loc,
                              'physical wavenumber is not k K_STAR/(a H)_star')
                for q, kk in enumerate(ks):
                    c4 = calls[4 * q:4 * q + 4] if len(calls) == 4 * len(ks) else calls
                    i.decided = dict(path.decided)
                    i.assume = assume
                    p = check_calls(ctx, i, key, loc, kk, ks, c4, conf, path)
                    if p is None:
                        continue
                    closed = conf.get('drop') is not False and decided(ctx, path, T.Term('lt', (kk, T.num(1)))) \
                        and decided(ctx, path, T.Term('eq', (K, T.num(1))))
                    for vac in conf['vac']:
                        for tag in 'st':
                            nm = 'P_%s_%s' % (tag, vac)
                            o = i.getattr(r, 'scalar' if tag == 's' else 'tensor') if conf['k'] == 'scalar' else r
                            if not ctx.ok(key + '.has.' + nm, i.hasattr(o, nm), loc, 'no result %s' % nm):
                                continue
                            got = i.getattr(o, nm)
                            got = T.lift(got if conf['k'] == 'scalar' else i.getitem(got, q))
                            if tag == 's' and closed:
                                exp = T.num(Fraction(1, 10**30))
                            else:
                                exp = expected(i, p, kk, vac, 4 * q, tag)
                            ctx.equal('%s.%s' % (key, nm), got, exp, loc, 'wrong power for the %s vacuum%s' %
                                      (vac, ' (closed universe, k<1)' if closed else ''), dom=dom, path=None)
                            if conf.get('num_eval') and not closed:
                                got = T.lift(i.getattr(o, nm + '_eval'))
                                ctx.equal('%s.%s_eval' % (key, nm), got, expected(i, p, kk, vac, 4 * q, tag, True),
                                          loc, 'wrong dense power for the %s vacuum' % vac, dom=dom, path=None)
                    i.assume = None
    stand_alone(ctx)
    for k in ('beg_at', 'beg_last', 'end_horizon', 'end_10efolds'):
        ctx.ok('selection.' + k, ctx.counts.get(k, 0) > 0, '', 'no path selects the range by rule "%s"' % k)


def decided(ctx, path, cond):
    """Was this condition decided true on the path?"""
    for atom, val in path.decisions:
        if atom is cond:
            return val
        if isinstance(atom, Term) and atom.op == cond.op and T.symbols(atom) == T.symbols(cond):
            if atom.op == 'eq':
                if val and path.equalities().get(cond.args[0]) is cond.args[1]:
                    return True
                continue
            e = bool_equiv(ctx, atom, cond)
            if e:
                here = T.Valuation(0, fixed={k: T.num(1) for k in T.symbols(cond)})      # the threshold itself
                if here(atom) != (here(cond) if e == 1 else not here(cond)):
                    return False
                return val if e == 1 else not val
    return False


def stand_alone(ctx):
    """Spectra and perturbations constructed without optional arguments."""
    i = ctx.interp(**{'pyoscode.solve': osolve})
    cls = i.get('primpy.perturbations:PrimordialPowerSpectrum')
    loc = where(cls)
    for vac in (None, ('k',), ('HD', 'RST')):
        def run(it):
            b = background(it, 't')
            return it.call(cls, [], {'background': b, 'k': VArray([T.sym('k1'), T.sym('k2')]), **({'vacuum': vac} if vac else {})})
        with ctx.guard('spectrum'):
            for r in ctx.paths('spectrum', i, run, loc):
                for v in VACS:
                    for n in ('P_s_', 'P_t_'):
                        want = v in (vac or ('RST',))
                        if ctx.ok('spectrum.%s%s' % (n, v), i.hasattr(r, n + v) == want, loc, 'spectra are not those of the requested vacua') and want:
                            for q in (0, 1):
                                x = T.lift(i.getitem(i.getattr(r, n + v), q))
                                ctx.ok('spectrum.unset', x is T.NAN, loc, 'power before integration is %s' % T.show(x))
    for kind in KINDS:
        x = T.sym('t', 'a') if kind == 't' else NARR
        with ctx.guard('defaults.' + kind):
            def run(it):        # noqa: E306
                p = construct(it, kind, idx_beg=None, idx_end=None, vacuum=None)
                q = construct(it, kind, idx_beg=0, idx_end=T.app('numpy.size', [x]), vacuum=('RST',))
                return [[it.getattr(it.getattr(z, m), n) for m in ('scalar', 'tensor') for n in ('ms_frequency', 'ms_damping')] +
                        [it.hasattr(it.getattr(z, m), 'P_%s_%s' % (m[0], v)) for m in ('scalar', 'tensor') for v in VACS] for z in (p, q)]
            for a, b in ctx.paths('defaults.' + kind, i, run, loc):
                for y, z in zip(a, b):
                    if isinstance(y, bool):
                        ctx.ok('defaults.%s.vacuum' % kind, y == z, loc, 'the vacuum of modes without a request is not RST')
                    else:
                        ctx.equal('defaults.%s.range' % kind, T.lift(y), T.lift(z), loc, 'modes without a range do not cover the whole background', dom=dom)
