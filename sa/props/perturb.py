"""C29-C31: perturbation equations, vacuum initial conditions, mode pipeline."""
from ..bg import *  # noqa
from .background import Flow, D_lnH

MODS = {'t': 'primpy.time.perturbations', 'N': 'primpy.efolds.perturbations'}
PCLS = {'t': 'PerturbationT', 'N': 'PerturbationN'}
VACS = ('k', 'HD', 'RST')
KK, IB, IE = T.sym('k'), T.sym('ib'), T.sym('ie')


def background(i, kind):
    b = VInst(VExternal('opaque.background'), name='background')
    b.bunch = True
    for n in ['_N', 'phi', 'H', 'Omega_K', 'x', 't', 'N', '_logaH', 'dphidt' if kind == 't' else 'dphidN']:
        b.attrs[n] = T.sym(n, 'a')
    if kind == 'N':
        b.attrs['x'] = b.attrs['_N']
    else:
        b.attrs['x'] = b.attrs['t']
    b.attrs['K'] = K
    b.attrs['potential'] = potential(i)
    b.attrs['potential'].attrs['perturbation_ic'] = tuple(T.sym('ic%d' % n) for n in range(4))
    b.attrs['independent_variable'] = 't' if kind == 't' else '_N'
    b.attrs['_logaH_star'] = T.sym('_logaH_star')
    b.attrs['inflation_mask'] = T.sym('inflation_mask', 'a')
    return b


def construct(it, kind, **kw):
    b = background(it, kind)
    args = dict({'background': b, 'k': KK, 'idx_beg': IB, 'idx_end': IE, 'vacuum': VACS}, **kw)
    return it.call(it.get(MODS[kind] + ':' + PCLS[kind]), [], {k: v for k, v in args.items() if v is not None})


def to_state(t, flow, kind):
    """Replace indexed background arrays by the state leaves; returns (term, set of indices used)."""
    t = T.lift(t)
    N2, keys, env = None, set(), {}
    emN = T.fn('exp', T.mul(-2, NN))
    m = {'_N': NN, 'phi': PHI, 'dphidt': DPHI, 'dphidN': DPHI, 'H': flow.H, 't': TT,
         'Omega_K': T.neg(T.div(T.mul(K, emN), flow.H2)), '_logaH': T.add(NN, T.fn('log', flow.H))}
    for s in T.subterms(t):
        if s.op == 'idx' and s.args[0].op == 'sym' and s.args[0].args[0] in m:
            keys.add(s.args[1])
            env[s] = m[s.args[0].args[0]]
    return T.substitute(t, env), keys


def is_complex(t):
    return any(s.op == 'const' and s.args[0] in ('I', '0j') for s in T.subterms(t))


def all_positive(outcome, f2, ctx, dom):
    """Does the path establish that f2 > 0 everywhere?"""
    for atom, val in outcome.decisions:
        a, v = atom, val
        while isinstance(a, Term) and a.op == 'not':
            a, v = a.args[0], not v
        if not isinstance(a, Term) or a.op not in ('app', 'lt'):
            continue
        if a.op == 'app':
            name = a.args[0]
            if not (name.endswith('.all') and v or name.endswith('.any') and not v):
                continue
            neg = name.endswith('.any')
            c = a.args[1][0]
        else:
            neg, c = False, a if v else T.Term('not', (a,))
        if neg:
            c = T.Term('not', (c,))
        flip = False
        while isinstance(c, Term) and c.op == 'not':
            c, flip = c.args[0], not flip
        if not isinstance(c, Term) or c.op != 'lt':
            continue
        lo, hi = c.args
        if flip:
            lo, hi = hi, lo
        # fact: lo < hi (or <=); we need hi - lo to be f2 up to a positive factor
        d = T.sub(hi, lo)
        try:
            pos = True
            for s in ctx.seeds():
                v1, v2 = T.Valuation(s, dom=dom)(d), T.Valuation(s, dom=dom)(f2)
                ratio = v1 / v2
                pos = pos and abs(ratio.imag if hasattr(ratio, 'imag') else 0) < 1e-20 and ratio.real > 0
            if pos and T.equal(d, f2, dom=dom, seeds=ctx.seeds())[0]:
                return True
        except (T.TermError, T.Inconclusive):
            continue
    return False


def doms(ctx):
    base = {'k': (2.5, 6), 'ib': (3, 9), 'ie': (20, 40)}
    out = [domain(base), domain(dict(base, K=(0.2, 0.9))), domain(dict(base, K=(-0.9, -0.2))),
           domain(dict(base, dphi=(-0.9, -0.3))), domain(dict(base, k=(20, 1e7, 'log'))),
           # late times with realistic energy scales, long and short wavelengths; a field almost at rest; a falling potential
           domain(dict(base, _N=(25, 40), phi=(8, 16), dphi=(1e-6, 1e-5), k=(1e7, 1e12, 'log'), **{'pot.V': (1e-10, 1e-9), 'pot.dV': (1e-11, 1e-10),
                                                                                          'pot.d2V': (1e-12, 1e-11), 'pot.d3V': (1e-13, 1e-12)})),
           domain(dict(base, **{'dphi': (1e-6, 1e-5), 'pot.dV': (1e-6, 1e-5), 'pot.d2V': (1e-6, 1e-5)})),
           domain(dict(base, phi=(-9, -3), **{'pot.dV': (-1.6, -0.4), 'pot.d2V': (-1.6, -0.4)}))]
    if ctx.thorough:
        out += [domain(dict(base, k=(20, 60))), domain(dict(base, _N=(2, 4))), domain(dict(base, K=(-1e-6, 1e-6)))]
    return out


def spec_scalar(f, kind):
    """Mukhanov-Sasaki equation of Handley (2019), eq. 20, in the given independent variable."""
    H = f.H
    def dt(t):
        return f.D(t) if kind == 't' else T.mul(H, f.D(t))
    dphit = DPHI if kind == 't' else T.mul(H, DPHI)
    a = T.fn('exp', NN)
    z = T.div(T.mul(a, dphit), H)
    E = T.div(T.power(dphit, 2), T.mul(2, T.power(H, 2)))
    D2 = T.neg(T.add(T.sub(T.power(KK, 2), T.mul(3, K)), T.mul(T.mul(KK, K), T.add(K, 1))))
    den = T.sub(D2, T.mul(K, E))
    zz = T.div(dt(z), z)
    damp = T.div(T.sub(T.mul(T.add(H, T.mul(2, zz)), D2), T.mul(T.mul(3, K), T.mul(H, E))), den)
    brace = T.sub(T.add(T.mul(K, T.mul(T.sub(T.add(1, E), T.mul(T.div(2, H), zz)), D2)),
                        T.mul(T.power(K, 2), E)), T.power(D2, 2))
    w2 = T.div(T.div(brace, T.power(a, 2)), den)
    return to_x(f, kind, w2, damp)


def to_x(f, kind, w2, damp):
    if kind == 't':
        return w2, damp
    Hdot = T.mul(f.H, f.D(f.H))
    return T.div(w2, f.H2), T.div(T.add(damp, T.div(Hdot, f.H)), f.H)


def spec_tensor(f, kind):
    w2 = T.mul(T.add(T.add(T.power(KK, 2), T.mul(T.mul(KK, K), T.add(K, 1))), T.mul(2, K)), T.fn('exp', T.mul(-2, NN)))
    return to_x(f, kind, w2, T.mul(3, f.H))


@prop('C29', 'Frequency^2 and damping of scalar and tensor modes, with background arrays replaced by the '
      'state and H by the Friedmann constraint, equal the curved Mukhanov-Sasaki equation (Handley 2019, '
      'formal derivative of z along the flow) and h\'\'+3Hh\'+..=0, in both independent variables; all background '
      'arrays are sliced identically from start to end index inclusive; a real square root is only taken on '
      'paths that establish positivity.', 40,
      technique='abstract interpretation to value numbers; formal Lie derivative; path-fact analysis of guards; GVN')
def c29(ctx):
    for kind in MODS:
        i = ctx.interp()
        f = single(ctx, i, lambda it: Flow(it, kind, equations(it, kind)))
        for mode, spec in (('scalar', spec_scalar), ('tensor', spec_tensor)):
            key = '%s.%s' % (kind, mode)
            w2s, ds = spec(f, kind)

            def run(it):
                s = it.getattr(construct(it, kind), mode)
                return it.getattr(s, 'ms_frequency'), it.getattr(s, 'ms_damping'), s
            with ctx.guard(key):
                for fr, da, s in ctx.paths(key, i, run):
                    o = ctx.path
                    ctx.path_map = lambda c: to_state(c, f, kind)[0]
                    loc = where(i.class_attr(s.cls, 'mukhanov_sasaki_frequency_damping'))
                    raw = T.mul(fr, fr)
                    w2, k1 = to_state(raw, f, kind)
                    d2, k2 = to_state(T.mul(2, da), f, kind)
                    for d in doms(ctx):
                        ctx.equal(key + '.frequency', w2, w2s, loc, 'frequency of %s modes is wrong' % mode, dom=d)
                        ctx.equal(key + '.damping', d2, ds, loc, 'damping of %s modes is wrong' % mode, dom=d)
                    want = T.freeze(slice(IB, T.add(IE, 1), None))
                    ctx.ok(key + '.slice', len(k1 | k2) == 1 and same_slice(ctx, next(iter(k1 | k2)), want), loc,
                           'background arrays are not all sliced from the start to the end index inclusive: %s'
                           % [T.show(x) for x in k1 | k2])
                    if not is_complex(fr):
                        ctx.ok(key + '.realroot', all_positive(o, raw, ctx, doms(ctx)[0]), loc,
                               'real square root of the squared frequency without establishing that it is positive')
                    else:
                        ctx.ok(key + '.complexroot', True)


def same_slice(ctx, a, b):
    if a is b or a == b:
        return True
    try:
        return (len(a) == len(b) == 4 and all(
            (x is y) or (x == y) or (isinstance(x, Term) and isinstance(y, Term) and
                                     T.equal(x, y, seeds=ctx.seeds(), dom=doms(ctx)[0])[0]) for x, y in zip(a, b)))
    except TypeError:
        return False


@prop('C30', 'Vacuum initial conditions: with z = a dphi/H (a/2 for tensors), v = zR satisfies |v|^2 = 1/(2w) and '
      'dv/deta = -i w v (w=k, or w^2 = k^2 - z\'\'/z with formal conformal derivatives of z), RST has '
      'R = 1/(z sqrt(2k)) with dR/deta = -ikR; all background quantities are taken at the start index.', 70,
      technique='abstract interpretation to value numbers; formal Lie derivative; GVN by random interpretation')
def c30(ctx):
    for kind in MODS:
        i = ctx.interp()
        f = single(ctx, i, lambda it: Flow(it, kind, equations(it, kind)))
        a = T.fn('exp', NN)
        dphit = DPHI if kind == 't' else T.mul(f.H, DPHI)
        for mode in ('scalar', 'tensor'):
            z = T.div(T.mul(a, dphit), f.H) if mode == 'scalar' else T.div(a, 2)
            conf = a if kind == 't' else T.mul(a, f.H)        # d/deta = conf * d/dx

            def deta(t):
                return T.mul(conf, f.D(t))
            zp, zpp = deta(z), deta(deta(z))
            for vac in VACS:
                key = '%s.%s.%s' % (kind, mode, vac)
                with ctx.guard(key):
                    def run(it):
                        s = it.getattr(construct(it, kind), mode)
                        n = len(it.trace)
                        return call(it, s, 'get_vacuum_ic_' + vac), s
                    seen = set()
                    for val in ctx.paths(key, i, run):
                        ctx.path_map = lambda c: to_state(c, f, kind)[0]
                        (R, dR), s = i.iterate(val[0]), val[1]
                        if (R, dR) in seen and not ctx.path.equalities():
                            continue
                        seen.add((R, dR))
                        loc = where(i.class_attr(s.cls, 'get_vacuum_ic_' + vac))
                        R, k1 = to_state(R, f, kind)
                        dR, k2 = to_state(dR, f, kind)
                        ctx.ok(key + '.start', k1 | k2 == {T.freeze(IB)}, loc,
                               'initial conditions use background values away from the start index: %s'
                               % [T.show(x) for x in k1 | k2])
                        Rc = T.mul(conf, dR)
                        w = KK if vac != 'HD' else T.fn('sqrt', T.sub(T.power(KK, 2), T.div(zpp, z)))
                        for d in doms(ctx):
                            ctx.equal(key + '.amplitude', T.mul(T.power(T.mul(z, R), 2), T.mul(2, w)), T.num(1), loc,
                                      'normalisation of the %s vacuum is wrong' % vac, dom=d)
                            if vac == 'RST':
                                lhs, rhs = Rc, T.mul(T.mul(T.neg(T.I), KK), R)
                            else:
                                lhs = T.add(T.mul(z, Rc), T.mul(zp, R))
                                rhs = T.mul(T.mul(T.neg(T.I), w), T.mul(z, R))
                            ctx.equal(key + '.derivative', lhs, rhs, loc,
                                      'derivative of the %s vacuum state is wrong' % vac, dom=d)
