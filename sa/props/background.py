"""C09-C13: background equations in cosmic time and in e-folds."""
from ..bg import *  # noqa


class Flow:
    """Exact derivatives along the background flow, with leaves N, phi, dphi, K."""

    def __init__(self, i, kind, eq):
        self.i, self.kind, self.eq = i, kind, eq
        x, y, ix = state(i, eq, kind)
        self.x, self.y = x, y
        self.H2 = T.lift(call(i, eq, 'H2', x, y))
        self.H = T.fn('sqrt', self.H2)
        self.V, self.dV, self.d2V, self.d3V = [T.app(n, [PHI], pointwise=True) for n in VNAMES[:4]]
        self.rate = self.H if kind == 't' else T.num(1)
        g = lambda name, **kw: T.lift(call(i, eq, name, **kw))
        self.dH_H = g('get_dH_H', N=NN, H2=self.H2, dphi=DPHI, K=K)
        self.d2phi = g('get_d2phi', H2=self.H2, dH_H=self.dH_H, dphi=DPHI, dV=self.dV)
        self.env = {NN: self.rate, PHI: DPHI, DPHI: self.d2phi}
        self.dH = g('get_dH', N=NN, H=self.H, dphi=DPHI, K=K)
        self.d2H = g('get_d2H', N=NN, H=self.H, dH=self.dH, dphi=DPHI, d2phi=self.d2phi, K=K)
        self.d3phi = g('get_d3phi', H=self.H, dH=self.dH, d2H=self.d2H, dphi=DPHI, d2phi=self.d2phi,
                       dV=self.dV, d2V=self.d2V)
        self.d3H = g('get_d3H', N=NN, H=self.H, dH=self.dH, d2H=self.d2H, dphi=DPHI, d2phi=self.d2phi,
                     d3phi=self.d3phi, K=K)
        self.d4phi = g('get_d4phi', H=self.H, dH=self.dH, d2H=self.d2H, d3H=self.d3H, dphi=DPHI,
                       d2phi=self.d2phi, d3phi=self.d3phi, dV=self.dV, d2V=self.d2V, d3V=self.d3V)

    def D(self, t):
        return T.diff(t, self.env)

    def loc(self, name):
        a = self.i.class_attr(self.eq.cls, name)
        return where(a) if a is not None else where(self.eq.cls)

    def sr(self, name, kind=None):
        kw = {}
        full = {'H': self.H, 'dH': self.dH, 'd2H': self.d2H, 'd3H': self.d3H, 'dphi': DPHI,
                'd2phi': self.d2phi, 'd3phi': self.d3phi, 'd4phi': self.d4phi}
        need = {'get_epsilon_1H': ('H', 'dH'), 'get_epsilon_2H': ('H', 'dH', 'd2H'),
                'get_epsilon_3H': ('H', 'dH', 'd2H', 'd3H'),
                'get_delta_1': ('H', 'dH', 'dphi', 'd2phi'),
                'get_delta_2': ('H', 'dH', 'd2H', 'dphi', 'd2phi', 'd3phi'),
                'get_delta_3': ('H', 'dH', 'd2H', 'd3H', 'dphi', 'd2phi', 'd3phi', 'd4phi')}[name]
        kw = {n: full[n] for n in need}
        if kind is not None:
            kw['kind'] = kind
        return T.lift(call(self.i, self.eq, name, **kw))


def flows(ctx, key, kind, fn=None, **kw):
    """Flow of the equations (and fn(flow)) on every trace partition of the analysed code."""
    i = ctx.interp()

    def run(it):
        f = Flow(it, kind, equations(it, kind, **kw))
        return f, (fn(f) if fn else None)
    return ctx.paths(key, i, run, where(i.get('%s:%s' % KINDS[kind])))


def domains(ctx):
    out = [domain(), domain({'K': (0.2, 0.9)}), domain({'K': (-0.9, -0.2)}), domain({'dphi': (-0.9, -0.3)}),
           # negative potential energy in an open universe (w > 1), and a field almost at rest
           domain({'pot.V': (-0.3, -0.1), 'dphi': (1.5, 1.9), 'K': (-0.9, -0.6), '_N': (0.5, 0.7)}),
           domain({'dphi': (1e-6, 1e-5), 'pot.dV': (1e-6, 1e-5)}),
           # late times, realistic (tiny) energy scales, far field values, and a falling or concave potential
           domain({'_N': (60, 90), 'phi': (15, 25), 'pot.V': (1e-10, 1e-9), 'pot.dV': (1e-11, 1e-10), 'pot.d2V': (1e-12, 1e-11),
                   'pot.d3V': (1e-13, 1e-12), 'dphi': (1e-6, 2e-6)}),
           domain({'phi': (-9, -3), 'pot.dV': (-1.6, -0.4), 'pot.d2V': (-1.6, -0.4)})]
    if ctx.thorough:
        out += [domain({'_N': (2, 5)}), domain({'dphi': (1.2, 1.9), 'pot.V': (5, 9)}),
                domain({'pot.dV': (-1.6, -0.4), 'K': (-1.0, 1.0)})]
    return out


@prop('C09', 'Along the flow generated by the equations\' own first derivatives, every higher derivative '
      '(d2H, d3H, d3phi, d4phi) is the formal flow derivative of the one below it, H2 satisfies the '
      'Friedmann equation and d2phi the Klein-Gordon equation, for symbolic curvature, in both time '
      'parametrisations.', 60,
      technique='abstract interpretation to value numbers; formal Lie derivative along the flow; GVN by random interpretation')
def c09(ctx):
    for kind in KINDS:
        key = 'T' if kind == 't' else 'N'
        with ctx.guard(key + '.ladder'):
          for f, Hm in flows(ctx, key + '.ladder', kind, lambda f: T.lift(call(f.i, f.eq, 'H', f.x, f.y))):
            e2N = T.fn('exp', T.mul(-2, NN))
            dphidt = DPHI if kind == 't' else T.mul(f.H, DPHI)
            rho = T.add(T.div(T.power(dphidt, 2), 2), f.V)
            D = f.D
            if kind == 't':
                kg = T.add(T.add(f.d2phi, T.mul(T.mul(3, f.H), DPHI)), f.dV)
            else:
                H2 = f.H2
                kg = T.add(T.add(T.mul(H2, f.d2phi), T.mul(T.mul(H2, T.add(3, D_lnH(f))), DPHI)), f.dV)
            obs = [
                ('H2', 'H2', T.mul(3, T.add(f.H2, T.mul(K, e2N))), rho, 'Friedmann constraint violated'),
                ('H', 'H', T.power(Hm, 2), f.H2, 'H**2 is not H2'),
                ('d2phi', 'get_d2phi', kg, T.num(0), 'Klein-Gordon equation violated'),
                ('dH', 'get_dH', f.dH, D(f.H), 'dH is not the derivative of H'),
                ('dH_H', 'get_dH_H', T.mul(f.dH_H, f.H), f.dH, 'dH_H is not dH/H'),
                ('d2H', 'get_d2H', f.d2H, D(f.dH), 'd2H is not the derivative of dH'),
                ('d3H', 'get_d3H', f.d3H, D(f.d2H), 'd3H is not the derivative of d2H'),
                ('d3phi', 'get_d3phi', f.d3phi, D(f.d2phi), 'd3phi is not the derivative of d2phi'),
                ('d4phi', 'get_d4phi', f.d4phi, D(f.d3phi), 'd4phi is not the derivative of d3phi'),
            ]
            for name, m, a, b, msg in obs:
                for d in domains(ctx):
                    if name == 'd2phi':
                        a2, b2 = T.add(a, 1), T.num(1)
                        ctx.equal('%s.%s' % (key, name), a2, b2, f.loc(m), msg, dom=d)
                    else:
                        ctx.equal('%s.%s' % (key, name), a, b, f.loc(m), msg, dom=d)


def D_lnH(f):
    """dlnH/dN from Raychaudhuri, in terms of the state: -dphi^2/2 + K exp(-2N)/H2."""
    return T.add(T.neg(T.div(T.power(DPHI, 2), 2)), T.div(T.mul(K, T.fn('exp', T.mul(-2, NN))), f.H2))


SR = ['get_epsilon_1H', 'get_epsilon_2H', 'get_epsilon_3H', 'get_delta_1', 'get_delta_2', 'get_delta_3']


def slow_roll(f):
    out = {n: f.sr(n) for n in SR}
    out.update({(n, 'Gong'): f.sr(n, 'Gong') for n in SR[1:3]})
    return out


@prop('C11', 'epsilon_1H = -dlnH/dN and epsilon_{n+1}H = dln(epsilon_n)/dN; Gong variants are '
      '(d/dt)^n epsilon_1 / H^n; delta_n = (d^{n+1} phi/dt^{n+1})/(H^n dphi/dt) - all as formal '
      'derivatives along the flow, in both parametrisations, including the epsilon_3 absolute value.', 56)
def c11(ctx):
    for kind in KINDS:
        key = 'T' if kind == 't' else 'N'
        with ctx.guard(key + '.slowroll'):
          for f, sr in flows(ctx, key + '.slowroll', kind, slow_roll):
            def dt(t):       # cosmic time derivative
                return f.D(t) if kind == 't' else T.mul(f.H, f.D(t))

            def dN(t):
                return T.div(f.D(t), f.H) if kind == 't' else f.D(t)
            e1, e2, e3 = sr['get_epsilon_1H'], sr['get_epsilon_2H'], sr['get_epsilon_3H']
            g2, g3 = sr['get_epsilon_2H', 'Gong'], sr['get_epsilon_3H', 'Gong']
            dphidt = DPHI if kind == 't' else T.mul(f.H, DPHI)
            p2 = dt(dphidt)
            p3 = dt(p2)
            p4 = dt(p3)
            obs = [
                ('get_epsilon_1H', '', e1, T.neg(T.div(dN(f.H), f.H)), 'epsilon_1H is not -dlnH/dN'),
                ('get_epsilon_2H', '', e2, T.div(dN(e1), e1), 'epsilon_2H is not dln(epsilon_1)/dN'),
                ('get_epsilon_3H', '', e3, T.div(dN(e2), e2), 'epsilon_3H is not dln(epsilon_2)/dN'),
                ('get_epsilon_2H', '[Gong]', g2, T.div(dt(e1), f.H), 'Gong e2 is not de1/dt/H'),
                ('get_epsilon_3H', '[Gong]', g3, T.div(dt(dt(e1)), T.power(f.H, 2)), 'Gong e3 is not d2e1/dt2/H^2'),
                ('get_delta_1', '', sr['get_delta_1'], T.div(p2, T.mul(f.H, dphidt)), 'delta_1'),
                ('get_delta_2', '', sr['get_delta_2'], T.div(p3, T.mul(T.power(f.H, 2), dphidt)), 'delta_2'),
                ('get_delta_3', '', sr['get_delta_3'], T.div(p4, T.mul(T.power(f.H, 3), dphidt)), 'delta_3'),
            ]
            for name, tag, a, b, msg in obs:
                for d in domains(ctx):
                    ctx.equal('%s.%s%s' % (key, name, tag), a, b, f.loc(name), msg + ' mismatch', dom=d)


@prop('C10', 'With phi_t = H phi_N substituted, every state function (H2, V, dVdphi, d2Vdphi2, w, inflating) '
      'and every slow-roll parameter of the e-fold equations has the same value number as in the cosmic-time '
      'equations; the two right-hand sides are related by dt/dN = 1/H on every tracked variable.', 64)
def c10(ctx):
    i = ctx.interp()
    states = ('H2', 'V', 'dVdphi', 'd2Vdphi2', 'w', 'inflating')

    def run(it):
        ft = Flow(it, 't', equations(it, 't', track_eta=True))
        fn = Flow(it, 'N', equations(it, 'N', track_eta=True, track_time=True))
        vals = [{n: T.lift(call(it, f.eq, n, f.x, f.y)) for n in states} for f in (ft, fn)]
        return ft, fn, vals, [slow_roll(f) for f in (ft, fn)], [rhs(f) for f in (ft, fn)]
    with ctx.guard('agreement'):
        for ft, fn, (vt, vn), (st, sn), (rt, rn) in ctx.paths('agreement', i, run, where(i.get('%s:%s' % KINDS['N']))):
            # the N-state written in terms of the t-state: dphi_N = dphi_t / H_t
            sub = {DPHI: T.div(DPHI, ft.H)}
            doms = domains(ctx)
            for name in states:
                for d in doms:
                    ctx.equal(name, vt[name], T.substitute(vn[name], sub), fn.loc(name),
                              '%s differs between time and e-fold equations' % name, dom=d)
            for k in st:
                name = k if isinstance(k, str) else k[0]
                for d in doms:
                    ctx.equal(name + ('' if name == k else '[Gong]'), st[k], T.substitute(sn[k], sub), fn.loc(name),
                              'slow-roll parameter differs between time and e-fold equations', dom=d)
            Hn = T.substitute(fn.H, sub)
            for d in doms:
                for name in ('phi', 'eta'):
                    ctx.equal('rhs.' + name, T.div(rt[name], ft.H), T.substitute(rn[name], sub), fn.loc('__call__'),
                              'd%s/dN is not (d%s/dt)/H' % (name, name), dom=d)
                ctx.equal('rhs.t', T.mul(T.substitute(rn['t'], sub), Hn), T.num(1), fn.loc('__call__'),
                          'dt/dN is not 1/H', dom=d)
                ctx.equal('rhs._N', rt['_N'], ft.H, ft.loc('__call__'), 'dN/dt is not H', dom=d)
                # d/dN (dphi_t) = d/dN (H dphi_N)
                lhs = T.div(rt['dphidt'], ft.H)
                rr = T.add(T.mul(T.mul(Hn, T.substitute(D_lnH(fn), sub)), T.substitute(DPHI, sub)),
                           T.mul(Hn, T.substitute(rn['dphidN'], sub)))
                ctx.equal('rhs.dphi', lhs, rr, fn.loc('__call__'), 'field acceleration differs', dom=d)


def rhs(f):
    x, y, ix = f.x, f.y, idx_of(f.i, f.eq)
    dy = f.i.call(f.eq, [x, y], {})
    return {n: T.lift(f.i.getitem(dy, T.num(p))) for n, p in ix.items()}


@prop('C12', 'In every tracking configuration the right-hand side assigns every state component exactly its '
      'flow derivative: phi\'=dphi, dphi\'=Klein-Gordon, N\'=H, t\'=1/H, eta\'=exp(-N)[/H]; the field '
      'accessor reads the same component, and the state index is a bijection onto 0..n-1.', 90)
def c12(ctx):
    for kind in KINDS:
        confs = [{'track_eta': e} for e in (False, True)]
        if kind == 'N':
            confs = [dict(c, track_time=t) for c in confs for t in (False, True)]
        confs.append({})          # tracking has to be asked for
        for conf in confs:
            tag = '%s[%s]' % (kind, ','.join(k for k, v in conf.items() if v) if conf else 'default')
            with ctx.guard(tag):
                def run(f):
                    ix, iv = idx_of(f.i, f.eq), f.i.getattr(f.eq, 'independent_variable')
                    acc = {n: T.lift(call(f.i, f.eq, n, f.x, f.y)) for n in list(ix) + [iv]}
                    yl = list(f.y.elems)
                    r = rhs(f)
                    return ix, iv, acc, r, list(f.y.elems) == yl and not f.y.stores
                for f, (ix, iv, acc, r, pure) in flows(ctx, tag, kind, run, **conf):
                    want = {'phi', 'dphidt', '_N'} if kind == 't' else {'phi', 'dphidN'}
                    want |= {n for n, k in (('t', 'track_time'), ('eta', 'track_eta')) if conf.get(k)}
                    ctx.ok(tag + '.index', sorted(ix.values()) == list(range(len(ix))) and set(ix) == want,
                           f.loc('__init__'), 'state index %s is not a bijection for %s' % (ix, sorted(want)))
                    ctx.ok(tag + '.x', iv == ('t' if kind == 't' else '_N'), f.loc('__init__'),
                           'independent variable is %s' % iv)
                    for n in acc:
                        exp = f.x if n == iv else f.y.elems[ix[n]]
                        ctx.equal('%s.accessor.%s' % (tag, n), acc[n], exp, f.loc('__init__'),
                                  'accessor %s reads something else' % n, dom=domains(ctx)[0])
                    dphi = 'dphidt' if kind == 't' else 'dphidN'
                    emN = T.fn('exp', T.neg(NN))
                    exp = {'phi': DPHI, dphi: f.d2phi, '_N': f.H, 't': T.div(1, f.H),
                           'eta': emN if kind == 't' else T.div(emN, f.H)}
                    for n in ix:
                        for d in domains(ctx):
                            ctx.equal('%s.rhs.%s' % (tag, n), r[n], exp[n], f.loc('__call__'),
                                      'derivative of %s is wrong' % n, dom=d)
                    ctx.ok(tag + '.no-mutation', pure, f.loc('__call__'),
                           'the right-hand side modifies its input state')


@prop('C13', 'w = p/rho; the inflation diagnostic equals -(3/2)(w+1/3)rho and 3(dH/dt+H^2), i.e. '
      'inflating>0 iff w<-1/3 iff the expansion accelerates, in both parametrisations and for any curvature.', 24)
def c13(ctx):
    for kind in KINDS:
        key = 'T' if kind == 't' else 'N'
        with ctx.guard(key):
          for f, (w, inf) in flows(ctx, key, kind, lambda f: [T.lift(call(f.i, f.eq, n, f.x, f.y))
                                                             for n in ('w', 'inflating')]):
            dphidt = DPHI if kind == 't' else T.mul(f.H, DPHI)
            rho = T.add(T.div(T.power(dphidt, 2), 2), f.V)
            p = T.sub(T.div(T.power(dphidt, 2), 2), f.V)
            Hdot = f.dH if kind == 't' else T.mul(f.H, f.dH)
            for d in domains(ctx):
                ctx.equal(key + '.w', T.mul(w, rho), p, f.loc('w'), 'w is not p/rho', dom=d)
                ctx.equal(key + '.inflating', inf, T.mul(T.num(-1.5), T.mul(T.add(w, T.div(1, 3)), rho)),
                          f.loc('inflating'), 'inflating is not -(3/2)(w+1/3)rho', dom=d)
                ctx.equal(key + '.acceleration', inf, T.mul(3, T.add(Hdot, f.H2)), f.loc('inflating'),
                          'inflating is not 3*(dH/dt+H^2)', dom=d)
