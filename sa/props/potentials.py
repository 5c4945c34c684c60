"""C01-C07: inflationary potentials."""
import mpmath
from ..common import *  # noqa

MOD = 'primpy.potentials'
LADDER = ['V', 'dV', 'd2V', 'd3V', 'd4V']
SREPS = ['get_epsilon_1V', 'get_epsilon_2V', 'get_epsilon_3V', 'get_epsilon_4V']
PHI, LAM, N = T.sym('phi'), T.sym('Lambda'), T.sym('N')


def classes(i):
    cs = concrete_classes(i, MOD, 'InflationaryPotential')
    if len(cs) < 10:
        raise Unsupported('only %d concrete potentials found' % len(cs))
    return cs


def is_feature(i, c):
    return i.get(MOD + ':FeaturePotential') in c.mro


def method_where(i, c, name):
    a = i.class_attr(c, name)
    return where(a) if a is not None else where(c)


def value(i, c, fn, given=None):
    """All trace partitions of fn(pot) for a freshly constructed pot of class c."""
    def run(it):
        o, kw = make(it, c, given or {'Lambda': LAM})
        return fn(it, o)
    return explore(i, run)


def domains(ctx, c, extra=None):
    """Parameter ranges in which the random meanings are drawn (inside each model's physical domain)."""
    base = dict(extra or {})
    out = [base]
    if ctx.thorough:
        out.append(dict(base, phi=(2.0, 5.0)))
        out.append(dict(base, phi=(0.05, 0.4)))
        out.append(dict(base, Lambda=(0.01, 0.1)))
    return [ranges(d) for d in out]


def eq_paths(ctx, key, i, c, fn, loc, msg, extra=None):
    """fn(i, pot) -> (lhs, rhs); equal on every path and domain."""
    with ctx.guard(key, loc):
        outs = value(i, c, fn)
        for n, o in enumerate(outs):
            k = key if len(outs) == 1 else '%s[%s]' % (key, '; '.join(o.path()))
            if o.kind == 'raise':
                ctx.fail(k, loc, 'raises %s' % o.exc_name)
                continue
            _, (a, b) = path_subst(o, *o.value)
            for d in domains(ctx, c, extra):
                ctx.equal(k, a, b, loc, msg, dom=d)
            ctx.count('paths')


@prop('C01', 'For every concrete potential class, the value number of each method of the ladder '
      'V, dV, d2V, d3V, d4V is compared with the formal derivative (syntactic chain rule on the '
      'value-number terms) of the method before it; for feature potentials V must be V0*(1+F) with '
      'the ladder of F checked as well; monomials also at negative field values.', 90,
      technique='abstract interpretation to value numbers; formal differentiation; GVN by random interpretation')
def c01(ctx):
    i = ctx.interp()
    for c in classes(i):
        for lo, hi in zip(LADDER, LADDER[1:]):
            def fn(it, o, lo=lo, hi=hi):
                return T.diff(T.lift(call(it, o, lo, PHI)), {PHI: 1}), call(it, o, hi, PHI)
            loc = method_where(i, c, hi)
            eq_paths(ctx, '%s.%s' % (c.name, hi), i, c, fn, loc, '%s is not d(%s)/dphi' % (hi, lo))
            # array-valued field: same value numbers, elementwise
            def fa(it, o, hi=hi):
                a = T.sym('phi', 'a')
                return call(it, o, hi, a), call(it, o, hi, PHI)
            eq_paths(ctx, '%s.%s[array]' % (c.name, hi), i, c, fa, loc,
                     '%s of an array is not elementwise' % hi)
        mono = i.get(MOD + ':MonomialPotential')
        if mono in c.mro:
            for lo, hi in zip(LADDER, LADDER[1:]):
                def fn(it, o, lo=lo, hi=hi):
                    return T.diff(T.lift(call(it, o, lo, PHI)), {PHI: 1}), call(it, o, hi, PHI)
                loc = method_where(i, c, hi)
                if c.name == 'QuadraticPotential' or c is mono:
                    eq_paths(ctx, '%s.%s[phi<0]' % (c.name, hi), i, c, fn, loc,
                             '%s is not d(%s)/dphi for phi<0' % (hi, lo), {'phi': (-1.9, -0.7)})
        ctx.count('classes')
    # features
    fcls = concrete_classes(i, MOD, 'FeatureFunction')
    fladder = ['F', 'dF', 'd2F', 'd3F', 'd4F']
    dom = ranges({'x': (0.5, 1.5), 'x0': (0.6, 1.4), 'a': (0.1, 0.9), 'b': (0.5, 1.5)})
    xs = [T.sym(n) for n in ('x', 'x0', 'a', 'b')]
    for c in fcls:
        if is_feature(i, c):
            continue
        for lo, hi in zip(fladder, fladder[1:]):
            if i.class_attr(c, hi) is None and hi == 'd4F':
                continue
            with ctx.guard('%s.%s' % (c.name, hi), where(c)):
                a = i.call(i.getattr(c, lo), xs, {})
                b = i.call(i.getattr(c, hi), xs, {})
                ctx.equal('%s.%s' % (c.name, hi), T.diff(T.lift(a), {xs[0]: 1}), b,
                          method_where(i, c, hi), '%s is not dF/dx of %s' % (hi, lo), dom=dom)
    for c in classes(i):
        if not is_feature(i, c):
            continue
        fp = i.get(MOD + ':FeaturePotential')
        rest = c.mro[c.mro.index(fp) + 1:]
        key = '%s.V=V0*(1+F)' % c.name

        def fn(it, o, rest=rest):
            base = next(k for k in rest if isinstance(k, VClass) and 'V' in k.attrs)
            feat = next(k for k in rest if isinstance(k, VClass) and 'F' in k.attrs)
            V0 = it.call(base.attrs['V'], [o, PHI], {})
            F = it.call(it.getattr(feat, 'F'), [PHI, T.sym('phi_feature'), T.sym('a_feature'),
                                                T.sym('b_feature')], {})
            return call(it, o, 'V', PHI), T.mul(V0, T.add(1, F))
        eq_paths(ctx, key, i, c, fn, method_where(i, c, 'V'), 'V is not V0*(1+F)')


@prop('C02', 'For every concrete potential without feature, epsilon_1V = (V\'/V)^2/2 and '
      'epsilon_{n+1}V = -(V\'/V) d ln(epsilon_nV)/dphi (n=1..3) as value numbers; the Hubble-flow '
      'expansions epsilon_1..epsilon_4 in terms of opaque epsilon_nV symbols satisfy, order by order '
      'in a formal expansion parameter, eps1V = eps1*(1+eps2/(2(3-eps1)))^2 and '
      'eps_{n+1} = sqrt(eps1/eps1V) * D ln eps_n with D e_n = e_n e_{n+1}.', 40)
def c02(ctx):
    i = ctx.interp()
    for c in classes(i):
        if is_feature(i, c):
            continue
        def f1(it, o):
            V, dV = call(it, o, 'V', PHI), call(it, o, 'dV', PHI)
            return call(it, o, SREPS[0], PHI), T.div(T.power(T.div(dV, V), 2), 2)
        eq_paths(ctx, '%s.%s' % (c.name, SREPS[0]), i, c, f1, method_where(i, c, SREPS[0]),
                 'epsilon_1V is not (V\'/V)^2/2')
        for lo, hi in zip(SREPS, SREPS[1:]):
            def fn(it, o, lo=lo, hi=hi):
                e = T.lift(call(it, o, lo, PHI))
                V, dV = call(it, o, 'V', PHI), call(it, o, 'dV', PHI)
                return call(it, o, hi, PHI), T.neg(T.mul(T.div(dV, V), T.div(T.diff(e, {PHI: 1}), e)))
            eq_paths(ctx, '%s.%s' % (c.name, hi), i, c, fn, method_where(i, c, hi),
                     '%s is not -(V\'/V) d ln %s/dphi' % (hi, lo))
        ctx.count('classes')
    hubble_flow(ctx, i)


def hubble_flow(ctx, i):
    e = [T.sym('e%dV' % n) for n in range(1, 5)]
    for c in classes(i):
        # only classes that (re)define one of the expansions need their own run
        owners = tuple(id(i.class_attr(c, 'get_epsilon_%d' % n)) for n in range(1, 5))
        if owners in ctx.__dict__.setdefault('_hf', set()):
            continue
        ctx._hf.add(owners)
        loc = method_where(i, c, 'get_epsilon_1')
        with ctx.guard('%s.hubble_flow' % c.name, loc):
            o, _ = make(i, c, {'Lambda': LAM})
            for n, name in enumerate(SREPS):
                o.attrs[name] = VBuiltin(name, lambda it, a, k, n=n: e[n])
            eps = [T.lift(single(ctx, i, lambda it, n=n: call(it, o, 'get_epsilon_%d' % n, phi=PHI)))
                   for n in range(1, 5)]
            de = {e[0]: T.mul(e[0], e[1]), e[1]: T.mul(e[1], e[2]), e[2]: T.mul(e[2], e[3]), e[3]: 0}
            lhs1 = e[0]
            rhs1 = T.mul(eps[0], T.power(T.add(1, T.div(eps[1], T.mul(2, T.sub(3, eps[0])))), 2))
            rel = T.fn('sqrt', T.div(eps[0], e[0]))
            pairs = [('get_epsilon_1', lhs1, rhs1, 3)]
            for n in range(3):
                pairs.append(('get_epsilon_%d' % (n + 2), eps[n + 1],
                              T.mul(rel, T.div(T.diff(eps[n], de), eps[n])), 3 if n < 2 else 2))
            for name, a, b, order in pairs:
                bad = None
                for s in ctx.seeds():
                    base = T.Valuation(s)
                    lam = mpmath.mpf(10)**-9
                    fx = {x: base(x) * lam for x in e}
                    v = T.Valuation(s, fixed=fx)
                    d = abs(v(a) - v(b))
                    if d > 1000 * lam**(order + 1):
                        bad = 'mismatch of relative order %s' % mpmath.nstr(mpmath.log10(d), 5)
                ctx.ok('%s.%s' % (c.name, name), bad is None, method_where(i, c, name),
                       'slow-roll expansion of %s inconsistent below order %d: %s' % (name, order, bad))


def root_callbacks(outcome):
    return [e for e in outcome.trace if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar']


@prop('C03', 'phi_end of every potential: a closed form must satisfy epsilon_1V(phi_end)=1 as value '
      'numbers; a root search must search a function that vanishes exactly where epsilon_1V=1 '
      '(decided on the function body with epsilon_1V as value number) and return that root.', 16)
def c03(ctx):
    i = ctx.interp()
    X = T.sym('phi_root')
    for c in classes(i):
        loc = method_where(i, c, 'phi_end')
        key = '%s.phi_end' % c.name
        with ctx.guard(key, loc):
            def fn(it, o):
                pe = it.getattr(o, 'phi_end')
                cbs = [e for e in it.trace if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar']
                info = []
                for e in cbs:
                    f = e.data[1][0] if e.data[1] else e.data[2]['f']
                    extra = e.data[2].get('args', ())
                    br = e.data[2].get('bracket')
                    info.append((e.data[3].attrs['root'], it.call(f, [X] + list(extra), {}), br))
                return pe, call(it, o, SREPS[0], pe), call(it, o, SREPS[0], X), info, call(it, o, 'V', X)
            for o in value(i, c, fn):
                if o.kind == 'raise':
                    ctx.fail(key, loc, 'raises %s' % o.exc_name)
                    continue
                pe, e_at, e_x, info, _ = o.value
                env, (pe, e_at, e_x) = path_subst(o, pe, e_at, e_x)
                dom = ranges({'phi_root': (0.3, 2.5)})
                if not info:
                    for d in domains(ctx, c):
                        ctx.equal(key, e_at, T.num(1), loc, 'epsilon_1V(phi_end) != 1', dom=d)
                    ctx.equal(key + '.positive', T.fn('sign', T.lift(pe)), T.num(1), loc,
                              'phi_end is not positive', dom=dom)
                    continue
                ctx.count('root_searches')
                ok = False
                for root, f, br in info:
                    f = T.substitute(T.lift(f), env)
                    if T.lift(pe) is root:
                        # f vanishes where eps=1: f - (eps-1)*g = 0; accept f == g(eps) with g(1)=0
                        same = T.equal(f, T.sub(e_x, 1), dom=dom, seeds=ctx.seeds())[0]
                        opp = T.equal(f, T.sub(1, e_x), dom=dom, seeds=ctx.seeds())[0]
                        E = T.sym('E')
                        g = T.substitute(f, {T.lift(e_x): E})
                        gen = False
                        if not (same or opp) and X not in T.symbols(g):
                            at1 = T.Valuation('s', fixed={E: mpmath.mpf(1)})(g)
                            hi = T.Valuation('s', fixed={E: mpmath.mpf(2)})(g)
                            lo = T.Valuation('s', fixed={E: mpmath.mpf('0.5')})(g)
                            gen = abs(at1) < 1e-30 and mpmath.sign(hi) * mpmath.sign(lo) < 0
                        ok = ok or same or opp or gen
                        if br is not None:
                            a, b = [T.lift(x) for x in i.iterate(br)]
                            ctx.ok(key + '.bracket', straddles(ctx, f, X, a, b, env), loc,
                                   'the search interval does not bracket the end of inflation')
                    else:
                        ctx.ok(key + '.returned', False, loc, 'the returned value is not the root found')
                ctx.ok(key, ok, loc, 'the searched function does not vanish exactly where epsilon_1V=1')


def straddles(ctx, f, X, a, b, env):
    for s in ctx.seeds():
        v = T.Valuation(s, dom=ranges())
        va, vb = v(T.substitute(a, env)), v(T.substitute(b, env))
        fa = T.Valuation(s, dom=ranges(), fixed={X: va})(f)
        fb = T.Valuation(s, dom=ranges(), fixed={X: vb})(f)
        if mpmath.sign(fa) * mpmath.sign(fb) >= 0:
            return False
    return True


def inflating_ranges(c):
    """Field values on the inflating side of phi_end for each model, used for inverse checks."""
    r = {'StarobinskyPotential': {'phi': (2.0, 5.5)}, 'TmodelPotential': {'phi': (3.0, 6.0)},
         'NaturalPotential': {'phi': (2.0, 5.0), 'N': (5, 20)},
         'RadionGaugePotential': {'phi': (2.5, 4.0)}, 'RadionGauge2Potential': {'phi': (2.5, 4.0)}}
    d = {'phi': (4.0, 6.0)}
    for k in c.mro:
        if isinstance(k, VClass) and k.name in r:
            d = dict(d, **r[k.name])
            break
    return d


@prop('C04', 'Slow-roll e-folds: dN/dphi of sr_phi2N is V/V\' (formal derivative of the value number), '
      'sr_phi2N(phi_end)=0, sr_N2phi is its inverse (composition of value numbers; for table or root '
      'based inverses the table abscissae/searched function are the value number of sr_phi2N), and the '
      'deprecated phi2efolds agrees with sr_phi2N.', 45)
def c04(ctx):
    i = ctx.interp()
    X, Y = T.sym('phi_root'), T.sym('phi', 's')
    for c in classes(i):
        if is_feature(i, c):
            continue
        loc = method_where(i, c, 'sr_phi2N')
        ext = inflating_ranges(c)

        def fd(it, o):
            n = T.lift(call(it, o, 'sr_phi2N', PHI))
            return T.diff(n, {PHI: 1}), T.div(call(it, o, 'V', PHI), call(it, o, 'dV', PHI))
        eq_paths(ctx, '%s.dN/dphi' % c.name, i, c, fd, loc, 'dN/dphi is not V/V\'', ext)

        def fe(it, o):
            return T.lift(call(it, o, 'sr_phi2N', it.getattr(o, 'phi_end'))), T.num(0)
        key = '%s.sr_phi2N(phi_end)' % c.name
        with ctx.guard(key, loc):
            for o in value(i, c, fe):
                if o.kind == 'raise':
                    ctx.fail(key, loc, 'raises %s' % o.exc_name)
                    continue
                _, (a, b) = path_subst(o, *o.value)
                bad = None
                for s in ctx.seeds():
                    v = T.Valuation(s, dom=ranges(dict(ext, **{'root': (1.0, 1.4)})))(a)
                    if abs(v) > 1e-25:
                        bad = mpmath.nstr(v, 8)
                ctx.ok(key, bad is None, loc, 'N(phi_end) is %s, not 0' % bad)
        # inverse
        locI = method_where(i, c, 'sr_N2phi')
        key = '%s.sr_N2phi' % c.name
        with ctx.guard(key, locI):
            def fi(it, o):
                phi = call(it, o, 'sr_N2phi', N)
                evs = [e for e in it.trace if e.kind in ('ext', 'interp_eval')]
                return phi, evs, o
            for o in value(i, c, fi):
                if o.kind == 'raise':
                    ctx.fail(key, locI, 'raises %s' % o.exc_name)
                    continue
                phi, evs, pot = o.value
                env, (phi,) = path_subst(o, phi)
                ie = [e for e in evs if e.kind == 'interp_eval' and T.lift(phi) is e.data[2]]
                npi = [e for e in evs if e.kind == 'ext' and e.data[0] == 'numpy.interp' and T.lift(phi) is e.data[3]]
                rs = [e for e in evs if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar'
                      and e.data[3].attrs['root'] is T.lift(phi)]
                k = key if not o.decisions else '%s[%s]' % (key, '; '.join(o.path()))
                dom = ranges(dict(ext, phi_root=ext['phi'], root=(1.0, 1.4), **{'numpy.linspace': (4.0, 5.5)}))

                def run_n(x, path=[v for _, v in o.decisions]):
                    i.reset(path)
                    return T.substitute(T.lift(call(i, pot, 'sr_phi2N', x)), env)
                if ie or npi:
                    if ie:
                        it_, arg, _ = ie[-1].data
                        xs, ys = it_.attrs['x'], it_.attrs['y']
                    else:
                        arg, xs, ys = npi[-1].data[1][:3]
                    ctx.ok(k + '.arg', T.lift(arg) is N, locI, 'inverse table evaluated at %s' % show(arg))
                    ctx.equal(k, T.substitute(T.lift(xs), env), run_n(ys), locI,
                              'inverse table does not tabulate sr_phi2N', dom=dom)
                elif rs:
                    f = rs[0].data[1][0]
                    extra = list(rs[0].data[2].get('args', ()))
                    fx = T.substitute(T.lift(i.call(f, [X] + extra, {})), env)
                    nx = run_n(X)
                    a = T.equal(fx, T.sub(nx, N), dom=dom, seeds=ctx.seeds())[0]
                    b = T.equal(fx, T.sub(N, nx), dom=dom, seeds=ctx.seeds())[0]
                    ctx.ok(k, a or b, locI, 'searched function is not sr_phi2N(phi)-N')
                else:
                    ctx.equal(k, run_n(phi), N, locI, 'sr_phi2N(sr_N2phi(N)) != N', dom=dom)
                    back = T.substitute(phi, {N: run_n(PHI)})
                    ctx.equal(k + '.back', back, PHI, locI, 'sr_N2phi(sr_phi2N(phi)) != phi', dom=dom)
        # deprecated sibling
        if i.class_attr(c, 'phi2efolds') is not None:
            locD = method_where(i, c, 'phi2efolds')
            key = '%s.phi2efolds' % c.name

            def fdep(it, o):
                f = it.getattr(o, 'phi2efolds')
                fn = func_of(f)
                names = [a.arg for a in fn.node.args.args]
                args = [PHI] + ([it.getattr(o, 'phi0')] if 'phi0' in names else [])
                old = it.call(f, args, {})
                return T.diff(T.lift(old), {PHI: 1}), T.div(call(it, o, 'V', PHI), call(it, o, 'dV', PHI)), old, it.getattr(o, 'phi_end')
            with ctx.guard(key, locD):
                outs = [o for o in value(i, c, fdep) if o.kind == 'return']
                ctx.ok(key + '.accepts', len(outs) >= 1, locD, 'rejects every field value')
                for o in outs:
                    env, (a, b, old, pe) = path_subst(o, *o.value)
                    ctx.equal(key, a, b, locD, 'phi2efolds disagrees with sr_phi2N (slope)', dom=ranges(ext))
                    if not any(s.args[0].startswith('root#') for s in T.symbols(T.lift(pe))):
                        at_end = T.substitute(old, {PHI: pe})
                        bad = [v for v in (T.Valuation(s, dom=ranges(ext))(at_end) for s in ctx.seeds()) if abs(v) > 1e-25]
                        ctx.ok(key + '.zero', not bad, locD, 'phi2efolds does not vanish at phi_end: %s' % bad)
                    else:
                        # the zero of N must lie where epsilon_1V = 1
                        i.reset([])
                        pot, _ = make(i, c, {'Lambda': LAM})
                        bad = zero_at_eps1(i, pot, old, env)
                        ctx.ok(key + '.zero', bad is None, locD, 'phi2efolds does not vanish at phi_end: %s' % bad)
        ctx.count('classes')


def zero_at_eps1(i, pot, old, env):
    """Where epsilon_1V crosses 1, the e-fold term vanishes (evaluated on the terms)."""
    e1 = T.substitute(T.lift(call(i, pot, SREPS[0], PHI)), env)
    for s in ('a', 'b'):
        v0 = T.Valuation(s, dom=ranges())
        phi0 = v0(T.sym('phi0'))
        f = lambda x: T.Valuation(s, dom=ranges(), fixed={PHI: x})(e1) - 1  # noqa
        lo, hi = phi0 * mpmath.mpf(10)**-6, phi0 * (1 - mpmath.mpf(10)**-6)
        for _ in range(160):
            mid = (lo + hi) / 2
            if mpmath.sign(f(mid)) == mpmath.sign(f(lo)):
                lo = mid
            else:
                hi = mid
        r = T.Valuation(s, dom=ranges(), fixed={PHI: (lo + hi) / 2})(old)
        if abs(r) > 1e-20:
            return mpmath.nstr(r, 8)
    return None


@prop('C05', 'Slow-roll maps between N_star and n_s, r: the value numbers of sr_ns2Nstar(sr_Nstar2ns(N)) '
      'and sr_r2Nstar(sr_Nstar2r(N)) are N (and conversely); specialised classes agree with the general '
      'class at their exponent; n_s and r agree with 1-2*eps1-eps2 and 16*eps1 at sr_N2phi(N) at leading '
      'order in 1/N (terms evaluated at growing N).', 40)
def c05(ctx):
    i = ctx.interp()
    Ns = T.sym('N_star')
    for c in classes(i):
        if is_feature(i, c) or i.class_attr(c, 'sr_Nstar2ns') is None:
            continue
        o, kw = make(i, c, {'Lambda': LAM})
        par = {k: v for k, v in kw.items() if k != 'Lambda'}
        loc = where(i.class_attr(c, 'sr_Nstar2ns'))
        # the general-exponent relation holds with the parameters of this class
        for fwd, inv, lo, hi, x in (('sr_Nstar2ns', 'sr_ns2Nstar', 0.9, 0.97, 'n_s'),
                                    ('sr_Nstar2r', 'sr_r2Nstar', 0.01, 0.2, 'r')):
            key = '%s.%s' % (c.name, inv)
            li = where(i.class_attr(c, inv))
            X = T.sym(x)
            dom = ranges({'phi0': (30.0, 60.0), x: (lo, hi)})

            def acc(f, arg):
                """single accepted path"""
                outs = explore(i, lambda it: it.call(it.getattr(c, f), [arg], dict(par)))
                good = [o for o in outs if o.kind == 'return']
                if len(good) != 1:
                    raise Unsupported('%d accepting paths' % len(good))
                return good[0].value
            with ctx.guard(key, li):
                ctx.equal(key, acc(inv, acc(fwd, Ns)), Ns, li, '%s(%s(N)) != N' % (inv, fwd), dom=dom)
                ctx.equal('%s.%s' % (c.name, fwd), acc(fwd, acc(inv, X)), X, where(i.class_attr(c, fwd)),
                          '%s(%s(x)) != x' % (fwd, inv), dom=dom)
            # every number of e-folds survives the round trip (no path rejects what the map itself yields)
            with ctx.guard(key + '.total', li):
                outs = explore(i, lambda it: it.call(it.getattr(c, inv), [it.call(it.getattr(c, fwd), [Ns], dict(par))], dict(par)))
                wide = ranges({'phi0': (9.0, 90.0, 'log'), 'N_star': (2.0, 200.0, 'log'), 'p': (0.4, 7.0), 'alpha': (0.02, 50., 'log')})
                for j in range(400 if ctx.thorough else 120):
                    v = T.Valuation('%s.total.%d' % (ctx.seed, j), dom=wide)
                    mine = pick(outs, v)
                    ctx.ok(key + '.total', len(mine) == 1 and mine[0].kind == 'return' and same(v(T.lift(mine[0].value)), v(Ns), 1e-12), li,
                           '%s(%s(N)) is not N at N=%s, %s' % (inv, fwd, mpmath.nstr(v(Ns), 5), {k: mpmath.nstr(v(T.lift(x)), 5) for k, x in par.items()}))
        # physics: agreement with slow roll at leading order in 1/N
        with ctx.guard('%s.slow_roll' % c.name, loc):
            big = T.sym('Nbig')

            def fphys(it):
                oo, _ = make(it, c, {'Lambda': LAM})
                phi = call(it, oo, 'sr_N2phi', big)
                e1, e2 = call(it, oo, SREPS[0], phi), call(it, oo, SREPS[1], phi)
                return (T.add(T.mul(2, e1), e2), T.sub(1, it.call(it.getattr(c, 'sr_Nstar2ns'), [big], dict(par))),
                        T.mul(16, e1), it.call(it.getattr(c, 'sr_Nstar2r'), [big], dict(par)))
            for o in explore(i, fphys):
                if o.kind != 'return':
                    ctx.fail('%s.slow_roll' % c.name, loc, 'raises %s' % o.exc_name)
                    continue
                a, b, cc, d = o.value
                for nm, x, y in (('ns', a, b), ('r', cc, d)):
                    ctx.ok('%s.%s_leading' % (c.name, nm), leading(ctx, x, y, big), loc,
                           '%s does not agree with slow roll at leading order in 1/N' % nm)
        for k in c.mro[1:]:
            if isinstance(k, VClass) and i.class_attr(k, 'sr_Nstar2ns') is not None and not i.abstract_names(k):
                for f, x in (('sr_Nstar2ns', Ns), ('sr_ns2Nstar', T.sym('n_s')), ('sr_Nstar2r', Ns),
                             ('sr_r2Nstar', T.sym('r'))):
                    fn = i.class_attr(c, f)
                    key = '%s.%s=general' % (c.name, f)
                    with ctx.guard(key, where(fn)):
                        p = i.getattr(o_of(i, c), 'p')
                        ctx.equal(key, i.call(i.getattr(c, f), [x], {}), i.call(i.getattr(k, f), [x], {'p': p}),
                                  where(fn), 'specialised formula differs from the general one',
                                  dom=ranges({'n_s': (0.9, 0.97), 'r': (0.01, 0.2)}))
        ctx.count('classes')


def o_of(i, c):
    return make(i, c, {'Lambda': LAM})[0]


def leading(ctx, x, y, big):
    for s in ctx.seeds():
        v = T.Valuation(s, dom=ranges({'phi0': (5.0, 8.0)}))
        errs = []
        for n in (3, 6):
            fx = {big: mpmath.mpf(10)**n, T.sym('phi0'): mpmath.mpf(10)**(n / mpmath.mpf(2)) * v(T.sym('phi0'))}
            w = T.Valuation(s, fixed=fx)
            xv, yv = w(T.lift(x)), w(T.lift(y))
            if xv == 0:
                errs.append(abs(yv))
            else:
                errs.append(abs(yv / xv - 1))
        if not (errs[1] < 1e-4 and errs[1] <= max(errs[0] / 50, mpmath.mpf(10)**-20)):
            return False
    return True


@prop('C06', 'Amplitude: V(phi;Lambda)/Lambda^4, all epsilon_nV, phi_end and sr_phi2N do not depend on '
      'Lambda; inv_V is the inverse of V; sr_As2Lambda returns the Lambda for which V/(24 pi^2 eps1) at '
      'the pivot field equals A_s (both for N_star and phi_star input, rejecting both/none); the '
      'constructor with A_s stores that Lambda for every class and rejects unknown keyword arguments.',
      220)
def c06(ctx):
    i = ctx.interp()
    L2 = T.sym('Lambda2')
    As, Ns, Ps = T.sym('A_s'), T.sym('N_star'), T.sym('phi_star')
    for c in classes(i):
        feat = is_feature(i, c)
        ext = dict(inflating_ranges(c), Lambda2=(1.5, 2.5))
        # scaling
        for name in LADDER:
            def fs(it, o, name=name):
                o2, _ = make(it, c, {'Lambda': L2})
                return (T.mul(call(it, o, name, PHI), T.power(L2, 4)),
                        T.mul(call(it, o2, name, PHI), T.power(LAM, 4)))
            eq_paths(ctx, '%s.%s~Lambda^4' % (c.name, name), i, c, fs, method_where(i, c, name),
                     '%s does not scale as Lambda^4' % name, {'Lambda2': (1.5, 2.5)})
        for name in SREPS + ['phi_end', 'sr_phi2N', 'sr_N2phi']:
            loc = method_where(i, c, name)
            key = '%s.%s independent of Lambda' % (c.name, name)
            with ctx.guard(key, loc):
                def ff(it, o, name=name):
                    if name == 'phi_end':
                        return it.getattr(o, name)
                    return call(it, o, name, N if name == 'sr_N2phi' else PHI)
                for o in value(i, c, ff):
                    if o.kind == 'raise':
                        ctx.fail(key, loc, 'raises %s' % o.exc_name)
                        continue
                    v = T.lift(o.value) if not isinstance(o.value, VInst) else None
                    ok = v is None or LAM not in T.symbols(v)
                    if not ok:
                        w = T.substitute(v, {LAM: L2})
                        ctx.equal(key, v, w, loc, 'depends on the amplitude Lambda', dom=ranges(ext))
                    else:
                        ctx.ok(key, True, loc)
        # inverse
        if not feat:
            def fv(it, o):
                return call(it, o, 'inv_V', call(it, o, 'V', PHI)), PHI
            eq_paths(ctx, '%s.inv_V' % c.name, i, c, fv, method_where(i, c, 'inv_V'), 'inv_V(V(phi)) != phi')
        # A_s
        loc = method_where(i, c, 'sr_As2Lambda')
        for mode in ('N_star', 'phi_star'):
            key = '%s.sr_As2Lambda(%s)' % (c.name, mode)
            with ctx.guard(key, loc):
                def fa(it, o, mode=mode):
                    kw = {'A_s': As, 'N_star': None, 'phi_star': None}
                    kw[mode] = Ns if mode == 'N_star' else Ps
                    L, ps, ns = it.iterate(call(it, o, 'sr_As2Lambda', **kw))
                    o2, _ = make(it, c, {'Lambda': L})
                    amp = T.div(call(it, o2, 'V', ps), T.mul(T.mul(24, T.power(T.PI, 2)), call(it, o2, SREPS[0], ps)))
                    other = (call(it, o, 'sr_N2phi', Ns) if mode == 'N_star' else call(it, o, 'sr_phi2N', Ps))
                    return L, amp, (ps if mode == 'N_star' else ns), other, (ns if mode == 'N_star' else ps)
                for o in value(i, c, fa):
                    if o.kind == 'raise':
                        ctx.fail(key, loc, 'raises %s' % o.exc_name)
                        continue
                    L, amp, oth, want, same = o.value
                    env, (amp, oth, want) = path_subst(o, amp, oth, want)
                    dom = ranges(dict(ext, phi_star=ext['phi'], N_star=ext.get('N', (20, 60)), root=(2.0, 4.0), interp=(4.0, 5.0)))
                    ctx.equal(key, amp, As, loc, 'slow-roll amplitude at the pivot is not A_s', dom=dom)
                    ctx.equal(key + '.other', root_anon(oth), root_anon(want), loc,
                              'returned %s does not follow from the input' % ('phi_star' if mode == 'N_star' else 'N_star'), dom=dom)
                    ctx.ok(key + '.same', T.lift(same) is (Ns if mode == 'N_star' else Ps), loc, 'input not returned unchanged')
        key = '%s.sr_As2Lambda(both)' % c.name
        with ctx.guard(key, loc):
            outs = value(i, c, lambda it, o: call(it, o, 'sr_As2Lambda', A_s=As, N_star=Ns, phi_star=Ps))
            ctx.ok(key, all(o.kind == 'raise' for o in outs), loc, 'accepts both N_star and phi_star')
        # constructor
        locI = method_where(i, c, '__init__')
        for given in ({'A_s': As, 'N_star': Ns}, {'A_s': As, 'phi_star': Ps}, {'A_s': As, 'N_star': Ns, 'Lambda': LAM}):
            key = '%s(%s)' % (c.name, ','.join(given))
            with ctx.guard(key, locI):
                def fc(it, given=given):
                    o, kw = make(it, c, given)
                    o1, _ = make(it, c, {'Lambda': 1})
                    L, _, _ = it.iterate(call(it, o1, 'sr_As2Lambda', A_s=As, N_star=given.get('N_star'), phi_star=given.get('phi_star')))
                    return it.getattr(o, 'Lambda'), L
                for o in explore(i, fc):
                    if o.kind == 'raise':
                        ctx.fail(key, locI, 'raises %s' % o.exc_name)
                        continue
                    env, (a, b) = path_subst(o, *[T.lift(x) for x in o.value])
                    dom = ranges(dict(ext, phi_star=ext['phi'], N_star=ext.get('N', (20, 60)), root=(2.0, 4.0), interp=(4.0, 5.0)))
                    ctx.equal(key, root_anon(a), root_anon(b), locI, 'Lambda is not inferred from A_s', dom=dom)
        for given, what in (({'Lambda': LAM, 'no_such_parameter': 1}, 'unknown keyword'), ({'A_s': As}, 'A_s alone')):
            key = '%s rejects %s' % (c.name, what)
            with ctx.guard(key, locI):
                def fr(it, given=given):
                    return make(it, c, given)
                outs = explore(i, fr)
                ctx.ok(key, all(o.kind == 'raise' for o in outs), locI, 'accepts ' + what)
        ctx.count('classes')


def root_anon(t):
    """Two searches for the same function give the same root: forget the numbering of roots."""
    env = {s: T.sym('root') for s in T.symbols(t) if s.args[0].startswith('root#')} if isinstance(t, Term) else {}
    return T.substitute(t, env)
