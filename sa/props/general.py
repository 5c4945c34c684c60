"""C08, C36, C39: absence of memory and side effects, errors and warnings, units and parameters."""
import ast
import itertools
import builtins
from ..bg import *  # noqa
from ..report import exc_text
from .calibration import consts


# ------------------------------------------------------------------ C08
def params_of(f):
    """Names of (required, optional) parameters of a method after self."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = names[:len(names) - nd]
    opt = names[len(names) - nd:] + [x.arg for x in a.kwonlyargs]
    return req[1:], opt


def methods_with(i, c, want):
    """Public methods of c (own or inherited) whose required parameters are exactly `want`."""
    out = []
    seen = set()
    for k in c.mro:
        if not isinstance(k, VClass):
            continue
        for n, f in k.attrs.items():
            if n in seen:
                continue
            seen.add(n)
            if isinstance(f, VFunc) and (not n.startswith('_') or n in ('__call__', '_N')) and tuple(params_of(f)[0]) == tuple(want):
                out.append(n)
    return out


def result(i, f):
    """Value or the name of the error raised."""
    try:
        r = f()
    except PyRaise as e:
        return 'raises ' + e.value.name
    if isinstance(r, (tuple, list)):
        return [T.lift(x) if not isinstance(x, (str, type(None))) else x for x in r]
    if isinstance(r, VArray):
        return [T.lift(x) if isinstance(x, Term) else x for x in i.iterate(r)]
    return T.lift(r) if isinstance(r, (Term, int, Fraction, bool)) else r


def compatible(o, p):
    """Can both trace partitions describe the same inputs (as far as their decisions show)?"""
    d = dict(o.decisions)
    return all(d.get(c, v) == v for c, v in p.decisions)


def compare(ctx, key, got, want, loc, msg, dom, path=()):
    if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        for a, b in zip(got, want):
            if isinstance(a, Term) and isinstance(b, Term):
                ctx.equal(key, a, b, loc, msg, dom=dom, path=[(c, v) for c, v in path if isinstance(c, Term)])
        return
    if isinstance(got, Term) and isinstance(want, Term):
        ctx.equal(key, got, want, loc, msg, dom=dom, path=[(c, v) for c, v in path if isinstance(c, Term)])
    else:
        ctx.ok(key, got is want or type(got) is type(want) and (got == want or not isinstance(got, str)), loc, msg)


def against_fresh(ctx, i, key, loc, fresh, run, check):
    """Explore `run`, and for each of its partitions check(value, {tag: value of fresh[tag]}, decisions).

    Every function is explored from the state right after the import of the package.
    """
    alone = {}
    for tag, f in fresh.items():
        alone[tag] = explore(i, f)
    for o in explore(i, run):
        if o.kind == 'raise':
            ctx.fail(key + '.raises', loc, 'raises %s' % exc_text(o.value))
            continue
        for combo in itertools.product(*alone.values()):
            if all(compatible(o, p) for p in combo):
                if all(p.kind == 'return' for p in combo):
                    check(o.value, {t: p.value for t, p in zip(alone, combo)}, list(o.decisions) + [d for p in combo for d in p.decisions])
                else:
                    ctx.fail(key + '.raises', loc, 'raises')


def eq_state(i, eq, kind, change=None):
    """State vector, optionally with one component (or x) replaced."""
    x, y, ix = state(i, eq, kind)
    if change == 'x':
        x = T.sym(x.args[0] + '#2')
    elif change is not None:
        p = ix[change]
        y.elems[p] = T.sym(y.elems[p].args[0] + '#2')
    return x, y


def memory_of_equations(ctx, kind, Kv, conf):
    key = '%s[%s].K%+d' % (kind, ','.join(k for k, v in conf.items() if v), Kv)
    mod, cls = KINDS[kind]

    def dom(t):
        return domain()(T.sym(t.args[0].split('#')[0])) if t.op == 'sym' else domain()(t)
    base = ctx.interp()
    c = base.get(mod + ':' + cls)
    names = methods_with(base, c, ('x', 'y'))
    ctx.ok(key + '.methods', len(names) >= 8, where(c), 'only %d methods of the state' % len(names))
    comps = ['x'] + sorted(idx_of(base, equations(base, kind, K=Kv, **conf)))
    for change in comps:
        def fresh(it, second):
            out = {}
            for n in names:         # each value from equations that have never been evaluated
                eq = equations(it, kind, K=Kv, **conf)
                out[n] = result(it, lambda: it.call(it.getattr(eq, n), list(eq_state(it, eq, kind, change if second else None)), {}))
            return out

        def run(it):
            eq = equations(it, kind, K=Kv, **conf)
            A = eq_state(it, eq, kind)
            B = eq_state(it, eq, kind, change)
            snap = [list(s[1].elems) for s in (A, B)]
            pot2 = VInst(VExternal('opaque.potential'), name='another potential')
            for q, f in zip(('V', 'dV', 'd2V', 'd3V'), VNAMES[1:]):
                pot2.attrs[q] = VBuiltin(q, lambda it, a, k, f=f: T.app(f, [T.lift(a[0])], pointwise=True))
            others = [equations(it, kind, K=-Kv if Kv else 1, **conf), it.call(c, [], dict(conf, K=Kv, potential=pot2))]
            for other in others:        # must not interfere
                for n in names:
                    result(it, lambda: it.call(it.getattr(other, n), list(B), {}))
                    result(it, lambda: it.call(it.getattr(other, n), list(A), {}))
            got = {}
            for tag, s in (('A', A), ('B', B), ('A2', A)):
                for n in names:
                    got[n, tag] = result(it, lambda: it.call(it.getattr(eq, n), list(s), {}))
            same_args = all(a is b for s, q in zip((A, B), snap) for a, b in zip(s[1].elems, q)) and \
                all(len(s[1].elems) == len(q) for s, q in zip((A, B), snap))
            return got, same_args

        def check(value, alone, path):
            got, same_args = value
            ctx.ok('%s.%s.arguments' % (key, change), same_args, where(c), 'evaluation modifies the state vector')
            for (n, tag), g in got.items():
                compare(ctx, '%s.%s' % (key, n), g, alone[tag[0]][n], where(base.class_attr(c, n)),
                        '%s depends on what was evaluated before (states that differ in %s)' % (n, change), dom, path)
        against_fresh(ctx, base, key, where(c), {'A': lambda it: fresh(it, False), 'B': lambda it: fresh(it, True)}, run, check)


def memory_of_potentials(ctx):
    i = ctx.interp()

    def dom(t):
        return RANGES.get(t.args[0].split('#')[0]) if t.op == 'sym' else RANGES.get(t.args[0]) if t.op in ('app', 'papp') else None
    M = 'primpy.potentials'
    for c in concrete_classes(i, M, 'InflationaryPotential'):
        names = [n for n in methods_with(i, c, ('phi',))]
        with ctx.guard('potential.' + c.name, where(c)):
            def tools(it):
                env = {}

                def track(label, f):
                    """Roots found by searches are named by where they are found, not by when."""
                    m = len(it.trace)
                    r = f()
                    roots = [e.data[3].attrs['root'] for e in it.trace[m:] if e.kind == 'ext' and e.data[0] == 'scipy.optimize.root_scalar']
                    env.update({x: T.sym('%s.%d' % (label, j)) for j, x in enumerate(roots) if x not in env})
                    return r
                mk = lambda s='': track('root' + s, lambda: make_with(it, c, s))  # noqa
                ask = lambda o, n, phi, s='': track('root' + s, lambda: result(it, lambda: it.call(it.getattr(o, n), [phi], {})))  # noqa
                sub = lambda d: {q: T.substitute(w, env) if isinstance(w, Term) else w for q, w in d.items()}  # noqa
                return mk, ask, sub
            A, B = T.sym('phi'), T.sym('phi#2')

            def fresh(it, phi):
                mk, ask, sub = tools(it)
                return sub({n: ask(mk(), n, phi) for n in names})

            def run(it):
                mk, ask, sub = tools(it)
                o = mk()
                p = mk('#3')
                for phi in (A, B):
                    for n in names:
                        ask(p, n, phi, '#3')
                return sub({(n, tag): ask(o, n, phi) for tag, phi in (('A', A), ('B', B), ('A2', A)) for n in names})

            def check(got, alone, path):
                for (n, tag), g in got.items():
                    compare(ctx, 'potential.%s.%s' % (c.name, n), g, alone[tag[0]][n], where(i.class_attr(c, n)),
                            '%s depends on what was evaluated before' % n, dom, path)
            against_fresh(ctx, i, 'potential.' + c.name, where(c), {'A': lambda it: fresh(it, A), 'B': lambda it: fresh(it, B)}, run, check)


def make_with(it, cls, sfx):
    """Instance with parameter symbols marked by a suffix."""
    kw = {'Lambda': T.sym('Lambda' + sfx)}
    for _ in range(12):
        n = len(it.trace)
        try:
            return it.call(cls, [], dict(kw))
        except PyRaise as e:
            if e.value.name == 'KeyError' and isinstance(e.value.attrs['args'][0], str) and e.value.attrs['args'][0] not in kw:
                kw[e.value.attrs['args'][0]] = T.sym(e.value.attrs['args'][0] + sfx)
                del it.trace[n:]
                continue
            raise
    raise Unsupported('cannot construct %s' % cls.name)


def memory_of_events(ctx, kind):
    i = ctx.interp()
    m = i.load('primpy.events')
    base = i.get('primpy.events:Event')

    def dom(t):
        return domain({'value': (0.5, 1.5)})(T.sym(t.args[0].split('#')[0])) if t.op == 'sym' else domain()(t)
    for n, c in m.attrs.items():
        if not isinstance(c, VClass) or base not in c.mro or c is base:
            continue
        for change in ('x', '_N', 'phi'):
            with ctx.guard('event.%s.%s' % (kind, n), where(c)):
                ix = idx_of(i, equations(i, kind, K=1))
                if change != 'x' and change not in ix:
                    continue
                mk = lambda it, eq: it.call(c, [eq], dict(value=T.sym('value')))  # noqa

                def fresh(it, second):
                    eq = equations(it, kind, K=1)
                    return result(it, lambda: it.call(mk(it, eq), list(eq_state(it, eq, kind, change if second else None)), {}))

                def run(it):
                    eq = equations(it, kind, K=1)
                    A, B = eq_state(it, eq, kind), eq_state(it, eq, kind, change)
                    e = mk(it, eq)
                    return [result(it, lambda: it.call(e, list(s), {})) for s in (A, B, A, B)]

                def check(got, alone, path):
                    for g, t in zip(got, 'ABAB'):
                        compare(ctx, 'event.%s.%s' % (kind, n), g, alone[t], where(i.class_attr(c, '__call__')), 'depends on what was evaluated before', dom, path)
                against_fresh(ctx, i, 'event.%s.%s.runs' % (kind, n), where(c), {'A': lambda it: fresh(it, False), 'B': lambda it: fresh(it, True)}, run, check)


@prop('C08', 'Evaluating equations, potentials and events has no memory: every value equals that of a fresh object, whatever was evaluated before, '
      'at states that differ in one component only, next to other objects with other parameters; arguments are not modified.', 1000,
      technique='abstract interpretation of sequences of evaluations (two-run comparison); GVN')
def c08(ctx):
    for kind in KINDS:
        for n, conf in enumerate(({}, {'track_eta': True}) + (({'track_time': True},) if kind == 'N' else ())):
            for Kv in (0, 1, -1) if ctx.thorough else ((0, 1, -1)[n],):
                with ctx.guard('equations.%s' % kind):
                    memory_of_equations(ctx, kind, Kv, conf)
        memory_of_events(ctx, kind)
    memory_of_potentials(ctx)


# ------------------------------------------------------------------ C36
EXC = 'primpy.exceptionhandling'


def is_sub(c, name):
    for k in c.mro:
        n = k.name if isinstance(k, VClass) else k.path.split('.')[-1]
        if n == name:
            return True
        std = getattr(builtins, n, None) if not isinstance(k, VClass) else None
        if isinstance(std, type) and any(b.__name__ == name for b in std.__mro__):
            return True
    return False


def text_of(it, e):
    return it.call(it.get('builtins:str') if False else VExternal('builtins.str'), [e], {})


@prop('C36', 'Every error of the package is caught by its base error and every warning by its base warning, keeps the text it was given, and start and end '
      'warnings say that an event was not tracked exactly when it was not.', 50,
      technique='class hierarchy analysis; abstract interpretation of constructors over all cases')
def c36(ctx):
    i = ctx.interp()
    m = i.load(EXC)
    fam = {}
    for n, c in m.attrs.items():
        if not isinstance(c, VClass) or c.module is not m:
            continue
        warning = is_sub(c, 'Warning')
        base = 'PrimpyWarning' if warning else 'PrimpyError'
        fam[n] = warning
        ctx.ok(n + '.family', is_sub(c, base), where(c), '%s is not caught by %s' % (n, base))
        ctx.ok(n + '.kind', is_sub(c, 'UserWarning') if warning else is_sub(c, 'Exception') and not is_sub(c, 'Warning'), where(c), 'is of the wrong kind')
        ctx.ok(n + '.name', n.endswith('Warning') == warning, where(c), 'is a %s by name only' % ('warning' if not warning else 'error'))
        for extra in ((), ('more', 5)):
            for o in explore(i, lambda it: it.call(c, ['what happened'] + list(extra), {})):
                if ctx.ok(n + '.construct', o.kind == 'return', where(c), 'cannot be constructed with a message'):
                    a = o.value.attrs.get('args', ())
                    ctx.ok(n + '.text', len(a) > 0 and isinstance(a[0], str) and 'what happened' in a[0], where(c), 'loses the text it is given')
                    ctx.ok(n + '.args', list(a[1:]) == list(extra), where(c), 'loses further arguments')
    for n in ('PrimpyError', 'InflationStartError', 'StepSizeError', 'InsufficientInflationError', 'BigBangError'):
        ctx.ok(n + '.exists', fam.get(n) is False, EXC, 'error %s does not exist' % n)
    for n, parent in (('PrimpyWarning', 'PrimpyWarning'), ('InflationWarning', 'PrimpyWarning'), ('CollapseWarning', 'InflationWarning'),
                      ('InflationStartWarning', 'InflationWarning'), ('InflationEndWarning', 'InflationWarning'), ('BigBangWarning', 'PrimpyWarning')):
        ctx.ok(n + '.exists', fam.get(n) is True and is_sub(m.attrs[n], parent), EXC, '%s is not a %s' % (n, parent))
    c = m.attrs.get('InflationStartError')
    for geo in ('open', 'closed', None):
        for o in explore(i, lambda it: it.call(c, ['msg'], {'geometry': geo} if geo else {})):
            t = o.value.attrs.get('args', ('',))[0] if o.kind == 'return' else ''
            ctx.ok('InflationStartError.%s' % geo, isinstance(t, str) and (geo is None or geo in t) and 'msg' in t, where(c), 'does not name the geometry')
            ctx.ok('InflationStartError.%s.attr' % geo, o.kind == 'return' and (geo is None or o.value.attrs.get('geometry') == geo), where(c), 'does not keep the geometry')
    tracked = {'InflationStartWarning': 1, 'InflationEndWarning': -1}
    for n, d in tracked.items():
        c = m.attrs.get(n)
        names = ['Inflation_dir%d_term%d' % (dd, t) for dd in (1, -1) for t in (0, 1)] + ['Collapse']
        mine = {'Inflation_dir%d_term%d' % (d, t) for t in (0, 1)}
        for bits in range(2**len(names)):
            evs = {q: T.sym('e%d' % k) for k, q in enumerate(names) if bits >> k & 1}
            for o in explore(i, lambda it: it.call(c, ['msg'], {'events': dict(evs)})):
                t = o.value.attrs.get('args', ('',))[0] if o.kind == 'return' else None
                ctx.ok('%s.%s' % (n, 'tracked' if mine & set(evs) else 'untracked'), isinstance(t, str) and ('Not tracking' in t) == (not mine & set(evs)),
                       where(c), 'with events %s it says: %s' % (sorted(evs), t))
    c = m.attrs['InflationEndWarning']
    w = T.sym('w', 'a')

    def still(it):
        s = VInst(VExternal('opaque.background'), name='solution')
        s.bunch = True
        s.attrs.update(w=w, _N=T.sym('_N', 'a'), phi=T.sym('phi', 'a'))
        return it.call(c, ['msg'], {'events': {'Inflation_dir-1_term1': T.sym('e')}, 'sol': s}), it.getitem(w, -1)
    for o in explore(i, still):
        if not ctx.ok('still.returns', o.kind == 'return', where(c), 'raises'):
            continue
        e, wl = o.value
        for val in (-1, Fraction(-34, 100), Fraction(-33, 100), 0, 1):
            v = T.Valuation('s', fixed={T.lift(wl): T.mpf(Fraction(val).numerator) / Fraction(val).denominator})
            if T.satisfies(v, o.decisions):
                t = e.attrs['args'][0]
                ctx.ok('still.%s' % val, ('Still inflating' in str(t)) == (val < Fraction(-1, 3)), where(c), 'w=%s: %s' % (val, t))
                ctx.count('still')
    ctx.ok('still.sampled', ctx.counts.get('still') == 5, where(c), 'cases')


# ------------------------------------------------------------------ C39
@prop('C39', 'Reduced Planck units in SI and in GeV, the radiation constant, pivot scale, temperatures and radiation densities are mutually consistent '
      'and follow from the constants of nature and the documented values.', 25,
      technique='constant propagation to value numbers; GVN against independent formulas')
def c39(ctx):
    i = ctx.interp()
    g = consts(i)
    kB, hb, c = g['k'], g['hbar'], g['c']
    gev = T.mul(Fraction(10)**9, g['e'])
    mp = T.fn('sqrt', T.div(T.mul(hb, c), T.mul(8, T.mul(T.PI, g['G']))))
    tp = T.div(hb, T.mul(mp, T.power(c, 2)))
    lp = T.mul(c, tp)
    Tp = T.div(T.mul(mp, T.power(c, 2)), kB)
    aB = T.div(T.mul(T.power(T.PI, 2), T.power(kB, 4)), T.mul(15, T.power(T.mul(hb, c), 3)))
    T0 = Fraction('2.72548')
    neff = Fraction(3044, 1000)
    r = T.power(Fraction(4, 11), Fraction(1, 3))
    gam = T.div(T.mul(aB, T.power(T0, 4)), T.power(c, 2))
    nu = T.mul(T.mul(Fraction(7, 8), neff), T.mul(T.power(r, 4), gam))
    U = dict(c=c, G=g['G'], hbar=hb, k_B=kB, e=g['e'], pi=T.PI, mp_kg=mp, tp_s=tp, lp_m=lp, Tp_K=Tp,
             mp_GeV=T.div(T.mul(mp, T.power(c, 2)), gev), tp_iGeV=T.div(T.mul(tp, gev), hb), lp_iGeV=T.div(T.mul(lp, gev), T.mul(hb, c)),
             Mpc_m=g['Mpc'], a_B=aB)
    P = dict(K_STAR=Fraction(1, 20), K_STAR_lp=T.mul(Fraction(1, 20), T.div(lp, g['Mpc'])), T_CMB_K=T0, T_CMB_Tp=T.div(T0, Tp), T_nu_TCMB=r,
             T_nu_K=T.mul(r, T0), T_nu_Tp=T.div(T.mul(r, T0), Tp), N_eff=neff, z_BBN=10**9, g0=T.add(2, T.mul(T.mul(Fraction(7, 4), neff), T.power(r, 3))),
             rho_gamma0_kg_im3=gam, rho_nu0_kg_im3=nu, rho_r0_kg_im3=T.add(gam, nu), rho_r0_mp_ilp3=T.div(T.mul(T.add(gam, nu), T.power(lp, 3)), mp))
    for mod, table in (('primpy.units', U), ('primpy.parameters', P)):
        vm = i.load(mod)
        src = ast.parse(open(vm.path).read())
        lines = {}
        for node in ast.walk(src):
            if isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        lines[t.id] = node.lineno
        for n, want in table.items():
            loc = '%s:%s %s' % (vm.path, lines.get(n, 1), n)
            with ctx.guard(n, loc):
                got = T.lift(i.get(mod + ':' + n))
                ctx.equal(n, T.div(got, T.lift(want)), T.num(1), loc, '%s is inconsistent with the other units and constants' % n, dom=lambda t: (0.5, 2) if t.op == 'sym' else None)
