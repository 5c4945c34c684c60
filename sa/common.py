"""Helpers shared by the checks."""
from fractions import Fraction  # noqa
from . import terms as T
from .terms import Term
from .values import *  # noqa
from .interp import explore, Interp, PathLimit
from .report import prop, where, func_of, show

# ranges used when a term is given a random meaning; by symbol name
RANGES = {
    'phi': (0.7, 1.9), 'phi0': (6.0, 9.0), 'p': (2.1, 3.9), 'alpha': (0.6, 2.4), 'Lambda': (0.6, 1.4),
    'N': (20, 60), 'N_star': (40, 70), 'V': (0.05, 0.4), 'A_s': (0.5, 3.0),
}


def ranges(extra=None):
    r = dict(RANGES)
    r.update(extra or {})

    def dom(t):
        if t.op == 'sym':
            return r.get(t.args[0].split('#')[0])
        if t.op in ('papp', 'app'):
            return r.get(t.args[0])
        return None
    return dom


def meth(i, o, name):
    return i.getattr(o, name)


def call(i, o, name, *args, **kw):
    return i.call(i.getattr(o, name), list(args), kw)


def concrete_classes(i, module, base):
    """All classes of `module` that derive from `base` and can be instantiated."""
    m = i.load(module)
    b = i.get(module + ':' + base)
    out = []
    for n, c in m.attrs.items():
        if isinstance(c, VClass) and c.module is m and b in c.mro and c is not b:
            if not i.abstract_names(c):
                out.append(c)
    return out


def make(i, cls, given, maxtry=12):
    """Instantiate with symbolic keyword parameters, discovering required ones from KeyError."""
    kw = dict(given)
    for _ in range(maxtry):
        n = len(i.trace)
        try:
            return i.call(cls, [], dict(kw)), kw
        except PyRaise as e:
            if e.value.name == 'KeyError' and isinstance(e.value.attrs['args'][0], str):
                k = e.value.attrs['args'][0]
                if k in kw:
                    raise
                kw[k] = T.sym(k)
                del i.trace[n:]
                continue
            raise
    raise Unsupported('cannot construct %s' % cls.name)


def path_subst(outcome, *terms):
    """Terms specialised by the equalities decided on this path (x == constant)."""
    env = {}
    for atom, val in outcome.decisions:
        if val and isinstance(atom, Term) and atom.op == 'eq':
            a, b = atom.args
            if a.op == 'sym' and b.op == 'num':
                env[a] = b
    return env, [T.substitute(t, env) if isinstance(t, Term) else t for t in terms]


def single(ctx, i, fn, assume=None):
    """Value of fn if there is exactly one feasible trace partition."""
    outs = explore(i, fn, assume)
    if len(outs) > 1:       # special cases `x == constant` apart, one generic partition must remain
        outs = [o for o in outs if not any(v and isinstance(a, Term) and a.op == 'eq' for a, v in o.decisions)]
    if len(outs) != 1:
        raise Unsupported('expected a single path, got %d: %s' % (len(outs), [o.path() for o in outs][:4]))
    o = outs[0]
    if o.kind == 'raise':
        raise PyRaise(o.value)
    return o.value


def lit(x):
    return T.lift(x)


def ev(t, seed, **kw):
    return T.Valuation(seed, **kw)(t)


# values of the constants of nature (closely; only inequalities between quantities made of them are decided with these)
NATURE = {'const:' + n: (x, x * (1 + 1e-9)) for n, x in dict(c=299792458., hbar=1.054571817e-34, G=6.6743e-11, parsec=3.0856775814913673e16,
                                                             k_B=1.380649e-23, e=1.602176634e-19).items()}


def natural(extra=None):
    """Ranges with realistic constants of nature."""
    r = dict(RANGES)
    r.update(NATURE)
    r.update(extra or {})

    def dom(t):
        if t.op == 'sym':
            return r.get(t.args[0].split('#')[0])
        if t.op in ('papp', 'app'):
            return r.get(t.args[0])
        return None
    return dom


def pick(outs, v):
    """The trace partitions that the valuation belongs to."""
    return [o for o in outs if T.satisfies(v, o.decisions)]


def fixed_values(**kw):
    return {T.sym(k): T.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else T.mpf(x) for k, x in kw.items()}


def real_value(v, x):
    """Value of a term as floating point would have it: NaN where undefined over the reals or missing."""
    if x is None:
        return T.mpmath.nan
    x = T.lift(x)
    try:
        for t in T.subterms(x):
            if t.op == 'fn' and t.args[0] in ('arccosh', 'arccos', 'arcsin', 'log', 'sqrt', 'arctanh'):
                a = v(t.args[1])
                if isinstance(a, T.mpmath.mpc):
                    return T.mpmath.nan
                lo, hi = {'arccosh': (1, None), 'arccos': (-1, 1), 'arcsin': (-1, 1), 'log': (0, None), 'sqrt': (0, None), 'arctanh': (-1, 1)}[t.args[0]]
                eps = T.mpf(10)**-30
                if a < lo - eps or hi is not None and a > hi + eps:
                    return T.mpmath.nan
        r = v(x)
    except (ZeroDivisionError, T.TermError):
        return T.mpmath.nan
    return T.mpmath.nan if isinstance(r, T.mpmath.mpc) and abs(r.imag) > T.mpf(10)**-30 * abs(r) else r.real if isinstance(r, T.mpmath.mpc) else r


def same(x, y, tol=1e-18):
    """Relative closeness, also of extremely small or large numbers; NaN is close to nothing."""
    return bool(x == y or abs(x - y) <= tol * (abs(x) + abs(y)))
