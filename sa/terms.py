"""Value-numbering domain: hash-consed arithmetic terms.

Terms are what the abstract interpreter computes for Python expressions.  They are never executed:
two terms are compared by random interpretation of the *term algebra* (Gulwani & Necula, POPL 2004,
"Global value numbering using random interpretation"): every leaf and every uninterpreted function
is given a random meaning that is consistent across both terms, at 40+ digits.
"""
import hashlib
from fractions import Fraction
import mpmath

mpmath.mp.dps = 45
mpf = mpmath.mpf


class TermError(Exception):
    """A term cannot be evaluated (inconclusive)."""


class Term:
    __slots__ = ('op', 'args', '_h', '__weakref__')
    _table = {}

    def __new__(cls, op, args):
        key = (op, args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            cls._table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)

    # truth of a term must never be taken silently by Python
    def __bool__(self):
        raise TypeError("truth value of a term")


NUM = (int, Fraction)


def isnum(x):
    return isinstance(x, NUM) and not isinstance(x, bool)


def freeze(x):
    """Turn an argument into a hashable key usable inside a term."""
    if isinstance(x, slice):
        return ('slice', freeze(x.start), freeze(x.stop), freeze(x.step))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(e) for e in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, freeze(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, bool):
        return x
    if isnum(x):
        return num(x)
    return x


def num(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        x = int(x)
    return Term('num', (Fraction(x),))


def const(name):
    return Term('const', (name,))


PI = const('pi')
I = const('I')
NAN = const('nan')
INF = const('inf')
EULER = const('euler_gamma')
CZERO = const('0j')


def sym(name, kind='s', dom=None):
    """Leaf symbol. kind: 's' scalar, 'a' array (arithmetic is pointwise)."""
    return Term('sym', (name, kind))


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool) or isnum(x):
        return num(x)
    raise TypeError("cannot lift %r" % (x,))


def _n(x):
    """Python number of a term if it is a numeric constant, else None."""
    if isinstance(x, Term):
        return x.args[0] if x.op == 'num' else None
    if isinstance(x, bool):
        return int(x)
    return x


def isnan(x):
    return x is NAN


def add(a, b):
    na, nb = _n(a), _n(b)
    if na is not None and nb is not None:
        return _keep(a, b, na + nb)
    if isnan(a) or isnan(b):
        return NAN
    if na == 0 and na is not None:
        return b
    if nb == 0 and nb is not None:
        return a
    return Term('add', (lift(a), lift(b)))


def _keep(a, b, v):
    if isinstance(v, Fraction) and v.denominator == 1 and isinstance(a, int) and isinstance(b, int):
        return int(v)
    return v


def neg(a):
    na = _n(a)
    if na is not None:
        return -na
    if isnan(a):
        return NAN
    if a.op == 'neg':
        return a.args[0]
    return Term('neg', (a,))


def sub(a, b):
    na, nb = _n(a), _n(b)
    if na is not None and nb is not None:
        return na - nb
    if isnan(a) or isnan(b):
        return NAN
    if nb == 0 and nb is not None:
        return a
    if na == 0 and na is not None:
        return neg(b)
    return Term('sub', (lift(a), lift(b)))


def mul(a, b):
    na, nb = _n(a), _n(b)
    if na is not None and nb is not None:
        return na * nb
    if isnan(a) or isnan(b):
        return NAN
    if (na is not None and na == 0) or (nb is not None and nb == 0):
        return 0
    if na is not None and na == 1:
        return b
    if nb is not None and nb == 1:
        return a
    return Term('mul', (lift(a), lift(b)))


def div(a, b):
    na, nb = _n(a), _n(b)
    if nb is not None and nb == 0:
        return Term('div', (lift(a), lift(b)))
    if na is not None and nb is not None:
        return Fraction(na) / Fraction(nb)
    if isnan(a) or isnan(b):
        return NAN
    if na is not None and na == 0:
        return Fraction(0)
    if nb is not None and nb == 1:
        return a
    return Term('div', (lift(a), lift(b)))


def power(a, b):
    na, nb = _n(a), _n(b)
    if na is not None and nb is not None:
        if isinstance(nb, int) or (isinstance(nb, Fraction) and nb.denominator == 1):
            e = int(nb)
            if abs(e) <= 400:
                if na == 0 and e < 0:
                    return Term('pow', (num(na), num(nb)))
                r = Fraction(na) ** e
                if isinstance(na, int) and isinstance(nb, int) and r.denominator == 1:
                    return int(r)
                return r
        if na == 1:
            return Fraction(1)
        if na == 0 and nb > 0:
            return Fraction(0)
        return Term('pow', (num(na), num(nb)))
    if isnan(a) or isnan(b):
        return NAN
    if nb is not None and nb == 1:
        return a
    if nb is not None and nb == 0:
        return 1
    return Term('pow', (lift(a), lift(b)))


POINTWISE = {'add', 'sub', 'mul', 'div', 'neg', 'pow', 'fn', 'ite', 'lt', 'eq', 'not', 'band', 'bor'}

FN_CONST = {
    'exp': {0: 1}, 'log': {1: 0}, 'sqrt': {0: 0, 1: 1}, 'sin': {0: 0}, 'cos': {0: 1}, 'tanh': {0: 0},
    'sinh': {0: 0}, 'cosh': {0: 1}, 'tan': {0: 0}, 'arctan': {0: 0}, 'abs': {}, 'sign': {},
}


def fn(name, *args):
    if any(isnan(a) for a in args):
        return NAN
    vals = [_n(a) for a in args]
    if all(v is not None for v in vals):
        if len(vals) == 1:
            v = vals[0]
            if name == 'abs':
                return abs(v)
            if name == 'sign':
                return (v > 0) - (v < 0)
            if name in FN_CONST and v in FN_CONST[name]:
                return FN_CONST[name][v]
        if name == 'floor':
            return vals[0].__floor__() if isinstance(vals[0], Fraction) else vals[0]
    return Term('fn', (name,) + tuple(lift(a) for a in args))


def app(name, args, kwargs=None, pointwise=False):
    """Uninterpreted function application."""
    kw = tuple(sorted(((k, freeze(v)) for k, v in (kwargs or {}).items()), key=lambda kv: kv[0]))
    return Term('papp' if pointwise else 'app', (name, tuple(freeze(a) for a in args), kw))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    return Term('ite', (c, lift(a), lift(b)))


def subterms(t, seen=None):
    """All Term nodes below (and including) t."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def symbols(t):
    return {x for x in subterms(t) if x.op == 'sym'}


_arr = {}


def is_array(t):
    """Does the term denote an array (some unreduced array leaf)?"""
    if not isinstance(t, Term):
        return False
    r = _arr.get(t)
    if r is None:
        if t.op == 'sym':
            r = t.args[1] == 'a'
        elif t.op == 'idx':
            r = is_array(t.args[0]) and not _scalar_key(t.args[1])
        elif t.op == 'papp':
            r = any(is_array(a) for a in t.args[1])
        elif t.op in POINTWISE:
            r = any(is_array(a) for a in t.args if isinstance(a, Term))
        elif t.op == 'app':
            r = t.args[0] in ('numpy.linspace', 'numpy.logspace', 'numpy.arange', 'numpy.unique',
                              'numpy.argwhere', 'numpy.isin', 'numpy.unique_index', 'numpy.unique_inverse', 'numpy.unique_counts')
        else:
            r = False
        _arr[t] = r
    return r


def _scalar_key(k):
    """Index key that removes the array dimension (an integer)."""
    if isinstance(k, Term):
        if k.op == 'num':
            return True
        return not is_array(k) and k.op not in ('lt', 'eq', 'not', 'band', 'bor')
    if isinstance(k, int) and not isinstance(k, bool):
        return True
    if isinstance(k, tuple) and k and k[0] == 'slice':
        return False
    return False


def index(t, key):
    """t[key], distributed over pointwise operations down to the array leaves."""
    if not isinstance(t, Term):
        return t
    k = freeze(key)
    if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice' and t.op == 'sym' and _full_size(k[2]):
        k = k[:2] + (None, k[3])
    return _index(t, k)


def _full_size(n):
    """Size of an unreduced array, or more: a slice up to there runs to the end."""
    if isinstance(n, Term) and n.op == 'add' and any(a.op == 'num' and a.args[0] >= 0 for a in n.args):
        return any(_full_size(a) for a in n.args)
    return isinstance(n, Term) and n.op == 'app' and n.args[0] == 'numpy.size' and isinstance(n.args[1][0], Term) and n.args[1][0].op == 'sym'


def _index(t, k):
    if not is_array(t) and t.op in POINTWISE | {'num', 'const'}:
        return t
    if t.op in POINTWISE and is_array(t):
        if t.op == 'fn':
            return Term('fn', (t.args[0],) + tuple(_index(a, k) for a in t.args[1:]))
        return Term(t.op, tuple(_index(a, k) if isinstance(a, Term) and is_array(a) else a
                                for a in t.args))
    if t.op == 'papp' and is_array(t):
        return Term('papp', (t.args[0], tuple(_index(a, k) if isinstance(a, Term) and is_array(a)
                                              else a for a in t.args[1]), t.args[2]))
    if t.op == 'idx':
        r = _element_of_slice(t, k)
        if r is not None:
            return r
    return Term('idx', (t, k))


def is_count(t):
    """Is this a non-negative integer by construction (an index found by a search, a size)?"""
    return isinstance(t, Term) and t.op != 'num' and _not_negative(t)


def _not_negative(t):
    """Is this index certainly not counted from the end?"""
    if isinstance(t, Term):
        if t.op == 'num':
            return t.args[0] >= 0
        if t.op == 'add':
            return all(_not_negative(a) for a in t.args)
        if t.op == 'idx':
            return _not_negative(t.args[0])
        if t.op == 'fn' and t.args[0] in ('max', 'min'):
            return all(_not_negative(a) for a in t.args[1:])
        if t.op == 'app' and t.args[0] in ('numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin', 'builtins.max', 'builtins.min') and len(t.args[1]) == 1:
            return _not_negative(t.args[1][0])
        return t.op == 'app' and t.args[0] in ('indices', 'numpy.argwhere', 'numpy.argmax', 'numpy.argmin', 'numpy.size', 'builtins.len')
    return isinstance(t, int) and t >= 0


def _element_of_slice(t, k):
    """t[a:b][k] as an element of t, for slices within the array."""
    sl = t.args[1]
    n = int(k.args[0]) if isinstance(k, Term) and k.op == 'num' else k
    if not (isinstance(sl, tuple) and len(sl) == 4 and sl[0] == 'slice') or not isinstance(n, int) or isinstance(n, bool):
        return None
    _, lo, hi, step = sl
    if step not in (None, 1) and _n(step) != 1:
        return None
    if n >= 0:
        if lo is None:
            return _index(t.args[0], freeze(n))
        return _index(t.args[0], freeze(add(lo, n))) if _not_negative(lo) else None
    if hi is None:
        return _index(t.args[0], freeze(n))
    r = add(hi, n)
    if isinstance(hi, Term) and hi.op == 'add' and any(a.op == 'num' for a in hi.args):     # (i + 1) - 1 is i
        x, y = hi.args if hi.args[1].op == 'num' else hi.args[::-1]
        r = add(x, y.args[0] + n) if y.args[0] + n else x
    return _index(t.args[0], freeze(r)) if _not_negative(r) else None


# ------------------------------------------------------------------ differentiation

DAPP = {}   # name of uninterpreted unary pointwise function -> name of its derivative


def diff(t, env):
    """Formal derivative. env maps leaves (any Term) to their derivative; all others are constant."""
    memo = {}

    def d(x):
        if not isinstance(x, Term):
            return 0
        if x in memo:
            return memo[x]
        r = _d(x)
        memo[x] = r
        return r

    def _d(x):
        if x in env:
            return env[x]
        op, a = x.op, x.args
        if op in ('num', 'const', 'sym'):
            return 0
        if op == 'add':
            return add(d(a[0]), d(a[1]))
        if op == 'sub':
            return sub(d(a[0]), d(a[1]))
        if op == 'neg':
            return neg(d(a[0]))
        if op == 'mul':
            return add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
        if op == 'div':
            da, db = d(a[0]), d(a[1])
            r = div(da, a[1])
            if _n(db) == 0:
                return r
            return sub(r, div(mul(a[0], db), power(a[1], 2)))
        if op == 'pow':
            da, db = d(a[0]), d(a[1])
            r = 0
            if _n(da) != 0:
                r = mul(mul(a[1], power(a[0], sub(a[1], 1))), da)
            if _n(db) != 0:
                r = add(r, mul(mul(x, fn('log', a[0])), db))
            return r
        if op == 'fn':
            name, u = a[0], a[1]
            if all(_n(d(v)) == 0 for v in a[1:]):
                return 0
            if len(a) != 2:
                raise TermError('derivative of %s' % name)
            return mul(dfn(name, u, x), d(u))
        if op == 'papp':
            name, args, kw = a
            if len(args) == 1 and not kw and name in DAPP:
                du = d(args[0])
                return 0 if _n(du) == 0 else mul(Term('papp', (DAPP[name], args, kw)), du)
            if any(_n(d(v)) != 0 for v in args if isinstance(v, Term)):
                raise TermError('derivative of %s' % name)
            return 0
        if op == 'ite':
            return ite(a[0], d(a[1]), d(a[2]))
        if op in ('app', 'idx'):
            if any(y in env for y in subterms(x)):
                raise TermError('derivative of %s' % show(x))
            return 0
        if op in ('lt', 'eq', 'not'):
            return 0
        raise TermError('derivative of op %s' % op)

    return d(t) if isinstance(t, Term) else 0


def dfn(name, u, x):
    if name == 'exp':
        return x
    if name == 'expm1':
        return fn('exp', u)
    if name == 'log':
        return div(1, u)
    if name == 'log10':
        return div(1, mul(u, fn('log', 10)))
    if name == 'log1p':
        return div(1, add(1, u))
    if name == 'sqrt':
        return div(1, mul(2, x))
    if name == 'sin':
        return fn('cos', u)
    if name == 'cos':
        return neg(fn('sin', u))
    if name == 'tan':
        return add(1, power(x, 2))
    if name == 'sinh':
        return fn('cosh', u)
    if name == 'cosh':
        return fn('sinh', u)
    if name == 'tanh':
        return sub(1, power(x, 2))
    if name == 'arctan':
        return div(1, add(1, power(u, 2)))
    if name == 'arcsinh':
        return div(1, fn('sqrt', add(1, power(u, 2))))
    if name == 'arccosh':
        return div(1, fn('sqrt', sub(power(u, 2), 1)))
    if name == 'arctanh':
        return div(1, sub(1, power(u, 2)))
    if name == 'arccos':
        return neg(div(1, fn('sqrt', sub(1, power(u, 2)))))
    if name == 'arcsin':
        return div(1, fn('sqrt', sub(1, power(u, 2))))
    if name == 'abs':
        return fn('sign', u)
    if name == 'sign':
        return 0
    if name == 'real_if_close':
        return 1
    if name == 'cbrt':
        return div(1, mul(3, power(x, 2)))
    raise TermError('derivative of %s' % name)


def substitute(t, env):
    """Replace leaves (or any subterm) by other terms."""
    memo = {}

    def s(x):
        if isinstance(x, tuple):
            return tuple(s(e) for e in x)
        if not isinstance(x, Term):
            return x
        if x in env:
            return lift(env[x]) if isnum(env[x]) else env[x]
        if x in memo:
            return memo[x]
        if x.op in ('num', 'const', 'sym'):
            r = x
        else:
            args = tuple(s(e) for e in x.args)
            op = x.op
            if op == 'add':
                r = lift(add(*args))
            elif op == 'sub':
                r = lift(sub(*args))
            elif op == 'mul':
                r = lift(mul(*args))
            elif op == 'div':
                r = lift(div(*args))
            elif op == 'pow':
                r = lift(power(*args))
            elif op == 'neg':
                r = lift(neg(*args))
            elif op == 'fn':
                r = lift(fn(*args))
            else:
                r = Term(op, args)
        memo[x] = r
        return r

    return s(t) if isinstance(t, Term) else t


# ------------------------------------------------------------------ random interpretation

MPFN = {
    'exp': mpmath.exp, 'log': mpmath.log, 'log10': mpmath.log10, 'sqrt': mpmath.sqrt,
    'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'sinh': mpmath.sinh,
    'cosh': mpmath.cosh, 'tanh': mpmath.tanh, 'arctan': mpmath.atan, 'arcsin': mpmath.asin,
    'arccos': mpmath.acos, 'arcsinh': mpmath.asinh, 'arccosh': mpmath.acosh,
    'arctanh': mpmath.atanh, 'sign': mpmath.sign,
    'abs': abs, 'zeta': mpmath.zeta, 'expm1': mpmath.expm1, 'log1p': mpmath.log1p,
    'log2': lambda x: mpmath.log(x, 2), 'cbrt': mpmath.cbrt, 'conj': mpmath.conj,
    'trunc': lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x), 'real': mpmath.re, 'imag': mpmath.im, 'floor': mpmath.floor, 'ceil': mpmath.ceil,
    'real_if_close': lambda x: mpmath.re(x) if abs(mpmath.im(x)) < mpf(10)**-25 else x,
    'lambertw': lambda x, k=0: mpmath.lambertw(x, int(mpmath.re(k))),
    'max': lambda *a: max(a), 'min': lambda *a: min(a),
    'mod': lambda a, b: a - b*mpmath.floor(a/b), 'floordiv': lambda a, b: mpmath.floor(a/b),
    'hypot': lambda a, b: mpmath.sqrt(a*a+b*b), 'arctan2': mpmath.atan2,
    'round': lambda x: mpmath.nint(x),
}
CONSTS = {'0j': lambda: mpf(0), 'pi': lambda: +mpmath.pi, 'I': lambda: mpmath.mpc(0, 1), 'euler_gamma': lambda: +mpmath.euler,
          'inf': lambda: mpmath.inf, 'e': lambda: +mpmath.e,
          'nan': lambda: mpmath.nan}


def _key(v):
    """Stable key of an evaluated argument, rounded far above the working error."""
    if isinstance(v, (mpmath.mpf, mpmath.mpc)):
        re, im = mpmath.re(v), mpmath.im(v)
        if abs(im) < mpf(10)**-28:
            im = mpf(0)
        if abs(re) < mpf(10)**-28:
            re = mpf(0)
        return '(' + mpmath.nstr(re, 22) + ',' + mpmath.nstr(im, 22) + ')'
    if isinstance(v, tuple):
        return '[' + ';'.join(_key(e) for e in v) + ']'
    return repr(v)


def _hash01(*parts):
    h = hashlib.sha256('|'.join(parts).encode()).digest()
    n = int.from_bytes(h[:16], 'big')
    return mpf(n) / mpf(2**128)


class Valuation:
    """A random meaning for leaves and uninterpreted functions."""

    def __init__(self, seed, fixed=None, dom=None, funcs=None):
        self.seed = str(seed)
        self.fixed = fixed or {}          # Term -> number/Term
        self.dom = dom or (lambda t: None)
        self.funcs = funcs or {}          # name -> callable(evaluated args...) for papp/app
        self.memo = {}
        self.stack = set()

    def leaf(self, t):
        return self._draw(t, _hash01(self.seed, 'leaf', self._lk(t)))

    def _draw(self, t, h):
        """Random value of a leaf: uniform in its range, or log-uniform for ranges (lo, hi, 'log')."""
        r = self.dom(t) or (0.35, 1.65)
        lo, hi = mpf(r[0]), mpf(r[1])
        if len(r) > 2:
            return mpmath.exp(mpmath.log(lo) + (mpmath.log(hi) - mpmath.log(lo)) * h)
        return lo + (hi - lo) * h

    def _lk(self, t):
        if t.op == 'sym':
            return 'sym:' + t.args[0]
        return repr((t.op,) + tuple(self._arg(a) for a in t.args))

    def _arg(self, a):
        if isinstance(a, Term):
            if a.op in ('sym',):
                return 'sym:' + a.args[0]
            try:
                return _key(self(a))
            except TermError:
                return self._lk(a)
        if isinstance(a, tuple):
            return tuple(self._arg(e) for e in a)
        return repr(a)

    def __call__(self, t):
        if not isinstance(t, Term):
            if isinstance(t, bool):
                return t
            if isinstance(t, Fraction):
                return mpf(t.numerator) / mpf(t.denominator)
            if isinstance(t, int):
                return mpf(t)
            raise TermError('evaluate %r' % (t,))
        if t in self.memo:
            return self.memo[t]
        try:
            r = self._eval(t)
        except ZeroDivisionError:
            raise TermError('division by zero in %s' % show(t)[:200])
        self.memo[t] = r
        return r

    def _eval(self, t):
        if t in self.fixed:
            v = self.fixed[t]
            if isinstance(v, (mpmath.mpf, mpmath.mpc)):
                return v
            if isinstance(v, float):
                return mpf(v)
            return self(v)
        op, a = t.op, t.args
        if op == 'num':
            return mpf(a[0].numerator) / mpf(a[0].denominator)
        if op == 'const':
            return CONSTS[a[0]]()
        if op == 'sym':
            return self.leaf(t)
        if op == 'add':
            return self(a[0]) + self(a[1])
        if op == 'sub':
            return self(a[0]) - self(a[1])
        if op == 'mul':
            return self(a[0]) * self(a[1])
        if op == 'div':
            return self(a[0]) / self(a[1])
        if op == 'neg':
            return -self(a[0])
        if op == 'pow':
            b, e = self(a[0]), self(a[1])
            if b == 0:
                if mpmath.re(e) > 0:
                    return mpf(0)
                if e == 0:
                    return mpf(1)
                raise TermError('0**negative')
            return b ** e
        if op == 'fn':
            f = MPFN.get(a[0])
            if f is None:
                raise TermError('no meaning for %s' % a[0])
            try:
                return f(*[self(x) for x in a[1:]])
            except (ValueError, ZeroDivisionError, TypeError) as e:
                raise TermError('%s: %s' % (a[0], e))
        if op in ('papp', 'app'):
            name = a[0]
            if name in self.funcs:
                return self.funcs[name](*[self(x) if isinstance(x, Term) else x for x in a[1]])
            key = self._lk(t)
            return self._draw(t, _hash01(self.seed, op, key))
        if op == 'idx':
            key = self._lk(t)
            return self._draw(t, _hash01(self.seed, op, key))
        if op == 'ite':
            c = self(a[0])
            return self(a[1]) if c else self(a[2])
        if op == 'lt':
            x, y = self(a[0]), self(a[1])
            if max(abs(mpmath.im(x)), abs(mpmath.im(y))) > mpf(10)**-20 * (1 + abs(x) + abs(y)):
                return False          # a real computation gives nan here
            return bool(mpmath.re(x) < mpmath.re(y))
        if op == 'eq':
            x, y = self(a[0]), self(a[1])
            return bool(abs(x - y) <= mpf(10)**-25 * (1 + abs(x)))
        if op == 'not':
            return not self(a[0])
        if op == 'band':
            x, y = self(a[0]), self(a[1])
            if isinstance(x, bool) and isinstance(y, bool):
                return x and y
            return _hash01(self.seed, 'band', self._lk(t))
        if op == 'bor':
            x, y = self(a[0]), self(a[1])
            if isinstance(x, bool) and isinstance(y, bool):
                return x or y
            return _hash01(self.seed, 'bor', self._lk(t))
        raise TermError('evaluate op %s' % op)


def close(x, y, tol=None):
    tol = tol or mpf(10)**-22
    if mpmath.isnan(x) or mpmath.isnan(y):
        return bool(mpmath.isnan(x) and mpmath.isnan(y))
    if mpmath.isinf(x) or mpmath.isinf(y):
        return x == y
    return bool(abs(x - y) <= tol * (mpf(10)**-12 + abs(x) + abs(y)))


class Inconclusive(Exception):
    pass


def satisfies(v, decisions):
    """Does a valuation satisfy the (evaluable) branch decisions of a trace partition?"""
    for atom, val in decisions or ():
        if isinstance(atom, Term) and atom.op in ('lt', 'eq', 'not', 'band', 'bor'):
            try:
                r = v(atom)
            except (TermError, ValueError, TypeError):
                continue
            if isinstance(r, bool) and r != val:
                return False
    return True


# ------------------------------------------------------------------ directed search for valuations

class Steered(Valuation):
    """A random meaning whose draws can be overridden one by one (still a function of evaluated arguments)."""

    def __init__(self, seed, over, **kw):
        Valuation.__init__(self, seed, **kw)
        self.over = over
        self.used = {}

    def _draw(self, t, h):
        r = self.dom(t) or (0.35, 1.65)
        x = self.over.get(h)
        if x is None:
            x = Valuation._draw(self, t, h)
        self.used[h] = (mpf(r[0]), mpf(r[1]), x)
        return x


def primitives(t):
    """The comparisons a condition is built from."""
    if isinstance(t, Term):
        if t.op in ('lt', 'eq'):
            yield t
        elif t.op in ('not', 'band', 'bor'):
            for a in t.args:
                yield from primitives(a)


def _truth(v, atom):
    try:
        r = v(atom)
    except (TermError, ValueError, TypeError):
        return None
    return r if isinstance(r, bool) else None


def _gap(v, p):
    try:
        d = v(p.args[0]) - v(p.args[1])
    except (TermError, ValueError, TypeError):
        return None
    return mpmath.re(d) if abs(mpmath.im(d)) < mpf(10)**-20 else None


def _candidates(make, over, prim, h, lo, hi, x0):
    """Values of one draw at which a comparison may change: the ends, and either side of its roots."""
    def gap(x):
        return _gap(make({**over, h: x}), prim)
    w = hi - lo
    grid = [lo + w * mpf(j) / 8 for j in range(9)]
    if lo < 0 < hi:
        grid = sorted(grid + [mpf(0), w / 10**6, -w / 10**6])
    vals = [(x, gap(x)) for x in grid]
    out = [x for x, g in vals]
    for (x, g), (y, e) in zip(vals, vals[1:]):
        if g is None or e is None or (g < 0) == (e < 0):
            continue
        for _ in range(48):
            m = (x + y) / 2
            q = gap(m)
            if q is None:
                break
            if (q < 0) == (g < 0):
                x = m
            else:
                y = m
        m = (x + y) / 2
        out += [z for d in (mpf(10)**-13, mpf(10)**-10, mpf(10)**-7, mpf(10)**-4, mpf(10)**-2) for z in (m - d * w, m + d * w) if lo <= z <= hi]
    return out


def steer(path, seed, fixed=None, dom=None, funcs=None, rounds=10):
    """Overrides of draws under which all decisions of a path hold (None: not found)."""
    path = [(p, val) for p, val in path if isinstance(p, Term) and p.op in ('lt', 'eq', 'not', 'band', 'bor')]

    def make(over):
        return Steered(seed, over, fixed=fixed, dom=dom, funcs=funcs)

    def wrong(over):
        v = make(over)
        return [(p, val) for p, val in path if _truth(v, p) not in (None, val)]
    if len(path) > 1:         # a decision that cannot be met on its own
        vs = [make({})] + [Valuation('%s+%d' % (seed, j), fixed=fixed, dom=dom, funcs=funcs) for j in range(6)]
        for p, val in path:
            if all(_truth(v, p) not in (None, val) for v in vs):
                key = p, val, id(dom)
                if key not in _alone:
                    _alone[key] = steer([(p, val)], seed, fixed, dom, funcs, 2), dom
                if _alone[key][0] is None:
                    return None
    over = {}
    bad = wrong(over)
    for n in range(rounds):
        if not bad:
            return over
        atom, val = bad[int(_hash01(seed, 'pick', str(n)) * len(bad))]
        v = make(over)
        _truth(v, atom)
        best = None
        for prim in list(primitives(atom))[:4]:
            u = make(over)
            _gap(u, prim)
            for h, (lo, hi, x0) in list(u.used.items())[:8]:
                good = [x for x in _candidates(make, over, prim, h, lo, hi, x0) if _truth(make({**over, h: x}), atom) == val]
                good.sort(key=lambda x: _hash01(seed, 'try', str(n), mpmath.nstr(x, 8)))
                for x in good[:4]:
                    w = wrong({**over, h: x})
                    if best is None or len(w) < len(best[0]):
                        best = w, {**over, h: x}
                    if not w:
                        return best[1]
        if best is None or len(best[0]) > len(bad):
            return None
        bad, over = best
    return over if not bad else None


_steered, _alone = {}, {}
STEER = {'limit': 400, 'found': 0, 'none': 0}


def reset_search():
    _steered.clear()
    _alone.clear()
    STEER.update(found=0, none=0)


def steered(path, seed, fixed, dom, funcs):
    key = (tuple((p, val) for p, val in path if isinstance(p, Term)), seed, id(dom), repr(fixed) if not callable(fixed) else id(fixed))
    if key not in _steered:
        if STEER['found'] + STEER['none'] >= STEER['limit']:
            return None
        try:
            r = steer(path, seed, fixed, dom, funcs)
        except (ZeroDivisionError, OverflowError):
            r = None
        STEER['none' if r is None else 'found'] += 1
        _steered[key] = r, dom
    return _steered[key][0]


_conds = {}


def conditions(t):
    """Conditions on which the value of a term depends."""
    if t not in _conds:
        out = []
        for s in subterms(t):
            if s.op == 'ite':
                out.append(s.args[0])
            elif s.op == 'fn' and s.args[0] in ('abs', 'sign'):
                out.append(Term('lt', (lift(s.args[1]), lift(0))))
            elif s.op == 'fn' and s.args[0] in ('max', 'min') and len(s.args) == 3:
                out.append(Term('lt', (lift(s.args[1]), lift(s.args[2]))))
        _conds[t] = [c for c in dict.fromkeys(out) if isinstance(c, Term)]
    return _conds[t]


def differ(x, y, tol):
    if isinstance(x, bool) or isinstance(y, bool):
        return 'lhs=%s rhs=%s' % (x, y) if x != y else None
    return None if close(x, y, tol) else 'lhs=%s rhs=%s' % (mpmath.nstr(x, 12), mpmath.nstr(y, 12))


def equal(a, b, seeds=(1, 2, 3), fixed=None, dom=None, funcs=None, tol=None, want=2, path=None):
    """Decide a == b in the term domain. Returns (verdict, witness); verdict None: no valuation on the path."""
    if a is b:
        return True, None
    done, errs, off = 0, [], 0
    want = max(want, len(seeds))
    conds = list(dict.fromkeys(c for t in (a, b) if isinstance(t, Term) for c in conditions(t)))[:8]
    seen = {c: set() for c in conds}

    def judge(v):
        x, y = v(a), v(b)
        for c in conds:
            seen[c].add(_truth(v, c))
        return differ(x, y, tol)
    for s in range(60 if path else 12):
        seed = '%s/%d' % (seeds[s % len(seeds)], s)
        fx = fixed(seed) if callable(fixed) else fixed
        v = Valuation(seed, fixed=fx, dom=dom, funcs=funcs)
        try:
            if path and not satisfies(v, path):
                off += 1
                continue
            w = judge(v)
        except TermError as e:
            errs.append(str(e))
            continue
        if w:
            return False, w
        done += 1
        if done >= want:
            break

    def directed(path, seed):
        fx = fixed(seed) if callable(fixed) else fixed
        over = steered(path, seed, fx, dom, funcs)
        if over is None:
            return None, None
        try:
            v = Steered(seed, over, fixed=fx, dom=dom, funcs=funcs)
            return True, judge(v)
        except (TermError, ZeroDivisionError):
            return None, None
    if not done and off and not errs:
        for s in range(2):
            ok, w = directed(path, '%s/s%d' % (seeds[s % len(seeds)], s))
            if w:
                return False, w
            done += bool(ok)
            if ok is None:
                break
    if done:
        for c in conds:
            for val in {True, False} - seen[c]:
                ok, w = directed(list(path or ()) + [(c, val)], '%s/c' % seeds[0])
                if w:
                    return False, w
        return True, None
    if off and not errs:
        return None, None
    raise Inconclusive('cannot evaluate terms: %s' % errs[:2])


# ------------------------------------------------------------------ printing

def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(e, depth) for e in t) + ')'
        return str(t)
    if depth < 0:
        return '…'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op == 'const':
        return a[0]
    if op == 'sym':
        return a[0]
    if op in ('add', 'sub', 'mul', 'div', 'pow', 'lt', 'eq', 'band', 'bor'):
        o = {'add': ' + ', 'sub': ' - ', 'mul': '*', 'div': '/', 'pow': '**', 'lt': ' < ',
             'eq': ' == ', 'band': ' & ', 'bor': ' | '}[op]
        return '(' + show(a[0], d) + o + show(a[1], d) + ')'
    if op == 'neg':
        return '-' + show(a[0], d)
    if op == 'not':
        return 'not ' + show(a[0], d)
    if op == 'fn':
        return a[0] + '(' + ', '.join(show(x, d) for x in a[1:]) + ')'
    if op in ('app', 'papp'):
        s = [show(x, d) for x in a[1]] + ['%s=%s' % (k, show(v, d)) for k, v in a[2]]
        return a[0] + '(' + ', '.join(s) + ')'
    if op == 'idx':
        return show(a[0], d) + '[' + show(a[1], d) + ']'
    return op + '(' + ', '.join(show(x, d) for x in a) + ')'
