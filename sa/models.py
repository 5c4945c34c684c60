"""Evaluation of terms in finite models where arrays are short sequences of concrete numbers.

The terms come from the abstract interpretation of the source; no code of the repository runs here."""
from . import terms as T
from .terms import Term

mpf = T.mpf


class Unknown(Exception):
    """The term has parts that are not determined by the model."""


class Empty(Exception):
    """The element asked for does not exist in this model."""


BINARY = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b, 'pow': lambda a, b: a ** b,
          'lt': lambda a, b: bool(a < b), 'eq': lambda a, b: bool(a == b), 'band': lambda a, b: bool(a) and bool(b), 'bor': lambda a, b: bool(a) or bool(b)}


def lists(f, *args):
    """Apply pointwise, with broadcasting of scalars."""
    n = {len(a) for a in args if isinstance(a, list)}
    if not n:
        return f(*args)
    if len(n) > 1:
        raise Unknown('shapes')
    return [f(*[a[j] if isinstance(a, list) else a for a in args]) for j in range(n.pop())]


class Model:
    """Values of leaves (term -> number or list) and their consequences."""

    def __init__(self, values):
        self.memo = dict(values)

    def __call__(self, t):
        if not isinstance(t, Term):
            if isinstance(t, (bool, str)) or t is None:
                return t
            if isinstance(t, tuple):
                return tuple(self(x) for x in t)
            if isinstance(t, T.NUM):
                return mpf(t.numerator) / mpf(t.denominator)
            raise Unknown(repr(t))
        if t not in self.memo:
            try:
                self.memo[t] = self.evaluate(t)
            except (Unknown, Empty) as e:
                self.memo[t] = e
            except (ZeroDivisionError, TypeError, ValueError) as e:
                self.memo[t] = Unknown(str(e))
        r = self.memo[t]
        if isinstance(r, Exception):
            raise r
        return r

    def evaluate(self, t):
        op, a = t.op, t.args
        if op == 'num':
            return mpf(a[0].numerator) / mpf(a[0].denominator)
        if op == 'const':
            return T.CONSTS[a[0]]()
        if op in BINARY:
            return lists(BINARY[op], self(a[0]), self(a[1]))
        if op == 'neg':
            return lists(lambda x: -x, self(a[0]))
        if op == 'not':
            return lists(lambda x: not x, self(a[0]))
        if op == 'ite':
            c = self(a[0])
            if not isinstance(c, list):
                return self(a[1] if c else a[2])
            return lists(lambda x, y, z: y if x else z, c, self(a[1]), self(a[2]))
        if op == 'fn':
            f = {'max': max, 'min': min}.get(a[0]) or T.MPFN.get(a[0])
            if f is None:
                raise Unknown(a[0])
            return lists(f, *[self(x) for x in a[1:]])
        if op == 'idx':
            return self.element(self(a[0]), a[1])
        if op == 'app':
            return self.apply(a[0].rpartition('.')[2], [self(x) for x in a[1]] if a[0] != 'indices' else [self(a[1][0])])
        raise Unknown(T.show(t))

    def element(self, x, k):
        if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice':
            if not isinstance(x, list):
                raise Unknown('slice of a scalar')
            return x[slice(*[None if q is None else int(self(q)) for q in k[1:]])]
        k = self(k)
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, tuple) and len(k) == 2 and k[1] == 0 and isinstance(x, list):      # column of positions
            k = k[0]
        if not isinstance(x, list):
            raise Unknown('element of a scalar')
        if isinstance(k, list):
            if k and isinstance(k[0], bool):
                return [y for y, w in zip(x, k) if w]
            k = [int(j) for j in k]
            if any(not -len(x) <= j < len(x) for j in k):
                raise Empty('index')
            return [x[j] for j in k]
        if isinstance(k, tuple):
            raise Unknown('key')
        k = int(k)
        if not -len(x) <= k < len(x):
            raise Empty('index %d of %d' % (k, len(x)))
        return x[k]

    def apply(self, name, a):
        x = a[0] if a else None
        if len(a) == 1 and isinstance(x, list):
            if name == 'indices':
                return [mpf(j) for j, y in enumerate(x) if y]
            if name in ('size', 'len'):
                return mpf(len(x))
            if name in ('all', 'any'):
                return (all if name == 'all' else any)(x)
            if name in ('sum', 'count_nonzero'):
                return sum((mpf(int(y)) if isinstance(y, bool) else y if name == 'sum' else mpf(int(y != 0)) for y in x), mpf(0))
            if name in ('max', 'min', 'amax', 'amin', 'argmax', 'argmin'):
                if not x:
                    raise Empty(name)
                y = (max if 'max' in name else min)(x)
                return mpf(x.index(y)) if name.startswith('arg') else y
            if name == 'unique':
                return sorted(set(x))
            if name == 'unique_index':
                return [mpf(x.index(y)) for y in sorted(set(x))]
            if name in ('sort', 'sorted'):
                return sorted(x)
            if name == 'diff':
                return [q - p for p, q in zip(x, x[1:])]
            if name in ('cumsum',):
                return [sum(x[:j + 1], mpf(0)) for j in range(len(x))]
        if len(a) == 1 and name == 'int':
            return mpf(int(x))
        if name == 'isin' and len(a) == 2:
            return lists(lambda y: y in a[1], x)
        if name == 'arange' and len(a) == 1:
            return [mpf(j) for j in range(int(x))]
        raise Unknown(name)
