"""Models of the Python builtins and of the library functions the repository calls.

Everything not modelled becomes an uninterpreted application term and an 'ext' trace event.
"""
import ast
import builtins as _b
import sys
from fractions import Fraction

from . import terms as T
from .terms import Term, isnum
from .values import (Unsupported, PyRaise, VModule, VExternal, VFunc, VBuiltin, VStatic, VClassMethod,
                     VProperty, VBound, VClass, VInst, VSuper, VArray, Iter, Generic)

# ------------------------------------------------------------------ names


def builtin(name):
    if name in ('NotImplemented', 'Ellipsis'):
        return getattr(_b, name)
    if name == '__debug__':
        return True
    if hasattr(_b, name):
        return VExternal('builtins.' + name)
    return None


CONSTVAL = {
    'numpy.pi': T.PI, 'math.pi': T.PI, 'scipy.pi': T.PI, 'scipy.constants.pi': T.PI,
    'numpy.nan': T.NAN, 'math.nan': T.NAN, 'numpy.inf': T.INF, 'math.inf': T.INF,
    'numpy.euler_gamma': T.EULER, 'numpy.e': T.const('e'), 'math.e': T.const('e'),
    'numpy.newaxis': None,
    'scipy.constants.mega': Fraction(10**6), 'scipy.constants.giga': Fraction(10**9),
    'scipy.constants.kilo': Fraction(10**3), 'scipy.constants.tera': Fraction(10**12),
    'scipy.constants.milli': Fraction(1, 10**3), 'scipy.constants.micro': Fraction(1, 10**6),
    'scipy.constants.nano': Fraction(1, 10**9),
}
SCONST = {'c': 'c', 'speed_of_light': 'c', 'hbar': 'hbar', 'G': 'G', 'gravitational_constant': 'G',
          'k': 'k_B', 'Boltzmann': 'k_B', 'e': 'e', 'elementary_charge': 'e', 'eV': 'e',
          'electron_volt': 'e', 'parsec': 'parsec', 'h': 'h', 'Planck': 'h', 'sigma': 'sigma_SB',
          'Stefan_Boltzmann': 'sigma_SB'}
EXTVALUE = {}


def external_value(path):
    if path in CONSTVAL:
        return CONSTVAL[path]
    if path.startswith('scipy.constants.') and path[16:] in SCONST:
        return T.sym('const:' + SCONST[path[16:]])
    if path in ('sys.float_info.epsilon',):
        return Fraction(1, 2**52)
    if path in EXTVALUE:
        return EXTVALUE[path]
    return VExternal(path)


# ------------------------------------------------------------------ pointwise functions

PW1 = {'exp': 'exp', 'log': 'log', 'log10': 'log10', 'log2': 'log2', 'sqrt': 'sqrt', 'sin': 'sin',
       'cos': 'cos', 'tan': 'tan', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh',
       'arcsin': 'arcsin', 'arccos': 'arccos', 'arctan': 'arctan', 'arcsinh': 'arcsinh',
       'arccosh': 'arccosh', 'arctanh': 'arctanh', 'asin': 'arcsin', 'acos': 'arccos',
       'atan': 'arctan', 'asinh': 'arcsinh', 'acosh': 'arccosh', 'atanh': 'arctanh',
       'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs', 'sign': 'sign', 'expm1': 'expm1',
       'log1p': 'log1p', 'cbrt': 'cbrt', 'conj': 'conj', 'conjugate': 'conj', 'real': 'real',
       'imag': 'imag', 'floor': 'floor', 'ceil': 'ceil', 'real_if_close': 'real_if_close',
       'rint': 'round'}
PW2 = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div',
       'power': 'Pow', 'float_power': 'Pow', 'pow': 'Pow', 'mod': 'Mod', 'remainder': 'Mod'}
CMP2 = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq',
        'not_equal': 'NotEq'}


def pw1(interp, name, x):
    if isinstance(x, (list, tuple)):
        x = VArray(list(x))
    if isinstance(x, VArray):
        return interp.vmap(lambda e: pw1(interp, name, e), x)
    if x is None or isinstance(x, (str, dict)):
        raise interp.exc('TypeError', 'bad operand for %s: %r' % (name, x))
    if isinstance(x, bool):
        x = int(x)
    if not (isinstance(x, Term) or isnum(x)):
        raise Unsupported('%s of %r' % (name, x))
    if name == 'real_if_close':
        return T.fn('real_if_close', x) if isinstance(x, Term) else x
    if name == 'cbrt' and False:
        return x
    return T.fn(name, x)


def is_real_number(x):
    return isnum(x) and not isinstance(x, bool)


def copy_array(interp, x):
    if isinstance(x, VArray):
        if x.elems is not None:
            return VArray([copy_array(interp, e) if isinstance(e, VArray) else e for e in x.elems])
        return VArray(None, fill=x.fill, stores=list(x.stores))
    if isinstance(x, (list, tuple)):
        return VArray([copy_array(interp, e) if isinstance(e, (list, tuple, VArray)) else e for e in x])
    if isinstance(x, (range, Iter)):
        return VArray(list(x))
    return x


def allof(interp, x, path):
    name = 'all' if path.endswith('all') else 'any'
    if isinstance(x, (VArray, list, tuple)) and not (isinstance(x, VArray) and x.elems is None):
        es = x.elems if isinstance(x, VArray) else x
        for e in es:
            t = interp.truth(allof(interp, e, path))
            if name == 'all' and not t:
                return False
            if name == 'any' and t:
                return True
        return name == 'all'
    if isinstance(x, bool) or isnum(x):
        return bool(x)
    if isinstance(x, Term):
        if not T.is_array(x) and x.op not in ('app', 'idx'):
            return x
        if name == 'any':
            # any(c) == not all(not c)
            return T.Term('not', (T.app('numpy.all', [negate(x)]),))
        return T.app('numpy.all', [x])
    if isinstance(x, VInst):
        return T.app('numpy.all', [id(x)])
    raise Unsupported('%s of %r' % (path, x))


def negate(x):
    return x.args[0] if x.op == 'not' else T.Term('not', (x,))


def isfinite(interp, x, kind):
    if isinstance(x, VArray) and x.elems is not None:
        return VArray([isfinite(interp, e, kind) for e in x.elems])
    if isinstance(x, (list, tuple)):
        return VArray([isfinite(interp, e, kind) for e in x])
    if x is None or isinstance(x, str):
        raise interp.exc('TypeError', 'isfinite not supported')
    if isnum(x) or isinstance(x, bool):
        return kind == 'isfinite'
    if x is T.NAN:
        return kind == 'isnan'
    if x is T.INF or x is T.neg(T.INF):
        return kind == 'isinf'
    if isinstance(x, Term):
        if x.op == 'num':
            return kind == 'isfinite'
        return T.Term('papp', ('numpy.' + kind, (x,), ()))
    raise Unsupported('isfinite of %r' % (x,))


def size_of(interp, x):
    if isinstance(x, VArray):
        if x.elems is not None:
            n = 0
            for e in x.elems:
                s = size_of(interp, e)
                n = interp.binop('Add', n, s)
            return n
        return T.app('numpy.size', ['filled'])
    if isinstance(x, (list, tuple)):
        return len(x)
    if isinstance(x, Term) and (T.is_array(x) or x.op in ('idx', 'app')):
        return T.app('numpy.size', [x])
    return 1


def len_of(interp, x):
    if isinstance(x, (list, tuple, str, dict, set, frozenset, range)):
        return len(x)
    if isinstance(x, VArray) and x.elems is not None:
        return len(x.elems)
    if isinstance(x, VArray):
        return T.app('len', ['filled'])
    if isinstance(x, Term):
        if T.is_array(x) or x.op in ('app', 'idx'):
            return T.app('numpy.size', [x])
        raise interp.exc('TypeError', 'object has no len()')
    if isinstance(x, VInst):
        if isinstance(x.cls, VClass):
            return interp.call(interp.getattr(x, '__len__'), [], {})
        return len(x.attrs)
    raise interp.exc('TypeError', 'object has no len()')


def minmax(interp, name, args):
    if len(args) == 1:
        x = args[0]
        if isinstance(x, Term):
            return T.app('numpy.' + name, [x])
        args = list(interp.iterate(x))
        if not args:
            raise interp.exc('ValueError', '%s() arg is an empty sequence' % name)
    if all(isnum(a) for a in args) or all(isinstance(a, str) for a in args):
        return (max if name == 'max' else min)(args)
    if any(a is None or isinstance(a, (str, list, dict)) for a in args):
        raise interp.exc('TypeError', name)
    args = [a for i, a in enumerate(args) if a not in args[:i]]
    if len(args) == 1:
        return args[0]
    return T.fn(name, *args)


# ------------------------------------------------------------------ calls

def generic_call(interp, path, args, kwargs):
    def flat(a):
        if isinstance(a, (list, tuple)):
            return tuple(flat(x) for x in a)
        if isinstance(a, VArray):
            return ('array', flat(a.elems)) if a.elems is not None else (
                'filled', flat(a.fill), tuple((T.freeze(k), flat(v)) for k, v in a.stores))
        if isinstance(a, (VInst, VFunc, VClass, VBound, VModule, VBuiltin, Iter)):
            return ('obj', type(a).__name__, id(a))
        if isinstance(a, VExternal):
            return ('ext', a.path)
        if isinstance(a, dict):
            return ('dict',) + tuple((k, flat(v)) for k, v in a.items())
        return T.freeze(a)
    r = T.app(path, [flat(a) for a in args], {k: flat(v) for k, v in kwargs.items()})
    interp.log('ext', path, args, kwargs, r)
    interp.unmodelled.add(path)
    return r


def call_external(interp, path, args, kwargs):
    if path in interp.stubs:
        return interp.stubs[path](interp, args, kwargs)
    f = CALLS.get(path)
    if f is not None:
        return f(interp, args, kwargs)
    root, _, name = path.rpartition('.')
    if root in ('cmath', 'numpy.lib.scimath', 'numpy.emath') and name == 'sqrt' and isinstance(args[0], Term):
        return T.fn('sqrt', T.add(args[0], T.CZERO))
    if root in ('numpy', 'math', 'cmath', 'numpy.lib.scimath', 'numpy.emath', 'scipy.special', 'numpy.core'):
        if name in PW1 and len(args) >= 1 and not (set(kwargs) - {'dtype'}):
            if name == 'log' and len(args) == 2:
                return interp.binop('Div', pw1(interp, 'log', args[0]), pw1(interp, 'log', args[1]))
            interp.log('ext', path, args, kwargs, None)
            return pw1(interp, PW1[name], args[0])
        if name == 'square':
            return interp.binop('Pow', args[0], 2)
        if name == 'reciprocal':
            return interp.binop('Div', 1, args[0])
        if name in ('negative',):
            return interp.neg(args[0])
        if name == 'positive':
            return args[0]
        if name in PW2 and len(args) == 2 and not kwargs:
            a, b = [VArray(list(x)) if isinstance(x, (list, tuple)) else x for x in args]
            return interp.binop(PW2[name], a, b)
        if name in CMP2 and len(args) == 2:
            return interp.compare(CMP2[name], args[0], args[1])
        if name in ('arctan2', 'atan2', 'hypot'):
            return T.fn('arctan2' if name != 'hypot' else 'hypot', *args)
        if name in ('maximum', 'fmax'):
            return minmax(interp, 'max', args)
        if name in ('minimum', 'fmin'):
            return minmax(interp, 'min', args)
        if name in ('isfinite', 'isnan', 'isinf'):
            return isfinite(interp, args[0], name)
        if name in ('logical_and', 'logical_or'):
            return interp.binop('BitAnd' if name == 'logical_and' else 'BitOr', *args)
        if name == 'logical_not':
            x = args[0]
            return negate(x) if isinstance(x, Term) else not interp.truth(x)
    if path.startswith('builtins.'):
        e = getattr(_b, name, None)
        if isinstance(e, type) and issubclass(e, BaseException):
            return VInst(VExternal(path), {'args': tuple(args)}, name=name)
    if path in BUNCHES:
        return VInst(VExternal(path), {k: v for k, v in kwargs.items()})
    return generic_call(interp, path, args, kwargs)


BUNCHES = {'scipy.integrate.OdeResult', 'types.SimpleNamespace', 'argparse.Namespace',
           'scipy.optimize.OptimizeResult', 'sklearn.utils.Bunch'}

CALLS = {}


def model(*paths):
    def deco(f):
        for p in paths:
            CALLS[p] = f
        return f
    return deco


@model('builtins.getattr')
def _getattr(i, a, k):
    if len(a) == 2:
        return i.getattr(a[0], a[1])
    try:
        return i.getattr(a[0], a[1]) if i.hasattr(a[0], a[1]) else a[2]
    except PyRaise as e:
        if i.isinstance_(e.value, VExternal('builtins.AttributeError')):
            return a[2]
        raise


@model('builtins.setattr')
def _setattr(i, a, k):
    i.setattr(a[0], a[1], a[2])


@model('builtins.hasattr')
def _hasattr(i, a, k):
    return i.hasattr(a[0], a[1])


@model('builtins.delattr')
def _delattr(i, a, k):
    i.delattr(a[0], a[1])


@model('builtins.isinstance')
def _isinstance(i, a, k):
    return i.isinstance_(a[0], tuple(a[1]) if isinstance(a[1], (list, tuple)) else a[1])


@model('builtins.issubclass')
def _issubclass(i, a, k):
    return i.issubclass_(a[0], a[1])


@model('builtins.callable')
def _callable(i, a, k):
    x = a[0]
    if isinstance(x, VInst):
        if isinstance(x.cls, VClass):
            return i.class_attr(x.cls, '__call__') is not None
        return x.cls.path in CALLABLE_EXT
    return isinstance(x, (VFunc, VBuiltin, VBound, VClass, VExternal))


@model('builtins.type')
def _type(i, a, k):
    x = a[0]
    if isinstance(x, VInst):
        return x.cls
    for py, n in ((bool, 'bool'), (int, 'int'), (str, 'str'), (list, 'list'), (tuple, 'tuple'),
                  (dict, 'dict'), (set, 'set'), (Fraction, 'float')):
        if isinstance(x, py):
            return VExternal('builtins.' + n)
    if isinstance(x, Term):
        return VExternal('numpy.ndarray' if T.is_array(x) else 'builtins.float')
    if isinstance(x, VArray):
        return VExternal('numpy.ndarray')
    if isinstance(x, (VFunc, VBuiltin)):
        return VExternal('types.FunctionType')
    if x is None:
        return VExternal('types.NoneType')
    if isinstance(x, float):
        return VExternal('builtins.float')
    raise Unsupported('type(%r)' % (x,))


@model('builtins.len')
def _len(i, a, k):
    return len_of(i, a[0])


@model('numpy.size')
def _size(i, a, k):
    return size_of(i, a[0])


@model('numpy.shape')
def _shape(i, a, k):
    x = a[0]
    if isinstance(x, Term) and not T.is_array(x):
        return ()
    if isnum(x):
        return ()
    return T.app('numpy.shape', [x]) if isinstance(x, Term) else (len_of(i, x),)


@model('numpy.ndim')
def _ndim(i, a, k):
    x = a[0]
    if isnum(x) or (isinstance(x, Term) and not T.is_array(x)):
        return 0
    return 1


@model('numpy.isscalar')
def _isscalar(i, a, k):
    x = a[0]
    return isnum(x) or isinstance(x, (str, bool)) or (isinstance(x, Term) and not T.is_array(x))


@model('builtins.range')
def _range(i, a, k):
    if not all(isinstance(x, int) for x in a):
        if any(isinstance(x, Fraction) for x in a) or any(x is None for x in a):
            raise i.exc('TypeError', 'range')
        i.genctr += 1
        g = T.sym('#i%d' % i.genctr)
        return Generic([g])
    return range(*a)


def _gen(i, x):
    it = i.iter_items(x)
    return it


@model('builtins.enumerate')
def _enumerate(i, a, k):
    it = _gen(i, a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(it, Generic):
        x = it.items[0]
        key = x.args[1] if isinstance(x, Term) and x.op == 'idx' else gen_index(x)
        if key is None:
            i.genctr += 1
            key = T.sym('#i%d' % i.genctr)
        return Generic([(T.add(key, start) if start else key, x)])
    return Iter((start + n, x) for n, x in enumerate(it))


def gen_index(x):
    """Generic loop index symbol inside an element term."""
    if not isinstance(x, Term):
        return None
    for s in T.subterms(x):
        if s.op == 'sym' and s.args[0].startswith('#i'):
            return s
    return None


@model('builtins.zip')
def _zip(i, a, k):
    its = [_gen(i, x) for x in a]
    if any(isinstance(x, Generic) for x in its):
        i.genctr += 1
        g = T.sym('#i%d' % i.genctr)
        out = []
        for x, it in zip(a, its):
            if isinstance(it, Generic):
                el = it.items[0]
                if isinstance(x, Term):
                    el = T.index(x, g)
                out.append(el)
            else:
                out.append(T.app('zipitem', [len(out), g]))
        return Generic([tuple(out)])
    return Iter(zip(*its))


@model('builtins.map')
def _map(i, a, k):
    it = _gen(i, a[1])
    if isinstance(it, Generic):
        return Generic([i.call(a[0], [x], {}) for x in it.items])
    if len(a) > 2:
        return Iter([i.call(a[0], list(xs), {}) for xs in zip(*[i.iterate(x) for x in a[1:]])])
    return Iter([i.call(a[0], [x], {}) for x in it])


@model('builtins.filter')
def _filter(i, a, k):
    return Iter([x for x in i.iterate(a[1]) if i.truth(x if a[0] is None else i.call(a[0], [x], {}))])


@model('builtins.sorted')
def _sorted(i, a, k):
    xs = list(i.iterate(a[0]))
    if 'key' in k or not (all(isnum(x) for x in xs) or all(isinstance(x, str) for x in xs)):
        if len(xs) > 1:
            raise Unsupported('sorted')
    return sorted(xs, reverse=bool(k.get('reverse', False)))


@model('builtins.reversed')
def _reversed(i, a, k):
    return Iter(list(i.iterate(a[0]))[::-1])


@model('builtins.list')
def _list(i, a, k):
    if not a:
        return []
    it = i.iter_items(a[0])
    if isinstance(it, Generic):
        return a[0] if isinstance(a[0], Term) else list(it.items)
    return list(it)


@model('builtins.tuple')
def _tuple(i, a, k):
    return tuple(i.iterate(a[0])) if a else ()


@model('builtins.set', 'builtins.frozenset')
def _set(i, a, k):
    return set(i.iterate(a[0])) if a else set()


@model('builtins.dict')
def _dict(i, a, k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        elif isinstance(a[0], VInst):
            d.update(a[0].attrs)
        else:
            for kv in i.iterate(a[0]):
                kk, vv = list(i.iterate(kv))
                d[kk] = vv
    d.update(k)
    return d


@model('builtins.str')
def _str(i, a, k):
    return fmt(i, a[0], '') if a else ''


@model('builtins.repr')
def _repr(i, a, k):
    return to_repr(i, a[0])


@model('builtins.int')
def _int(i, a, k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, bool):
        return int(x)
    if isnum(x):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise i.exc('ValueError', 'int')
    if isinstance(x, Term):
        return x if T.is_count(x) else T.fn('trunc', x)
    raise i.exc('TypeError', 'int()')


@model('builtins.float', 'numpy.float64', 'numpy.float32', 'numpy.longdouble')
def _float(i, a, k):
    if not a:
        return Fraction(0)
    x = a[0]
    if isinstance(x, (bool, int, Fraction)):
        return Fraction(x)
    if isinstance(x, str):
        try:
            v = float(x)
        except ValueError:
            raise i.exc('ValueError', 'float')
        if v != v:
            return T.NAN
        if abs(v) == float('inf'):
            return T.INF if v > 0 else T.neg(T.INF)
        return Fraction(x.strip())
    if isinstance(x, Term):
        return x
    if isinstance(x, VArray) and x.elems is not None and len(x.elems) == 1:
        return x.elems[0]
    raise i.exc('TypeError', 'float()')


@model('builtins.complex', 'numpy.complex128')
def _complex(i, a, k):
    if len(a) == 2:
        return i.binop('Add', a[0], i.binop('Mult', a[1], T.I))
    return i.binop('Add', a[0], T.CZERO) if a else T.CZERO


@model('builtins.bool')
def _bool(i, a, k):
    if not a:
        return False
    x = a[0]
    if isinstance(x, Term) and x.op in ('lt', 'eq', 'not', 'app', 'band', 'bor'):
        return x
    return i.truth(x)


@model('builtins.abs')
def _abs(i, a, k):
    return pw1(i, 'abs', a[0])


def extremum(i, name, a, k):
    """max/min with a default for empty collections or a key."""
    if 'default' in k and len(a) == 1:
        if isinstance(a[0], Term):
            if i.truth(T.Term('eq', (T.lift(size_of(i, a[0])), T.num(0)))):
                return k['default']
        else:
            a = [list(i.iterate(a[0]))]
            if not a[0]:
                return k['default']
    if k.get('key') is not None:
        xs = list(i.iterate(a[0])) if len(a) == 1 else list(a)
        keys = [i.call(k['key'], [x], {}) for x in xs]
        if not xs:
            raise i.exc('ValueError', '%s() arg is an empty sequence' % name)
        best = 0
        for j in range(1, len(xs)):
            if i.truth(i.compare('Gt' if name == 'max' else 'Lt', keys[j], keys[best])):
                best = j
        return xs[best]
    return minmax(i, name, a)


@model('builtins.max')
def _pymax(i, a, k):
    return extremum(i, 'max', a, k)


@model('builtins.min')
def _pymin(i, a, k):
    return extremum(i, 'min', a, k)


@model('numpy.max', 'numpy.amax', 'numpy.nanmax')
def _max(i, a, k):
    return minmax(i, 'max', a)


@model('numpy.min', 'numpy.amin', 'numpy.nanmin')
def _min(i, a, k):
    return minmax(i, 'min', a)


@model('builtins.sum', 'numpy.sum')
def _sum(i, a, k):
    it = i.iter_items(a[0])
    if isinstance(it, Generic):
        return generic_call(i, 'numpy.sum', a, k)
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for x in it:
        r = i.binop('Add', r, x)
    return r


@model('numpy.prod', 'math.prod')
def _prod(i, a, k):
    r = 1
    for x in i.iterate(a[0]):
        r = i.binop('Mult', r, x)
    return r


@model('builtins.any', 'numpy.any')
def _any(i, a, k):
    if isinstance(a[0], Iter):
        return any(i.truth(x) for x in a[0])
    return allof(i, a[0], 'any')


@model('builtins.all', 'numpy.all')
def _all(i, a, k):
    if isinstance(a[0], Iter):
        return all(i.truth(x) for x in a[0])
    return allof(i, a[0], 'all')


@model('builtins.print')
def _print(i, a, k):
    i.log('print', a)


@model('builtins.round', 'numpy.round')
def _round(i, a, k):
    if isnum(a[0]):
        return round(a[0], *a[1:])
    return T.fn('round', a[0]) if len(a) == 1 else generic_call(i, 'round', a, k)


@model('builtins.pow')
def _pow(i, a, k):
    return i.binop('Pow', a[0], a[1])


@model('builtins.iter')
def _iter(i, a, k):
    it = i.iter_items(a[0])
    return it if isinstance(it, (Generic, Iter)) else Iter(it)


@model('builtins.next')
def _next(i, a, k):
    it = a[0]
    if isinstance(it, Iter):
        if it.pos < len(it.items):
            it.pos += 1
            return it.items[it.pos - 1]
        if len(a) > 1:
            return a[1]
        raise i.exc('StopIteration', '')
    raise Unsupported('next')


@model('builtins.vars')
def _vars(i, a, k):
    return i.getattr(a[0], '__dict__')


@model('builtins.dir')
def _dir(i, a, k):
    if isinstance(a[0], VInst):
        return sorted(a[0].attrs)
    raise Unsupported('dir')


@model('builtins.super')
def _super(i, a, k):
    return VSuper(a[0], a[1])


@model('builtins.id')
def _id(i, a, k):
    return id(a[0])


@model('builtins.object')
def _object(i, a, k):
    return VInst(VExternal('builtins.object'))


@model('builtins.slice')
def _slice(i, a, k):
    return slice(*a)


@model('builtins.divmod')
def _divmod(i, a, k):
    return (i.binop('FloorDiv', *a), i.binop('Mod', *a))


@model('builtins.hash')
def _hash(i, a, k):
    return generic_call(i, 'builtins.hash', a, k)


@model('builtins.property')
def _property(i, a, k):
    return VProperty(a[0])


@model('builtins.staticmethod')
def _staticmethod(i, a, k):
    return VStatic(a[0])


@model('builtins.classmethod')
def _classmethod(i, a, k):
    return VClassMethod(a[0])


@model('functools.cached_property')
def _cprop(i, a, k):
    return VProperty(a[0], cached=True)


@model('functools.partial')
def _partial(i, a, k):
    f, pre, prek = a[0], a[1:], dict(k)

    def call(it, args, kwargs):
        kk = dict(prek)
        kk.update(kwargs)
        return it.call(f, pre + args, kk)
    return VBuiltin('partial', call)


@model('functools.wraps')
def _wraps(i, a, k):
    return VBuiltin('deco', lambda it, aa, kk: aa[0])


@model('functools.lru_cache', 'functools.cache')
def _lru_cache(i, a, k):
    if len(a) == 1 and isinstance(a[0], VFunc):
        a[0].attrs['memoised'] = True
        return a[0]

    def deco(it, aa, kk):
        if isinstance(aa[0], VFunc):
            aa[0].attrs['memoised'] = True
        return aa[0]
    return VBuiltin('deco', deco)


@model('functools.reduce')
def _reduce(i, a, k):
    xs = list(i.iterate(a[1]))
    r = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        r = i.call(a[0], [r, x], {})
    return r


@model('types.MethodType')
def _methodtype(i, a, k):
    return VBound(a[0], a[1])


@model('copy.copy')
def _copy(i, a, k):
    x = a[0]
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, list):
        return list(x)
    if isinstance(x, VInst):
        o = VInst(x.cls, dict(x.attrs), x.name, x.open_)
        return o
    return copy_array(i, x)


@model('copy.deepcopy')
def _deepcopy(i, a, k):
    return _copy(i, a, k)


@model('contextlib.suppress')
def _suppress(i, a, k):
    return VInst(VExternal('contextlib.suppress'), {'args': tuple(a)})


@model('itertools.product')
def _product(i, a, k):
    import itertools
    return Iter(itertools.product(*[list(i.iterate(x)) for x in a], repeat=k.get('repeat', 1)))


@model('itertools.chain')
def _chain(i, a, k):
    out = []
    for x in a:
        out.extend(i.iterate(x))
    return Iter(out)


@model('operator.attrgetter')
def _attrgetter(i, a, k):
    return VBuiltin('attrgetter', lambda it, aa, kk: it.getattr(aa[0], a[0]))


for _n, _op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('pow', 'Pow')):
    CALLS['operator.' + _n] = (lambda op: lambda i, a, k: i.binop(op, a[0], a[1]))(_op)


# ---- warnings

@model('warnings.warn')
def _warn(i, a, k):
    msg = a[0] if a else k.get('message')
    cat = a[1] if len(a) > 1 else k.get('category')
    if isinstance(msg, VInst):
        cat = msg.cls
    elif cat is None:
        cat = VExternal('builtins.UserWarning')
    i.log('warn', cat, msg)


@model('warnings.catch_warnings')
def _catch(i, a, k):
    return VInst(VExternal('warnings.catch_warnings'), dict(k))


@model('warnings.filterwarnings', 'warnings.simplefilter')
def _filterw(i, a, k):
    i.log('filterwarnings', a, k)


# ---- numpy constructors

@model('numpy.atleast_1d')
def _atleast1d(i, a, k):
    if isnum(a[0]) or isinstance(a[0], Term) and not T.is_array(a[0]) and a[0].op not in ('app', 'idx', 'papp'):
        return VArray([a[0]])
    return _array(i, a, k)


@model('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.copy',
       'numpy.ascontiguousarray')
def _array(i, a, k):
    x = a[0] if a else k.get('object')
    if isinstance(x, VArray) and x.elems is None:
        return copy_array(i, x)
    if isinstance(x, Generic):
        return x
    return copy_array(i, x)


@model('numpy.zeros', 'numpy.empty')
def _zeros(i, a, k):
    n = a[0] if a else k.get('shape')
    if isinstance(n, int):
        return VArray([0] * n)
    return VArray(None, fill=0)


@model('numpy.ones')
def _ones(i, a, k):
    n = a[0]
    if isinstance(n, int):
        return VArray([1] * n)
    return VArray(None, fill=1)


def _like(i, x, v):
    if isinstance(x, VArray) and x.elems is not None:
        return VArray([v] * len(x.elems))
    if isinstance(x, (list, tuple)):
        return VArray([v] * len(x))
    r = VArray(None, fill=v)
    r.like = x
    return r


@model('numpy.zeros_like', 'numpy.empty_like')
def _zeros_like(i, a, k):
    return _like(i, a[0], 0)


@model('numpy.ones_like')
def _ones_like(i, a, k):
    return _like(i, a[0], 1)


@model('numpy.full_like')
def _full_like(i, a, k):
    return _like(i, a[0], a[1] if len(a) > 1 else k['fill_value'])


@model('numpy.full')
def _full(i, a, k):
    v = a[1] if len(a) > 1 else k['fill_value']
    if isinstance(a[0], int):
        return VArray([v] * a[0])
    return VArray(None, fill=v)


@model('numpy.where')
def _where(i, a, k):
    if len(a) == 1:
        return (_indices(i, a[0]),)
    c, x, y = a
    if isinstance(c, bool):
        return x if c else y
    if isinstance(c, Term):
        if isinstance(x, VArray) or isinstance(y, VArray):
            raise Unsupported('np.where of arrays')
        return T.ite(c, x, y)
    if isinstance(c, VArray) and c.elems is not None:
        g = lambda v, n: v.elems[n] if isinstance(v, VArray) else v  # noqa
        return VArray([_where(i, [cc, g(x, n), g(y, n)], {}) for n, cc in enumerate(c.elems)])
    raise Unsupported('np.where')


@model('numpy.clip')
def _clip(i, a, k):
    lo = a[1] if len(a) > 1 else k.get('a_min')
    hi = a[2] if len(a) > 2 else k.get('a_max')
    r = a[0]
    if lo is not None:
        r = minmax(i, 'max', [r, lo])
    if hi is not None:
        r = minmax(i, 'min', [r, hi])
    return r


@model('numpy.gradient')
def _gradient(i, a, k):
    return generic_call(i, 'numpy.gradient', a, k)


@model('numpy.polyval')
def _polyval(i, a, k):
    p = list(i.iterate(a[0]))
    r = 0
    for c in p:
        r = i.binop('Add', i.binop('Mult', r, a[1]), c)
    return r


@model('numpy.vstack', 'numpy.stack')
def _vstack(i, a, k):
    rows = list(i.iterate(a[0]))
    r = VArray(rows)
    i.log('ext', 'numpy.vstack', a, k, r)
    return r


def _shiftless(t):
    """Array without added scalars (order and coincidences are unaffected by a common shift)."""
    if isinstance(t, Term) and t.op in ('add', 'sub') and T.is_array(t):
        a, b = t.args
        if not T.is_array(b):
            return _shiftless(a)
        if not T.is_array(a):
            return _shiftless(b) if t.op == 'add' else T.neg(_shiftless(b))
    return t


@model('numpy.unique')
def _unique(i, a, k):
    x = _fz(a[0] if a else k['ar'])
    out = [T.app('numpy.unique', [x])]
    flags = dict(zip(('return_index', 'return_inverse', 'return_counts'), a[1:]), **k)
    for f in ('return_index', 'return_inverse', 'return_counts'):
        if flags.get(f):
            out.append(T.app('numpy.unique_' + f[7:], [_shiftless(x)]))
    i.log('ext', 'numpy.unique', a, k, out)
    return out[0] if len(out) == 1 else tuple(out)


@model('numpy.isin')
def _isin(i, a, k):
    return generic_call(i, 'numpy.isin', a, k)


@model('scipy.special.zeta')
def _zeta(i, a, k):
    return T.fn('zeta', a[0])


@model('scipy.special.lambertw')
def _lambertw(i, a, k):
    br = a[1] if len(a) > 1 else k.get('k', 0)
    return T.fn('lambertw', a[0], br)


@model('scipy.special.factorial', 'math.factorial')
def _fact(i, a, k):
    import math
    if isinstance(a[0], int):
        return math.factorial(a[0])
    return generic_call(i, 'factorial', a, k)


CALLABLE_EXT = {'scipy.interpolate.interp1d', 'scipy.interpolate.InterpolatedUnivariateSpline',
                'scipy.interpolate.UnivariateSpline', 'scipy.interpolate.CubicSpline'}


POSITIONAL = {'interp1d': ('kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted'),
              'InterpolatedUnivariateSpline': ('w', 'bbox', 'k', 'ext', 'check_finite'),
              'UnivariateSpline': ('w', 'bbox', 'k', 's', 'ext', 'check_finite'),
              'CubicSpline': ('axis', 'bc_type', 'extrapolate')}


def _interp(path):
    def f(i, a, k):
        name = path.split('.')[-1]
        k = dict(k)
        a = list(a)
        for n in ('x', 'y')[len(a):]:
            a.append(k.pop(n))
        k.update(zip(POSITIONAL[name], a[2:]))
        o = VInst(VExternal(path), {'x': a[0], 'y': a[1], '$kw': dict(k)}, name=name)
        o.term = T.app('interpolator:' + name, [_fz(a[0]), _fz(a[1])], {kk: _fz(v) for kk, v in sorted(k.items())})
        i.log('ext', path, a[:2], k, o)
        return o
    return f


def spline_d(f, x, n):
    """n-th derivative of a spline at x."""
    n += f.attrs.get('$deriv', 0)
    if n == 0:
        return T.app('interp', [f.term, _fz(x)], {}, pointwise=True)
    return T.app('spline_d', [f.term, _fz(x), n], {}, pointwise=True)


def _fz(v):
    if isinstance(v, VArray):
        return ('array', tuple(_fz(e) for e in v.elems)) if v.elems is not None else (
            'filled', _fz(v.fill), tuple((T.freeze(kk), _fz(x)) for kk, x in v.stores))
    if isinstance(v, (VInst, VFunc, VBound, VClass)):
        return ('obj', id(v))
    if isinstance(v, (list, tuple)):
        return tuple(_fz(e) for e in v)
    return T.freeze(v)


for _p in CALLABLE_EXT:
    CALLS[_p] = _interp(_p)


@model('numpy.interp')
def _npinterp(i, a, k):
    r = T.app('interp', [_fz(x) for x in a])
    i.log('ext', 'numpy.interp', a, k, r)
    return r


@model('scipy.optimize.root_scalar')
def _root_scalar(i, a, k):
    i.genctr += 1
    root = T.sym('root#%d' % i.genctr)
    r = VInst(VExternal('scipy.optimize.RootResults'),
              {'root': root, 'converged': True, 'flag': 'converged',
               'function_calls': T.sym('nfev#%d' % i.genctr), 'iterations': T.sym('nit#%d' % i.genctr)})
    i.log('ext', 'scipy.optimize.root_scalar', a, k, r)
    return r


@model('scipy.integrate.quad')
def _quad(i, a, k):
    i.genctr += 1
    r = (T.sym('quad#%d' % i.genctr), T.sym('quaderr#%d' % i.genctr))
    i.log('ext', 'scipy.integrate.quad', a, k, r)
    return r


# ------------------------------------------------------------------ instances of external classes

def call_instance(interp, f, args, kwargs):
    p = f.cls.path
    if p in CALLABLE_EXT:
        x = args[0] if args else kwargs.get('x')
        if isinstance(x, VArray) and x.elems is not None:
            return VArray([call_instance(interp, f, [e] + list(args[1:]), kwargs) for e in x.elems])
        rest = tuple(_fz(a) for a in args[1:])
        kw = {k: _fz(v) for k, v in kwargs.items() if k != 'x'}
        nu = kw.pop('nu', 0)
        if f.attrs.get('$deriv') or isinstance(nu, int) and nu:
            r = spline_d(f, x, nu)
            interp.log('interp_eval', f, x, r)
            return r
        r = T.app('interp', [f.term, _fz(x)] + list(rest), kw, pointwise=True)
        interp.log('interp_eval', f, x, r)
        return r
    h = getattr(f, 'call', None)
    if h is not None:
        return h(interp, args, kwargs)
    raise Unsupported('call of %s instance' % p)


def call_term(interp, t, args, kwargs):
    r = T.app('call', [t] + [_fz(a) for a in args], {k: _fz(v) for k, v in kwargs.items()})
    interp.log('ext', 'call', [t] + list(args), kwargs, r)
    return r


def _is_bunch(o):
    return isinstance(o, VInst) and isinstance(o.cls, VExternal) and (
        o.cls.path in BUNCHES or o.cls.path.endswith('Bunch'))


def external_method(interp, k, o, name):
    """Attribute of an external base class of a repository class."""
    if name == '__init__' and k.path.startswith('builtins.'):
        def init(i, a, kw, obj=o):
            if isinstance(obj, VInst) and k.path != 'builtins.object':
                obj.attrs['args'] = tuple(a)
        return VBuiltin('object.__init__', init)
    if k.path.startswith('builtins.') and name == 'with_traceback':
        return VBuiltin('with_traceback', lambda i, a, kw: o)
    if name == '__str__' and isinstance(o, VInst) and 'args' in o.attrs:
        return VBuiltin('__str__', lambda i, a, kw: fmt(i, o, ''))
    h = interp.stubs.get('method:%s.%s' % (k.path, name))
    if h is not None:
        return VBuiltin(name, lambda i, a, kw: h(i, [o] + list(a), kw))
    if k.path == 'cobaya.theory.Theory' and name in ('initialize', 'must_provide', 'initialize_with_params'):
        return VBuiltin(name, lambda i, a, kw: None)
    return None


def instance_attr(interp, o, name):
    p = o.cls.path
    h = interp.stubs.get('method:%s.%s' % (p, name))
    if h is not None:
        return VBuiltin(name, lambda i, a, kw: h(i, [o] + list(a), kw))
    if _is_bunch(o) or getattr(o, 'bunch', False):
        return mapping_method(interp, o, name)
    if p in CALLABLE_EXT and name in ('derivative', 'derivatives', 'roots', 'antiderivative', 'integral'):
        def meth(i, a, kw):
            if name == 'derivative':
                n = a[0] if a else kw.get('n', 1)
                if not isinstance(n, int):
                    raise Unsupported('order of spline derivative')
                d = VInst(o.cls, {'$deriv': n + o.attrs.get('$deriv', 0), '$kw': o.attrs.get('$kw', {})}, name=o.name)
                d.term = o.term
                return d
            if name == 'derivatives':
                deg = o.attrs.get('$kw', {}).get('k', 3)
                if not isinstance(deg, int):
                    deg = 3
                r = VArray([spline_d(o, a[0] if a else kw['x'], j) for j in range(deg + 1)])
                i.log('ext', 'derivatives', [o] + list(a), kw, r)
                return r
            r = T.app('spline_' + name, [o.term] + [_fz(x) for x in a],
                      {kk: _fz(v) for kk, v in kw.items()})
            i.log('ext', 'spline_' + name, [o] + list(a), kw, r)
            return r
        return VBuiltin(name, meth)
    return None


def mapping_method(interp, o, name):
    A = o.attrs
    if name == 'get':
        def get(i, a, k):
            d = a[1] if len(a) > 1 else None
            return i.getattr(o, a[0]) if i.hasattr(o, a[0]) else d
        return VBuiltin('get', get)
    if name == 'pop':
        def pop(i, a, k):
            if not i.hasattr(o, a[0]):
                if len(a) > 1:
                    return a[1]
                raise i.exc('KeyError', a[0])
            v = i.getattr(o, a[0])
            i.delattr(o, a[0])
            return v
        return VBuiltin('pop', pop)
    if name == 'keys':
        return VBuiltin('keys', lambda i, a, k: list(A))
    if name == 'values':
        return VBuiltin('values', lambda i, a, k: list(A.values()))
    if name == 'items':
        return VBuiltin('items', lambda i, a, k: list(A.items()))
    if name == 'update':
        def upd(i, a, k):
            for d in list(a) + [k]:
                for kk, v in (d.items() if isinstance(d, dict) else d.attrs.items()):
                    i.setattr(o, kk, v)
        return VBuiltin('update', upd)
    if name == 'setdefault':
        def sd(i, a, k):
            if not i.hasattr(o, a[0]):
                i.setattr(o, a[0], a[1] if len(a) > 1 else None)
            return i.getattr(o, a[0])
        return VBuiltin('setdefault', sd)
    if name == 'copy':
        def cp(i, a, k):
            n = VInst(o.cls, dict(A), o.name, o.open_)
            return n
        return VBuiltin('copy', cp)
    if name == '__contains__':
        return VBuiltin('__contains__', lambda i, a, k: i.hasattr(o, a[0]))
    if name in ('__setattr__', '__setitem__'):
        return VBuiltin(name, lambda i, a, k: i.setattr(o, a[0], a[1]))
    if name in ('__getattr__', '__getitem__'):
        return VBuiltin(name, lambda i, a, k: i.getattr(o, a[0]))
    if name in ('__delattr__', '__delitem__'):
        return VBuiltin(name, lambda i, a, k: i.delattr(o, a[0]))
    return None


def instance_getitem(interp, o, k):
    if isinstance(k, str) and (_is_bunch(o) or getattr(o, 'bunch', False)):
        if interp.hasattr(o, k):
            return interp.getattr(o, k)
        raise interp.exc('KeyError', k)
    h = getattr(o, 'getitem', None)
    if h is not None:
        return h(k)
    return None


def instance_iter(interp, o):
    if _is_bunch(o) or getattr(o, 'bunch', False):
        return list(o.attrs)
    return None


# ------------------------------------------------------------------ values

def term_getitem(interp, t, k):
    if isinstance(k, VArray):
        if k.elems is not None:
            k = tuple(k.elems)
        else:
            raise Unsupported('index by filled array')
    if isinstance(k, slice):
        f = lambda x: x if x is None or isinstance(x, (int, Term)) else Unsupported  # noqa
        if any(f(x) is Unsupported for x in (k.start, k.stop, k.step)):
            raise Unsupported('slice bounds')
        if k == slice(None, None, None):
            return t
    if k is Ellipsis or (isinstance(k, tuple) and not k):
        return t
    if isinstance(k, tuple) and k and k[-1] is Ellipsis:
        k = k[:-1]
        if len(k) == 1:
            k = k[0]
    if isinstance(k, tuple) and any(x is None for x in k):
        return t
    if t.op in ('sym',) and not T.is_array(t) and not getattr(interp, 'indexable', {}).get(t):
        if isinstance(k, int) or isinstance(k, slice):
            raise interp.exc('TypeError', 'scalar %s is not subscriptable' % T.show(t))
    return T.index(t, k)


STRM = ('endswith', 'startswith', 'lower', 'upper', 'strip', 'split', 'replace', 'find', 'rstrip',
        'lstrip', 'isdigit', 'title', 'capitalize', 'count', 'index', 'rsplit', 'partition', 'zfill')


def value_attr(interp, v, name):
    if isinstance(v, str):
        if name == 'format':
            def f(i, a, k):
                return format_str(i, v, a, k)
            return VBuiltin('format', f)
        if name == 'join':
            return VBuiltin('join', lambda i, a, k: v.join(list(i.iterate(a[0]))))
        if name in STRM:
            def g(i, a, k):
                return getattr(v, name)(*[tuple(x) if isinstance(x, (list, tuple)) else x for x in a], **k)
            return VBuiltin(name, g)
    if isinstance(v, dict):
        if name == 'get':
            return VBuiltin('get', lambda i, a, k: v.get(a[0], a[1] if len(a) > 1 else k.get('default')))
        if name == 'pop':
            def pop(i, a, k):
                if a[0] in v:
                    return v.pop(a[0])
                if len(a) > 1:
                    return a[1]
                raise i.exc('KeyError', a[0])
            return VBuiltin('pop', pop)
        if name == 'items':
            return VBuiltin('items', lambda i, a, k: list(v.items()))
        if name == 'keys':
            return VBuiltin('keys', lambda i, a, k: list(v.keys()))
        if name == 'values':
            return VBuiltin('values', lambda i, a, k: list(v.values()))
        if name == 'update':
            def upd(i, a, k):
                for d in a:
                    if isinstance(d, dict):
                        v.update(d)
                    else:
                        for kv in i.iterate(d):
                            v[kv[0]] = kv[1]
                v.update(k)
                i.log('dict_update', v)
            return VBuiltin('update', upd)
        if name == 'setdefault':
            return VBuiltin('setdefault', lambda i, a, k: v.setdefault(a[0], a[1] if len(a) > 1 else None))
        if name == 'copy':
            return VBuiltin('copy', lambda i, a, k: dict(v))
        if name == 'clear':
            return VBuiltin('clear', lambda i, a, k: v.clear())
        if name == 'fromkeys':
            return VBuiltin('fromkeys', lambda i, a, k: dict.fromkeys(i.iterate(a[0]), a[1] if len(a) > 1 else None))
    if isinstance(v, list):
        if name == 'append':
            return VBuiltin('append', lambda i, a, k: v.append(a[0]))
        if name == 'extend':
            return VBuiltin('extend', lambda i, a, k: v.extend(i.iterate(a[0])))
        if name == 'insert':
            return VBuiltin('insert', lambda i, a, k: v.insert(a[0], a[1]))
        if name == 'pop':
            return VBuiltin('pop', lambda i, a, k: v.pop(*a))
        if name == 'copy':
            return VBuiltin('copy', lambda i, a, k: list(v))
        if name == 'reverse':
            return VBuiltin('reverse', lambda i, a, k: v.reverse())
        if name == 'remove':
            return VBuiltin('remove', lambda i, a, k: v.remove(a[0]))
        if name == 'sort':
            def sort(i, a, k):
                v[:] = _sorted(i, [list(v)], k)
            return VBuiltin('sort', sort)
    if isinstance(v, (list, tuple)):
        if name == 'index':
            def ix(i, a, k):
                for n, x in enumerate(v):
                    if i.truth(i.eq(x, a[0])):
                        return n
                raise i.exc('ValueError', 'not in list')
            return VBuiltin('index', ix)
        if name == 'count':
            return VBuiltin('count', lambda i, a, k: sum(1 for x in v if i.truth(i.eq(x, a[0]))))
    if isinstance(v, (set, frozenset)):
        if name == 'add':
            return VBuiltin('add', lambda i, a, k: v.add(a[0]))
        if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint',
                    'symmetric_difference', 'update', 'discard', 'copy'):
            return VBuiltin(name, lambda i, a, k: getattr(v, name)(
                *[x if name == 'discard' else set(i.iterate(x)) for x in a]))
    if isinstance(v, VArray):
        return array_attr(interp, v, name)
    if isinstance(v, Term):
        return term_attr(interp, v, name)
    if isnum(v) or isinstance(v, bool):
        if name == 'real':
            return v
        if name == 'imag':
            return 0
        if name in ('conjugate', 'item'):
            return VBuiltin(name, lambda i, a, k: v)
        if name == 'is_integer':
            return VBuiltin(name, lambda i, a, k: Fraction(v).denominator == 1)
        if name in ('size', 'ndim', 'shape') and False:
            return 1
        raise interp.exc('AttributeError', 'number has no attribute %s' % name)
    if v is None or isinstance(v, (str, dict, list, tuple, set, Iter)):
        raise interp.exc('AttributeError', '%r has no attribute %s' % (type(v).__name__, name))
    if isinstance(v, VBuiltin):
        if name == '__name__':
            return v.name
        if name == '__doc__':
            return ''
    if isinstance(v, VProperty):
        if name == 'setter':
            def setter(i, a, k):
                v.setter = a[0]
                return v
            return VBuiltin('setter', setter)
        if name in ('func', 'fget'):
            return v.f
    if isinstance(v, VBound):
        return interp.getattr(v.func, name)
    raise Unsupported('attribute %s of %r' % (name, v))


def array_attr(interp, v, name):
    if name == 'size':
        return size_of(interp, v)
    if name == 'T':
        return v
    if name == 'shape':
        if v.elems is not None:
            e0 = v.elems[0] if v.elems else None
            if isinstance(e0, VArray) and e0.elems is not None:
                return (len(v.elems), len(e0.elems))
            return (len(v.elems),)
        return T.app('numpy.shape', ['filled'])
    if name == 'ndim':
        return 1
    if name == 'dtype':
        return VExternal('numpy.dtype')
    if name in ('copy',):
        return VBuiltin('copy', lambda i, a, k: copy_array(i, v))
    if name in ('ravel', 'flatten', 'squeeze', 'reshape', 'astype'):
        return VBuiltin(name, lambda i, a, k: copy_array(i, v) if name in ('flatten', 'astype') else v)
    if name in ('all', 'any'):
        return VBuiltin(name, lambda i, a, k: allof(i, v, name))
    if name in ('max', 'min'):
        return VBuiltin(name, lambda i, a, k: minmax(i, name, [v]))
    if name == 'sum':
        return VBuiltin(name, lambda i, a, k: _sum(i, [v], {}))
    if name == 'tolist':
        return VBuiltin(name, lambda i, a, k: list(v.elems))
    if name in ('real', 'imag'):
        return interp.vmap(lambda e: pw1(interp, name, e), v)
    if name in ('conj', 'conjugate'):
        return VBuiltin(name, lambda i, a, k: i.vmap(lambda e: pw1(i, 'conj', e), v))
    if name == 'item':
        return VBuiltin(name, lambda i, a, k: v.elems[0])
    if name == 'fill':
        def fill(i, a, k):
            if v.elems is not None:
                v.elems[:] = [a[0]] * len(v.elems)
            else:
                v.fill, v.stores = a[0], []
            i.log('array_store', v, None, a[0])
        return VBuiltin(name, fill)
    if name.startswith('__'):
        raise interp.exc('AttributeError', name)
    raise Unsupported('array attribute %s' % name)


def term_attr(interp, v, name):
    if name == 'size':
        return size_of(interp, v)
    if name == 'shape':
        return T.app('numpy.shape', [v])
    if name == 'ndim':
        return 1 if T.is_array(v) else 0
    if name == 'astype':
        def astype(i, a, k):
            d = a[0] if a else k.get('dtype')
            if isinstance(d, VExternal) and 'complex' in d.path or isinstance(d, str) and ('complex' in d or d[:1] in 'cDF'):
                return T.add(v, T.CZERO)
            return v
        return VBuiltin(name, astype)
    if name in ('copy', 'ravel', 'flatten', 'squeeze', 'item', 'reshape', 'view'):
        return VBuiltin(name, lambda i, a, k: v)
    if name in ('real', 'imag'):
        return T.fn(name, v)
    if name in ('conj', 'conjugate'):
        return VBuiltin(name, lambda i, a, k: T.fn('conj', v))
    if name in ('all', 'any'):
        return VBuiltin(name, lambda i, a, k: allof(i, v, name))
    if name in ('max', 'min'):
        return VBuiltin(name, lambda i, a, k: T.app('numpy.' + name, [v]))
    if name == 'nonzero':
        return VBuiltin(name, lambda i, a, k: (_indices(i, v),))
    if name in ('sum', 'mean', 'std', 'argmax', 'argmin', 'cumsum', 'tolist'):
        return VBuiltin(name, lambda i, a, k: generic_call(i, 'numpy.' + name, [v] + list(a), k))
    if name == 'T':
        return v
    if name == 'dtype':
        return VExternal('numpy.dtype')
    if name.startswith('__') and name.endswith('__'):
        raise interp.exc('AttributeError', name)
    if v.op == 'app':
        r = T.app('attr:' + name, [v])
        return r
    if v.op in ('sym', 'idx', 'papp') and getattr(interp, 'openterms', {}).get(v):
        return T.app('attr:' + name, [v])
    raise Unsupported('attribute %s of %s' % (name, T.show(v)))


# ------------------------------------------------------------------ formatting

def fmt(interp, v, spec):
    if isinstance(v, Term):
        if v.op == 'num':
            v = v.args[0]
        else:
            return T.show(v)
    if isinstance(v, bool):
        return format(v, spec) if spec else str(v)
    if isinstance(v, Fraction):
        return format(float(v), spec)
    if isinstance(v, (int, str)):
        return format(v, spec)
    if isinstance(v, VInst):
        if isinstance(v.cls, VClass):
            m = interp.class_attr(v.cls, '__str__') or interp.class_attr(v.cls, '__repr__')
            if m is not None:
                return interp.call(VBound(m, v), [], {})
        if 'args' in v.attrs:
            return ' '.join(fmt(interp, a, '') for a in v.attrs['args'])
        return '<%s>' % v.name
    return to_repr(interp, v)


def to_repr(interp, v):
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, (list, tuple, set, frozenset)):
        return '[' + ', '.join(to_repr(interp, x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (to_repr(interp, a), to_repr(interp, b)) for a, b in v.items()) + '}'
    if isinstance(v, (Term, bool, int, Fraction, VInst)):
        return fmt(interp, v, '')
    if v is None:
        return 'None'
    return '<%s>' % type(v).__name__


import re  # noqa

PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def percent(interp, s, args):
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    pos = [0]

    def sub(m):
        if m.group(5) == '%':
            return '%'
        if m.group(1):
            v = args[m.group(1)]
        else:
            if isinstance(args, dict):
                v = args
            else:
                if pos[0] >= len(args):
                    raise interp.exc('TypeError', 'not enough arguments for format string')
                v = args[pos[0]]
                pos[0] += 1
        if isinstance(v, Term) and v.op == 'num':
            v = v.args[0]
        c = m.group(5)
        if c in 'rsa':
            return fmt(interp, v, '') if c == 's' else to_repr(interp, v)
        if isinstance(v, (bool, int, Fraction)):
            f = '%' + (m.group(2) or '') + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + c
            return f % (float(v) if isinstance(v, Fraction) and c in 'eEfFgG' else int(v) if c in 'dioux' else v)
        if v is None or isinstance(v, (str, list, dict, tuple)):
            raise interp.exc('TypeError', '%%%s format: a number is required' % c)
        if isinstance(v, VInst):
            raise interp.exc('TypeError', 'format')
        return '<' + (fmt(interp, v, '')) + '>'
    out = PCT.sub(sub, s)
    if isinstance(args, tuple) and pos[0] < len(args):
        raise interp.exc('TypeError', 'not all arguments converted during string formatting')
    return out


def format_str(interp, s, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            raise Unsupported('format field %s' % field)
        out.append(to_repr(interp, v) if conv == 'r' else fmt(interp, v, spec or ''))
    return ''.join(out)


# ------------------------------------------------------------------ models used by the mode pipeline

def ivp_bunch(i, label, events=None):
    A = {n: T.sym('%s.%s' % (label, n), 'a') for n in ('t', 'y')}
    A.update({n: T.sym('%s.%s' % (label, n)) for n in ('nfev', 'njev', 'nlu', 'status')})
    A.update({'sol': None, 'message': 'message', 'success': T.sym(label + '.success'),
              't_events': None if events is None else [T.sym('%s.t_events%d' % (label, n), 'a') for n in range(events)],
              'y_events': None if events is None else [T.sym('%s.y_events%d' % (label, n), 'a') for n in range(events)]})
    o = VInst(VExternal('scipy.integrate.OdeBunch'), A, name='OdeResult')
    o.bunch = True
    return o


@model('scipy.integrate.solve_ivp')
def _solve_ivp(i, a, k):
    i.genctr += 1
    ev = k.get('events')
    if callable(ev) or isinstance(ev, (VBuiltin, VFunc, VBound)):
        ev = [ev]
    r = ivp_bunch(i, 'ivp%d' % i.genctr, None if ev is None else len(i.iterate(ev)))
    i.log('ext', 'scipy.integrate.solve_ivp', a, k, r)
    return r


def _indices(i, c):
    if isinstance(c, VArray) and c.elems is not None:
        return VArray([n for n, e in enumerate(c.elems) if i.truth(e)])
    return T.Term('app', ('indices', (T.lift(c),), ())) if isinstance(c, Term) else generic_call(i, 'indices', [c], {})


@model('numpy.flatnonzero', 'numpy.argwhere')
def _argwhere(i, a, k):
    return _indices(i, a[0])


@model('numpy.nonzero')
def _nonzero(i, a, k):
    return (_indices(i, a[0]),)
