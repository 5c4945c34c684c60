"""Abstract values other than terms."""
from . import terms as T


class Unsupported(Exception):
    """The abstract interpreter cannot model this construct: the analysis is inconclusive."""


class PyRaise(Exception):
    """An exception raised by the analysed program (not by the analyser)."""

    def __init__(self, value):
        super().__init__(repr(value))
        self.value = value


class Env:
    __slots__ = ('vars', 'parent', 'module', 'locals', 'globals_', 'nonlocals', 'cls', 'selfval', 'func')

    def __init__(self, parent=None, module=None, locals_=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_ or frozenset()
        self.globals_ = frozenset()
        self.nonlocals = frozenset()
        self.cls = None
        self.selfval = None
        self.func = None


class VModule:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.attrs = {}

    def __repr__(self):
        return '<module %s>' % self.name


class VExternal:
    """An object of a library outside the repository, known by dotted path."""
    _t = {}

    def __new__(cls, path):
        o = cls._t.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._t[path] = o
        return o

    def __repr__(self):
        return '<ext %s>' % self.path


class VFunc:
    def __init__(self, node, env, module, name, qualname, defaults, kwdefaults, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.attrs = {}
        self.is_generator = False

    def __repr__(self):
        return '<func %s>' % self.qualname


class VBuiltin:
    """A Python-implemented callable of the analyser (model of a builtin or a stub)."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class VStatic:
    def __init__(self, f):
        self.f = f


class VClassMethod:
    def __init__(self, f):
        self.f = f


class VProperty:
    def __init__(self, f, cached=False):
        self.f = f
        self.cached = cached
        self.setter = None


class VBound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return '<bound %r>' % self.func


class VClass:
    def __init__(self, name, bases, attrs, module, node, qualname):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module
        self.node = node
        self.qualname = qualname
        self.mro = c3(self)

    def __repr__(self):
        return '<class %s>' % self.qualname

    def is_abstract_attr(self, name):
        for c in self.mro:
            if isinstance(c, VClass) and name in c.attrs:
                a = c.attrs[name]
                return is_abstract(a)
        return True


def is_abstract(a):
    while isinstance(a, (VStatic, VClassMethod, VProperty)):
        a = a.f
    return isinstance(a, VFunc) and a.attrs.get('__isabstractmethod__', False)


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            else:
                raise Unsupported('MRO conflict for %s' % cls.name)
            res.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def mro_of(b):
        if isinstance(b, VClass):
            return list(b.mro)
        return [b]
    bases = [b for b in cls.bases if not (isinstance(b, VExternal) and b.path == 'builtins.object')]
    return [cls] + merge([mro_of(b) for b in bases] + [bases])


class VInst:
    """Instance of a repository class or of an external class (exceptions, bunches, interpolators)."""

    def __init__(self, cls, attrs=None, name=None, open_=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.name = name or (cls.name if isinstance(cls, VClass) else getattr(cls, 'path', str(cls)))
        self.open_ = open_          # callable(attr) -> value for unknown attributes, or None
        self.watch = False          # record attribute stores in the trace
        self.deleted = set()

    def __repr__(self):
        return '<%s object>' % self.name


class VSuper:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class VArray:
    """Array with known elements, or filled array with recorded element stores."""

    def __init__(self, elems=None, fill=None, stores=None, label=None):
        self.elems = elems
        self.fill = fill
        self.stores = stores if stores is not None else []
        self.label = label

    def __repr__(self):
        return 'array(%r)' % (self.elems if self.elems is not None else (self.fill, self.stores))


class Iter:
    """A consumed-once iterator."""

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0

    def __iter__(self):
        while self.pos < len(self.items):
            self.pos += 1
            yield self.items[self.pos - 1]


class Generic:
    """Marks the items of an unbounded iteration: one generic element stands for all."""

    def __init__(self, items):
        self.items = items
