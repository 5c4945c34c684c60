"""Abstract interpreter over the syntax tree of the analysed repository.

Nothing of the repository is imported or executed.  Expressions evaluate to terms (value numbers),
constants, or abstract objects.  A branch whose condition is not decided by constants is recorded
as a choice; `explore` enumerates the resulting trace partitions.
"""
import ast
import builtins
import os
from fractions import Fraction

from . import terms as T
from .terms import Term, isnum
from .values import (Unsupported, PyRaise, Env, VModule, VExternal, VFunc, VBuiltin, VStatic,
                     VClassMethod, VProperty, VBound, VClass, VInst, VSuper, VArray, Iter, Generic)

MAXDEPTH = 120
LOOPMAX = 2000


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class PathLimit(Exception):
    pass


class PruneRun(Exception):
    """This partition is excluded by the check's assumptions."""


def collect_locals(node):
    """Names bound in a function body (not in nested scopes)."""
    out, glob, nonl = set(), set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    targets(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets(n.target)
        elif isinstance(n, ast.NamedExpr):
            targets(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            targets(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    return frozenset(out - glob - nonl), frozenset(glob), frozenset(nonl)


def has_yield(node):
    """Whether the function is a generator; remembered on its syntax tree."""
    r = getattr(node, '_has_yield', None)
    if r is None:
        r = node._has_yield = _has_yield(node)
    return r


def _has_yield(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Event:
    __slots__ = ('kind', 'data', 'loc')

    def __init__(self, kind, data, loc):
        self.kind = kind
        self.data = data
        self.loc = loc

    def __repr__(self):
        return '%s%r@%s' % (self.kind, self.data, self.loc)


def norm_cond(c):
    """Canonical (atom, polarity) of a boolean term."""
    pol = True
    while isinstance(c, Term) and c.op == 'not':
        c = c.args[0]
        pol = not pol
    return c, pol


class Interp:
    def __init__(self, repo='/repo', stubs=None):
        self.repo = repo
        self.modules = {}
        self.globals_snapshot = {}
        self.memo = {}
        self.stubs = stubs or {}       # qualname or external path -> callable(interp, args, kwargs)
        self.trace = []
        self.decisions = []            # list of [atom, bool, fresh]
        self.prefix = []
        self.decided = {}
        self.assume = None             # callable(atom) -> True/False/None
        self.depth = 0
        self.loc = None
        self.callstack = []
        self.functions_seen = set()
        self.unmodelled = set()
        self.concrete_only = False
        self._locals_cache = {}
        self.genctr = 0
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ running

    def reset(self, prefix=()):
        for obj, copy in self.globals_snapshot.values():       # the state of modules and classes as it was after the import
            if isinstance(obj, list):
                if len(obj) != len(copy) or any(a is not b for a, b in zip(obj, copy)):
                    obj[:] = copy
            elif obj.keys() != copy.keys() or any(obj[k] is not copy[k] for k in copy):
                obj.clear()
                obj.update(copy)
        self.memo = {}
        self.trace = []
        self.decisions = []
        self.prefix = list(prefix)
        self.decided = {}
        self.depth = 0
        self.callstack = []
        self.genctr = 0

    def junction(self, t, op):
        if isinstance(t, Term) and t.op == op:
            return self.junction(t.args[0], op) | self.junction(t.args[1], op)
        return {t}

    def log(self, kind, *data):
        self.trace.append(Event(kind, data, self.where()))

    def where(self):
        f = self.callstack[-1] if self.callstack else None
        return (f.module.path if f else None, self.loc, f.qualname if f else None)

    def choose(self, atom):
        """Decide a boolean atom, forking if needed."""
        if atom in self.decided:
            return self.decided[atom]
        if self.assume is not None:
            r = self.assume(atom)
            if r is not None:
                self.decided[atom] = bool(r)
                return bool(r)
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
        self.decisions.append((atom, v))
        if len(self.decisions) > 400:
            raise PathLimit('too many undecided branches on one path')
        self.decided[atom] = v
        return v

    def truth(self, v):
        if isinstance(v, Term):
            if v.op == 'num':
                return v.args[0] != 0
            if v.op == 'const':
                return True
            if v.op in ('band', 'bor') and all(isinstance(a, Term) and a.op in ('lt', 'eq', 'not', 'band', 'bor') for a in v.args) and not T.is_array(v):
                a = self.truth(v.args[0])
                b = self.truth(v.args[1])
                return (a and b) if v.op == 'band' else (a or b)
            if v.op not in ('lt', 'eq', 'not', 'band', 'bor', 'sym', 'app', 'papp', 'idx', 'is', 'ite') or (
                    v.op in ('sym', 'idx', 'papp') and not getattr(self, 'boolsyms', {}).get(v)):
                if not (v.op == 'app'):
                    v = T.Term('not', (T.Term('eq', (v, T.num(0))),))
            atom, pol = norm_cond(v)
            if atom.op in ('lt', 'eq') and all(isinstance(x, (int, Fraction)) or isinstance(x, Term) and x.op == 'num' for x in atom.args):
                a, b = [x.args[0] if isinstance(x, Term) else x for x in atom.args]
                return (a < b if atom.op == 'lt' else a == b) == pol
            r = self.choose(atom)
            return r if pol else not r
        if v is None:
            return False
        if isinstance(v, (bool, int, Fraction, str, tuple, list, dict, set, frozenset)):
            return bool(v)
        if isinstance(v, VArray):
            if v.elems is not None and len(v.elems) == 1:
                return self.truth(v.elems[0])
            if v.elems is not None and not v.stores:
                raise self.exc('ValueError', 'The truth value of an array with %s is ambiguous.' % (
                    'more than one element' if v.elems else 'no elements'))
            raise Unsupported('truth of array')
        if isinstance(v, VInst):
            try:
                m = self.getattr(v, '__bool__')
            except PyRaise:
                return True
            return self.truth(self.call(m, [], {}))
        return True

    # ------------------------------------------------------------ modules

    def module_path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        for p in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(p):
                return p
        if os.path.isdir(base) and any(f.endswith('.py') for f in os.listdir(base)):
            return base
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if path is None:
            return None
        m = VModule(name, path)
        self.modules[name] = m
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if parent is not None:
                parent.attrs[name.rsplit('.', 1)[1]] = m
        m.attrs['__name__'] = name
        m.attrs['__file__'] = path
        if path.endswith('.py'):
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            m.tree = tree
            env = Env(None, m)
            env.vars = m.attrs
            sv = (self.loc, self.callstack)
            self.callstack = [VFunc(None, None, m, '<module>', name, [], {})]
            self.exec_block(tree.body, env)
            self.loc, self.callstack = sv
            self.snapshot(m)
        return m

    def snapshot(self, m):
        """Remember the mutable state reachable from a module, for `reset`."""
        todo = [m.attrs]
        while todo:
            v = todo.pop()
            if id(v) in self.globals_snapshot:
                continue
            if isinstance(v, dict):
                self.globals_snapshot[id(v)] = (v, dict(v))
                todo.extend(v.values())
            elif isinstance(v, list):
                self.globals_snapshot[id(v)] = (v, list(v))
                todo.extend(v)
            elif isinstance(v, tuple):
                todo.extend(v)
            elif isinstance(v, (VClass, VInst)):
                todo.append(v.attrs)
            elif isinstance(v, VFunc):
                todo.append(v.attrs)
                todo.append(v.defaults)
                todo.append(v.kwdefaults)
                if v.env is not None and v.env.vars is not m.attrs:
                    todo.append(v.env.vars)
            elif isinstance(v, (VStatic, VClassMethod, VProperty)):
                todo.append(v.f)
            elif isinstance(v, VArray):
                todo.append(v.elems)

    def get(self, dotted):
        """Look up 'module:attr.attr' in the repository."""
        mod, _, rest = dotted.partition(':')
        m = self.load(mod)
        if m is None:
            raise Unsupported('module %s not found' % mod)
        v = m
        for part in rest.split('.') if rest else []:
            if isinstance(v, VModule):
                if part not in v.attrs:
                    raise Unsupported('anchor %s vanished' % dotted)
                v = v.attrs[part]
            else:
                try:
                    v = self.getattr(v, part)
                except PyRaise:
                    raise Unsupported('anchor %s vanished' % dotted)
        return v

    # ------------------------------------------------------------ exceptions

    def exc(self, name, msg=''):
        return PyRaise(VInst(VExternal('builtins.' + name), {'args': (msg,)}, name=name))

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            rs = [self.isinstance_(v, c) for c in cls]
            if any(r is True for r in rs):
                return True
            for r in rs:
                if r is not False:
                    return r
            return False
        if isinstance(v, VInst):
            return self.issubclass_(v.cls, cls)
        p = getattr(cls, 'path', None)
        if p is None and isinstance(cls, VBuiltin):
            p = 'builtins.' + cls.name
        if p is None:
            return False
        py = {'builtins.int': int, 'builtins.str': str, 'builtins.bool': bool, 'builtins.list': list,
              'builtins.tuple': tuple, 'builtins.dict': dict, 'builtins.set': set}
        if p == 'builtins.float' or p in ('numpy.floating', 'numpy.float64'):
            if isinstance(v, Fraction):
                return True
            if isinstance(v, Term):
                return not T.is_array(v)
            return False
        if p == 'numpy.ndarray':
            return isinstance(v, VArray) or (isinstance(v, Term) and T.is_array(v))
        if p == 'builtins.int':
            return isinstance(v, int)
        if p in ('numbers.Number', 'numbers.Real'):
            return isnum(v) or (isinstance(v, Term) and not T.is_array(v))
        if p in py:
            return isinstance(v, py[p])
        if p in ('collections.abc.Iterable', 'collections.abc.Sequence', 'typing.Iterable'):
            return isinstance(v, (list, tuple, VArray)) or (isinstance(v, Term) and T.is_array(v))
        if p == 'builtins.object':
            return True
        return False

    def issubclass_(self, c, cls):
        if isinstance(cls, tuple):
            return any(self.issubclass_(c, k) for k in cls)
        if c is cls:
            return True
        if isinstance(c, VClass):
            for k in c.mro:
                if k is cls:
                    return True
                if isinstance(k, VExternal) and isinstance(cls, VExternal) and self.ext_sub(k, cls):
                    return True
            return isinstance(cls, VExternal) and cls.path == 'builtins.object'
        if isinstance(c, VExternal) and isinstance(cls, VExternal):
            return self.ext_sub(c, cls)
        return False

    @staticmethod
    def ext_sub(a, b):
        pa, pb = a.path, b.path
        if pa == pb:
            return True
        if pa.startswith('builtins.') and pb.startswith('builtins.'):
            x = getattr(builtins, pa[9:], None)
            y = getattr(builtins, pb[9:], None)
            return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)
        return False

    # ------------------------------------------------------------ statements

    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.loc = getattr(s, 'lineno', self.loc)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(s).__name__, self.loc))
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.eval(s.value, env)
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            rhs = self.eval(s.value, env)
            new = self.inplace(op, old, rhs)
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            rhs = self.eval(s.value, env)
            new = self.inplace(op, old, rhs)
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k)
            rhs = self.eval(s.value, env)
            self.setitem(o, k, self.inplace(op, old, rhs, sub=True))
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, old, rhs, sub=False):
        if isinstance(old, list) and op == 'Add':
            old.extend(self.iterate(rhs))
            return old
        if isinstance(old, (dict, set)) and op == 'BitOr':
            old.update(rhs)
            return old
        if isinstance(old, Term) and not sub and T.is_array(old):
            # numpy in-place operation: the aliased array object is modified
            self.log('inplace', old)
        if isinstance(old, VArray) and not sub:
            new = self.binop(op, old, rhs)
            if isinstance(new, VArray):
                old.elems, old.fill, old.stores = new.elems, new.fill, new.stores
                return old
            return new
        return self.binop(op, old, rhs)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v)), env)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, elts, v, env):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Term):
            if star:
                raise Unsupported('starred unpacking of a term')
            for i, e in enumerate(elts):
                self.assign(e, self.getitem(v, i), env)
            return
        items = list(self.iterate(v))
        if star:
            i = star[0]
            after = n - i - 1
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, env)
            self.assign(elts[i].value, items[i:len(items) - after], env)
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x, env)
            return
        if len(items) != n:
            raise self.exc('ValueError', 'unpack')
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    def store_name(self, name, v, env):
        if name in env.globals_:
            env.module.attrs[name] = v
            self.log('global_store', env.module.name, name)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or name in e.locals:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def lookup(self, name, env):
        e = env
        if name in env.globals_:
            if name in env.module.attrs:
                return env.module.attrs[name]
            e = None
        first = True
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if name in e.locals:
                raise self.exc('UnboundLocalError' if first else 'NameError', name)
            e = e.parent
            first = False
        if name in env.module.attrs:
            return env.module.attrs[name]
        b = self.lib.builtin(name)
        if b is not None:
            return b
        raise self.exc('NameError', name)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                if isinstance(o, dict):
                    if k not in o:
                        raise self.exc('KeyError', k)
                    del o[k]
                elif isinstance(o, list):
                    del o[k]
                elif isinstance(o, VInst) and isinstance(k, str):
                    self.delattr(o, k)
                else:
                    raise Unsupported('del subscript')

    def x_If(self, s, env):
        self.exec_block(s.body if self.truth(self.eval(s.test, env)) else s.orelse, env)

    def x_While(self, s, env):
        n = 0
        while True:
            if not self.truth_iter(self.eval(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > LOOPMAX:
                raise Unsupported('loop bound')
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue

    def truth_iter(self, v):
        return self.truth(v)

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        items = self.iter_items(it)
        generic = isinstance(items, Generic)
        if generic:
            self.log('generic_loop')
            items = items.items
        n = 0
        for x in items:
            n += 1
            if n > LOOPMAX:
                raise Unsupported('loop bound')
            self.assign(s.target, x, env)
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def x_Break(self, s, env):
        raise _Break()

    def x_Continue(self, s, env):
        raise _Continue()

    def x_Return(self, s, env):
        raise _Return(None if s.value is None else self.eval(s.value, env))

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, 'current_exc', None)
            if cur is None:
                raise self.exc('RuntimeError', 'no active exception')
            raise PyRaise(cur)
        v = self.eval(s.exc, env)
        if isinstance(v, VClass) or isinstance(v, VExternal):
            v = self.call(v, [], {})
        self.log('raise', v)
        raise PyRaise(v)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.isinstance_(e.value, self._exc_types(self.eval(h.type, env)))
                    if ok:
                        if h.name:
                            env.vars[h.name] = e.value
                        prev = getattr(self, 'current_exc', None)
                        self.current_exc = e.value
                        self.log('caught', e.value)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.current_exc = prev
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, env)

    @staticmethod
    def _exc_types(t):
        return tuple(t) if isinstance(t, (list, tuple)) else t

    def x_With(self, s, env):
        mgrs = []
        for i in s.items:
            c = self.eval(i.context_expr, env)
            if isinstance(c, VInst) and isinstance(c.cls, VClass):
                v = self.call(self.getattr(c, '__enter__'), [], {})
            else:
                v = c
            self.log('enter', c)
            mgrs.append(c)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        try:
            self.exec_block(s.body, env)
        except PyRaise as e:
            for c in reversed(mgrs):
                self.log('exit', c)
                if isinstance(c, VInst) and isinstance(c.cls, VExternal) and c.cls.path == 'contextlib.suppress':
                    if self.isinstance_(e.value, tuple(c.attrs['args'])):
                        return
                if isinstance(c, VInst) and isinstance(c.cls, VClass):
                    r = self.call(self.getattr(c, '__exit__'), [e.value.cls, e.value, None], {})
                    if self.truth(r):
                        return
            raise
        for c in reversed(mgrs):
            self.log('exit', c)
            if isinstance(c, VInst) and isinstance(c.cls, VClass):
                self.call(self.getattr(c, '__exit__'), [None, None, None], {})

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            msg = self.eval(s.msg, env) if s.msg is not None else ''
            v = VInst(VExternal('builtins.AssertionError'), {'args': (msg,)}, name='AssertionError')
            self.log('raise', v)
            raise PyRaise(v)

    def x_Global(self, s, env):
        pass

    def x_Nonlocal(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            m = self.load(a.name)
            top = a.name.split('.')[0]
            if m is not None:
                v = m if a.asname else self.load(top)
            else:
                v = VExternal(a.name if a.asname else top)
            env.vars[a.asname or top] = v

    def x_ImportFrom(self, s, env):
        mod = s.module or ''
        if s.level:
            base = env.module.name.split('.')
            ispkg = env.module.path.endswith('__init__.py')
            up = s.level - (1 if ispkg else 0)
            base = base[:len(base) - up]
            mod = '.'.join(base + ([mod] if mod else []))
        m = self.load(mod)
        for a in s.names:
            if a.name == '*':
                if m is None:
                    raise Unsupported('star import of %s' % mod)
                for k, v in m.attrs.items():
                    if not k.startswith('_'):
                        env.vars[k] = v
                continue
            if m is not None:
                if a.name in m.attrs:
                    v = m.attrs[a.name]
                else:
                    v = self.load(mod + '.' + a.name)
                    if v is None:
                        raise self.exc('ImportError', '%s.%s' % (mod, a.name))
            elif mod.split('.')[0] in ('primpy', 'cobaya_wrapper'):
                raise self.exc('ImportError', mod)
            else:
                v = self.lib.external_value(mod + '.' + a.name)
            env.vars[a.asname or a.name] = v

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d, env), v)
        self.store_name(s.name, v, env)

    def make_func(self, s, env):
        a = s.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(s, 'name', '<lambda>')
        if env.cls is not None and isinstance(env.cls, str):
            q = env.cls + '.' + name
        elif env.func is not None:
            q = env.func.qualname + '.' + name
        else:
            q = env.module.name + '.' + name
        # class scopes are not enclosing scopes of methods
        penv = env
        while penv is not None and penv.cls is not None and isinstance(penv.cls, str):
            penv = penv.parent
        f = VFunc(s, penv, env.module, name, q, defaults, kwd)
        f.is_generator = has_yield(s)
        return f

    def decorate(self, d, v):
        if isinstance(d, VExternal):
            p = d.path
            if p == 'builtins.staticmethod':
                return VStatic(v)
            if p == 'builtins.classmethod':
                return VClassMethod(v)
            if p == 'builtins.property':
                return VProperty(v)
            if p == 'functools.cached_property':
                return VProperty(v, cached=True)
            if p in ('abc.abstractmethod',):
                w = v
                while isinstance(w, (VStatic, VClassMethod, VProperty)):
                    w = w.f
                w.attrs['__isabstractmethod__'] = True
                return v
            if p in ('functools.lru_cache', 'functools.cache'):
                if isinstance(v, VFunc):
                    v.attrs['memoised'] = True
                return v
            if p in ('functools.wraps', 'numpy.vectorize', 'typing.final', 'typing.override'):
                return v
            raise Unsupported('decorator %s' % p)
        if isinstance(d, VBuiltin) and d.name in ('staticmethod', 'classmethod', 'property'):
            return self.decorate(VExternal('builtins.' + d.name), v)
        if isinstance(d, VInst) and isinstance(d.cls, VExternal) and d.cls.path.startswith('functools.'):
            return v
        if isinstance(d, (VFunc, VBound, VBuiltin, VClass)):
            return self.call(d, [v], {})
        if isinstance(d, Term):
            return v
        raise Unsupported('decorator %r' % (d,))

    def x_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            v = self.eval(b, env)
            bases.append(v)
        q = env.module.name + '.' + s.name if env.func is None else env.func.qualname + '.' + s.name
        cenv = Env(env, env.module)
        cenv.cls = q
        cenv.func = env.func
        self.exec_block(s.body, cenv)
        c = VClass(s.name, bases, cenv.vars, env.module, s, q)
        for k, a in c.attrs.items():
            w = a
            while isinstance(w, (VStatic, VClassMethod, VProperty)):
                w = w.f
            if isinstance(w, VFunc) and w.cls is None:
                w.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d, env), v)
        self.store_name(s.name, v, env)

    def x_Match(self, s, env):
        subj = self.eval(s.subject, env)
        for case in s.cases:
            if self.match(case.pattern, subj, env) and (
                    case.guard is None or self.truth(self.eval(case.guard, env))):
                self.exec_block(case.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple)):
            return len(p.patterns) == len(v) and all(self.match(q, x, env) for q, x in zip(p.patterns, v))
        raise Unsupported('match pattern')

    # ------------------------------------------------------------ expressions

    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float('inf') else (T.INF if v > 0 else T.neg(T.INF))
        if isinstance(v, complex):
            return T.mul(Fraction(repr(v.imag)), T.I) if v.imag else T.CZERO
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_JoinedStr(self, e, env):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                out.append(self.e_FormattedValue(p, env))
        return ''.join(out)

    def e_FormattedValue(self, p, env):
        v = self.eval(p.value, env)
        spec = self.eval(p.format_spec, env) if p.format_spec is not None else ''
        if p.conversion == ord('r'):
            v = self.lib.to_repr(self, v)
        return self.lib.fmt(self, v, spec)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return list(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                kk = self.eval(k, env)
                d[kk] = self.eval(v, env)
        return d

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        self.loc = e.lineno
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)  # noqa
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.loc = e.lineno
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            if isinstance(v, Term) and v.op in ('lt', 'eq', 'not', 'app', 'is'):
                return T.Term('not', (v,)) if v.op != 'not' else v.args[0]
            return not self.truth(v)
        if op == 'USub':
            return self.neg(v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, Term):
                return v.args[0] if v.op == 'not' else T.Term('not', (v,))
            if isinstance(v, int):
                return ~v
        raise Unsupported('unary %s' % op)

    def neg(self, v):
        if isinstance(v, VArray):
            return self.vmap(lambda x: self.neg(x), v)
        if v is None or isinstance(v, (str, list, tuple, dict)):
            raise self.exc('TypeError', 'bad operand type for unary -')
        return T.neg(v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Term) else False
            if not isand and t:
                return v if not (isinstance(v, Term) and v.op in ('lt', 'eq', 'not')) else True
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, env)
            r = self.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                if res is True:
                    return r
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        while getattr(t, 'comp', False):
            t = t.parent
        self.store_name(e.target.id, v, t)
        return v

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    def e_ListComp(self, e, env):
        return list(self.comp(e.generators, e.elt, env))

    def e_SetComp(self, e, env):
        return set(self.comp(e.generators, e.elt, env))

    def e_GeneratorExp(self, e, env):
        return Iter(self.comp(e.generators, e.elt, env))

    def e_DictComp(self, e, env):
        return dict(self.comp(e.generators, (e.key, e.value), env))

    def comp(self, gens, elt, env):
        out = []

        def rec(i, en):
            if i == len(gens):
                if isinstance(elt, tuple):
                    out.append((self.eval(elt[0], en), self.eval(elt[1], en)))
                else:
                    out.append(self.eval(elt, en))
                return
            g = gens[i]
            items = self.iter_items(self.eval(g.iter, en))
            if isinstance(items, Generic):
                self.log('generic_loop')
                items = items.items
            for x in items:
                self.assign(g.target, x, en)
                if all(self.truth(self.eval(c, en)) for c in g.ifs):
                    rec(i + 1, en)

        ce = Env(env, env.module)
        ce.func = env.func
        rec(0, ce)
        return out

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        en = env
        while en is not None and '$yield' not in en.vars:
            en = en.parent
        if en is None:
            raise Unsupported('yield')
        en.vars['$yield'].append(v)
        return None

    def e_YieldFrom(self, e, env):
        en = env
        while en is not None and '$yield' not in en.vars:
            en = en.parent
        en.vars['$yield'].extend(self.iterate(self.eval(e.value, env)))

    def e_Call(self, e, env):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            en = env
            while en is not None and en.func is None:
                en = en.parent
            en2 = env
            while en2 is not None and en2.selfval is None:
                en2 = en2.parent
            f = en2.func if en2 is not None else None
            if f is None or f.cls is None:
                raise Unsupported('super() outside method')
            return VSuper(f.cls, en2.selfval)
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported('** of non-dict')
                for kk, vv in d.items():
                    if kk in kwargs:
                        raise self.exc('TypeError', 'multiple values for %s' % kk)
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise self.exc('TypeError', 'multiple values for %s' % k.arg)
                kwargs[k.arg] = self.eval(k.value, env)
        self.loc = e.lineno
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------ calls

    def call(self, f, args, kwargs):
        args, kwargs = list(args), dict(kwargs)
        if isinstance(f, VBuiltin):
            return f.fn(self, args, kwargs)
        if isinstance(f, VBound):
            return self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, VFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, VExternal):
            return self.lib.call_external(self, f.path, args, kwargs)
        if isinstance(f, VStatic):
            return self.call(f.f, args, kwargs)
        if isinstance(f, VInst):
            if isinstance(f.cls, VClass):
                return self.call(self.getattr(f, '__call__'), args, kwargs)
            return self.lib.call_instance(self, f, args, kwargs)
        if isinstance(f, Term):
            return self.lib.call_term(self, f, args, kwargs)
        if f is None or isnum(f) or isinstance(f, (str, list, dict, tuple)):
            raise self.exc('TypeError', 'object is not callable')
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        if len(args) > len(pos):
            if a.vararg is None:
                raise self.exc('TypeError', '%s() takes %d positional arguments' % (f.name, len(pos)))
            bound[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            bound[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            bound[n] = v
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if (k in pos and k not in [x.arg for x in a.posonlyargs]) or k in kwo:
                if k in bound:
                    raise self.exc('TypeError', '%s() got multiple values for argument %s' % (f.name, k))
                bound[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise self.exc('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in bound:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise self.exc('TypeError', '%s() missing required argument %s' % (f.name, n))
                bound[n] = f.defaults[j]
        for n in kwo:
            if n not in bound:
                if n not in f.kwdefaults:
                    raise self.exc('TypeError', '%s() missing keyword argument %s' % (f.name, n))
                bound[n] = f.kwdefaults[n]
        if a.kwarg is not None:
            bound[a.kwarg.arg] = extra
        return bound, (pos[0] if pos else None)

    def call_func(self, f, args, kwargs):
        if f.qualname in self.stubs:
            return self.stubs[f.qualname](self, args, kwargs)
        bound, first = self.bind(f, args, kwargs)
        memo = None
        if 'memoised' in f.attrs:
            memo = (id(f),) + tuple((n, self.memo_key(v)) for n, v in bound.items())
            if memo in self.memo:
                return self.memo[memo]
        if self.depth > MAXDEPTH:
            raise Unsupported('recursion depth')
        loc = self._locals_cache.get(f.node)
        if loc is None:
            loc = collect_locals(f.node) if not isinstance(f.node, ast.Lambda) else (
                frozenset(), frozenset(), frozenset())
            self._locals_cache[f.node] = loc
        env = Env(f.env, f.module, loc[0])
        env.globals_, env.nonlocals = loc[1], loc[2]
        env.vars = dict(bound)
        env.func = f
        if f.cls is not None and first is not None:
            env.selfval = bound.get(first)
        self.functions_seen.add(f.qualname)
        self.depth += 1
        self.callstack.append(f)
        saved = self.loc
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.is_generator:
                env.vars['$yield'] = []
            try:
                self.exec_block(f.node.body, env)
                r = None
            except _Return as ret:
                r = ret.value
            if memo is not None:
                self.memo[memo] = r
            if f.is_generator:
                return Iter(env.vars['$yield'])
            return r
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.loc = saved

    def memo_key(self, v):
        if isinstance(v, (list, dict, set, VArray)) or isinstance(v, Term) and T.is_array(v):
            raise self.exc('TypeError', 'unhashable type')
        if isinstance(v, tuple):
            return tuple(self.memo_key(x) for x in v)
        if isinstance(v, Term) or isnum(v) or isinstance(v, (str, bool, type(None))):
            return T.lift(v) if isnum(v) else v
        return id(v)

    def instantiate(self, c, args, kwargs):
        if c.qualname in self.stubs:
            return self.stubs[c.qualname](self, args, kwargs)
        for n in self.abstract_names(c):
            raise self.exc('TypeError', "Can't instantiate abstract class %s: %s" % (c.name, n))
        o = VInst(c)
        init = self.class_attr(c, '__init__')
        if init is not None and isinstance(init, VFunc):
            self.call_func(init, [o] + args, kwargs)
        else:
            if self.is_exc(c):
                o.attrs['args'] = tuple(args)
            elif args or kwargs:
                raise self.exc('TypeError', '%s() takes no arguments' % c.name)
        if self.is_exc(c) and 'args' not in o.attrs:
            o.attrs['args'] = tuple(args)
        return o

    def is_exc(self, c):
        return self.issubclass_(c, VExternal('builtins.BaseException'))

    def abstract_names(self, c):
        names = set()
        for k in c.mro:
            if isinstance(k, VClass):
                names |= set(k.attrs)
        from .values import is_abstract
        # only enforced for ABCs
        if not any(isinstance(k, VExternal) and k.path == 'abc.ABC' for k in c.mro):
            return []
        out = []
        for n in sorted(names):
            for k in c.mro:
                if isinstance(k, VClass) and n in k.attrs:
                    if is_abstract(k.attrs[n]):
                        out.append(n)
                    break
        return out

    # ------------------------------------------------------------ attributes

    def class_attr(self, c, name):
        if isinstance(c, VClass):
            for k in c.mro:
                if isinstance(k, VClass) and name in k.attrs:
                    return k.attrs[name]
        return None

    def bind_attr(self, a, obj, cls):
        if isinstance(a, VFunc):
            return VBound(a, obj) if obj is not None else a
        if isinstance(a, VBuiltin) and getattr(a, 'method', False) and obj is not None:
            return VBound(a, obj)
        if isinstance(a, VStatic):
            return a.f
        if isinstance(a, VClassMethod):
            return VBound(a.f, cls)
        if isinstance(a, VProperty):
            if obj is None:
                return a
            return self.call(a.f, [obj], {})
        return a

    def getattr(self, o, name):
        if isinstance(o, VInst):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            if isinstance(o.cls, VClass):
                for k in o.cls.mro:
                    if isinstance(k, VClass) and name in k.attrs:
                        a = k.attrs[name]
                        if isinstance(a, VProperty) and a.cached:
                            v = self.call(a.f, [o], {})
                            o.attrs[name] = v
                            return v
                        return self.bind_attr(a, o, o.cls)
                    if isinstance(k, VExternal):
                        v = self.lib.external_method(self, k, o, name)
                        if v is not None:
                            return v
            else:
                v = self.lib.instance_attr(self, o, name)
                if v is not None:
                    return v
            if o.open_ is not None and name not in o.deleted and not (name.startswith('__') and name.endswith('__')):
                v = o.open_(name)
                if v is not None:
                    o.attrs[name] = v
                    return v
            raise self.exc('AttributeError', '%s has no attribute %s' % (o.name, name))
        if isinstance(o, VClass):
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            for k in o.mro:
                if isinstance(k, VClass) and name in k.attrs:
                    return self.bind_attr(k.attrs[name], None, o)
            if name == '__init__':
                return VBuiltin('object.__init__', lambda i, a, k: None)
            raise self.exc('AttributeError', '%s has no attribute %s' % (o.name, name))
        if isinstance(o, VModule):
            if name in o.attrs:
                return o.attrs[name]
            m = self.load(o.name + '.' + name)
            if m is not None:
                return m
            raise self.exc('AttributeError', '%s.%s' % (o.name, name))
        if isinstance(o, VSuper):
            obj = o.obj
            cls = obj.cls if isinstance(obj, VInst) else obj
            if isinstance(cls, VClass):
                mro = cls.mro
                i = mro.index(o.cls) if o.cls in mro else -1
                for k in mro[i + 1:]:
                    if isinstance(k, VClass) and name in k.attrs:
                        a = k.attrs[name]
                        return self.bind_attr(a, obj if isinstance(obj, VInst) else None, cls)
                    if isinstance(k, VExternal):
                        v = self.lib.external_method(self, k, obj, name)
                        if v is not None:
                            return v
            if name == '__init__':
                def init(i, a, k, obj=obj):
                    if isinstance(obj, VInst) and isinstance(obj.cls, VClass) and i.is_exc(obj.cls):
                        obj.attrs['args'] = tuple(a)
                        return None
                    if a or k:
                        raise i.exc('TypeError', 'object.__init__() takes exactly one argument')
                return VBuiltin('object.__init__', init)
            raise self.exc('AttributeError', 'super has no %s' % name)
        if isinstance(o, VExternal):
            return self.lib.external_value(o.path + '.' + name)
        if isinstance(o, VFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            raise self.exc('AttributeError', name)
        if isinstance(o, VBound) and name == '__func__':
            return o.func
        if isinstance(o, VBound) and name == '__self__':
            return o.self_
        if isinstance(o, VBound) and name == '__name__':
            return getattr(o.func, 'name', 'f')
        return self.lib.value_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, VInst):
            if isinstance(o.cls, VClass):
                a = self.class_attr(o.cls, name)
                if isinstance(a, VProperty) and not a.cached:
                    if a.setter is not None:
                        self.call(a.setter, [o, v], {})
                        return
                    raise self.exc('AttributeError', "can't set %s" % name)
            o.attrs[name] = v
            o.deleted.discard(name)
            self.log('store', o, name, v)
            return
        if isinstance(o, VFunc):
            o.attrs[name] = v
            return
        if isinstance(o, VModule):
            o.attrs[name] = v
            self.log('global_store', o.name, name)
            return
        if isinstance(o, VClass):
            o.attrs[name] = v
            self.log('class_store', o, name)
            return
        if isinstance(o, Term):
            self.log('term_store', o, name, v)
            return
        raise Unsupported('setattr on %r' % (o,))

    def delattr(self, o, name):
        if isinstance(o, VInst):
            if name not in o.attrs:
                if o.open_ is None or name in o.deleted:
                    raise self.exc('AttributeError', name)
            o.attrs.pop(name, None)
            o.deleted.add(name)
            self.log('delete', o, name)
            return
        raise Unsupported('delattr')

    def hasattr(self, o, name):
        if isinstance(o, VInst) and name in o.deleted:
            return False
        if isinstance(o, VInst) and o.open_ is not None and name not in o.attrs:
            h = getattr(o, 'has', None)
            if h is not None:
                r = h(name)
                if r is not None:
                    return r
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if self.isinstance_(e.value, VExternal('builtins.AttributeError')):
                return False
            raise

    # ------------------------------------------------------------ subscripts

    def getitem(self, o, k):
        if isinstance(k, Term) and k.op == 'num' and k.args[0].denominator == 1:
            k = int(k.args[0])
        if isinstance(o, dict):
            if k not in o:
                raise self.exc('KeyError', k)
            return o[k]
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                return o[self.pyslice(k)]
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise self.exc('IndexError', k)
                return o[k]
            if isinstance(k, Fraction) and not isinstance(o, str):
                raise self.exc('TypeError', 'indices must be integers')
            raise Unsupported('index %r of sequence' % (k,))
        if isinstance(o, VArray):
            return self.array_get(o, k)
        if isinstance(o, Term):
            return self.lib.term_getitem(self, o, k)
        if isinstance(o, VInst):
            if isinstance(o.cls, VClass):
                m = self.class_attr(o.cls, '__getitem__')
                if m is not None:
                    return self.call(VBound(m, o), [k], {})
            r = self.lib.instance_getitem(self, o, k)
            if r is not None:
                return r
            if isinstance(k, str):
                if k in o.attrs:
                    return o.attrs[k]
                raise self.exc('KeyError', k)
        if isinstance(o, Iter):
            raise self.exc('TypeError', 'not subscriptable')
        if o is None or isnum(o):
            raise self.exc('TypeError', 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    @staticmethod
    def pyslice(k):
        for x in (k.start, k.stop, k.step):
            if x is not None and not isinstance(x, int):
                raise Unsupported('symbolic slice of a sequence')
        return k

    def array_get(self, o, k):
        if o.elems is None:
            for key, v in reversed(o.stores):
                if T.freeze(key) == T.freeze(k):
                    return v
            if not o.stores:
                return o.fill
            return T.Term('idx', (T.sym('array#%d' % id(o), 'a'), T.freeze(k)))
        if isinstance(k, tuple):
            if len(k) == 2 and k[1] is Ellipsis:
                return self.array_get(o, k[0])
            if len(k) >= 1 and isinstance(k[0], int):
                e = o.elems[k[0]]
                rest = k[1:] if len(k) > 2 else k[1]
                return self.getitem(e, rest)
            if not o.elems and isinstance(k[-1], int):
                raise self.exc('IndexError', 'too many indices for array: array is 1-dimensional')
            if len(k) == 2 and isinstance(k[0], slice):
                sub = o.elems[self.pyslice(k[0])]
                return VArray([self.getitem(e, k[1]) for e in sub])
            raise Unsupported('array index %r' % (k,))
        if k is Ellipsis:
            return o
        if isinstance(k, slice):
            return VArray(list(o.elems[self.pyslice(k)]))
        if isinstance(k, int):
            if not -len(o.elems) <= k < len(o.elems):
                raise self.exc('IndexError', k)
            return o.elems[k]
        if isinstance(k, (list,)) and all(isinstance(x, int) for x in k):
            return VArray([o.elems[x] for x in k])
        raise Unsupported('array index %r' % (k,))

    def setitem(self, o, k, v):
        if isinstance(k, Term) and k.op == 'num' and k.args[0].denominator == 1:
            k = int(k.args[0])
        if isinstance(o, dict):
            o[k] = v
            return
        if isinstance(o, list):
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise self.exc('IndexError', k)
                o[k] = v
                return
            if isinstance(k, slice):
                o[self.pyslice(k)] = list(self.iterate(v))
                return
        if isinstance(o, VArray):
            if o.elems is not None:
                if isinstance(k, tuple) and len(k) == 2 and k[1] is Ellipsis:
                    k = k[0]
                if isinstance(k, int):
                    if not -len(o.elems) <= k < len(o.elems):
                        raise self.exc('IndexError', k)
                    o.elems[k] = v
                    self.log('array_store', o, k, v)
                    return
                if isinstance(k, slice):
                    idxs = range(len(o.elems))[self.pyslice(k)]
                    vals = list(self.iterate(v)) if isinstance(v, (list, tuple, VArray)) else [v] * len(idxs)
                    for i, x in zip(idxs, vals):
                        o.elems[i] = x
                        self.log('array_store', o, i, x)
                    return
                raise Unsupported('array store %r' % (k,))
            o.stores.append((k, v))
            self.log('array_store', o, k, v)
            return
        if isinstance(o, VInst):
            if isinstance(o.cls, VClass):
                m = self.class_attr(o.cls, '__setitem__')
                if m is not None:
                    self.call(VBound(m, o), [k, v], {})
                    return
            if isinstance(k, str):
                self.setattr(o, k, v)
                return
        if isinstance(o, Term):
            self.log('inplace', o, k, v)
            return
        if isinstance(o, (tuple, str)):
            raise self.exc('TypeError', 'does not support item assignment')
        raise Unsupported('item assignment on %r' % (o,))

    # ------------------------------------------------------------ operators

    def vmap(self, f, v):
        if v.elems is not None:
            return VArray([f(x) for x in v.elems])
        return VArray(None, fill=f(v.fill), stores=[(k, f(x)) for k, x in v.stores])

    OPS = {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div, 'Pow': T.power}
    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow'}

    def binop(self, op, a, b):
        if isinstance(a, VArray) or isinstance(b, VArray):
            if isinstance(a, VArray) and isinstance(b, VArray):
                if a.elems is None or b.elems is None or len(a.elems) != len(b.elems):
                    raise Unsupported('array arithmetic')
                return VArray([self.binop(op, x, y) for x, y in zip(a.elems, b.elems)])
            if isinstance(a, VArray):
                return self.vmap(lambda x: self.binop(op, x, b), a)
            return self.vmap(lambda x: self.binop(op, a, x), b)
        if isinstance(a, str):
            if op == 'Mod':
                return self.lib.percent(self, a, b)
            if op == 'Add' and isinstance(b, str):
                return a + b
            if op == 'Mult' and isinstance(b, int):
                return a * b
            raise self.exc('TypeError', 'unsupported operand types')
        if isinstance(a, (list, tuple)):
            if op == 'Add' and type(a) is type(b):
                return a + b
            if op == 'Mult' and isinstance(b, int):
                return a * b
            if isinstance(b, Term):
                return self.binop(op, VArray(list(a)), b)
            raise self.exc('TypeError', 'unsupported operand types')
        if isinstance(b, (list, tuple)) and op == 'Mult' and isinstance(a, int):
            return a * b
        if isinstance(a, (set, frozenset, dict)) and isinstance(b, (set, frozenset, dict)):
            if op == 'BitOr':
                return a | b
            if op == 'BitAnd':
                return a & b
            if op == 'Sub':
                return a - b
            if op == 'BitXor':
                return a ^ b
        if isinstance(a, VInst) and isinstance(a.cls, VClass):
            m = self.class_attr(a.cls, '__%s__' % self.DUNDER.get(op, op.lower()))
            if m is not None:
                return self.call(VBound(m, a), [b], {})
        for x in (a, b):
            if not (isinstance(x, Term) or isnum(x) or isinstance(x, bool)):
                if x is None or isinstance(x, (str, dict, list, tuple, set)):
                    raise self.exc('TypeError', 'unsupported operand type(s) for %s: %r and %r' % (op, a, b))
                raise Unsupported('operand %r' % (x,))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b}[op]()
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                if op == 'BitAnd':
                    return a if b else False
                if op == 'BitOr':
                    return True if b else a
            node = 'band' if op == 'BitAnd' else 'bor' if op == 'BitOr' else 'bxor'
            if node != 'bxor':         # x & (x & y) is x & y
                la, lb = self.junction(a, node), self.junction(b, node)
                if lb <= la:
                    return T.lift(a)
                if la <= lb:
                    return T.lift(b)
            return T.Term(node, (T.lift(a), T.lift(b)))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op in self.OPS:
            if op == 'Div' and isnum(b) and b == 0 and isnum(a):
                raise self.exc('ZeroDivisionError', 'division by zero')
            return self.OPS[op](a, b)
        if op in ('Mod', 'FloorDiv'):
            if isnum(a) and isnum(b):
                if b == 0:
                    raise self.exc('ZeroDivisionError', op)
                return a % b if op == 'Mod' else a // b
            return T.fn('mod' if op == 'Mod' else 'floordiv', a, b)
        if op == 'MatMult':
            return T.app('matmul', [a, b])
        if isinstance(a, int) and isinstance(b, int):
            if op == 'LShift':
                return a << b
            if op == 'RShift':
                return a >> b
        raise Unsupported('operator %s' % op)

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if isinstance(r, Term):
                return r if op == 'In' else T.Term('not', (r,))
            return r if op == 'In' else not r
        if op in ('Eq', 'NotEq'):
            r = self.eq(a, b)
            if isinstance(r, Term):
                if op == 'NotEq':
                    return r.args[0] if r.op == 'not' else T.Term('not', (r,))
                return r
            return r if op == 'Eq' else not r
        return self.order(op, a, b)

    def is_(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isnum(a) and isnum(b):
            return a == b and type(a) is type(b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, VBound) and isinstance(b, VBound):
            return False
        return a is b

    def pairwise(self, f, a, b):
        """Comparison of an array of known elements with a scalar or with another one."""
        a, b = [VArray(list(x)) if isinstance(x, (list, tuple)) else x for x in (a, b)]
        for x in (a, b):
            if isinstance(x, VArray) and x.elems is None or isinstance(x, Term) and T.is_array(x) or not isinstance(x, (VArray, Term, bool)) and not isnum(x):
                raise Unsupported('array comparison')
        if not isinstance(b, VArray):
            return VArray([f(x, b) for x in a.elems])
        if not isinstance(a, VArray):
            return VArray([f(a, y) for y in b.elems])
        if len(a.elems) != len(b.elems) and 1 not in (len(a.elems), len(b.elems)):
            raise self.exc('ValueError', 'operands could not be broadcast together')
        n = max(len(a.elems), len(b.elems)) if a.elems and b.elems else 0
        return VArray([f(a.elems[j % len(a.elems)], b.elems[j % len(b.elems)]) for j in range(n)])

    def eq(self, a, b):
        if isinstance(a, VArray) or isinstance(b, VArray):
            return self.pairwise(self.eq, a, b)
        if isinstance(a, VInst) and isinstance(a.cls, VClass):
            m = self.class_attr(a.cls, '__eq__')
            if m is not None:
                return self.call(VBound(m, a), [b], {})
        ta, tb = isinstance(a, Term), isinstance(b, Term)
        if ta or tb:
            for x in (a, b):
                if x is None or isinstance(x, (str, list, tuple, dict, VInst, VClass, VExternal)):
                    if isinstance(x, str) and (ta and a.op in ('sym', 'idx', 'app') or tb and b.op in ('sym', 'idx', 'app')):
                        t, s = (a, b) if ta else (b, a)
                        if getattr(self, 'strsyms', {}).get(t):
                            return T.Term('eq', (t, ('str', s)))
                    return False
            if a is b and a is not T.NAN:
                return True
            if a is T.NAN or b is T.NAN:
                return False
            la, lb = T.lift(a), T.lift(b)
            if la is lb:
                return True
            if la.op == 'num' and lb.op == 'num':
                return la.args[0] == lb.args[0]
            x, y = (la, lb)
            if x.op == 'num' or (y.op != 'num' and repr(x) > repr(y)):
                x, y = y, x
            return T.Term('eq', (x, y))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            rs = [self.eq(x, y) for x, y in zip(a, b)]
            return all(self.truth(r) for r in rs)
        if isinstance(a, (VInst, VClass, VFunc, VExternal, VModule)) or isinstance(b, (VInst, VClass, VFunc, VExternal, VModule)):
            return a is b
        return a == b

    def order(self, op, a, b):
        for x in (a, b):
            if x is None or isinstance(x, (dict, VInst, VClass, VFunc)):
                raise self.exc('TypeError', 'unorderable: %r %s %r' % (a, op, b))
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            raise self.exc('TypeError', 'unorderable')
        if isinstance(a, VArray) or isinstance(b, VArray):
            return self.pairwise(lambda x, y: self.order(op, x, y), a, b)
        if isinstance(a, (set, list, tuple)) or isinstance(b, (set, list, tuple)):
            if isinstance(a, (set, list, tuple)) and isinstance(b, (set, list, tuple)):
                return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b,
                        'GtE': lambda: a >= b}[op]()
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                raise Unsupported('ordering of sequences')
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isnum(a) and isnum(b):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if a is T.NAN or b is T.NAN:
            return False
        la, lb = T.lift(a), T.lift(b)
        if la is lb:
            return op in ('LtE', 'GtE')
        inf, ninf = T.INF, T.neg(T.INF)
        if lb is inf or la is ninf:
            return op in ('Lt', 'LtE')
        if la is inf or lb is ninf:
            return op in ('Gt', 'GtE')
        if op == 'Lt':
            return T.Term('lt', (la, lb))
        if op == 'Gt':
            return T.Term('lt', (lb, la))
        if op == 'GtE':
            return T.Term('not', (T.Term('lt', (la, lb)),))
        return T.Term('not', (T.Term('lt', (lb, la)),))

    def contains(self, c, x):
        if isinstance(c, dict):
            if isinstance(x, (list, dict)):
                raise self.exc('TypeError', 'unhashable')
            return x in c
        if isinstance(c, (list, tuple, set, frozenset)):
            for e in c:
                r = self.eq(e, x)
                if isinstance(r, Term):
                    r = self.truth(r)
                if r:
                    return True
            return False
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise self.exc('TypeError', 'in <string> requires string')
        if isinstance(c, Iter):
            return any(self.truth(self.eq(e, x)) for e in c)
        if isinstance(c, VInst):
            if isinstance(c.cls, VClass):
                m = self.class_attr(c.cls, '__contains__')
                if m is not None:
                    return self.call(VBound(m, c), [x], {})
            h = getattr(c, 'contains', None)
            if h is not None:
                return h(x)
            if isinstance(x, str):
                return x in c.attrs
        if isinstance(c, Term):
            return T.app('in', [x, c])
        if isinstance(c, VArray) and c.elems is not None:
            return any(self.truth(self.eq(e, x)) for e in c.elems)
        if c is None or isnum(c) or isinstance(c, bool):
            raise self.exc('TypeError', 'argument is not iterable')
        if isinstance(c, range):
            if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
                return x in c
            return any(self.truth(self.eq(e, x)) for e in c)
        if isinstance(c, (type({}.keys()), type({}.values()), type({}.items()), type(iter(())), type(zip()), type(map(str, ())))):
            return any(self.truth(self.eq(e, x)) for e in c)
        raise Unsupported('in %r' % (c,))

    # ------------------------------------------------------------ iteration

    def iter_items(self, v):
        """Items to iterate over: a Python iterable or Generic."""
        if isinstance(v, (list, tuple, str)):
            return list(v) if isinstance(v, list) else v
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=lambda x: (str(type(x)), str(x)))
        if isinstance(v, range):
            if len(v) > LOOPMAX:
                raise Unsupported('long range')
            return v
        if isinstance(v, Iter):
            return v
        if isinstance(v, VArray) and v.elems is not None:
            return list(v.elems)
        if isinstance(v, Generic):
            return v
        if isinstance(v, Term):
            if T.is_array(v) or v.op in ('app', 'sym', 'idx'):
                self.genctr += 1
                i = T.sym('#i%d' % self.genctr)
                return Generic([T.index(v, i)])
            raise self.exc('TypeError', 'not iterable')
        if isinstance(v, VInst):
            if isinstance(v.cls, VClass):
                m = self.class_attr(v.cls, '__iter__')
                if m is not None:
                    return self.iter_items(self.call(VBound(m, v), [], {}))
            h = getattr(v, 'iter_items', None)
            if h is not None:
                return h()
            r = self.lib.instance_iter(self, v)
            if r is not None:
                return r
        if v is None or isnum(v):
            raise self.exc('TypeError', 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def iterate(self, v):
        items = self.iter_items(v)
        if isinstance(items, Generic):
            raise Unsupported('unbounded iteration in this context')
        return items


class Outcome:
    """One trace partition of an analysed call."""

    def __init__(self, kind, value, interp, extra=None):
        self.kind = kind              # 'return' or 'raise'
        self.value = value
        self.trace = interp.trace
        self.decisions = list(interp.decisions)
        self.decided = dict(interp.decided)
        self.extra = extra

    @property
    def exc_name(self):
        if self.kind != 'raise':
            return None
        c = self.value.cls
        return c.name if isinstance(c, VClass) else c.path.split('.')[-1]

    def equalities(self):
        """Leaves fixed to constants by this partition's decisions."""
        env = {}
        for atom, val in self.decisions:
            if val and isinstance(atom, Term) and atom.op == 'eq':
                a, b = atom.args
                if isinstance(a, Term) and isinstance(b, Term) and a.op == 'sym' and b.op in ('num', 'sym'):
                    env[a] = b
        return env

    def path(self):
        return [('' if b else 'not ') + T.show(a) for a, b in self.decisions]


def explore(interp, fn, assume=None, limit=4000):
    """Enumerate all trace partitions of fn(interp). fn must rebuild its state from scratch."""
    outs = []
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > limit:
            raise PathLimit('more than %d trace partitions' % limit)
        interp.reset(prefix)
        interp.assume = assume
        extra = None
        try:
            try:
                r = fn(interp)
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict) and r[1].get('$extra'):
                    r, extra = r[0], r[1]
                outs.append(Outcome('return', r, interp, extra))
            except PyRaise as e:
                outs.append(Outcome('raise', e.value, interp))
        except PruneRun:
            pass
        ds = interp.decisions
        for i in range(len(prefix), len(ds)):
            stack.append([b for _, b in ds[:i]] + [not ds[i][1]])
    interp.assume = None
    return outs
