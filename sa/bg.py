"""Abstract backgrounds: equations objects over symbolic state, opaque potential, solutions."""
from .common import *  # noqa

KINDS = {'t': ('primpy.time.inflation', 'InflationEquationsT'),
         'N': ('primpy.efolds.inflation', 'InflationEquationsN')}
VNAMES = ['pot.V', 'pot.dV', 'pot.d2V', 'pot.d3V', 'pot.d4V']
for _a, _b in zip(VNAMES, VNAMES[1:]):
    T.DAPP[_a] = _b
for _n in VNAMES:
    RANGES[_n] = (2.0, 4.0) if _n == 'pot.V' else (0.4, 1.6)
K = T.sym('K')
NN, PHI, DPHI, ETA, TT = [T.sym(n) for n in ('_N', 'phi', 'dphi', 'eta', 't')]
BASE = {'K': (-0.5, 0.5), '_N': (0.5, 1.5), 'dphi': (0.3, 0.9), 'phi': (0.7, 1.9), 't': (0.5, 2), 'eta': (0.1, 0.4)}


def potential(i, name='pot'):
    o = VInst(VExternal('opaque.potential'), name='potential')
    for n, full in zip(('V', 'dV', 'd2V', 'd3V', 'd4V'), VNAMES):
        o.attrs[n] = VBuiltin(n, lambda it, a, k, full=full: T.app(full, [T.lift(a[0] if a else k['phi'])],
                                                                    pointwise=True))
    return o


def equations(i, kind, K=K, **kw):
    mod, cls = KINDS[kind]
    c = i.get(mod + ':' + cls)
    return i.call(c, [], dict({'K': K, 'potential': potential(i)}, **kw))


def leaf(kind, name, arr=False):
    base = {'_N': '_N', 'phi': 'phi', 'dphidt': 'dphi', 'dphidN': 'dphi', 't': 't', 'eta': 'eta'}[name]
    return T.sym(base, 'a' if arr else 's')


def idx_of(i, eq):
    """name -> position, as plain ints, from the equations' public index."""
    d = i.getattr(eq, 'idx')
    out = {}
    for k in i.iterate(d):
        v = i.call(i.getattr(d, 'get'), [k], {})
        out[k] = int(T.lift(v).args[0]) if isinstance(v, Term) else int(v)
    return out


def state(i, eq, kind):
    """(x, y, names): symbolic state vector laid out by the equations' own index."""
    ix = idx_of(i, eq)
    n = len(ix)
    elems = [None] * n
    for name, p in ix.items():
        elems[p] = leaf(kind, name)
    x = TT if kind == 't' else NN
    return x, VArray(elems=elems), ix


def domain(extra=None):
    return ranges(dict(BASE, **(extra or {})))


# ------------------------------------------------------------------ background solutions
EV = {'beg': 'Inflation_dir1_term0', 'end': 'Inflation_dir-1_term1', 'end0': 'Inflation_dir-1_term0', 'collapse': 'Collapse'}


def raw_solution(i, kind, eq, events=('beg', 'end')):
    """What the ODE solver hands to the post-processing: arrays of symbols, one occurrence per event in `events`.

    `events` lists pairs (key, number of occurrences) or short names of EV (one occurrence).
    """
    ix = idx_of(i, eq)
    order = sorted(ix, key=ix.get)
    s = VInst(VExternal('scipy.integrate.OdeBunch'), name='OdeResult')
    s.bunch = True
    x = 't' if kind == 't' else '_N'
    nm = lambda n: {'dphidt': 'dphi', 'dphidN': 'dphi'}.get(n, n)  # noqa
    keys, te, ye = [], [], []
    for e in events or ():
        key, n = (EV.get(e, e), 1) if isinstance(e, str) else e
        tag = {v: k for k, v in EV.items()}.get(key, key)
        keys.append(key)
        sfx = lambda q, j: '%s@%s%s' % (q, tag, '' if j == 0 else j)  # noqa
        te.append(VArray([T.sym(sfx(x, j)) for j in range(n)]))
        ye.append(VArray([VArray([T.sym(sfx(nm(q), j)) for q in order]) for j in range(n)]))
    s.attrs.update({'t': T.sym(x, 'a'), 'y': VArray([T.sym(nm(q), 'a') for q in order]), 'sol': None, 'status': T.sym('status'),
                    'message': T.sym('message'), 'success': T.sym('success'), 'nfev': T.sym('nfev'), 'njev': T.sym('njev'),
                    'nlu': T.sym('nlu'), 't_events': te, 'y_events': ye})
    if events is not None:
        s.attrs['event_keys'] = keys
    return s


def solution(i, kind, Kval, events=('beg', 'end'), **kw):
    """(equations, post-processed solution)."""
    eq = equations(i, kind, K=Kval, **kw)
    return eq, call(i, eq, 'sol', raw_solution(i, kind, eq, events))
