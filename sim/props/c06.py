"""C06: work on one object, completed or aborted, never changes another."""
import copy, os
import numpy as np
from .. import build, chain, disk, icalc, trace
from ..core import Violation
from ..chain import Skip

RUNS = dict(quick=9000, thorough=200000)
TIMEOUT = 60
RULE = ('one run = 4-24 operations on a pool of chains, thermofield doubles, infinite chains, PEPS and evolution runs (finite and infinite) that are copied and derived from one another; '
        'a random subset of the operations is aborted by KeyboardInterrupt, MemoryError or LinAlgError at a chosen executed line. After every operation every tensor of every other object, every '
        'operator passed in, and (for reading operations) the object itself are compared byte for byte. Non-trivial: two objects and three judged operations. Distinct: by the full case.')
STATES = 'distinct (kind, operation, aborted or not, place of the abort) combinations'
COMPONENTS = dict(real=['xmps.fMPS, xmps.iMPS, xmps.fPEPS, xmps.fTDVP, xmps.iTDVP'], simulated=['aborts at chosen executed lines', 'order of operations of the clients'], stub=['progress bars discarded'])
ASSUMPTIONS = ['aborts happen at line boundaries of the library, not inside numpy', 'an aborted operation may leave the object it was changing unusable (only other objects are judged)',
               'two objects that a client builds from the same arrays share them on purpose']
LEVEL = 'fault_enumeration'
LINES = True
EXC = ['KeyboardInterrupt', 'MemoryError', 'LinAlgError', 'KeyboardInterrupt']
T3 = np.linspace(0, .02, 3)


def cleanup(pid):
    disk.cleanup(pid)


class Ent:
    def __init__(self, kind, obj, **k):
        self.kind, self.obj = kind, obj
        self.__dict__.update(k)


def arrays(e):
    """named groups of arrays of an object"""
    k, m = e.kind, e.obj
    if k in ('chain', 'imps'):
        return dict(data=list(m.data))
    if k == 'ivmps':
        return dict(data=[x for t in m.data for x in t])
    if k == 'peps':
        return dict(data=[x for row in m.data for x in row])
    g = dict(now=list(m.mps.data), first=list(m.mps_0.data), H=list(m.H))
    for i, h in enumerate(m.mps_history):
        g['rec%d' % i] = [h]
    return g


def snap(e):
    return {k: [np.array(x) for x in v] for k, v in arrays(e).items()}


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes() for x, y in zip(a, b))


XOPS = {}


def xop(kind, name, read=False):
    def deco(f):
        XOPS.setdefault(kind, {})[name] = (f, read)
        return f
    return deco


def two_good(s):
    """full rank on every bond: the domain of the evolution formulas"""
    m = s.obj
    b = [A.shape[1] for A in m.data] + [1]
    if any(b[n + 1] > s.d * b[n] or b[n] > s.d * b[n + 1] for n in range(s.L)):
        return False
    return all(build.schmidt(s.v, n).size >= b[n] and np.sort(build.schmidt(s.v, n))[::-1][b[n] - 1] > 1e-6 for n in range(1, s.L))


# ---------------------------------------------------------------- chains: what chain.py does not have
def cop(name, read=True):
    return chain.op(name, read=read)


@cop('poke')
def _(W, o, s):
    """edit a copy in place"""
    how = o['k'] % 3

    def thunk():
        if how == 0:
            return s.obj.copy()
        if how == 1:
            return type(s.obj)().deserialize(s.obj.serialize(real=bool(o['j'] % 2)), real=bool(o['j'] % 2), structure=[A.shape for A in s.obj.data])
        v = s.obj.serialize(real=False)
        m = type(s.obj)().deserialize(v, structure=[A.shape for A in s.obj.data])
        W.give('serialised', v)
        return m

    def check(m):
        for A in m.data:
            A *= 2.5
            A[0] += 1
    return thunk, check


@cop('dA')
def _(W, o, s):
    W.need(not s.tfd and s.L >= 2 and two_good(s))
    hs = W.give('H', build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed'])))
    if o['k'] % 4 == 0 and s.d ** s.L <= 64:
        H = W.give('H', build.full_h(hs, s.d))
        return (lambda: s.obj.dA_dt(H, fullH=True)), lambda m: None
    return (lambda: s.obj.dA_dt(hs)), lambda m: None


@cop('jac')
def _(W, o, s):
    W.need(not s.tfd and 2 <= s.L <= 4 and two_good(s) and s.obj.bond_dimension <= 4)
    hs = W.give('H', build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed'])))

    def thunk():
        m = s.obj if o['k'] % 2 else s.obj.copy()
        return m.jac(hs)
    return thunk, lambda m: None


READS = ['projection_error', 'should_expand', 'ddA_dt', 'F1', 'F2', 'christoffel', 'left_null_projector', 'right_null_projector', 'dims', 'basis', 'tangent', 'F1f']


@cop('derivs')
def _(W, o, s):
    W.need(not s.tfd and 2 <= s.L <= 5 and two_good(s) and s.obj.bond_dimension <= 4)
    m, q = s.obj, READS[o['seed'] % len(READS)]
    i, j, k = o['i'] % s.L, o['j'] % s.L, o['k'] % s.L
    hs = W.give('H', build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed'])))
    if q == 'projection_error':
        return (lambda: m.projection_error(hs, .1)), lambda x: None
    if q == 'should_expand':
        return (lambda: m.should_expand(hs, .1, 1e-3)), lambda x: None
    if q in ('F1', 'F2'):
        return (lambda: getattr(m, q)(i, j, hs)), lambda x: None
    if q == 'christoffel':
        return (lambda: m.christoffel(i, j, k)), lambda x: None
    if q in ('left_null_projector', 'right_null_projector'):
        return (lambda: getattr(m, q)(i)), lambda x: None
    if q == 'dims':
        return m.tangent_space_dims, lambda x: None
    n = sum(a * b for a, b in m.tangent_space_dims())
    W.need(n)
    if q == 'basis':
        return (lambda: m.tangent_space_basis(['eye', 'rand'][o['k'] % 2])), lambda x: None
    v = W.give('tangent', build.crandn(build.rng(o['seed']), (n,)))
    if q == 'ddA_dt':
        return (lambda: m.ddA_dt(v, hs)), lambda x: None

    def thunk():
        t = m.import_tangent_vector(v)
        return t, m.extract_tangent_vector(t)

    def check(r):
        for A in r[0].data:
            A *= 2
    return thunk, check


@cop('dyn', read=False)
def _(W, o, s):
    """growing the bonds along the dynamics: the Hamiltonian stays what it was"""
    W.need(not s.tfd and 2 <= s.L <= 5 and two_good(s) and s.obj.bond_dimension <= 3)
    m, hs = s.obj, W.give('H', build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed'])))
    D = m.bond_dimension + o['D'] % 3
    top = s.d ** (s.L // 2)

    def thunk():
        if o['k'] % 2 and D <= top:
            return m.grow(hs, .01, D)
        return m.dynamical_expand(hs, .01, D)

    def check(r):
        s.v = W.actual(s)
        s.v = s.v / np.linalg.norm(s.v)
    return thunk, check


@cop('vecs')
def _(W, o, s):
    """states from a vector; the vector stays as it was"""
    from xmps.fMPS import fMPS
    v = W.give('vector', build.crandn(build.rng(o['seed']), [s.d] * s.L, o['i'] % 3 == 0))
    name = ['left_from_state', 'right_from_state'][o['k'] % 2]
    return (lambda: getattr(fMPS(), name)(v)), lambda m: chain.add_slot(W, o, chain.Slot(m, v, s.d))


@cop('ctor')
def _(W, o, s):
    """a new chain from a list of tensors, with a bond limit"""
    from xmps.fMPS import fMPS
    data = W.give('tensors', [np.array(A) for A in s.obj.data])
    D = [None, 2, 3, 1][o['k'] % 4]
    n = list(data)

    def check(m):
        if len(n) != len(data) or any(x is not y for x, y in zip(n, data)):
            raise Violation('input-changed:tensors', 'the list passed in was modified')
    return (lambda: fMPS(data, D=D)), check


@cop('tfd')
def _(W, o, s):
    from xmps.fMPS import fTFD
    W.need(not s.tfd and s.d == 2 and s.L <= 4 and s.obj.bond_dimension <= 2)
    return (lambda: fTFD().from_fMPS(s.obj)), lambda m: chain.add_slot(W, o, chain.Slot(m, build.psi(m.data, 4), 4, True))


@cop('topeps')
def _(W, o, s):
    from xmps.fPEPS import fPEPS
    W.need(not s.tfd and s.L in (4, 6))
    Lx = [2, s.L // 2][o['k'] % 2]
    return (lambda: fPEPS().from_mps(s.obj, Lx)), lambda m: W.add(o, Ent('peps', m))


@cop('run')
def _(W, o, s):
    from xmps.fTDVP import Trajectory
    W.need(not s.tfd and s.L >= 2 and s.d == 2 and two_good(s))
    hs = W.give('H', build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed'])))
    return (lambda: Trajectory(s.obj, H=hs)), lambda m: W.add(o, Ent('traj', m, ok=True))


@cop('keep')
def _(W, o, s):
    def thunk():
        d = disk.scratch_dir()
        try:
            s.obj.store(os.path.join(d, 'x.npy'), structured=True)
        finally:
            disk.cleanup(os.getpid())
    return thunk, lambda m: None


# ---------------------------------------------------------------- evolution runs
def traj(name, **k):
    return xop('traj', name, **k)


@traj('euler')
def _(W, o, e):
    W.need(e.ok)
    return (lambda: e.obj.eulerint(T3)), None


@traj('rk4')
def _(W, o, e):
    W.need(e.ok)
    return (lambda: e.obj.rk4int(T3)), None


@traj('ed')
def _(W, o, e):
    W.need(not e.obj.mps_history)
    return (lambda: e.obj.edint(T3)), None


@traj('expand')
def _(W, o, e):
    def done(res):
        e.ok = False
    return (lambda: e.obj.expand(e.obj.mps.bond_dimension + 1)), done


@traj('contract')
def _(W, o, e):
    return (lambda: e.obj.contract(max(1, e.obj.mps.bond_dimension - 1))), None


@traj('clear')
def _(W, o, e):
    return (lambda: e.obj.clear()), None


@traj('read', read=True)
def _(W, o, e):
    t = e.obj
    W.need(t.mps_history and not hasattr(t, 'ed_history'))
    name = ['mps_list', 'schmidts', 'loschmidt', 'mps_energies', 'von_neumann', 'renyi', 'mps_evs', 'deserialize'][o['k'] % 8]
    ops = W.give('ops', [build.X, build.Z])
    return (lambda: t.mps_evs(ops, o['i'] % t.mps.L) if name == 'mps_evs' else getattr(t, name)()), None


@traj('record', read=True)
def _(W, o, e):
    W.need(e.obj.mps_history and not hasattr(e.obj, 'ed_history'))

    def done(l):
        m = l[o['i'] % len(l)]
        v = build.psi(m.data, m.d)
        chain.add_slot(W, o, chain.Slot(m, v, m.d))
    return (lambda: e.obj.mps_list()), done


@traj('take', read=True)
def _(W, o, e):
    which = ['mps', 'mps_0'][o['k'] % 2]
    return (lambda: getattr(e.obj, which).copy()), lambda m: chain.add_slot(W, o, chain.Slot(m, build.psi(m.data, m.d), m.d))


@traj('copy', read=True)
def _(W, o, e):
    return (lambda: e.obj.copy()), lambda m: W.add(o, Ent('traj', m, ok=e.ok))


# ---------------------------------------------------------------- infinite chains
def imps(name, **k):
    return xop('imps', name, **k)


def hh(W, o, e):
    return W.give('h', [build.herm(build.rng(o['seed']), e.obj.d ** 2)])


@imps('can')
def _(W, o, e):
    return (lambda: e.obj.canonicalise('lrm'[o['k'] % 3])), None


@imps('E')
def _(W, o, e):
    X = W.give('op', build.herm(build.rng(o['seed']), e.obj.d))
    return (lambda: e.obj.E(X) if o['k'] % 2 else e.obj.Es([X])), None


@imps('Ec', read=True)
def _(W, o, e):
    X = W.give('op', build.herm(build.rng(o['seed']), e.obj.d))
    W.need(hasattr(e.obj, 'L') and e.obj.canonical is not None)
    return (lambda: e.obj.E(X, e.obj.canonical)), None


@imps('energy', read=True)
def _(W, o, e):
    h = hh(W, o, e)
    return (lambda: e.obj.energy(h)), None


@imps('overlap', read=True)
def _(W, o, e):
    t = W.other('imps', o, lambda t: t.obj.d == e.obj.d and t.obj.D == e.obj.D)
    return (lambda: e.obj.overlap(t.obj)), None


@imps('dA', read=True)
def _(W, o, e):
    h = hh(W, o, e)
    return (lambda: e.obj.dA_dt(h)), None


@imps('envs', read=True)
def _(W, o, e):
    h = hh(W, o, e)
    f = ['eigs', 'get_envs', 'left_null_projector', 'right_null_projector', 'left_gauge', 'mixed'][o['k'] % 6]
    return (lambda: getattr(e.obj, f)()), None


@imps('Lh', read=True)
def _(W, o, e):
    h = hh(W, o, e)

    def thunk():
        return e.obj.Lh(h)
    W.need(np.abs(np.einsum('sab,sac->bc', e.obj.data[0].conj(), e.obj.data[0]) - np.eye(e.obj.D)).max() < 1e-9)
    return thunk, None


@imps('arith', read=True)
def _(W, o, e):
    t = W.other('imps', o, lambda t: t.obj.d == e.obj.d and t.obj.D == e.obj.D)
    f = o['k'] % 4
    return (lambda: [lambda: e.obj + t.obj, lambda: e.obj - t.obj, lambda: 2 * e.obj, lambda: e.obj / 3][f]()), (lambda m: W.add(o, Ent('imps', m)) if f > 1 else None)


@imps('copy', read=True)
def _(W, o, e):
    return (lambda: e.obj.copy()), lambda m: W.add(o, Ent('imps', m))


@imps('poke', read=True)
def _(W, o, e):
    def done(m):
        for A in m.data:
            A *= 1.5
            A[0] += 1
    real = bool(o['k'] % 2)

    def thunk():
        if o['j'] % 2:
            return e.obj.copy()
        v = W.give('serialised', e.obj.serialize(real))
        from xmps.iMPS import iMPS
        return iMPS().deserialize(v, e.obj.d, e.obj.D, 1, real)
    return thunk, done


@imps('vidal')
def _(W, o, e):
    return (lambda: e.obj.canonicalise(to_vidal=True)), lambda m: W.add(o, Ent('ivmps', m, d=e.obj.d))


@imps('run', read=True)
def _(W, o, e):
    from xmps.iTDVP import Trajectory
    h = W.give('h', [build.herm(build.rng(o['seed']), e.obj.d ** 2) / 4])
    return (lambda: Trajectory(e.obj, H=h)), lambda m: W.add(o, Ent('itraj', m))


@xop('ivmps', 'can')
def _(W, o, e):
    return (lambda: e.obj.canonicalise()), None


@xop('ivmps', 'E', read=True)
def _(W, o, e):
    X = W.give('op', build.herm(build.rng(o['seed']), e.d))
    return (lambda: e.obj.E(X)), None


@xop('ivmps', 'to', read=True)
def _(W, o, e):
    return (lambda: e.obj.to_iMPS()), lambda m: W.add(o, Ent('imps', m))


@xop('itraj', 'euler')
def _(W, o, e):
    return (lambda: e.obj.eulerint(T3)), None


@xop('itraj', 'rk4')
def _(W, o, e):
    return (lambda: e.obj.rk4int(T3)), None


@xop('itraj', 'losch', read=True)
def _(W, o, e):
    W.need(e.obj.mps_history)
    return (lambda: e.obj.loschmidts()), None


@xop('itraj', 'take', read=True)
def _(W, o, e):
    return (lambda: [e.obj.mps, e.obj.mps_0][o['k'] % 2].copy()), lambda m: W.add(o, Ent('imps', m))


# ---------------------------------------------------------------- PEPS
def peps(name, **k):
    return xop('peps', name, **k)


@peps('E', read=True)
def _(W, o, e):
    X = W.give('op', build.herm(build.rng(o['seed']), e.obj.data[0][0].shape[0]))
    return (lambda: e.obj.E(X, (o['i'] % e.obj.Lx, o['j'] % e.obj.Ly))), None


@peps('Ek', read=True)
def _(W, o, e):
    x, y = o['i'] % e.obj.Lx, o['j'] % e.obj.Ly
    w, h = min(e.obj.Lx - x, 1 + o['k'] % 2), min(e.obj.Ly - y, 1 + o['k'] // 2 % 2)
    d = e.obj.data[0][0].shape[0]
    W.need(d == 2)
    X = W.give('op', build.herm(build.rng(o['seed']), d ** (w * h)))
    return (lambda: e.obj.E_k(X, ((x, y), (w, h)))), None


@peps('overlap', read=True)
def _(W, o, e):
    t = W.other('peps', o, lambda t: len(t.obj.data) == len(e.obj.data) and len(t.obj.data[0]) == len(e.obj.data[0]) and
                all(a.shape[0] == b.shape[0] for p, q in zip(t.obj.data, e.obj.data) for a, b in zip(p, q)))
    return (lambda: [e.obj.overlap, e.obj.full_overlap][o['k'] % 2](t.obj)), None


@peps('read', read=True)
def _(W, o, e):
    f = ['norm', 'recombine', 'snake', 'row_mpos', 'col_mpos', 'eq', 'bond', 'str'][o['k'] % 8]
    m = e.obj
    fn = dict(norm=m.norm, recombine=m.recombine, snake=lambda: m.recombine('row_snake'), row_mpos=m.row_mpos, col_mpos=m.col_mpos, eq=lambda: m == m.copy(), bond=lambda: m.bond_dimension, str=lambda: str(m))[f]
    return fn, None


@peps('view', read=True)
def _(W, o, e):
    f = ['T', 'R', 'U'][o['k'] % 3]
    return (lambda: getattr(e.obj, f)), lambda m: W.add(o, Ent('peps', m))


@peps('copy', read=True)
def _(W, o, e):
    return (lambda: e.obj.copy() if o['k'] % 2 else e.obj.copy(e.obj.data)), lambda m: W.add(o, Ent('peps', m))


@peps('poke', read=True)
def _(W, o, e):
    def done(m):
        for row in m.data:
            for A in row:
                A *= 1.5
                A[0] += 1
    return (lambda: e.obj.copy()), done


@peps('ctor', read=True)
def _(W, o, e):
    from xmps.fPEPS import fPEPS
    data = [list(row) for row in e.obj.data]
    rows = [list(row) for row in data]

    def thunk():
        m = fPEPS(data)
        m.normalise()
        m.truncate_along_row(0, 1)
        return m

    def done(m):
        if any(x is not y for p, q in zip(rows, data) for x, y in zip(p, q)):
            raise Violation('input-changed:tensors', 'the list passed in was modified')
    return thunk, done


@peps('new', read=True)
def _(W, o, e):
    m = e.obj
    f = o['k'] % 4
    if f == 0:
        t = W.other('peps', o, lambda t: len(t.obj.data) == len(m.data) and len(t.obj.data[0]) == len(m.data[0]) and t.obj.bond_dimension + m.bond_dimension <= 4 and
                    all(a.shape[0] == b.shape[0] for p, q in zip(t.obj.data, m.data) for a, b in zip(p, q)))
        W.need(m.Lx > 1 and m.Ly > 1)
        return (lambda: m.add(t.obj)), lambda r: W.add(o, Ent('peps', r))
    if f == 1:
        X = W.give('op', build.crandn(build.rng(o['seed']), (m.data[0][0].shape[0],) * 2))
        return (lambda: m.apply(X, (o['i'] % m.Lx, o['j'] % m.Ly))), lambda r: W.add(o, Ent('peps', r))
    W.need(all(A.shape[0] == 2 for row in m.data for A in row))
    if f == 2:
        return (lambda: m.row_contract(0, 2) if m.Ly > 2 else m.row_contract(0, 1)), None
    return (lambda: m.contract(((0, 0), (1, 2)))), None


@peps('normalise')
def _(W, o, e):
    return (lambda: e.obj.normalise()), None


@peps('trunc')
def _(W, o, e):
    m, f = e.obj, o['k'] % 5
    D = 1 + o['D'] % 2
    return (lambda: [lambda: m.truncate_above(m.Ly - 1, D), lambda: m.truncate_below(0, D), lambda: m.truncate_left(m.Lx - 1, D), lambda: m.truncate_along_row(o['i'] % m.Ly, D),
                     lambda: m.truncate_along_column(o['i'] % m.Lx, D)][f]()), lambda r: W.drop_broken(e)


@peps('iso')
def _(W, o, e):
    W.need(e.obj.Lx == e.obj.Ly and all(A.shape[0] == 2 for row in e.obj.data for A in row) and e.obj.bond_dimension <= 2)
    return (lambda: e.obj.isometrise((o['i'] % e.obj.Lx, o['j'] % e.obj.Ly))), None


# ---------------------------------------------------------------- the run
MUT = dict(traj={'euler': ('now',), 'rk4': ('now',), 'ed': ('now',), 'expand': ('now',), 'contract': ('now',), 'clear': ('now',)})
CHAIN = ['rcan', 'lcan', 'mcan', 'rorth', 'lorth', 'morth', 'expand', 'match', 'trunc', 'edit', 'E', 'E_', 'Es', 'Ek', 'EL', 'rho', 'S', 'energy', 'energy_ro', 'ov', 'norm', 'lov', 'pov', 'rec',
         'ser', 'envs', 'copy', 'copy', 'g1', 'g1', 'g2', 'g2D', 'post', 'add', 'mul', 'ext', 'poke', 'poke', 'dA', 'dA', 'derivs', 'derivs', 'dyn', 'jac', 'vecs', 'ctor', 'tfd', 'topeps', 'run', 'run', 'keep']


def gen(r, tier, k):
    pool = []
    theme = r.choice(['chain', 'chain', 'traj', 'imps', 'peps', 'all'])
    for _ in range(r.choice([1, 2, 3])):
        kind = r.choice(['chain', 'imps', 'peps']) if theme == 'all' else 'chain' if theme == 'traj' else theme
        if kind == 'chain':
            sp = chain.gen_spec(r, tfd=theme != 'traj', small=r.random() < .5)
            if theme == 'traj':
                sp.update(kind=r.choice(['std', 'irr', 'product']), d=2)
            pool.append(dict(kind=kind, spec=sp))
        elif kind == 'imps':
            pool.append(dict(kind=kind, spec=dict(icalc.gen_ispec(r, Dmax=3), d=2)))
        else:
            pool.append(dict(kind=kind, spec=dict(Lx=r.choice([2, 2, 3]), Ly=r.choice([2, 2, 3]), X=r.choice([1, 2]), seed=r.randrange(10 ** 6))))
    p = r.choice([0, .3, .6])
    ops = []
    for _ in range(r.choice([4, 8, 14, 24])):
        o = dict(chain.gen_op(r, CHAIN), x=r.randrange(1 << 16))
        if r.random() < p:
            o['abort'] = dict(n=r.randrange(1, r.choice([4, 20, 100, 400, 3000])), exc=r.randrange(len(EXC)))
        ops.append(o)
    if theme in ('traj',):
        ops.insert(0, dict(chain.gen_op(r, ['run']), x=0))
    return dict(params={}, slots=pool, ops=ops)


def simplify(case):
    for i, o in enumerate(case['ops']):
        if o.get('abort'):
            c = copy.deepcopy(case); del c['ops'][i]['abort']; yield c
    if len(case['slots']) > 1:
        for i in range(len(case['slots'])):
            c = copy.deepcopy(case); del c['slots'][i]; yield c


class World(chain.World):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.ex = []

    def add(self, o, e, cap=5):
        if len(self.ex) < cap:
            self.ex.append(e)
        else:
            self.ex[o['seed'] % len(self.ex)] = e

    def other(self, kind, o, ok):
        l = [t for t in self.ex if t.kind == kind and ok(t)]
        self.need(l)
        return l[o['j'] % len(l)]

    def drop_broken(self, e):
        """cutting bonds independently can leave tensors that no longer fit"""
        try:
            e.obj.recombine()
        except Exception:
            self.ex.remove(e)

    def all(self):
        for s in self.slots:
            if not hasattr(s, 'ent'):
                s.ent = Ent('chain', s.obj, slot=s)
        return [s.ent for s in self.slots] + self.ex


def start(W, p):
    from xmps.iMPS import iMPS
    from xmps.fPEPS import fPEPS
    if p['kind'] == 'chain':
        m, v, d, tfd = chain.new_obj(p['spec'])
        if np.linalg.norm(v) > 1e-12:
            W.slots.append(chain.Slot(m, v, d, tfd))
    elif p['kind'] == 'imps':
        W.ex.append(Ent('imps', iMPS([icalc.itensor(p['spec']).astype(complex)])))
    else:
        sp = p['spec']
        np.random.seed(sp['seed'])
        W.ex.append(Ent('peps', fPEPS().random(sp['Lx'], sp['Ly'], 2, sp['X'])))


def run(case, ctx):
    W = World(ctx)
    for p in case['slots']:
        ctx.call('build', start, W, p)
    judged = 0
    for o in case['ops']:
        ents = W.all()
        if not ents:
            break
        e = ents[o['s'] % len(ents)]
        try:
            if e.kind == 'chain':
                label = o['op']
                thunk, check = chain.OPS[label](W, o, e.slot)
                read = label in chain.READ
            else:
                names = sorted(XOPS[e.kind])
                label = names[o['x'] % len(names)]
                fn, read = XOPS[e.kind][label]
                thunk, check = fn(W, o, e)
        except Skip:
            ctx.stats['op:skipped'] += 1
            continue
        lab = e.kind + '.' + label
        ctx.stats['op:' + lab] += 1
        ctx.steps()
        ctx.ev(lab, o['s'] % len(ents))
        before = [(x, snap(x)) for x in ents]
        held = snap(e)
        # a local overlap measures both states in place: its partner is re-gauged like the state itself
        both = [e] + ([W.slots[o['j'] % len(W.slots)].ent] if e.kind == 'chain' and label == 'lov' else [])
        ab = o.get('abort')
        err = None
        res = None
        if ab:
            exc = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, LinAlgError=np.linalg.LinAlgError)[EXC[ab['exc']]]
            with trace.Abort(ab['n'], exc('simulated')) as A:
                try:
                    res = thunk()
                except Exception as x:
                    err = x
                except KeyboardInterrupt as x:
                    err = x
            if A.fired:
                ctx.fault('abort-' + EXC[ab['exc']])
                ctx.ev('aborted', A.where)
            fired, where = A.fired, A.where
        else:
            fired, where = False, None
            try:
                res = thunk()
            except Exception as x:
                err = x
        if err is not None and not fired:
            from ..core import tb_text
            raise Violation('operation-failed:' + lab, tb_text(err))
        if err is None and fired:
            ctx.probe('abort-survived')
        judged += 1
        ctx.state((lab, fired, where))

        def compare(when):
            for x, b in before:
                now = arrays(x)
                for g, arrs in b.items():
                    if x in both and not read and (e.kind != 'traj' and e.kind != 'itraj' or g == 'now' or g.startswith('rec') and label == 'clear'):
                        continue
                    if x is e and g not in now:
                        raise Violation('record-lost:' + lab, '%s of the run is gone (%s)' % (g, where or when))
                    if not same([np.asarray(a) for a in now[g]], arrs):
                        raise Violation('tensors-changed:' + lab, '%s of %s %s changed%s' % (
                            g, 'the' if x is e else 'another', x.kind, ' by an operation aborted at ' + where if fired else ' ' + when))
            W.check_inputs()
        compare('by the operation')
        # the object itself after an aborted change: only its own state is uncertain
        if err is not None:
            if not read:
                for x in both:
                    resync(W, x)
            continue
        if e.kind == 'chain' and fired:
            for x in both:
                resync(W, x)
            continue
        if check is not None:
            slots = list(W.slots)
            try:
                check(res)
            except Skip:
                continue
            for s in W.slots:
                W.check_state(s, lab)
            compare('later, by work on the result')
        if e.kind in ('traj', 'itraj') and label in ('euler', 'rk4') and not fired:
            if len(e.obj.mps_history) != sum(g.startswith('rec') for g in held) + 3:
                raise Violation('record-lost:' + lab, '%d records' % len(e.obj.mps_history))
        for x in W.all():
            if x is e:
                for g in arrays(x).values():
                    for a in g[:2]:
                        ctx.data(lab, np.abs(np.asarray(a)).reshape(-1)[:16])
                break
    ctx.nontrivial = judged >= 3 and len(W.all()) >= 2


def resync(W, e):
    if e.kind != 'chain':
        if e in W.ex:
            W.ex.remove(e)                    # in doubt: it is not used any more
        return
    s = e.slot
    try:
        w = W.actual(s)
        m = s.obj
        ok = np.isfinite(w).all() and np.linalg.norm(w) > 1e-9 and m.L == len(m.data) and m.d == s.d and m.D == m.bond_dimension
    except Exception:
        ok = False
    if ok:
        s.v = w / np.linalg.norm(w)
        s.obj.forget_gauge()
    else:
        W.slots[:] = [t for t in W.slots if t is not s]
