"""C07: threads that work on their own states, or share what they only read, do not affect each other."""
import _thread, copy, os
import numpy as np
from .. import build, chain, disk, icalc, seams, trace
from ..core import Violation

RUNS = dict(quick=4000, thorough=80000)
TIMEOUT = 90
RULE = ('one run = 2-4 threads, each with a computation of its own (evolution, canonicalisation and measurement, circuits, tangent-space quantities, infinite chains, PEPS, files) or reading states, runs and '
        'Hamiltonians it shares with the others; a seeded schedule decides after how many executed lines of the library, or before which lines of it, the running thread is suspended and which goes on. Some threads are aborted or '
        'have failing decompositions or solvers. Every computation is first done alone. Non-trivial: at least three switches between unfinished threads. Distinct: by the full case.')
STATES = 'distinct (line suspended at, computation suspended, computation resumed) combinations'
COMPONENTS = dict(real=['xmps.fMPS, xmps.iMPS, xmps.fTDVP, xmps.iTDVP, xmps.fPEPS, xmps.svd_robust, xmps.tensor, xmps.ncon in real threads', 'ARPACK, LAPACK'],
                  simulated=['the scheduler of the threads', 'locks (threading.Lock and RLock)', 'failures of decompositions and solvers', 'aborts of one thread'], stub=['progress bars discarded'])
ASSUMPTIONS = ['threads are switched between executed lines of the library, at its locks and at its disk operations, not inside one line or inside numpy and LAPACK',
               'computations that draw random numbers of the global generator as part of their result are not run next to one another (the generator is one for the process)',
               'the LSODA integrator (odeint) is left out: scipy documents it as not re-entrant',
               'iterative solvers keep their own state, so results are compared to 1e-7 of their size; state vectors up to a phase']
LEVEL = 'exploration'
LINES = True
TOL = 1e-7
T3 = np.linspace(0, .03, 3)


def cleanup(pid):
    disk.cleanup(pid)


def ray(v):
    v = np.asarray(v).reshape(-1)
    return ('ray', v / np.linalg.norm(v))


def phys(A):
    """gauge independent numbers of an infinite chain"""
    fx = icalc.fixed(A)
    d = A.shape[0]
    return [icalc.expect1(A, build.herm(build.rng(7), d), fx), icalc.expect2(A, build.herm(build.rng(8), d * d), fx)] + list(icalc.schmidt2(A, fx))


TASKS = {}


def task(f):
    TASKS[f.__name__] = f
    return f


def fm(sp, L=None, D=None, kind=None):
    sp = dict(sp['spec'])
    if kind:
        sp['kind'] = kind
    if L:
        sp['L'] = L
    if D:
        sp['D'] = D
    return build.tensors(dict(sp, d=2, unit=True))


def hams(sp, L):
    return build.ham(dict(L=L, d=2, kind=sp['hk'], seed=sp['seed']))


# each: fn(spec, shared) -> thunk; objects are made here, before any thread runs
@task
def evolve(sp, sh):
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    A = fm(sp, 3 + (sp['k'] % 5 == 0), 2, 'std')
    t = Trajectory(fMPS(A), H=hams(sp, len(A)))

    def go():
        getattr(t, ['rk4int', 'eulerint'][sp['k'] % 2])(T3[:2] if sp['k'] % 2 == 0 else T3)
        m = t.mps_list()
        return [ray(build.vec(x.data)) for x in m] + [t.mps_energies(), t.mps_evs([build.X, build.Y], 1), t.loschmidt(), t.von_neumann()]
    return go


@task
def exact(sp, sh):
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    A = fm(sp, 3, 2, 'std')
    t = Trajectory(fMPS(A), H=hams(sp, 3))

    def go():
        t.edint(T3)
        return [ray(v) for v in t.ed_history] + [t.loschmidt(), t.renyi()]
    return go


@task
def canon(sp, sh):
    from xmps.fMPS import fMPS
    A = fm(sp)
    m = fMPS(A)
    L = len(A)
    ops = [build.X, build.Y + .3 * build.Z]

    def go():
        out = []
        for q in range(3):
            f = (sp['k'] + q) % 5
            if f == 0:
                m.left_canonicalise()
            elif f == 1:
                m.right_canonicalise()
            elif f == 2:
                m.mixed_canonicalise(sp['seed'] % L)
            elif f == 3:
                m.mixed_orthogonalise(sp['seed'] % L)
            else:
                m.left_orthogonalise()
            n = (sp['seed'] + q) % L
            out += [m.E(ops[0], n), m.E_(ops[1], n), np.array(m.Es(ops, (n + 1) % L)), ray(build.vec(m.data))]
            if L > 2 and m.bond_dimension > 1:
                out.append(m.rho([1, 2], single_string=False))
        m.left_canonicalise()
        out += [m.entanglement_entropy(L // 2) if False else np.sort(np.diag(m.Ls[L // 2]))[::-1]]
        return out
    return go


@task
def circuit(sp, sh):
    from xmps.fMPS import fMPS
    A = fm(sp, kind='std')
    m = fMPS(A)
    L = len(A)
    r = build.rng(sp['seed'])
    gates = [(build.unitary(r, 4), tuple(r.choice(L, 2, replace=False))) for _ in range(3)]
    one = build.unitary(r, 2)
    D = [None, 2, 3][sp['k'] % 3]

    def go():
        n = m
        for U, (i, j) in gates:
            n = n.apply_two_site((U, (int(i), int(j))))
        n = n.apply((one, 0))
        if D:
            n.mixed_orthogonalise(L // 2 - 1)
            n = n.apply_two_site((gates[0][0], (L // 2 - 1, L // 2)), D=D)
        if L > 3:
            n.post_select(0, 0)
        return [ray(build.vec(n.data)), n.E(build.X, 1)]
    return go


@task
def tangent(sp, sh):
    from xmps.fMPS import fMPS
    L = 2 + sp['k'] % 2
    A = fm(sp, L, 2, 'std')
    m = fMPS(A).left_canonicalise()
    hs = hams(sp, L)

    def go():
        dA = m.dA_dt(hs)
        return [build.vec(sum_tangent(m.data, dA.data)), m.projection_error(hs, .1), np.linalg.eigvals(np.asarray(m.jac(hs))).size, np.abs(np.linalg.svd(m.jac(hs), compute_uv=False)), m.energy(hs)]
    return go


def sum_tangent(A, B):
    """the tensors of sum_n A..B_n..A as one chain"""
    L = len(A)
    out = []
    for n in range(L):
        d, a, b = A[n].shape
        C = np.zeros((d, 2 * a, 2 * b), complex)
        C[:, :a, :b] = A[n]
        C[:, a:, b:] = A[n]
        C[:, :a, b:] = B[n]
        if n == 0:
            C = C[:, :a]
        if n == L - 1:
            C = C[:, :, b:]
        out.append(C)
    return out


@task
def mult(sp, sh):
    from xmps.fMPS import fMPS, fTFD
    A = fm(sp, 3, 2, 'std')
    m = fTFD().from_fMPS(fMPS(A))

    def go():
        m.right_canonicalise()
        return [m.E(build.X, 1), m.E(build.Z, 0, 1), ray(build.vec(m.data))]
    return go


@task
def infinite(sp, sh):
    from xmps.iMPS import iMPS
    A = icalc.itensor(sp['ispec']).astype(complex)
    m = iMPS([A.copy()])
    X, h = build.herm(build.rng(sp['seed']), 2), build.herm(build.rng(sp['seed'] + 1), 4)

    def go():
        f = sp['k'] % 6
        out = [m.energy([h])]
        if f == 0:
            m.canonicalise('l')
            out += phys(m.data[0])
        elif f == 1:
            out += [m.E(X), m.E(X, None)]
        elif f == 2:
            AL, AR, C = m.mixed()[:3]
            out += phys(np.asarray(AL)) if np.ndim(AL) == 3 else phys(AL.data[0])
        elif f == 3:
            B = m.dA_dt([h])
            out += [B.data[0]]
        elif f == 4:
            m.left_canonicalise()
            K = m.Lh([h])
            out += [np.sort(np.abs(np.linalg.eigvals(K)))]
        else:
            l, r = m.get_envs()
            w = np.abs(np.linalg.eigvals(np.asarray(l).T @ np.asarray(r)))
            out += [np.sort(w) / w.sum()]
        return out
    return go


@task
def ievolve(sp, sh):
    from xmps.iMPS import iMPS
    from xmps.iTDVP import Trajectory
    A = icalc.itensor(dict(sp['ispec'], D=2)).astype(complex)
    t = Trajectory(iMPS([A]).left_canonicalise(), H=[build.herm(build.rng(sp['seed']), 4) / 2])

    def go():
        getattr(t, ['rk4int', 'eulerint'][sp['k'] % 2])(T3)
        return phys(t.mps.data[0]) + [t.loschmidts()]
    return go


@task
def plane(sp, sh):
    from xmps.fPEPS import fPEPS
    r = build.rng(sp['seed'])
    np.random.seed(sp['seed'])
    m = fPEPS().random(2, 2 + sp['k'] % 2, 2, 2)

    def go():
        m.normalise()
        n = m.apply(build.X, (0, 1))
        return [m.E(build.Z, (1, 0)), m.E_k(np.kron(build.X, build.Y), ((0, 0), (2, 1))), n.overlap(m), m.norm(), ray(m.recombine()), m.R.E(build.Z, (0, 0)), m.T.norm()]
    return go


@task
def tensors(sp, sh):
    from xmps.ncon import ncon
    from xmps.tensor import rotate_to_hermitian, partial_trace
    from xmps.svd_robust import svd
    r = build.rng(sp['seed'])
    A, B, C = [build.crandn(r, (3, 4, 5)), build.crandn(r, (5, 3, 2)), build.crandn(r, (4, 2, 6))]
    M = build.crandn(r, (5 + sp['k'] % 3, 6))

    def go():
        out = []
        for q in range(3):
            out.append(ncon([A, B, C], [[1, 2, 3], [3, 1, 4], [2, 4, -1]]))
            u, s, v = svd(M, full_matrices=False)
            out += [s, u @ np.diag(s) @ v]
        return out
    return go


@task
def files(sp, sh):
    from xmps.fMPS import fMPS
    from xmps.iMPS import iMPS
    m = fMPS(fm(sp))
    i = iMPS([icalc.itensor(sp['ispec']).astype(complex)])
    base = os.path.join(sh['dir'], '%d-%d' % (sp['n'], sh['phase']))

    def go():
        m.store(base + 'f.npy', structured=True)
        i.store(base + 'i.npy')
        a = fMPS().load(base + 'f.npy', structured=True)
        b = iMPS().load(base + 'i.npy')
        return list(a.data) + list(b.data)
    return go


@task
def checkpoint(sp, sh):
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    L = 3
    t = Trajectory(fMPS(fm(sp, L, 2, 'std')), H=hams(sp, L), run_name='run%d' % sp['n'])
    loc = os.path.join(sh['dir'], 'p%d-%d' % (sh['phase'], sp['n'] if sp['k'] % 2 else 0))
    os.makedirs(loc, exist_ok=True)

    def go():
        t.eulerint(T3[:2])
        t.stop(loc)
        u = Trajectory().resume('run%d' % sp['n'], loc)
        u = u if u is not None else None
        return [ray(build.vec(u.mps.data)), ray(build.vec(u.mps_0.data))] if u is not None else []
    return go


# ---- readers of shared objects
def pick(sp, q, n):
    if 'only' in sp:
        return [sp['only'] % n]
    return [(sp['seed'] // 3 ** i) % n for i in range(q)]


@task
def rchain(sp, sh):
    m, o = sh['chain'], sh['chain2']
    L = m.L
    H = sh['H'] if sp['k'] % 2 else hams(sp, L)
    U = build.unitary(build.rng(sp['seed']), 2)

    def go():
        out = []
        for f in pick(sp, 4, 10):
            if f == 0:
                out += [m.overlap(o), m.full_overlap(o), o.norm()]
            elif f == 1:
                out += [m.energy(H)]
            elif f == 2:
                out += [build.vec(sum_tangent(m.data, m.dA_dt(H).data))]
            elif f == 3:
                out += [m.serialize(real=True), m.recombine()]
            elif f == 4:
                n = m.copy()
                n.right_canonicalise()
                out += [n.E(build.X, 1), ray(build.vec(n.data))]
            elif f == 5:
                out += [build.vec(m.add(o).data)]
            elif f == 6:
                n = m.apply((U, sp['seed'] % L))
                out += [build.vec(n.data)]
            elif f == 7:
                from xmps.fTDVP import Trajectory
                t = Trajectory(m, H=H)
                t.eulerint(T3)
                out += [ray(build.vec(t.mps.data)), t.mps_energies()]
            elif f == 8:
                out += [m.projection_error(H, .1)]
            else:
                out += [build.vec((2 * m).data), build.vec(m.extend(o).data) if L <= 3 else m.norm()]
        return out
    return go


@task
def rinf(sp, sh):
    m, o = sh['imps'], sh['imps2']
    h = sh['h'] if sp['k'] % 2 else [build.herm(build.rng(sp['seed']), 4)]

    def go():
        out = []
        for f in pick(sp, 3, 7):
            if f == 0:
                out += [m.energy(h)]
            elif f == 1:
                out += [m.dA_dt(h).data[0]]
            elif f == 2:
                out += [m.overlap(o)]
            elif f == 3:
                out += [np.real(m.eigs()[0])]
            elif f == 4:
                n = m.copy().canonicalise('l')
                out += phys(n.data[0])
            elif f == 5:
                out += [m.serialize(True)]
            else:
                out += [np.abs(np.asarray(m.left_null_projector()))]
        return out
    return go


@task
def rrun(sp, sh):
    t = sh['run']

    def go():
        out = []
        for f in pick(sp, 2, 6):
            if f == 0:
                out += [ray(build.vec(x.data)) for x in t.mps_list()]
            elif f == 1:
                out += [t.mps_evs([build.X, build.Z], sp['seed'] % 3)]
            elif f == 2:
                out += [t.mps_energies(), t.loschmidt()]
            elif f == 3:
                out += [t.von_neumann(), t.renyi()]
            elif f == 4:
                out += [np.concatenate([np.sort(np.real(s)) for s in x]) for x in t.schmidts()]
            else:
                c = t.copy()
                c.eulerint(T3[:2])
                out += [ray(build.vec(c.mps.data)), len(c.mps_history)]
        return out
    return go


@task
def rpeps(sp, sh):
    m, o = sh['peps'], sh['peps2']

    def go():
        out = []
        for f in pick(sp, 3, 6):
            out += [[lambda: m.E(build.X, (1, 1)), lambda: m.overlap(o), lambda: m.R.recombine(), lambda: m.apply(build.Y, (0, 1)).norm(), lambda: m.add(o).norm(), lambda: m.E_k(np.kron(build.X, build.Z), ((0, 0), (1, 2)))][f]()]
        return out
    return go


PRIVATE = ['evolve', 'exact', 'canon', 'canon', 'circuit', 'circuit', 'tangent', 'mult', 'infinite', 'infinite', 'infinite', 'ievolve', 'plane', 'tensors', 'tensors', 'files', 'files', 'checkpoint', 'checkpoint']
SHARED = ['rchain', 'rchain', 'rchain', 'rinf', 'rinf', 'rrun', 'rpeps']


def gen_sched(r):
    style = r.choice(['fine', 'mid', 'coarse', 'burst', 'mix', 'lines', 'lines', 'hot', 'hot'])
    n = r.choice([4, 20, 80, 300])
    out = []
    if style == 'hot':               # before every line that follows a write, the first times
        return [[0, r.randrange(8)]] + [[r.randint(1, 900), r.randrange(8)] for _ in range(r.choice([0, 0, 10]))]
    if style == 'lines':             # always hand over before some lines of the library
        return [[-1 - r.randrange(1 << 20), r.randrange(8)] for _ in range(r.choice([2, 5, 15, 40]))] + [[r.randint(1, 900), r.randrange(8)] for _ in range(r.choice([0, 0, 10]))]
    while len(out) < n:
        if style == 'fine':
            g = r.randint(1, 4)
        elif style == 'mid':
            g = r.randint(1, 60)
        elif style == 'coarse':
            g = r.randint(1, 900)
        elif style == 'burst':
            g = r.randint(1, 1500)
            out.append([g, r.randrange(8)])
            out += [[r.randint(1, 3), r.randrange(8)] for _ in range(r.randint(2, 12))]
            continue
        else:
            g = r.choice([1, 2, 5, 20, 100, 500])
        out.append([g, r.randrange(8)])
    return out[:n]


def gen(r, tier, k):
    theme = r.choice(['private', 'private', 'shared', 'shared', 'shared', 'same', 'mixed'])
    n = r.choice([2, 2, 3, 3, 4])
    tasks = []
    same = r.choice(PRIVATE + SHARED)
    one = r.choice(SHARED)
    only = r.randrange(420) if r.random() < .7 else None
    for q in range(n):
        name = r.choice(PRIVATE) if theme == 'private' else one if theme == 'shared' else same if theme == 'same' else r.choice(PRIVATE + SHARED)
        t = dict(op=name, n=q, k=r.randrange(60), seed=r.randrange(10 ** 6), hk=r.choice(['tfi', 'heis', 'random']),
                 spec=dict(kind=r.choice(['std', 'irr', 'std', 'product']), L=r.choice([2, 3, 4, 5]), D=r.choice([2, 2, 3, 4]), d=2, real=r.random() < .2, seed=r.randrange(10 ** 6)),
                 ispec=dict(icalc.gen_ispec(r, Dmax=3), d=2))
        if theme == 'shared' and only is not None:
            t['only'] = only
        x = r.random()
        if x < .12:
            t['abort'] = dict(n=r.randrange(1, r.choice([10, 100, 1000])), exc=r.randrange(3))
        elif x < .24:
            t['svd'] = sorted({r.randrange(12) for _ in range(r.choice([1, 2, 4]))})
        elif x < .30:
            t['bad'] = r.randrange(6)
        tasks.append(t)
    return dict(params={}, theme=theme, ops=tasks, sched=gen_sched(r), sseed=r.randrange(10 ** 6))


def simplify(case):
    for i, o in enumerate(case['ops']):
        for f in ('abort', 'svd', 'bad'):
            if f in o:
                c = copy.deepcopy(case); del c['ops'][i][f]; yield c


def shared(case, phase, d):
    from xmps.fMPS import fMPS
    from xmps.iMPS import iMPS
    from xmps.fPEPS import fPEPS
    from xmps.fTDVP import Trajectory
    s = case['sseed']
    sh = dict(dir=d, phase=phase)
    names = {o['op'] for o in case['ops']}
    if names & {'rchain', 'rrun'}:
        A = build.tensors(dict(kind='std', L=3, d=2, D=2, real=False, seed=s, unit=True))
        m = fMPS(A)
        sh['chain'] = m.left_canonicalise() if s % 3 else m
        sh['chain2'] = fMPS(build.tensors(dict(kind='std', L=3, d=2, D=2, real=False, seed=s + 1, unit=True))).right_canonicalise()
        sh['H'] = build.ham(dict(L=3, d=2, kind='random', seed=s))
        t = Trajectory(sh['chain'].copy(), H=sh['H'])
        t.rk4int(T3)
        sh['run'] = t
    if 'rinf' in names:
        sp = dict(kind='rand', d=2, D=2, seed=s)
        sh['imps'] = iMPS([icalc.itensor(sp).astype(complex)])
        if s % 2:
            sh['imps'].left_canonicalise()
        sh['imps2'] = iMPS([icalc.itensor(dict(sp, seed=s + 1)).astype(complex)])
        sh['h'] = [build.herm(build.rng(s), 4)]
    if 'rpeps' in names:
        np.random.seed(s)
        sh['peps'], sh['peps2'] = fPEPS().random(2, 2, 2, 2), fPEPS().random(2, 2, 2, 2)
    return sh


def contents(sh):
    out = {}
    for k, m in sh.items():
        if k in ('dir', 'phase'):
            continue
        if k == 'run':
            a = list(m.mps.data) + list(m.mps_0.data) + list(m.mps_history) + list(m.H)
        elif k.startswith('peps'):
            a = [x for row in m.data for x in row]
        elif k in ('H', 'h'):
            a = m
        else:
            a = list(m.data)
        out[k] = [np.array(x) for x in a]
    return out


EXC = [KeyboardInterrupt, MemoryError, np.linalg.LinAlgError]


class Faults:
    """decomposition and solver failures, counted for each task on its own"""
    def __init__(self, case, ctx):
        self.case, self.ctx, self.solo, self.n = case, ctx, None, {}

    def who(self):
        s = trace._sched
        if s is None:
            return self.solo
        t = s.by_ident.get(_thread.get_ident())
        return None if t is None else t.i

    def count(self, kind):
        i = self.who()
        if i is None:
            return None, None
        q = self.n.get((kind, i), 0)
        self.n[(kind, i)] = q + 1
        return i, q

    def svd(self, driver):
        if driver != 'gesdd':
            return False
        i, q = self.count('svd')
        if i is not None and q in self.case['ops'][i].get('svd', ()):
            self.ctx.fault('svd-not-converged')
            return True
        return False

    def eigs(self, real, A, a, k):
        import scipy.sparse.linalg as ssl
        i, q = self.count('eigs')
        if i is not None and self.case['ops'][i].get('bad') == q:
            self.ctx.fault('eigs-not-converged')
            raise ssl.ArpackNoConvergence('simulated', np.zeros(0), np.zeros((0, 0)))
        return real(A, *a, **k)


def close(a, b):
    if isinstance(a, tuple) and a and isinstance(a[0], str):
        return isinstance(b, tuple) and a[1].shape == b[1].shape and build.rayclose(a[1], b[1]) < 1e-6
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return not a.size or np.abs(a - b).max() <= TOL * max(1, np.abs(a).max())


def run(case, ctx):
    d = disk.scratch_dir()
    try:
        _run(case, ctx, d)
    finally:
        disk.cleanup(os.getpid())


def _run(case, ctx, d):
    ops = case['ops']
    F = Faults(case, ctx)
    seams.S.svd, seams.S.eigs = F.svd, F.eigs
    # alone
    sh = ctx.call('build', shared, case, 0, d)
    ref, lines, seen, hot = [], 0, set(), set()
    for i, o in enumerate(ops):
        F.solo = None
        go = ctx.call('build', TASKS[o['op']], o, sh)
        F.solo = i
        with trace.Lines() as A:
            try:
                ref.append((go(), None))
            except Exception as e:
                if 'bad' not in o:
                    from ..core import tb_text
                    raise Violation('failed-alone:' + o['op'], tb_text(e))
                ref.append((None, e))
        F.solo = None
        lines += A.count
        seen |= A.seen
        hot |= A.hot()
    # together
    F.n.clear()
    sh = ctx.call('build', shared, case, 1, d)
    before = contents(sh)
    gos = [ctx.call('build', TASKS[o['op']], o, sh) for o in ops]
    ab = {i: (o['abort']['n'], EXC[o['abort']['exc']]('simulated')) for i, o in enumerate(ops) if o.get('abort')}
    pool = [sorted(seen), sorted(hot) or sorted(seen)]
    targets = {}
    for g, p in case['sched']:
        if g == 0:
            targets.update((x, p + i) for i, x in enumerate(pool[1]))
        if g < 0:
            q = -1 - g
            targets[pool[q % 2][q // 2 % len(pool[q % 2])]] = p
    th = trace.Threads(gos, [x for x in case['sched'] if x[0] > 0], aborts=ab, limit=3 * lines + 20000, targets=targets, cap=4 if len(targets) > 60 else 24)
    tasks = th.run()
    seams.S.svd = seams.S.eigs = None
    ctx.steps(th.count)
    ctx.fault('preemption', len(th.switches))
    for a, b, f, n in th.switches:
        ctx.state((f, n, ops[a]['op'], ops[b]['op']))
    ctx.ev('switches', len(th.switches), th.count, [t.lines for t in tasks])
    for i, (o, t) in enumerate(zip(ops, tasks)):
        ctx.stats['op:' + o['op']] += 1
        name = o['op']
        if isinstance(t.exc, (trace.Deadlock, trace.OutOfBudget)):
            raise Violation('waits-for-ever:' + name, repr(t.exc))
        if t.aborted:
            ctx.fault('abort-' + type(ab[i][1]).__name__)
            continue
        want, err = ref[i]
        if t.exc is not None:
            if err is None or type(err) is not type(t.exc):
                raise Violation('failed-in-thread:' + name, 'alone: %r; with the others: %r' % (err, t.exc))
            continue
        if err is not None:
            raise Violation('error-lost:' + name, 'alone: %r; with the others it returned' % err)
        if len(want) != len(t.result):
            raise Violation('result-changed:' + name, '%d results instead of %d' % (len(t.result), len(want)))
        for q, (x, y) in enumerate(zip(want, t.result)):
            if not close(x, y):
                raise Violation('result-changed:' + name, 'result %d: alone %s, with the others %s' % (q, str(x)[:300], str(y)[:300]))
    now = contents(sh)
    for k in before:
        if len(before[k]) != len(now[k]) or any(x.shape != y.shape or x.tobytes() != y.tobytes() for x, y in zip(before[k], now[k])):
            raise Violation('shared-changed:' + k, 'a %s that the threads only read was changed' % k)
    ctx.nontrivial = len(th.switches) >= 3
