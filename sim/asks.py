"""Requests of clients for operators, states, contractions and maps, each with an independent value (C16, C17)."""
import itertools
import numpy as np
import scipy.linalg as sl
from functools import reduce
from . import build, icalc, trace
from .core import Violation, tb_text

EXC = [KeyboardInterrupt, MemoryError]
ASK = {}
NAMES = {'C16': [], 'C17': []}


def ask(name, w=1, group='C17'):
    def deco(f):
        ASK[name] = f
        NAMES[group].extend([name] * w)
        return f
    return deco


def need(ok, cls, msg=''):
    if not ok:
        raise Violation(cls, msg)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=0, atol=tol * max(1, np.abs(b).max() if b.size else 1)))


def kron(*ms):
    return reduce(np.kron, ms)


# ---------------------------------------------------------------- independent values
def spin(S):
    m = np.arange(S, -S - 1, -1)
    p = np.zeros((len(m), len(m)))
    for i in range(len(m) - 1):
        p[i, i + 1] = np.sqrt(S * (S + 1) - m[i + 1] * (m[i + 1] + 1))
    return (p + p.T) / 2, (p - p.T) / 2j, np.diag(m), p


def at(op, i, n):
    """op at site i (from zero) of n sites"""
    d = len(op)
    return kron(np.eye(d ** i), op, np.eye(d ** (n - 1 - i)))


def su(N):
    out = []
    for i in range(N):
        for j in range(i):
            a, b = np.zeros((N, N), complex), np.zeros((N, N), complex)
            a[i, j] = a[j, i] = 1
            b[i, j], b[j, i] = -1j, 1j
            out += [a, b]
    for i in range(1, N):
        out.append(np.diag(np.sqrt(2. / (i * (i + 1))) * np.array([1.] * i + [-i] + [0.] * (N - 1 - i))) + 0j)
    return np.array(out)


def gellmann4():
    out = []
    for n in range(1, 4):
        for i in range(n):
            a, b = np.zeros((4, 4), complex), np.zeros((4, 4), complex)
            a[i, n] = a[n, i] = 1
            b[i, n], b[n, i] = -1j, 1j
            out += [a, b]
        out.append(np.diag(np.sqrt(2. / (n * (n + 1))) * np.array([1.] * n + [-n] + [0.] * (3 - n))) + 0j)
    return np.array(out)


def ray(a, b):
    a, b = np.ravel(a), np.ravel(b)
    if a.shape != b.shape:
        return 2.
    return build.rayclose(a, b)


SX, SY, SZ, SP = spin(.5)
I2 = np.eye(2)
val = lambda want, tol=1e-9: (lambda res: need(near(res, want, tol), 'wrong-value', '%s instead of %s' % (str(np.asarray(res))[:200], str(np.asarray(want))[:200])))


def vals(want):
    def judge(res):
        need(len(res) == len(want) and all(near(a, b) for a, b in zip(res, want)), 'wrong-value', '%s instead of %s' % (str(res)[:200], str(want)[:200]))
    return judge


# each request: (thunk, judge(result), arguments that must stay as they are)
@ask('spins', 2, group='C16')
def _(o, r):
    from xmps.spin import spins
    S = [.5, 1, 1.5, 2, 2.5, 3][o['k'] % 6]
    return lambda: spins(S), vals(spin(S)[:3]), []


@ask('paulis', group='C16')
def _(o, r):
    from xmps.spin import paulis
    return lambda: paulis(.5), vals([2 * SX, 2 * SY, 2 * SZ]), []


@ask('ladders', group='C16')
def _(o, r):
    from xmps.spin import ladders
    S = [.5, 1, 1.5, 2, 2.5, 3][o['k'] % 6]
    p = spin(S)[3]
    return lambda: ladders(S), vals([p.T, p]), []


@ask('Nspins', 2, group='C16')
def _(o, r):
    from xmps.spin import N_body_spins, N_body_paulis, N_body_ladders
    q, n = o['k'] % 3, [1, 2, 3, 4][o['j'] % 4]
    S = [.5, 1, 1.5, 2][(o['k'] // 3) % 4] if q != 1 else .5
    if (2 * S + 1) ** n > 100:
        n = 2
    i = 1 + o['seed'] % n
    s = spin(S)
    if q == 0:
        return lambda: N_body_spins(S, i, n), vals([at(x, i - 1, n) for x in s[:3]]), []
    if q == 1:
        return lambda: N_body_paulis(S, i, n), vals([at(2 * x, i - 1, n) for x in s[:3]]), []
    return lambda: N_body_ladders(S, i, n), vals([at(x, i - 1, n) for x in (s[3].T, s[3])]), []


@ask('n_body', 2, group='C16')
def _(o, r):
    from xmps.spin import n_body
    d, n = [2, 3][o['k'] % 2], 1 + o['j'] % 4
    if o['k'] % 4 < 2:
        op = build.crandn(r, (d, d))
        i = 1 + o['seed'] % n
        return lambda: n_body(op, i, n), val(at(op, i - 1, n)), [op]
    op = build.crandn(r, (d * d, d * d))
    i = r.randint(n)                   # one of n bonds
    return lambda: n_body(op, i, n, d=d), val(kron(np.eye(d ** i), op, np.eye(d ** (n - 1 - i)))), [op]


@ask('gate', group='C16')
def _(o, r):
    from xmps import spin as s
    sw = np.eye(4)[[0, 2, 1, 3]]
    t = round(float(r.uniform(-7, 7)), 3)
    c, n = np.cos(t / 2), np.sin(t / 2)
    return [(s.swap, val(sw), []), (s.CZ, val(np.diag([1, 1, 1, -1])), []), (s.CNOT, val(np.eye(4)[[0, 1, 3, 2]]), []),
            (lambda: s.CRy(t), val(sl.block_diag(I2, [[c, n], [-n, c]])), [])][o['k'] % 4]


@ask('swapsym', group='C16')
def _(o, r):
    from xmps import spin as s
    sw = np.eye(4)[[0, 2, 1, 3]]
    U = build.crandn(r, (4, 4))
    if o['k'] % 2:
        U = (U + sw @ U @ sw) / 2
    return (lambda: (s.swap_symmetrise(U), s.is_swap_symmetric(U))), lambda res: need(near(res[0], (U + sw @ U @ sw) / 2) and bool(res[1]) == bool(o['k'] % 2), 'wrong-value', 'swap symmetry'), [U]


@ask('su', 2, group='C16')
def _(o, r):
    from xmps import spin as s
    N = [2, 3, 4, 5, 8][o['k'] % 5]
    return [(lambda: s.su(N), val(su(N)), []), (lambda: s.su(N), val(su(N)), []), (lambda: s.su(N), val(su(N)), []), (s.lambdas, val(gellmann4()), [])][o['j'] % 4]


@ask('slambdas', group='C16')
def _(o, r):
    from xmps import spin as s
    p = [2 * SX, 2 * SY, 2 * SZ]
    want = [kron(a, a) for a in p] + [kron(p[a], p[b]) + kron(p[b], p[a]) for a, b in ((0, 1), (0, 2), (1, 2))] + [kron(a, I2) + kron(I2, a) for a in p]
    return s.slambdas, val(np.array(want)), []


@ask('spinors', group='C16')
def _(o, r):
    from xmps import spin as s
    a, b = kron(SP, I2), kron(I2, SP)
    z1, z2 = kron(SZ, I2), kron(I2, SZ)
    if o['k'] % 3 == 0:
        return s.antiferro, val(np.array([a.T @ b + a @ b.T, -1j * (a.T @ b - a @ b.T), z2 - z1])), []
    if o['k'] % 3 == 1:
        return s.ferro, val(np.array([a.T @ b.T + a @ b, 1j * (a.T @ b.T - a @ b), (z1 + z2) / 2])), []
    return s.locals, val(np.array([kron(I2, x) for x in (SX, SY, SZ)] + [kron(x, I2) for x in (SX, SY, SZ)])), []


@ask('group', 2, group='C16')
def _(o, r):
    """group elements from their components"""
    from xmps import spin as s
    q = o['k'] % 7
    if q == 5:
        v = r.randn(3)
        G = kron(I2, np.tensordot(v, np.array([SX, SY, SZ]), 1)) if o['j'] % 2 else kron(np.tensordot(v, np.array([SX, SY, SZ]), 1), I2)
        return (lambda: s.U1(v)) if o['j'] % 2 else (lambda: s.U2(v)), val(sl.expm(-1j * G), 1e-8), [v]
    if q == 6:
        if o['j'] % 2:
            v = r.randn(63)
            return lambda: s.SU8(v), val(sl.expm(-1j * np.tensordot(v, su(8), 1)), 1e-8), [v]
        N = [2, 4][o['seed'] % 2]
        v = r.randn(N * N - 1)
        U = kron(sl.expm(-1j * np.tensordot(v, su(N), 1)), I2)
        S = kron(np.eye(N // 2), np.eye(4)[[0, 2, 1, 3]])
        return lambda: s.SU(v, N, rep='2N'), val(S @ U @ S, 1e-8), [v]
    if q == 0:
        v = r.randn(15)
        return lambda: s.U4(v), val(sl.expm(-1j * np.tensordot(v, gellmann4(), 1)), 1e-8), [v]
    if q == 1:
        v = r.randn(15)
        return lambda: s.SU4(v), val(sl.expm(-1j * np.tensordot(v, su(4), 1)), 1e-8), [v]
    if q == 2:
        N = [2, 3, 4, 8][o['j'] % 4]
        v = r.randn(N * N - 1)
        return lambda: s.SU(v, N), val(sl.expm(-1j * np.tensordot(v, su(N), 1)), 1e-8), [v]
    if q == 3:
        N = [2, 4][o['j'] % 2]
        v = r.randn(N * N - 1)
        X = np.tensordot(v, su(N), 1)
        m = np.eye(2 * N).reshape([2] * int(2 * np.log2(2 * N)))
        where = ['left', 'mid', 'right'][o['seed'] % 3]

        def judge(res):
            Q = np.tensordot(res, su(2 * N), 1)
            n = int(np.log2(N))
            P = kron(X, I2)
            if where == 'left':
                P = kron(I2, X)
            if where == 'mid':
                S = kron(np.eye(2 ** (n - 1)), np.eye(4)[[0, 2, 1, 3]])
                P = S @ P @ S
            need(near(Q, P, 1e-8), 'wrong-value', 'not the operator with a further qubit %s' % where)
        return lambda: s.insu2N(v, where), judge, [v]
    p = [2 * SX, 2 * SY, 2 * SZ]
    v = r.randn(9)
    L = [kron(a, a) for a in p] + [kron(p[a], p[b]) + kron(p[b], p[a]) for a, b in ((0, 1), (0, 2), (1, 2))] + [kron(a, I2) + kron(I2, a) for a in p]
    return lambda: s.U4s(v), val(sl.expm(-1j * np.tensordot(v, np.array(L), 1)), 1e-8), [v]


@ask('lie', group='C16')
def _(o, r):
    from xmps import spin as s
    N = [2, 3, 4][o['k'] % 3]
    v = r.randn(N * N - 1)
    Q = np.tensordot(v, su(N), 1)
    if o['j'] % 2:
        return lambda: s.components(Q), val(v, 1e-8), [Q]
    v = v / np.linalg.norm(v)
    U = sl.expm(-1j * np.tensordot(v, su(N), 1))

    def judge(w):
        W = sl.expm(-1j * np.tensordot(w, su(N), 1))
        need(abs(abs(np.trace(W.conj().T @ U)) - N) < 1e-6, 'wrong-value', 'components of another unitary')
    return (lambda: s.extractv(U)) if o['j'] % 4 else (lambda: s.to_new_v(v)), judge, [U, v]


@ask('eps', group='C16')
def _(o, r):
    from xmps.spin import levi_civita
    n = [2, 3, 4][o['k'] % 3]
    e = np.zeros([n] * n)
    for p in itertools.permutations(range(n)):
        e[p] = round(np.linalg.det(np.eye(n)[list(p)]))
    return lambda: levi_civita(n), val(e), []


@ask('algebra', group='C16')
def _(o, r):
    from xmps import spin as s
    S = [.5, 1, 1.5, 2][o['k'] % 4]
    x = list(spin(S)[:3])
    wrong = o['j'] % 2
    if wrong:
        x[o['seed'] % 3] = x[o['seed'] % 3] * 1.1
    A, B = build.crandn(r, (3, 3)), build.crandn(r, (3, 3))

    def judge(res):
        need(bool(res[0]) != bool(wrong) and near(res[1], A @ B - B @ A) and near(res[2], A @ B + B @ A), 'wrong-value', 'commutators')
        need(bool(res[3]) != bool(wrong) or S != .5, 'wrong-value', 'Pauli algebra')
    return (lambda: (s.CR(*x), s.comm(A, B), s.acomm(A, B), s.pCR(*[2 * a for a in x]))), judge, x + [A, B]


@ask('sphere', group='C16')
def _(o, r):
    from xmps.spin import Nsphere
    v = r.uniform(0, 6, 1 + o['k'] % 5)
    want = [np.prod(np.sin(v[:i])) * np.cos(v[i]) for i in range(len(v))] + [np.prod(np.sin(v))]
    return lambda: Nsphere(v), val(want), [v]


@ask('rows')
def _(o, r):
    from xmps.spin import swap_rows
    A = build.crandn(r, (4, 3))
    i, j = o['k'] % 4, o['j'] % 4
    p = list(range(4))
    p[i], p[j] = p[j], p[i]
    return lambda: swap_rows(A, i, j), val(A[p]), [A]


@ask('ptrace', 2)
def _(o, r):
    n = 1 + o['j'] % 4
    dims = [int(x) for x in r.choice([1, 2, 2, 3], n)]
    keep = sorted(int(x) for x in r.permutation(n)[:1 + r.randint(n)])
    D = int(np.prod(dims))
    opt = bool(o['k'] % 2)
    M = np.arange(D).reshape(dims)
    dk, rest = [dims[i] for i in keep], [i for i in range(n) if i not in keep]
    P = M.transpose(keep + rest).reshape(int(np.prod(dk)), -1)
    q = o['k'] % 4
    if q < 2:
        u = build.crandn(r, (D,))
        from xmps.tensor import ρA
        W = u[P]
        return lambda: ρA(u, keep, dims, opt), val(W @ W.conj().T), [u, keep, dims]
    from xmps import spin, tensor
    f = [spin.partial_trace, tensor.partial_trace][q % 2]
    R = build.crandn(r, (D, D))
    want = sum(R[np.ix_(P[:, c], P[:, c])] for c in range(P.shape[1]))
    return lambda: f(R, keep, dims, opt), val(want), [R, keep, dims]


# ---------------------------------------------------------------- example states
def fstate(want, unit=True):
    def judge(m):
        need(m.L == len(m.data) == want.ndim and m.d == 2, 'wrong-state', 'L=%s d=%s' % (m.L, m.d))
        v = build.vec(m.data)
        need(ray(v, want) < 1e-8, 'wrong-state', '%s instead of %s' % (np.round(v, 3), np.ravel(want)))
        need(abs(np.linalg.norm(v) - 1) < 1e-8, 'wrong-state', 'norm %s' % np.linalg.norm(v))
    return judge


@ask('bell', 2, group='C16')
def _(o, r):
    from xmps.mps_examples import bell
    i = 1 + o['k'] % 4
    w = np.zeros((2, 2))
    if i < 3:
        w[1, 1], w[0, 0] = 1, [1, -1][i - 1]
        w = w if i == 1 else np.diag([-1., 1]) * -1
    else:
        w[1, 0], w[0, 1] = 1, [1, -1][i - 3]
    return lambda: bell(i), fstate(w), []


@ask('comp', 2, group='C16')
def _(o, r):
    from xmps.mps_examples import comp_z, comp_x
    i = 1 + o['k'] % 4
    if o['j'] % 2:
        w = np.zeros((2, 2))
        w[(i - 1) // 2, (i - 1) % 2] = 1
        return lambda: comp_z(i), fstate(w), []
    pm = lambda s: np.array([1, s])
    return lambda: comp_x(i), fstate(np.outer(pm([1, 1, -1, -1][i - 1]), pm([1, -1, 1, -1][i - 1]))), []


@ask('infinite', 2, group='C16')
def _(o, r):
    from xmps.mps_examples import i_comp_z, i_cat, AKLT
    q = o['k'] % 4
    if q == 0:
        i = 1 + o['j'] % 2
        return lambda: i_comp_z(i), lambda m: need(m.d == 2 and near(np.asarray(m.data[0]).reshape(2), np.eye(2)[i - 1]), 'wrong-state', 'i_comp_z'), []
    if q == 1:
        e = [.01, .01, .1, .3][o['j'] % 4]
        A = np.full((2, 2, 2), e)
        A[0, 0, 0] = A[1, 1, 1] = 1
        return (lambda: i_cat(e) if o['seed'] % 2 or e != .01 else i_cat()), lambda m: need(near(m.data[0], A), 'wrong-state', 'i_cat'), []

    def judge(m):
        A = np.asarray(m.data[0]) + 0j
        x, y, z, _ = spin(1)
        need(A.shape == (3, 2, 2), 'wrong-state', 'AKLT %s' % (A.shape,))
        need(abs(icalc.fixed(A)[0] - 1) < 1e-9, 'wrong-state', 'AKLT is not normalised: %s' % icalc.fixed(A)[0])
        S = sum(np.kron(a, a) for a in (x, y, z))
        e = icalc.expect2(A, S / 2 + S @ S / 6 + np.eye(9) / 3)
        need(abs(e) < 1e-9, 'wrong-state', 'AKLT is not the ground state of its Hamiltonian: %s' % e)
        need(all(abs(icalc.expect1(A, a)) < 1e-9 for a in (x, y, z)), 'wrong-state', 'AKLT is not isotropic')
        E = icalc.transfer(A)
        w = np.sort(np.abs(np.linalg.eigvals(E)))[::-1]
        need(near(w, [1, 1 / 3, 1 / 3, 1 / 3]), 'wrong-state', 'AKLT has transfer spectrum %s' % w)
    return AKLT, judge, []


# ---------------------------------------------------------------- tensor tools
def network(o, r):
    """random tensors and index lists; open legs numbered from -1"""
    T = 1 + o['j'] % 4
    pairs = []
    for _ in range(r.randint(0 if T > 1 else 0, 5)):
        a, b = r.randint(T), r.randint(T)
        pairs.append((a, b, int(r.choice([1, 2, 2, 3]))))
    legs = [[] for _ in range(T)]
    lab = [int(x) for x in r.permutation(12)[:len(pairs)] + 1]
    for n, (a, b, d) in zip(lab, pairs):
        legs[a].append((n, d))
        legs[b].append((n, d))
    free = []
    for t in range(T):
        for _ in range(r.randint(0 if legs[t] else 1, 3)):
            free.append((t, int(r.choice([2, 2, 3]))))
    free = free[:6]
    for n, x in zip(r.permutation(len(free)), range(len(free))):
        t, d = free[x]
        legs[t].append((-1 - int(n), d))
    for l in legs:
        r.shuffle(l) if False else None
        p = r.permutation(len(l))
        l[:] = [l[i] for i in p]
    AA = [build.crandn(r, [d for _, d in l]) if r.rand() < .7 else r.randn(*[d for _, d in l]) for l in legs]
    v = [[n for n, _ in l] for l in legs]
    return AA, v


@ask('ncon', 6)
def _(o, r):
    from xmps.ncon import ncon
    AA, v = network(o, r)
    if any(not l for l in v):
        AA, v = [build.crandn(r, (2, 3)), build.crandn(r, (3, 2, 2))], [[-1, 1], [1, -2, -3]]
    pos = sorted({n for l in v for n in l if n > 0})
    neg = sorted({n for l in v for n in l if n < 0}, reverse=True)
    order = [pos[i] for i in r.permutation(len(pos))] if o['k'] % 2 else None
    forder = [neg[i] for i in r.permutation(len(neg))] if o['k'] % 3 == 0 else None
    sym = {n: i for i, n in enumerate(pos + neg)}
    args = []
    for A, l in zip(AA, v):
        args += [A, [sym[n] for n in l]]
    want = np.einsum(*args, [sym[n] for n in (forder or neg)])
    kw = {}
    if order is not None:
        kw['order'] = order
    if forder is not None:
        kw['forder'] = forder
    if o['k'] % 7 == 0:
        kw['check_indices'] = False
    if len(AA) == 1 and o['k'] % 2:
        return lambda: ncon(AA[0], v[0], **kw), val(want, 1e-9), [AA, v, order, forder]
    return lambda: ncon(AA if o['seed'] % 2 else tuple(AA), v if o['seed'] % 3 else tuple(v), **kw), val(want, 1e-9), [AA, v, order, forder]


@ask('nconbad')
def _(o, r):
    from xmps.ncon import ncon
    A, B = build.crandn(r, (2, 3)), build.crandn(r, (3, 2))
    v = [[[-1, 1], [2, -2]], [[-1, 1], [-2, 1]], [[-1, 1, 2], [1, -2]], [[-1, 1], [1, -1]], [[-1, 1]]][o['k'] % 5]

    def thunk():
        try:
            return ncon([A, B], v)
        except ValueError:
            return 'refused'
    return thunk, lambda res: need(isinstance(res, str), 'wrong-network-accepted', str(v)), [A, B, v]


@ask('legs', 3)
def _(o, r):
    from xmps.peps_tools import group_legs, ungroup_legs
    n = 1 + o['j'] % 5
    T = build.crandn(r, [int(x) for x in r.choice([1, 2, 2, 3], n)])
    p = [int(x) for x in r.permutation(n)]
    cuts = sorted(set(int(x) for x in r.randint(1, n + 1, 2)) | {n})
    legs = [p[a:b] for a, b in zip([0] + cuts, cuts) if b > a]
    want = T.transpose(p).reshape([int(np.prod([T.shape[i] for i in g])) for g in legs])

    def thunk():
        G, pipe = group_legs(T, legs)
        return G, ungroup_legs(G, pipe), ungroup_legs(2 * G, pipe)
    return thunk, vals([want, T, 2 * T]), [T, legs]


@ask('basic')
def _(o, r):
    from xmps import tensor as t
    A, M, N = build.crandn(r, (2, 3, 3)), build.crandn(r, (3, 3)), build.crandn(r, (3, 3))
    want = [A.transpose(0, 2, 1), A.transpose(0, 2, 1).conj(), A.conj(), np.einsum('ab,sbc->sac', M, A), np.einsum('sab,bc->sac', A, M), np.eye(3)]
    return (lambda: [t.T(A), t.H(A), t.C(A), t.ldot(M, A), t.rdot(A, M), t.eye_like(M)]), vals(want), [A, M]


@ask('qr', 2)
def _(o, r):
    from xmps.tensor import uqr, urq
    n = 1 + o['j'] % 4
    m = n + o['seed'] % 3
    A = build.crandn(r, (m, n)) if o['k'] % 3 else r.randn(m, n)
    right = o['k'] % 2
    if right:
        A = A.T.copy()

    def judge(res):
        a, b = res
        need(near(a @ b, A), 'wrong-value', 'the factors do not give the matrix')
        q, t = (b.T, a.T) if right else (a, b)
        need(near(q.conj().T @ q, np.eye(n)), 'wrong-value', 'not an isometry')
        g = np.diag(t)
        need(near(t if not right else t.T, np.triu(t if not right else t.T)) and np.abs(g.imag).max() < 1e-9 and (g.real > 0).all(), 'wrong-value', 'not the unique decomposition')
    return (lambda: urq(A)) if right else (lambda: uqr(A)), judge, [A]


@ask('eigh')
def _(o, r):
    from xmps.tensor import diagonalise
    n = 1 + o['j'] % 4
    M = build.herm(r, n)

    def judge(res):
        V, S = res
        need(near(V.conj().T @ V, np.eye(n)) and near(V @ S @ V.conj().T, M) and (np.diff(np.diag(S).real) <= 1e-12).all(), 'wrong-value', 'diagonalise')
    return lambda: diagonalise(M), judge, [M]


@ask('isometry', 2)
def _(o, r):
    from xmps import tensor as t
    q = o['k'] % 4
    if q == 0:
        v = build.crandn(r, (2, 2)) if o['j'] % 2 else build.crandn(r, (1 + o['j'] % 6,))
        w = v.reshape(-1) / np.linalg.norm(v)

        def judge(U):
            need(near(U.conj().T @ U, np.eye(w.size), 1e-8) and ray(U[:, 0], w) < 1e-7 and near(U[:, 0], w, 1e-8), 'wrong-value', 'embed')
            if w.size == 4:
                need(near(t.deembed(U), w.reshape(2, 2), 1e-8), 'wrong-value', 'deembed')
        return lambda: t.embed(v), judge, [v]
    n = 1 + o['j'] % 4
    m = n + o['seed'] % 3
    Q = np.linalg.qr(build.crandn(r, (m, n)))[0]
    if q == 1:
        tall = o['seed'] % 2
        Q = Q if tall else Q.T.copy()
        D = None if o['seed'] % 5 else m + 2

        def judge(U):
            need(U.shape == ((D or m),) * 2 and near(U.conj().T @ U, np.eye(len(U)), 1e-8) and near(U[:Q.shape[0], :Q.shape[1]], Q, 1e-8), 'wrong-value', 'unitary_extension')
            if D:
                need(near(U[m:, m:], np.eye(2)), 'wrong-value', 'unitary_extension')
        return lambda: t.unitary_extension(Q, D), judge, [Q]
    if q == 2:
        A = build.crandn(r, (n, m))
        return lambda: t.get_null_space(A), lambda N: need(N.shape == (m, m - n) and near(A @ N, np.zeros((n, m - n)), 1e-8) and near(N.conj().T @ N, np.eye(m - n), 1e-8), 'wrong-value', 'get_null_space'), [A]
    A, B = build.crandn(r, (n, m)), build.crandn(r, (m, 1 + o['j'] % 3))
    return lambda: t.direct_sum(A, B), val(sl.block_diag(A, B)), [A, B]


@ask('split')
def _(o, r):
    from xmps.tensor import split_up, tr_svd
    d = 2 + o['j'] % 2
    if o['k'] % 2:
        A = build.crandn(r, (4, 3))
        D = 1 + o['seed'] % 3
        u, s, w = np.linalg.svd(A, full_matrices=False)
        return lambda: tr_svd(A, D), lambda res: need(near(res[0] @ res[1] @ res[2], (u[:, :D] * s[:D]) @ w[:D], 1e-8) and res[1].shape == (D, D), 'wrong-value', 'tr_svd'), [A]
    M = build.crandn(r, (d * d, d * d))
    return lambda: split_up(M, d), val(M.reshape(d, d, d, d).transpose(1, 0, 3, 2)), [M]


@ask('renyi')
def _(o, r):
    from xmps.peps_tools import renyi, E2
    d1, d2, a, b = 2, 1 + o['k'] % 3, 1 + o['j'] % 3, 1 + o['seed'] % 3
    psi = build.crandn(r, (d1, d2, a, b))
    U = build.unitary(r, d1 * d2).reshape(d1, d2, d1, d2)
    x = np.tensordot(U, psi, [[2, 3], [0, 1]])
    rho = np.einsum('ijab,kjcb->iakc', x, x.conj()).reshape(d1 * a, d1 * a)
    want = -np.log(np.trace(rho @ rho).real)

    def judge(res):
        need(near(res[0], want, 1e-8), 'wrong-value', 'renyi: %s instead of %s' % (res[0], want))
        need(near(abs(np.vdot(U, np.conj(res[1]))), np.exp(-want), 1e-7) or near(abs(np.trace(U.reshape(d1 * d2, -1) @ res[1].reshape(d1 * d2, -1))), np.exp(-want), 1e-7), 'wrong-value', 'E2')
    return lambda: (renyi(U, psi), E2(U, psi)), judge, [U, psi]


# ---------------------------------------------------------------- transfer maps, projectors, products of operators: objects clients share
POOL = {}


def shared(key, make):
    if key not in POOL:
        POOL[key] = make()
    return POOL[key]


def fresh_arrays(o, arrays):
    """the owner of shared arrays gives them new values in place"""
    if o.get('edit') and not o.get('threaded'):
        rr = build.rng(o['edit'])
        for a in arrays:
            a[...] = build.crandn(rr, a.shape) if np.iscomplexobj(a) else rr.randn(*a.shape)


@ask('transfer', 3)
def _(o, r):
    from xmps.iMPS import Map, TransferMatrix, iMPS, ivMPS
    d, D, two = 2 + o['k'] % 2, 1 + o['j'] % 4, o['k'] % 3
    q = o['seed'] % 2

    def make():
        rr = build.rng(o['k'] % 7)
        A, B = build.crandn(rr, (d, D, D)), build.crandn(rr, (d, D, D))
        return A, B, Map(A, B) if two else (TransferMatrix(A) if q else iMPS([A]).transfer_matrix())
    A, B, t = shared(('tm', d, D, two, q, o['k'] % 7), make)
    fresh_arrays(o, [A, B])
    C = B if two else A
    x, y = build.crandn(r, (D * D,)), build.crandn(r, (D * D,))
    M = np.einsum('sab,scd->acbd', A, C.conj()).reshape(D * D, D * D)
    w, V = np.linalg.eig(M)
    v = V[:, 0].reshape(D, D)
    if two:
        lt = M.conj().T @ y
        return (lambda: [t.asmatrix(), t.mv(x), t.mvr(y), t.aslinearoperator() @ x, t.aslinearoperator().H @ y, np.array([t.is_right_eigenvector(v, 1 / w[0]), t.is_right_eigenvector(x.reshape(D, D)) and D > 1])]), \
            vals([M, M @ x, lt, M @ x, lt, np.array([True, False])]), [A, B, x, y]
    ref = np.einsum('sab,scd->abcd', A @ np.diag(np.arange(1., D + 1)), (A @ np.diag(np.arange(1., D + 1))).conj())
    return (lambda: [t.asmatrix(), t.mv(x), t.mvr(y), t.aslinearoperator() @ x, ivMPS([(A, np.diag(np.arange(1., D + 1)))]).transfer_matrix()]), \
        vals([M, M @ x, M.T @ y, M @ x, ref]), [A, B, x, y]


def op_of(ts):
    """matrix of a product operator, rows: up legs, columns: down legs"""
    x = np.ones((1, 1, ts[0].shape[3]))
    for W in ts:
        x = np.einsum('udx,pyqx->updqy', x, W)
        x = x.reshape(x.shape[0] * x.shape[1], -1, x.shape[4])
    return x[:, :, 0]


@ask('mpo', 3)
def _(o, r):
    from xmps.fPEPS import fMPO
    from xmps.fMPS import fMPS
    L, d = 2 + o['j'] % 3, 2 + (o['j'] // 3) % 2
    if L == 4:
        d = 2

    def make():
        rr = build.rng(o['k'] % 7)
        out = []
        for _ in range(2):
            bs = [1] + [1 + rr.randint(3) for _ in range(L - 1)] + [1]
            out.append([build.crandn(rr, (d, bs[i + 1], d, bs[i])) for i in range(L)])
        return out + [fMPO(out[0], d=d), fMPO(out[1])]
    a, b, A, B = shared(('mpo', L, d, o['k'] % 7), make)
    fresh_arrays(o, a + b)
    MA, MB = op_of(a), op_of(b)
    q = o['seed'] % 4
    if q == 0:
        return (lambda: [A.recombine(), B.recombine(), (A * B).recombine(), (B * A).recombine()]), \
            vals([MA.conj().T, MB.conj().T, (MB @ MA).conj().T, (MA @ MB).conj().T]), [a, b]
    if q == 1:
        bs = [1] + [1 + r.randint(3) for _ in range(L - 1)] + [1]
        m = [build.crandn(r, (d, bs[i], bs[i + 1])) for i in range(L)]
        psi = build.vec(m)
        mps = fMPS(m, d=d)
        return (lambda: [(A * mps).recombine(), (A * (B * mps)).recombine(), ((A * B) * mps).recombine(), fMPO().from_mps(mps).recombine()]), \
            vals([(psi.reshape(1, -1) @ MA).conj().T, (psi.reshape(1, -1) @ MB @ MA).conj().T, (psi.reshape(1, -1) @ MB @ MA).conj().T, psi.conj().reshape(-1, 1)]), [a, b, m]
    cp = lambda: fMPO([x.copy() for x in a], d=d)
    if q == 2:
        return (lambda: [cp().transpose_ud().recombine(), cp().reverse().transpose_lr().recombine(), op_of([x for x in A.rotate_90().unrotate_90().data])]), \
            vals([MA.conj(), op_of([x.transpose(0, 3, 2, 1) for x in a[::-1]]).conj().T, MA]), [a, b]
    return (lambda: [fMPO().trivial(L).recombine(), (A * B).transpose_ud().recombine(), np.array([A.L, B.L, A.d])]), \
        vals([np.ones((1, 1)), (MB @ MA).conj(), np.array([L, L, d])]), [a, b]


@ask('inull', 2)
def _(o, r):
    """projectors of one infinite left isometric state whose tensor is replaced in between"""
    from xmps.iMPS import iMPS
    d, D = 2 + o['k'] % 2, 2 + o['j'] % 2

    def tensor(seed):
        for i in range(50):
            A = np.linalg.qr(build.crandn(build.rng(seed + i), (d * D, D)))[0].reshape(d, D, D)
            w = np.sort(np.abs(np.linalg.eigvals(icalc.transfer(A))))[::-1]
            if w[1] < .9 and np.linalg.eigvalsh(icalc.fixed(A)[2])[0] > 1e-3:
                return A
        return A

    def make():
        A = tensor(o['k'] % 7)
        return A, iMPS([A])
    A, m = shared(('inull', d, D, o['k'] % 7), make)
    if o.get('edit') and not o.get('threaded'):
        B = tensor(o['edit'])
        if o['edit'] % 2:
            m.data[0] = B
        else:
            m.data[0][...] = B
    A = np.asarray(m.data[0])
    want = np.eye(d * D).reshape(d, D, d, D) - np.einsum('sia,tja->sitj', A, A.conj())
    tr = lambda x: np.einsum('sisi', x)     # the scale is that of the environments
    return (lambda: [m.left_null_projector(), m.left_null_projector(get_vL=True)[0]]), lambda res: need(all(near(x * tr(want) / tr(x), want, 1e-6) for x in res), 'wrong-value', 'not the projector on the complement'), [A]


@ask('null', 2)
def _(o, r):
    from xmps.fMPS import fMPS
    L, d = 2 + o['j'] % 3, 2 + o['k'] % 2
    left = o['seed'] % 2

    def make():
        rr = build.rng(o['k'] % 7)
        bs = [1] + [min(d ** i, d ** (L - i), 1 + rr.randint(4)) for i in range(1, L)] + [1]
        for i in range(1, L):
            bs[i] = min(bs[i], bs[i - 1] * d)
        for i in range(L - 1, 0, -1):
            bs[i] = min(bs[i], bs[i + 1] * d)
        m = fMPS([build.crandn(rr, (d, bs[i], bs[i + 1])) for i in range(L)], d=d)
        return m.left_canonicalise() if left else m.right_canonicalise()
    m = shared(('null', L, d, left, o['k'] % 7), make)
    n = o['j'] % L
    A = np.asarray(m.data[n])
    if left:
        D = A.shape[1]
        want = np.eye(d * D).reshape(d, D, d, D) - np.einsum('sia,tja->sitj', A, A.conj())
        return (lambda: [m.left_null_projector(n), m.left_null_projector(n, get_vL=True)[0]]), vals([want, want]), [list(m.data)]
    D = A.shape[2]
    want = np.eye(d * D).reshape(d, D, d, D) - np.einsum('sai,taj->sitj', A, A.conj())
    return (lambda: [m.right_null_projector(n), m.right_null_projector(n, get_vR=True)[0]]), vals([want, want]), [list(m.data)]


# ---------------------------------------------------------------- runs
def gen(r, tier, group):
    every = NAMES[group]
    names = r.sample(sorted(set(every)), r.choice([1, 2, 3, 5])) if r.random() < .7 else every
    par = [dict(k=r.randrange(1000), j=r.randrange(1000), seed=r.randrange(10 ** 6)) for _ in range(r.choice([2, 3, 4]))]
    th = r.random() < .35
    n = r.randint(4, 10) if th else r.randint(4, 24 if tier == 'thorough' else 16)
    ops = []
    for i in range(n):
        o = dict(ask=r.choice(list(names)), c=r.randrange(3), poke=r.random() < .35)
        o.update(r.choice(par) if r.random() < .65 else dict(k=r.randrange(1000), j=r.randrange(1000), seed=r.randrange(10 ** 6)))
        if o['ask'] in ('transfer', 'mpo', 'null', 'inull'):
            o['poke'] = False
            if th:
                o['threaded'] = True
            elif r.random() < .25:
                o['edit'] = r.randrange(1, 10 ** 6)
        if not th and r.random() < .2:
            o['f'] = dict(n=int(10 ** r.uniform(0, 2.3)), x=r.randrange(2))
        ops.append(o)
    case = dict(ops=ops, threads=0, sched=[], params={})
    if th:
        case['threads'] = r.choice([2, 2, 3])
        style = r.choice([3, 10, 40])
        case['sched'] = [[max(1, int(r.expovariate(1. / style))), r.randrange(3)] for _ in range(r.choice([10, 40, 120]))]
    return case


def simplify(case):
    import json
    for i, o in enumerate(case['ops']):
        for key in ('f', 'edit'):
            if key in o:
                c = json.loads(json.dumps(case))
                del c['ops'][i][key]
                yield c
        if o.get('poke'):
            c = json.loads(json.dumps(case))
            c['ops'][i]['poke'] = False
            yield c
    if case['threads']:
        c = json.loads(json.dumps(case))
        c['threads'], c['sched'] = 0, []
        c['ops'] = [{k: v for k, v in o.items() if k != 'threaded'} for o in c['ops']]
        yield c


def freeze(x):
    if isinstance(x, np.ndarray):
        return x.shape, x.tobytes()
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    return x


def poke(x):
    """what was handed out is the client's"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 5
    elif isinstance(x, (list, tuple)):
        for y in x:
            poke(y)
        if isinstance(x, list):
            x.reverse()
    elif hasattr(x, 'data') and isinstance(x.data, list):
        poke(x.data)
        x.d = 7


def one(o, ctx=None):
    """put a request; judge the answer; give the client what it got"""
    thunk, judge, args = ASK[o['ask']](o, build.rng(o['seed']))
    before = freeze(args)
    ab, res = None, None
    if o.get('f') and ctx is not None:
        exc = EXC[o['f']['x']]('injected')
        ab = trace.Abort(o['f']['n'], exc)
        try:
            with ab:
                res = thunk()
        except BaseException as e:
            if not ab.fired:
                if not isinstance(e, Exception):
                    raise
                raise Violation('unexpected-error:%s:%s' % (o['ask'], type(e).__name__), tb_text(e))
        if ab.fired:
            ctx.fault('abort:' + type(exc).__name__)
            need(freeze(args) == before, 'argument-changed:' + o['ask'], 'by an aborted request')
            ab = 'again'
    if res is None or ab == 'again':
        try:
            res = thunk()
        except (trace.Deadlock, trace.OutOfBudget):
            raise
        except Exception as e:
            raise Violation('unexpected-error:%s:%s' % (o['ask'], type(e).__name__), tb_text(e))
    need(freeze(args) == before, 'argument-changed:' + o['ask'], 'by the request')
    try:
        judge(res)
    except Violation as v:
        raise Violation(v.cls + ':' + o['ask'], v.msg)
    if o.get('poke') and o['ask'] not in ('transfer', 'mpo', 'null', 'inull'):
        poke(res)
        for a in args:                 # and so are the arguments
            poke(a)


def run(case, ctx):
    ops = [o for o in case['ops'] if o['ask'] in ASK]
    seen, prev = set(), None
    POOL.clear()
    if case['threads'] > 1:
        K = min(3, case['threads'])
        mine = [[o for o in ops if o['c'] % K == c] for c in range(K)]

        def task(l):
            def go():
                for o in l:
                    one(o)
                return True
            return go
        th = trace.Threads([task(l) for l in mine], [[max(1, abs(int(a))), b] for a, b in case['sched']], limit=3000000)
        tasks = th.run()
        ctx.fault('preemption', len(th.switches))
        ctx.steps(th.count)
        ctx.ev('threads', len(th.switches), th.count)
        for a, b, f, n in th.switches:
            ctx.state((f, n))
        for t in tasks:
            if isinstance(t.exc, (trace.Deadlock, trace.OutOfBudget)):
                raise Violation('waits-for-ever', repr(t.exc))
            if isinstance(t.exc, Violation):
                raise Violation('in-thread:' + t.exc.cls, t.exc.msg)
            if t.exc is not None:
                raise t.exc
        for o in ops:
            ctx.stats['op:' + o['ask']] += 1
    else:
        for o in ops:
            ctx.ev(o['ask'], o['k'], o['j'])
            ctx.stats['op:' + o['ask']] += 1
            one(o, ctx)
            key = (o['ask'], o['k'], o['j'], o['seed'])
            ctx.state((o['ask'], prev, key in seen, bool(o.get('f'))))
            seen.add(key)
            prev = o['ask']
            ctx.steps()
    ctx.nontrivial = len(ops) >= 3
