"""Case-to-state builders and dense reference computations (independent of the code under test)."""
import numpy as np
from functools import reduce


def std_bonds(L, d, D):
    """bond dimensions 0..L of the regular structure (1, d, d^2, .., D, .., d, 1)"""
    return [min(d ** min(n, L - n), D) for n in range(L + 1)]


def rng(seed):
    return np.random.RandomState(seed & 0x7fffffff)


def crandn(r, shape, real=False):
    shape = tuple(np.atleast_1d(shape))
    return r.randn(*shape) if real else r.randn(*shape) + 1j * r.randn(*shape)


def tensors(spec):
    """list of site tensors (d, Dl, Dr) for a spec {kind, L, d, D, seed, real}"""
    L, d, D, kind = spec['L'], spec['d'], spec['D'], spec['kind']
    real = bool(spec.get('real'))
    r = rng(spec['seed'])
    if kind == 'product':
        b = [1] * (L + 1)
    elif kind in ('std', 'rankdef', 'padded'):
        b = std_bonds(L, d, D)
    elif kind == 'irr':
        b = [1] + [int(r.randint(1, D + 1)) for _ in range(L - 1)] + [1]
        for n in range(1, L):                      # keep it full rank: no bond larger than its neighbours allow
            b[n] = min(b[n], d * b[n - 1])
        for n in range(L - 1, 0, -1):
            b[n] = min(b[n], d * b[n + 1])
    elif kind == 'ghz':
        As = []
        for n in range(L):
            A = np.zeros((d, 2, 2), dtype=float if real else complex)
            A[0, 0, 0] = A[1, 1, 1] = 1
            As.append(A)
        As[0] = As[0].sum(1, keepdims=True)
        As[-1] = As[-1].sum(2, keepdims=True)
        return As
    elif kind == 'clifford':
        v = clifford_vector(L, d, r, real)
        return exact_tensors(v, L, d)
    elif kind == 'basis':
        return [np.eye(d)[r.randint(d)].reshape(d, 1, 1).astype(float if real else complex) for _ in range(L)]
    else:
        raise ValueError(kind)
    As = [crandn(r, (d, b[n], b[n + 1]), real) for n in range(L)]
    if kind == 'rankdef':                          # true bond rank smaller than the stored bond dimension
        n = int(r.randint(1, L)) if L > 1 else 1
        if L > 1 and b[n] > 1:
            X = crandn(r, (b[n], b[n]), real)
            X[:, 0] = X[:, 1:].sum(1)
            As[n - 1] = As[n - 1] @ X
    if kind == 'padded':                           # zero-padded bonds
        e = D + 1
        out = []
        for n, A in enumerate(As):
            Z = np.zeros((d, A.shape[1] if n == 0 else A.shape[1] + 1, A.shape[2] if n == L - 1 else A.shape[2] + 1), dtype=A.dtype)
            Z[:, :A.shape[1], :A.shape[2]] = A
            out.append(Z)
        As = out
    s = np.linalg.norm(vec(As)) if spec.get('unit', True) and L <= 14 else 1.0
    if s > 0:
        As = [A / s ** (1.0 / L) for A in As]
    return As


def vec(As):
    """dense vector, site 0 the most significant"""
    v = np.ones((1, 1))
    for A in As:
        A = np.asarray(A)
        v = np.tensordot(v, A, [1, 1])             # (x, d, r)
        v = v.reshape(-1, A.shape[2])
    return v.sum(1) if v.shape[1] == 1 else v[:, 0]


def psi(As, d):
    return vec(As).reshape([d] * len(As))


def exact_tensors(v, L, d):
    """left-canonical exact tensors of a dense vector with numpy's SVD, dropping exact zeros"""
    As, D = [], 1
    m = v.reshape(1, -1)
    for n in range(L - 1):
        m = m.reshape(D * d, -1)
        u, s, w = np.linalg.svd(m, full_matrices=False)
        k = max(1, int((s > 1e-12 * s[0]).sum()))
        As.append(u[:, :k].reshape(D, d, k).transpose(1, 0, 2).copy())
        m = s[:k, None] * w[:k]
        D = k
    As.append(m.reshape(D, d, 1).transpose(1, 0, 2).copy())
    return As


def clifford_vector(L, d, r, real):
    v = np.zeros([d] * L, dtype=float if real else complex)
    v[(0,) * L] = 1
    F = np.array([[np.exp(2j * np.pi * a * b / d) for a in range(d)] for b in range(d)]) / np.sqrt(d)
    if real:
        F = np.array([[1, 1], [1, -1]]) / np.sqrt(2) if d == 2 else np.linalg.qr(r.randn(d, d))[0]
    for _ in range(3 * L):
        i = int(r.randint(L))
        if r.randint(2) or L == 1:
            v = apply_op(v, F, [i])
        else:
            j = int(r.randint(L - 1))
            j += j >= i
            CX = np.zeros((d * d, d * d))
            for a in range(d):
                for b in range(d):
                    CX[a * d + (a + b) % d, a * d + b] = 1
            v = apply_op(v, CX, [i, j])
    return v.reshape(-1)


def apply_op(v, op, sites):
    """dense tensor v (d,...,d); op (d^k, d^k), first factor acts on sites[0]"""
    d, k, L = v.shape[0], len(sites), v.ndim
    op = np.asarray(op).reshape([d] * (2 * k))
    w = np.tensordot(op, v, [list(range(k, 2 * k)), list(sites)])
    rest = [s for s in range(L) if s not in sites]
    order = list(sites) + rest
    return w.transpose(np.argsort(order))


def rho(v, sites):
    """normalised reduced density matrix of dense tensor v on sites, in that order"""
    d, L = v.shape[0], v.ndim
    rest = [s for s in range(L) if s not in sites]
    m = v.transpose(list(sites) + rest).reshape(d ** len(sites), -1)
    return m @ m.conj().T / np.vdot(v, v).real


def expval(v, op, sites):
    return np.vdot(v, apply_op(v, op, sites)) / np.vdot(v, v).real


def schmidt(v, n):
    """normalised squared Schmidt coefficients across the bond left of site n"""
    d = v.shape[0]
    s = np.linalg.svd(v.reshape(d ** n, -1), compute_uv=False)
    return s ** 2 / (s ** 2).sum()


def rayclose(a, b):
    """distance of two dense vectors up to norm and phase"""
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    if a.shape != b.shape:
        return np.inf
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if not (np.isfinite(na) and np.isfinite(nb)) or na == 0 or nb == 0:
        return np.inf
    a, b = a / na, b / nb
    ph = np.vdot(a, b)
    if ph == 0:
        return np.sqrt(2)
    return np.linalg.norm(a * ph / abs(ph) - b)


def herm(r, n, real=False):
    m = crandn(r, (n, n), real)
    return (m + m.conj().T) / 2


def unitary(r, n, real=False):
    return np.linalg.qr(crandn(r, (n, n), real))[0]


def full_h(hs, d=2):
    """sum of nearest neighbour terms"""
    L = len(hs) + 1
    H = np.zeros((d ** L, d ** L), dtype=complex)
    for i, h in enumerate(hs):
        H += np.kron(np.kron(np.eye(d ** i), np.asarray(h).reshape(d * d, d * d)), np.eye(d ** (L - i - 2)))
    return H


def kron(*ms):
    return reduce(np.kron, ms)


X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]])
Z = np.array([[1, 0], [0, -1]], dtype=complex)


def ham(spec):
    """nearest-neighbour Hamiltonian terms for a spec {L, kind, seed, d}"""
    L, d = spec['L'], spec.get('d', 2)
    r = rng(spec['seed'])
    if spec['kind'] == 'tfi':
        J, g = 1.0, 0.7
        h = -J * np.kron(Z, Z) + g * (np.kron(X, np.eye(2)) + np.kron(np.eye(2), X)) / 2
        return [h.copy() for _ in range(L - 1)]
    if spec['kind'] == 'heis':
        h = (np.kron(X, X) + np.kron(Y, Y) + np.kron(Z, Z)) / 4
        return [h.copy() for _ in range(L - 1)]
    if spec['kind'] == 'uniform':
        h = herm(r, d * d)
        return [h / np.linalg.norm(h, 2) for _ in range(L - 1)]
    hs = [herm(r, d * d) for _ in range(L - 1)]
    return [h / np.linalg.norm(h, 2) for h in hs]
