"""Independent reference computations for infinite chains (dense transfer matrices)."""
import numpy as np
from . import build


def transfer(A, B=None):
    """E[(a,a'),(b,b')] = sum_s A[s,a,b] conj(B[s,a',b'])"""
    B = A if B is None else B
    E = np.einsum('sab,scd->acbd', A, B.conj())
    return E.reshape(A.shape[1] * B.shape[1], A.shape[2] * B.shape[2])


def fixed(A):
    """eta, l[ket,bra], r[ket,bra] (dominant, sum(l*r)=1), gap to the second eigenvalue"""
    D = A.shape[1]
    E = transfer(A)
    w, v = np.linalg.eig(E)
    i = np.argmax(np.abs(w))
    r = v[:, i].reshape(D, D)
    w2, v2 = np.linalg.eig(E.T)
    j = np.argmax(np.abs(w2))
    l = v2[:, j].reshape(D, D)
    mags = np.sort(np.abs(w))[::-1]
    gap = 1 - (mags[1] / mags[0] if len(mags) > 1 else 0)
    r = r / np.trace(r)
    r = (r + r.conj().T) / 2
    l = l / np.trace(l)
    l = (l + l.conj().T) / 2
    l = l / np.sum(l * r)
    return w[i].real, l, r, gap


def expect1(A, op, fx=None):
    eta, l, r, _ = fx or fixed(A)
    return np.einsum('ac,sab,ts,tcd,bd->', l, A, op, A.conj(), r, optimize=True) / eta


def expect2(A, h, fx=None):
    d, D = A.shape[0], A.shape[1]
    eta, l, r, _ = fx or fixed(A)
    AA = np.einsum('sab,tbc->stac', A, A).reshape(d * d, D, D)
    return np.einsum('ac,sab,ts,tcd,bd->', l, AA, np.asarray(h).reshape(d * d, d * d), AA.conj(), r, optimize=True) / eta ** 2


def fidelity(A, B):
    """|dominant mixed eigenvalue|^2 / (eta_A eta_B): fidelity per site"""
    m = np.abs(np.linalg.eigvals(transfer(A, B))).max()
    a = np.abs(np.linalg.eigvals(transfer(A))).max()
    b = np.abs(np.linalg.eigvals(transfer(B))).max()
    return m ** 2 / (a * b)


def schmidt2(A, fx=None):
    """squared Schmidt coefficients, largest first"""
    _, l, r, _ = fx or fixed(A)
    w = np.linalg.eigvals(l.T @ r).real
    return np.sort(w / w.sum())[::-1]


def gen_ispec(r, dmax=3, Dmax=5):
    return dict(kind=r.choice(['rand', 'rand', 'rand', 'real', 'left', 'gauged', 'scaled', 'inj']), d=r.choice([2, 2, 2, 3][:dmax + 1]), D=r.randint(2, Dmax), seed=r.randrange(10 ** 6))


def itensor(spec):
    """a single-site tensor with a gapped transfer matrix"""
    d, D, k = spec['d'], spec['D'], spec['kind']
    for t in range(50):
        r = build.rng(spec['seed'] + 7919 * t)
        A = build.crandn(r, (d, D, D), k == 'real')
        if k == 'left':
            q = np.linalg.qr(A.transpose(1, 0, 2).reshape(D * d, D))[0]
            A = q.reshape(D, d, D).transpose(1, 0, 2).copy()
        if k == 'gauged':
            G = np.eye(D) + 0.6 * build.crandn(r, (D, D)) / np.sqrt(D)
            A = G @ A @ np.linalg.inv(G)
        if k == 'scaled':
            A = A * [1e-3, 1e3, 17.0][int(r.randint(3))]
        if k == 'inj':              # near a product state
            A = 0.15 * A
            A[0, 0, 0] += 1.0
        fx = fixed(A)
        s = schmidt2(A, fx)
        if fx[3] > 0.05 and s[-1] > 1e-7:
            return A
    raise ValueError('no gapped tensor')
