"""C13: iterative procedures always finish, with a result as good as they report."""
import numpy as np
from .. import build, icalc, seams, trace
from ..core import Violation, Discard, tb_text
from .c10 import left_form

RUNS = dict(quick=1500, thorough=30000)
TIMEOUT = 90
RULE = ('one run = 1-3 iterative procedures (ground-state searches of finite and infinite chains, mixed canonical form, disentangler, growth of the bond dimension, search for a state of given energy) from starting points, solver start vectors and '
        'eigenvector phases chosen by the simulator, some with solver failures that end after a chosen number of calls, some interrupted at a chosen line and put again. Executed lines are counted against a bound linear in the iteration limit. '
        'Results are compared with dense reference computations and with the trajectory of fresh objects. Non-trivial: one judged procedure. Distinct: by the full case.')
STATES = 'distinct (procedure, stopping reason, fault, outcome) combinations'
COMPONENTS = dict(real=['xmps.iOptimize, xmps.iMPS, xmps.fMPS, xmps.peps_tools, xmps.projects.fHam, xmps.projects.iHam'], simulated=['random generator state', 'start vectors and phases of the Arnoldi iteration', 'solver failures and recoveries', 'interrupts at chosen executed lines'], stub=['progress bars and printing discarded'])
ASSUMPTIONS = ['infinite chains have transfer matrices with a gap', 'Hamiltonians of norm about one', 'bond dimension two or more for infinite chains']
LEVEL = 'fault_enumeration'
LINES = True
PROC = ['igs', 'igs', 'igs', 'fham', 'fham', 'iham', 'iham', 'mixed', 'mixed', 'half', 'disent', 'disent', 'grow', 'grow', 'dynexp', 'rwe', 'rwe', 'rwe']


def gen(r, tier, k):
    ops = []
    for i in range(r.choice([1, 1, 2, 3])):
        o = dict(op=r.choice(PROC), seed=r.randrange(10 ** 6), start=r.randrange(10 ** 6), ham=r.choice(['tfi', 'heis', 'xy', 'random', 'random', 'classical']), D=r.randint(2, 4), L=r.randint(2, 5),
                 n=r.choice([0, 1, 2, 3, 5, 8, 13, 30 if tier == 'quick' else 120]), a=r.randrange(1000), b=r.randrange(1000))
        x = r.random()
        if x < .3:
            o['f'] = dict(t=r.choice(['svd', 'svd', 'svd1', 'svd1', 'eigs', 'eigs']), n=r.choice([1, 1, 2, 3, 5, 8, 13, 21]), len=r.choice([1, 1, 2, 5]))
        elif x < .42:
            o['abort'] = round(r.random(), 4)
        ops.append(o)
    return dict(ops=ops, starts=r.choice(['seeded', 'phase', 'plain', 'plain']), params={})


def simplify(case):
    import json
    for i, o in enumerate(case['ops']):
        for f in ('f', 'abort'):
            if f in o:
                c = json.loads(json.dumps(case))
                del c['ops'][i][f]
                yield c
        for f, lo in (('n', 0), ('D', 2), ('L', 2)):
            if o[f] > lo:
                c = json.loads(json.dumps(case))
                c['ops'][i][f] = lo if o[f] - lo > 3 else o[f] - 1
                yield c
    if case['starts'] != 'plain':
        yield dict(json.loads(json.dumps(case)), starts='plain')


class Injected(Exception):
    pass


def arm(case, o, r):
    S, f, c = seams.S, o.get('f'), dict(eigs=0, svd=0, hit=0, soft=0)
    on = lambda t, n: f and f['t'] == t and f['n'] <= n < f['n'] + f['len']

    def eigs(real, A, a, k):
        from scipy.sparse.linalg import ArpackNoConvergence
        c['eigs'] += 1
        if on('eigs', c['eigs']):
            c['hit'] += 1
            raise ArpackNoConvergence('ARPACK error -1: injected', np.zeros(0), np.zeros((A.shape[0], 0)))
        if case['starts'] != 'plain' and k.get('v0') is None:
            n = A.shape[0]
            k = dict(k, v0=r.randn(n) + (1j * r.randn(n) if np.issubdtype(A.dtype, np.complexfloating) else 0))
        w, v = real(A, *a, **k)
        if case['starts'] == 'phase':
            v = v * np.exp(2j * np.pi * r.rand())
        return w, v

    def svd(driver):
        c['svd'] += 1
        if on('svd', c['svd']):
            c['hit'] += 1
            return True
        if driver == 'gesdd' and on('svd1', c['svd']):
            c['soft'] += 1
            return True
    S.eigs, S.svd = eigs, svd
    return c


def disarm():
    seams.S.eigs = seams.S.svd = None


def need(ok, what, msg=''):
    if not ok:
        raise Violation(what, msg)


def two_site(o, d):
    r = build.rng(o['seed'])
    if d == 2:
        X, Y, Z, I = build.X, build.Y, build.Z, np.eye(2)
        g = [.3, .7, 1.3][o['b'] % 3]
        return {'tfi': -np.kron(Z, Z) + g * (np.kron(X, I) + np.kron(I, X)) / 2, 'heis': (np.kron(X, X) + np.kron(Y, Y) + np.kron(Z, Z)) / 2,
                'xy': (np.kron(X, X) + np.kron(Y, Y)) / 2 + .2 * np.kron(Z, I), 'classical': np.diag(r.randn(4)).astype(complex)}.get(o['ham'], None) if o['ham'] != 'random' else (lambda h: h / np.linalg.norm(h, 2))(build.herm(r, 4))
    if o['ham'] == 'classical':
        return np.diag(r.randn(d * d)).astype(complex)
    h = build.herm(r, d * d)
    return h / np.linalg.norm(h, 2)


def bound(h, d):
    """energy density of an infinite chain is at least that of the open chain of n bonds, per bond"""
    n = 5 if d == 2 else 3
    return np.linalg.eigvalsh(build.full_h([h] * n, d))[0] / n


def agree(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.isfinite(a).all() and (a.size == 0 or np.abs(a - b).max() <= tol)


# every procedure: setup(o) -> (call, judge(result, exact), budget, allowed(exception)).
# exact: no failure was injected
def p_igs(o):
    from xmps.iOptimize import find_ground_state
    from xmps.iMPS import iMPS
    h, D = two_site(o, 2), o['D']
    n, eps, tol = o['n'], [1e-2, 3e-2, 1e-1, .5, .9][o['a'] % 7 % 5], [1e-3, 1e-3, 1e-2, 3e-2, 0][o['a'] % 5]
    if eps > .2:
        n = min(n, 8)       # steps so long that the energy may rise (and rounding grows)

    def call():
        np.random.seed(o['start'])
        return find_ground_state(h, D, eps, n, tol, bool(o['b'] % 4 == 0))

    def judge(res, exact):
        psi, es = res
        need(len(es) <= n, 'igs-limit', '%d energies after at most %d steps' % (len(es), n))
        A = np.asarray(psi.data[0])
        need(A.shape == (2, D, D) and np.isfinite(A).all(), 'igs-state', str(A.shape))
        fx = icalc.fixed(A)
        need(abs(fx[0] - 1) < 1e-6, 'igs-norm', 'dominant eigenvalue %r' % fx[0])
        lo = bound(h, 2)
        need(all(np.isfinite(es)) and all(np.real(e) >= lo - 1e-7 for e in es), 'igs-below', '%s < %s' % (min(np.real(es)) if es else '', lo))
        ill = fx[3] < .02 or icalc.schmidt2(A, fx)[-1] < 1e-7
        # the trajectory, one fresh object per step
        np.random.seed(o['start'])
        s = seams.S.eigs
        seams.S.eigs = None
        x = iMPS().random(2, D).left_canonicalise()
        k, stop = 0, False
        while k <= n:
            y = iMPS([np.array(x.data[0])])
            fx = icalc.fixed(y.data[0])
            if fx[3] < .02 or icalc.schmidt2(y.data[0], fx)[-1] < 1e-7:
                seams.S.eigs = s
                return 'ill'
            e = icalc.expect2(y.data[0], h, fx).real
            need(e >= lo - 1e-9, 'igs-below-ref', '%r %r' % (e, lo))
            if k == n:
                break
            dA = 1j * eps * y.dA_dt([h])
            m = np.linalg.norm(dA.data[0])
            if abs(m - tol) < 1e-4 * (tol + 1e-9):
                seams.S.eigs = s
                return 'edge'
            if m < tol:
                stop = True
                break
            need(k < len(es), 'igs-early', 'stopped after %d steps although the change is %r > %r' % (len(es), m, tol))
            need(abs(es[k] - e) < 1e-5, 'igs-energy', 'energy %d reported %r, of the state %r' % (k, es[k], e))
            x = (y - dA).left_canonicalise()
            k += 1
        seams.S.eigs = s
        need(len(es) == k, 'igs-late', '%d steps, stopping rule met after %d' % (len(es), k))
        if not ill:
            need(abs(icalc.fidelity(A, np.asarray(x.data[0])) - 1) < 1e-5, 'igs-result', 'not the state of the last step: %r' % icalc.fidelity(A, np.asarray(x.data[0])))
        if len(es) > 3 and eps < .05:
            need(icalc.expect2(A, h).real < es[0] + 1e-6, 'igs-up', '%r -> %r' % (es[0], icalc.expect2(A, h).real))
        return 'conv' if stop else 'limit'
    def excuse():
        """the state loses rank on the way: no inverse, no canonical form"""
        np.random.seed(o['start'])
        x = iMPS().random(2, D).left_canonicalise()
        try:
            for k in range(n + 1):
                fx = icalc.fixed(np.asarray(x.data[0]))
                if fx[3] < .02 or icalc.schmidt2(np.asarray(x.data[0]), fx)[-1] < 1e-7:
                    return True
                y = iMPS([np.array(x.data[0])])
                x = (y - 1j * eps * y.dA_dt([h])).left_canonicalise()
        except Exception:
            pass
        return False
    return call, judge, 20000 + 60000 * (n + 1), (), excuse


def p_fham(o):
    from xmps.projects import fHam
    from xmps.fMPS import fMPS
    L, D, n = 2 + o['L'] % 3, 2 + o['D'] % 3, o['n']
    tol = [1e-5, 1e-3, 1e-2, 0][o['a'] % 4]
    H = [lambda: fHam.heis(L, [1, .5, 2][o['b'] % 3]), lambda: fHam.isin(L, [.5, 1.2][o['b'] % 2]), lambda: [two_site(dict(o, seed=o['seed'] + i), 3) for i in range(L - 1)]][o['a'] % 3]()
    H = [np.asarray(h) / max(1, np.linalg.norm(h, 2) / 2) for h in H]

    def call():
        np.random.seed(o['start'])
        return fHam.optimise(H, L, D, max_iters=n, tol=tol)

    def judge(res, exact):
        A, e = res
        F = build.full_h(H, 3)
        v = build.vec(A.data)
        need(np.isfinite(v).all() and abs(np.linalg.norm(v) - 1) < 1e-8, 'fham-norm', np.linalg.norm(v))
        E = np.vdot(v, F @ v).real / L
        need(abs(e - E) < 1e-8, 'fham-energy', 'reported %r, energy of the state %r' % (e, E))
        need(E >= np.linalg.eigvalsh(F)[0] / L - 1e-9, 'fham-below', E)
        np.random.seed(o['start'])
        x = fMPS().random(L, 3, D).left_canonicalise()
        en = lambda x: (lambda v: np.vdot(v, F @ v).real / L)(build.vec(x.data))
        es = [en(x)]
        for k in range(n):
            if min(s.min() / s.max() for s in [build.schmidt(build.psi(x.data, 3), i)[:x.data[i].shape[1]] for i in range(1, L)] or [1]) < 1e-8:
                return 'ill'
            x = fMPS([np.array(a) for a in x.data])
            x = (x - .1j * x.dA_dt(H)).left_canonicalise()
            es.append(en(x))
            c = abs(es[-1] - es[-2])
            if abs(c - tol) < 1e-3 * tol + 1e-9:
                return 'edge'
            if c < tol:
                break
        need(abs(e - es[-1]) < 1e-6, 'fham-stop', 'energy %r, stopping rule gives %r after %d of %d steps' % (e, es[-1], len(es) - 1, n))
        need(build.rayclose(v, build.vec(x.data)) < 1e-4, 'fham-result')
        return 'conv' if len(es) - 1 < n else 'limit'
    return call, judge, 20000 + 40000 * (n + 1), ()


def p_iham(o):
    from xmps.projects import iHam
    from xmps.iMPS import iMPS
    D, n = o['D'], o['n']
    tol = [1e-5, 1e-3, 1e-2, 0][o['a'] % 4]
    H = [lambda: iHam.heis([1, .5][o['b'] % 2])[0], lambda: iHam.isin([.5, 1.2][o['b'] % 2])[0], lambda: two_site(o, 2)][o['a'] % 3]()

    def call():
        np.random.seed(o['start'])
        return iHam.optimise([H], D, max_iters=n, tol=tol)

    def ill(a, fx):
        return fx[3] < .02 or icalc.schmidt2(a, fx)[-1] < 1e-7

    def judge(res, exact):
        A, e = res
        a = np.asarray(A.data[0])
        fx = icalc.fixed(a)
        need(np.isfinite(a).all() and abs(fx[0] - 1) < 1e-6, 'iham-norm', fx[0])
        E = icalc.expect2(a, H, fx).real
        if not ill(a, fx):
            need(abs(e - E) < 1e-5, 'iham-energy', 'reported %r, energy of the state %r' % (e, E))
        need(E >= bound(H, 2) - 1e-7, 'iham-below', E)
        np.random.seed(o['start'])
        s = seams.S.eigs
        seams.S.eigs = None
        try:
            x = iMPS().random(2, D).canonicalise('m')
            es = [icalc.expect2(np.asarray(x.data[0]), H).real]
            for k in range(n):
                if ill(np.asarray(x.data[0]), icalc.fixed(np.asarray(x.data[0]))):
                    return 'ill'
                x = iMPS([np.array(x.data[0])]).canonicalise('m')
                x = (x - .1j * x.dA_dt([H])).canonicalise('m')
                es.append(icalc.expect2(np.asarray(x.data[0]), H).real)
                c = abs(es[-1] - es[-2])
                if abs(c - tol) < 1e-2 * tol + 1e-7:
                    return 'edge'
                if c < tol:
                    break
        finally:
            seams.S.eigs = s
        if ill(np.asarray(x.data[0]), icalc.fixed(np.asarray(x.data[0]))):
            return 'ill'
        need(abs(e - es[-1]) < 1e-5, 'iham-stop', 'energy %r, stopping rule gives %r after %d of %d steps' % (e, es[-1], len(es) - 1, n))
        need(abs(icalc.fidelity(a, np.asarray(x.data[0])) - 1) < 1e-5, 'iham-result')
        return 'conv' if len(es) - 1 < n else 'limit'

    def excuse():
        np.random.seed(o['start'])
        x = iMPS().random(2, D).canonicalise('m')
        try:
            for k in range(n + 1):
                if ill(np.asarray(x.data[0]), icalc.fixed(np.asarray(x.data[0]))):
                    return True
                x = iMPS([np.array(x.data[0])]).canonicalise('m')
                x = (x - .1j * x.dA_dt([H])).canonicalise('m')
        except Exception:
            pass
        return False
    return call, judge, 20000 + 60000 * (n + 1), (), excuse


def itens(o):
    spec = dict(kind=['rand', 'rand', 'real', 'left', 'gauged', 'scaled', 'inj'][o['a'] % 7], d=2 + (o['b'] % 5 == 0), D=o['D'], seed=o['seed'])
    return icalc.itensor(spec)


def judge_left(AL, what):
    d, D = AL.shape[0], AL.shape[1]
    need(np.abs(sum(a.conj().T @ a for a in AL) - np.eye(D)).max() < 1e-9, what + '-left')


def judge_right(AR, what):
    D = AR.shape[1]
    need(np.abs(sum(a @ a.conj().T for a in AR) - np.eye(D)).max() < 1e-9, what + '-right')


def p_mixed(o):
    from xmps.iMPS import iMPS
    A = itens(o)
    eta = [1e-14, 1e-12, 1e-8][o['b'] % 3]

    def call():
        np.random.seed(o['start'])
        return iMPS([np.array(A)]).mixed(*([eta] if o['b'] % 2 else []))

    def judge(res, exact):
        AL, AR, C = np.asarray(res[0].data[0]), np.asarray(res[1].data[0]), np.asarray(res[2])
        judge_left(AL, 'mixed')
        judge_right(AR, 'mixed')
        need(np.abs(AL @ C - C @ AR).max() < 100 * eta + 1e-9, 'mixed-centre', np.abs(AL @ C - C @ AR).max())
        need(abs(np.linalg.norm(C) - 1) < 1e-9, 'mixed-norm', np.linalg.norm(C))
        for B in (AL, AR):
            need(abs(icalc.fidelity(A, B) - 1) < 1e-6, 'mixed-state', icalc.fidelity(A, B))
        s = np.linalg.svd(C, compute_uv=False) ** 2
        need(np.abs(s - icalc.schmidt2(A)).max() < 1e-5, 'mixed-schmidt', '%s %s' % (s, icalc.schmidt2(A)))
        return 'conv'
    return call, judge, 4000000, (RuntimeError,)


def p_half(o):
    """one half of the mixed form, with a limit or a given start"""
    from xmps.iMPS import iMPS
    A = itens(o)
    eta, n = [1e-10, 1e-6, 1e-13][o['b'] % 3], [o['n'], o['n'], 100000][o['a'] % 3]
    left = o['b'] % 2
    cat = o['a'] % 7 == 5              # a superposition of chains, or of two sublattices: the iteration need not converge
    if cat:
        A = np.zeros((2, 2, 2), complex)
        A[0, 0, o['b'] // 2 % 2] = A[1, 1, 1 - o['b'] // 2 % 2] = 1
        G = np.eye(2) + .3 * build.crandn(build.rng(o['seed']), (2, 2))
        A = G @ A @ np.linalg.inv(G)
        o = dict(o, D=2)
        n = min(n, 300)
    r = build.rng(o['start'])
    X0 = None if o['a'] % 2 else build.crandn(r, (o['D'], o['D'])) if o['a'] % 4 == 1 else np.eye(o['D']) + .1 * build.crandn(r, (o['D'], o['D']))

    def call():
        np.random.seed(o['start'])
        m = iMPS([np.array(A)])
        return m._lmixed(eta, X0, n) if left else m._rmixed(eta, X0, n)

    def judge(res, exact):
        AX, X, lam = np.asarray(res[0]), np.asarray(res[1]), res[2]
        (judge_left if left else judge_right)(AX, 'half')
        if cat:
            return 'cat'
        fx = icalc.fixed(A)
        need(abs(icalc.fidelity(A, AX) - 1) < 1e-5, 'half-state', icalc.fidelity(A, AX))
        need(abs(lam ** 2 - fx[0]) < 1e-3 * fx[0], 'half-norm', '%r %r' % (lam ** 2, fx[0]))
        d = X @ A - lam * AX @ X if left else A @ X - lam * X @ AX
        need(np.abs(d).max() < 30 * eta * np.abs(A).max() * o['D'] * 10 + 1e-9 * np.abs(A).max(), 'half-gauge', np.abs(d).max())
        return 'conv'
    return call, judge, 2000 + 60 * n, (RuntimeError,)


def p_disent(o):
    from xmps.peps_tools import renyi_2_disentangler, renyi
    d1, d2 = [(2, 2), (2, 2), (2, 3), (3, 2), (3, 3)][o['a'] % 5]
    Xl, Xr = 1 + o['b'] % 4, 1 + (o['b'] // 4) % 4
    r = build.rng(o['seed'])
    psi = build.crandn(r, (d1, d2, Xl, Xr))
    if o['a'] % 3 == 0:                # a product behind a unitary
        U0 = build.unitary(r, d1 * d2).reshape(d1, d2, d1, d2)
        psi = np.einsum('abcd,cx,dy->abxy', U0, build.crandn(r, (d1, Xl)), build.crandn(r, (d2, Xr)))
    if o['a'] % 4 != 1:
        psi = psi / np.linalg.norm(psi)
    n, m, eps = max(1, o['n'] if o['n'] < 40 else 40), o['b'] % 3, [1e-6, 1e-3, 1e-12][o['a'] % 3]

    def ent(U):
        t = np.tensordot(np.asarray(U).reshape(d1, d2, d1, d2), psi, [[2, 3], [0, 1]]).transpose(0, 2, 1, 3).reshape(d1 * Xl, d2 * Xr)
        s = np.linalg.svd(t, compute_uv=False)
        return -np.log((s ** 4).sum())

    def call():
        np.random.seed(o['start'])
        return renyi_2_disentangler(np.array(psi), eps, n, m)

    def judge(res, exact):
        U, Ss = np.asarray(res[0]), res[1]
        need(U.shape == (d1 * d2, d1 * d2) and np.isfinite(U).all() and np.abs(U @ U.conj().T - np.eye(d1 * d2)).max() < 1e-8, 'disent-unitary')
        need(1 <= len(Ss) <= n * (m + 1), 'disent-limit', '%d of %d*%d' % (len(Ss), n, m + 1))
        S, S0 = ent(U), ent(np.eye(d1 * d2))
        need(S <= S0 + 1e-9, 'disent-raised', 'entropy %r from %r' % (S, S0))
        need(S <= min(Ss) + 1e-9, 'disent-best', 'entropy %r, reported %r' % (S, min(Ss)))
        need(min(Ss) <= S + 1e-9 or abs(S - S0) < 1e-9, 'disent-report', 'entropy %r, reported %r' % (S, min(Ss)))
        need(all(s >= -4 * np.log(np.linalg.norm(psi)) - 1e-9 for s in Ss), 'disent-negative', min(Ss))
        # stops at a limit or at convergence, not before
        if len(Ss) < n * (m + 1):
            need(len(Ss) >= 3 and abs(Ss[-1] - Ss[-2]) <= eps, 'disent-early', Ss[-3:])
        return 'conv' if len(Ss) < n * (m + 1) else 'limit'
    return call, judge, 2000 + 4000 * n * (m + 1), ()


def chain_of(o, d):
    L = o['L'] if d == 2 else min(o['L'], 4)
    return build.tensors(dict(kind='std', L=L, d=d, D=1 + o['b'] % 3, seed=o['seed']))


def p_grow(o):
    from xmps.fMPS import fMPS
    d = 2 + (o['a'] % 5 == 0)
    As = chain_of(o, d)
    L = len(As)
    H = [two_site(dict(o, seed=o['seed'] + i), d) for i in range(L - 1)]
    D_ = [None, 1, 2, 3, 4, 5, 7, 9][o['a'] % 8]
    dt = [1e-2, 1e-3, 1e-4][o['b'] % 3]

    def call():
        m = fMPS([np.array(a) for a in As]).left_canonicalise()
        return m, m.grow(H, dt, D_)

    def judge(res, exact):
        m, g = res
        need(g is m, 'grow-self')
        D0 = max(a.shape[2] for a in fMPS([np.array(a) for a in As]).left_canonicalise().data)
        sh = [a.shape for a in m.data]
        need(all(s[2] == t[1] for s, t in zip(sh, sh[1:])) and sh[0][1] == sh[-1][2] == 1, 'grow-shapes', sh)
        D1 = max(s[2] for s in sh)
        want = D0 if D_ is None else max(D0, min(D_, d ** (L // 2)))
        need(D1 == want == m.D, 'grow-bond', 'bond dimension %d (recorded %r), wanted %d' % (D1, m.D, want))
        e = build.rayclose(build.vec(As), build.vec(m.data))
        need(e < 40 * dt * L, 'grow-state', 'moved by %r with dt %r' % (e, dt))
        return 'conv' if D1 > D0 else 'none'
    return call, judge, 300000, ()


def p_dynexp(o):
    from xmps.fMPS import fMPS
    As = chain_of(o, 2)
    L = len(As)
    H = [two_site(dict(o, seed=o['seed'] + i), 2) for i in range(L - 1)]
    dt, th = [1e-2, 1e-3][o['b'] % 2], [1e-8, None, 1e3][o['a'] % 3]

    def call():
        m = fMPS([np.array(a) for a in As]).left_canonicalise()
        m.dynamical_expand(H, dt, m.D + 1 + o['a'] % 3, th)
        return m

    def judge(m, exact):
        sh = [a.shape for a in m.data]
        need(all(s[2] == t[1] for s, t in zip(sh, sh[1:])) and sh[0][1] == sh[-1][2] == 1, 'dynexp-shapes', sh)
        need(max(s[2] for s in sh) == m.D or th == 1e3, 'dynexp-bond', '%r %r' % (sh, m.D))
        e = build.rayclose(build.vec(As), build.vec(m.data))
        need(e < 40 * dt * L, 'dynexp-state', 'moved by %r with dt %r' % (e, dt))
        if th == 1e3:
            need(e < 1e-7, 'dynexp-changed', e)
        return 'conv'
    return call, judge, 100000, ()


def p_rwe(o):
    from xmps.fMPS import fMPS
    L, D = o['L'], 1 + o['D'] % 4
    D = max(2, D)
    H = [two_site(dict(o, seed=o['seed'] + i), 2) for i in range(L - 1)]
    w = np.linalg.eigvalsh(build.full_h(H)) / L
    x = [.1, .3, .5, .7, .9, .97, 1.2, -.2][o['b'] % 8]
    E = w[0] + x * (w[-1] - w[0])
    tol, n = [1e-2, 1e-4, 1e-6, 1e-10][o['a'] % 4], min(o['n'], 20)

    def call():
        np.random.seed(o['start'])
        return fMPS().random_with_energy_E(E, H, L, 2, D, tol, n)

    def judge(m, exact):
        v = build.vec(m.data)
        need(np.isfinite(v).all() and abs(np.linalg.norm(v) - 1) < 1e-8, 'rwe-norm', np.linalg.norm(v))
        e = np.vdot(v, build.full_h(H) @ v).real / L
        need(abs(e - E) <= tol + 1e-11, 'rwe-energy', 'energy %r, wanted %r within %r' % (e, E, tol))
        need(max(a.shape[2] for a in m.data) <= D and len(m.data) == L, 'rwe-shape')
        return 'conv'

    class Said:
        pass
    return call, judge, 50000 + 40000 * (10 * n + 10), ('local minimum', 'Too many iterations')


TABLE = {k[2:]: v for k, v in list(globals().items()) if k.startswith('p_')}


def said(e, allowed):
    return any((type(e) is Exception and str(e) == a) if isinstance(a, str) else type(e) is a for a in allowed)


def run(case, ctx):
    for i, o in enumerate(case['ops']):
        o = dict(o, L=max(2, o['L']), D=max(2, o['D']))
        call, judge, budget, allowed, *excuse = TABLE[o['op']](o)
        r = build.rng(o['start'] + 17)
        nf = 0
        lines = None
        if 'abort' in o:
            with trace.LineBudget(budget) as b:
                try:
                    call()
                except trace.OutOfBudget:
                    raise Violation('no-progress:' + o['op'], 'not finished after %d lines' % budget)
                except Exception as e:
                    if not said(e, allowed) and not (excuse and type(e) is np.linalg.LinAlgError and excuse[0]()):
                        raise Violation('unexpected-error:%s:%s' % (o['op'], type(e).__name__), tb_text(e))
                lines = b.count
        for t in range(4):
            c = arm(case, o if t == 0 else dict(o, f=None), r)
            exc = None
            ab = trace.Abort(1 + int(o['abort'] * lines), KeyboardInterrupt('injected')) if lines and t == 0 else None
            try:
                with trace.LineBudget(budget) as b:
                    if ab:
                        with ab:
                            res = call()
                    else:
                        res = call()
            except trace.OutOfBudget:
                raise Violation('no-progress:' + o['op'], 'not finished after %d lines' % budget)
            except KeyboardInterrupt as e:
                if not ab or not ab.fired:
                    raise
                exc = e
            except Exception as e:
                exc = e
            finally:
                disarm()
            ctx.steps(b.count)
            ctx.stats['op:' + o['op']] += 1
            ctx.stats['max:lines_permille_of_budget:' + o['op']] = max(ctx.stats['max:lines_permille_of_budget:' + o['op']], 1000 * b.count // budget)
            nf = c['hit'] + c['soft'] + bool(ab and ab.fired)
            if c['hit']:
                ctx.fault(o['f']['t'], c['hit'])
            if c['soft']:
                ctx.fault('svd-driver', c['soft'])
            if ab and ab.fired:
                ctx.fault('interrupt')
            if exc is None:
                break
            ok = said(exc, allowed)
            ctx.ev(i, o['op'], 'raised', type(exc).__name__, str(exc)[:60])
            if ok:
                break
            if not c['hit'] and excuse and type(exc) is np.linalg.LinAlgError and excuse[0]():
                break
            if not c['hit'] and not (ab and ab.fired):
                raise Violation('unexpected-error:%s:%s' % (o['op'], type(exc).__name__), tb_text(exc))
            ctx.probe('recovered-by-retry')
        if exc is not None:
            ctx.state((o['op'], 'refused', str(exc)[:20]))
            ctx.probe('refused:' + o['op'])
            continue
        try:
            how = judge(res, nf == 0)
        except Violation:
            raise
        ctx.ev(i, o['op'], how)
        ctx.probe('%s:%s' % (o['op'], how))
        ctx.nontrivial = True
        ctx.state((o['op'], how, nf > 0, o['n']))
