"""C10: infinite-chain results do not depend on solver starts, gauge or solver failures."""
import numpy as np
from .. import build, icalc, seams
from ..core import Violation, tb_text

RUNS = dict(quick=6000, thorough=120000)
TIMEOUT = 60
RULE = ('one run = 4-20 operations of clients on a pool of infinite chains, several of them the same state in other gauges and norms: canonical forms, expectation values, energies, overlaps, environments, null-space projectors, '
        'environment sums, time derivatives, mixed and Vidal forms, copies, serialisation. Every iterative solver call gets a start vector and a phase of its eigenvector chosen by the simulator, and may not converge, return an invalid solution, '
        'or lose its SVD drivers. Every value is compared with the dense transfer matrix. Non-trivial: three judged operations. Distinct: by the full case.')
STATES = 'distinct (operation, gauge of the chain, canonical flag, fault, outcome) combinations'
COMPONENTS = dict(real=['xmps.iMPS, xmps.tensor'], simulated=['start vectors and phases of the Arnoldi iteration', 'non-convergence of eigs and root', 'failing SVD drivers', 'order of operations of the clients'], stub=[])
ASSUMPTIONS = ['transfer matrices have a gap of at least 0.05 and Schmidt values squared above 1e-7', 'one-site unit cells with bond dimension two or more']
LEVEL = 'fault_enumeration'
TOL = 5e-6             # Arnoldi accuracy times the condition of the gauges tried
OPS = ['can', 'can', 'can', 'E', 'E', 'Ec', 'Es', 'energy', 'energy', 'overlap', 'overlap', 'eigs', 'envs', 'lnp', 'rnp', 'Lh', 'Rh', 'dA', 'dA', 'mixed', 'vidal', 'gauge', 'gauge', 'copy', 'scale', 'ser', 'map', 'lgauge', 'rmix', 'guess', 'edit', 'edit']


def gen(r, tier, k):
    n = r.randint(4, 20 if tier == 'thorough' else 14)
    d = r.choice([2, 2, 2, 3])
    D = r.choice([2, 2, 3, 3, 4, 5, 6] if d == 2 else [2, 2, 3, 3, 5])
    lives = [dict(kind=r.choice(['rand', 'rand', 'real', 'left', 'gauged', 'scaled', 'inj']), d=d, D=D, seed=r.randrange(10 ** 6)) for _ in range(r.choice([1, 2, 2, 3]))]
    ops = []
    for i in range(n):
        o = dict(op=r.choice(OPS), s=r.randrange(8), j=r.randrange(1000), k=r.randrange(1000), seed=r.randrange(10 ** 6))
        if r.random() < .25:
            o['f'] = dict(t=r.choice(['eigs', 'eigs1', 'eigs1', 'root', 'root', 'rootraise', 'svd', 'svd1']), n=r.choice([1, 1, 1, 2, 2, 3, 4]))
        ops.append(o)
    return dict(lives=lives, ops=ops, starts=r.choice(['seeded', 'seeded', 'phase', 'plain', 'nasty']), params={})


def simplify(case):
    import json
    for i, o in enumerate(case['ops']):
        if 'f' in o:
            c = json.loads(json.dumps(case))
            del c['ops'][i]['f']
            yield c
    if case['starts'] != 'plain':
        yield dict(json.loads(json.dumps(case)), starts='plain')
    for i, l in enumerate(case['lives']):
        if any(x['D'] > 2 for x in case['lives']):
            c = json.loads(json.dumps(case))
            for x in c['lives']:
                x['D'] = 2
            yield c
            break


class Slot:
    def __init__(self, obj, ref, gauge):
        self.obj, self.ref, self.gauge = obj, ref, gauge       # ref: index of the physical state
        self.can = None


class Bad(Exception):
    pass


def arm(case, o, ctx, r):
    """solver controllers; returns a dict counting hits"""
    S, f, c = seams.S, o.get('f'), dict(eigs=0, root=0, svd=0, hit=0, asym=0)

    def eigs(real, A, a, k):
        from scipy.sparse.linalg import ArpackNoConvergence
        c['eigs'] += 1
        if f and (f['t'] == 'eigs' and c['eigs'] >= f['n'] or f['t'] == 'eigs1' and c['eigs'] == f['n']):
            c['hit'] += 1
            raise ArpackNoConvergence('ARPACK error -1: injected', np.zeros(0), np.zeros((A.shape[0], 0)))
        if case['starts'] != 'plain' and k.get('v0') is None:
            n = A.shape[0]
            v0 = r.randn(n) + (1j * r.randn(n) if np.issubdtype(A.dtype, np.complexfloating) else 0)
            if case['starts'] == 'nasty':
                v0 = v0 * (np.arange(n) == r.randint(n)) + 1e-8 * v0
            k = dict(k, v0=v0)
        w, v = real(A, *a, **k)
        if k.get('tol'):
            # no better than what was asked for
            e = r.randn(*v.shape) + (1j * r.randn(*v.shape) if np.iscomplexobj(v) else 0)
            v = v + .5 * k['tol'] * e / np.linalg.norm(e)
            w = w * (1 + .5 * k['tol'] * r.uniform(-1, 1))
        if case['starts'] in ('phase', 'nasty'):
            v = v * np.exp(2j * np.pi * r.rand()) * r.choice([1, -1])
        return w, v

    def root(real, fun, x0, a, k):
        c['root'] += 1
        if f and f['t'] == 'root' and c['root'] >= f['n']:
            c['hit'] += 1
            res = real(fun, x0, *a, **k)
            res.x = x0 + .1
            res.success = False
            res.message = 'injected: no convergence'
            return res
        if f and f['t'] == 'rootraise' and c['root'] >= f['n']:
            c['hit'] += 1
            raise ValueError('injected: Jacobian inversion yielded zero vector')
        return real(fun, x0, *a, **k)

    def svd(driver):
        c['svd'] += 1
        if f and f['t'] == 'svd' and c['svd'] >= f['n']:
            c['hit'] += 1
            return True
        if f and f['t'] == 'svd1' and driver == 'gesdd':
            c['hit'] += 1
            return True
    S.eigs, S.root, S.svd = eigs, root, svd
    return c


def disarm():
    seams.S.eigs = seams.S.root = seams.S.svd = None


def near(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.isfinite(a).all() and np.abs(a - b).max() <= tol * max(1, np.abs(b).max())


def need(ok, what, msg=''):
    if not ok:
        raise Violation(what, msg)


def left_form(A, fx=None):
    """gauge G with G A G^-1 / sqrt(eta) left canonical; that tensor; its r (trace one)"""
    eta, l, r, _ = fx or icalc.fixed(A)
    w, u = np.linalg.eigh(l.T)
    w = np.maximum(w, 1e-300)
    G = np.sqrt(w)[:, None] * u.conj().T
    Ac = G @ A @ np.linalg.inv(G) / np.sqrt(eta)
    _, l2, r2, _ = icalc.fixed(Ac)
    return G, Ac, r2 / np.trace(r2)


def grad(A, h):
    """derivative of the energy density with respect to conj(A), by central differences"""
    g = np.zeros(A.shape, complex)
    e = 1e-5
    for i in np.ndindex(*A.shape):
        for ph in (1, 1j):
            B = np.array(A, complex)
            B[i] += e * ph
            p = icalc.expect2(B, h).real
            B[i] -= 2 * e * ph
            m = icalc.expect2(B, h).real
            g[i] += ph * (p - m) / (4 * e)
    return g


def derivative(A, h):
    """left-gauge time derivative in the left canonical form"""
    G, Ac, r = left_form(A)
    d, D, _ = Ac.shape
    g = grad(Ac, h)
    M = Ac.reshape(d * D, D)
    # rows (s, a)
    P = np.eye(d * D) - M @ M.conj().T
    return G, (-1j * (P @ g.reshape(d * D, D)) @ np.linalg.inv(r)).reshape(d, D, D), r


def check_canonical(A, L, hand, want):
    d, D, _ = A.shape
    s = np.diag(np.asarray(L)).real
    need(near(np.asarray(L), np.diag(np.diag(L)), 1e-10), 'canonical-form-wrong', 'L not diagonal')
    need(near(np.sort(s ** 2)[::-1], want, TOL), 'schmidt-values-wrong', '%s, transfer matrix says %s' % (np.sort(s ** 2)[::-1], want))
    L2 = np.diag(s ** 2)
    I = np.eye(D)
    lf = lambda K, B: np.einsum('sab,ac,scd->bd', B.conj(), K, B)          # [bra, ket]
    rf = lambda K, B: np.einsum('sab,bc,sdc->ad', B, K, B.conj())          # [ket, bra]
    t = TOL
    if hand == 'l':
        ok = near(lf(I, A), I, t) and near(rf(L2, A), L2, t)
    elif hand == 'r':
        ok = near(rf(I, A), I, t) and near(lf(L2, A), L2, t)
    else:
        S = np.diag(s)
        ok = near(rf(S, A), S, t) and near(lf(S, A), S, t)
    need(ok, 'canonical-form-wrong', hand)


def one(case, ctx, slots, refs, o, r):
    s = slots[o['s'] % len(slots)]
    m, k, ref = s.obj, o['op'], refs[s.ref]
    d, D = m.d, m.D
    A = np.array(m.data[0])
    fx = icalc.fixed(ref)
    rr = build.rng(o['seed'])
    X = build.herm(rr, d)
    h = build.herm(rr, d * d)
    h = h / np.linalg.norm(h, 2)
    stiff = icalc.schmidt2(ref, fx)[-1]
    iso = near(np.einsum('sab,sac->bc', A.conj(), A), np.eye(D), 1e-9)
    risok = near(np.einsum('sab,scb->ac', A, A.conj()), np.eye(D), 1e-9)

    if k in ('can', 'guess'):
        hand = 'lrm'[o['k'] % 3]
        if k == 'guess':
            v = [rr.randn(D, D) + 1j * rr.randn(D, D) for _ in 'lr']
            v = [(x @ x.conj().T).astype(A.dtype if np.iscomplexobj(A) else float) if np.iscomplexobj(A) else (x @ x.conj().T).real for x in v]

            def fn():
                return m.canonicalise(hand, l0=v[0], r0=v[1])
        else:
            fn = [lambda: m.canonicalise(hand), lambda: m.left_canonicalise(), lambda: m.right_canonicalise()][o['j'] % 3]
            hand = [hand, 'l', 'r'][o['j'] % 3]

        def check(res):
            need(res is m and m.canonical == hand, 'canonical-form-wrong', 'flag %s' % m.canonical)
            check_canonical(m.data[0], m.L, hand, icalc.schmidt2(ref, fx))
            s.can = hand
        return fn, check
    if k in ('E', 'Es'):
        def check(x):
            x = np.ravel(x)[0]
            need(near(x, icalc.expect1(ref, X, fx), TOL), 'expectation-wrong', '%s, transfer matrix says %s (op %s)' % (x, icalc.expect1(ref, X, fx), k))
            s.can = m.canonical
            check_canonical(m.data[0], m.L, m.canonical, icalc.schmidt2(ref, fx))
        return (lambda: m.E(X)) if k == 'E' else (lambda: m.Es([X])), check
    if k == 'Ec':
        if s.can is None:
            return None
        c = s.can

        def check(x):
            need(near(np.ravel(x)[0], icalc.expect1(ref, X, fx), TOL), 'expectation-wrong', '%s, transfer matrix says %s (canonical %s)' % (x, icalc.expect1(ref, X, fx), c))
        return (lambda: m.E(X, c)) if o['j'] % 2 else (lambda: m.Es([X], c)), check
    if k == 'energy':
        return (lambda: m.energy([h])), lambda e: need(near(np.ravel(e)[0], icalc.expect2(ref, h, fx).real, TOL), 'energy-wrong', '%s, transfer matrix says %s' % (e, icalc.expect2(ref, h, fx)))
    if k == 'overlap':
        t = slots[o['j'] % len(slots)]
        want = icalc.fidelity(ref, refs[t.ref])
        return (lambda: m.overlap(t.obj)), lambda f: need(near(np.ravel(f)[0], want, TOL), 'overlap-wrong', '%s, transfer matrix says %s' % (f, want))
    if k in ('eigs', 'envs'):
        def check(res):
            eta, l, rg = res if k == 'eigs' else (None,) + tuple(res)
            e0, l0, r0, _ = icalc.fixed(A)
            if k == 'eigs':
                need(near(np.ravel(eta)[0], e0, TOL), 'eigenvalue-wrong', '%s, transfer matrix says %s' % (eta, e0))
            need(near(np.trace(l @ rg), 1, TOL), 'environments-not-normalised', str(np.trace(l @ rg)))
            for name, x, y in (('l', l, l0.T), ('r', rg, r0)):
                x = np.asarray(x)
                need(near(x, x.conj().T, TOL), 'environment-not-hermitian', name)
                need(np.linalg.eigvalsh((x + x.conj().T) / 2)[0] > -TOL, 'environment-not-positive', name)
            a, b = np.asarray(l) / np.linalg.norm(l), np.asarray(rg) / np.linalg.norm(rg)
            need(min(np.linalg.norm(a - y / np.linalg.norm(y)) for y in (l0, l0.T)) < TOL and np.linalg.norm(b - r0 / np.linalg.norm(r0)) < TOL, 'environment-wrong', '')
        return (m.eigs if k == 'eigs' else m.get_envs), check
    if k == 'lnp':
        if not iso:
            return None

        def check(pr):
            M = A.reshape(d * D, D)
            want = (np.eye(d * D) - M @ M.conj().T).reshape(d, D, d, D)
            got = np.asarray(pr)
            c = np.trace(got.reshape(d * D, d * D)) / (d * D - D)
            need(c.real > 0 and near(got / c, want, TOL), 'projector-wrong', 'left')
        return m.left_null_projector, check
    if k == 'rnp':
        if not risok:
            return None

        def check(pr):
            # indices (s, b, t, b') of right legs
            M = A.transpose(0, 2, 1).reshape(d * D, D)
            got = np.asarray(pr).reshape(d * D, d * D)
            want = np.eye(d * D) - M @ M.conj().T
            c = np.trace(got) / (d * D - D)
            need(c.real > 0 and (near(got / c, want, TOL) or near(got / c, want.conj(), TOL)), 'projector-wrong', 'right')
        return m.right_null_projector, check
    if k == 'Lh':
        if not iso:
            return None

        def check(K):
            e0, l0, r0, _ = icalc.fixed(A)
            r0 = r0 / np.trace(r0)
            AA = np.einsum('sab,tbc->stac', A, A).reshape(d * d, D, D)
            R = np.einsum('xab,yx,yac->cb', AA, h, AA.conj())           # [bra, ket], left environment one
            e = np.einsum('cb,bc->', R, r0)
            R = R - e * np.eye(D)
            # K - sum A^dag K A + 1 tr(K r) = R
            T = np.einsum('sab,scd->bdac', A.conj(), A).reshape(D * D, D * D)
            Q = np.eye(D * D) - T + np.outer(np.eye(D).reshape(-1), r0.T.reshape(-1))
            want = np.linalg.solve(Q, R.reshape(-1)).reshape(D, D)
            _, l, _ = m.eigs()
            got = np.asarray(K) / np.trace(l) * D
            need(near(got, want, TOL), 'environment-sum-wrong', 'left: %.2e' % np.abs(got - want).max())
        return (lambda: m.Lh([h])), check
    if k == 'Rh':
        if not risok:
            return None

        def check(K):
            e0, l0, r0, _ = icalc.fixed(A)
            l0 = l0 / np.trace(l0)                                    # [ket, bra]
            AA = np.einsum('sab,tbc->stac', A, A).reshape(d * d, D, D)
            R = np.einsum('xab,yx,ycb->ca', AA, h, AA.conj())           # [bra, ket], right environment one
            e = np.einsum('ca,ac->', R, l0)
            R = R - e * np.eye(D)
            T = np.einsum('sab,scd->acbd', A.conj(), A).reshape(D * D, D * D)
            Q = np.eye(D * D) - T + np.outer(np.eye(D).reshape(-1), l0.T.reshape(-1))
            want = np.linalg.solve(Q, R.reshape(-1)).reshape(D, D)
            _, _, rg = m.eigs()
            got = np.asarray(K) / np.trace(rg) * D
            need(near(got, want, TOL), 'environment-sum-wrong', 'right: %.2e' % np.abs(got - want).max())
        return (lambda: m.Rh([h])), check
    if k == 'dA':
        if stiff < 1e-4 or D > 4:
            return None

        def check(dm):
            B = np.asarray(dm.data[0])
            G, want, rr_ = derivative(A, h)
            eta = icalc.fixed(A)[0]
            got = G @ B @ np.linalg.inv(G) / np.sqrt(eta)
            n = lambda x: np.sqrt(abs(np.einsum('sab,sac,cb->', x.conj(), x, rr_)))
            need(np.isfinite(got).all() and n(got - want) < 1e-5 * max(1, n(want)), 'derivative-wrong', '%.2e from the gradient of the energy (norm %.2e)' % (n(got - want), n(want)))
        return (lambda: m.dA_dt([h])), check
    if k == 'mixed':
        def check(res):
            AL, AR, C = res
            AL, AR = AL[0], AR[0]
            I = np.eye(D)
            need(near(np.einsum('sab,sac->bc', AL.conj(), AL), I, 1e-9) and near(np.einsum('sab,scb->ac', AR, AR.conj()), I, 1e-9), 'mixed-form-wrong', 'not isometric')
            need(near(np.linalg.norm(C), 1, TOL), 'mixed-form-wrong', 'centre not normalised')
            need(near(AL @ C, C @ AR, TOL), 'mixed-form-wrong', 'AL C differs from C AR')
            need(abs(1 - icalc.fidelity(AL, ref)) < TOL and abs(1 - icalc.fidelity(AR, ref)) < TOL, 'mixed-form-wrong', 'another state')
            sv = np.linalg.svd(C, compute_uv=False) ** 2
            need(near(np.sort(sv)[::-1], icalc.schmidt2(ref, fx), TOL), 'schmidt-values-wrong', 'mixed')
        return m.mixed, check
    if k == 'rmix':
        left = o['j'] % 2

        def check(res):
            B, G, lam = res
            need(near(lam ** 2, icalc.fixed(A)[0], TOL), 'mixed-form-wrong', 'norm')
            need(near(B @ G * lam, G @ A, TOL) if left else near(G @ B * lam, A @ G, TOL), 'mixed-form-wrong', 'gauge')
        return (m._lmixed if left else m._rmixed), check
    if k == 'vidal':
        def check(v):
            G, L = v.data[0]
            sv = np.sort(np.diag(L) ** 2)[::-1]
            need(near(sv, icalc.schmidt2(ref, fx), TOL), 'schmidt-values-wrong', 'vidal')
            need(abs(1 - icalc.fidelity(np.asarray(G) @ L, ref)) < TOL, 'changed-state', 'vidal')
            need(near(np.ravel(v.E(X))[0], icalc.expect1(ref, X, fx), TOL), 'expectation-wrong', 'vidal')
            v.canonicalise()
            need(near(np.ravel(v.E(X))[0], icalc.expect1(ref, X, fx), TOL), 'expectation-wrong', 'vidal, canonicalised')
            need(near(np.sort(np.diag(v.data[0][1]).real ** 2)[::-1], icalc.schmidt2(ref, fx), TOL), 'schmidt-values-wrong', 'vidal, canonicalised')
            s.can = m.canonical
            if len(slots) < 8:
                slots.append(Slot(ctx.call('to_iMPS', v.to_iMPS), s.ref, 'vidal'))
        return (lambda: m.canonicalise(to_vidal=True)), check
    if k == 'map':
        t = slots[o['j'] % len(slots)]
        B = np.array(t.obj.data[0])
        if t.obj.D != D or t.obj.d != d:
            return None
        from xmps.iMPS import Map
        E = icalc.transfer(A, B)
        w = np.linalg.eigvals(E)
        w = w[np.argsort(-np.abs(w))]
        if len(w) > 1 and abs(w[1]) > .9 * abs(w[0]):
            return None
        right = o['k'] % 2

        def fn():
            return Map(A, B).right_fixed_point() if right else Map(A, B).left_fixed_point()

        def check(res):
            eta, v = res
            v = np.asarray(v)
            need(near(abs(np.ravel(eta)[0]), abs(w[0]), TOL), 'eigenvalue-wrong', 'map: %s, transfer matrix says %s' % (eta, w[0]))
            if right:
                y = np.einsum('sab,bc,sdc->ad', A, v, B.conj())
            else:
                y = np.einsum('sba,bc,scd->ad', A.conj(), v, B)
            c = np.vdot(v, y) / np.vdot(v, v)
            need(near(y, c * v, TOL) and near(abs(c), abs(w[0]), TOL), 'eigenvector-wrong', 'map')
        return fn, check
    if k == 'lgauge':
        def check(res):
            eta, G = res
            B = G @ A @ np.linalg.inv(G) / np.sqrt(eta)
            need(near(np.einsum('sab,sac->bc', B.conj(), B), np.eye(D), TOL), 'gauge-wrong', 'left_gauge')
        return m.left_gauge, check
    # operations that only make other slots
    if k == 'gauge':
        G = np.linalg.qr(build.crandn(rr, (D, D)))[0] @ np.diag(1 + .5 * rr.rand(D)) @ np.linalg.qr(build.crandn(rr, (D, D)))[0]
        z = [1, 1, 2.5 * np.exp(1j), .01, -1j][o['j'] % 5]

        def fn():
            from xmps.iMPS import iMPS
            return iMPS([z * G @ A @ np.linalg.inv(G)])
        return fn, lambda n: slots.append(Slot(n, s.ref, 'gauged')) if len(slots) < 8 else None
    if k == 'edit':
        # the client changes the state: everything after belongs to the new one
        how = o['j'] % 4
        if how == 0:
            B = np.einsum('st,tab->sab', build.unitary(rr, d), A)           # a gate on every site: same environments
        elif how == 1:
            B = A + .3 * np.abs(A).max() * build.crandn(rr, A.shape)
        elif how == 2:
            B = A + .01 * np.abs(A).max() * build.crandn(rr, A.shape)
        else:
            B = icalc.itensor(dict(kind='rand', d=d, D=D, seed=o['seed']))
        fb = icalc.fixed(B)
        if not fb[3] > .05 or not icalc.schmidt2(B, fb)[-1] > 1e-6:
            return None

        def fn():
            if o['k'] % 3 == 0 and np.iscomplexobj(m.data[0]):
                m.data[0][...] = B
            elif o['k'] % 3 == 1:
                m[0] = np.array(B)
            else:
                m.data[0] = np.array(B)
            refs.append(B)
            s.ref, s.can, s.gauge = len(refs) - 1, None, 'edited'
        return fn, lambda _: None
    if k == 'copy':
        def check(n):
            if len(slots) < 8:
                slots.append(Slot(n, s.ref, s.gauge))
        return m.copy, check
    if k == 'scale':
        z = [2, -1j, .5, 3][o['j'] % 4]
        return (lambda: m * z if o['k'] % 2 else z * m), lambda n: slots.append(Slot(n, s.ref, 'scaled')) if len(slots) < 8 else None
    if k == 'ser':
        from xmps.iMPS import iMPS
        real = bool(o['k'] % 2)
        return (lambda: iMPS().deserialize(m.serialize(real), d, D, 1, real)), lambda n: slots.append(Slot(n, s.ref, s.gauge)) if len(slots) < 8 else None


def run(case, ctx):
    from xmps.iMPS import iMPS
    refs = [icalc.itensor(l) for l in case['lives']]
    slots = [Slot(iMPS([np.array(A)]), i, case['lives'][i]['kind']) for i, A in enumerate(refs)]
    judged = 0
    for o in case['ops']:
        r = build.rng(o['seed'] ^ 0x77)
        s = slots[o['s'] % len(slots)]
        had = s.can
        pair = one(case, ctx, slots, refs, o, r)
        if pair is None:
            continue
        fn, check = pair
        before = np.array(s.obj.data[0])
        c = arm(case, o, ctx, r)
        err = None
        try:
            res = fn()
        except Exception as e:
            err = e
        finally:
            disarm()
        ctx.stats['op:' + o['op']] += 1
        ctx.steps(c['eigs'] + c['root'] + 1)
        f = o.get('f', {}).get('t')
        if c['hit']:
            ctx.fault(f, c['hit'])
        if err is not None:
            if not c['hit']:
                raise Violation('unexpected-error:%s:%s' % (o['op'], type(err).__name__), tb_text(err))
            if f == 'svd1':
                raise Violation('one-failing-driver-is-enough', '%s: %s' % (o['op'], tb_text(err)))
            s.can = None if not np.array_equal(before, s.obj.data[0]) else s.can
            s.can = had if np.array_equal(before, s.obj.data[0]) else None
            if o['op'] in ('can', 'guess', 'E', 'Es', 'vidal'):
                s.can = None
            ctx.ev(o['op'], 'failed', type(err).__name__)
        else:
            ctx.ev(o['op'], 'ok')
            check(res)
            judged += 1
        A = s.obj.data[0]
        need(A.shape == before.shape and np.isfinite(A).all(), 'changed-state', '%s left %s' % (o['op'], A.shape))
        need(abs(1 - icalc.fidelity(A, refs[s.ref])) < TOL, 'changed-state', '%s: fidelity %s' % (o['op'], icalc.fidelity(A, refs[s.ref])))
        if err is None and o['op'] in ('can', 'guess', 'E', 'Es', 'vidal'):
            need(near(icalc.fixed(A)[0], 1, TOL), 'not-normalised', o['op'])
        ctx.state((o['op'], s.gauge, s.can, f if c['hit'] else None, err is None, case['starts']))
    ctx.nontrivial = judged >= 3
