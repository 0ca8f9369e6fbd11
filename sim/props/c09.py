"""C09: evolution follows the Schroedinger equation through any history of run segments."""
import numpy as np
import scipy.linalg as sl
from .. import build, icalc, seams
from ..core import Violation, Discard, tb_text

RUNS = dict(quick=900, thorough=20000)
TIMEOUT = 90
RULE = ('one run = one history of 1-6 segments (euler, rk4, ode, exact diagonalisation; forwards, backwards, uneven steps) with gauge changes, measurements, copies, checkpoints, failed attempts, dynamical and padding bond '
        'expansions in between, on one finite or infinite chain; executed at the given steps and again at a quarter of them. Full-rank bonds: distance to exact evolution of the dense vector; any bond: tangent vector against the dense projection, norm, '
        'energy drift, and the way errors shrink. Non-trivial: at least two steps of evolution. Distinct: by the full case.')
STATES = 'distinct (regime, kinds of segments and interludes, direction, length) combinations'
COMPONENTS = dict(real=['xmps.fTDVP.Trajectory, xmps.iTDVP.Trajectory, xmps.fMPS, xmps.iMPS', 'scipy integrators'], simulated=['history of segments, interludes and failures', 'simulated time = the times of the segments', 'failing SVD drivers'], stub=['progress bars discarded'])
ASSUMPTIONS = ['states have the full rank of their bond dimension (environments are inverted), except in the listed finding', 'energies are compared for Hamiltonians whose terms have norm one']
LEVEL = 'exploration'
SIMTIME = 'see operations: every segment covers 0.005 to 0.6 units of inverse coupling'
MID = ['left', 'right', 'mixed', 'measure', 'copy', 'energy', 'entropy', 'fail', 'reload', 'scale']


def gen(r, tier, k):
    reg = r.choice(['exact', 'exact', 'exact', 'exact', 'var', 'var', 'inf', 'inf', 'ed'])
    if k % 50 == 7:
        reg = 'padded'
    c = dict(reg=reg, params={})
    if reg == 'padded':
        c['params'] = dict(padded=True)
        return dict(c, chain=dict(L=r.choice([5, 6]), d=2, D=2, seed=r.randrange(10 ** 6), ham='random', full=False, real=False), ops=[dict(op='expand', D=4), dict(op='rk4', T=[round(.01 * j, 3) for j in range(6)])])
    if reg == 'inf':
        c['chain'] = dict(d=r.choice([2, 2, 2, 3]), D=r.randint(2, 4), seed=r.randrange(10 ** 6), ham=r.choice(['tfi', 'heis', 'random']))
        if c['chain']['d'] == 3:
            c['chain']['ham'] = 'random'
    else:
        L = r.randint(2, 5 if tier == 'quick' else 6)
        d = r.choice([2, 2, 2, 2, 3])
        if d == 3:
            L = min(L, 3)
        full = d ** (L // 2)
        D = full if reg in ('exact', 'ed') else r.randint(1, max(1, full - 1))
        c['chain'] = dict(L=L, d=d, D=D, seed=r.randrange(10 ** 6), ham=r.choice(['tfi', 'heis', 'random', 'random', 'uniform']) if d == 2 else 'random', full=r.choice([False, False, False, 'sum', 'dense']), real=r.random() < .15)
        if reg == 'exact' and r.random() < .2 and L == 4 and d == 2:
            c['chain']['D'] = 2
            c['pre'] = r.choice(['expand', 'dyn'])
    n = r.choice([1, 1, 2, 2, 3, 4])
    how = r.choice(['rk4', 'rk4', 'euler', 'ode', 'rk4+ode'] if reg != 'inf' else ['rk4', 'euler'])
    if reg == 'ed':
        how = 'ed'
    ops = []
    t = 0
    for i in range(n):
        m = r.randint(1, 3)
        h = r.choice([.02, .05, .08]) if how != 'euler' else r.choice([.01, .02])
        if reg == 'inf':
            h = h / 2
        if how == 'ed':
            h = r.choice([.01, .1, 1., 7.])
        sg = r.choice([1, 1, 1, -1])
        T = [t]
        for j in range(m):
            t = round(t + sg * h * r.choice([1, 1, 1, .5]), 6)
            T.append(t)
        ops.append(dict(op=r.choice(how.split('+')), T=T, as_list=r.random() < .2))
        while r.random() < .45:
            ops.append(dict(op=r.choice(MID), k=r.randrange(1000), seed=r.randrange(10 ** 6)))
    c['ops'] = ops
    return c


def simplify(case):
    import json
    for i, o in enumerate(case['ops']):
        if len(o.get('T', [])) > 2:
            c = json.loads(json.dumps(case))
            c['ops'][i]['T'].pop()
            yield c
    l = case['chain']
    if l.get('L', 0) > 2 and case['reg'] in ('exact', 'ed') and not case.get('pre'):
        c = json.loads(json.dumps(case))
        c['chain']['L'] -= 1
        c['chain']['D'] = l['d'] ** (c['chain']['L'] // 2)
        yield c


def subdivide(T, n):
    out = [T[0]]
    for a, b in zip(T, T[1:]):
        out += [a + (b - a) * (j + 1) / n for j in range(n)]
    return out


def norml(v):
    return v / np.linalg.norm(v)


def tangent(As, Hv):
    """projection of -i H psi on the tangent space of the bond dimensions, without the component along psi"""
    L = len(As)
    cols = []
    for n, A in enumerate(As):
        lft = np.ones((1, 1))
        for B in As[:n]:
            lft = np.tensordot(lft, B, [1, 1]).reshape(-1, B.shape[2])
        rgt = np.ones((1, 1))
        for B in As[n + 1:][::-1]:
            rgt = np.einsum('sab,bx->asx', B, rgt).reshape(B.shape[1], -1)
        d = A.shape[0]
        for s in range(d):
            e = np.zeros(d)
            e[s] = 1
            for a in range(A.shape[1]):
                for b in range(A.shape[2]):
                    cols.append(np.kron(np.kron(lft[:, a], e), rgt[b]))
    T = np.array(cols).T
    u, s, _ = np.linalg.svd(T, full_matrices=False)
    u = u[:, s > 1e-9 * s[0]]
    w = u @ (u.conj().T @ (-1j * Hv))
    v = build.vec(As)
    return w - v * np.vdot(v, w) / np.vdot(v, v)


def dense_of(As, Bs):
    """sum over sites of psi with one tensor replaced"""
    return sum(build.vec([B if i == n else A for i, A in enumerate(As)]) for n, B in enumerate(Bs))


def moved(As, Bs):
    w, v = dense_of(As, Bs), build.vec(As)
    return w - v * np.vdot(v, w) / np.vdot(v, v)


# ---------------------------------------------------------------- finite
def hams(c):
    hs = build.ham(dict(L=c['L'], kind=c['ham'], seed=c['seed'], d=c['d']))
    F = build.full_h(hs, c['d'])
    if c['full'] == 'dense':
        F = build.herm(build.rng(c['seed'] + 1), c['d'] ** c['L'])
        F = F / np.linalg.norm(F, 2) * c['L']
    return hs, F


def interlude(ctx, t, o, C, F, hs):
    m, k, r = t.mps, o['op'], build.rng(o['seed'])
    L, d = C['L'], C['d']
    i = o['k'] % L
    call = lambda f, *a, **kw: ctx.call(k, f, *a, **kw)
    if k == 'left':
        call(m.left_canonicalise)
    elif k == 'right':
        call(m.right_canonicalise)
    elif k == 'mixed':
        call(m.mixed_canonicalise, i)
    elif k == 'measure':
        call(m.E, build.herm(r, d), i)
        call(m.rho, [i])
    elif k == 'energy':
        call(m.left_canonicalise)
        H = F if C['full'] else hs
        e = call(m.energy, H, fullH=bool(C['full']))
        v = norml(build.vec(t.mps.data))
        want = np.vdot(v, F @ v).real / (1 if C['full'] else L)
        if not abs(e - want) < 1e-8:
            raise Violation('energy-wrong', '%s, dense %s' % (e, want))
    elif k == 'entropy':
        call(m.Es, [build.herm(r, d)], i)
        call(m.copy().left_canonicalise)
    elif k == 'copy':
        t.mps = call(m.copy)
    elif k == 'reload':
        t.mps = type(m)().deserialize(call(m.serialize, real=True), real=True, structure=[A.shape for A in m.data])
    elif k == 'scale':
        t.mps = call(lambda: m * (1.3 * np.exp(1j * o['k'])))
    elif k == 'fail':
        # an attempt in which both SVD drivers fail
        c = [0, 0]

        def ctl(driver):
            c[0] += 1
            if c[0] > o['k'] % 12:
                c[1] += 1
                return True
        seams.S.svd = ctl
        try:
            t.rk4int(np.linspace(0, .05, 3))
        except Exception as e:
            if not c[1]:
                raise Violation('unexpected-error:rk4int:' + type(e).__name__, tb_text(e))
            ctx.fault('svd', c[1])
            return 'failed'
        finally:
            seams.S.svd = None
        return 'moved'


def finite(case, ctx, sub):
    """executes the history; returns deviations from exact evolution at all records, norm errors, energy drifts"""
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    C = case['chain']
    hs, F = hams(C)
    for j in range(60):
        As = build.tensors(dict(kind='std', L=C['L'], d=C['d'], D=C['D'], seed=C['seed'] + 7919 * j, real=C['real']))
        v = build.psi(As, C['d'])
        if min([np.sort(build.schmidt(v, n))[::-1][As[n].shape[1] - 1] for n in range(1, C['L'])] + [1]) > 4e-3:
            break
    else:
        raise Discard('nearly singular environment')
    t = Trajectory(fMPS([np.array(A) for A in As]), H=(F if C['full'] else hs), fullH=bool(C['full']))
    if case.get('pre') == 'expand':
        ctx.call('expand', t.expand, 4)
        q = t.mps.copy().left_canonicalise().data
        v4 = build.vec(q).reshape([2] * C['L'])
        for n in range(1, C['L']):
            dl, dr = q[n - 1].shape[1:]
            if 2 * dl != dr and (np.sort(build.schmidt(v4, n))[::-1][:dr] < 1e-6).any():
                raise Discard('singular environment (listed finding)')
    elif case.get('pre') == 'dyn':
        ctx.call('dynamical_expand', t.dynamical_expand, 4, .05, **({} if not C['full'] else dict(H=hs)))
    exact = norml(build.vec(t.mps.data))
    if case.get('pre') == 'expand' and not build.rayclose(exact, v.reshape(-1)) < 1e-8:
        raise Violation('expansion-changed-state', '%.2e' % build.rayclose(exact, v.reshape(-1)))
    E0 = np.vdot(exact, F @ exact).real
    dev, nrm, drift, taus, mono = [0.], [0.], [0.], 0., []
    for o in case['ops']:
        k = o['op']
        if sub == 1:
            ctx.stats['op:' + k] += 1
        if k == 'expand':
            ctx.call('expand', t.expand, o['D'])
            continue
        if k not in ('euler', 'rk4', 'ode', 'ed'):
            n0 = len(t.mps_history)
            res = interlude(ctx, t, o, C, F, hs)
            if res == 'moved':      # the attempt got through: two steps of .025
                exact = sl.expm(-1j * .05 * F) @ exact
            continue
        T = subdivide(o['T'], sub)
        fn = dict(euler=t.eulerint, rk4=t.rk4int, ode=t.odeint, ed=t.edint)[k]
        n0 = len(t.mps_history) if k != 'ed' else len(getattr(t, 'ed_history', []))
        ctx.call(k, fn, T if o.get('as_list') else np.array(T))
        ctx.steps(len(T) - 1)
        start, t0 = exact, T[0]
        if k == 'ed':
            new = [np.asarray(x) for x in t.ed_history[n0:]]
        else:
            new = [build.vec(t.read_record(n).data) for n in range(n0, len(t.mps_history))]
        if len(new) != len(T):
            raise Violation('records-missing', '%d for %d times' % (len(new), len(T)))
        for x, tn in zip(new, T):
            exact = sl.expm(-1j * (tn - t0) * F) @ start
            dev.append(build.rayclose(x, exact))
            nrm.append(abs(np.linalg.norm(x) - 1) if k != 'ed' else 0)
            y = norml(x)
            drift.append(abs(np.vdot(y, F @ y).real - E0))
            if k == 'ed':
                # exact diagonalisation keeps the phase and the norm
                pass
        if not build.rayclose(build.vec(t.mps.data), new[-1]) < 1e-7:
            raise Violation('not-at-the-end', k)
        taus += abs(T[-1] - T[0])
        ctx.data('x', np.round(new[-1], 8))
    # tangent vector of the last state
    if case['reg'] != 'ed' and sub == 1 and case['reg'] != 'padded':
        m = t.mps.copy()
        Bs = [A for A in ctx.call('dA_dt', m.dA_dt, F if C['full'] else hs, fullH=bool(C['full'])).data]
        Ms = [np.array(A) for A in m.data]
        w, want = moved(Ms, Bs), tangent(Ms, F @ build.vec(Ms))
        e = np.linalg.norm(w - want) / np.linalg.norm(build.vec(Ms))
        smin = min([np.sort(build.schmidt(build.vec(Ms).reshape([C['d']] * C['L']), n))[::-1][Ms[n].shape[1] - 1] for n in range(1, C['L'])] + [1])
        if smin > 1e-5 and not e < 1e-6:
            raise Violation('derivative-is-not-the-projection', '%.2e from the tangent space projection of -iH psi (norm %.2e)' % (e, np.linalg.norm(want)))
    return max(dev), max(nrm), max(drift), taus


# ---------------------------------------------------------------- infinite
def infinite(case, ctx, sub):
    from xmps.iMPS import iMPS
    from xmps.iTDVP import Trajectory
    C = case['chain']
    h = build.ham(dict(L=2, kind=C['ham'], seed=C['seed'], d=C['d']))[0]
    for j in range(60):
        A = icalc.itensor(dict(kind='rand', d=C['d'], D=C['D'], seed=C['seed'] + 7919 * j))
        if icalc.schmidt2(A)[-1] > 4e-3:
            break
    else:
        raise Discard('nearly singular environment')
    t = Trajectory(iMPS([np.array(A)]), H=[h])
    E0 = icalc.expect2(A, h).real
    nrm, drift, taus, ends = [0.], [0.], 0., []
    for o in case['ops']:
        k = o['op']
        if sub == 1:
            ctx.stats['op:' + k] += 1
        if k in ('euler', 'rk4'):
            T = subdivide(o['T'], sub)
            n0 = len(t.mps_history)
            ctx.call(k, t.eulerint if k == 'euler' else t.rk4int, T if o.get('as_list') else np.array(T))
            ctx.steps(len(T) - 1)
            if len(t.mps_history) - n0 != len(T):
                raise Violation('records-missing', '%d for %d times' % (len(t.mps_history) - n0, len(T)))
            for x in t.mps_history[n0:]:
                B = iMPS().deserialize(x, C['d'], C['D'], real=True).data[0]
                fx = icalc.fixed(B)
                nrm.append(abs(fx[0] - 1))
                drift.append(abs(icalc.expect2(B, h, fx).real - E0))
            taus += abs(T[-1] - T[0])
            ends.append(np.array(B))
            ctx.data('x', np.round(drift[-1:], 8))
        else:
            m, r = t.mps, build.rng(o['seed'])
            if k in ('left', 'right', 'mixed'):
                ctx.call(k, m.canonicalise, k[0])
            elif k in ('measure', 'entropy'):
                ctx.call(k, m.E, build.herm(r, C['d']))
            elif k == 'energy':
                e = ctx.call(k, m.energy, [h])
                if not abs(np.ravel(e)[0] - icalc.expect2(m.data[0], h).real) < 1e-8:
                    raise Violation('energy-wrong', '%s' % e)
            elif k == 'copy':
                t.mps = m.copy()
            elif k == 'reload':
                t.mps = iMPS().deserialize(m.serialize(True), C['d'], C['D'], real=True)
            elif k == 'scale':
                t.mps = m * (1.3 * np.exp(1j * o['k']))
    return ends, max(nrm), max(drift), taus


ORDER = dict(euler=.5, rk4=.045)
CONV = dict(euler=.5, rk4=.1)
FLOOR = dict(euler=1e-7, rk4=1e-8)
EFLOOR = dict(euler=3e-4, rk4=2e-5)


def run(case, ctx):
    reg = case['reg']
    how = {o['op'] for o in case['ops'] if 'T' in o}
    if not how:
        return
    first = 'euler' if 'euler' in how else 'ode' if 'ode' in how else 'ed' if 'ed' in how else 'rk4'
    ctx.state((reg, first, tuple(sorted({o['op'] for o in case['ops'] if 'T' not in o})), any(o['T'][-1] < o['T'][0] for o in case['ops'] if 'T' in o), case['chain'].get('L', 0), case.get('pre')))
    ctx.nontrivial = sum(len(o['T']) - 1 for o in case['ops'] if 'T' in o) >= 2
    if reg == 'inf':
        e1, n1, d1, tau = infinite(case, ctx, 1)
        e2, _, _, _ = infinite(case, ctx, 2)
        e4, n4, d4, _ = infinite(case, ctx, 4)
        if max(n1, n4) > 1e-8:
            raise Violation('norm-drifts', '%.2e' % max(n1, n4))
        if d4 > ORDER[first] * d1 + EFLOOR[first]:
            raise Violation('energy-drift-does-not-shrink', '%.2e at the given steps, %.2e at a quarter of them' % (d1, d4))
        a = [1 - min(1, icalc.fidelity(x, y)) for x, y in zip(e1, e2)]
        b = [1 - min(1, icalc.fidelity(x, y)) for x, y in zip(e2, e4)]
        if max(b) > CONV[first] * max(a) + 1e-10:
            raise Violation('does-not-converge', 'infidelity per site between steps and half of them: %.2e, then %.2e' % (max(a), max(b)))
        ctx.stats['x:inf'] += 1
        return
    try:
        v1, n1, d1, tau = finite(case, ctx, 1)
    except Violation as e:
        if reg == 'padded' and e.cls.startswith('unexpected-error'):
            return            # refused
        raise
    if n1 > 1e-8:
        raise Violation('norm-drifts', '%.2e' % n1)
    if reg == 'padded':
        # a state stored with twice the bond dimension it needs: no worse than without the padding
        u1 = finite(dict(case, ops=[o for o in case['ops'] if o['op'] != 'expand']), ctx, 1)[0]
        if v1 > 1.5 * u1 + 1e-3:
            raise Violation('padded-evolution', 'distance %.2e from exact evolution, without padding %.2e' % (v1, u1))
        return
    if reg == 'ed':
        if v1 > 1e-9 * (1 + tau):
            raise Violation('exact-evolution-wrong', 'distance %.2e after %s' % (v1, tau))
        return
    if first == 'ode':
        if reg == 'exact' and v1 > 3e-2:
            raise Violation('not-the-schroedinger-equation', 'distance %.2e after %s with odeint' % (v1, tau))
        if d1 > 5e-2:
            raise Violation('energy-drifts', '%.2e after %s with odeint' % (d1, tau))
        return
    v4, n4, d4, _ = finite(case, ctx, 4)
    if reg == 'exact' and v4 > ORDER[first] * v1 + FLOOR[first]:
        raise Violation('not-the-schroedinger-equation', 'distance %.2e, at a quarter of the steps %.2e' % (v1, v4))
    if reg == 'exact' and first == 'rk4' and v4 > 1e-4:
        raise Violation('not-the-schroedinger-equation', 'distance %.2e at a quarter of the steps' % v4)
    if d4 > ORDER[first] * d1 + EFLOOR[first]:
        raise Violation('energy-drift-does-not-shrink', '%.2e at the given steps, %.2e at a quarter of them' % (d1, d4))
