"""C12: tangent-space quantities do not depend on what was computed before."""
import numpy as np
from .. import build, seams, trace
from ..core import Violation, Discard, tb_text

RUNS = dict(quick=2200, thorough=80000)
TIMEOUT = 60
RULE = ('one run = 4-24 questions (matrix elements F1, F2, connection coefficients, Jacobians as matrix or as functions, time derivatives, second derivatives, projectors, tangent vectors, projection errors) put by clients to one chain of 2-13 sites, '
        'with evaluation identifiers reused within an evaluation, interleaved with changes of the state (gates, evolution steps, edits in place, gauge changes, truncation) and of the Hamiltonian, some questions aborted at a chosen line and put again. '
        'Every answer is compared with that of a fresh object and, in the left or right canonical form, with dense tangent vectors. Non-trivial: three judged answers. Distinct: by the full case.')
STATES = 'distinct (question, previous question, relation of sites, identifier reused or not) combinations'
COMPONENTS = dict(real=['xmps.fMPS'], simulated=['order of the questions and of the changes', 'aborts at chosen executed lines', 'identifiers'], stub=[])
ASSUMPTIONS = ['chains in left or right canonical form with the full rank of their bonds when a quantity is judged', 'one identifier stands for one evaluation: same state, same Hamiltonian']
LEVEL = 'fault_enumeration'
LINES = True
EXC = ['KeyboardInterrupt', 'MemoryError', 'LinAlgError']
Q = ['F1', 'F1', 'F1', 'F1t', 'F2', 'F2', 'F2', 'F2t', 'chr', 'chrc', 'chrc', 'jac', 'jac', 'jacc', 'jacf', 'dA', 'dA', 'dAf', 'ddA', 'perr', 'dims', 'lnp', 'impext', 'tstate', 'sweep', 'energy']
CH = ['gate', 'evolve', 'edit', 'item', 'left', 'right', 'trunc', 'H', 'H1', 'follow', 'scale_back', 'again', 'newid', 'newid', 'loose', 'loose']
FREE = ['lnp', 'lnpv', 'rnp', 'rnpv', 'envs', 'energy', 'dA', 'dims']      # asked of chains in no particular gauge, too


def gen(r, tier, k):
    long = r.random() < .18
    L = r.choice([11, 12, 12, 13]) if long else r.randint(2, 6)
    d = 3 if not long and L <= 3 and r.random() < .3 else 2
    D = r.choice([1, 2, 2]) if long else r.randint(1, 4 if d == 2 else 3)
    n = r.randint(4, 10 if long else (20 if tier == 'quick' else 24))
    ops = []
    for i in range(n):
        if r.random() < .3:
            ops.append(dict(op=r.choice(CH), a=r.randrange(60), seed=r.randrange(10 ** 6)))
            old = [o for o in ops if 'i' in o]
            if old and r.random() < .5:          # the last question again, or an earlier one
                o = dict(old[-1] if r.random() < .6 else r.choice(old))
                o.pop('abort', None)
                ops.append(o)
            continue
        o = dict(op=r.choice([q for q in Q if not long or q in ('F1', 'F2', 'chr', 'chrc', 'dA', 'lnp', 'F1', 'F2', 'F1', 'F2')]), i=r.randrange(60), j=r.randrange(60), k=r.randrange(60), id=r.choice([None, 'A', 'A', 'A', 'B']), fix=r.random() < .5, seed=r.randrange(10 ** 6))
        if ops and r.random() < .35:
            p = r.choice(ops)
            if 'i' in p:               # the same sites again, or the other way round, or numbers that look alike
                o.update(i=p['i'], j=p['j'], id=p['id']) if r.random() < .5 else o.update(i=p['j'], j=p['i'], id=p['id'])
                if r.random() < .4:
                    o['op'] = p['op']
                if long and r.random() < .5:
                    o.update(r.choice([dict(i=1, j=11), dict(i=11, j=1), dict(i=1, j=1), dict(i=10, j=1), dict(i=1, j=10), dict(i=0, j=11), dict(i=11, j=11)]))
        if r.random() < .12:
            o['abort'] = round(r.random(), 4)
            o['exc'] = r.choice(EXC)
        ops.append(o)
    return dict(chain=dict(kind=r.choice(['std', 'std', 'std', 'irr']) if not long else 'std', L=L, d=d, D=D, seed=r.randrange(10 ** 6), real=r.random() < .15), hand=r.choice(['left', 'right']), ham=dict(kind=r.choice(['tfi', 'heis', 'random', 'random', 'uniform']) if d == 2 else 'random', seed=r.randrange(10 ** 6)),
                ops=ops, params={})


def simplify(case):
    import json
    for i, o in enumerate(case['ops']):
        if 'abort' in o:
            c = json.loads(json.dumps(case))
            del c['ops'][i]['abort']
            yield c
    if case['chain']['L'] > 2:
        c = json.loads(json.dumps(case))
        c['chain']['L'] -= 1
        yield c
    if case['chain']['D'] > 1:
        c = json.loads(json.dumps(case))
        c['chain']['D'] -= 1
        yield c


def happly(v, hs):
    return sum(build.apply_op(v, h, [i, i + 1]) for i, h in enumerate(hs))


class Dense:
    """tangent vectors of a list of tensors, with given null spaces"""
    def __init__(self, As, hs, vLs=None, pv=None):
        self.As, self.hs, self.L, self.d = As, hs, len(As), As[0].shape[0]
        l, r = [np.eye(1)], [np.eye(1)]
        for A in As:
            l.append(np.einsum('sab,ac,scd->bd', A.conj(), l[-1], A))
        for A in As[::-1]:
            r.insert(0, np.einsum('sab,bc,sdc->ad', A, r[0], A.conj()))
        self.l, self.r = lambda n: l[n + 1], lambda n: r[n + 1]
        self.vLs = vLs
        self.v = build.psi(As, self.d)
        self.Hv = happly(self.v, hs)
        self.mem = {}

    def half(self, x, inverse=False):
        w = np.sqrt(np.abs(np.diag(x)))
        return np.diag(1 / w if inverse else w)

    def ok(self):
        """canonical with full rank: diagonal environments of sensible size"""
        for n in range(self.L):
            for x in (self.l(n), self.r(n)):
                dg = np.abs(np.diag(x))
                if np.abs(x - np.diag(np.diag(x))).max() > 1e-8 * dg.max() or dg.min() < 1e-5 * dg.max():
                    return False
        return abs(np.linalg.norm(self.v) - 1) < 1e-8

    def rep(self, R):
        return build.vec([R.get(n, A) for n, A in enumerate(self.As)])

    def rows(self, n):
        """tensors replacing site n, one per tangent direction"""
        if n not in self.mem:
            vL = self.vLs[n]
            a, b = vL.shape[2], self.As[n].shape[2]
            out = []
            for p in range(a):
                for q in range(b):
                    x = np.zeros((a, b))
                    x[p, q] = 1
                    out.append(self.half(self.l(n - 1), True) @ vL @ x @ self.half(self.r(n), True))
            self.mem[n] = ((a, b), out)
        return self.mem[n]

    def T(self, n):
        if ('T', n) not in self.mem:
            s, R = self.rows(n)
            self.mem['T', n] = (s, np.array([self.rep({n: x}) for x in R]).reshape(-1, self.v.size))
        return self.mem['T', n]

    def F1(self, i, j):
        (si, Ti), (sj, Tj) = self.T(i), self.T(j)
        if not len(Ti) or not len(Tj):
            return np.zeros(si + sj, complex)
        sh = self.v.shape
        HT = np.array([happly(x.reshape(sh), self.hs).reshape(-1) for x in Tj])
        return (Ti.conj() @ HT.T).reshape(si + sj)

    def two(self, i, j, w):
        """<d_i d_j psi|w>"""
        si, Ri = self.rows(i)
        sj, Rj = self.rows(j)
        if i == j or not Ri or not Rj:
            return np.zeros(si + sj, complex)
        return np.array([[np.vdot(self.rep({i: x, j: y}), w) for y in Rj] for x in Ri]).reshape(si + sj)

    def F2(self, i, j):
        return self.two(i, j, self.Hv.reshape(-1))

    def sites(self):
        return [n for n in range(self.L) if self.vLs[n].shape[2] * self.As[n].shape[2]]

    def blocks(self, f):
        s = self.sites()
        return np.block([[f(i, j).reshape(int(np.prod(f(i, j).shape[:2])), -1) for j in s] for i in s])

    def jac(self):
        s = self.sites()
        P = np.concatenate([self.T(n)[1] for n in s])
        Hv = self.Hv.reshape(-1)
        w = Hv - P.T @ (P.conj() @ Hv)
        return -1j * self.blocks(self.F1), -1j * self.blocks(lambda i, j: self.two(i, j, w))


def need(ok, cls, msg=''):
    if not ok:
        raise Violation(cls, msg)


def near(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    s = np.abs(b)
    s = s[np.isfinite(s)].max() if np.isfinite(s).any() else 1
    return bool(np.allclose(a, b, rtol=0, atol=tol * max(1, s), equal_nan=True))


def run(case, ctx):
    from xmps.fMPS import fMPS
    c = case['chain']
    L, d = c['L'], c['d']
    As = build.tensors(dict(c))
    m = fMPS([np.array(x) for x in As])
    ctx.call('prepare', getattr(m, case['hand'] + '_canonicalise'))
    hs = build.ham(dict(case['ham'], L=L, d=d))
    W = dict(m=m, H=hs, ids={}, ver=0, last=None, hand=case['hand'], nH=0)
    judged = 0
    prev = None
    for n, o in enumerate(case['ops']):
        ctx.stats['op:' + o['op']] += 1
        ctx.ev(n, o['op'])
        if o['op'] in CH:
            change(W, o, ctx, case)
        else:
            if question(W, o, ctx, case):
                judged += 1
                ctx.state((o['op'], prev, (o['i'] % L > o['j'] % L) - (o['i'] % L < o['j'] % L), o['id']))
            prev = o['op']
        ctx.steps()
    ctx.nontrivial = judged >= 3


def change(W, o, ctx, case):
    from xmps.fMPS import fMPS
    m, k, r = W['m'], o['op'], build.rng(o['seed'])
    L, d = len(m.data), m.data[0].shape[0]
    hand = W['hand']
    W['ver'] += 1
    if k in ('newid', 'again'):
        return
    if k == 'gate':
        s = o['a'] % L
        m.data[s] = np.tensordot(build.unitary(r, d), m.data[s], [1, 0])
    elif k == 'item':
        s = o['a'] % L
        m[s] = np.tensordot(build.unitary(r, d), m[s], [1, 0])
    elif k == 'edit':
        s = o['a'] % L
        m.data[s] += .3 * build.crandn(r, m.data[s].shape) if np.iscomplexobj(m.data[s]) else 0
        ctx.call('recanonicalise', getattr(m, hand + '_canonicalise'))
    elif k == 'loose':                      # one tensor replaced, the gauge lost
        s = o['a'] % L
        B = m.data[s] + .5 * build.crandn(r, m.data[s].shape)
        if o['a'] % 3 == 0:
            m[s] = B
        elif o['a'] % 3 == 1 or not np.iscomplexobj(m.data[s]):
            m.data[s] = B
        else:
            m.data[s][...] = B
        if W['hand'] and r.rand() < .3:
            ctx.call('recanonicalise', getattr(m, hand + '_canonicalise'))
    elif k in ('left', 'right'):
        ctx.call('canonicalise', getattr(m, k + '_canonicalise'))
        W['hand'] = k
    elif k == 'trunc':
        D = max(1, m.bond_dimension - o['a'] % 2)
        ctx.call('canonicalise', getattr(m, hand + '_canonicalise'), D)
    elif k == 'evolve':
        try:
            W['m'] = (m + .05 * m.dA_dt(W['H']))
        except Exception:
            return
        ctx.call('recanonicalise', getattr(W['m'], hand + '_canonicalise'))
        if hasattr(m, 'old_vL') and [x.shape for x in m.data] == [x.shape for x in W['m'].data]:
            W['m'].old_vL = m.old_vL
    elif k == 'follow':                     # as the Lyapunov runs do: keep the frame of the last Jacobian
        if hasattr(m, 'new_vL') and all(v.shape[:2] == A.shape[:2] for v, A in zip(m.new_vL, m.data)):
            m.old_vL = m.new_vL
    elif k == 'scale_back':                 # another object takes part: a copy is asked and changed
        q = m.copy()
        try:
            q.jac(W['H'])
            q.F1(o['a'] % L, (o['a'] // 3) % L, W['H'], id='A')
        except Exception:
            pass
        q.data[0][...] = 0
    elif k == 'H':
        W['H'] = build.ham(dict(kind='random', seed=o['seed'], L=L, d=d))
    elif k == 'H1':                         # a term of the Hamiltonian changed in place
        if L > 1:
            W['H'][o['a'] % (L - 1)][...] = build.herm(r, d * d)
    if hasattr(W['m'], 'old_vL') and any(v.shape[:2] != A.shape[:2] or v.shape[2] != max(0, d * A.shape[1] - A.shape[2]) for v, A in zip(W['m'].old_vL, W['m'].data)):
        del W['m'].old_vL


def aborted(o, f, ctx):
    """run f and abort it at a line; f is idempotent for the judged object"""
    exc = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, LinAlgError=np.linalg.LinAlgError)[o['exc']]
    a = trace.Abort(1 + int(o['abort'] * 400 ** o['abort']), exc('injected'))
    try:
        with a:
            f()
    except BaseException as e:
        if not a.fired and not isinstance(e, Exception):
            raise
    if a.fired:
        ctx.fault('abort-' + o['exc'])


def free(m, As, o, ctx, H, W):
    """a chain in no particular gauge: the answers of a fresh object"""
    from xmps.fMPS import fMPS
    L = len(As)
    i, q = o['i'] % L, FREE[o['seed'] % len(FREE)]
    l, r = Dense(As, H).l, Dense(As, H).r
    for n in range(L):
        for x in (l(n), r(n)):
            w = np.linalg.eigvalsh(x)
            if w[0] < 1e-4 * w[-1]:
                ctx.stats['out-of-domain'] += 1
                return False

    def ask(x):
        if q == 'lnp':
            return [x.left_null_projector(i)]
        if q == 'lnpv':
            return list(x.left_null_projector(i, get_vL=True))[:1]
        if q == 'rnp':
            return [x.right_null_projector(i)]
        if q == 'rnpv':
            return list(x.right_null_projector(i, get_vR=True))[:1]
        if q == 'envs':
            l, r = x.get_envs()
            return [l(n) for n in range(-1, L)] + [r(n) for n in range(-1, L)]
        if q == 'energy':
            return [x.energy(H)]
        if q == 'dA':
            return x.dA_dt(H).data
        return [np.array(x.tangent_space_dims())]
    try:
        want = [np.array(y) for y in ask(fMPS([np.array(A) for A in As]))]
    except Exception:
        ctx.stats['refused'] += 1
        return False
    got = [np.array(y) for y in ask(m)]
    need(len(got) == len(want) and all(near(a, b) for a, b in zip(got, want)), 'history:' + q, 'site %d of a chain in no gauge: %s instead of %s for a fresh object' % (i, [np.ravel(a)[:4] for a in got][:2], [np.ravel(a)[:4] for a in want][:2]))
    if q in ('energy', 'dA'):                # these may set the gauge
        return True
    need(all(np.array_equal(a, b) for a, b in zip(m.data, As)), 'changed:' + q, 'a question changed the state')
    ctx.probe('asked a chain in no gauge')
    return True


def question(W, o, ctx, case):
    from xmps.fMPS import fMPS
    m, q, H = W['m'], o['op'], W['H']
    L, d = len(m.data), m.data[0].shape[0]
    i, j, k = o['i'] % L, o['j'] % L, o['k'] % L
    As = [np.array(x) for x in m.data]
    ref = Dense(As, H)
    if not ref.ok():
        return free(m, As, o, ctx, H, W)
    if any(A.shape[0] * A.shape[1] < A.shape[2] for A in As):
        return False
    fresh = lambda: fMPS([np.array(x) for x in As])

    def pvs(x):
        l, _ = x.get_envs()
        return [x.left_null_projector(n, l, get_vL=True) for n in range(L)]
    # one identifier, one evaluation: the null spaces stay with it
    id = o['id']
    if id is not None:
        id = '%s%d' % (id, W['ver'])
        if id not in W['ids']:
            W['ids'][id] = pvs(fresh())
        pv = W['ids'][id]
    else:
        pv = pvs(fresh())
        if o['fix']:                           # another basis of the same null spaces
            rr = build.rng(o['seed'])
            vL = [x[1] @ build.unitary(rr, x[1].shape[2]) if x[1].shape[2] else x[1] for x in pv]
            pv = [(x[0], v) for x, v in zip(pv, vL)]
    ref.vLs = [x[1] for x in pv]
    need(all(np.abs(np.einsum('sab,ac,scd->bd', v.conj(), ref.half(ref.l(n - 1)), As[n])).max() < 1e-7 for n, v in enumerate(ref.vLs) if v.size), 'null-space', 'the null space of a site is not orthogonal to its tensor')

    def ask(x, id=None):
        """the answer in a form that does not depend on the choice of null spaces"""
        if q in ('F1', 'F2'):
            return [getattr(x, q)(i, j, H, prs_vLs=pv, id=id)]
        if q in ('F1t', 'F2t'):
            return [getattr(x, q[:2])(i, j, H, testing=True, id=id)]
        if q == 'chr':
            return [x.christoffel(i, j, k, prs_vLs=pv, id=id)]
        if q == 'chrc':
            l, r = x.get_envs()
            n = min(i, j)
            return [x.christoffel(i, j, n, prs_vLs=pv, id=id, closed=(None, None, l(n - 1) @ build.crandn(build.rng(5), As[n].shape) @ r(n)))]
        if q == 'jac':
            J = x.jac(H)
            return [J] if hasattr(x, 'new_vL') else [J]
        if q == 'jacc':
            return list(x.jac(H, real_matrix=False))
        if q == 'jacf':
            up, down = x.jac(H, as_matrix=False)
            return [up(i, j), down(i, j), up(j, i), down(j, i)]
        if q == 'dA':
            return x.dA_dt(H).data
        if q == 'dAf':
            return x.dA_dt(build.full_h(H, d), fullH=True).data
        if q == 'ddA':
            n = sum(a * b for a, b in x.tangent_space_dims())
            v = build.crandn(build.rng(o['seed']), n)
            w = x.import_tangent_vector(v)
            return [x.import_tangent_vector(x.ddA_dt(v, H))[s] for s in range(L)] + w.data
        if q == 'perr':
            return [np.float64(x.projection_error(H, .01))]
        if q == 'dims':
            return [np.array(x.tangent_space_dims()), x.tangent_space_basis('eye')]
        if q == 'lnp':
            return [x.left_null_projector(i)]
        if q == 'impext':
            n = sum(a * b for a, b in x.tangent_space_dims())
            v = build.crandn(build.rng(o['seed']), n)
            need(near(x.extract_tangent_vector(x.import_tangent_vector(v)), v), 'tangent-vector', 'a tangent vector imported and extracted is another')
            B = build.crandn(build.rng(o['seed']), sum(A.size for A in As))
            out, p = [], 0
            for A in As:
                out.append(B[p:p + A.size].reshape(A.shape))
                p += A.size
            return x.import_tangent_vector(x.extract_tangent_vector(fMPS(out))).data
        if q == 'tstate':
            n = ref.sites()
            n = n[i % len(n)]
            y = build.crandn(build.rng(o['seed']), (pv[n][1].shape[2], As[n].shape[2]))
            return x.tangent_state(y, n, vL=pv[n][1]).data
        if q == 'energy':
            return [x.energy(H)]
        if q == 'sweep':                       # one evaluation over many pairs under one identifier
            out = []
            u = id if id is not None else 'S%d-%d' % (o['seed'], W['ver'])
            ss = build.rng(o['seed']).permutation(L)[:4]
            for a in ss:
                for b in ss:
                    out.append(x.F1(a, b, H, prs_vLs=pv, id=u))
                    out.append(x.F2(a, b, H, prs_vLs=pv, id=u))
            return out
    if q in ('dims', 'impext', 'tstate', 'ddA', 'jac', 'jacc', 'jacf') and not ref.sites():
        return False
    if L > 8 and q not in ('F1', 'F2', 'chr', 'chrc', 'dA', 'lnp'):
        return False
    if q == 'F1t' and i != j and False:
        return False
    x = fresh()
    if hasattr(m, 'old_vL') and q in ('jac', 'jacc', 'jacf', 'ddA'):
        x.old_vL = [np.array(v) for v in m.old_vL]
    try:
        want = [np.array(y) for y in ask(x)]
    except Violation:
        raise
    except Exception as e:
        want = e
    hH = [np.array(h) for h in H]
    if 'abort' in o:
        aborted(o, lambda: ask(m, id), ctx)
        need(all(np.array_equal(a, b) for a, b in zip(m.data, As)) and all(np.array_equal(a, b) for a, b in zip(H, hH)), 'changed-by-abort:' + q, 'an aborted question changed the state or the Hamiltonian')
    try:
        got = [np.array(y) for y in ask(m, id)]
    except Violation:
        raise
    except Exception as e:
        if isinstance(want, Exception):
            ctx.stats['refused'] += 1
            return False
        raise Violation('unexpected-error:%s:%s' % (q, type(e).__name__), 'a fresh object answers; ' + tb_text(e))
    need(all(np.array_equal(a, b) for a, b in zip(m.data, As)) and all(np.array_equal(a, b) for a, b in zip(H, hH)), 'changed:' + q, 'a question changed the state or the Hamiltonian')
    if isinstance(want, Exception):
        raise Violation('fresh-error:%s:%s' % (q, type(want).__name__), 'the fresh object fails where the used one answers: %r' % want)
    for y in got:
        ctx.data(q, np.round(y, 6))
    gx = getattr(m, 'new_vL', None) if q in ('jac', 'jacc') else None
    if q in ('jac', 'jacc') and not all(np.array_equal(a, b) for a, b in zip(m.new_vL, x.new_vL)):
        pass                                   # another basis: judged against the dense values below
    else:
        need(len(got) == len(want) and all(near(a, b) for a, b in zip(got, want)), 'history:' + q, 'sites %d %d %d: %s instead of %s for a fresh object' % (i, j, k, [np.ravel(a)[:4] for a in got][:2], [np.ravel(a)[:4] for a in want][:2]))
    # the values themselves
    if q == 'F1':
        need(near(got[0], ref.F1(i, j)), 'value:F1', 'F1(%d, %d) is not the matrix element of the Hamiltonian between the tangent vectors' % (i, j))
    if q == 'F2':
        need(near(got[0], ref.F2(i, j)), 'value:F2', 'F2(%d, %d) is not the overlap of the Hamiltonian with the second derivative' % (i, j))
    if q in ('jac', 'jacc') and L <= 6:
        ref.vLs, ref.mem = [np.array(v) for v in m.new_vL], {}
        J1, J2 = ref.jac()
        if q == 'jacc':
            need(near(got[0], J1) and near(got[1] + got[2], J2), 'value:jac', 'the Jacobian is not the linearised evolution')
        else:
            J = np.block([[J1.real + J2.real, -J1.imag + J2.imag], [J1.imag + J2.imag, J1.real - J2.real]])
            need(near(got[0], J), 'value:jac', 'the real Jacobian is not the linearised evolution')
        if hasattr(m, 'old_vL') and q == 'jac':
            for n in ref.sites():
                S = np.einsum('sab,sac->bc', m.old_vL[n].conj(), m.new_vL[n])
                if np.linalg.svd(S, compute_uv=False).min() > 1e-3:
                    need(np.abs(S - S.conj().T).max() < 1e-6 and np.linalg.eigvalsh(S).min() > 0, 'frame', 'the frame of site %d does not follow the previous one' % n)
    if q in ('dA', 'dAf') and L <= 8:
        s = sum(ref.rep({n: B}) for n, B in enumerate(got))
        P = np.concatenate([ref.T(n)[1] for n in ref.sites()]) if ref.sites() else np.zeros((0, ref.v.size))
        w = -1j * P.T @ (P.conj() @ ref.Hv.reshape(-1))
        need(near(s, w), 'value:' + q, 'the time derivative is not the projected one')
    if q == 'ddA' and L <= 6 and not hasattr(m, 'old_vL'):
        J1, J2 = ref.jac()
        v = np.concatenate([ (np.einsum('sab,ac,scd->bd', ref.vLs[n].conj(), ref.half(ref.l(n - 1)), got[L + n]) @ ref.half(ref.r(n))).reshape(-1) for n in ref.sites()])
        y = np.concatenate([(np.einsum('sab,ac,scd->bd', ref.vLs[n].conj(), ref.half(ref.l(n - 1)), got[n]) @ ref.half(ref.r(n))).reshape(-1) for n in ref.sites()])
        need(near(y, J1 @ v + J2 @ v.conj()), 'value:ddA', 'the derivative of a tangent vector is not that of the linearised evolution')
    return True
