"""C15: a Hamiltonian stands for one operator, whatever was asked of it before."""
import numpy as np
from functools import reduce
from .. import build, trace
from ..core import Violation, tb_text

RUNS = dict(quick=6000, thorough=150000)
TIMEOUT = 60
RULE = ('one run = 4-30 operations of clients sharing term lists, local matrices and Hamiltonians made from them: bond matrix, local matrices, matrix product operator and full matrix for chains of 2-6 sites in any order, '
        'decomposition of a matrix into terms, changes of a coefficient, edits of matrices handed out, energies of chains; some operations are aborted at a chosen executed line and put again. '
        'Every answer is compared with the sum of Pauli products; term lists and matrices of the callers are compared after every operation. Non-trivial: three judged answers. Distinct: by the full case.')
STATES = 'distinct (operation, previous operation on the same Hamiltonian, length, fields on single sites or not, outcome) combinations'
COMPONENTS = dict(real=['xmps.Hamiltonians, xmps.spin, xmps.fMPS (energies)'], simulated=['order of the questions of the clients', 'aborts at chosen executed lines'], stub=[])
ASSUMPTIONS = ['fields act alike from both sides of a bond (terms X, or IX and XI with the same coefficient), as the class documents', 'coefficients are not below the threshold at which terms are dropped']
LEVEL = 'fault_enumeration'
LINES = True
P = dict(I=np.eye(2) + 0j, X=build.X + 0j, Y=np.array([[0, -1j], [1j, 0]]), Z=build.Z + 0j)
OPS = ['new', 'new', 'mat', 'mats', 'mats', 'mpo', 'mpo', 'full', 'full', 'full', 'poke', 'coef', 'from', 'withm', 'str', 'energy', 'twin']
EXC = [KeyboardInterrupt, MemoryError]


def terms(r):
    t = {}
    for k in r.sample(['XX', 'YY', 'ZZ'], r.randint(0, 3)):
        t[k] = round(r.uniform(-2, 2), 3) or 1.
    if r.random() < .3:
        t[r.choice(['XY', 'YX', 'XZ', 'ZY'])] = round(r.uniform(.1, 2), 3)
    for k in r.sample('XYZ', r.randint(0, 3)):
        v = round(r.uniform(.05, 2), 3) * r.choice([1, -1])
        if r.random() < .6:
            t[k] = v
        else:
            t['I' + k] = t[k + 'I'] = v
    if not t:
        t['ZZ'] = 1
    ks = list(t)
    r.shuffle(ks)
    return [[k, t[k]] for k in ks]


def gen(r, tier, k):
    n = r.randint(4, 30 if tier == 'thorough' else 20)
    ops = []
    for i in range(n):
        o = dict(op=r.choice(OPS), s=r.randrange(6), j=r.randrange(6), L=r.choice([2, 2, 3, 3, 4, 4, 5, 6]), k=r.randrange(1000), seed=r.randrange(10 ** 6))
        if r.random() < .15:
            o['f'] = dict(n=int(10 ** r.uniform(0, 2)), x=r.randrange(2))
        ops.append(o)
    return dict(terms=[terms(r) for _ in range(r.randint(1, 3))], ops=ops, params={})


def simplify(case):
    import json
    for i, o in enumerate(case['ops']):
        if 'f' in o:
            c = json.loads(json.dumps(case))
            del c['ops'][i]['f']
            yield c
        if o['L'] > 2:
            c = json.loads(json.dumps(case))
            c['ops'][i]['L'] -= 1
            yield c
    for i, t in enumerate(case['terms']):
        for j in range(len(t)):
            if len(t) > 1:
                c = json.loads(json.dumps(case))
                c['terms'][i].pop(j)
                yield c


def need(ok, cls, msg=''):
    if not ok:
        raise Violation(cls, msg)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=0, atol=tol * max(1, np.abs(b).max() if b.size else 1)))


def kron(*ms):
    return reduce(np.kron, ms)


class Model:
    """terms by name of two-site product; fields once per site"""
    def __init__(self, t):
        self.two = {k: v for k, v in t if len(k) == 2 and 'I' not in k}
        self.one = {}
        for k, v in t:
            if len(k) == 1 or 'I' in k:
                self.one[k.strip('I')] = v

    def bond(self):
        h = np.zeros((4, 4), complex)
        for k, v in self.two.items():
            h += v * kron(P[k[0]], P[k[1]])
        for k, v in self.one.items():
            h += v * (kron(P['I'], P[k]) + kron(P[k], P['I']))
        return h

    def full(self, L):
        H = np.zeros((2 ** L, 2 ** L), complex)
        I = lambda n: np.eye(2 ** n)
        for i in range(L - 1):
            for k, v in self.two.items():
                H += v * kron(I(i), P[k[0]], P[k[1]], I(L - 2 - i))
        for i in range(L):
            for k, v in self.one.items():
                H += v * kron(I(i), P[k], I(L - 1 - i))
        return H

    def has_mpo(self):
        return all(k[0] == k[1] for k in self.two)


def together(ms, L, d=2):
    k = int(round(np.log(len(ms[0])) / np.log(d)))
    return sum(kron(np.eye(d ** i), m, np.eye(d ** (L - k - i))) for i, m in enumerate(ms))


def mpo(Ws):
    """the operator of a list of tensors (left, right, up, down), first row to last column"""
    T = np.asarray(Ws[0])[0]
    for W in Ws[1:]:
        T = np.einsum('aij,abkl->bikjl', T, np.asarray(W))
        T = T.reshape(T.shape[0], T.shape[1] * T.shape[2], -1)
    return T[-1]


class Slot:
    def __init__(self, H, model, mats=None):
        self.H, self.model, self.mats, self.prev, self.hand = H, model, mats, None, []


def run(case, ctx):
    from xmps.Hamiltonians import Hamiltonian
    # fields act alike from both sides, also in a shortened case
    case = dict(case, terms=[t + [[k[::-1], v] for k, v in t if 'I' in k and len(k) == 2 and k[::-1] not in dict(map(tuple, t))] for t in case['terms']])
    dicts = [dict(map(tuple, t)) for t in case['terms']]
    saved = [list(d.items()) for d in dicts]
    lists = []                 # matrices given by callers, and copies
    slots = [Slot(ctx.call('Hamiltonian', Hamiltonian, dicts[0]), Model(case['terms'][0]))]
    judged = 0
    for o in case['ops']:
        S = slots[o['s'] % len(slots)]
        H, M, k, L = S.H, S.model, o['op'], min(max(o['L'], 2), 6)
        rr = build.rng(o['seed'])
        fn = check = None
        lone = M is not None and S.mats is None
        if k in ('new', 'twin'):
            j = o['j'] % len(dicts)

            def fn():
                return Hamiltonian(dicts[j])

            def check(N):
                if len(slots) < 8:
                    slots.append(Slot(N, Model(case['terms'][j])))
        elif k == 'mat' and lone:
            fn = H.to_matrix

            def check(h):
                need(near(h, M.bond()), 'bond-matrix-wrong', '%.2e' % np.abs(np.asarray(h) - M.bond()).max())
                S.hand.append(h)
        elif k == 'mats' and lone:
            fn = lambda: H.to_matrices(L)

            def check(hs):
                need(len(hs) == L - 1 and all(np.shape(h) == (4, 4) for h in hs), 'local-matrices-wrong', '%s for %d sites' % ([np.shape(h) for h in hs], L))
                need(near(together(hs, L), M.full(L)), 'local-matrices-wrong', 'sum for %d sites is %.2e off' % (L, np.abs(together(hs, L) - M.full(L)).max()))
                S.hand += list(hs)
        elif k == 'mpo' and lone:
            fn = lambda: H.to_mpo(L)

            def check(Ws):
                need(len(Ws) == L and near(mpo(Ws), M.full(L)), 'mpo-wrong', 'for %d sites' % L)
                S.hand += list(Ws)
        elif k == 'full':
            if S.mats is not None:
                ms, d = S.mats
                n = len(ms) + int(round(np.log(len(ms[0])) / np.log(d))) - 1
                fn = (lambda: H.to_full(L)) if o['k'] % 2 else H.to_full

                def check(F):
                    need(near(F, together(ms, n, d)), 'full-matrix-wrong', 'of %d matrices' % len(ms))
                    S.hand.append(F)
            else:
                fn = lambda: H.to_full(L)

                def check(F):
                    need(np.shape(F) == (2 ** L, 2 ** L) and near(F, M.full(L)), 'full-matrix-wrong', '%s for %d sites' % (np.shape(F), L))
                    S.hand.append(F)
        elif k == 'energy' and lone:
            from xmps.fMPS import fMPS
            L = min(L, 5)
            As = build.tensors(dict(kind='std', L=L, d=2, D=2, seed=o['seed'], real=False))
            v = build.vec(As)
            v = v / np.linalg.norm(v)

            def fn():
                m = fMPS([np.array(A) for A in As]).left_canonicalise()
                return m.energy(H.to_matrices(L)), m.E_L(H.to_full(L))

            def check(e):
                w = np.vdot(v, M.full(L) @ v).real
                need(near(np.ravel(e[0])[0] * L, w, 1e-7) and near(np.ravel(e[1])[0], w, 1e-7), 'energy-wrong', '%s for %s' % (e, w))
        elif k == 'coef' and lone:
            # a client changes a coefficient of its own Hamiltonian
            key = sorted(H.strings)[o['k'] % len(H.strings)]
            v = round(float(rr.uniform(.1, 2)), 3)
            M2 = Model(list(M.two.items()) + list(M.one.items()))
            if 'I' in key:
                if H.strings.get(key[::-1]) is None:
                    continue
                H.strings[key] = H.strings[key[::-1]] = v
                M2.one[key.strip('I')] = v
            else:
                H.strings[key] = v
                M2.two[key] = v
            S.model = M2
        elif k == 'from':
            # terms of a matrix: fields alike on both sites
            W = Model([[a + b, round(float(rr.randn()), 3) + .05] for a in 'XYZ' for b in 'XYZ' if rr.rand() < .4] + [[a, round(float(rr.randn()), 3) + .05] for a in 'XYZ' if rr.rand() < .6])
            h = W.bond() + (o['k'] % 3) * np.eye(4)
            h0 = np.array(h)
            N = H if lone and o['k'] % 2 else None

            def fn():
                return (N if N is not None else Hamiltonian()).from_matrix(h)

            def check(G):
                need(np.array_equal(h, h0), 'input-changed', 'from_matrix')
                got = {a: b for a, b in G.strings.items() if abs(b) > 1e-9}
                want = {a: b for a, b in W.two.items() if abs(b) > 1e-9}
                for a, b in W.one.items():
                    want['I' + a] = want[a + 'I'] = b
                need(got.keys() == {a for a in want if abs(want[a]) > 1e-9} and all(abs(got[a] - want[a]) < 1e-9 for a in got), 'decomposition-wrong', '%s for %s' % (got, want))
                if N is not None:
                    S.model = W
                elif len(slots) < 8:
                    slots.append(Slot(G, W))
        elif k == 'withm':
            d = [2, 2, 3][o['k'] % 3]
            kk = 2 if d == 3 else [1, 2, 2, 3][o['k'] % 4]
            ms = [build.herm(rr, d ** kk) for _ in range([1, 2, 3][o['j'] % 3])]
            lists.append((ms, [np.array(m) for m in ms]))

            def fn():
                return Hamiltonian(matrices=ms, d=d)

            def check(G):
                need(G.k == kk and G.L == len(ms) + kk - 1 and G.has_matrices and not G.has_strings, 'length-wrong', '%s %s' % (G.k, G.L))
                if len(slots) < 8:
                    slots.append(Slot(G, None, (ms, d)))
        elif k == 'str' and lone:
            fn = H.__str__

            def check(s):
                need(s == str(H.strings), 'text-wrong')
        elif k == 'poke':
            # matrices handed out are the client's to change
            for h in S.hand:
                if isinstance(h, np.ndarray) and h.flags.writeable:
                    h[...] = 7
            S.hand = []
        if fn is None:
            S.prev = k
            ctx.ev(k)
            continue
        odd = [a for a in H.strings if 'I' not in a and a[0] != a[1]] if k == 'mpo' else []
        refuse, must = bool(odd), any(abs(H.strings[a]) > 1e-12 for a in odd)
        mine = dict(H.strings) if lone else None
        ab, err, res = None, None, None
        if o.get('f'):
            exc = EXC[o['f']['x']]('injected')
            ab = trace.Abort(o['f']['n'], exc)
            try:
                with ab:
                    res = fn()
            except BaseException as e:
                err = e
                if not ab.fired and not isinstance(e, Exception):
                    raise
            if ab.fired:
                ctx.fault('abort:' + type(exc).__name__)
                if k != 'from' and lone:
                    need(dict(H.strings) == mine, 'aborted-question-changed-terms', k)
                if not (k == 'from' and N is not None):
                    err = None
                    try:                   # put again
                        res = fn()
                    except Exception as e:
                        err = e
                else:
                    try:
                        err, res = None, fn()
                    except Exception as e:
                        err = e
        else:
            try:
                res = fn()
            except Exception as e:
                err = e
        ctx.stats['op:' + k] += 1
        ctx.steps()
        if err is not None:
            if not (refuse and isinstance(err, NotImplementedError)):
                raise Violation('unexpected-error:%s:%s' % (k, type(err).__name__), tb_text(err))
        else:
            need(not must, 'refusal-forgotten', 'an operator for terms it cannot hold')
            check(res)
            judged += 1
        if lone and k != 'from':
            need(dict(H.strings) == mine, 'question-changed-terms', k)
        for d, s in zip(dicts, saved):
            need(list(d.items()) == s, 'input-changed', '%s: terms %s were %s' % (k, list(d.items()), s))
        for ms, c in lists:
            need(len(ms) == len(c) and all(np.array_equal(a, b) for a, b in zip(ms, c)), 'input-changed', '%s: matrices' % k)
        ctx.ev(k, L, type(err).__name__ if err is not None else 'ok')
        ctx.state((k, S.prev, L, bool(M and M.one), err is None))
        S.prev = k
    ctx.nontrivial = judged >= 3
