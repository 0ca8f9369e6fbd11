"""Interpreter of client programs on a pool of finite chains, each judged against a dense state vector.

Every operation is a dict {op, c (client), s (slot), i, j, k, D, seed, flags...}; site numbers are taken modulo
what the state allows, so that any sub-list of a program is a program."""
import numpy as np
from . import build
from .core import Violation, Discard

TOL = 2e-6


class Slot:
    def __init__(self, obj, v, d, tfd=False):
        self.obj, self.d, self.tfd = obj, d, tfd
        self.v = v / np.linalg.norm(v)
        self.maxdim = v.size

    @property
    def L(self):
        return self.v.ndim


class Skip(Exception):
    """the operation does not apply to the slot"""


class World:
    def __init__(self, ctx, exact=False):
        self.ctx, self.exact = ctx, exact
        self.slots = []
        self.inputs = []          # (label, array, copy): things handed to the library, never to change
        self.lists = []           # lists of them
        self.wrap = None          # fn(label, thunk) used by fault-injecting checks

    # ------------------------------------------------------------ helpers
    def give(self, label, a):
        """hand an array (or list of arrays) to the library; it must come back as it was"""
        for x in (a if isinstance(a, list) else [a]):
            self.inputs.append((label, x, np.array(x)))
        if isinstance(a, list):
            self.lists.append((label, a, list(a)))
            self.lists = self.lists[-20:]
        if len(self.inputs) > 60:
            self.inputs = self.inputs[-60:]
        return a

    def check_inputs(self):
        for label, a, b in self.inputs:
            if a.shape != b.shape or not np.array_equal(a, b):
                raise Violation('input-changed:' + label, 'an array passed to the library was modified')
        for label, a, b in self.lists:
            if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
                raise Violation('input-changed:' + label, 'a list passed to the library was modified')

    def actual(self, s):
        return build.psi(s.obj.data, s.d)

    def need(self, ok):
        if not ok:
            raise Skip()

    def check_state(self, s, label):
        try:
            w = build.vec(s.obj.data)
        except Exception as e:
            raise Violation('broken-tensors:' + label, repr(e))
        dist = build.rayclose(w, s.v)
        if not dist < TOL:
            raise Violation('state-changed:' + label, 'distance %.3g from the expected state, shapes %s' % (dist, [a.shape for a in s.obj.data]))

    def value(self, label, got, want, scale=1.0):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape and got.size != want.size:
            raise Violation('wrong-shape:' + label, '%s instead of %s' % (got.shape, want.shape))
        err = np.abs(got.reshape(-1) - want.reshape(-1)).max() if got.size else 0
        if not err <= TOL * max(1.0, scale, np.abs(want).max() if want.size else 0):
            raise Violation('wrong-value:' + label, 'got %s, expected %s' % (np.array2string(got.reshape(-1)[:6], precision=8), np.array2string(want.reshape(-1)[:6], precision=8)))


def new_obj(spec):
    """build a state from a spec; returns (obj, dense tensor, d, tfd)"""
    from xmps.fMPS import fMPS, fTFD
    k = spec['kind']
    if k == 'tfd':
        A = build.tensors(dict(spec, kind='std', L=min(spec['L'], 4), d=2, D=min(spec['D'], 2)))
        m = fTFD().from_fMPS(fMPS(A))
        return m, build.psi([np.kron(a, a) for a in A], 4), 4, True
    if k == 'tfdmix':
        A = build.tensors(dict(spec, kind='std', L=min(spec['L'], 3), d=4, D=min(spec['D'], 4)))
        return fTFD(A), build.psi(A, 4), 4, True
    if k in ('left_from_state', 'right_from_state'):
        L = min(spec['L'], 6 if spec['d'] == 2 else 4)
        v = build.crandn(build.rng(spec['seed']), [spec['d']] * L, spec['real'])
        m = getattr(fMPS(), k)(v.copy())
        return m, v, spec['d'], False
    if k == 'random':
        L = min(spec['L'], 6 if spec['d'] == 2 else 4)
        np.random.seed(spec['seed'])
        m = fMPS().random(L, spec['d'], max(2, spec['D']), real=spec['real'])
        return m, build.psi(m.data, spec['d']), spec['d'], False
    L = max(2, min(spec['L'], 7 if spec['d'] == 2 else 4))
    A = build.tensors(dict(spec, L=L))
    return fMPS(A), build.psi([a.copy() for a in A], spec['d']), spec['d'], False


def gen_spec(r, tfd=True, small=False):
    kind = r.choice(['std', 'std', 'std', 'irr', 'irr', 'product', 'ghz', 'clifford', 'rankdef', 'padded', 'basis', 'left_from_state',
                     'right_from_state', 'random'] + (['tfd', 'tfdmix'] if tfd else []))
    d = r.choice([2, 2, 2, 3])
    L = r.choice([2, 3, 4, 4, 5, 6, 7]) if d == 2 else r.choice([2, 3, 4])
    if small:
        L = min(L, 4)
    return dict(kind=kind, L=L, d=d, D=r.choice([1, 2, 2, 3, 4, 6]) if kind not in ('rankdef',) else r.choice([2, 3, 4]),
                real=r.random() < .25, seed=r.randrange(10 ** 6), unit=r.random() < .75)


# ---------------------------------------------------------------- canonical forms
def check_form(W, s, label, left, right, physical=False):
    """orthonormality of the tensors; physical: only judged on bond directions the state has weight on"""
    As = s.obj.data
    Rs = Ls = None
    if physical:
        Rs, Ls = [np.ones((1, 1))], [np.ones((1, 1))]
        for A in reversed(As):
            Rs.append(np.einsum('sab,bc,sdc->ad', A, Rs[-1], A.conj()))
        Rs = Rs[::-1]
        for A in As:
            Ls.append(np.einsum('sab,ac,scd->bd', A.conj(), Ls[-1], A))

    def weighted(G, e):
        w, v = np.linalg.eigh((e + e.conj().T) / 2)
        v = v[:, w > 1e-12 * max(w.max(), 1e-300)]
        return np.abs(v.conj().T @ G @ v).max()
    for n in left:
        A = As[n]
        G = np.einsum('sab,sac->bc', A.conj(), A) - np.eye(A.shape[2])
        e = np.abs(G).max()
        if e > 1e-7 and physical:
            W.ctx.probe('rank-deficient-form')
            e = weighted(G, Rs[n + 1])
        if not e < 1e-7:
            raise Violation('wrong-form:' + label, 'site %d is not left orthonormal (%.3g)' % (n, e))
    for n in right:
        A = As[n]
        G = np.einsum('sab,scb->ac', A, A.conj()) - np.eye(A.shape[1])
        e = np.abs(G).max()
        if e > 1e-7 and physical:
            W.ctx.probe('rank-deficient-form')
            e = weighted(G, Ls[n])
        if not e < 1e-7:
            raise Violation('wrong-form:' + label, 'site %d is not right orthonormal (%.3g)' % (n, e))


def check_schmidt(W, s, label, v=None):
    v = s.v if v is None else v
    Ls = s.obj.Ls
    if len(Ls) != s.L + 1:
        raise Violation('wrong-schmidt:' + label, '%d spectra' % len(Ls))
    for n in range(s.L + 1):
        M = np.asarray(Ls[n])
        got = np.sort(np.real(np.diag(M)))[::-1]
        if np.abs(M - np.diag(np.diag(M))).max() > 1e-7:
            raise Violation('wrong-schmidt:' + label, 'bond %d: not diagonal' % n)
        want = np.sort(build.schmidt(v, n))[::-1] if 0 < n < s.L else np.ones(1)
        k = max(len(got), len(want))
        g, w = np.zeros(k), np.zeros(k)
        g[:len(got)], w[:len(want)] = got, want
        if not np.abs(g - w).max() < 1e-6:
            raise Violation('wrong-schmidt:' + label, 'bond %d: %s, expected %s' % (n, g[:6], w[:6]))


def check_envs(W, s, label, which):
    """the free side of a canonical form carries the diagonal Schmidt weights"""
    e = np.ones((1, 1))
    As = s.obj.data
    if which == 'r':
        for n in range(s.L):
            e = np.einsum('sab,ac,scd->bd', As[n].conj(), e, As[n])
            if not np.abs(e - s.obj.Ls[n + 1]).max() < 1e-6:
                raise Violation('wrong-schmidt:' + label, 'left environment of bond %d is not the stored spectrum' % (n + 1))
    else:
        for n in reversed(range(s.L)):
            e = np.einsum('sab,bc,sdc->ad', As[n], e, As[n].conj())
            if not np.abs(e - s.obj.Ls[n]).max() < 1e-6:
                raise Violation('wrong-schmidt:' + label, 'right environment of bond %d is not the stored spectrum' % n)


# ---------------------------------------------------------------- operations
# each returns (thunk, check(result)) ; check updates the model
OPS, READ = {}, set()


def op(name, read=False):
    def deco(f):
        OPS[name] = f
        if read:
            READ.add(name)
        return f
    return deco


def exact_bond(s):
    return max([1] + [min(s.d ** n, s.d ** (s.L - n)) for n in range(1, s.L)])


@op('rcan')
def _(W, o, s):
    return _can(W, o, s, 'right_canonicalise', 'r')


@op('lcan')
def _(W, o, s):
    return _can(W, o, s, 'left_canonicalise', 'l')


def _can(W, o, s, name, side):
    kw = {}
    f = o['k'] % 8
    if f == 1:
        kw['D'] = max(exact_bond(s), s.obj.bond_dimension)
    if f == 2:
        kw['minD'] = False
    if f == 3:
        kw['sweep_back'] = False
    if f == 4:
        kw['testing'] = True

    def check(res):
        if res is not s.obj:
            raise Violation('wrong-result:' + name, 'did not return the chain itself')
        check_form(W, s, name, range(s.L) if side == 'l' else [], range(s.L) if side == 'r' else [], physical=True)
        W.check_state(s, name)
        if kw.get('minD', True) and kw.get('sweep_back', True):
            check_schmidt(W, s, name)
            check_envs(W, s, name, side)
    return (lambda: getattr(s.obj, name)(**kw)), check


@op('mcan')
def _(W, o, s):
    oc = o['i'] % s.L
    kw = dict(sweep_back=False) if o['k'] % 4 == 1 else dict(testing=True) if o['k'] % 4 == 2 else {}

    def check(res):
        check_form(W, s, 'mixed_canonicalise', range(oc), range(oc + 1, s.L))
        if abs(np.linalg.norm(s.obj.data[oc]) - 1) > 1e-7:
            raise Violation('wrong-form:mixed_canonicalise', 'centre has norm %r' % np.linalg.norm(s.obj.data[oc]))
    return (lambda: s.obj.mixed_canonicalise(oc, **kw)), check


@op('trunc')
def _(W, o, s):
    """canonicalise with a bond limit, from the opposite canonical form"""
    D = 1 + o['D'] % 4
    side = 'r' if o['k'] % 2 else 'l'
    disc = 0
    for n in range(1, s.L):
        w = np.sort(build.schmidt(s.v, n))[::-1]
        disc += w[D:].sum()

    def thunk():
        if side == 'r':
            s.obj.left_canonicalise()
            return s.obj.right_canonicalise(D)
        s.obj.right_canonicalise()
        return s.obj.left_canonicalise(D)

    def check(res):
        if s.obj.bond_dimension > D:
            raise Violation('bond-limit:trunc', '%d > %d' % (s.obj.bond_dimension, D))
        w = W.actual(s)
        dist = build.rayclose(w, s.v)
        W.ctx.probe('truncated' if disc > 1e-9 else 'bond-limit-not-binding')
        if not dist ** 2 <= 8 * disc + TOL ** 2:
            raise Violation('truncation-loses-more:trunc', 'squared distance %.3g, discarded weight %.3g' % (dist ** 2, disc))
        s.v = w / np.linalg.norm(w)
        check_form(W, s, 'trunc', range(s.L) if side == 'l' else [], range(s.L) if side == 'r' else [], physical=True)
        check_schmidt(W, s, 'trunc')
    return thunk, check


@op('rorth')
def _(W, o, s):
    fr, to = 0, s.L
    if o['k'] % 3 == 1:
        fr, to = sorted([o['i'] % (s.L + 1), o['j'] % (s.L + 1)])

    def check(res):
        check_form(W, s, 'right_orthogonalise', [], range(fr, to))
    return (lambda: s.obj.right_orthogonalise(fr, to) if o['k'] % 3 == 1 else s.obj.right_orthogonalise()), check


@op('lorth')
def _(W, o, s):
    fr, to = 0, s.L
    if o['k'] % 3 == 1:
        fr, to = sorted([o['i'] % (s.L + 1), o['j'] % (s.L + 1)])

    def check(res):
        check_form(W, s, 'left_orthogonalise', range(fr, to), [])
    return (lambda: s.obj.left_orthogonalise(fr, to) if o['k'] % 3 == 1 else s.obj.left_orthogonalise()), check


@op('morth')
def _(W, o, s):
    oc = o['i'] % s.L

    def check(res):
        check_form(W, s, 'mixed_orthogonalise', range(oc), range(oc + 1, s.L))
        if abs(np.linalg.norm(s.obj.data[oc]) - 1) > 1e-7:
            raise Violation('wrong-form:mixed_orthogonalise', 'centre has norm %r' % np.linalg.norm(s.obj.data[oc]))
    return (lambda: s.obj.mixed_orthogonalise(oc)), check


@op('expand')
def _(W, o, s):
    D_ = s.obj.bond_dimension + o['D'] % 3
    W.need(D_ <= 10)
    want = build.std_bonds(s.L, s.d, D_)
    W.need(all(A.shape[1] <= want[n] and A.shape[2] <= want[n + 1] for n, A in enumerate(s.obj.data)))
    bonds = [A.shape[1] for A in s.obj.data]

    def check(res):
        check_form(W, s, 'expand', range(s.L), [])
        if [A.shape[1] for A in s.obj.data] != want[:-1]:
            raise Violation('wrong-bonds:expand', '%s expanded to %d gives %s' % (bonds, D_, [A.shape[1] for A in s.obj.data]))
    return (lambda: s.obj.expand(D_)), check


@op('match')
def _(W, o, s):
    t = W.slots[o['j'] % len(W.slots)]
    W.need([A.shape for A in t.obj.data] == [A.shape for A in s.obj.data])
    other = t.obj if t is not s else s.obj.copy()
    return (lambda: s.obj.match_gauge_to(other)), (lambda res: None)


@op('edit')
def _(W, o, s):
    """a client replaces one tensor"""
    n = o['i'] % s.L
    r = build.rng(o['seed'])
    A = s.obj.data[n]
    how = o['k'] % 4
    if how == 3 and not s.tfd:
        # all of them, with bonds of any size
        b = build.std_bonds(s.L, s.d, 1 + o['D'] % 6)
        Bs = [build.crandn(r, (s.d, b[i], b[i + 1])) for i in range(s.L)]

        def thunk():
            for i in r.permutation(s.L):
                s.obj[i] = Bs[i]

        def check(res):
            w = W.actual(s)
            s.v = w / np.linalg.norm(w)
        return thunk, check
    if how == 0:
        X = build.unitary(r, s.d)
        B = np.tensordot(X, A, [1, 0])
    elif how == 1:
        B = A * (0.3 + r.rand())
    else:
        B = A + 0.3 * build.crandn(r, A.shape) * np.linalg.norm(A) / np.sqrt(A.size)

    def thunk():
        s.obj[n] = B

    def check(res):
        w = W.actual(s)
        s.v = w / np.linalg.norm(w)
    return thunk, check


# ---- measurements
def operator(o, n, herm=None):
    r = build.rng(o['seed'])
    real = o['k'] % 5 == 0
    if herm is None:
        herm = o['k'] % 2 == 0
    m = build.herm(r, n, real) if herm else build.crandn(r, (n, n), real)
    return m / max(1e-3, np.linalg.norm(m, 2))


def tfd_op(s, X, lr):
    n = len(X)
    return np.kron(X, np.eye(n)) if lr == 0 else np.kron(np.eye(n), X)


@op('E')
def _(W, o, s):
    n = o['i'] % s.L
    if s.tfd:
        X, lr = operator(o, 2), o['j'] % 2
        W.give('E', X)
        return (lambda: s.obj.E(X, n, lr) if lr or o['k'] % 3 else s.obj.E(X, n)), lambda res: W.value('E', res, build.expval(s.v, tfd_op(s, X, lr), [n]).real)
    X = W.give('E', operator(o, s.d))
    return (lambda: s.obj.E(X, n)), lambda res: W.value('E', res, build.expval(s.v, X, [n]).real)


@op('E_')
def _(W, o, s):
    n = o['i'] % s.L
    X = W.give('E_', operator(o, s.d))
    return (lambda: s.obj.E_(X, n)), lambda res: W.value('E_', res, build.expval(s.v, X, [n]).real)


@op('Es')
def _(W, o, s):
    n = o['i'] % s.L
    Xs = [operator(dict(o, seed=o['seed'] + q), 2 if s.tfd else s.d, herm=True) for q in range(3)]
    W.give('Es', Xs)
    if s.tfd:
        lr = o['j'] % 2
        return (lambda: s.obj.Es(Xs, n, lr)), lambda res: W.value('Es', np.real(res), [build.expval(s.v, tfd_op(s, X, lr), [n]).real for X in Xs])
    return (lambda: s.obj.Es(Xs, n)), lambda res: W.value('Es', res, [build.expval(s.v, X, [n]).real for X in Xs])


def window(o, s, kmax=3):
    k = 1 + o['j'] % min(kmax, s.L)
    if s.d ** k > 64:
        k = 1
    i = o['i'] % (s.L - k + 1)
    return list(range(i, i + k))


@op('Ek')
def _(W, o, s):
    sites = window(o, s)
    if o['k'] % 2:
        Xs = W.give('E_k', [operator(dict(o, seed=o['seed'] + q), s.d, herm=o['k'] % 4 == 1) for q in range(len(sites))])
        return (lambda: s.obj.E_k(Xs, sites, single_string=True)), lambda res: W.value('E_k', res, build.expval(s.v, build.kron(*Xs), sites).real)
    X = W.give('E_k', operator(o, s.d ** len(sites), herm=o['k'] % 4 == 0))
    return (lambda: s.obj.E_k(X, sites)), lambda res: W.value('E_k', res, build.expval(s.v, X, sites).real)


@op('EL', read=True)
def _(W, o, s):
    W.need(s.d ** s.L <= 128)
    X = W.give('E_L', operator(o, s.d ** s.L))
    n2 = np.linalg.norm(W.actual(s)) ** 2
    full = o['k'] % 2
    return (lambda: s.obj.energy(X, fullH=True) if full else s.obj.E_L(X)), lambda res: W.value('E_L', res, build.expval(s.v, X, list(range(s.L))).real * n2)


@op('rho')
def _(W, o, s):
    sites = window(o, s)
    if s.obj.bond_dimension == 1 and o['k'] % 2:
        raw = [A.reshape(-1) for A in s.obj.data]
        return (lambda: s.obj.rho(sites)), lambda res: [W.value('rho', m, np.outer(raw[n], raw[n].conj())) for n, m in zip(sites, res)]
    return (lambda: s.obj.rho(sites, single_string=False)), lambda res: W.value('rho', res, build.rho(s.v, sites))


@op('rhop', read=True)
def _(W, o, s):
    """partial trace of |self><other| of two product states"""
    ts = [t for t in W.slots if t.L == s.L and t.d == s.d and t.obj.bond_dimension == 1 and not t.tfd]
    W.need(s.obj.bond_dimension == 1 and not s.tfd and ts)
    t = ts[o['j'] % len(ts)]
    n = s.L
    sites = sorted({o['i'] % n, o['D'] % n, o['k'] % n})[:3]
    W.need(s.d ** len(sites) <= 64)
    a, b = [A.reshape(-1) for A in s.obj.data], [A.reshape(-1) for A in t.obj.data]
    want = build.kron(*[np.outer(a[i], b[i].conj()) for i in sites]) * np.prod([a[i] @ b[i].conj() for i in range(n) if i not in sites])
    return (lambda: s.obj.rho_proj(t.obj, sites)), lambda res: W.value('rho_proj', res, want, max(1, np.prod([np.linalg.norm(x) for x in a + b])))


@op('eq', read=True)
def _(W, o, s):
    t = W.slots[o['j'] % len(W.slots)]
    W.need(t.L == s.L and t.d == s.d and [A.shape for A in t.obj.data] == [A.shape for A in s.obj.data])
    alike = all(np.allclose(a, b) for a, b in zip(s.obj.data, t.obj.data))

    def check(res):
        if bool(res[0]) != alike or bool(res[1]) == alike or not res[2]:
            raise Violation('wrong-value:==', '%s, alike: %s' % (res, alike))
    return (lambda: (s.obj == t.obj, s.obj != t.obj, s.obj == s.obj.copy())), check


@op('S')
def _(W, o, s):
    n = o['i'] % (s.L + 1)

    def check(res):
        lam = build.schmidt(s.v, n) if 0 < n < s.L else np.ones(1)
        lam = lam[lam > 1e-8]
        if abs(res + (lam * np.log(lam)).sum()) > 1e-5:
            raise Violation('wrong-value:entanglement_entropy', 'bond %d: %r, expected %r' % (n, res, -(lam * np.log(lam)).sum()))
    return (lambda: s.obj.entanglement_entropy(n)), check


@op('energy')
def _(W, o, s):
    W.need(not s.tfd and s.L >= 2)
    hs = build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed']))
    W.give('H', hs)
    side = o['k'] % 2

    def thunk():
        m = s.obj.left_canonicalise() if side else s.obj.right_canonicalise()
        return m.energy(hs)

    def check(res):
        W.value('energy', res, sum(build.expval(s.v, h, [i, i + 1]).real for i, h in enumerate(hs)) / s.L)
    return thunk, check


@op('energy_ro', read=True)
def _(W, o, s):
    """energy by itself is a read (its value needs canonical form, checked in `energy`)"""
    W.need(not s.tfd and s.L >= 2)
    hs = W.give('H', build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed'])))
    return (lambda: s.obj.energy(hs)), lambda res: None


@op('ov', read=True)
def _(W, o, s):
    t = W.slots[o['j'] % len(W.slots)]
    W.need(t.d == s.d and t.L == s.L)
    a, b = W.actual(s).reshape(-1), W.actual(t).reshape(-1)
    which = o['k'] % 2
    sc = np.linalg.norm(a) * np.linalg.norm(b)

    def check(res):
        if which:
            W.value('full_overlap', res, np.vdot(a, b), sc)
        else:
            W.value('overlap', res, np.vdot(b, a), sc)
        W.value('|overlap|', abs(res) / sc, abs(np.vdot(s.v, t.v)))
    return (lambda: s.obj.full_overlap(t.obj) if which else s.obj.overlap(t.obj)), check


@op('norm', read=True)
def _(W, o, s):
    n2 = np.linalg.norm(W.actual(s)) ** 2
    return (lambda: s.obj.norm()), lambda res: W.value('norm', res, n2, n2)


@op('lov')
def _(W, o, s):
    t = W.slots[o['j'] % len(W.slots)]
    W.need(t.d == s.d and t.L == s.L and t is not s and not s.tfd and not t.tfd)
    sites = window(dict(o, j=o['D']), s)
    prod = [m for m in (s, t) if m.obj.bond_dimension == 1]
    if prod:
        p = s if s.obj.bond_dimension == 1 else t
        q = t if p is s else s
        raw = build.kron(*[np.outer(A.reshape(-1), A.reshape(-1).conj()) for A in (p.obj.data[n] for n in sites)])
        want = build.expval(q.v, raw, sites).real
    else:
        want = np.trace(build.rho(s.v, sites) @ build.rho(t.v, sites)).real
    return (lambda: s.obj.local_overlap(t.obj, sites)), lambda res: W.value('local_overlap', res, want)


@op('klov')
def _(W, o, s):
    t = W.slots[o['j'] % len(W.slots)]
    W.need(t.d == s.d and t.L == s.L and t is not s and not s.tfd and not t.tfd and s.obj.bond_dimension > 1 and t.obj.bond_dimension > 1)
    if o['k'] % 5 == 0:                    # no windows: the overlap
        a, b = W.actual(s).reshape(-1), W.actual(t).reshape(-1)
        return (lambda: s.obj.k_local_approx_overlap(t.obj)), lambda res: W.value('k_local_approx_overlap', res, np.vdot(b, a), np.linalg.norm(a) * np.linalg.norm(b))
    k = 1 + o['D'] % 2
    ws = [list(range(i, i + k)) for i in range(s.L - k + 1)]
    want = np.mean([np.trace(build.rho(s.v, w) @ build.rho(t.v, w)).real for w in ws])
    return (lambda: s.obj.k_local_approx_overlap(t.obj, k)), lambda res: W.value('k_local_approx_overlap', res, want)


@op('pov', read=True)
def _(W, o, s):
    r = build.rng(o['seed'])
    P = W.give('product', build.crandn(r, (s.L, s.d)))
    p = P[0]
    for q in P[1:]:
        p = np.multiply.outer(p, q)
    a = W.actual(s)
    want = np.vdot(p, a)
    return (lambda: s.obj.product_state_overlap(P)), lambda res: W.value('product_state_overlap', res, want, np.linalg.norm(p) * np.linalg.norm(a))


@op('rec', read=True)
def _(W, o, s):
    W.need(s.d ** s.L <= 256)
    a = W.actual(s)
    return (lambda: s.obj.recombine()), lambda res: W.value('recombine', res, a)


@op('ser', read=True)
def _(W, o, s):
    real = bool(o['k'] % 2)
    shapes = [A.shape for A in s.obj.data]

    def check(vec):
        m = s.obj.deserialize(vec, real=real, structure=shapes)
        if not all(np.array_equal(a, b) for a, b in zip(m.data, s.obj.data)):
            raise Violation('wrong-value:serialize', 'round trip')
    return (lambda: s.obj.serialize(real=real)), check


@op('envs')
def _(W, o, s):
    def thunk():
        s.obj.left_canonicalise()
        return s.obj.get_envs(bool(o['k'] % 2))

    def check(res):
        l, r = res
        for n in range(s.L):
            w = np.real(np.diag(r(n))) > 1e-12          # directions the state has weight on
            W.value('get_envs', l(n)[np.ix_(w, w)], np.eye(w.sum()))
        for n in range(s.L - 1):
            g = np.sort(np.real(np.diag(r(n))))[::-1]
            w = np.sort(build.schmidt(s.v, n + 1))[::-1]
            k = max(len(g), len(w))
            W.value('get_envs', np.pad(g, (0, k - len(g))), np.pad(w, (0, k - len(w))))
    return thunk, check


@op('vidal')
def _(W, o, s):
    W.need(not s.tfd)
    ws = [np.sort(build.schmidt(s.v, n))[::-1] for n in range(1, s.L)]
    W.need(all(A.shape[1] <= len(w) and w[A.shape[1] - 1] > 1e-6 for w, A in zip(ws, s.obj.data[1:])))

    def thunk():
        from xmps.fMPS import vfMPS
        v = vfMPS().from_fMPS(s.obj)
        return v, v.to_fMPS()

    def check(res):
        v, m = res
        e = build.rayclose(build.vec(m.data), s.v.reshape(-1))
        if not e < 2e-6:
            raise Violation('wrong-value:vidal', 'another state: %.2e' % e)
        for (l, G), w in zip(v.data[1:], ws):
            l = np.sort(np.abs(np.diag(l)))[::-1]            # squared, as the library stores them
            W.value('vidal', l / l.sum(), w[:len(l)])
    return thunk, check


# ---- new states
@op('copy', read=True)
def _(W, o, s):
    def check(m):
        if type(m) is not type(s.obj) or not all(np.array_equal(a, b) for a, b in zip(m.data, s.obj.data)):
            raise Violation('wrong-value:copy', 'the copy differs')
        add_slot(W, o, Slot(m, s.v, s.d, s.tfd))
    return (lambda: s.obj.copy()), check


@op('fresh')
def _(W, o, s):
    def thunk():
        return new_obj(o['spec'])

    def check(res):
        m, v, d, tfd = res
        W.need(np.linalg.norm(v) > 1e-9)
        add_slot(W, o, Slot(m, v, d, tfd))
    return thunk, check


@op('g1', read=True)
def _(W, o, s):
    W.need(not s.tfd)
    n = o['i'] % s.L
    X = W.give('op', gate(o, s.d))
    how = o['k'] % 4
    m2 = (n + 1 + o['j'] % (s.L - 1)) % s.L

    def thunk():
        if how == 0:
            return s.obj.apply_two_site((X, (n,)))
        if how == 1:
            return s.obj.apply_two_site((X, (n, m2)), which='l')
        if how == 2:
            return s.obj.apply_two_site((X, (m2, n)), which='r')
        return s.obj.apply((X, n))

    def check(m):
        w = build.apply_op(s.v, X, [n])
        t = Slot(m, w, s.d)
        W.check_state(t, 'apply')
        if m is s.obj:
            s.v = t.v
        elif o['D'] % 2 == 0:
            W.slots[W.slots.index(s)] = t
        else:
            add_slot(W, o, t)
    return thunk, check


def gate(o, n):
    r = build.rng(o['seed'])
    f = o['seed'] % 7
    if f == 0 and n in (4, 9):
        d = int(round(np.sqrt(n)))
        return np.eye(n).reshape([d] * 4).transpose(1, 0, 2, 3).reshape(n, n)        # swap
    if f == 1 and n in (4, 9):
        d = int(round(np.sqrt(n)))
        m = np.zeros((n, n))
        for a in range(d):
            for b in range(d):
                m[a * d + (a + b) % d, a * d + b] = 1
        return m                                                                     # controlled shift
    if f == 2:
        return np.eye(n) + 0.5 * build.crandn(r, (n, n)) / np.sqrt(n)                # not unitary
    if f == 3:
        return build.herm(r, n, True)
    return build.unitary(r, n, f == 4)


@op('g2')
def _(W, o, s):
    W.need(not s.tfd and s.L >= 2)
    i = o['i'] % s.L
    j = (i + 1 + o['j'] % (s.L - 1)) % s.L
    X = W.give('gate', gate(o, s.d ** 2))
    kw = dict(which='lr'[o['k'] % 2])
    if (o['k'] // 2) % 3 == 1:
        # the least limit that cannot bind on the gate itself; the swaps that bring the sites together are not limited
        kw['D'] = 64 if o['seed'] % 2 else s.d * s.obj.data[min(i, j)].shape[1]
    if (o['k'] // 2) % 3 == 2:
        kw.update(D=64, truncate_swaps=True)

    def check(m):
        w = build.apply_op(s.v, X, [i, j])
        if m is not s.obj:
            raise Violation('wrong-result:apply_two_site', 'did not return the chain')
        s.v = w / np.linalg.norm(w)
        W.check_state(s, 'apply_two_site')
    return (lambda: s.obj.apply_two_site((X, (i, j)), **kw)), check


@op('g2D')
def _(W, o, s):
    """adjacent gate with a bond limit, orthogonality centre at the gate"""
    W.need(not s.tfd and s.L >= 2)
    i = o['i'] % (s.L - 1)
    rev = o['seed'] % 2
    sites = (i + 1, i) if rev else (i, i + 1)
    X = W.give('gate', gate(o, s.d ** 2))
    which = 'lr'[o['k'] % 2]
    D = 1 + o['D'] % 4
    centre = (o['k'] // 2) % 5
    w = build.apply_op(s.v, X, list(sites))
    m = w.reshape(s.d ** (i + 1), -1)
    u, S, vh = np.linalg.svd(m, full_matrices=False)
    S = S / np.linalg.norm(S)

    def thunk():
        oc = i + (o['j'] % 2)
        if centre == 0:
            s.obj.mixed_orthogonalise(oc)
        elif centre == 1:
            s.obj.mixed_canonicalise(oc)
        elif centre == 2 and i == 0:
            s.obj.right_canonicalise()
        elif centre == 3:
            s.obj.E(np.eye(s.d), oc)
        else:
            s.obj.mixed_orthogonalise(i)
        return s.obj.apply_two_site((X, sites), which=which, D=D)

    def check(res):
        b = s.obj.data[i].shape[2]
        if b > D:
            raise Violation('bond-limit:apply_two_site', 'bond %d is %d, limit %d' % (i + 1, b, D))
        got = W.actual(s)
        k = min(D, len(S))
        if k < len(S) and S[k] > 1e-9:
            W.ctx.probe('binding-bond-limit')
            if S[k - 1] - S[k] < 1e-3 * S[k - 1]:
                W.ctx.probe('degenerate-cut')
                # any choice among equal weights is right: the kept weight is what counts
                g = got.reshape(m.shape) / np.linalg.norm(got)
                keep = np.abs(np.vdot(g, w.reshape(m.shape) / np.linalg.norm(w))) ** 2
                if abs(keep - (S[:k] ** 2).sum()) > 1e-5:
                    raise Violation('truncation-not-optimal:apply_two_site', 'kept weight %r, largest %r' % (keep, (S[:k] ** 2).sum()))
                s.v = got / np.linalg.norm(got)
                return
        want = ((u[:, :k] * S[:k]) @ vh[:k]).reshape(w.shape)
        s.v = want / np.linalg.norm(want)
        dist = build.rayclose(got, s.v)
        if not dist < 5e-5 if (k < len(S) and S[k] > 1e-9) else not dist < TOL:
            raise Violation('truncation-not-optimal:apply_two_site', 'distance %.3g from the state with the largest %d Schmidt weights kept' % (dist, k))
        s.v = got / np.linalg.norm(got)
    return thunk, check


@op('post')
def _(W, o, s):
    W.need(not s.tfd and s.L >= 3)
    n, which = o['i'] % s.L, o['j'] % s.d
    w = np.take(s.v, which, axis=n)
    W.need(np.linalg.norm(w) > 1e-2)

    def check(m):
        s.v = w / np.linalg.norm(w)
        if m is not s.obj or len(m.data) != s.L or m.L != s.L:
            raise Violation('wrong-result:post_select', 'length %s' % len(m.data))
    return (lambda: s.obj.post_select(n, which)), check


@op('add', read=True)
def _(W, o, s):
    t = W.slots[o['j'] % len(W.slots)]
    W.need(t.d == s.d and t.L == s.L and s.L >= 2 and s.tfd == t.tfd)
    W.need(s.obj.bond_dimension + t.obj.bond_dimension <= 24)
    w = W.actual(s) + W.actual(t)
    W.need(np.linalg.norm(w) > 1e-2 * max(np.linalg.norm(W.actual(s)), np.linalg.norm(W.actual(t))) and np.linalg.norm(w) > 1e-9)

    def check(m):
        W.value('add', build.vec(m.data), w.reshape(-1), np.linalg.norm(w))
        add_slot(W, o, Slot(m, w, s.d, s.tfd))
    return (lambda: s.obj.add(t.obj)), check


@op('mul', read=True)
def _(W, o, s):
    r = build.rng(o['seed'])
    x = complex(*(r.rand(2) + 0.3))
    how = o['k'] % 4
    a = W.actual(s)
    fac = [x, x ** s.L, x ** s.L, x ** -s.L][how]

    def check(m):
        W.value('mul', build.vec(m.data) / fac, a.reshape(-1), np.linalg.norm(a))
        if o['D'] % 2:
            add_slot(W, o, Slot(m, a, s.d, s.tfd and how > 0))
    return (lambda: [s.obj.mul(x), s.obj * x, x * s.obj, s.obj / x][how] if how == 0 else (s.obj * x if how == 1 else x * s.obj if how == 2 else s.obj / x)), check


@op('ext', read=True)
def _(W, o, s):
    t = W.slots[o['j'] % len(W.slots)]
    W.need(t.d == s.d and not s.tfd and not t.tfd and s.d ** (s.L + t.L) <= 128)
    w = np.multiply.outer(s.v, t.v)

    def check(m):
        u = Slot(m, w, s.d)
        W.check_state(u, 'extend')
        add_slot(W, o, u)
    if t.obj.data[0].shape[2] == 1 and o['k'] % 2:
        w = np.multiply.outer(s.v, t.obj.data[0].reshape(-1))
        return (lambda: s.obj.append(t.obj.data[0])), check
    return (lambda: s.obj.extend(t.obj)), check


def add_slot(W, o, t, cap=4):
    if len(W.slots) < cap:
        W.slots.append(t)
    else:
        W.slots[o['seed'] % len(W.slots)] = t


CANON = ['rcan', 'rcan', 'lcan', 'lcan', 'mcan', 'rorth', 'lorth', 'morth', 'expand', 'match', 'trunc']
MEASURE = ['E', 'E', 'E_', 'Es', 'Ek', 'Ek', 'EL', 'rho', 'rho', 'S', 'energy', 'energy_ro', 'ov', 'norm', 'lov', 'klov', 'pov', 'rec', 'ser', 'envs', 'rhop', 'eq', 'vidal']
CIRCUIT = ['g1', 'g2', 'g2', 'g2', 'g2D', 'post', 'add', 'mul', 'ext']
OTHER = ['copy', 'edit', 'fresh']


def gen_op(r, names, c=0):
    o = dict(op=r.choice(names), c=c, s=r.randrange(12), i=r.randrange(12), j=r.randrange(12), k=r.randrange(16), D=r.randrange(12), seed=r.randrange(10 ** 6))
    if o['op'] == 'fresh':
        o['spec'] = gen_spec(r)
    return o


def gen_program(r, names, n, clients):
    """interleaving of the clients' programs"""
    progs = [[gen_op(r, names, c) for _ in range(max(1, n // clients))] for c in range(clients)]
    out = []
    while any(progs):
        c = r.choice([q for q in range(clients) if progs[q]])
        out.append(progs[c].pop(0))
    return out


def exact(s):
    return [np.array(A) for A in s.obj.data]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def execute(W, ops, on_op=None):
    """run a program; every state is judged after every operation"""
    ctx = W.ctx
    last = None
    for q, o in enumerate(ops):
        s = W.slots[o['s'] % len(W.slots)]
        label = o['op']
        before = [(t, exact(t)) for t in W.slots] if W.exact else None
        try:
            thunk, check = OPS[label](W, o, s)
        except Skip:
            ctx.stats['op:skipped'] += 1
            continue
        ctx.stats['op:' + label] += 1
        ctx.steps()
        ctx.ev(label, o['s'] % len(W.slots), s.L, s.d)
        if on_op:
            go = on_op(W, q, o, s, label, thunk, before)
            if go is None:
                continue
            res = go[0]
        else:
            res = ctx.call(label, thunk)
        slots = list(W.slots)
        try:
            check(res)
        except Skip:
            continue
        for t in {id(x): x for x in slots + W.slots}.values():
            if t in W.slots:
                W.check_state(t, label)
        if W.exact:
            for t, b in before:
                if t is s and label not in READ:
                    continue
                if not same(exact(t), b):
                    raise Violation('tensors-changed:' + label, 'tensors of %s state changed' % ('the read' if t is s else 'another'))
        W.check_inputs()
        if ctx.stats['steps'] % 1 == 0:
            ctx.data(label, build.vec(s.obj.data)[:64])
        ctx.state((last, label, s.obj.bond_dimension > 1, s.tfd))
        last = label
    return W


def world(case, ctx, exact=False):
    W = World(ctx, exact)
    for spec in case['slots']:
        m, v, d, tfd = ctx.call('build', new_obj, spec)
        if not np.linalg.norm(v) > 1e-12:
            raise Discard('zero state')
        s = Slot(m, v, d, tfd)
        W.check_state(s, 'build')
        W.slots.append(s)
    return W


def simplify(case):
    import copy
    for i, sp in enumerate(case['slots']):
        if len(case['slots']) > 1:
            c = copy.deepcopy(case)
            del c['slots'][i]
            yield c
        for key, vals in (('kind', ['std', 'product']), ('L', [2, 3]), ('D', [1, 2]), ('d', [2]), ('real', [False]), ('unit', [True]), ('seed', [1])):
            for v in vals:
                if sp.get(key) != v and not (key in ('L', 'D') and sp[key] <= v):
                    c = copy.deepcopy(case)
                    c['slots'][i][key] = v
                    yield c
    for i, o in enumerate(case['ops']):
        if o.get('op') == 'fresh' and o['spec']['kind'] != 'std':
            c = copy.deepcopy(case)
            c['ops'][i]['spec']['kind'] = 'std'
            yield c
        if o.get('seed', 1) not in (1, 2):
            c = copy.deepcopy(case)
            c['ops'][i]['seed'] = 2
            yield c
