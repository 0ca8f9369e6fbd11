"""C05: singular value decompositions that fail to converge."""
import copy
import numpy as np
from .. import build, chain, icalc, seams
from ..core import Violation

RUNS = dict(quick=10000, thorough=200000)
TIMEOUT = 60
RULE = ('one run = a program of 3-16 operations on finite chains (canonicalisation with and without limits, truncating gates, expansions, measurements), on infinite chains, on PEPS '
        'tensors or direct decompositions, with a list of decomposition calls (by operation and call number) at which the fast driver, or both drivers, fail. '
        'Non-trivial: at least one failure was injected inside an operation that was then judged. Distinct: by the full case.')
STATES = 'distinct (kind, operation, number of failed calls, both drivers) combinations'
COMPONENTS = dict(real=['xmps.svd_robust.svd and every caller in xmps.fMPS, xmps.iMPS, xmps.fPEPS, xmps.tensor', 'LAPACK gesvd'],
                  simulated=['LinAlgError from gesdd, or from gesdd and gesvd, at chosen calls; the contents of an overwritable input are destroyed'], stub=[])
ASSUMPTIONS = ['failures are injected at decompositions called from the library itself (scipy.linalg.svd or numpy.linalg.svd from a file of xmps), not inside scipy routines',
               'results are compared with the dense state, or with the same operation without failures, to 2e-6']
LEVEL = 'fault_enumeration'

NAMES = ['rcan', 'lcan', 'mcan', 'trunc', 'trunc', 'expand', 'E_', 'Es', 'S', 'energy', 'envs', 'g2D', 'g2D', 'g2', 'proj', 'dexp', 'fromstate']
PURE = {'rcan', 'lcan', 'mcan', 'expand', 'E_', 'Es', 'S', 'energy', 'envs'}      # canonicalise without truncating


def gen_svd(r):
    x = r.random()
    if x < .15:
        return None
    if x < .45:
        return dict(fast='all')
    if x < .75:
        return dict(fast=sorted({r.randrange(14) for _ in range(r.choice([1, 1, 2, 3, 5]))}))
    return dict(fast=[], both=r.randrange(r.choice([1, 2, 4, 10])))


def gen(r, tier, k):
    kind = r.choice(['chain'] * 6 + ['imps'] * 2 + ['direct', 'iso'])
    if kind == 'chain':
        names = NAMES + ['edit', 'g1', 'copy', 'E', 'Ek', 'lorth', 'morth']
        ops = chain.gen_program(r, names, r.choice([3, 6, 10, 16]), r.choice([1, 2]))
        for o in ops:
            if o['op'] in NAMES:
                o['svd'] = gen_svd(r)
        return dict(params={}, kind=kind, slots=[chain.gen_spec(r) for _ in range(r.choice([1, 2]))], ops=ops)
    if kind == 'imps':
        ops = [dict(op=r.choice(['can', 'can', 'E', 'energy', 'overlap', 'dA', 'vidal', 'ivmps']), s=r.randrange(2), hand=r.choice('lrm'), seed=r.randrange(10 ** 6), svd=gen_svd(r))
               for _ in range(r.choice([3, 5, 8]))]
        sp = icalc.gen_ispec(r)
        sp2 = dict(icalc.gen_ispec(r), d=sp['d'], D=sp['D'])
        return dict(params={}, kind=kind, slots=[sp, sp2], ops=ops)
    if kind == 'direct':
        ops = [dict(op='direct', m=r.randint(1, 12), n=r.randint(1, 12), full=r.random() < .5, uv=r.random() < .85, ow=r.random() < .5, cf=r.random() < .5,
                    drv=r.choice(['gesdd', 'gesdd', 'gesdd', 'gesvd']), warn=r.random() < .5, dt=r.choice(['f8', 'c16', 'f4', 'c8', 'list']), order=r.choice('CF'),
                    rank=r.choice([0, 0, 1, 2]), seed=r.randrange(10 ** 6), svd=gen_svd(r)) for _ in range(r.choice([2, 4, 6]))]
        return dict(params={}, kind=kind, slots=[], ops=ops)
    ops = [dict(op='iso', diag=r.random() < .5, where=r.randint(1, 4), sh=[2] + [r.randint(1, 3) for _ in range(4)], seed=r.randrange(10 ** 6), svd=gen_svd(r)) for _ in range(4)]
    return dict(params={}, kind=kind, slots=[], ops=ops)


def simplify(case):
    for i, o in enumerate(case['ops']):
        if o.get('svd'):
            c = copy.deepcopy(case); c['ops'][i]['svd'] = None; yield c
            if isinstance(o['svd'].get('fast'), list):
                for q in range(len(o['svd']['fast'])):
                    c = copy.deepcopy(case); del c['ops'][i]['svd']['fast'][q]; yield c
            else:
                for q in range(6):
                    c = copy.deepcopy(case); c['ops'][i]['svd']['fast'] = [q]; yield c
    if case['kind'] == 'chain':
        yield from chain.simplify(case)


class Ctl:
    """decides which decomposition calls fail"""
    def __init__(self, spec):
        self.spec = spec or {}
        self.n, self.fired, self.both, self.kill = -1, 0, False, False

    def __call__(self, driver):
        if driver != 'gesvd':
            self.n += 1
            self.kill = False
            f = self.spec.get('fast', [])
            if self.spec.get('both') == self.n:
                self.kill = self.both = True
                self.fired += 1
                return True
            if f == 'all' or self.n in f:
                self.fired += 1
                return True
            return False
        if self.kill:
            self.kill = False
            return True
        return False


def guarded(ctx, label, thunk, spec):
    """returns (result, error, controller)"""
    c = Ctl(spec)
    seams.S.svd = c
    try:
        res, err = thunk(), None
    except (Violation, chain.Skip):
        raise
    except Exception as e:
        res, err = None, e
    finally:
        seams.S.svd = None
    if c.fired:
        ctx.fault('svd-both-drivers' if c.both else 'svd-fast-driver', c.fired)
        ctx.nontrivial = True
    ctx.state((label, min(c.fired, 4), c.both))
    if c.both:
        if err is None:
            raise Violation('failure-not-reported:' + label, 'both drivers failed at call %d and the operation returned normally' % c.n)
    elif err is not None:
        from ..core import tb_text
        raise Violation('operation-failed:' + label, '%d fast failures, error %s' % (c.fired, tb_text(err)))
    return res, err, c


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_chain(case, ctx):
    W = chain.world(case, ctx)

    def on_op(W, q, o, s, label, thunk, before):
        # as for any program: no failure injected while the arguments are built
        res, err, c = guarded(ctx, label, thunk, o.get('svd'))
        if err is None:
            return (res,)
        ctx.ev('raised', type(err).__name__)
        if label in PURE:
            W.check_state(s, 'after-failed-' + label)
        else:
            try:
                w = W.actual(s)
                ok = np.isfinite(w).all() and np.linalg.norm(w) > 1e-9
            except Exception:
                ok = False
            if ok:
                s.v = w / np.linalg.norm(w)
                s.obj.forget_gauge()
            else:
                W.slots.remove(s)
                if not W.slots:
                    m, v, d, t = chain.new_obj(dict(kind='std', L=3, d=2, D=2, real=False, seed=1))
                    W.slots.append(chain.Slot(m, v, d, t))
        for t in W.slots:
            W.check_state(t, label)
        W.check_inputs()
        return None
    chain.execute(W, case['ops'], on_op)


@chain.op('proj')
def _(W, o, s):
    W.need(not s.tfd and s.L >= 3)
    hs = W.give('H', build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed'])))
    m = s.obj.copy().left_canonicalise().copy()
    W.need(well(m, s))
    ref = m.copy().projection_error(hs, 0.1)
    return (lambda: m.projection_error(hs, 0.1)), lambda res: W.value('projection_error', res, ref)


def well(m, s):
    """full rank with room to grow, no truncation below exact bonds (domain of the expansion formulas)"""
    m = m.copy().left_canonicalise()
    b = [A.shape[1] for A in m.data] + [1]
    lam = [np.real(np.diag(x)) for x in m.Ls]
    return min(x.min() for x in lam) > 1e-5 and b == build.std_bonds(s.L, s.d, max(b))


@chain.op('dexp')
def _(W, o, s):
    W.need(not s.tfd and s.L >= 3)
    hs = W.give('H', build.ham(dict(L=s.L, d=s.d, kind='random', seed=o['seed'])))
    m = s.obj.copy().left_canonicalise().copy()
    W.need(well(m, s))
    D_ = m.bond_dimension + 1 + o['D'] % 2
    dt = 0.05
    try:
        ref = m.copy().dynamical_expand(hs, dt, D_)
        wref = build.vec(ref.data)
    except Exception:
        raise chain.Skip()

    def check(res):
        if build.rayclose(build.vec(res.data), wref) > 1e-6:
            raise Violation('wrong-value:dynamical_expand', 'differs from the run without failures')
    return (lambda: m.dynamical_expand(hs, dt, D_)), check


@chain.op('fromstate')
def _(W, o, s):
    from xmps.fMPS import fMPS
    name = ['left_from_state', 'right_from_state'][o['k'] % 2]
    v = W.give('state', build.crandn(build.rng(o['seed']), [s.d] * min(s.L, 5), o['i'] % 3 == 0))

    def check(m):
        t = chain.Slot(m, v, s.d)
        W.check_state(t, name)
        chain.check_form(W, t, name, range(t.L) if o['k'] % 2 == 0 else [], range(t.L) if o['k'] % 2 else [])
        chain.add_slot(W, o, t)
    return (lambda: getattr(fMPS(), name)(v)), check


def run_imps(case, ctx):
    from xmps.iMPS import iMPS, ivMPS
    As = [icalc.itensor(sp) for sp in case['slots']]
    ms = [iMPS([A.copy()]) for A in As]
    fxs = [icalc.fixed(A) for A in As]

    def physical(i, label):
        f = icalc.fidelity(ms[i].data[0], As[i])
        if not abs(f - 1) < 1e-6:
            raise Violation('state-changed:' + label, 'fidelity per site %r' % f)
    for q, o in enumerate(case['ops']):
        i = o['s'] % len(ms)
        m, A, fx, d = ms[i], As[i], fxs[i], As[i].shape[0]
        r = build.rng(o['seed'])
        X, h = build.herm(r, d), build.herm(r, d * d)
        label = 'i' + o['op']
        ctx.stats['op:' + label] += 1
        ctx.steps()
        ctx.ev(label, i)
        np.random.seed(o['seed'])
        if o['op'] == 'can':
            thunk = lambda: m.canonicalise(o['hand'])
        elif o['op'] == 'vidal':
            thunk = lambda: m.copy().canonicalise(to_vidal=True)
        elif o['op'] == 'ivmps':
            thunk = lambda: m.copy().canonicalise(to_vidal=True).canonicalise()
        elif o['op'] == 'E':
            thunk = lambda: m.E(X)
        elif o['op'] == 'energy':
            thunk = lambda: m.energy([h])
        elif o['op'] == 'overlap':
            thunk = lambda: m.overlap(ms[1 - i])
        else:
            ref = m.copy().dA_dt([h])
            np.random.seed(o['seed'])
            thunk = lambda: m.dA_dt([h])
        res, err, c = guarded(ctx, label, thunk, o.get('svd'))
        for j in range(len(ms)):
            physical(j, label)
        if err is not None:
            continue

        def val(got, want):
            if not np.abs(np.asarray(got) - want).max() < 1e-6 * max(1, np.abs(want).max()):
                raise Violation('wrong-value:' + label, 'got %s, expected %s' % (np.ravel(got)[:4], np.ravel(want)[:4]))
        if o['op'] == 'can':
            B = res.data[0]
            if o['hand'] == 'l':
                val(np.einsum('sab,sac->bc', B.conj(), B), np.eye(B.shape[1]))
            if o['hand'] == 'r':
                val(np.einsum('sab,scb->ac', B, B.conj()), np.eye(B.shape[1]))
            val(np.sort(np.real(np.diag(m.L)) ** 2)[::-1], icalc.schmidt2(A, fx))
        elif o['op'] in ('vidal', 'ivmps'):
            G, L = res.data[0]
            f = icalc.fidelity(G @ L, A)
            val(f, 1.0)
            val(np.sort(np.diag(L).real ** 2)[::-1], icalc.schmidt2(A, fx))
        elif o['op'] == 'E':
            val(res, icalc.expect1(A, X, fx).real)
        elif o['op'] == 'energy':
            val(res, icalc.expect2(A, h, fx).real)
        elif o['op'] == 'overlap':
            val(res, icalc.fidelity(A, As[1 - i]))
        else:
            val(res.data[0], ref.data[0])
        ctx.data(label, np.atleast_1d(np.abs(icalc.schmidt2(m.data[0]))))


def run_direct(case, ctx):
    from xmps.svd_robust import svd
    for o in case['ops']:
        r = build.rng(o['seed'])
        m, n = o['m'], o['n']
        a = build.crandn(r, (m, n), o['dt'] in ('f8', 'f4', 'list'))
        if o['rank'] and min(m, n) > o['rank']:
            a = a[:, :o['rank']] @ build.crandn(r, (o['rank'], n), o['dt'] in ('f8', 'f4', 'list'))
        if o['dt'] != 'list':
            a = np.array(a, dtype=o['dt'], order=o['order'])
        keep = np.array(a)
        arg = a.tolist() if o['dt'] == 'list' else a
        tol = 1e-4 if o['dt'] in ('f4', 'c8') else 1e-9
        kw = dict(full_matrices=o['full'], compute_uv=o['uv'], overwrite_a=o['ow'], check_finite=o['cf'], lapack_driver=o['drv'], warn=o['warn'])
        ctx.stats['op:direct'] += 1
        ctx.steps()
        spec = o.get('svd')
        if o['drv'] == 'gesvd' and spec:
            spec = None
        res, err, c = guarded(ctx, 'direct', lambda: svd(arg, **kw), spec)
        if not (o['ow'] and o['drv'] == 'gesvd') and not o['ow'] and not np.array_equal(a, keep):
            raise Violation('input-changed:svd', 'overwrite_a=False')
        if err is not None:
            if not isinstance(err, np.linalg.LinAlgError):
                raise Violation('wrong-error:svd', repr(err))
            continue
        sv = np.linalg.svd(keep.astype('c16'), compute_uv=False)
        k = min(m, n)
        S = res if not o['uv'] else res[1]
        if np.shape(S) != (k,) or not np.abs(np.asarray(S) - sv).max() < tol * max(1, sv[0]):
            raise Violation('wrong-value:svd', 'singular values %s, expected %s' % (S, sv))
        if o['uv']:
            U, S, V = res
            want = ((m, m), (n, n)) if o['full'] else ((m, k), (k, n))
            if (U.shape, V.shape) != want:
                raise Violation('wrong-shape:svd', '%s %s, expected %s' % (U.shape, V.shape, want))
            if not np.abs((U[:, :k] * S) @ V[:k] - keep).max() < tol * max(1, sv[0]):
                raise Violation('wrong-value:svd', 'factors do not multiply to the matrix')
            if not (np.abs(U.conj().T @ U - np.eye(U.shape[1])).max() < tol and np.abs(V @ V.conj().T - np.eye(V.shape[0])).max() < tol):
                raise Violation('wrong-value:svd', 'factors are not isometries')
        ctx.data('S', np.asarray(S))


def run_iso(case, ctx):
    from xmps import fPEPS
    for o in case['ops']:
        T = build.crandn(build.rng(o['seed']), tuple(o['sh']))
        f = fPEPS.tensor_isometrise_diag if o['diag'] else fPEPS.tensor_isometrise_lrud
        g = fPEPS.tensor_grouping_diag if o['diag'] else fPEPS.tensor_grouping_lrud
        try:
            ref, _ = g(f(T.copy(), o['where']), o['where'])
        except Exception:
            ctx.stats['op:skipped'] += 1
            continue
        ctx.stats['op:isometrise'] += 1
        ctx.steps()
        res, err, c = guarded(ctx, 'isometrise', lambda: f(T, o['where']), o.get('svd'))
        if err is not None:
            continue
        m, _ = g(res, o['where'])
        if m.shape != ref.shape or np.abs(m @ m.conj().T - ref @ ref.conj().T).max() > 1e-7 or np.abs(m.conj().T @ m - np.eye(m.shape[1])).max() > 1e-7:
            raise Violation('wrong-value:isometrise', 'not the isometry of the run without failures')
        ctx.data('iso', np.abs(m @ m.conj().T))
