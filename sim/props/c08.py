"""C08: evolution runs record every step; interrupting or resuming them loses nothing."""
import copy
import numpy as np
import scipy.linalg as sl
from .. import build, icalc, seams, trace
from ..core import Violation, Discard, tb_text

RUNS = dict(quick=3500, thorough=60000)
TIMEOUT = 60
RULE = ('one run = 3-14 operations of clients on evolution runs (finite, infinite, exact): integrate over lists of times with euler/rk4/ode/exact/Lyapunov steps, contract, expand, '
        'replace the current state, clear and repeat, fork, read derived quantities, continue from the last record; a subset is interrupted by KeyboardInterrupt, MemoryError or LinAlgError at a chosen executed '
        'line or meets failing SVD drivers and eigensolvers. After every operation the bytes of all records of all runs are compared with those seen before, every new record is compared with an independent reference step from '
        'the record before it. Non-trivial: two segments of records or an interrupted integration. Distinct: by the full case.')
STATES = 'distinct (kind of run, operation, outcome, place of interruption, segments so far) combinations'
COMPONENTS = dict(real=['xmps.fTDVP.Trajectory, xmps.iTDVP.Trajectory, xmps.fMPS, xmps.iMPS'], simulated=['interruptions at chosen executed lines', 'failing SVD drivers and eigensolvers', 'order of operations of the clients'],
                  stub=['progress bars discarded'])
ASSUMPTIONS = ['interruptions happen at line boundaries of the library, not inside numpy', 'states have the full rank of their bond dimension (TDVP inverts their environments)',
               'an interrupted in-place operation (contract, expand) may leave the current state unusable; only the records are judged then']
LEVEL = 'fault_enumeration'
LINES = True
BUDGET = 6000000
EXC = [KeyboardInterrupt, MemoryError, np.linalg.LinAlgError]
FIN = ['euler', 'rk4', 'ode', 'euler', 'rk4', 'derive', 'derive', 'contract', 'expand', 'poke', 'again', 'clear', 'fork', 'cont', 'lyap', 'lyap', 'regauge', 'rerun', 'swap']
INF = ['euler', 'rk4', 'euler', 'rk4', 'derive', 'cont', 'swap']
EDO = ['ed', 'ed', 'ed', 'derive', 'derive', 'derive', 'clear', 'again', 'fork', 'rerun', 'swap']


def gen(r, tier, k):
    n = r.randint(3, 14 if tier == 'thorough' else 9)
    kinds = r.choice(['f', 'f', 'f', 'f', 'i', 'e', 'fi', 'ff', 'fe'])
    lives = []
    for c in kinds:
        if c == 'i':
            lives.append(dict(kind='i', d=2, D=r.randint(2, 3), seed=r.randrange(10 ** 6), ham=r.choice(['tfi', 'heis', 'random'])))
        else:
            L = r.randint(2, 5)
            lives.append(dict(kind=c, L=L, D=r.choice([1, 2, 2, 3, 4]), seed=r.randrange(10 ** 6), ham=r.choice(['tfi', 'heis', 'random', 'random']), full=r.random() < .3, real=r.random() < .15, unit=c == 'e' or r.random() < .8))
    ops = []
    for i in range(n):
        s = r.randrange(len(lives))
        c = lives[s]['kind']
        op = r.choice(INF if c == 'i' else EDO if c == 'e' else FIN)
        o = dict(op=op, s=s, k=r.randrange(1000), seed=r.randrange(10 ** 6))
        if op in ('euler', 'rk4', 'ode', 'ed', 'lyap', 'rerun'):
            m = r.choice([1, 2, 2, 3, 4])
            if op in ('ode', 'lyap'):
                m = max(m, 2)
            h = r.choice([.01, .02, .05])
            style = r.choice(['u', 'u', 'n', 'b', 'l'])
            t = r.choice([0, 0, .3])
            T = [t]
            for j in range(m - 1):
                t += h * (r.choice([.3, 1, 2]) if style == 'n' else -1 if style == 'b' else 1)
                T.append(round(t, 6))
            o['T'] = T
            o['as_list'] = style == 'l'
        if op != 'rerun' and r.random() < (.3 if op in ('euler', 'rk4', 'ode', 'ed', 'lyap') else .12):
            t = r.choice(['abort', 'abort', 'abort', 'svd', 'eigs'])
            o['f'] = dict(t=t, n=int(10 ** r.uniform(0, 3.9)) if t == 'abort' else r.randint(1, 30) if t == 'svd' else r.randint(1, 5), x=r.randrange(3))
        ops.append(o)
    return dict(lives=lives, ops=ops, params={})


def simplify(case):
    import json
    for i, o in enumerate(case['ops']):
        if 'f' in o:
            c = json.loads(json.dumps(case))
            del c['ops'][i]['f']
            yield c
        if len(o.get('T', [])) > 2:
            c = json.loads(json.dumps(case))
            c['ops'][i]['T'].pop()
            yield c
    for i, l in enumerate(case['lives']):
        for key, vals in (('L', (2, 3)), ('D', (1, 2)), ('full', (False,)), ('real', (False,)), ('unit', (True,))):
            for v in vals:
                if key in l and (l[key] != v if isinstance(v, bool) else l[key] > v) and not (key == 'L' and v < 2) and not (l['kind'] == 'i' and v < 2):
                    c = json.loads(json.dumps(case))
                    c['lives'][i][key] = v
                    yield c


def dense(data):
    v = build.vec(data)
    return v / np.linalg.norm(v)


class Run:
    """one run of a client, with the model of what it must contain"""
    def __init__(self, kind, spec):
        self.kind, self.spec = kind, spec
        self.rec = []          # bytes and copies of the records seen so far
        self.seg = []          # (method, T, states) of completed segments since the last clear
        self.first = None
        self.ed = []
        self.taint = False     # current state unknown
        self.lys = [[], []]   # series of exponents recorded so far
        self.segs = 0
        self.shapes = None


def make(spec):
    R = Run(spec['kind'], spec)
    if spec['kind'] == 'i':
        from xmps.iMPS import iMPS
        from xmps.iTDVP import Trajectory
        r = build.rng(spec['seed'] + 5)
        h = build.ham(dict(L=2, kind=spec['ham'], seed=spec['seed'], d=2))[0]
        A = icalc.itensor(dict(kind='rand', d=2, D=spec['D'], seed=spec['seed']))
        if icalc.schmidt2(A)[-1] < 1e-3:
            raise Discard('nearly singular environment')
        R.h = h
        R.A0 = A
        R.t = Trajectory(iMPS([np.array(A)]), H=[h])
        return R
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    As = build.tensors(dict(kind='std', L=spec['L'], d=2, D=spec['D'], seed=spec['seed'], real=spec['real']))
    v = build.psi(As, 2)
    for n in range(1, spec['L']):
        s = build.schmidt(v, n)
        s = np.sort(s)[::-1][:As[n].shape[1]]
        if s[-1] < 1e-4:
            raise Discard('nearly singular environment')
    if not spec['unit']:
        As = [A * 1.5 for A in As]
    R.hs = build.ham(dict(L=spec['L'], kind=spec['ham'], seed=spec['seed'], d=2))
    R.F = build.full_h(R.hs, 2)
    R.full = spec['full']
    R.m0 = fMPS([np.array(A) for A in As])
    R.d0 = dense(As)
    R.n0 = np.linalg.norm(build.vec(As))
    R.first = [np.array(A) for A in R.m0.data]
    R.t = Trajectory(R.m0, H=(R.F if R.full else R.hs), fullH=R.full)
    return R


def decode(R, n):
    t = R.t
    if R.kind == 'i':
        from xmps.iMPS import iMPS
        return [np.array(A) for A in iMPS().deserialize(np.array(t.mps_history[n]), 2, R.spec['D'], real=True).data]
    return [np.array(A) for A in t.read_record(n).data]


# ---------------------------------------------------------------- reference steps
def dA(R, As):
    if R.kind == 'i':
        from xmps.iMPS import iMPS
        return [np.array(B) for B in iMPS([np.array(A) for A in As]).dA_dt([R.h]).data]
    from xmps.fMPS import fMPS
    return [np.array(B) for B in fMPS([np.array(A) for A in As]).dA_dt(R.F if R.full else R.hs, fullH=R.full).data]


def add(As, c, Bs):
    return [A + c * B for A, B in zip(As, Bs)]


def ref_step(R, how, As, dt):
    if dt == 0:
        return As
    k1 = dA(R, As)
    if how == 'euler':
        return add(As, dt, k1)
    k2 = dA(R, add(As, dt / 2, k1))
    k3 = dA(R, add(As, dt / 2, k2))
    k4 = dA(R, add(As, dt, k3))
    return [A + dt / 6 * (a + 2 * b + 2 * c + d) for A, a, b, c, d in zip(As, k1, k2, k3, k4)]


def far(R, As, Bs):
    """distance of two states"""
    if R.kind == 'i':
        return np.sqrt(abs(1 - icalc.fidelity(As[0], Bs[0])))
    return build.rayclose(build.vec(As), build.vec(Bs))


TOL = dict(i=3e-6, f=1e-6, e=1e-6)


# ---------------------------------------------------------------- records
def count(R):
    return len(R.t.mps_history)


def check_old(R, who):
    """records seen before are the same bytes"""
    t = R.t
    if count(R) < len(R.rec):
        raise Violation('record-lost', '%s: %d records left of %d' % (who, count(R), len(R.rec)))
    for n, b in enumerate(R.rec):
        if np.asarray(t.mps_history[n]).tobytes() != b[0]:
            raise Violation('record-changed', '%s: record %d of %d' % (who, n, len(R.rec)))
    if R.kind != 'i':
        for n, b in enumerate(R.rec):
            try:
                m = t.read_record(n)
            except Exception as e:
                raise Violation('record-unreadable', '%s: record %d: %s' % (who, n, tb_text(e)))
            if [A.shape for A in m.data] != b[2] or any(not np.array_equal(A, B) for A, B in zip(m.data, b[1])):
                raise Violation('record-reads-differently', '%s: record %d: %s was %s' % (who, n, [A.shape for A in m.data], b[2]))
            if t.Ds[n] != max(max(x[1:]) for x in b[2]):
                raise Violation('wrong-bond-dimension', '%s: record %d: %s for %s' % (who, n, t.Ds[n], b[2]))
    for j, name in enumerate(('lys', 'lys_')):
        a, old = getattr(t, name, []), R.lys[j]
        if len(a) < len(old) or any(not np.array_equal(x, y) for x, y in zip(a, old)):
            raise Violation('exponents-lost', '%s: %s has %d of %d' % (who, name, len(a), len(old)))
    ed = list(getattr(t, 'ed_history', []))
    if len(ed) < len(R.ed) or any(not np.array_equal(a, b) for a, b in zip(ed, R.ed)):
        raise Violation('exact-record-lost', '%s: %d of %d' % (who, len(ed), len(R.ed)))


def take_new(R):
    t = R.t
    for n in range(len(R.rec), count(R)):
        As = decode(R, n)
        if not all(np.isfinite(A).all() for A in As):
            raise Violation('record-not-finite', 'record %d' % n)
        R.rec.append((np.asarray(t.mps_history[n]).tobytes(), As, [A.shape for A in As]))


def judge(ctx, R, how, T, start, new, complete, who):
    """new records are a prefix of the reference evolution from start"""
    if complete and len(new) != len(T) or len(new) > len(T):
        raise Violation('wrong-number-of-records', '%s: %d records for %d times' % (who, len(new), len(T)))
    if not new:
        return
    if start is not None:
        e = far(R, start, new[0])
        if not e < TOL[R.kind]:
            raise Violation('first-record-wrong', '%s: %.2e from the state the run was in' % (who, e))
    for n in range(1, len(new)):
        ctx.steps()
        dt = T[n] - T[n - 1]
        if how == 'ode':
            # the adaptive integrator: against exact flow by small rk4 steps
            B = new[n - 1]
            for _ in range(4):
                B = ref_step(R, 'rk4', B, dt / 4)
            tol = 2e-3
        else:
            B, tol = ref_step(R, how, new[n - 1], dt), TOL[R.kind]
        e = far(R, B, new[n])
        if not e < tol:
            raise Violation('record-is-not-the-next-state', '%s: record %d of %d at %s is %.2e from a step of %s (distance moved %.2e)' % (who, n, len(new), T[n], e, dt, far(R, new[n - 1], new[n])))


def now(R):
    """tensors of the state the run is in"""
    return [np.array(A) for A in R.t.mps.data]


def guarded(ctx, o, fn, label):
    """(result, error, where) with the fault of the operation, if any"""
    f = o.get('f')
    if not f:
        return ctx.call(label, fn), None, None
    if f['t'] == 'abort':
        ab = trace.Abort(f['n'], EXC[f['x']]('injected'))
        try:
            with ab:
                return fn(), None, None
        except BaseException as e:
            if not ab.fired:
                if isinstance(e, Violation):
                    raise
                raise Violation('unexpected-error:%s:%s' % (label, type(e).__name__), tb_text(e))
            if e is not ab.exc and not isinstance(e, (EXC[f['x']], Exception)):
                raise
            ctx.fault('abort:' + EXC[f['x']].__name__)
            return None, e, ab.where
    S, c = seams.S, dict(n=0, hit=0)
    if f['t'] == 'svd':
        def ctl(driver):
            c['n'] += 1
            if c['n'] >= f['n']:
                c['hit'] += 1
                return True
        S.svd = ctl
    else:
        from scipy.sparse.linalg import ArpackNoConvergence

        def ctl(real, A, a, k):
            c['n'] += 1
            if c['n'] >= f['n']:
                c['hit'] += 1
                raise ArpackNoConvergence('injected', np.array([]), np.array([]).reshape(0, 0))
            return real(A, *a, **k)
        S.eigs = ctl
    try:
        return fn(), None, None
    except Exception as e:
        if not c['hit']:
            raise Violation('unexpected-error:%s:%s' % (label, type(e).__name__), tb_text(e))
        return None, e, f['t']
    finally:
        S.svd = S.eigs = None
        if c['hit']:
            ctx.fault(f['t'], c['hit'])


# ---------------------------------------------------------------- derived quantities
def entropies(v, L):
    return [np.sort(build.schmidt(v, n))[::-1] for n in range(1, L)]


def vn(s):
    s = s[s > 1e-300]
    return -(s * np.log(s)).sum()


def expect_derived(R, name, o):
    """from the model"""
    L = R.spec['L']
    if R.kind == 'e':
        vs = [np.asarray(x).reshape(-1) for x in R.ed]
        vs = [x / np.linalg.norm(x) for x in vs]
    else:
        vs = [dense(As) for _, As, _ in R.rec]
    ts = [x.reshape([2] * L) for x in vs]
    if name == 'mps_evs':
        return [[build.expval(x, P, [o['k'] % L]).real for P in (build.X, build.Z)] for x in ts]
    if name == 'ed_evs':
        return [[np.vdot(x, P @ x).real for P in R.obs] for x in vs]
    if name == 'mps_energies':
        return [np.vdot(x, R.F @ x).real / (1 if R.full else L) for x in vs]
    if name == 'ed_energies':
        return [[np.vdot(x, R.F @ x).real] for x in vs]
    if name == 'loschmidt':
        return [abs(np.vdot(vs[0], x)) for x in vs]
    if name == 'von_neumann':
        return [max([vn(s) for s in entropies(x, L)] + [0]) for x in ts]
    if name == 'renyi':
        a = [2, 3, .5][o['k'] % 3]
        return [max([np.log((s ** a).sum()) / (1 - a) for s in entropies(x, L)] + [0]) for x in ts]


def derive(ctx, R, o, who):
    t = R.t
    if R.kind == 'i':
        if not R.rec:
            return
        res, err, where = guarded(ctx, o, t.loschmidts, 'loschmidts')
        if err is not None:
            return err
        want = []
        for _, As, _ in R.rec:
            want.append(-np.log(icalc.fidelity(As[0], R.rec[0][1][0])))
        res = np.ravel(res)
        if len(res) != len(want) or not np.allclose(res, want, atol=1e-6):
            raise Violation('derived-differs:loschmidts', '%s: %s, records say %s' % (who, res, want))
        return
    L = R.spec['L']
    e = R.kind == 'e'
    if e and not R.ed or not e and not R.rec:
        return
    names = ['mps_list', 'schmidts', 'loschmidt', 'von_neumann', 'renyi', 'mps_evs', 'ed_energies' if e else 'mps_energies', 'ed_evs' if e else 'deserialize']
    name = names[o['k'] % len(names)]
    r = build.rng(o['seed'])
    R.obs = [build.herm(r, 2 ** L), build.herm(r, 2 ** L)]
    a = [2, 3, .5][o['k'] % 3]
    if not e and name == 'renyi' and a < 1:
        a = 2
        o = dict(o, k=0)
    calls = dict(mps_evs=lambda: t.mps_evs([build.X, build.Z], o['k'] % L), ed_evs=lambda: t.ed_evs(R.obs), renyi=lambda: t.renyi(a))
    if e and name in ('renyi',) and a < 1:
        return
    ctx.stats['op:' + name] += 1
    res, err, where = guarded(ctx, o, calls.get(name, lambda: getattr(t, name)()), name)
    if err is not None:
        return err
    if name in ('mps_list', 'deserialize'):
        want = [dense(x[1]) for x in R.rec] if not e else [x / np.linalg.norm(x) for x in R.ed]
        if len(res) != len(want):
            raise Violation('derived-differs:' + name, '%s: %d states for %d records' % (who, len(res), len(want)))
        for n, (m, w) in enumerate(zip(res, want)):
            if not build.rayclose(build.vec(m.data), w) < 1e-6:
                raise Violation('derived-differs:' + name, '%s: state %d' % (who, n))
        return
    if name == 'schmidts':
        vs = [dense(x[1]) for x in R.rec] if not e else R.ed
        ok = len(res) == len(vs)
        for v, sch in zip(vs, res):
            want = entropies(np.asarray(v).reshape([2] * L), L)
            got = [np.sort(np.real(s))[::-1] for s in sch[1:L]]
            ok = ok and len(got) == len(want) and all(np.allclose(np.pad(g, (0, max(0, len(w) - len(g))))[:len(w)], w, atol=1e-7) for g, w in zip(got, want))
        if not ok:
            raise Violation('derived-differs:schmidts', who)
        return
    want = expect_derived(R, name, dict(o, k=o['k']))
    tol = 1e-4 if name == 'renyi' else 2e-6
    if np.shape(res) != np.shape(want) or not np.allclose(res, want, atol=tol, rtol=1e-6):
        raise Violation('derived-differs:' + name, '%s: %s, records say %s' % (who, np.asarray(res).tolist(), want))


# ---------------------------------------------------------------- one run
def usable(R):
    """can the current state be evolved?"""
    if R.taint:
        return False
    if R.kind == 'i':
        A = R.t.mps.data[0]
        fx = icalc.fixed(A)
        return fx[3] > 1e-3 and icalc.schmidt2(A, fx)[-1] > 1e-6
    As = R.t.mps.data
    v = dense(As).reshape([2] * R.spec['L'])
    for n in range(1, len(As)):
        b = As[n].shape[1]
        s = np.sort(build.schmidt(v, n))[::-1]
        if b > len(s) or s[b - 1] < 1e-6:
            # bonds into sites that are full need no environment
            return False
    return True


def integrate(ctx, R, o, who):
    t, k = R.t, o['op']
    if R.kind == 'e' or k == 'ed':
        return exact(ctx, R, o, who)
    if not usable(R):
        return
    T = o['T'] if o['as_list'] else np.array(o['T'])
    start, pre = now(R), now(R)
    n0 = len(R.rec)
    fn = dict(euler='eulerint', rk4='rk4int', ode='odeint')[k]
    res, err, where = guarded(ctx, o, lambda: getattr(t, fn)(T), fn)
    check_old(R, who)
    take_new(R)
    new = [x[1] for x in R.rec[n0:]]
    judge(ctx, R, k, o['T'], start, new, err is None, who + (' (interrupted at %s)' % where if err is not None else ''))
    if new:
        R.segs += 1
    if err is None:
        if not far(R, now(R), new[-1]) < TOL[R.kind]:
            raise Violation('not-left-at-last-record', who)
        if R.kind != 'i':
            if len(t.Ds) != count(R) + 1 or t.Ds[-1] != t.mps.bond_dimension:
                raise Violation('wrong-bond-dimension', '%s: %s for %d records, current state %s' % (who, t.Ds, count(R), t.mps.bond_dimension))
        if res is not t:
            raise Violation('integrator-returned-something-else', who)
        R.seg.append((k, o['T'], start, new))
    else:
        ctx.nontrivial = True
        ctx.probe('integration interrupted with new records' if new else 'integration interrupted before the first record')
        if R.kind == 'i':
            R.taint = True     # its own canonicalisation works in place
        else:
            opts = [pre] + new[-1:]
            if not any(far(R, now(R), x) < TOL[R.kind] for x in opts):
                raise Violation('interrupted-run-left-elsewhere', who)
    return err


def exact(ctx, R, o, who):
    t = R.t
    if R.taint:
        return
    T = o['T'] if o['as_list'] else np.array(o['T'])
    start = dense(t.mps.data)
    n0 = len(R.ed)
    res, err, where = guarded(ctx, o, lambda: t.edint(T), 'edint')
    check_old(R, who)
    new = [np.array(x) for x in list(getattr(t, 'ed_history', []))[n0:]]
    if err is not None:
        if new and len(new) != len(T):
            raise Violation('partial-exact-segment', who)
        ctx.nontrivial = True
    elif len(new) != len(T):
        raise Violation('wrong-number-of-records', '%s: %d states for %d times' % (who, len(new), len(T)))
    v = start
    for n, x in enumerate(new):
        if n:
            v = sl.expm(-1j * (T[n] - T[n - 1]) * R.F) @ v
        if not build.rayclose(v, x) < 1e-8:
            raise Violation('exact-state-wrong', '%s: state %d is %.2e away' % (who, n, build.rayclose(v, x)))
    R.ed += new
    if new:
        R.segs += 1
    if err is None:
        if not build.rayclose(dense(t.mps.data), new[-1]) < 1e-7 or not build.rayclose(np.asarray(t.psi), new[-1]) < 1e-8:
            raise Violation('not-left-at-last-record', who)
        R.seg.append(('ed', o['T'], None, new))
    return err


def series(R, n, who, partial=False):
    """exponents already recorded stay, n new ones follow"""
    out = []
    for j, name in enumerate(('lys', 'lys_')):
        a, old = getattr(R.t, name, []), R.lys[j]
        if len(a) < len(old) or any(not np.array_equal(x, y) for x, y in zip(a, old)):
            raise Violation('exponents-lost', '%s: %s has %d of %d' % (who, name, len(a), len(old)))
        if len(a) != len(old) + n and not (partial and len(a) == len(old)):
            raise Violation('exponents-partly-recorded' if partial else 'exponents-lost', '%s: %s has %d + %d' % (who, name, len(old), len(a) - len(old)))
        R.lys[j] = [np.array(x) for x in a]
        out.append(np.array(a[len(old):]))
    return out


def rerun(ctx, R, o, who):
    """look at a run, clear it, evolve otherwise with as many records, look again"""
    t = R.t
    if R.taint or R.kind == 'i':
        return
    r = build.rng(o['seed'] + 77)
    looks = [int(x) for x in r.choice(8, 4, replace=False)]

    def look():
        for x in looks:
            derive(ctx, R, dict(op='derive', k=x + 24 * (o['k'] % 5), seed=o['seed']), who)
    look()
    n = len(R.ed) if R.kind == 'e' else len(R.rec)
    ctx.call('clear', t.clear)
    R.rec, R.seg, R.ed, R.lys = [], [], [], [[], []]
    if o['k'] % 3 == 0:
        # another Hamiltonian
        R.hs = build.ham(dict(L=R.spec['L'], kind='random', seed=o['seed'], d=2))
        R.F = build.full_h(R.hs, 2)
        t.H = R.F if R.spec['full'] else R.hs
    dt = [.013, .04, -.02][o['seed'] % 3]
    T = [round(dt * j, 6) for j in range(n if n else len(o['T']))]
    if R.kind == 'e':
        exact(ctx, R, dict(op='ed', T=T, as_list=False), who)
    elif R.full == R.spec['full']:
        integrate(ctx, R, dict(op=['euler', 'rk4'][o['k'] % 2], T=T, as_list=False), who)
    look()
    ctx.probe('another run with as many records after clear')


def lyap(ctx, R, o, who):
    """Lyapunov exponents along the evolution: one record per step"""
    t = R.t
    if R.full or R.spec['L'] > 3 or R.spec['L'] < 2 or R.spec['D'] > 2 or not usable(R) or max(A.shape[2] for A in t.mps.data) > 2:
        return
    if t.mps.tangent_space_dims() is not None and sum(a * b for a, b in t.mps.tangent_space_dims()) == 0:
        return
    if abs(np.linalg.norm(build.vec(t.mps.data)) - 1) > 1e-9:
        return                # Lyapunov steps record the state as it was given
    shapes = [A.shape for A in t.mps.data]
    if hasattr(t, 'Q') and R.shapes != shapes:
        return                # the basis carried along belongs to other bond dimensions
    R.shapes = shapes
    n0, start = len(R.rec), now(R)
    T = np.array(o['T'] if len(o['T']) > 1 else o['T'] * 2)
    if len(o['T']) < 2 or abs(T[1] - T[0]) < 1e-9:
        return
    if not o.get('f') and o['k'] % 3 == 0:
        # a run in two parts records what the run in one part records
        T = T[0] + (T[1] - T[0]) * np.arange(4 + o['k'] % 2)
        one, two, l0 = copy.deepcopy(t), copy.deepcopy(t), len(R.lys[0])
        c = 2 + o['seed'] % (len(T) - 3)
        ctx.call('lyapunov', lambda: one.lyapunov(T, thresh=None))
        for part in (T[:c], T[c:]):
            ctx.call('lyapunov', lambda: two.lyapunov(part, thresh=None))
        if len(one.lys) != len(two.lys) or not np.allclose(one.lys, two.lys, atol=1e-8) or not np.allclose(one.lys_[:l0 + c], two.lys_[:l0 + c], atol=1e-8):
            raise Violation('run-in-parts-differs', '%s: %s and %s exponents' % (who, np.shape(one.lys), np.shape(two.lys)))
        if len(one.mps_history) != len(two.mps_history) or any(not build.rayclose(build.vec(one.read_record(n).data), build.vec(two.read_record(n).data)) < 1e-7 for n in range(len(one.mps_history))):
            raise Violation('run-in-parts-differs', who + ': states')
        if not np.allclose(abs(one.Q.conj().T @ two.Q), np.eye(one.Q.shape[1]), atol=1e-6):
            raise Violation('run-in-parts-differs', who + ': basis')
        ctx.probe('exponents of a run in two parts')
    res, err, where = guarded(ctx, o, lambda: t.lyapunov(T, thresh=None), 'lyapunov')
    check_old(R, who)
    take_new(R)
    new = [x[1] for x in R.rec[n0:]]
    dt = T[1] - T[0]
    Tn = [T[0] + dt * j for j in range(len(T))]
    judge(ctx, R, 'rk4', Tn, start, new, err is None, who)
    if new:
        R.segs += 1
    if err is not None:
        ctx.nontrivial = True
        R.taint = True
        series(R, len(T), who, partial=True)
        return err
    got = series(R, len(T), who)[0]
    want = np.cumsum(got, axis=0) / np.arange(1, len(T) + 1)[:, None] / dt
    if not np.allclose(t.exps, want, atol=1e-8):
        raise Violation('exponents-not-the-average', who)
    if len(res) != 3 or not np.array_equal(res[1][1], t.lys) or not np.array_equal(res[2][1], t.lys_) or len(res[0]) != len(T):
        raise Violation('exponents-returned-differ', who)
    end = ref_step(R, 'rk4', new[-1], dt)
    if not far(R, end, now(R)) < 1e-6:
        raise Violation('not-left-at-last-record', '%s: %.2e' % (who, far(R, end, now(R))))
    return None


def step(ctx, runs, i, o):
    R = runs[i]
    t, k = R.t, o['op']
    who = 'run %d %s' % (i, k)
    err = None
    if k in ('euler', 'rk4', 'ode', 'ed'):
        err = integrate(ctx, R, o, who)
    elif k == 'derive':
        err = derive(ctx, R, o, who)
    elif k == 'lyap':
        err = lyap(ctx, R, o, who)
    elif k == 'rerun':
        rerun(ctx, R, o, who)
    elif k == 'contract':
        if not usable(R):
            return
        b = t.mps.bond_dimension
        D = 1 + o['k'] % b
        v = dense(t.mps.data)
        res, err, where = guarded(ctx, o, lambda: t.contract(D), 'contract')
        if err is not None:
            R.taint = True
        else:
            if t.mps.bond_dimension > D:
                raise Violation('contract-ignored', who)
            if D == b and not build.rayclose(v, dense(t.mps.data)) < 1e-7:
                raise Violation('contract-changed-state', who)
            if t.Ds[-1] != t.mps.bond_dimension:
                raise Violation('wrong-bond-dimension', who)
    elif k == 'expand':
        # zero padding: the state stays the same
        if R.taint or R.spec['L'] < 2:
            return
        b = t.mps.bond_dimension
        D = b + o['k'] % 3
        std = build.std_bonds(R.spec['L'], 2, D)
        if any(A.shape[2] > x for A, x in zip(t.mps.data, std[1:])):
            return
        v = dense(t.mps.data)
        res, err, where = guarded(ctx, o, lambda: t.expand(D), 'expand')
        if err is not None:
            R.taint = True
        elif not build.rayclose(v, dense(t.mps.data)) < 1e-7:
            raise Violation('expand-changed-state', who)
        elif t.Ds[-1] != t.mps.bond_dimension:
            raise Violation('wrong-bond-dimension', who)
    elif k == 'regauge':
        if R.taint:
            return
        v = dense(t.mps.data)
        res, err, where = guarded(ctx, o, [t.mps.left_canonicalise, t.mps.right_canonicalise, lambda: t.mps.mixed_canonicalise(o['k'] % R.spec['L'])][o['k'] % 3], 'canonicalise')
        if err is not None:
            R.taint = True
        elif not build.rayclose(v, dense(t.mps.data)) < 1e-7:
            raise Violation('gauge-change-changed-state', who)
    elif k == 'poke':
        # a client edits states it read out of the run
        if not R.rec:
            return
        for m in ctx.call('mps_list', t.mps_list):
            for A in m.data:
                A *= 2
                A[0] += 1
    elif k == 'swap':
        # the client puts the run in another state
        r = build.rng(o['seed'] + 3)
        if R.kind == 'i':
            from xmps.iMPS import iMPS
            A = icalc.itensor(dict(kind='rand', d=2, D=R.spec['D'], seed=o['seed']))
            if icalc.schmidt2(A)[-1] < 1e-3:
                return
            t.mps = iMPS([A])
            R.taint = False
        elif R.taint:
            return
        elif o['k'] % 2:
            # in place
            n = o['k'] % R.spec['L']
            t.mps[n] = t.mps.data[n] + .3 * build.crandn(r, t.mps.data[n].shape)
        else:
            from xmps.fMPS import fMPS
            t.mps = fMPS([build.crandn(r, A.shape) for A in t.mps.data])
        if R.kind != 'i':
            if R.spec['unit']:
                ctx.call('left_canonicalise', t.mps.left_canonicalise)
            t.Ds[-1:] = [t.mps.bond_dimension]
        ctx.probe('run put in another state')
    elif k == 'cont':
        # continue from the last record
        if not R.rec:
            if R.kind == 'i':
                t.mps = t.mps_0.copy()
                R.taint = False
            return
        if R.kind == 'i':
            from xmps.iMPS import iMPS
            t.mps = iMPS().deserialize(t.mps_history[-1], 2, R.spec['D'], real=True)
        else:
            t.mps = ctx.call('mps_list', t.mps_list)[-1]
            t.Ds[-1:] = [t.mps.bond_dimension]
        if not far(R, now(R), R.rec[-1][1]) < 1e-12:
            raise Violation('last-record-reads-differently', who)
        R.taint = False
    elif k in ('clear', 'again'):
        seg = R.seg[:1]
        res, err, where = guarded(ctx, o, t.clear, 'clear')
        if err is not None:
            # run clear again
            ctx.call('clear', t.clear)
        R.rec, R.seg, R.ed, R.lys, R.taint = [], [], [], [[], []], False
        if count(R) or hasattr(t, 'ed_history') or hasattr(t, 'lys') or t.has_run_lyapunov or len(t.Ds) != 1:
            raise Violation('clear-left-records', '%s: %d records, %s' % (who, count(R), t.Ds))
        if any(a.shape != b.shape or not np.array_equal(a, b) for a, b in zip(t.mps.data, R.first)) or any(not np.array_equal(a, b) for a, b in zip(t.mps_0.data, R.first)):
            raise Violation('clear-did-not-restore', who)
        if k == 'again' and seg and R.segstart:
            how, T, start, new = seg[0]
            o2 = dict(op=how, T=T, as_list=False, s=i)
            if how == 'ed':
                exact(ctx, R, o2, who)
                ok = len(R.ed) == len(new) and all(build.rayclose(a, b) < 1e-9 for a, b in zip(R.ed, new))
            else:
                integrate(ctx, R, o2, who)
                ok = len(R.rec) == len(new) and all(far(R, a[1], b) < 1e-7 for a, b in zip(R.rec, new))
            if not ok:
                raise Violation('repeat-differs', who)
            ctx.probe('repeated after clear')
    elif k == 'fork':
        if len(runs) > 4:
            return
        c, err, where = guarded(ctx, o, t.copy, 'copy')
        if err is None:
            N = Run(R.kind, R.spec)
            N.__dict__.update({a: ([list(x) for x in b] if a == 'lys' else list(b) if isinstance(b, list) else b) for a, b in R.__dict__.items()})
            N.t = c
            runs.append(N)
            check_old(N, who + ' (copy)')
    ctx.stats['op:' + k] += 1
    ctx.state((R.kind, k, type(err).__name__ if err is not None else 'ok', o.get('f', {}).get('t'), min(R.segs, 4), R.taint))


def run(case, ctx):
    runs = [make(s) for s in case['lives']]
    for R in runs:
        R.segstart = True
    for o in case['ops']:
        i = o['s'] % len(runs) if o['s'] < len(case['lives']) else o['s']
        # forks of a run take turns with it
        same = [j for j, R in enumerate(runs) if R.spec is runs[i].spec]
        i = same[o['seed'] % len(same)]
        R = runs[i]
        if not R.seg and o['op'] not in ('clear', 'again'):
            # is the first segment about to start from the initial state?
            if R.kind == 'i':
                R.segstart = False
            else:
                R.segstart = not R.taint and len(R.rec) == 0 and not R.ed and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(R.t.mps.data, R.first))
        ctx.ev(i, o['op'])
        step(ctx, runs, i, o)
        for j, Q in enumerate(runs):
            check_old(Q, 'run %d after %s of run %d' % (j, o['op'], i))
            for n in range(len(Q.rec)):
                if n >= len(Q.rec) - 2:
                    ctx.data('r%d' % n, np.frombuffer(Q.rec[n][0], dtype=np.uint8))
    if sum(R.segs for R in runs) >= 2:
        ctx.nontrivial = True
