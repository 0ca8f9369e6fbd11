"""C11: re-seeding the global generator makes every randomised computation repeat."""
import contextlib, io, json, os, random, subprocess, sys
import numpy as np
from .. import build, core, disk, icalc, seams, trace
from ..core import Violation, tb_text

RUNS = dict(quick=1500, thorough=100000)
TIMEOUT = 90
RULE = ('one run = one program of 2-8 randomised computations and deterministic operations, executed twice in one process after the same seeding: the second time after another history (random and deterministic operations, some '
        'aborted at chosen lines), under another clock, other identifiers and other operating-system entropy, with deterministic operations inserted between; and for a part of the runs in a new interpreter with another hash seed. '
        'Results and generator states are compared bit by bit (values of iterative solvers to rounding). Non-trivial: one randomised computation and one difference of environment. Distinct: by the full case.')
STATES = 'distinct (operation, operation executed before it, way of seeding) combinations'
COMPONENTS = dict(real=['xmps.fMPS, iMPS, fPEPS, fTDVP, iTDVP, iOptimize, peps_tools, tensor, projects.fHam, projects.iHam', 'numpy generators'], simulated=['operating-system entropy', 'clock', 'unique identifiers', 'process id', 'hash seed', 'histories and aborts'], stub=['progress bars and printing discarded'])
ASSUMPTIONS = ['ARPACK keeps its own start vector state, so values computed with it repeat to rounding only']
LEVEL = 'fault_enumeration'
LINES = True
EXC = [KeyboardInterrupt, MemoryError, np.linalg.LinAlgError]
T3 = [0, .01, .02]


def cleanup(pid):
    disk.cleanup(pid)


OPS = {}


def op(name, tol=0, w=1, light=True):
    def deco(f):
        OPS[name] = (f, tol, name.startswith('r_'), light)
        return f
    return deco


# ---------------------------------------------------------------- inputs, independent of the generator
ROOT, NDIR = [None], [0]


def tmp():
    if ROOT[0] is None:
        g = os.getpid
        os.getpid = REALPID
        ROOT[0] = disk.scratch_dir()
        os.getpid = g
    NDIR[0] += 1
    d = os.path.join(ROOT[0], str(NDIR[0]))
    os.makedirs(d)
    return d


REALPID = os.getpid


def chain(o, D=None, L=None, d=2, can='right_canonicalise'):
    from xmps.fMPS import fMPS
    As = build.tensors(dict(kind='std', L=L or 2 + o['a'] % 4, d=d, D=D or 1 + o['b'] % 4, seed=o['c']))
    m = fMPS([np.array(x) for x in As])
    return getattr(m, can)() if can else m


def ham(L, o):
    return build.ham(dict(L=L, kind=['tfi', 'heis', 'random'][o['b'] % 3], seed=o['c']))


def imps(o):
    from xmps.iMPS import iMPS
    return iMPS([icalc.itensor(dict(kind=['rand', 'left', 'gauged'][o['a'] % 3], d=2, D=2 + o['b'] % 3, seed=o['c']))])


def peps(o):
    from xmps.fPEPS import fPEPS
    r = build.rng(o['c'])
    p = fPEPS()
    p.Lx, p.Ly, p.d, p.X = 2, 2 + o['a'] % 2, 2, 2
    p.data = [[build.crandn(r, s) for s in row] for row in p.create_structure(p.Lx, p.Ly, 2, 2)]
    return p


# ---------------------------------------------------------------- randomised computations
@op('r_fmps')
def _(o):
    from xmps.fMPS import fMPS
    D = [1, 2, 3, 5, 1][o['a'] % 5]
    d = 2 if D == 1 else [2, 3][o['b'] % 2]
    m = fMPS().random(1 + o['c'] % 6, d, D, real=o['b'] % 4 == 3)
    return m.data + [m.L, m.d, m.D]


@op('r_fmps_again')
def _(o):                       # an object that is used again
    from xmps.fMPS import fMPS
    m = fMPS().random(3, 2, 2)
    m.left_canonicalise()
    a = [np.array(x) for x in m.data]
    m.random(2 + o['a'] % 3, 2, 1 + o['b'] % 3)
    return a + m.data


@op('r_ftfd')
def _(o):
    from xmps.fMPS import fTFD
    return fTFD().random(2 + o['a'] % 3, 2, 2, pure=o['b'] % 2 == 0).data


@op('r_imps')
def _(o):
    from xmps.iMPS import iMPS
    return iMPS().random([2, 3][o['a'] % 2], 1 + o['b'] % 4, 1 + o['c'] % 2).data


@op('r_ivmps')
def _(o):
    from xmps.iMPS import ivMPS
    return [x for t in ivMPS().random([2, 3][o['a'] % 2], 1 + o['b'] % 4, 1 + o['c'] % 2).data for x in t]


@op('r_peps')
def _(o):
    from xmps.fPEPS import fPEPS
    return [x for row in fPEPS().random(2 + o['a'] % 2, 1 + o['b'] % 3, 2, 1 + o['c'] % 3).data for x in row]


@op('r_mpo')
def _(o):
    from xmps.fPEPS import fMPO
    return fMPO().random(2 + o['a'] % 3, 2 + o['b'] % 2, 1 + o['c'] % 3).data


@op('r_haar')
def _(o):
    from xmps.tensor import haar_unitary
    u = haar_unitary(2 + o['a'] % 5)
    if np.abs(u @ u.conj().T - np.eye(len(u))).max() > 1e-10:
        raise Violation('haar-unitary', 'haar_unitary returned a matrix that is not unitary')
    return [u]


@op('r_basis')
def _(o):
    m = chain(o, 2, 2 + o['a'] % 2)
    return [m.tangent_space_basis('rand')]


@op('r_energy', light=False, tol=1e-6)
def _(o):
    from xmps.fMPS import fMPS
    L = 2 + o['a'] % 2
    H = ham(L, o)
    try:
        m = fMPS().random_with_energy_E(.1, H, L, 2, 2, tol=1e-4, maxiters=10)
    except Exception as e:
        if type(e) is not Exception:
            raise
        return [str(e)]
    return m.data


@op('r_fham', light=False, tol=1e-8)
def _(o):
    from xmps.projects import fHam
    A, e = fHam.optimise(fHam.heis(2 + o['a'] % 2) if o['b'] % 2 else fHam.isin(3), 3 if o['b'] % 2 == 0 else 2 + o['a'] % 2, 2, max_iters=2)
    return A.data + [e]


@op('r_iham', light=False, tol=1e-5)
def _(o):
    from xmps.projects import iHam
    A, e = iHam.optimise(iHam.heis() if o['b'] % 2 else iHam.isin(), 2, max_iters=2)
    return [e]


@op('r_gs', light=False, tol=1e-5)
def _(o):
    from xmps.iOptimize import find_ground_state
    m, es = find_ground_state(ham(2, o)[0], 2, maxiters=3)
    return [np.array(es), icalc.expect1(m.data[0], build.Z)]


@op('r_mixed', tol=1e-7)
def _(o):
    m = imps(o)
    AL, AR, C = m.mixed()
    f = [icalc.expect1(x.data[0], build.X) for x in (AL, AR)]
    return f + [np.sort(np.linalg.svd(C, compute_uv=False))]


@op('r_lyap', light=False, tol=1e-6)
def _(o):
    from xmps.fTDVP import Trajectory
    m = chain(o, 2, 3)
    T, (e, ly, _, _), _2 = Trajectory(m, ham(3, o)).lyapunov(np.array(T3), initial_basis='rand', thresh=None)
    return [ly]


@op('r_dis', light=False, tol=1e-7)
def _(o):
    from xmps.peps_tools import renyi_2_disentangler
    r = build.rng(o['c'])
    U, Ss = renyi_2_disentangler(build.crandn(r, (2, 2, 2, 2)) / 4, max_iter=2 + o['a'] % 3, max_restarts=1 + o['b'] % 2, eps=1e-12)
    return [U, np.array(Ss)]


@op('r_idA', tol=1e-5)
def _(o):
    m = imps(o).left_canonicalise()
    d = m.dA_dt([ham(2, o)[0]])
    return [icalc.expect1(m.data[0] + .1 * d[0] / (1 + np.linalg.norm(d[0])), build.Z)]


# ---------------------------------------------------------------- deterministic operations
@op('d_can')
def _(o):
    m = chain(o, can=None)
    [m.left_canonicalise, m.right_canonicalise, lambda: m.mixed_canonicalise(0), lambda: m.left_canonicalise(D=1 + o['b'] % 3)][o['a'] % 4]()
    return m.data


@op('d_meas')
def _(o):
    m = chain(o)
    return [m.E(build.X, 0), m.energy(ham(m.L, o)), m.recombine(), m.entanglement_entropy(m.L - 1), m.overlap(m.copy())]


@op('d_rho')
def _(o):
    m = chain(o, L=4)
    return [m.rho([1, 2]), m.E_k(np.kron(build.X, build.Z), [1, 2])] if m.bond_dimension > 1 else [m.E(build.Z, 1)]


@op('d_gate')
def _(o):
    m = chain(o, L=4)
    u = build.unitary(build.rng(o['c']), 4)
    return m.apply_two_site((u, (o['a'] % 3, o['a'] % 3 + 1)), D=[None, 2][o['b'] % 2]).data


@op('d_state')
def _(o):
    from xmps.fMPS import fMPS
    v = build.crandn(build.rng(o['c']), (2,) * 4)
    m = fMPS()
    [m.left_from_state, m.right_from_state][o['a'] % 2](v)
    return m.data + [(m + m).recombine(), (2 * m - m).recombine()]


@op('d_dA')
def _(o):
    m = chain(o, 2, 3 + o['a'] % 2)
    return m.dA_dt(ham(m.L, o)).data + [m.projection_error(ham(m.L, o), .01)]


@op('d_jac', light=False)
def _(o):
    m = chain(o, 2, 2 + o['a'] % 2)
    return [m.jac(ham(m.L, o)), m.tangent_space_basis('eye')]


@op('d_grow')
def _(o):
    m = chain(o, 2, 6)
    H = ham(6, o)
    return m.expand(3).data if o['a'] % 2 else m.dynamical_expand(H, .01, 4, None).data


@op('d_tdvp', light=False)
def _(o):
    from xmps.fTDVP import Trajectory
    m = chain(o, 2, 3)
    t = Trajectory(m, ham(3, o), fullH=False)
    [t.eulerint, t.rk4int, t.odeint, t.edint][o['a'] % 4](T3)
    return [t.mps.recombine(), np.array([x for x in (t.ed_history if o['a'] % 4 == 3 else [])])]


@op('d_store')
def _(o):
    from xmps.fMPS import fMPS
    m = chain(o)
    d = tmp()
    f = os.path.join(d, 'm%d' % o['c'])
    m.store(f)
    out = fMPS().load(f + '.npy' if os.path.exists(f + '.npy') else f)
    v = m.serialize(real=True)
    return out.data + [v]


@op('d_ckpt')
def _(o):
    from xmps.fTDVP import Trajectory
    d = tmp()
    t = Trajectory(chain(o, 2, 3), ham(3, o), run_name='run%d' % o['c'])
    t.rk4int(T3)
    os.makedirs(d + '/q', exist_ok=True)
    t.stop(loc=d + '/q/')
    t2 = Trajectory(chain(o, 2, 3), ham(3, o)).resume('run%d' % o['c'], loc=d + '/q/')
    return t2.mps.data if t2 is not None else []


@op('d_imps', tol=1e-7)
def _(o):
    m = imps(o)
    h = ham(2, o)[0]
    a = [m.energy([h]), m.overlap(imps(dict(o, c=o['c'] + 1, b=o['b'], a=o['a'] + 1)))]
    c = [m.left_canonicalise, m.right_canonicalise, lambda: m.canonicalise('m')][o['a'] % 3]()
    return a + [icalc.expect1(c.data[0], build.Y), c.E(build.Z)]


@op('d_peps')
def _(o):
    p = peps(o)
    q = p.copy().normalise()
    return [np.asarray(p.overlap(q)), q.E(build.X, (0, 1)), p.T.recombine()]


@op('d_tfd')
def _(o):
    from xmps.fMPS import fTFD
    r = build.rng(o['c'])
    t = fTFD([build.crandn(r, (4,) + tuple(s)) for s in fTFD().create_structure(3, 4, 4)])
    t.right_canonicalise()
    return t.data + [t.E(build.X, 1, lr=o['a'] % 2)]


@op('d_vidal')
def _(o):
    from xmps.fMPS import vfMPS
    return vfMPS().from_fMPS(chain(o, can='left_canonicalise')).to_fMPS().data


@op('d_spin')
def _(o):
    from xmps.spin import spins, N_body_spins, extractv
    a = list(spins(.5 + .5 * (o['a'] % 3))) + list(N_body_spins(.5, 1, 2))
    return a


@op('d_dis')
def _(o):
    from xmps.peps_tools import renyi
    r = build.rng(o['c'])
    return [renyi(np.eye(4).reshape(2, 2, 2, 2), build.crandn(r, (2, 2, 2, 2)) / 4)]


RND = [k for k in OPS if k[0] == 'r']
DET = [k for k in OPS if k[0] == 'd']
LIGHT = [k for k in OPS if OPS[k][3]]


def gen(r, tier, k):
    def one(pool):
        return dict(op=r.choice(pool), a=r.randrange(60), b=r.randrange(60), c=r.randrange(1000))
    n = r.randint(1, 4 if tier == 'quick' else 7)
    heavy = r.random() < .4
    pool = RND if heavy else [x for x in RND if OPS[x][3]]
    ops = [one(pool) for _ in range(n)]
    for _ in range(r.randint(0, 2)):
        ops.insert(r.randrange(len(ops) + 1), one([x for x in DET if heavy or OPS[x][3]]))
    lives = [dict(one([x for x in OPS if heavy or OPS[x][3]]), seed=r.choice([None, None, r.randrange(1000)]), abort=round(r.random(), 4) if r.random() < .3 else None, exc=r.randrange(3)) for _ in range(r.randint(0, 3))]
    if r.random() < .5:              # the same computation with other parameters, or aborted, just before
        x = dict(r.choice(ops))
        for f in 'abc':
            if r.random() < .5:
                x[f] = r.randrange(60)
        lives.append(dict(x, seed=r.choice([None, r.randrange(1000)]), abort=round(r.random(), 4) if r.random() < .4 else None, exc=r.randrange(3)))
    faults = [dict(one([x for x in DET if OPS[x][3]]), at=r.randrange(len(ops))) for _ in range(r.choice([0, 1, 1, 2]))]
    return dict(ops=ops, lives=lives, faults=faults, gseed=r.randrange(2 ** 31), how=r.choice(['seed', 'seed', 'state', 'seedarr']), amb=[r.randrange(10 ** 9), r.randrange(10 ** 9)],
                fresh=k % 40 == 11, params={})


def ambient(n):
    """clock, identifiers, entropy, python's own generator and the process id, all from n"""
    S = seams.S
    S.ent = random.Random(n)
    S.rng = random.Random(n + 1)
    S.clock = 1.5e9 + (n % 10 ** 8)
    S.mono = n % 10 ** 5
    random.seed(n)
    pid = 1000 + n % 30000
    os.getpid = lambda: pid
    os.environ['RUN_ID'] = str(n)


def seed(case, i=0):
    s = (case['gseed'] + 7919 * i) % 2 ** 32
    if case['how'] == 'state':
        np.random.set_state(np.random.RandomState(s).get_state())
    elif case['how'] == 'seedarr':
        np.random.seed([s % 65536, s >> 16, 3])
    else:
        np.random.seed(s)


def gstate():
    a = np.random.get_state()
    return (a[0], a[1].tobytes(), a[2], a[3], a[4])


def out(xs):
    return [x if isinstance(x, str) else np.array(x) for x in xs]


def do(o):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return out(OPS[o['op']][0](o))


def same(a, b, tol):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
        elif x.shape != y.shape or x.dtype != y.dtype:
            return False
        elif tol == 0:
            if x.tobytes() != y.tobytes():
                return False
        elif not np.allclose(x, y, rtol=tol, atol=tol * max(1, np.abs(y).max() if y.size else 1), equal_nan=True):
            return False
    return True


def program(case, ins, ctx, what):
    """execute the program after seeding; results and generator states after each operation"""
    res = []
    seed(case)
    for i, o in enumerate(case['ops']):
        for f in case['faults'] if ins else []:
            if f['at'] == i:
                g = gstate()
                ctx.call('inserted:' + f['op'], do, f)
                ctx.stats['op:' + f['op']] += 1
                if gstate() != g:
                    raise Violation('disturbs:' + f['op'], 'inserted %s changed the state of the global generator' % f['op'])
        g = gstate()
        x = ctx.call(o['op'], do, o)
        ctx.stats['op:' + o['op']] += 1
        h = gstate()
        if o['op'][0] == 'd' and g != h:
            raise Violation('disturbs:' + o['op'], '%s is not randomised and changed the state of the global generator' % o['op'])
        if OPS[o['op']][1]:
            h = None
            seed(case, i + 1)          # the number of draws may depend on rounding
        res.append((x, h))
        ctx.steps()
    return res


def compare(case, A, B, ctx, what):
    for i, (o, (x, g), (y, h)) in enumerate(zip(case['ops'], A, B)):
        if not same(x, y, OPS[o['op']][1]):
            raise Violation('%s:%s' % (what, o['op']), 'operation %d of the program, %s, gives another result the second time\n%s\n%s' % (i, o, [np.ravel(z)[:3] for z in x[:2]], [np.ravel(z)[:3] for z in y[:2]]))
        if g != h:
            raise Violation('draws:%s:%s' % (what, o['op']), 'operation %d of the program, %s, leaves the generator in another state the second time' % (i, o))


def history(case, ctx):
    for o in case['lives']:
        if o['seed'] is not None:
            np.random.seed(o['seed'])
        if o['abort'] is None:
            try:
                do(o)
            except Violation:
                raise
            except Exception as e:
                raise Violation('unexpected-error:%s:%s' % (o['op'], type(e).__name__), tb_text(e))
            ctx.stats['op:' + o['op']] += 1
            continue
        a = trace.Abort()
        g = np.random.get_state()
        with a:
            do(o)
        np.random.set_state(g)
        a = trace.Abort(1 + int(o['abort'] * max(0, a.count - 1)), EXC[o['exc']]('injected'))
        try:
            with a:
                do(o)
        except Violation:
            raise
        except BaseException as e:
            pass
        if a.fired:
            ctx.fault('abort-' + EXC[o['exc']].__name__)


def enc(res):
    return [[x if isinstance(x, str) else [str(x.dtype), list(x.shape), x.tobytes().hex()] for x in xs] + [None if h is None else [h[0], h[1].hex(), h[2], h[3], h[4]]] for xs, h in res]


def dec(js):
    r = []
    for xs in js:
        h = xs[-1]
        r.append(([x if isinstance(x, str) else np.frombuffer(bytes.fromhex(x[2]), np.dtype(x[0])).reshape(x[1]) for x in xs[:-1]], None if h is None else (h[0], bytes.fromhex(h[1]), h[2], h[3], h[4])))
    return r


def run(case, ctx):
    ambient(case['amb'][0])
    reads = (seams.S.entropy_reads, seams.S.clock_reads, seams.S.uuids)
    A = program(case, False, ctx, 'first')
    for x, _ in A:
        for y in x:
            if not isinstance(y, str):
                ctx.data('r', y)
    ambient(case['amb'][1])
    ctx.fault('other-entropy-clock-identifiers')
    history(case, ctx)
    B = program(case, True, ctx, 'second')
    compare(case, A, B, ctx, 'repeat')
    # other seeds, other outcomes; the environment stays
    r0 = [i for i, o in enumerate(case['ops']) if o['op'][0] == 'r']
    i = r0[0] if r0 else None
    if i is not None:
        o = case['ops'][i]
        np.random.seed((case['gseed'] + 1) % 2 ** 32)
        x = ctx.call(o['op'], do, o)
        g1 = gstate()
        np.random.seed((case['gseed'] + 2) % 2 ** 32)
        y = ctx.call(o['op'], do, o)
        g2 = gstate()
        if o['op'] in ('r_fmps', 'r_fmps_again', 'r_ftfd', 'r_imps', 'r_ivmps', 'r_peps', 'r_mpo', 'r_haar', 'r_basis'):
            arr = [(p, q) for p, q in zip(x, y) if p.size > 1 or p.dtype.kind == 'c' or p.dtype.kind == 'f' and o['op'] != 'r_ivmps']
            for p, q in arr:
                if p.shape == q.shape and p.tobytes() == q.tobytes():
                    raise Violation('seed-ignored:' + o['op'], 'two seeds give the same tensor %s' % (p.shape,))
        if g1 == g2:
            raise Violation('reseeds:' + o['op'], 'after two different seeds the generator ends in the same state')
    for j, o in enumerate(case['ops']):
        ctx.state((o['op'], case['ops'][j - 1]['op'] if j else [l['op'] for l in case['lives']][-1:], case['how']))
    if case['fresh']:
        ctx.fault('new-interpreter-other-hash-seed')
        env = dict(os.environ, PYTHONHASHSEED=str(case['amb'][1] % 4294967295), VERIF_HASHSEED='keep')
        p = subprocess.run([sys.executable, '-m', 'sim.props.c11', 'sub'], input=json.dumps(case).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=core.VERIF, timeout=80)
        if p.returncode != 0:
            raise RuntimeError('subprocess: ' + p.stderr.decode()[-1500:])
        C = dec(json.loads(p.stdout.decode().strip().split('\n')[-1]))
        compare(case, A, C, ctx, 'new-process')
    ctx.nontrivial = bool(r0)


def sub():
    import warnings
    warnings.simplefilter('ignore')
    case = json.load(sys.stdin)
    real = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    seams.reset(case['amb'][1])
    ambient(case['amb'][1])
    res = enc(program(case, False, core.Ctx(case), 'new'))
    os.write(real, b'')
    b = (json.dumps(res) + '\n').encode()
    while b:
        b = b[os.write(real, b):]
    disk.cleanup(REALPID())
    os._exit(0)


if __name__ == '__main__':
    seams.install()
    from sim.props import c11
    c11.sub()
