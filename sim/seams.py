"""Seams installed before xmps is imported: solvers, SVD drivers, entropy, clock, locks."""
import os, random, sys, time, uuid, threading

S = None
_real = {}


class State:
    """everything the simulator decides inside one simulated process"""
    def __init__(self, seed):
        self.active = True
        self.rng = random.Random(seed)
        self.ent = random.Random(seed ^ 0x5eed)
        self.clock = 1.6e9 + self.rng.random() * 1e6
        self.mono = 1000.0 * self.rng.random()
        self.jump = 0.0                # probability of a clock jump per reading
        self.svd = None                # controller: fn(driver, args)->None or raises
        self.svd_calls = 0
        self.eigs = None               # controller for scipy.sparse.linalg.eigs
        self.eigs_calls = 0
        self.root = None
        self.root_calls = 0
        self.entropy_reads = 0
        self.clock_reads = 0
        self.uuids = 0
        self.uuid_repeat = 0


def reset(seed):
    global S
    import numpy as np
    S = State(seed)
    np.random.seed(seed & 0xffffffff)
    random.seed(seed)
    return S


def _tick():
    S.clock_reads += 1
    d = S.rng.random() * 1e-3
    S.mono += d
    S.clock += d
    if S.jump and S.rng.random() < S.jump:
        S.clock += S.rng.choice([-3600.0, -5.0, 5.0, 86400.0])


def install():
    # ---- clock
    def clk(name, scale, mono):
        real = getattr(time, name)
        _real[name] = real

        def f():
            if S is None or not S.active:
                return real()
            _tick()
            v = S.mono if mono else S.clock
            return v if scale == 1 else int(v * scale)
        f.__name__ = name
        setattr(time, name, f)
    real_mono = time.monotonic
    for n, s, m in (('time', 1, 0), ('time_ns', 10**9, 0), ('perf_counter', 1, 1), ('perf_counter_ns', 10**9, 1),
                    ('process_time', 1, 1)):
        clk(n, s, m)
    # time.monotonic stays real: only the harness and the interpreter's own waits use it here

    # ---- locks (before numpy/scipy create theirs)
    from . import trace
    _real['Lock'], _real['RLock'] = threading.Lock, threading.RLock
    threading.Lock = trace.SimLock
    threading.RLock = trace.SimRLock

    # ---- entropy
    real_urandom = os.urandom
    _real['urandom'] = real_urandom

    def urandom(n):
        if S is None or not S.active:
            return real_urandom(n)
        S.entropy_reads += 1
        return S.ent.randbytes(n)
    os.urandom = urandom
    random._urandom = urandom

    def uuid4():
        if S is None or not S.active:
            return uuid.UUID(bytes=real_urandom(16), version=4)
        S.uuids += 1
        return uuid.UUID(int=S.ent.getrandbits(128), version=4)
    uuid.uuid4 = uuid4
    uuid.uuid1 = lambda *a, **k: uuid4()

    import numpy as np
    import numpy.random.bit_generator as bg
    import secrets
    real_rb = secrets.randbits
    sysr = random.SystemRandom()

    def randbits(k):
        if S is None or not S.active:
            return sysr.getrandbits(k)
        S.entropy_reads += 1
        return S.ent.getrandbits(k)
    secrets.randbits = randbits
    bg.randbits = randbits
    real_seed = np.random.seed

    # ---- SVD drivers
    import scipy.linalg
    real_svd = scipy.linalg.svd
    real_np_svd = np.linalg.svd
    _real['svd'], _real['np_svd'] = real_svd, real_np_svd
    LinAlgError = np.linalg.LinAlgError

    def svd(a, full_matrices=True, compute_uv=True, overwrite_a=False, check_finite=True, lapack_driver='gesdd'):
        if S is not None and S.svd is not None and _from_lib():
            if S.svd(lapack_driver):
                if overwrite_a and isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = np.nan        # a failed driver may have destroyed its input
                raise LinAlgError('SVD did not converge')
        return real_svd(a, full_matrices, compute_uv, overwrite_a, check_finite, lapack_driver)
    scipy.linalg.svd = svd

    def np_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
        if S is not None and S.svd is not None and _from_lib():
            if S.svd('gesdd'):
                raise LinAlgError('SVD did not converge')
        return real_np_svd(a, full_matrices, compute_uv, hermitian)
    np.linalg.svd = np_svd

    # ---- iterative solvers
    import scipy.sparse.linalg as ssl
    import scipy.optimize
    real_eigs, real_root = ssl.eigs, scipy.optimize.root
    _real['eigs'], _real['root'] = real_eigs, real_root

    def eigs(A, *a, **k):
        if S is not None:
            S.eigs_calls += 1
            if S.eigs is not None:
                return S.eigs(real_eigs, A, a, k)
        return real_eigs(A, *a, **k)
    ssl.eigs = eigs

    def root(fun, x0, *a, **k):
        if S is not None:
            S.root_calls += 1
            if S.root is not None:
                return S.root(real_root, fun, x0, a, k)
        return real_root(fun, x0, *a, **k)
    scipy.optimize.root = root

    # ---- the code under test
    from . import core
    sys.path.insert(0, core.REPO)
    so = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(dn, 1)
    try:
        import xmps
        assert os.path.realpath(xmps.__path__[0]) == os.path.realpath(os.path.join(core.REPO, 'xmps')), xmps.__path__
        import xmps.fMPS, xmps.iMPS, xmps.fPEPS, xmps.fTDVP, xmps.iTDVP, xmps.iOptimize
        import xmps.tensor, xmps.ncon, xmps.spin, xmps.peps_tools, xmps.svd_robust, xmps.Hamiltonians, xmps.mps_examples
    finally:
        sys.stdout.flush()
        os.dup2(so, 1)
        os.close(so)
        os.close(dn)


def _from_lib():
    """is the SVD being called by a file of the code under test?"""
    from . import trace
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(trace.PREFIX)
