"""Runs, verdicts, worker pool, minimiser, replay and evidence.

A *case* is a JSON value made by a property module's gen(rng, tier, k); executing it with
run(case, ctx) is a function of the case and the code under test only.
"""
import collections, hashlib, importlib, json, math, os, random, resource, select, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ.get('VERIF_SCRATCH') or '/dev/shm'
NPROC = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property is broken.  cls is the class kept during minimisation."""
    def __init__(self, cls, msg=''):
        super().__init__(cls, msg)
        self.cls, self.msg = cls, str(msg)[:2000]


class Discard(Exception):
    """The case is outside the property's domain (counted, never a verdict)."""


class Ctx:
    def __init__(self, case, budget=None):
        self.case = case
        self.budget = budget          # line budget, None = no line counting
        self.stats = collections.Counter()
        self.states = set()
        self._h = hashlib.sha256()
        self.nontrivial = False
        self.trail = collections.deque(maxlen=60)
        self.log_on = bool(os.environ.get('VERIF_TRACE'))

    def ev(self, *xs):
        s = ' '.join(str(x) for x in xs)
        self._h.update(s.encode() + b'\n')
        self.trail.append(s)
        if self.log_on:
            print('  |', s, file=sys.stderr, flush=True)

    def data(self, tag, arr):
        """exact bytes of an array into the digest (determinism diffs)"""
        import numpy as np
        a = np.ascontiguousarray(arr)
        self._h.update(tag.encode() + str(a.shape).encode() + a.tobytes())

    def fault(self, kind, n=1):
        self.stats['fault:' + kind] += n

    def probe(self, name, n=1):
        self.stats['probe:' + name] += n

    def steps(self, n=1):
        self.stats['steps'] += n

    def state(self, key):
        if len(self.states) < 400:
            self.states.add(hashlib.md5(str(key).encode()).hexdigest()[:12])

    def digest(self):
        return self._h.hexdigest()[:24]

    def call(self, label, fn, *a, **k):
        """call code under test where no error is allowed"""
        try:
            return fn(*a, **k)
        except (Violation, Discard):
            raise
        except Exception as e:
            raise Violation('unexpected-error:%s:%s' % (label, type(e).__name__), tb_text(e))


def tb_text(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])[-1800:]


def subseed(*xs):
    return int.from_bytes(hashlib.sha256('/'.join(str(x) for x in xs).encode()).digest()[:8], 'big')


def rng_for(*xs):
    return random.Random(subseed(*xs))


def load_prop(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def where(e):
    """the deepest function of this package on the traceback"""
    import traceback
    here, name = os.path.dirname(os.path.abspath(__file__)), '?'
    for f in traceback.extract_tb(e.__traceback__):
        if os.path.abspath(f.filename).startswith(here) and f.name != '<lambda>':
            name = f.name
    return name


def from_library(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and os.path.abspath(tb[-1].filename).startswith(os.path.join(os.path.abspath(REPO), 'xmps'))


def audit(ctx):
    """for development: count the exceptions that the checks themselves absorb"""
    mon, here = sys.monitoring, os.path.dirname(os.path.abspath(__file__))
    mon.use_tool_id(4, 'audit')

    def seen(code, off, e):
        if code.co_filename.startswith(here):
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            k = '%s:%s %s %s @%s:%d' % (os.path.basename(code.co_filename), code.co_name, type(e).__name__, str(e)[:60], os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
            ctx.stats['op:ABSORBED ' + k] += 1
    mon.register_callback(4, mon.events.EXCEPTION_HANDLED, seen)
    mon.set_events(4, mon.events.EXCEPTION_HANDLED)


# ------------------------------------------------------------------ one run in a forked child
def _child(mod, case, budget, wfd, seed_extra):
    import warnings
    warnings.simplefilter('ignore')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_TRACE'):
        os.dup2(devnull, 2)
    ctx = Ctx(case, budget)
    out = {}
    if os.environ.get('VERIF_AUDIT'):
        audit(ctx)
    try:
        from . import seams
        seams.reset(subseed('proc', json.dumps(case, sort_keys=True)))
        if budget:
            from . import trace
            with trace.LineBudget(budget):
                mod.run(case, ctx)
        else:
            mod.run(case, ctx)
        out = dict(status='ok')
    except Violation as v:
        out = dict(status='violation', cls=v.cls, msg=v.msg)
    except Discard as d:
        out = dict(status='discard', msg=str(d))
    except BaseException as e:
        if type(e).__name__ == 'OutOfBudget':
            out = dict(status='violation', cls='no-progress', msg='line budget exceeded\n' + tb_text(e))
        elif isinstance(e, Exception) and not isinstance(e, (MemoryError, ImportError, OSError)) and (not isinstance(e, AssertionError) or from_library(e)):
            # the oracle is total on well-formed results: it stumbled over something the library handed back
            out = dict(status='violation', cls='unusable-result:%s@%s' % (type(e).__name__, where(e)), msg=tb_text(e))
        else:
            out = dict(status='error', msg=tb_text(e))
    out.update(stats=dict(ctx.stats), states=sorted(ctx.states), digest=ctx.digest(),
               nontrivial=bool(ctx.nontrivial), trail=list(ctx.trail) if out['status'] != 'ok' else [])
    b = json.dumps(out, default=str).encode()
    while b:
        n = os.write(wfd, b)
        b = b[n:]
    os._exit(0)


def fork_run(mod, case, timeout=None, budget=None):
    """execute one case in a fresh process; never raises"""
    timeout = timeout or getattr(mod, 'TIMEOUT', 60)
    if getattr(mod, 'LINES', False):
        from . import trace
        trace.warm()
    sys.stdout.flush(); sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        os.close(r)
        try:
            _child(mod, case, budget, w, None)
        finally:
            os._exit(3)
    os.close(w)
    buf, end, killed = b'', time.monotonic() + timeout, False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            killed = True
            break
        if select.select([r], [], [], min(left, 5))[0]:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
    os.close(r)
    if killed:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)   # descendants left behind (simulated lives)
    except OSError:
        pass
    clean = getattr(mod, 'cleanup', None)
    if clean:
        clean(pid)
    if killed:
        return dict(status='timeout', msg='no result after %gs' % timeout, stats={}, states=[], digest='', nontrivial=False, trail=[])
    try:
        return json.loads(buf)
    except Exception:
        return dict(status='died', msg='child ended with status %s and no result' % st, stats={}, states=[], digest='', nontrivial=False, trail=[])


def judged_run(mod, case):
    """fork_run, with stalls and sudden deaths turned into verdicts only when they repeat"""
    r = fork_run(mod, case)
    if r['status'] == 'timeout':
        r2 = fork_run(mod, case, timeout=getattr(mod, 'TIMEOUT', 60) * 2.5, budget=getattr(mod, 'BUDGET', 1500000))
        if r2['status'] == 'timeout':
            r2.update(status='violation', cls='no-progress', msg='no result twice (%gs, %gs)' % (getattr(mod, 'TIMEOUT', 60), getattr(mod, 'TIMEOUT', 60) * 2.5))
        return r2
    if r['status'] == 'died':
        r2 = fork_run(mod, case)
        if r2['status'] == 'died':
            r2.update(status='violation', cls='process-died', msg=r2['msg'])
        return r2
    return r


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def matches(k, cls, case):
    return k['cls'] == cls and all(case.get('params', {}).get(a) == b for a, b in k.get('params', {}).items())


# ------------------------------------------------------------------ pool
def make_case(mod, pid, seed, tier, k):
    case = mod.gen(rng_for(seed, pid, k), tier, k)
    case['prop'] = pid
    case['seed'] = seed
    case['run'] = k
    return case


def shape_sig(case):
    c = {k: v for k, v in case.items() if k not in ('seed', 'run', 'prop')}
    return hashlib.md5(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def pool(mod, pid, seed, tier, n, deadline=None, jobs=None, on_result=None):
    """run indices 0..n-1; stops scheduling past the first violating/erroring index"""
    import mmap, struct
    jobs = jobs or NPROC
    stop = mmap.mmap(-1, 8)
    stop[:8] = struct.pack('q', n)
    fds, pids = {}, []
    kf = known_findings(pid)
    for w in range(jobs):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            code = 0
            try:
                os.environ['VERIF_WORKER'] = str(w)
                for k in range(w, n, jobs):
                    if k > struct.unpack('q', stop[:8])[0]:
                        break
                    if deadline and time.monotonic() > deadline:
                        break
                    try:
                        case = make_case(mod, pid, seed, tier, k)
                        t0 = time.monotonic()
                        res = judged_run(mod, case)
                        res['wall'] = time.monotonic() - t0
                        res['sig'] = shape_sig(case)
                        if k < 3 or res['status'] != 'ok':
                            res['case'] = case
                    except BaseException as e:
                        res = dict(status='error', msg=tb_text(e), stats={}, states=[], digest='', nontrivial=False, wall=0, sig='')
                    res['k'] = k
                    bad = res['status'] not in ('ok', 'discard') and not (res['status'] == 'violation' and any(matches(q, res['cls'], res['case']) for q in kf))
                    if bad:
                        cur = struct.unpack('q', stop[:8])[0]
                        if k < cur:
                            stop[:8] = struct.pack('q', k)
                    b = (json.dumps(res) + '\n').encode()
                    while b:
                        m = os.write(wr, b)
                        b = b[m:]
            except BaseException:
                traceback.print_exc()
                code = 4
            os._exit(code)
        os.close(wr)
        fds[r] = b''
        pids.append(p)
    results = []
    while fds:
        for r in select.select(list(fds), [], [])[0]:
            c = os.read(r, 1 << 18)
            if not c:
                if fds[r]:
                    results.append(dict(status='error', msg='worker cut off', k=-1, stats={}, states=[], digest='', nontrivial=False, wall=0, sig=''))
                os.close(r)
                del fds[r]
                continue
            fds[r] += c
            while b'\n' in fds[r]:
                line, fds[r] = fds[r].split(b'\n', 1)
                res = json.loads(line)
                results.append(res)
                if on_result:
                    on_result(res)
    bad_exit = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st:
            bad_exit += 1
    if bad_exit:
        results.append(dict(status='error', msg='%d workers ended abnormally' % bad_exit, k=-1, stats={}, states=[], digest='', nontrivial=False, wall=0, sig=''))
    results.sort(key=lambda r: r['k'])
    return results


# ------------------------------------------------------------------ minimiser
LISTS = ('ops', 'faults', 'sched', 'lives')


def _variants_remove(case):
    for key in LISTS:
        l = case.get(key)
        if not isinstance(l, list) or not l:
            continue
        n = len(l)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c = json.loads(json.dumps(case))
                del c[key][i:i + size]
                yield c
            if size == 1:
                break
            size = max(1, size // 2)


def _variants_args(case):
    """make integer arguments smaller"""
    for key in LISTS:
        for i, o in enumerate(case.get(key) or []):
            if isinstance(o, dict):
                for a, v in o.items():
                    if isinstance(v, bool):
                        if v:
                            c = json.loads(json.dumps(case)); c[key][i][a] = False; yield c
                    elif isinstance(v, int) and v > 0 and a not in ('seed',):
                        for nv in {0, 1, v // 2, v - 1}:
                            if nv < v:
                                c = json.loads(json.dumps(case)); c[key][i][a] = nv; yield c


def minimise(mod, case, cls, wall=90.0, evals=500):
    end = time.monotonic() + wall
    best, used = case, 0
    per = getattr(mod, 'TIMEOUT', 60)

    def fails(c):
        nonlocal used
        used += 1
        try:
            if cls == 'no-progress':
                r = fork_run(mod, c, timeout=min(per, 45), budget=getattr(mod, 'BUDGET', 1500000))
            else:
                r = fork_run(mod, c, timeout=min(per, 45))
        except Exception:
            return False
        if r['status'] == 'died':
            return cls == 'process-died'
        return r['status'] == 'violation' and r['cls'] == cls

    gens = [_variants_remove]
    if hasattr(mod, 'simplify'):
        gens.append(mod.simplify)
    gens.append(_variants_args)
    progress = True
    while progress and time.monotonic() < end and used < evals:
        progress = False
        for g in gens:
            again = True
            while again and time.monotonic() < end and used < evals:
                again = False
                for c in g(best):
                    if time.monotonic() > end or used >= evals:
                        break
                    if c == best:
                        continue
                    if fails(c):
                        best, again, progress = c, True, True
                        break
    return best, used


# ------------------------------------------------------------------ reporting
def write_replay(pid, case, res, orig=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, cls=res['cls'], msg=res['msg'], case=case, trail=res.get('trail', []))
    if orig is not None:
        body['original_ops'] = len(orig.get('ops', []))
    h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (pid, h))
    json.dump(body, open(p, 'w'), indent=1)
    return p


def replay_fresh(path):
    """replay in a fresh interpreter; returns (status, cls)"""
    import subprocess
    try:
        out = subprocess.run([os.path.join(VERIF, 'check'), 'replay', path, '--json'], capture_output=True, text=True, timeout=400)
        r = json.loads(out.stdout.strip().splitlines()[-1])
        return r
    except Exception as e:
        return dict(status='error', msg=str(e))


def check(pid, tier, seed):
    t0 = time.monotonic()
    mod = load_prop(pid)
    n = mod.RUNS[tier]
    if os.environ.get('VERIF_RUNS'):
        n = int(os.environ['VERIF_RUNS'])
    print('check %s tier=%s VERIF_SEED=%d runs=%d workers=%d repo=%s' % (pid, tier, seed, n, NPROC, REPO), flush=True)
    results = pool(mod, pid, seed, tier, n)
    wall = time.monotonic() - t0
    kf = known_findings(pid)
    viol, errors, known = [], [], []
    for r in results:
        if r['status'] == 'violation':
            k = [q for q in kf if matches(q, r['cls'], r['case'])]
            (known if k else viol).append(r)
        elif r['status'] not in ('ok', 'discard'):
            errors.append(r)
    write_evidence(pid, mod, tier, seed, results, wall, len(viol))
    for q in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, q['text']))
    ok = [r for r in results if r['status'] == 'ok']
    print('%d runs ok, %d discarded, %d known, %d violations, %d errors, %.1fs' % (
        len(ok), sum(r['status'] == 'discard' for r in results), len(known), len(viol), len(errors), wall), flush=True)
    if viol:
        r = viol[0]
        print('first violation: run %d class %s\n%s' % (r['k'], r['cls'], r['msg']), flush=True)
        case = r['case']
        best, used = minimise(mod, case, r['cls'], wall=float(os.environ.get('VERIF_MINWALL', 90)))
        res = judged_run(mod, best)
        if not (res['status'] == 'violation' and res['cls'] == r['cls']):
            best, res = case, r
        path = write_replay(pid, best, res, case)
        rr = replay_fresh(path)
        if not (rr.get('status') == 'violation' and rr.get('cls') == res['cls']):
            path = write_replay(pid, case, r)
            rr = replay_fresh(path)
            print('note: the minimised case did not replay, reporting the original (replay: %s)' % rr.get('cls', rr.get('status')))
            res = r
        print('minimised with %d executions to %d ops, %d faults, %d schedule points; replayed in a fresh process: %s' % (
            used, len(best.get('ops', [])), len(best.get('faults', [])), len(best.get('sched', [])), rr.get('status')))
        print(res['msg'])
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    if errors:
        print('HARNESS ERROR run %s: %s\n%s' % (errors[0].get('k'), errors[0]['status'], errors[0]['msg']), flush=True)
        print(json.dumps(errors[0].get('case'))[:3000])
        return 2
    if not ok:
        print('HARNESS ERROR: no run completed')
        return 2
    return 0


def write_evidence(pid, mod, tier, seed, results, wall, nviol):
    st = collections.Counter()
    states, sigs = set(), set()
    ran = [r for r in results if r['status'] in ('ok', 'violation')]
    for r in ran:
        st.update(r['stats'])
        states.update(r['states'])
        if r['nontrivial']:
            sigs.add(r['sig'])
    cov = dict(
        evaluations=len(ran), distinct_nontrivial=len(sigs), rule=mod.RULE,
        samples=[r['case'] for r in results if r.get('case') is not None][:2],
        runs=len(results), discarded=sum(r['status'] == 'discard' for r in results),
        seeds_per_hour=round(len(results) / max(wall, 1e-3) * 3600),
        simulated_steps=st.get('steps', 0),
        simulated_time=getattr(mod, 'SIMTIME', 'the code has no timers; simulated time is the number of simulated steps (client operations, disk operations and executed lines at which the scheduler could act)'),
        faults_injected={k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault:')},
        rare_conditions_hit={k[6:]: v for k, v in sorted(st.items()) if k.startswith('probe:')},
        operations={k[3:]: v for k, v in sorted(st.items()) if k.startswith('op:')},
        distinct_states=len(states), distinct_states_measure=getattr(mod, 'STATES', 'distinct keys noted by the simulator (at most 400 per run)'),
        components=mod.COMPONENTS, max_run_wall_s=round(max([r.get('wall', 0) for r in results] or [0]), 2))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2), violations=nviol)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))
