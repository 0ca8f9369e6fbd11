"""C02: checkpoints of evolution runs under disk faults, crashes, restarts and concurrent runs."""
import copy, os, re
import numpy as np
from .. import build, disk, trace
from ..core import Violation

RUNS = dict(quick=3200, thorough=80000)
TIMEOUT = 90
RULE = ('one run = 1-4 lives of the program sharing one simulated directory tree; 2-9 operations per life (start a run, evolve, accumulate Lyapunov results, checkpoint up to 12 times, '
        'checkpoint two runs at once, resume latest or numbered, save records, clear) on up to three runs whose names may be prefixes of one another, at most one disk fault inside '
        'each operation, crashes ending a life. Non-trivial: at least one resume or saved record was judged. Distinct: by the full case.')
STATES = 'distinct (operation, fault, outcome, number of checkpoints of that name) combinations'
COMPONENTS = dict(real=['xmps.fTDVP.Trajectory (stop, resume, save, clear, eulerint, lyapunov)', 'xmps.fMPS store/load', 'numpy.save/load, pickle'],
                  simulated=['results of every file and directory operation', 'power cuts', 'program restarts (forked processes)', 'directory listing order, modification times', 'clock, uuid',
                             'interleaving of two checkpoints at disk operations and executed lines'], stub=['tqdm output discarded'])
ASSUMPTIONS = ['a crash keeps a prefix of the disk operations in order (the last write possibly torn); what completed before the interrupted operation began has reached the disk',
               'rename is atomic', 'two runs that checkpoint under the same name at the same moment may make one of them report an error']
LEVEL = 'fault_enumeration'
NAMES = ['run', 'run_1', 'run_10', 'ru', 'run.x', 'sub/run', 'run_1_', 'a+(b']
LOCS = ['data', 'data2']


def cleanup(pid):
    disk.cleanup(pid)


def gen_traj(r):
    if r.random() < .5:
        return dict(kind='std', L=r.choice([3, 4]), d=2, D=2, real=False, seed=r.randrange(10 ** 6), ham='random', W=0, fake=False)
    kind = r.choice(['std', 'std', 'std', 'irr', 'product'])
    L = r.choice([2, 3, 3, 4, 5])
    return dict(kind=kind, L=L, d=2, D=r.choice([2, 2, 3, 4]), real=r.random() < .2, seed=r.randrange(10 ** 6), ham=r.choice(['tfi', 'random', 'random']),
                W=r.choice([0, 0, 1, 2]), fake=r.random() < .25)


def gen(r, tier, k):
    p_fault = r.choice([0, 0, .2, .45])
    nlives = r.choice([1, 2, 2, 3, 4])
    names = r.sample(range(len(NAMES)), 2) if r.random() < .5 else r.choice([[0, 1], [0, 0], [0, 2], [1, 2], [0, 3]])
    ops = []
    for life in range(nlives):
        ops.append(dict(life=life, op='new', s=0, name=r.choice(names), st=gen_traj(r)))
        for _ in range(r.randint(2, 7)):
            x = r.random()
            op = 'new' if x < .1 else 'evolve' if x < .2 else 'lyap' if x < .3 else 'stop' if x < .58 else 'stop2' if x < .64 else 'resume' if x < .85 else 'save' if x < .94 else 'clear'
            o = dict(life=life, op=op, s=r.randrange(2), loc=r.choice([0, 0, 0, 0, 0, 0, 0, 1]))
            if op == 'new':
                o.update(name=r.choice(names), st=gen_traj(r))
            if op == 'evolve':
                o['n'] = r.choice([1, 2, 3])
            if op == 'stop':
                o['rep'] = r.choice([1, 1, 1, 1, 2, 3, 9, 11, 12])
            if op == 'stop2':
                o.update(s2=r.randrange(2), loc2=r.choice([0, 0, 1]), sched=[[r.choice([1, 2, 5, 20, 60]), 0] for _ in range(r.randint(1, 12))])
            if op == 'resume':
                o.update(name=r.choice(names), n=r.choice([None, None, None, 0, 1, 2]), lys=r.random() < .8, cont=r.random() < .4)
            if op == 'save':
                o.update(exps=r.random() < .35, clear=r.random() < .6)
            if r.random() < p_fault and op in ('stop', 'resume', 'save'):
                kinds = disk.KINDS_R if op == 'resume' else disk.KINDS_W
                o['fault'] = dict(kind=r.choice(kinds), n=r.randrange(r.choice([3, 12, 40])), frac=r.choice([0, 1, 100, 250, 500, 700, 900, 990, 999]), lose=r.choice([0, 0, 0, 1, 2, 3, 8, 20]))
            ops.append(o)
        used = sorted({o['name'] for o in ops if o['op'] == 'new'})
        for o in ops:
            if o['life'] == life and o['op'] == 'resume' and r.random() < .8:
                o['name'] = r.choice(used)
    locs = sorted({o['loc'] for o in ops if o['op'] == 'stop'})
    ops += [dict(life=nlives, op='resume', s=i % 2, name=nm, loc=l, n=None, lys=True, cont=False) for i, nm in enumerate(used) for l in locs]
    return dict(params={}, ops=ops)


def simplify(case):
    for i, o in enumerate(case['ops']):
        if o.get('fault'):
            c = copy.deepcopy(case); del c['ops'][i]['fault']; yield c
        if o.get('rep', 1) > 1:
            c = copy.deepcopy(case); c['ops'][i]['rep'] -= 1; yield c
            c = copy.deepcopy(case); c['ops'][i]['rep'] = 1; yield c
        if o.get('sched'):
            for j in range(len(o['sched'])):
                c = copy.deepcopy(case); del c['ops'][i]['sched'][j]; yield c
        if o.get('life', 0) > 0:
            c = copy.deepcopy(case); c['ops'][i]['life'] -= 1; yield c
        if o.get('st') and o['st'] != dict(o['st'], kind='std', L=2, D=2, W=0, fake=False):
            c = copy.deepcopy(case); c['ops'][i]['st'].update(kind='std', L=2, D=2, W=0, fake=False); yield c


def make(o):
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    st = o['st']
    r = build.rng(st['seed'])
    m = fMPS(build.tensors(st)).left_canonicalise()
    H = build.ham(dict(L=st['L'], kind=st['ham'], seed=st['seed'] + 1))
    W = [None, [build.crandn(r, (3, 3, 2, 2)) for _ in range(st['L'])], np.arange(6.0).reshape(2, 3)][st['W']]
    t = Trajectory(m, H=H, W=W, run_name=NAMES[o['name']])
    if st['fake']:                    # results as an earlier, longer run would have left them
        t.lys, t.lys_, t.Q = r.randn(7, 4), r.randn(7, 4), r.randn(4, 4)
    return t


def freeze(x):
    return copy.deepcopy(x)


def eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


FIELDS = ['mps', 'mps_0', 'H', 'W', 'lys', 'lys_', 'Q', 'vL']


def content(t):
    c = dict(mps=[np.array(a) for a in t.mps.data], mps_0=[np.array(a) for a in t.mps_0.data], H=freeze(t.H), W=freeze(t.W))
    for k in FIELDS[4:]:
        c[k] = freeze(getattr(t, k)) if hasattr(t, k) else None
    return c


def differ(c, d, skip=()):
    out = []
    for k in FIELDS:
        if k in skip:
            continue
        a, b = c[k], d[k]
        if k in ('mps', 'mps_0') and a is not None and b is not None:      # real states may come back with complex zeros
            ok = len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))
        elif k in ('lys', 'lys_', 'Q'):
            ok = (a is None) == (b is None) and (a is None or np.array_equal(a, b))
        else:
            ok = eq(a, b)
        if not ok:
            out.append(k)
    return out


def tree(D, root):
    """relative path -> bytes of everything under root"""
    out = {}
    D.off += 1
    for p, ds, fs in os.walk(root):
        for f in fs:
            with D.real['open'](os.path.join(p, f), 'rb') as h:
                out[os.path.relpath(os.path.join(p, f), root)] = h.read()
    D.off -= 1
    return out


def run(case, ctx):
    root = disk.scratch_dir()
    for l in LOCS:
        os.makedirs(os.path.join(root, l, 'bases'))
    model = dict(ck={}, maybe=[])
    nl = max([o['life'] for o in case['ops']] + [0]) + 1
    for life in range(nl):
        ops = [o for o in case['ops'] if o['life'] == life]
        if not ops:
            continue
        model, nt, crashed = disk.life(lambda c: one_life(c, root, ops, model, life), ctx)
        ctx.nontrivial |= nt
        if life:
            ctx.stats['op:restart'] += 1
        if crashed:
            ctx.stats['op:crash-restart'] += 1


class Life:
    def __init__(self, ctx, root, model, life):
        self.ctx, self.root, self.model = ctx, root, model
        self.D = disk.Disk(root, ctx, seed=life)
        self.D.install()
        self.t = {}
        self.nt = False
        self.live = {}                # checkpoint dir -> copy of the run that wrote it, in this life

    def key(self, d):
        return os.path.relpath(d, self.root)

    def numbers(self, loc, name):
        """existing checkpoint numbers of a run name, from the model"""
        pre = os.path.join(LOCS[loc], NAMES[name]) + '_'
        return sorted(int(k[len(pre):]) for k in self.model['ck'] if k.startswith(pre) and k[len(pre):].isdigit())

    def dirs(self):
        out = set()
        self.D.off += 1
        for p, ds, fs in os.walk(self.root):
            if '/.' in p[len(self.root):]:
                continue
            for d in ds:
                rel = os.path.relpath(os.path.join(p, d), self.root)
                if re.search(r'_[0-9]+$', rel) and not os.path.basename(rel).startswith('.'):
                    out.add(rel)
        self.D.off -= 1
        return out

    def unchanged(self, label):
        """files of all complete checkpoints are as they were"""
        now = tree(self.D, self.root)
        for k, (c, files) in self.model['ck'].items():
            mine = {f: b for f, b in now.items() if f.startswith(k + os.sep)}
            if mine != files:
                bad = sorted(set(mine) ^ set(files) or [f for f in files if mine[f] != files[f]])
                raise Violation('checkpoint-altered', '%s changed %s of %s' % (label, bad[:3], k))
        return now

    def adopt(self, k, c, now):
        self.model['ck'][k] = (c, {f: b for f, b in now.items() if f.startswith(k + os.sep)})

    # ------------------------------------------------------------ operations
    def stop(self, o):
        t = self.t[o['s']]
        for q in range(o.get('rep', 1)):
            if q:
                t.mps = copy.deepcopy(t.mps)
                t.mps.data[0] = t.mps.data[0] * np.exp(.1j)
            if self.one_stop(t, o, o.get('fault') if q == 0 else None):
                return True
        return False

    def name_of(self, t):
        return NAMES.index(t.run_name)

    def one_stop(self, t, o, fault):
        D, ctx = self.D, self.ctx
        before = content(t)
        loc, name = o['loc'], self.name_of(t)
        old = self.dirs()
        nums = self.numbers(loc, name)
        D.undo.clear()
        D.arm(fault)
        f0 = D.fired
        err = res = None
        crashed = False
        try:
            res = t.stop(os.path.join(self.root, LOCS[loc]))
        except disk.SimCrash:
            crashed = True
        except Violation:
            raise
        except Exception as e:
            err = e
        finally:
            D.disarm()
        faulted = D.fired > f0
        if D.dead:
            crashed = True
        ctx.state(('stop', (fault or {}).get('kind') if faulted else '', err is None, min(len(nums), 11)))
        if crashed:
            D.off += 1
        now = self.unchanged('stop')
        new = self.dirs() - old
        want = os.path.join(LOCS[loc], NAMES[name] + '_')
        if crashed:
            D.off -= 1
            self.ambiguous(new, want, nums, before, now)
            return True
        if differ(content(t), before):
            raise Violation('stop-changed-run', str(differ(content(t), before)))
        if err is not None:
            if not faulted:
                raise Violation('stop-error-without-cause', repr(err))
            ctx.probe('stop-raised')
            self.ambiguous(new, want, nums, before, now)
            return False
        if not isinstance(res, str) or not os.path.isdir(res):
            raise Violation('checkpoint-not-reported', repr(res))
        k = self.key(res)
        if k in old or k not in new:
            raise Violation('checkpoint-not-fresh', '%s existed before' % k)
        n = k[len(want):]
        if not k.startswith(want) or not n.isdigit() or (nums and int(n) <= nums[-1]):
            raise Violation('checkpoint-misplaced', '%s after %s' % (k, nums))
        if t.run_dir != res:
            raise Violation('checkpoint-not-reported', 'run_dir %r, returned %r' % (t.run_dir, res))
        if len(new) != 1:
            raise Violation('checkpoint-misplaced', 'stop made %s' % sorted(new))
        self.adopt(k, before, now)
        self.live[k] = t.copy()
        if len(nums) >= 9:
            ctx.probe('tenth-checkpoint')
        return False

    def ambiguous(self, new, want, nums, c, now):
        """an interrupted checkpoint: it is there completely, or not at all"""
        for k in new:
            n = k[len(want):]
            if not k.startswith(want) or not n.isdigit() or (nums and int(n) <= nums[-1]):
                raise Violation('checkpoint-misplaced', '%s after %s' % (k, nums))
            self.ctx.probe('interrupted-checkpoint-visible')
            self.adopt(k, c, now)          # resuming it must give exactly this

    def stop2(self, o):
        """two runs checkpoint at the same time"""
        a, b = self.t.get(o['s']), self.t.get(o['s2'])
        if a is None or b is None or a is b:
            return False
        ca, cb = content(a), content(b)
        old = self.dirs()
        self.D.undo.clear()
        sides = [(a, o['loc'], ca), (b, o['loc2'], cb)]
        th = trace.Threads([lambda t=t, l=l: t.stop(os.path.join(self.root, LOCS[l])) for t, l, c in sides], o['sched'])
        tasks = th.run()
        now = self.unchanged('stop2')
        self.ctx.fault('preemption', len(th.switches))
        same = (o['loc'], a.run_name) == (o['loc2'], b.run_name)
        new = self.dirs() - old
        done = {}
        for (t, l, c), task in zip(sides, tasks):
            if task.exc is not None:
                if not same:
                    raise Violation('concurrent-stop-failed', repr(task.exc))
                self.ctx.probe('concurrent-same-name-refused')
                continue
            k = self.key(task.result)
            if k in done or k not in new:
                raise Violation('checkpoint-not-fresh', '%s reported to two runs or not there' % k)
            done[k] = (c, t)
        if not done:
            raise Violation('concurrent-stop-failed', 'both checkpoints failed')
        if set(done) != new:
            raise Violation('checkpoint-misplaced', '%s reported, %s made' % (sorted(done), sorted(new)))
        for k, (c, t) in done.items():
            self.adopt(k, c, now)
            self.live[k] = t.copy()
        self.ctx.state(('stop2', same, len(done)))
        return False

    def resume(self, o):
        from xmps.fTDVP import Trajectory
        D, ctx = self.D, self.ctx
        loc, name = o['loc'], o['name']
        nums = self.numbers(loc, name)
        n = o['n']
        if n is not None and nums:
            n = nums[n % len(nums)]
        t = self.t.get(o['s'])
        if t is None or o['cont']:
            t = Trajectory()
        had = content(t) if t.mps is not None else None
        recs = [np.array(x) for x in t.mps_history]
        D.arm(o.get('fault'))
        f0 = D.fired
        err = None
        try:
            r = t.resume(NAMES[name], os.path.join(self.root, LOCS[loc]), n=n, lys=o['lys'])
        except disk.SimCrash:
            raise RuntimeError('crash while reading')
        except Exception as e:
            err = e
        finally:
            D.disarm()
        faulted = D.fired > f0
        self.unchanged('resume')
        ctx.state(('resume', n is None, err is None, faulted, min(len(nums), 11)))
        if err is not None:
            ctx.probe('resume-raised')
            if nums and (n is None or n in nums) and not faulted:
                raise Violation('checkpoint-not-resumable', '%s/%s n=%s of %s: %r' % (LOCS[loc], NAMES[name], n, nums, err))
            if t.mps is None and had is None:
                return False
            if had is None or differ(content(t), had) or not eq([np.array(x) for x in t.mps_history], recs):
                raise Violation('failed-resume-changed-run', 'after %r' % err)
            return False
        self.nt = True
        if not nums or (n is not None and n not in nums):
            raise Violation('resumed-nothing', 'no complete checkpoint of %s in %s, resumed %s' % (NAMES[name], LOCS[loc], getattr(t, 'run_dir', None)))
        k = os.path.join(LOCS[loc], NAMES[name] + '_%d' % (nums[-1] if n is None else n))
        want = dict(self.model['ck'][k][0])
        if not o['lys']:
            want.update(lys=None, lys_=None, Q=None)
        bad = differ(content(t), want)
        if bad:
            others = [k2 for k2, (c, f) in self.model['ck'].items() if k2 != k and not set(differ(c, content(t), ('lys', 'lys_', 'Q') if not o['lys'] else ())) - {'vL'}]
            raise Violation('resume-returns-other-run', '%s of %s should be resumed; %s differ%s' % (k, nums, bad, (', it is ' + others[0]) if others else ''))
        if t.mps_history or t.run_name != NAMES[name] or t.fullH:
            raise Violation('resume-returns-other-run', 'records %d, name %r, fullH %r' % (len(t.mps_history), t.run_name, t.fullH))
        for a in t.mps.data:
            ctx.data('mps', a)
        self.t[o['s']] = t
        if o['cont'] and k in self.live and len(t.mps.data) <= 4 and o['lys'] and not o.get('fault'):
            self.cont(t.copy(), self.live[k].copy())
        return False

    def cont(self, t, u):
        """a resumed run goes on as the original does"""
        if hasattr(u, 'vL') != hasattr(u.mps, 'old_vL') or u.W is not None or not self.lyap_ok(u):
            return
        out = []
        for x in (u, t):
            np.random.seed(1)
            try:
                x.lyapunov(np.linspace(0, .02, 2), t_burn=0, thresh=None, initial_basis='F2')
                out.append(('ok', np.array(x.lys), np.array(x.lys_), [np.array(a) for a in x.mps.data]))
            except Exception as e:
                out.append(('exc', type(e).__name__))
        a, b = out
        self.ctx.probe('continued-after-resume')
        if a[0] != b[0] or a[0] == 'exc' and a != b:
            raise Violation('resumed-run-continues-differently', '%s, resumed %s' % (a[:2], b[:2]))
        if a[0] == 'ok':
            for x, y in [(a[1], b[1]), (a[2], b[2])] + list(zip(a[3], b[3])):
                if x.shape != y.shape or not np.abs(x - y).max() < 1e-6:
                    raise Violation('resumed-run-continues-differently', 'results %s and %s' % (x.shape, y.shape))

    def lyap_ok(self, t):
        m = t.mps.copy().left_canonicalise()
        b = [A.shape[1] for A in m.data] + [1]
        if b != build.std_bonds(m.L, 2, max(b)) or max(b) < 2:
            return False
        if t.H is None:
            return False
        if not (min(np.real(np.diag(x)).min() for x in m.Ls) > 1e-3 and len(m.data) in (3, 4)):
            return False
        n = t.mps.copy().jac(t.H).shape[0]      # accumulated results of another size cannot be continued
        return all(getattr(t, k).shape[-1] == n for k in ('Q', 'lys', 'lys_') if hasattr(t, k))

    def save(self, o):
        t, D, ctx = self.t[o['s']], self.D, self.ctx
        if '/' in t.run_name or not t.mps_history or o['exps'] and not hasattr(t, 'exps'):
            return False
        rec = [np.array(x) for x in t.mps_history]
        if not o['exps'] and len({x.shape for x in rec}) > 1:
            return False                     # records of different sizes do not fit one array
        had = content(t)
        D.undo.clear()
        D.arm(o.get('fault'))
        f0 = D.fired
        err = None
        crashed = False
        ident = '%s_L%d_D%d_N%d' % (t.run_name, t.mps.L, t.mps.D, len(rec))
        q = getattr(t, 'Q', None)
        lys = getattr(t, 'lys', None)
        before = tree(D, self.root)
        try:
            t.save(os.path.join(self.root, LOCS[o['loc']]) + os.sep, exps=o['exps'], clear=o['clear'])
        except disk.SimCrash:
            crashed = True
        except Violation:
            raise
        except Exception as e:
            err = e
        finally:
            D.disarm()
        crashed |= D.dead
        if crashed:
            D.off += 1
        now = self.unchanged('save')
        main = os.path.join(LOCS[o['loc']], ident + '.npy')
        allowed = [main] + [os.path.join(LOCS[o['loc']], 'bases', ident + s) for s in ('_basis.npy', '_state.npy', '_state_structured.npy')]
        bad = [f for f in set(now) | set(before) if now.get(f) != before.get(f) and f not in allowed]
        if bad:
            raise Violation('save-wrote-elsewhere', '%s, expected %s' % (bad[:3], main))
        if crashed:
            D.off -= 1
            return True
        faulted = D.fired > f0
        ctx.state(('save', o['exps'], err is None, faulted))
        if err is not None:
            if not faulted:
                raise Violation('save-error-without-cause', repr(err))
            if not eq([np.array(x) for x in t.mps_history], rec) or differ(content(t), had):
                raise Violation('failed-save-lost-records', repr(err))
            return False
        self.nt = True
        D.off += 1
        try:
            got = np.load(os.path.join(self.root, main))
            if not np.array_equal(got, np.array(lys if o['exps'] else rec)):
                raise Violation('saved-record-wrong', '%s holds %s' % (main, got.shape))
            if o['exps'] and q is not None:
                if not np.array_equal(np.load(os.path.join(self.root, allowed[1])), q):
                    raise Violation('saved-record-wrong', 'basis')
                from xmps.fMPS import fMPS
                f = [x for x in allowed[2:] if x in now]
                if not f or all(now[x] == before.get(x) for x in f) and len(f) > 1:
                    pass
                else:
                    f = [x for x in f if now[x] != before.get(x)] or f
                    s = fMPS().load(os.path.join(self.root, f[0]), structured='structured' in f[0])
                    if not eq([np.array(a, dtype=complex) for a in s.data], [np.array(a, dtype=complex) for a in had['mps']]):
                        raise Violation('saved-record-wrong', 'state')
        finally:
            D.off -= 1
        if o['clear']:
            if t.mps_history or not eq([np.array(a) for a in t.mps.data], had['mps_0']) or not eq([np.array(a) for a in t.mps_0.data], had['mps_0']):
                raise Violation('save-did-not-reset', '%d records left' % len(t.mps_history))
        elif not eq([np.array(x) for x in t.mps_history], rec) or differ(content(t), had):
            raise Violation('save-changed-run', '')
        return False


def one_life(ctx, root, ops, model, life):
    W = Life(ctx, root, model, life)
    for o in ops:
        k = o['op']
        if k not in ('new', 'resume') and o['s'] not in W.t:
            continue
        ctx.stats['op:' + k] += 1
        ctx.ev(k, o['s'])
        if k == 'new':
            W.t[o['s']] = make(o)
        elif k == 'evolve':
            t = W.t[o['s']]
            if t.H is not None:
                ctx.call('evolve', t.eulerint, np.linspace(0, .02 * o['n'], o['n'] + 1))
        elif k == 'lyap':
            t = W.t[o['s']]
            if W.lyap_ok(t) and t.W is None:
                np.random.seed(0)
                ctx.call('lyapunov', t.lyapunov, np.linspace(0, .02, 2), t_burn=0, thresh=None)
        elif k == 'clear':
            W.t[o['s']].clear()
        elif getattr(W, k)(o):
            return model, W.nt, True
    return W.model, W.nt, False
