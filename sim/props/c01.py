"""C01: stored state files under disk faults, crashes and restarts."""
import copy, os
import numpy as np
from .. import build, disk, seams
from ..core import Violation

RUNS = dict(quick=6000, thorough=150000)
TIMEOUT = 60
RULE = ('one run = 1-4 lives of the program sharing one simulated directory; 2-9 operations (store, load, round trip in memory, edit) on up to three '
        'reused file names per life, with states of random kind, at most one disk fault inside each operation, crashes ending a life. '
        'Non-trivial: at least one load was judged after at least one store. Distinct: by the full case.')
STATES = 'distinct (kind of state, flags, fault, kind of load outcome) combinations'
COMPONENTS = dict(real=['xmps.fMPS, xmps.iMPS serialisation, store, load', 'numpy.save/load', 'file contents on a scratch directory'],
                  simulated=['open/read/write/close/rename/remove/fsync results', 'power cuts', 'program restarts (forked processes)', 'clock, uuid'],
                  stub=['matplotlib is imported but not used'])
ASSUMPTIONS = ['a crash keeps a prefix of the disk operations in order (the last write possibly torn); blocks are not replaced by other data',
               'a file is loaded as the same kind of object and with the same structured flag it was stored with',
               'sampled histories and fault positions, not all']
LEVEL = 'fault_enumeration'
NAMES = ['a.npy', 'ab.npy', 'st/a.npy']


def cleanup(pid):
    disk.cleanup(pid)


def gen_state(r):
    kind = r.choice(['std', 'std', 'irr', 'irr', 'product', 'ghz', 'rankdef', 'padded', 'lib', 'libcan', 'libtrunc', 'libstate', 'libgate', 'imps', 'imps', 'imps'])
    if kind == 'imps':
        return dict(t='i', d=r.choice([2, 2, 3]), D=r.randint(1, 5), p=r.choice([1, 1, 2, 3]), real=r.random() < .3, seed=r.randrange(10**6))
    L = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 9, 13]) if kind in ('std', 'irr', 'product', 'rankdef') else r.randint(2, 6)
    return dict(t='f', kind=kind, L=L, d=r.choice([2, 2, 2, 3]) if L < 10 else 2, D=r.choice([1, 2, 3, 4, 5, 8]), real=r.random() < .3,
                seed=r.randrange(10**6), unit=r.random() < .8,
                vals=r.choice(['', '', '', '', 'tinyimag', 'tinyreal', 'huge', 'small', 'mixed', 'fortran', 'single', 'zeros']))


def gen_big(r):
    'many sites or wide bonds: sizes beyond one byte'
    if r.random() < .5:
        return dict(t='f', kind='wide', L=3, d=2, D=r.choice([127, 128, 200, 255, 256, 257, 300]), real=r.random() < .3, seed=r.randrange(10**6), vals='')
    return dict(t='f', kind='long', L=r.choice([60, 86, 100, 130, 257, 300]), d=2, D=r.choice([1, 2, 3]), real=r.random() < .3, seed=r.randrange(10**6), vals='')


def gen(r, tier, k):
    p_fault = r.choice([0, 0, .15, .4])
    nlives = r.choice([1, 2, 2, 3, 4])
    ops = []
    homog = [(r.random() < .4, r.random() < .4) for _ in NAMES] if r.random() < .8 else None   # one kind of object and flag per name
    for life in range(nlives):
        for _ in range(r.randint(2, 7)):
            x = r.random()
            o = dict(life=life, name=r.randrange(3), op='store' if x < .5 else 'load' if x < .86 else r.choice(['mem', 'edit', 'copystore']))
            if o['op'] in ('store', 'copystore', 'mem'):
                o['st'] = gen_state(r)
                o['structured'] = r.random() < .4
                o['reuse'] = r.random() < .3
                o['bare'] = r.random() < .3
                if homog:
                    s, i = homog[o['name']]
                    o['structured'] = s
                    while (o['st']['t'] == 'i') != i:
                        o['st'] = gen_state(r)
                    o['reuse'] = False if o['op'] == 'mem' else o['reuse']
                if o['st']['t'] == 'f' and r.random() < .06:
                    o['st'] = gen_big(r)
                    o['structured'] = o['structured'] or not homog
            if o['op'] == 'load':
                o['into'] = r.random() < .3
            if r.random() < p_fault:
                kinds = disk.KINDS_R if o['op'] == 'load' else disk.KINDS_W
                o['fault'] = dict(kind=r.choice(kinds), n=r.choice([0, 0, 1, 1, 2, 3, 4]), frac=r.choice([0, 1, 100, 250, 500, 700, 900, 990, 999]),
                                  lose=r.choice([0, 0, 0, 1, 2, 3, 5]))
            ops.append(o)
        # always read the names back in a new life
    ops += [dict(life=nlives, name=i, op='load', into=False) for i in range(3)]
    return dict(params={}, ops=ops)


def simplify(case):
    for i, o in enumerate(case['ops']):
        if o.get('fault'):
            c = copy.deepcopy(case); del c['ops'][i]['fault']; yield c
        if o.get('st') and o['st'].get('kind') not in (None, 'std'):
            c = copy.deepcopy(case); c['ops'][i]['st']['kind'] = 'std'; yield c
        if (o.get('st') or {}).get('vals'):
            c = copy.deepcopy(case); c['ops'][i]['st']['vals'] = ''; yield c
        if o.get('life', 0) > 0:
            c = copy.deepcopy(case); c['ops'][i]['life'] -= 1; yield c


def make(st):
    from xmps.fMPS import fMPS
    from xmps.iMPS import iMPS
    if st['t'] == 'i':
        r = build.rng(st['seed'])
        return iMPS([build.crandn(r, (st['d'], st['D'], st['D']), st['real']) for _ in range(st['p'])])
    k = st['kind']
    if k in ('wide', 'long'):
        L, D = max(2, st['L']), max(1, st['D'])
        r = build.rng(st['seed'])
        bonds = [1] + ([min(2, D)] * (L - 2) + [D] if k == 'wide' else [min(D, 2 + i % 2) for i in range(L - 1)]) + [1]
        return fMPS([build.crandn(r, (2, a, b), st['real']) for a, b in zip(bonds, bonds[1:])])
    if not k.startswith('lib'):
        return fMPS(odd_values(build.tensors(st), st.get('vals', ''), build.rng(st['seed'] + 7)))
    np.random.seed(st['seed'])
    L, d, D = max(2, st['L']), st['d'], st['D']
    if k == 'lib':
        return fMPS().random(L, d, D, real=st['real']) if D > 1 or d == 2 else fMPS().random(L, d, 2)
    if k == 'libcan':
        return fMPS().random(L, d, max(2, D)).right_canonicalise()
    if k == 'libtrunc':
        return fMPS().random(L, d, max(3, D)).left_canonicalise(max(2, D - 1))
    if k == 'libstate':
        v = build.crandn(build.rng(st['seed']), [2] * min(L, 5), st['real'])
        return fMPS().left_from_state(v) if D % 2 else fMPS().right_from_state(v)
    if k == 'libgate':
        m = fMPS([A.copy() for A in build.tensors(dict(st, kind='std', d=2, L=L, real=False))])
        r = build.rng(st['seed'] + 1)
        for _ in range(3):
            i = int(r.randint(L - 1))
            m.apply_two_site((build.unitary(r, 4), (i, i + 1)), D=[None, 2][r.randint(2)])
        return m
    raise ValueError(k)


def odd_values(data, vals, r):
    'values at the edges of what an array can hold: a stored number has to come back exactly'
    if vals == 'tinyimag':
        return [a.real + 1e-9j * a.imag for a in data]
    if vals == 'tinyreal':
        return [1e-12 * a.real + 1j * a.imag for a in data]
    if vals == 'huge':
        return [a * 1e150 for a in data]
    if vals == 'small':
        return [a * 1e-300 for a in data]
    if vals == 'mixed':
        return [a if i else np.ascontiguousarray(a.real) for i, a in enumerate(data)]
    if vals == 'fortran':
        return [np.asfortranarray(a) for a in data]
    if vals == 'single':
        return [a.astype(np.complex64) for a in data]
    if vals == 'zeros':
        return [a * (r.rand(*a.shape) < .5) for a in data]
    return data


def snap(m):
    return (type(m).__name__, [np.array(a) for a in m.data])


def same(a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    return all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a[1], b[1]))


def short(s):
    return '%s%s' % (s[0], [x.shape for x in s[1]])


def run(case, ctx):
    root = disk.scratch_dir()
    model = {}
    os.makedirs(os.path.join(root, 'st'))
    nl = max([o['life'] for o in case['ops']] + [0]) + 1
    for life in range(nl):
        ops = [o for o in case['ops'] if o['life'] == life]
        if not ops:
            continue
        model, nt, crashed = disk.life(lambda c: one_life(c, root, ops, model, life), ctx)
        ctx.nontrivial |= nt
        if life:
            ctx.stats['op:restart'] += 1
        if crashed:
            ctx.stats['op:crash-restart'] += 1
    return


def one_life(ctx, root, ops, model, life):
    from xmps.fMPS import fMPS
    from xmps.iMPS import iMPS
    D = disk.Disk(root, ctx, seed=life)
    D.install()
    held = {}
    nt = crashed = False
    for i, o in enumerate(ops):
        name = NAMES[o['name']]
        path = os.path.join(root, name)
        rec = model.setdefault(name, dict(now=None, allowed=[], flag=None, type=None))
        kind = o['op']
        ctx.stats['op:' + kind] += 1
        ctx.ev(kind, name)
        if kind == 'edit':
            m = held.get(name)
            if m is not None and len(m.data):
                m.data[0] = m.data[0] * 2      # a later edit of a stored/loaded object must not reach the file
            continue
        if kind in ('store', 'copystore', 'mem'):
            m = held.get(name) if o['reuse'] and name in held else ctx.call('build', make, o['st'])
            if kind == 'copystore':
                m = ctx.call('copy', m.copy)
            isf = type(m).__name__ == 'fMPS'
            flag = bool(o['structured']) and isf
            before = snap(m)
            if kind == 'mem':
                for real in (False, True):
                    v = ctx.call('serialize', m.serialize, real)
                    if isf:
                        m2 = ctx.call('deserialize', fMPS().deserialize, v, real=real, structure=[a.shape for a in m.data])
                    else:
                        m2 = ctx.call('deserialize', iMPS().deserialize, v, m.d, m.D, m.period, real)
                    if not same(snap(m2), before):
                        raise Violation('serialize-roundtrip', 'real=%s %s -> %s' % (real, short(before), short(snap(m2))))
                if not same(snap(m), before):
                    raise Violation('serialize-changed-state', short(before))
                continue
            held[name] = m
            target = path[:-4] if o['bare'] else path
            attempt = (before, flag)
            D.arm(o.get('fault'))
            fired0 = D.fired
            err = None
            try:
                m.store(target, structured=True) if flag else m.store(target)
            except disk.SimCrash:
                crashed = True
            except Violation:
                raise
            except Exception as e:
                err = e
            finally:
                D.disarm()
            faulted = D.fired > fired0
            if crashed:
                lose = (o.get('fault') or {}).get('lose', 0)
                crash_model(model, lose)
                rec['allowed'].append(attempt)
                rec['must'] = False
                ctx.state(('crash', o['st'].get('kind'), flag))
                return model, nt, True
            if not same(snap(m), before):
                raise Violation('store-changed-state', '%s became %s' % (short(before), short(snap(m))))
            if err is not None:
                ctx.probe('store-raised')
                ctx.ev('store raised', type(err).__name__)
                if not faulted:
                    regular = isf and [a.shape[1] for a in m.data] == build.std_bonds(len(m.data), m.data[0].shape[0], m.D)[:-1]
                    if flag or not isf or regular:
                        raise Violation('store-error-without-cause', '%s structured=%s: %r' % (short(before), flag, err))
                    ctx.probe('irregular-store-refused')
                    # nothing says whether a refused store touched the file; the old content or an error
                rec['must'] = False
                rec['allowed'].append(attempt)
            else:
                if rec['now'] is not None:
                    ctx.probe('name-reused')
                rec['now'] = attempt
                rec['must'] = True
                rec['allowed'].append(attempt)
                rec['after_fault'] = faulted
            ctx.state((o['st'].get('kind', 'imps'), flag, (o.get('fault') or {}).get('kind') if faulted else '', err is None))
            continue
        # ---- load: with the flag of the last attempted store
        if not rec['allowed']:
            continue
        last = rec['now'] if rec.get('must') else rec['allowed'][-1]
        flags = [last[1]] if rec.get('must') else sorted({a[1] for a in rec['allowed'] if a[0][0] == last[0][0]})
        for flag in flags:
            isf = last[0][0] == 'fMPS'
            obj = fMPS() if isf else iMPS()
            if o.get('into') and name in held and type(held[name]).__name__ == last[0][0]:
                obj = ctx.call('copy', held[name].copy)
            D.arm(o.get('fault'))
            fired0 = D.fired
            err = got = None
            try:
                got = obj.load(path, structured=True) if flag else obj.load(path)
            except disk.SimCrash:
                raise RuntimeError('crash while reading')
            except Exception as e:
                err = e
            finally:
                D.disarm()
            faulted = D.fired > fired0
            nt = True
            if err is not None:
                ctx.ev('load raised', type(err).__name__)
                ctx.probe('load-raised')
                if rec.get('must') and not faulted:
                    raise Violation('stored-state-not-loadable', '%s %s structured=%s: %r' % (name, short(last[0]), flag, err))
                continue
            g = snap(got)
            ctx.ev('loaded', short(g))
            for a in g[1]:
                ctx.data('t', a)
            if rec.get('must'):
                if not same(g, rec['now'][0]):
                    old = any(same(g, a[0]) for a in rec['allowed'])
                    raise Violation('load-returns-other-state', '%s: stored %s structured=%s, loaded %s%s' % (
                        name, short(rec['now'][0]), flag, short(g), ' (an older state)' if old else ''))
                ctx.probe('exact-load')
            else:
                # which stores could legitimately be read with this flag
                if not any(same(g, a[0]) for a in rec['allowed'] if a[1] == flag):
                    mixed = {(a[1], a[0][0]) for a in rec['allowed']}
                    if len(mixed) > 1:       # data written with the other flag or by the other class may be there; reading it like this is a misuse
                        ctx.probe('mixed-flags-skipped')
                        continue
                    raise Violation('load-returns-state-never-stored', '%s structured=%s loaded %s; stored %s' % (
                        name, flag, short(g), [short(a[0]) for a in rec['allowed']]))
                ctx.probe('load-after-fault-returned-a-stored-state')
            held[name] = got
        ctx.state(('load', rec.get('must'), err is None, faulted))
    return model, nt, False


def crash_model(model, lose):
    if lose:
        for rec in model.values():
            rec['must'] = False
