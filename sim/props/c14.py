"""C14: PEPS views, measurements and updates agree with one state under any history."""
import numpy as np
from functools import reduce
from .. import build, seams, trace
from ..core import Violation, Discard, tb_text

RUNS = dict(quick=9000, thorough=200000)
TIMEOUT = 60
RULE = ('one run = 5-24 operations of clients on a pool of two-dimensional states that are derived from one another: transpositions, flips, copies, embeddings of chains, normalisation, one-site operators, sums, contraction of rows, columns and blocks, '
        'truncation of bonds, isometric forms, edits of tensors, expectation values of a site or a block, overlaps by boundary contraction, environments, recombination; some aborted at a chosen line, or with a failing SVD driver. '
        'After every operation every object of the pool is contracted independently and compared with its full state vector. Non-trivial: three judged operations. Distinct: by the full case.')
STATES = 'distinct (operation, shape of the lattice, how the object was derived, fault) combinations'
COMPONENTS = dict(real=['xmps.fPEPS, xmps.peps_tools, xmps.fMPS'], simulated=['order of the operations of the clients', 'aborts at chosen executed lines', 'failing SVD drivers'], stub=[])
ASSUMPTIONS = ['lattices of at most 9 sites of dimension 2, or 6 of dimension 3', 'operators between sites given in reading order']
LEVEL = 'fault_enumeration'
LINES = True
TOL = 1e-8
OPS = ['T', 'T', 'R', 'R', 'U', 'U', 'copy', 'copyd', 'normalise', 'apply', 'apply', 'applyc', 'add', 'add', 'rowc', 'colc', 'contract', 'E', 'E', 'E', 'Ek', 'Ek', 'Ek', 'overlap', 'overlap', 'full', 'norm', 'rec', 'rec',
       'trab', 'trbe', 'trle', 'tral', 'trac', 'edit', 'edit', 'scale', 'poke', 'poke', 'growbond', 'growbond', 'iso', 'iso', 'isoE', 'isoE', 'isoEs', 'env', 'env', 'mpos', 'cmpos', 'frommps', 'rho', 'rhop', 'eq', 'new', 'list', 'bond', 'fix', 'mps_edit']
INPLACE = {'normalise', 'trab', 'trbe', 'trle', 'tral', 'trac', 'edit', 'scale', 'poke', 'growbond', 'iso', 'fix'}


def gen(r, tier, k):
    n = r.randint(5, 24 if tier == 'thorough' else 18)
    d = r.choice([2, 2, 2, 3])
    lives = []
    shape = r.choice([(1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (2, 2), (2, 2), (2, 3), (2, 3), (3, 2), (3, 2)] + ([(3, 3), (3, 3), (2, 4), (4, 2)] if d == 2 else []))
    for _ in range(r.choice([1, 2, 2, 3])):
        if r.random() < .3:
            shape = r.choice([(1, 3), (2, 2), (2, 3), (3, 2), (4, 1)])
        X = r.choice([1, 2, 2, 3] if shape[0] * shape[1] <= 6 else [1, 2, 2])
        lives.append(dict(Lx=shape[0], Ly=shape[1], d=d, X=X, seed=r.randrange(10 ** 6), kind=r.choice(['std', 'std', 'irr', 'product', 'real', 'mps', 'iso'])))
    ops, theme = [], r.choice([None, None, ['iso', 'isoE', 'isoE', 'T', 'R', 'U', 'copy', 'isoEs', 'edit'], ['frommps', 'rec', 'R', 'T', 'U', 'mps_edit', 'E', 'Ek'], ['T', 'R', 'U', 'contract', 'Ek', 'E', 'rowc', 'colc', 'overlap'], ['growbond', 'trac', 'tral', 'trab', 'trle', 'fix', 'T', 'add', 'Ek', 'full'], ['poke', 'poke', 'edit', 'norm', 'norm', 'E', 'Ek', 'overlap', 'rec', 'full', 'T']])
    one = theme is not None and 'poke' in theme     # the same questions about the same object
    for i in range(n):
        o = dict(op=r.choice(theme if theme and r.random() < .6 else OPS), s=r.randrange(12), t=r.randrange(12), i=r.randrange(36), j=r.randrange(36), k=r.randrange(36), seed=r.randrange(10 ** 6))
        x = r.random()
        if x < .08:
            o['abort'], o['exc'] = round(r.random(), 4), r.choice(['KeyboardInterrupt', 'MemoryError', 'LinAlgError'])
        elif x < .14:
            o['svd'] = r.choice(['gesdd', 'all'])
        if one and r.random() < .8:
            o['s'] = o['i'] = o['j'] = 0
        ops.append(o)
    return dict(lives=lives, ops=ops, params={})


def simplify(case):
    import json
    for i, o in enumerate(case['ops']):
        for f in ('abort', 'svd'):
            if f in o:
                c = json.loads(json.dumps(case))
                del c['ops'][i][f]
                yield c
    for i, l in enumerate(case['lives']):
        for f in ('Lx', 'Ly', 'X', 'd'):
            if l[f] > (2 if f == 'd' else 1):
                c = json.loads(json.dumps(case))
                if f == 'd':
                    for x in c['lives']:
                        x['d'] -= 1
                else:
                    c['lives'][i][f] -= 1
                yield c
        if l['kind'] != 'std':
            c = json.loads(json.dumps(case))
            c['lives'][i]['kind'] = 'std'
            yield c


# ---------------------------------------------------------------- independent contraction
def dense(rows):
    """full tensor, one leg per site in reading order; legs of a tensor: site, up, right, down, left"""
    Ly, Lx = len(rows), len(rows[0])
    phys = list(range(Lx * Ly))
    nxt = Lx * Ly
    V, H = {}, {}
    for j in range(Ly + 1):
        for i in range(Lx):
            V[j, i] = nxt
            nxt += 1
    for j in range(Ly):
        for i in range(Lx + 1):
            H[j, i] = nxt
            nxt += 1
    # site by site, keeping the open bonds: a plain dictionary of labels
    cur, labels = np.ones(()), []
    for j in range(Ly):
        for i in range(Lx):
            A = np.asarray(rows[j][i])
            la = [phys[j * Lx + i], V[j, i], H[j, i + 1], V[j + 1, i], H[j, i]]
            com = [x for x in la if x in labels]
            cur = np.tensordot(cur, A, [[labels.index(x) for x in com], [la.index(x) for x in com]])
            labels = [x for x in labels if x not in com] + [x for x in la if x not in com]
    rest = [x for x in labels if x >= Lx * Ly]
    assert all(cur.shape[labels.index(x)] == 1 for x in rest)
    cur = cur.transpose([labels.index(x) for x in phys] + [labels.index(x) for x in rest])
    return cur.reshape(cur.shape[:Lx * Ly])


def good(rows, Ly, Lx):
    if len(rows) != Ly or any(len(r) != Lx for r in rows):
        return 'grid'
    for j in range(Ly):
        for i in range(Lx):
            A = np.asarray(rows[j][i])
            if A.ndim != 5:
                return 'rank'
            up = rows[j - 1][i].shape[3] if j else 1
            left = rows[j][i - 1].shape[2] if i else 1
            if A.shape[1] != up or A.shape[4] != left or (j == Ly - 1 and A.shape[3] != 1) or (i == Lx - 1 and A.shape[2] != 1):
                return 'bonds at %r' % ((i, j),)
            if not np.isfinite(A).all():
                return 'values'


def snap(obj):
    return [[np.array(A) for A in row] for row in obj.data]


class Slot:
    def __init__(self, obj, v, Lx, Ly, how, oc=None):
        self.obj, self.v, self.Lx, self.Ly, self.how, self.oc = obj, v, Lx, Ly, how, oc
        self.iso = self.weak = False
        self.note()

    def note(self):
        self.rows = snap(self.obj)
        try:
            self.big = np.abs(dense([[np.abs(A) for A in r] for r in self.rows])).max()
        except Exception:
            self.big = 0               # do not fit together: judged by the check

    def site(self, o):
        return o['i'] % self.Lx, o['j'] % self.Ly

    def leg(self, x, y):
        return y * self.Lx + x

    @property
    def maxD(self):
        return max(max(A.shape[1:]) for r in self.rows for A in r)


class Drop(Exception):
    pass


def close(a, b, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.isfinite(a).all():
        return False
    s = max(np.abs(b).max() if b.size else 0, scale or 0, 1e-300)
    return a.size == 0 or np.abs(a - b).max() <= TOL * s


def need(ok, what, msg=''):
    if not ok:
        raise Violation(what, msg)


def order_T(Lx, Ly):
    """legs of the transposed grid: new (x,y) is old (y,x)"""
    return [x * Lx + y for y in range(Lx) for x in range(Ly)]


def order_R(Lx, Ly):
    return [y * Lx + (Lx - 1 - x) for y in range(Ly) for x in range(Lx)]


def order_U(Lx, Ly):
    return [(Ly - 1 - y) * Lx + x for y in range(Ly) for x in range(Lx)]


def blocks(s, x, y, w, h):
    """full tensor with the block of sites merged in reading order: grid smaller by the contracted rows and columns"""
    cols = [list(range(i, i + 1)) for i in range(x)] + [list(range(x, x + w))] + [[i] for i in range(x + w, s.Lx)]
    rows = [[j] for j in range(y)] + [list(range(y, y + h))] + [[j] for j in range(y + h, s.Ly)]
    perm, shape = [], []
    for R in rows:
        for C in cols:
            legs = [j * s.Lx + i for j in R for i in C]
            perm += legs
            shape.append(int(np.prod([s.v.shape[k] for k in legs])))
    return s.v.transpose(perm).reshape(shape), len(cols), len(rows)


def on(v, op, leg):
    return np.moveaxis(np.tensordot(op, v, [1, leg]), 0, leg)


def make(l):
    from xmps.fPEPS import fPEPS
    from xmps.fMPS import fMPS
    r = build.rng(l['seed'])
    Lx, Ly, d, X = max(1, l['Lx']), max(1, l['Ly']), max(2, l['d']), max(1, l['X'])
    if Lx * Ly < 2:
        Ly = 2
    k = l['kind']
    if k == 'mps':
        As = build.tensors(dict(kind='std', L=Lx * Ly, d=d, D=X, seed=l['seed']))
        m = fPEPS().from_mps(fMPS([np.array(a) for a in As]), Lx)
        return m
    if k in ('std', 'iso') and r.randint(2):
        np.random.seed(l['seed'])
        m = fPEPS().random(Lx, Ly, d, X)
    else:
        V = {(j, i): 1 if j in (0, Ly) else (1 if k == 'product' else int(r.randint(1, X + 1)) if k == 'irr' else X) for j in range(Ly + 1) for i in range(Lx)}
        H = {(j, i): 1 if i in (0, Lx) else (1 if k == 'product' else int(r.randint(1, X + 1)) if k == 'irr' else X) for j in range(Ly) for i in range(Lx + 1)}
        m = fPEPS([[build.crandn(r, (d, V[j, i], H[j, i + 1], V[j + 1, i], H[j, i]), k == 'real') for i in range(Lx)] for j in range(Ly)])
    for row in m.data:
        for a in range(len(row)):
            row[a] = row[a] / np.linalg.norm(row[a])
    m.data[0][0] = m.data[0][0] * (.3 + 2 * r.rand())
    return m


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx, self.slots, self.chains = case, ctx, [], []

    def add(self, obj, v, Lx, Ly, how, oc=None, iso=False):
        need(obj.Lx == Lx and obj.Ly == Ly, 'wrong-shape:' + how, '%r by %r, wanted %r by %r' % (obj.Lx, obj.Ly, Lx, Ly))
        s = Slot(obj, v, Lx, Ly, how, oc)
        s.iso = iso
        self.check(s, how)
        if len(self.slots) < 10:
            self.slots.append(s)
        else:
            self.slots[len(self.ctx.trail) % 10] = s
        return s

    def check(self, s, how, kind='wrong-state'):
        g = good(s.obj.data, s.Ly, s.Lx)
        need(not g, '%s:%s' % (kind, how), 'tensors do not fit together: %s' % g)
        w = dense(s.obj.data)
        if w.size and np.abs(w).max() < 1e-4 * s.big:      # nearly cancelled: only the size of the sum is known
            s.weak = True
            need(w.shape == s.v.shape and np.abs(w - s.v).max() <= 1e-12 * s.big, '%s:%s' % (kind, how), 'cancelling state moved')
            return
        need(close(w, s.v), '%s:%s' % (kind, how), 'state moved by %r of %r (%d by %d, %s)' % (np.abs(w - s.v).max() if w.shape == s.v.shape else (w.shape, s.v.shape), np.abs(s.v).max(), s.Lx, s.Ly, s.how))
        if s.oc is not None:
            need(tuple(int(x) for x in s.obj.oc) == tuple(s.oc), '%s:%s' % (kind, how), 'centre recorded at %r, is at %r' % (s.obj.oc, s.oc))

    def check_others(self, skip, how):
        for s in self.slots:
            if s is not skip:
                self.check(s, how, 'changed-another')
        for m, As in self.chains:
            need(len(m.data) == len(As) and all(close(a, b) for a, b in zip(m.data, As)), 'changed-another:' + how, 'the chain it was made from')

    def same_shape(self, s, o, f=lambda t: True):
        ok = [t for t in self.slots if (t.Lx, t.Ly) == (s.Lx, s.Ly) and t.v.shape == s.v.shape and f(t)]
        if not ok:
            raise Discard
        return ok[o['t'] % len(ok)]


def run_op(W, o, s):
    """-> (thunk, done).  done(result) judges the result and records new objects"""
    from xmps.fPEPS import fPEPS, fMPO
    from xmps.fMPS import fMPS
    r = build.rng(o['seed'])
    op, m = o['op'], s.obj
    Lx, Ly, v = s.Lx, s.Ly, s.v
    n2 = float(np.vdot(v, v).real)
    x, y = s.site(o)
    leg = s.leg(x, y)
    d = v.shape[leg]
    big = v.size > 1024 or s.maxD > 6

    def val(want, what, scale=n2):
        def done(res):
            a = np.asarray(res)
            need(a.size == 1 and abs(complex(a.reshape(())) - want) <= TOL * max(scale, abs(want)), 'wrong-value:' + what, '%r, the state vector gives %r' % (res, want))
        return done

    if op in ('T', 'R', 'U'):
        od = dict(T=order_T, R=order_R, U=order_U)[op](Lx, Ly)
        a, b = (Ly, Lx) if op == 'T' else (Lx, Ly)
        oc = None if s.oc is None else dict(T=(s.oc[1], s.oc[0]), R=(Lx - 1 - s.oc[0], s.oc[1]), U=(s.oc[0], Ly - 1 - s.oc[1]))[op]
        return (lambda: getattr(m, op)), lambda q: W.add(q, v.transpose(od), a, b, op, oc, s.iso)
    if op == 'copy':
        return (lambda: m.copy()), lambda q: W.add(q, v.copy(), Lx, Ly, op, s.oc, s.iso)
    if op == 'copyd':
        t = W.same_shape(s, o)
        return (lambda: m.copy(t.obj.data)), lambda q: W.add(q, t.v.copy(), Lx, Ly, op, s.oc, t.iso and s.iso and t.oc == s.oc)
    if op == 'list':                   # a state built on the tensors of another one
        return (lambda: fPEPS(m.data)), lambda q: W.add(q, v.copy(), Lx, Ly, op)
    if op == 'new':
        l = dict(o['i'] % 2 and dict(kind='std') or dict(kind='irr'), Lx=Lx, Ly=Ly, d=d, X=1 + o['k'] % 2, seed=o['seed'])
        if any(q != d for q in v.shape) or Lx * Ly < 2 or d > 3:
            raise Discard
        return (lambda: make(l)), lambda q: W.add(q, dense(q.data), Lx, Ly, op)
    if op == 'normalise':
        def done(q):
            need(q is m, 'wrong-result:normalise')
            s.v = v / np.sqrt(n2)
            s.iso = False
        return (lambda: m.normalise()), done
    if op in ('apply', 'applyc'):
        X = build.crandn(r, (d, d)) if op == 'apply' else build.unitary(r, d)
        return (lambda: m.apply(X, (x, y))), lambda q: W.add(q, on(v, X, leg), Lx, Ly, op, s.oc, False)
    if op == 'add':
        t = W.same_shape(s, o, lambda t: t.maxD + s.maxD <= 5)
        if Lx < 2 or Ly < 2:
            raise Discard
        return (lambda: m.add(t.obj)), lambda q: W.add(q, v + t.v, Lx, Ly, op)
    if op in ('rowc', 'colc', 'contract'):
        w, h = 1 + o['k'] % (Lx - x), 1 + (o['k'] // 6) % (Ly - y)
        if op == 'rowc':
            x, w = 0, 1
            f = lambda: m.row_contract(y, y + h)
        elif op == 'colc':
            y, h = 0, 1
            f = lambda: m.col_contract(x, x + w)
        else:
            f = lambda: m.contract(((x, y), (w, h)))
        if s.maxD ** max(w, h) > 30:
            raise Discard
        u, a, b = blocks(s, x, y, w, h)
        return f, lambda q: W.add(q, u, a, b, op)
    if op == 'E':
        if big:
            raise Discard
        X = build.herm(r, d) if o['k'] % 3 else build.crandn(r, (d, d))
        return (lambda: m.E(X, (x, y))), val(np.vdot(v, on(v, X, leg)).real, 'E', n2 * np.linalg.norm(X))
    if op == 'Ek':
        w, h = min(Lx - x, 1 + o['k'] % 3), min(Ly - y, 1 + o['k'] // 3 % 3)
        legs = [s.leg(x + b, y + a) for a in range(h) for b in range(w)]
        N = int(np.prod([v.shape[l] for l in legs]))
        if N > 64 or big or s.maxD ** max(w, h) > 30:
            raise Discard
        X = build.herm(r, N)
        rest = [l for l in range(v.ndim) if l not in legs]
        u = v.transpose(legs + rest).reshape(N, -1)
        return (lambda: m.E_k(X, ((x, y), (w, h)))), val(np.vdot(u, X @ u).real, 'E_k', n2 * np.linalg.norm(X))
    if op in ('overlap', 'full', 'mpos', 'cmpos'):
        t = s if op == 'cmpos' else W.same_shape(s, o)
        if max(s.maxD, t.maxD) > 5 or big and op != 'full':
            raise Discard
        f = dict(overlap=lambda: m.overlap(t.obj), full=lambda: m.full_overlap(t.obj), mpos=lambda: reduce(lambda p, q: p * q, m.row_mpos(t.obj)[::-1]).recombine(), cmpos=lambda: reduce(lambda p, q: p * q, m.col_mpos()[::-1]).recombine())[op]
        return f, val(complex(np.vdot(v, t.v)), op, np.linalg.norm(v) * np.linalg.norm(t.v))
    if op == 'norm':
        if big:
            raise Discard
        return (lambda: m.norm()), val(np.sqrt(n2), 'norm', np.sqrt(n2))
    if op == 'rec':
        sn = o['k'] % 2
        od = [j * Lx + (i if j % 2 == 0 else Lx - 1 - i) for j in range(Ly) for i in range(Lx)]
        want = (v.transpose(od) if sn else v).reshape(-1)
        return (lambda: m.recombine('row_snake') if sn else m.recombine()), lambda q: need(close(np.asarray(q).reshape(-1), want), 'wrong-value:recombine', 'snake' if sn else 'reading')
    if op in ('trab', 'trbe', 'trle', 'tral', 'trac'):
        D = 1 + o['k'] % 3
        R = [[np.array(A) for A in row] for row in s.rows]
        if op == 'trab' or op == 'trbe':
            if Ly < 2:
                raise Discard
            j = 1 + o['j'] % (Ly - 1)
            R[j - 1] = [A[:, :, :, :D] for A in R[j - 1]]
            R[j] = [A[:, :D] for A in R[j]]
            f = (lambda: m.truncate_above(j, D)) if op == 'trab' else (lambda: m.truncate_below(j - 1, D))
        elif op == 'trle':
            if Lx < 2:
                raise Discard
            i = 1 + o['i'] % (Lx - 1)
            for j in range(Ly):
                R[j][i - 1] = R[j][i - 1][:, :, :D]
                R[j][i] = R[j][i][:, :, :, :, :D]
            f = lambda: m.truncate_left(i, D)
        elif op == 'tral':
            R[y] = [A[:, :, :D, :, :D] for A in R[y]]
            f = lambda: m.truncate_along_row(y, D)
        else:
            for j in range(Ly):
                R[j][x] = R[j][x][:, :D, :, :D]
            f = lambda: m.truncate_along_column(x, D)

        def done(q):
            need(q is m, 'wrong-result:' + op)
            s.v, s.rows, s.iso = dense(R), R, False
        return f, done
    if op == 'fix':                    # one tensor replaced by one of other bonds, neighbours and tensor adapted
        A = s.rows[y][x]
        nb = [y > 0, x + 1 < Lx, y + 1 < Ly, x > 0]
        new = [max(1, b + (o['seed'] // (3 ** i) % 3 - 1)) if nb[i] else b for i, b in enumerate(A.shape[1:])]
        B = build.crandn(r, (d, *new)) / np.sqrt(A.size) * np.linalg.norm(A)
        R = [[np.array(A) for A in row] for row in s.rows]
        old = A.shape[1:]
        low = [min(p, q) for p, q in zip(new, old)]
        R[y][x] = B[:, :low[0], :low[1], :low[2], :low[3]].copy()
        if y:
            R[y - 1][x] = R[y - 1][x][:, :, :, :low[0]]
        if x + 1 < Lx:
            R[y][x + 1] = R[y][x + 1][:, :, :, :, :low[1]]
        if y + 1 < Ly:
            R[y + 1][x] = R[y + 1][x][:, :low[2]]
        if x:
            R[y][x - 1] = R[y][x - 1][:, :, :low[3]]

        def f():
            m.data[y][x] = B.copy()
            return m.fix_neighbours(x, y)

        def done(q):
            need(q is m, 'wrong-result:fix')
            s.v, s.rows, s.iso = dense(R), R, False
        return f, done
    if op == 'edit':                   # a client replaces a tensor of its object
        A = s.rows[y][x]
        B = build.crandn(r, A.shape) / np.sqrt(A.size) * np.linalg.norm(A)
        R = [[np.array(A) for A in row] for row in s.rows]
        R[y][x] = B.copy()

        def f():
            m.data[y][x] = B

        def done(q):
            s.v, s.rows, s.iso = dense(R), R, False
        return f, done
    if op == 'growbond':               # a client replaces two tensors by ones with a larger bond
        if s.maxD > 3 or (Lx < 2 if o['k'] % 2 else Ly < 2):
            raise Discard
        R = [[np.array(A) for A in row] for row in s.rows]
        e = 1 + o['j'] % 2
        if o['k'] % 2:
            x = min(x, Lx - 2)
            p, q, a, b = (y, x), (y, x + 1), 2, 4
        else:
            y = min(y, Ly - 2)
            p, q, a, b = (y, x), (y + 1, x), 3, 1
        for (j, i), ax in ((p, a), (q, b)):
            A = R[j][i]
            sh = list(A.shape)
            sh[ax] = e
            R[j][i] = np.concatenate([A, build.crandn(r, sh) / np.sqrt(A.size) * np.linalg.norm(A)], ax)

        def f():
            m.data[p[0]][p[1]], m.data[q[0]][q[1]] = R[p[0]][p[1]].copy(), R[q[0]][q[1]].copy()

        def done(_):
            s.v, s.rows, s.iso = dense(R), R, False
        return f, done
    if op == 'poke':                   # a client edits a tensor of its object where it is
        A = m.data[y][x]
        if not A.flags.writeable or A.dtype != complex or any(np.shares_memory(A, B) for t in W.slots if t is not s for R in t.obj.data for B in R) or any(np.shares_memory(A, B) for c, _ in W.chains for B in c.data) or any(np.shares_memory(A, B) for R in m.data for B in R if B is not A):
            W.ctx.probe('shared-tensor')
            raise Discard

        def f():
            m.data[y][x] *= .5 + .5j

        def done(q):
            s.v, s.iso = v * (.5 + .5j), False
        return f, done
    if op == 'scale':
        def f():
            m.data[y][x] = m.data[y][x] * (.5 + .5j)

        def done(q):
            s.v, s.iso = v * (.5 + .5j), False
        return f, done
    if op == 'iso':
        if any(q != m.d for q in v.shape):
            raise Discard

        def done(q):
            need(q is m, 'wrong-result:isometrise')
            g = good(m.data, Ly, Lx)
            if g:                      # the bonds it was given do not allow one
                raise Drop
            w = dense(m.data)
            need(abs(np.linalg.norm(w) - 1) < 1e-8, 'wrong-form:isometrise', 'norm %r' % np.linalg.norm(w))
            s.v, s.oc, s.iso = w, (x, y), True
            s.rows = snap(m)
        return (lambda: m.isometrise((x, y))), done
    if op in ('isoE', 'isoEs'):
        if not s.iso:
            raise Discard
        X = build.herm(r, d)
        c = s.leg(*s.oc)
        X = build.herm(r, v.shape[c])
        want = np.vdot(v, on(v, X, c)).real
        if op == 'isoEs':
            return (lambda: m.iso_Es([(X, s.oc), (X @ X, tuple(s.oc))])), lambda q: need(close(np.asarray(q), np.array([want, np.vdot(v, on(v, X @ X, c)).real]), n2), 'wrong-value:iso_Es', '%r' % (q,))
        return (lambda: m.iso_E(X, tuple(s.oc)) if o['k'] % 2 else m.iso_E(X)), val(want, 'iso_E', n2 * np.linalg.norm(X))
    if op == 'env':
        if s.maxD > 3 or big or Lx < 2 or Ly < 2:
            raise Discard

        def done(e):
            A = s.rows[y][x]
            Q = np.einsum('sabcd,sefgh->aebfcgdh', on(A, X, 0), A.conj())
            Q = Q.reshape([b * b for b in A.shape[1:]])
            need(np.shape(e) == Q.shape, 'wrong-value:environment', '%r %r' % (np.shape(e), Q.shape))
            a, b = (np.asarray(e) * Q).sum(), np.vdot(v, on(v, X, leg))
            need(abs(a - b) <= TOL * n2 * np.linalg.norm(X), 'wrong-value:environment', '%r %r at %r' % (a, b, (x, y)))
        X = build.crandn(r, (d, d))
        return (lambda: m.environment((y, x))), done
    if op in ('frommps', 'mps_edit'):
        if op == 'mps_edit' and W.chains:
            c, As = W.chains[o['t'] % len(W.chains)]
            i = o['i'] % len(As)

            def done(q):
                As[i] = As[i] * 2
            if o['k'] % 2:
                def f():
                    c.data[i] = c.data[i] * 2
                return f, done
            e = build.vec(As)
            return (lambda: c.norm()), lambda q: need(abs(abs(complex(q)) - np.linalg.norm(e) ** 2) < 1e-7 * np.linalg.norm(e) ** 2 or abs(abs(complex(q)) - np.linalg.norm(e)) < 1e-7 * np.linalg.norm(e), 'wrong-value:chain-norm', '%r %r' % (q, np.linalg.norm(e)))
        if W.chains and o['k'] % 3 == 0:
            c, As = W.chains[o['t'] % len(W.chains)]
        else:
            As = build.tensors(dict(kind='std', L=Lx * Ly, d=2, D=1 + o['k'] % 3, seed=o['seed']))
            c = fMPS([np.array(a) for a in As])
            As = [np.array(a) for a in As]
            W.chains.append((c, As))
        L = len(As)
        div = [q for q in range(1, L + 1) if L % q == 0]
        w = div[o['i'] % len(div)]
        if L == 1 or L > 9:
            raise Discard
        u = build.psi(As, 2)
        h = L // w
        pos = {(j, (i if j % 2 == 0 else w - 1 - i)): j * w + i for j in range(h) for i in range(w)}
        u = u.transpose([pos[j, i] for j in range(h) for i in range(w)])
        return (lambda: fPEPS().from_mps(c, w) if w * w != L or o['k'] % 2 else fPEPS().from_mps(c)), lambda q: W.add(q, u, w, h, op)
    if op in ('rho', 'rhop'):
        t = s if op == 'rho' else W.same_shape(s, o, lambda t: t.maxD == 1)
        if s.maxD > 1 or any(q != m.d for q in v.shape):
            raise Discard
        w, h = 1 + o['k'] % (Lx - x), 1 + (o['k'] // 6) % (Ly - y)
        one = lambda z, i, j: z.rows[j][i].reshape(-1)
        want = np.array([[np.outer(one(s, x + i, y + j), one(t, x + i, y + j).conj()) for i in range(w)] for j in range(h)])
        return (lambda: m.rho(((x, y), (w, h))) if op == 'rho' else m.rho_proj(t.obj, ((x, y), (w, h)))), lambda q: need(close(np.asarray(q), want), 'wrong-value:' + op)
    if op == 'eq':
        f = o['k'] % 5
        same = [lambda: m == m.T.T, lambda: m == m.R.R, lambda: m == m.U.U, lambda: m == m.copy(), lambda: m.R.U == m.U.R][f]

        def other():
            q = m.copy()
            q.data[y][x] = q.data[y][x] + np.abs(q.data[y][x]).max()
            return m == q
        if o['j'] % 3 == 0:
            return other, lambda q: need(not q, 'wrong-value:eq', 'different states compare equal')
        return same, lambda q: need(bool(q), 'wrong-value:eq', 'case %d' % f)
    if op == 'bond':
        return (lambda: m.bond_dimension), lambda q: need(q == max(max(A.shape[1:]) for row in s.rows for A in row), 'wrong-value:bond_dimension', q)
    raise KeyError(op)


EXC = dict(KeyboardInterrupt=lambda: KeyboardInterrupt('injected'), MemoryError=lambda: MemoryError('injected'), LinAlgError=lambda: np.linalg.LinAlgError('injected'))


def run(case, ctx):
    W = World(case, ctx)
    judged = 0
    for l in case['lives']:
        m = make(l)
        q = dense(m.data)
        W.add(m, q, m.Lx, m.Ly, 'made')
    for i, o in enumerate(case['ops']):
        if not W.slots:
            break
        s = W.slots[o['s'] % len(W.slots)]
        if o['op'] in ('isoE', 'isoEs') and not s.iso:
            isos = [t for t in W.slots if t.iso]
            if isos:
                s = isos[o['s'] % len(isos)]
        try:
            thunk, done = run_op(W, o, s)
        except Discard:
            ctx.ev(i, o['op'], 'n/a')
            continue
        inplace = o['op'] in INPLACE
        ctx.steps()
        ctx.stats['op:' + o['op']] += 1
        c = dict(hit=0, soft=0)
        if 'svd' in o:
            def svd(driver):
                if o['svd'] == 'all':
                    c['hit'] += 1
                    return True
                if driver == 'gesdd':
                    c['soft'] += 1
                    return True
            seams.S.svd = svd
        ab = None
        try:
            if 'abort' in o:
                n = 60
                if not inplace and o['op'] != 'mps_edit':       # how many lines it has: once without a fault
                    with trace.Abort() as cnt:
                        thunk()
                    n = max(1, cnt.count)
                ab = trace.Abort(1 + int(o['abort'] * n), EXC[o['exc']]())
                with ab:
                    res = thunk()
            else:
                res = thunk()
            exc = None
        except (KeyboardInterrupt, Exception) as e:
            if isinstance(e, (Violation, Discard)):
                raise
            exc = e
        finally:
            seams.S.svd = None
        if c['hit']:
            ctx.fault('svd', c['hit'])
        if c['soft']:
            ctx.fault('svd-driver', c['soft'])
        if exc is not None:
            injected = ab is not None and ab.fired
            if injected:
                ctx.fault('abort')
            small = o['op'] == 'iso' and 'truncate peps properly' in str(exc)
            if not (injected or small or c['hit'] and isinstance(exc, np.linalg.LinAlgError)):
                raise Violation('unexpected-error:%s:%s' % (o['op'], type(exc).__name__), tb_text(exc))
            if inplace:
                W.slots = [t for t in W.slots if t is not s]
            ctx.ev(i, o['op'], 'raised', type(exc).__name__)
            W.check_others(None, o['op'] + '-aborted')
            ctx.state((o['op'], s.Lx, s.Ly, s.how, 'raised'))
            continue
        try:
            done(res)
        except Drop:
            W.slots = [t for t in W.slots if t is not s]
            ctx.probe('no-isometric-form')
        else:
            if inplace:
                self_check(W, s, o)
        W.check_others(None, o['op'])
        W.slots = [t for t in W.slots if not t.weak]
        judged += 1
        ctx.data(o['op'], s.v)
        ctx.ev(i, o['op'], s.how, s.Lx, s.Ly, s.maxD)
        ctx.state((o['op'], s.Lx, s.Ly, s.how, bool(c['soft'])))
    ctx.nontrivial = judged >= 3


def self_check(W, s, o):
    s.note()
    W.check(s, o['op'])
