"""Line hook on the code under test: budgets, aborts at a chosen line, thread preemption."""
import ast, os, sys, threading, types, _thread
from . import core

PREFIX = os.path.join(core.REPO, 'xmps') + os.sep
_mon = sys.monitoring
TOOL = 3
_cbs = []
_on = False


def _line(code, line):
    for cb in _cbs:
        cb(code, line)


def _codes():
    """every code object of the library"""
    global _all
    if _all is None:
        seen, stack = {}, []
        for name, m in list(sys.modules.items()):
            f = getattr(m, '__file__', None) or ''
            if f.startswith(PREFIX):
                for v in list(vars(m).values()):
                    stack.append(v)
        while stack:
            v = stack.pop()
            if isinstance(v, types.CodeType):
                if id(v) not in seen and v.co_filename.startswith(PREFIX):
                    seen[id(v)] = v
                    stack += [k for k in v.co_consts if isinstance(k, types.CodeType)]
            elif isinstance(v, types.FunctionType):
                stack.append(v.__code__)
                w = getattr(v, '__wrapped__', None)
                if w is not None:
                    stack.append(w)
            elif isinstance(v, type):
                if (getattr(v, '__module__', '') or '').startswith('xmps'):
                    if id(v) not in seen:
                        seen[id(v)] = None
                        stack += list(vars(v).values())
            elif isinstance(v, (staticmethod, classmethod)):
                stack.append(v.__func__)
            elif isinstance(v, property):
                stack += [f for f in (v.fget, v.fset, v.fdel) if f]
            elif hasattr(v, '__wrapped__'):
                stack.append(v.__wrapped__)
        _all = [v for v in seen.values() if v is not None]
    return _all


_all = None


def _push(cb):
    global _on
    _cbs.append(cb)
    if not _on:
        if _mon.get_tool(TOOL) is None:
            _mon.use_tool_id(TOOL, 'xmps-sim')
            for c in _codes():
                _mon.set_local_events(TOOL, c, _mon.events.LINE)
        _mon.register_callback(TOOL, _mon.events.LINE, _line)
        _on = True


def _pop(cb):
    global _on
    _cbs.remove(cb)
    if not _cbs:
        _mon.register_callback(TOOL, _mon.events.LINE, None)
        _on = False


def warm():
    """once, in the process that forks the runs"""
    if _mon.get_tool(TOOL) is None:
        cb = lambda *a: None
        _push(cb)
        _pop(cb)
        for f in {c.co_filename for c in _codes()}:
            stores(f)


class OutOfBudget(BaseException):
    pass


class LineBudget:
    """raise OutOfBudget after n executed lines of the library"""
    def __init__(self, n):
        self.n, self.count = n, 0

    def _cb(self, code, line):
        self.count += 1
        if self.count > self.n:
            self.count = -10 ** 12     # once
            raise OutOfBudget('%d lines' % self.n)

    def __enter__(self):
        self.cb = self._cb
        _push(self.cb)
        return self

    def __exit__(self, *a):
        _pop(self.cb)
        return False


class Abort:
    """raise exc at the n-th executed line (n=None: only count)"""
    def __init__(self, n=None, exc=None):
        self.n, self.exc, self.count, self.fired, self.where = n, exc, 0, False, None

    def _cb(self, code, line):
        self.count += 1
        if self.n is not None and self.count == self.n:
            self.fired = True
            self.where = '%s:%d' % (os.path.basename(code.co_filename), line)
            raise self.exc

    def __enter__(self):
        self.cb = self._cb
        _push(self.cb)
        return self

    def __exit__(self, *a):
        _pop(self.cb)
        return False


_stores = {}


def stores(filename):
    """lines of a file that write to attributes, items or global names: places to look for races at"""
    if filename not in _stores:
        out = set()
        try:
            tree = ast.parse(open(filename).read())
        except Exception:
            tree = ast.Module([], [])
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                continue
            glob = {n for g in ast.walk(fn) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}
            for n in ast.walk(fn):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) or \
                   isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in glob or \
                   isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'update', 'setdefault', 'pop', 'clear', 'extend', 'insert', 'acquire', 'release', 'seed'):
                    out.add(n.lineno)
        _stores[filename] = out
    return _stores[filename]


class Lines:
    """count executed lines and note which they are, and which come next after a write"""
    def __init__(self):
        self.count, self.seen = 0, set()

    def _cb(self, code, line):
        self.count += 1
        self.seen.add((code.co_filename, line))

    def hot(self):
        out = set()
        l = sorted(self.seen)
        for a, b in zip(l, l[1:]):
            if a[0] == b[0] and a[1] in stores(a[0]):
                out.add(b)
        return out

    __enter__, __exit__ = Abort.__enter__, Abort.__exit__


# ------------------------------------------------------------------ threads
class Deadlock(BaseException):
    pass


_sched = None            # the active scheduler
_RealLock = _thread.allocate_lock


class SimLock:
    """lock that lets the simulator run another task instead of blocking"""
    _reentrant = False

    def __init__(self):
        self._l = _RealLock()
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._n += 1
            return True
        if not self._l.acquire(False):
            if not blocking:
                return False
            s = _sched
            if s is not None and s.is_task():
                while not self._l.acquire(False):
                    s.block()
            else:
                if not self._l.acquire(True, timeout):
                    return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._n -= 1
            if self._n:
                return
        self._owner, self._n = None, 0
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._l = _RealLock()
        self._owner, self._n = None, 0

    def _release_save(self):
        st = (self._owner, self._n)
        self._owner, self._n = None, 0
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._n = st

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


class _Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = _RealLock()
        self.sem.acquire()
        self.done = False
        self.result = self.exc = None
        self.lines = 0
        self.aborted = None


class Threads:
    """run tasks in real threads, one at a time; sched = [[gap, pick], ...]: after `gap` more executed
    lines of the library, hand over to the pick-th other runnable task"""
    def __init__(self, fns, sched, ctx=None, aborts=None, limit=None, targets=None, cap=24):
        self.cap = cap
        self.targets, self.hits = dict(targets or {}), {}          # (file, line) -> pick: hand over before this line (the first times)
        self.tasks = [_Task(i, f) for i, f in enumerate(fns)]
        self.aborts, self.limit = aborts or {}, limit      # task -> (line count, exception); lines in all
        self.sched, self.pos, self.count = sched, 0, 0
        self.main = _RealLock()
        self.main.acquire()
        self.by_ident = {}
        self.switches = []
        self.dead = False
        self.next_at = self._gap()

    def _gap(self):
        if self.pos < len(self.sched):
            return self.count + max(1, self.sched[self.pos][0])
        return None

    def is_task(self):
        return _thread.get_ident() in self.by_ident

    def _others(self, cur):
        return [t for t in self.tasks if not t.done and t is not cur]

    def _hand(self, cur, nxt):
        nxt.sem.release()
        cur.sem.acquire()
        if self.dead:
            raise Deadlock('deadlock')

    def block(self):
        """current task waits for a lock: let somebody else run"""
        cur = self.by_ident[_thread.get_ident()]
        o = self._others(cur)
        cur.waits = getattr(cur, 'waits', 0) + 1
        if not o or cur.waits > 2000000 // max(1, len(self.tasks)):
            self.dead = True
            raise Deadlock('deadlock: task %d waits for a lock nobody can release' % cur.i)
        # round robin
        nxt = min(o, key=lambda t: (t.i - cur.i) % len(self.tasks))
        self.spin = getattr(self, 'spin', 0) + 1
        if self.spin > 100000:
            self.dead = True
            raise Deadlock('deadlock: tasks only wait for locks')
        self._hand(cur, nxt)

    def _cb(self, code, line):
        cur = self.by_ident.get(_thread.get_ident())
        if cur is None:
            return
        cur.lines += 1
        self.count += 1
        self.spin = 0
        if self.limit and self.count > self.limit:
            self.limit = None
            self.over = True
            raise OutOfBudget('tasks do not finish')
        ab = self.aborts.get(cur.i)
        if ab and code is not None and cur.lines == ab[0]:
            cur.aborted = '%s:%d' % (os.path.basename(code.co_filename), line)
            raise ab[1]
        if self.next_at is not None and cur.done:
            return
        key = self.targets and code is not None and (code.co_filename, line)
        if key and key in self.targets:
            o = self._others(cur)
            n = self.hits[key] = self.hits.get(key, 0) + 1
            if n >= self.cap:
                del self.targets[key]
            if o:
                nxt = o[(self.targets.get(key, 0) + n) % len(o)]
                self.switches.append((cur.i, nxt.i, os.path.basename(code.co_filename), line))
                self._hand(cur, nxt)
            return
        if self.next_at is not None and self.count >= self.next_at:
            pick = self.sched[self.pos][1]
            self.pos += 1
            self.next_at = self._gap()
            o = self._others(cur)
            if o:
                nxt = o[pick % len(o)]
                self.switches.append((cur.i, nxt.i, os.path.basename(code.co_filename) if code else 'disk', line))
                self._hand(cur, nxt)

    def _body(self, t):
        t.sem.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            t.result = t.fn()
        except BaseException as e:
            t.exc = e
        finally:
            t.done = True
            del self.by_ident[_thread.get_ident()]
            o = self._others(t)
            if o:
                o[0].sem.release()
            else:
                self.main.release()

    def run(self):
        global _sched
        _sched = self
        cb = self._cb
        _push(cb)
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            self.tasks[0].sem.release()
            self.main.acquire()
        finally:
            _pop(cb)
            _sched = None
        return self.tasks
