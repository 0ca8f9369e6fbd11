"""Simulated disk: a scratch directory whose every operation goes through fault points.

Model: operations reach the disk in order; a crash keeps a prefix of them (the last write possibly
torn), minus up to `lose` further operations that had not been forced with fsync.
Each simulated life of the program is a forked process; only the directory survives."""
import builtins, errno, io, os, pickle, sys, time

from . import core, seams, trace

_HERE = (lambda: 0).__code__


class SimCrash(BaseException):
    """power cut: nothing after this point reaches the disk"""


KINDS_W = ('enospc', 'eio', 'short', 'crash', 'torn', 'close-eio')
KINDS_R = ('read-eio', 'read-open')


class Disk:
    def __init__(self, root, ctx, seed=0):
        import random
        self.root = os.path.realpath(root) + os.sep
        self.ctx = ctx
        self.dead = False
        self.undo = []
        self.fault = None           # dict(kind, n, frac, lose)
        self.n = 0
        self.fired = 0
        self.clock = 1.5e9
        self.rng = random.Random(seed)
        self.shuffle_dirs = True
        self.fdpath = {}
        self.real = {}
        self.off = 0

    # ---------------------------------------------------------------- plumbing
    def inside(self, p):
        if self.off or isinstance(p, int):
            return False
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return (p + os.sep).startswith(self.root) or p.startswith(self.root)

    def rel(self, p):
        return os.path.relpath(os.path.abspath(os.fspath(p)), self.root)

    def arm(self, fault):
        self.fault = dict(fault) if fault else None
        self.n = 0

    def disarm(self):
        self.fault = None

    def _check_dead(self):
        if self.dead:
            raise SimCrash('after crash')

    def point(self, what, path, write=None):
        """one disk operation is about to happen; returns how many bytes of `write` may reach the disk (None = all)"""
        self._check_dead()
        if trace._sched is not None:
            trace._sched._cb(_HERE, 0)         # another task may run between any two disk operations
            self._check_dead()
        self.ctx.steps()
        self.ctx.stats['disk:' + what] += 1
        self.ctx.ev('disk', what, self.rel(path), '' if write is None else len(write))
        f = self.fault
        if not f:
            return None
        kind = f['kind']
        reading = what in ('open-r', 'read')
        if kind in KINDS_R and not reading or kind in KINDS_W and reading:
            return None
        if kind in ('short', 'torn') and write is None:
            return None
        if kind == 'close-eio' and what != 'close':
            return None
        if kind == 'read-open' and what != 'open-r':
            return None
        self.n += 1
        if self.n <= f['n']:
            return None
        # fire
        self.fault = None
        self.fired += 1
        self.ctx.fault(kind)
        self.ctx.ev('FAULT', kind, what, self.rel(path))
        if kind in ('enospc', 'eio', 'read-eio', 'close-eio', 'read-open'):
            raise OSError({'enospc': errno.ENOSPC}.get(kind, errno.EIO), 'simulated ' + kind, self.rel(path))
        if kind == 'crash':
            self.crash(f.get('lose', 0))
        keep = len(write) * f.get('frac', 500) // 1000
        if kind == 'short':
            return ('short', keep)
        return ('torn', keep, f.get('lose', 0))

    def crash(self, lose=0):
        if lose:
            k = min(lose, len(self.undo))
            if k:
                self.ctx.fault('lost-writes', k)
            self.off += 1
            for u in reversed(self.undo[len(self.undo) - k:]):
                u()
            self.off -= 1
        self.dead = True
        raise SimCrash('crash')

    # ---------------------------------------------------------------- files
    def _read_all(self, p):
        try:
            with self.real['open'](p, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def _restore(self, p, content):
        def u():
            if content is None:
                try:
                    self.real['remove'](p)
                except OSError:
                    pass
            else:
                with self.real['open'](p, 'wb') as f:
                    f.write(content)
        return u

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = os.path.abspath(os.fspath(file))
        writing = any(c in mode for c in 'wax+')
        if writing:
            self.point('open-w', path)
            old = self._read_all(path)
        else:
            self.point('open-r', path)
            old = None
        raw = self.real['open'](path, mode.replace('t', '').replace('b', '') + 'b', buffering=0)
        if writing:
            self.undo.append(self._restore(path, old))
        f = SimFile(self, raw, path, writing)
        self.fdpath[raw.fileno()] = path
        if 'b' in mode:
            return f
        return io.TextIOWrapper(f, encoding=encoding or 'utf-8', errors=errors, newline=newline)

    def install(self):
        R = self.real
        R['open'] = builtins.open
        D = self

        def sim_open(file, mode='r', *a, **k):
            if not isinstance(file, int) and D.inside(file):
                return D.open(file, mode, *a, **k)
            if isinstance(file, int) and file in D.fdpath and not D.off:
                return SimFile(D, R['open'](file, mode if 'b' in mode else mode + 'b', buffering=0), D.fdpath[file], any(c in mode for c in 'wax+'))
            return R['open'](file, mode, *a, **k)
        builtins.open = sim_open
        io.open = sim_open

        def wrap(name, npath, undo=None, what=None):
            real = getattr(os, name)
            R[name] = real

            def f(*a, **k):
                if D.off or not any(D.inside(x) for x in a[:npath]):
                    return real(*a, **k)
                D.point(what or name, a[0])
                us = undo(*a[:npath]) if undo else []
                r = real(*a, **k)
                D.undo.extend(us)
                if name in ('rename', 'replace', 'mkdir'):
                    D.closed(a[npath - 1])
                return r
            setattr(os, name, f)

        def u_move(a, b):
            a, b = os.path.abspath(a), os.path.abspath(b)
            old = D._read_all(b) if os.path.isfile(b) else None

            def u():
                R['rename'](b, a)
                if old is not None:
                    D._restore(b, old)()
            return [u]

        def u_rm(a):
            a = os.path.abspath(a)
            return [D._restore(a, D._read_all(a))]

        def u_mkdir(a):
            a = os.path.abspath(a)

            def u():
                try:
                    R['rmdir'](a)
                except OSError:
                    pass
            return [u]

        def u_rmdir(a):
            a = os.path.abspath(a)

            def u():
                try:
                    R['mkdir'](a)
                except OSError:
                    pass
            return [u]
        R['rmdir'], R['mkdir'] = os.rmdir, os.mkdir
        wrap('rename', 2, u_move)
        wrap('replace', 2, u_move)
        wrap('remove', 1, u_rm)
        wrap('unlink', 1, u_rm)
        wrap('mkdir', 1, u_mkdir)
        wrap('rmdir', 1, u_rmdir)
        wrap('link', 2, lambda a, b: [D._restore(os.path.abspath(b), None)])
        wrap('symlink', 2, lambda a, b: [D._restore(os.path.abspath(b), None)] if D.inside(b) else [])
        wrap('truncate', 1, u_rm)

        R['osopen'] = os.open

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if D.off or not D.inside(path):
                return R['osopen'](path, flags, mode, dir_fd=dir_fd)
            p = os.path.abspath(os.fspath(path))
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                D.point('open-w', p)
                D.undo.append(D._restore(p, D._read_all(p)))
            fd = R['osopen'](path, flags, mode, dir_fd=dir_fd)
            D.fdpath[fd] = p
            return fd
        os.open = os_open
        R['oswrite'] = os.write

        def os_write(fd, data):
            if D.off or fd not in D.fdpath:
                return R['oswrite'](fd, data)
            return D.write(fd, D.fdpath[fd], bytes(data))
        os.write = os_write
        R['fsync'] = os.fsync

        def fsync(fd):
            if not isinstance(fd, int):
                fd = fd.fileno()
            if fd in D.fdpath:
                D.point('fsync', D.fdpath[fd])
                D.undo.clear()
            return None
        os.fsync = fsync
        os.fdatasync = fsync
        R['sync'] = os.sync
        R['osclose'] = os.close

        def os_close(fd):
            D.fdpath.pop(fd, None)
            return R['osclose'](fd)
        os.close = os_close
        R['listdir'], R['scandir'] = os.listdir, os.scandir

        def listdir(p='.'):
            l = R['listdir'](p)
            if D.inside(p) and D.shuffle_dirs:
                l.sort()
                D.rng.shuffle(l)
            return l
        os.listdir = listdir

        class Scan(list):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def __iter__(self):
                return self

            def __next__(self):
                if not len(self):
                    raise StopIteration
                return self.pop(0)

            def close(self):
                pass

        def scandir(p='.'):
            if isinstance(p, int) or not D.inside(p) or not D.shuffle_dirs:
                return R['scandir'](p)
            with R['scandir'](p) as it:
                l = sorted(it, key=lambda e: e.name)
            D.rng.shuffle(l)
            return Scan(l)
        os.scandir = scandir

    def write(self, fd, path, data):
        v = self.point('write', path, data)
        size = os.fstat(fd).st_size

        def u():
            try:
                f = self.real['osopen'](path, os.O_WRONLY)
            except OSError:
                return
            os.ftruncate(f, size)
            self.real['osclose'](f)
        keep = len(data) if v is None else v[1]
        b = data[:keep]
        while b:
            n = self.real['oswrite'](fd, b)
            b = b[n:]
        self.undo.append(u)
        if v is not None:
            if v[0] == 'short':
                raise OSError(errno.ENOSPC, 'simulated short write', self.rel(path))
            self.crash(v[2])
        return len(data)

    def closed(self, path):
        self.clock += self.rng.choice([0.0, 0.0, 1.0, 60.0, -30.0])
        try:
            os.utime(path, (self.clock, self.clock))
        except OSError:
            pass


class SimFile(io.BufferedIOBase):
    def __init__(self, disk, raw, path, writing):
        self._d, self._raw, self._p, self._w = disk, raw, path, writing
        self.name = path
        self.mode = 'wb' if writing else 'rb'

    def readable(self):
        return self._raw.readable()

    def writable(self):
        return self._raw.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self._raw.fileno()

    def write(self, b):
        if self.closed:
            raise ValueError('write to closed file')
        return self._d.write(self._raw.fileno(), self._p, bytes(b))

    def read(self, n=-1):
        self._d.point('read', self._p)
        return self._raw.readall() if n is None or n < 0 else self._readn(n)

    def _readn(self, n):
        out = b''
        while len(out) < n:
            c = self._raw.read(n - len(out))
            if not c:
                break
            out += c
        return out

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def peek(self, n=0):
        pos = self._raw.tell()
        d = self._readn(max(n, 1))
        self._raw.seek(pos)
        return d

    def seek(self, o, w=0):
        return self._raw.seek(o, w)

    def tell(self):
        return self._raw.tell()

    def truncate(self, n=None):
        self._d.point('truncate', self._p)
        self._d.undo.append(self._d._restore(self._p, self._d._read_all(self._p)))
        return self._raw.truncate(n)

    def flush(self):
        pass

    def close(self):
        if self.closed:
            return
        fd = self._raw.fileno()
        self._d.fdpath.pop(fd, None)
        try:
            if self._w and not self._d.dead:
                self._d.point('close', self._p)
        finally:
            self._raw.close()
            super().close()
            if self._w and not self._d.dead:
                self._d.closed(self._p)

    def __del__(self):
        try:
            self._raw.close()
        except Exception:
            pass


def scratch_dir():
    base = os.environ.get('VERIF_TMP') or '/tmp'
    d = os.path.join(base, 'disk-%d' % os.getpid())
    os.makedirs(d)
    return d


def cleanup(pid):
    import shutil
    base = os.environ.get('VERIF_TMP') or '/tmp'
    d = os.path.join(base, 'disk-%d' % pid)
    if os.path.isdir(d):
        shutil.rmtree(d, ignore_errors=True)


def life(fn, ctx):
    """run fn() in a forked process (a fresh life of the program); returns what it returned.
    Violations, discards and harness errors travel back."""
    r, w = os.pipe()
    ctx.lives = getattr(ctx, 'lives', 0) + 1
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            seams.S.ent.seed(seams.S.ent.getrandbits(64) + ctx.lives)      # a new process has its own entropy
            c = core.Ctx(ctx.case)
            c.log_on = ctx.log_on
            try:
                val = ('ok', fn(c))
            except core.Violation as v:
                val = ('violation', (v.cls, v.msg))
            except core.Discard as d:
                val = ('discard', str(d))
            except BaseException as e:
                val = ('error', core.tb_text(e))
            b = pickle.dumps((val, dict(c.stats), c.states, c.digest(), list(c.trail)))
            while b:
                n = os.write(w, b)
                b = b[n:]
        except BaseException as e:
            import traceback
            traceback.print_exc()
            os._exit(5)
        os._exit(0)
    os.close(w)
    buf = b''
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise RuntimeError('simulated life ended without a result')
    val, stats, states, dig, trail = pickle.loads(buf)
    ctx.stats.update(stats)
    ctx.states |= states
    ctx.ev('life', dig)
    for t in trail:
        ctx.trail.append(t)
    if val[0] == 'violation':
        raise core.Violation(*val[1])
    if val[0] == 'discard':
        raise core.Discard(val[1])
    if val[0] == 'error':
        raise RuntimeError('in simulated life: ' + val[1])
    return val[1]
