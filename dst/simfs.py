"""File operations of the code under test, behind a seam.

While armed, every open, read, write, stat, rename, ... in the scratch tree is
one event of the simulation, and the plan decides which of them fail, are cut
short, or are where the process dies.  Data still in a process's buffers when
it dies is lost; what reached the (real, scratch) directory stays.  Changing
anything outside the scratch tree is refused.
"""
import builtins
import contextlib
import errno
import io
import os
import sys

from .core import HarnessError, SimCrash, SimInterrupt

ERRORS = ('EIO', 'EACCES', 'ENOSPC', 'EROFS', 'EMFILE', 'ENOMEM', 'EDQUOT')
MUTATING = {'unlink', 'remove', 'rename', 'replace', 'link', 'symlink', 'truncate', 'ftruncate',
            'chmod', 'fchmod', 'mkdir', 'rmdir', 'write', 'fsync', 'fdatasync', 'open-w', 'close-w',
            'utime', 'chown', 'copy'}
ONE_PATH = ('unlink', 'remove', 'truncate', 'chmod', 'mkdir', 'rmdir', 'utime', 'chown', 'stat',
            'lstat', 'readlink', 'listdir', 'scandir', 'access')
TWO_PATHS = ('rename', 'replace', 'link', 'symlink')
ON_FD = ('fsync', 'fdatasync', 'ftruncate', 'fchmod', 'fstat')


class Proc:
    """A process that uses the files."""

    def __init__(self, faults, pid=1000):
        self.n = 0
        self.faults = {f['n']: f for f in faults}
        self.fired = []
        self.events = []
        self.dead = False
        self.pid = pid


class SimFS:
    def __init__(self, base, world):
        self.base = base
        self.w = world
        self.armed = False
        self.turn = None        # called before every event, may run other processes
        self.reset(())

    def reset(self, faults):
        self.proc = Proc(faults)
        self.full = None
        self.fds = {}

    fired = property(lambda self: self.proc.fired)
    events = property(lambda self: self.proc.events)
    dead = property(lambda self: self.proc.dead)

    # -- events --------------------------------------------------------------------
    def rel(self, path):
        return os.path.relpath(path, self.base)

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return False
        return p == self.base or p.startswith(self.base + os.sep)

    def elsewhere(self, path):
        """Is it on the file system for temporary files?"""
        return self.rel(os.path.abspath(path)).startswith('tmp' + os.sep)

    def event(self, op, what):
        """Before an operation.  Returns the fault that applies to it, or None."""
        if self.dead:
            raise SimCrash('the process is dead')
        p = self.proc
        if self.turn:
            self.turn(op)
            self.proc = p
        p.n += 1
        self.w.steps += 1
        p.events.append(op)
        f = p.faults.get(p.n)
        self.w.log(op, what, f and f['kind'])
        if self.full is not None and op in ('write', 'open-w', 'mkdir', 'fsync', 'copy'):
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if f is None:
            return None
        kind = f['kind']
        if kind in ('short', 'torn', 'partial') and op not in ('write', 'copy'):
            return None
        if kind == 'applied' and op not in MUTATING:
            kind = 'EIO'
        self.fired.append((kind, op, what))
        self.w.count_fault(('crash-' if kind in ('crash', 'crash-after', 'torn') else 'fs-')
                           + kind.replace('crash-', '') + '@' + op)
        if kind in ERRORS:
            e = getattr(errno, kind)
            raise OSError(e, os.strerror(e), str(what))
        if kind == 'full':
            self.full = True
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), str(what))
        if kind == 'intr':
            raise SimInterrupt('simulated interrupt')
        if kind == 'crash':
            self.die()
        return f

    def die(self):
        self.proc.dead = True
        raise SimCrash('simulated process death')

    def after(self, f):
        if f is None:
            return
        if f['kind'] in ('crash-after', 'torn'):
            self.die()
        if f['kind'] == 'applied':
            raise OSError(errno.EIO, os.strerror(errno.EIO))

    # -- patching ------------------------------------------------------------------
    def __enter__(self):
        self.armed = True
        self.saved = {}
        fs = self
        for name in ONE_PATH + TWO_PATHS + ON_FD + (
                'open', 'write', 'read', 'close', 'sendfile', 'getpid'):
            if hasattr(os, name):
                self.saved[name] = getattr(os, name)
        real = self.saved

        def one(name):
            f0 = real[name]

            def call(path='.', *a, **k):
                if not fs.inside(path) or 'dir_fd' in k and k['dir_fd'] is not None:
                    if name in MUTATING:
                        raise HarnessError('os.%s of %r outside the scratch tree' % (name, path))
                    return f0(path, *a, **k)
                what = fs.fds.get(path) if isinstance(path, int) else fs.rel(os.path.abspath(path))
                f = fs.event(name, what)
                r = f0(path, *a, **k)
                fs.after(f)
                return r
            return call

        def two(name):
            f0 = real[name]

            def call(a, b, **k):
                if not (fs.inside(b) and (name == 'symlink' or fs.inside(a))):
                    raise HarnessError('os.%s of %r and %r outside the scratch tree' % (name, a, b))
                f = fs.event(name, [fs.rel(os.path.abspath(a)), fs.rel(os.path.abspath(b))])
                if name != 'symlink' and fs.elsewhere(a) != fs.elsewhere(b):
                    raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a, None, b)
                r = f0(a, b, **k)
                fs.after(f)
                return r
            return call

        def on_fd(name):
            f0 = real[name]

            def call(fd, *a, **k):
                if fd not in fs.fds:
                    return f0(fd, *a, **k)
                f = fs.event(name, fs.fds[fd])
                r = f0(fd, *a, **k)
                fs.after(f)
                return r
            return call

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if not fs.inside(path) or dir_fd is not None:
                if writing:
                    raise HarnessError('os.open of %r outside the scratch tree' % (path,))
                return real['open'](path, flags, mode, dir_fd=dir_fd)
            what = fs.rel(os.path.abspath(path))
            f = fs.event('open-w' if writing else 'open-r', what)
            fd = real['open'](path, flags, mode)
            fs.fds[fd] = what
            fs.after(f)
            return fd

        def os_write(fd, data):
            if fd not in fs.fds:
                return real['write'](fd, data)
            return fs.raw_write(fs.fds[fd], lambda b: real['write'](fd, b), data)

        def os_read(fd, n):
            if fd in fs.fds:
                fs.event('read', fs.fds[fd])
            return real['read'](fd, n)

        def os_close(fd):
            if fd in fs.fds and not fs.dead:
                what = fs.fds.pop(fd)
                real['close'](fd)
                fs.after(fs.event('close', what))
                return
            real['close'](fd)

        def getpid():
            return fs.proc.pid

        def sendfile(*a, **k):
            raise OSError(errno.ENOTSOCK, 'not simulated')
        for name in real:
            if name in ONE_PATH:
                setattr(os, name, one(name))
            elif name in TWO_PATHS:
                setattr(os, name, two(name))
            elif name in ON_FD:
                setattr(os, name, on_fd(name))
        os.open, os.write, os.read, os.close = os_open, os_write, os_read, os_close
        os.getpid = getpid
        if 'sendfile' in real:
            os.sendfile = sendfile
        self.real_open = builtins.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *exc):
        self.armed = False
        for name, f in self.saved.items():
            setattr(os, name, f)
        builtins.open = io.open = self.real_open
        return False

    @contextlib.contextmanager
    def paused(self):
        """What other processes do here are no events."""
        armed = self.armed
        if armed and self.dead:
            raise SimCrash('the process is dead')
        if armed:
            self.__exit__()
        try:
            yield
        finally:
            if armed:
                self.__enter__()

    def raw_write(self, what, do, data):
        if self.dead:
            return len(data)         # buffers of a dead process go nowhere
        data = bytes(data)
        f = self.event('write', what)
        if f is None or f['kind'] in ('crash-after', 'applied'):
            n = do(data)
            self.after(f)
            return n
        part = data[:max(0, min(len(data) - 1, int(len(data) * f.get('part', 0.5))))]
        n = do(part) if part else 0
        if f['kind'] == 'torn':
            self.die()
        if f['kind'] == 'partial' or not n:     # some of it, then the disk is full
            self.full = True
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        return n

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if not self.inside(file):
            if set(mode) & set('wax+') and not (isinstance(file, int)):
                raise HarnessError('open(%r, %r) outside the scratch tree' % (file, mode))
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = 'b' in mode
        raw_mode = mode.replace('b', '').replace('t', '').replace('U', '')
        raw = SimRaw(self, file, raw_mode, closefd, opener)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            line = buffering == 1
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if '+' in raw_mode:
                buf = io.BufferedRandom(raw, size)
            elif set(raw_mode) & set('wax'):
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, line)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise


class SimRaw(io.FileIO):
    def __init__(self, fs, file, mode, closefd, opener):
        self.fs = fs
        self.proc = fs.proc
        self.writing = bool(set(mode) & set('wax+'))
        self.done = False
        if isinstance(file, int):
            self.what = fs.fds.get(file)
            f = None
        else:
            self.what = fs.rel(os.path.abspath(os.fsdecode(file)))
            f = fs.event('open-w' if self.writing else 'open-r', self.what)

        def plain(path, flags):
            fd = fs.saved['open'](path, flags, 0o666)
            return fd
        if isinstance(file, int):
            io.FileIO.__init__(self, file, mode, closefd)
        else:
            io.FileIO.__init__(self, file, mode, closefd, opener or plain)
            fs.fds[self.fileno()] = self.what
        if f is not None:
            try:
                fs.after(f)
            except BaseException:
                self.done = True
                self._forget()
                io.FileIO.close(self)
                raise

    def _forget(self):
        try:
            self.fs.fds.pop(self.fileno(), None)
        except ValueError:
            pass

    def write(self, data):
        if self.proc.dead:
            return len(data)
        return self.fs.raw_write(self.what, lambda b: io.FileIO.write(self, b), data)

    def readinto(self, b):
        if not self.proc.dead:
            self.fs.event('read', self.what)
        return io.FileIO.readinto(self, b)

    def readall(self):
        if not self.proc.dead:
            self.fs.event('read', self.what)
        return io.FileIO.readall(self)

    def truncate(self, size=None):
        f = self.fs.event('ftruncate', self.what)
        r = io.FileIO.truncate(self, size)
        self.fs.after(f)
        return r

    def close(self):
        if self.closed or self.done:
            return io.FileIO.close(self)
        self.done = True
        self._forget()
        io.FileIO.close(self)
        if self.writing and not self.proc.dead and self.fs.armed:
            self.fs.after(self.fs.event('close-w', self.what))


def unraisable(arg):
    """Errors in finalisers of a dying process go unnoticed, as they would."""


def ignore_unraisable():
    sys.unraisablehook = unraisable
