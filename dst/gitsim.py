"""A simulated git: repositories as data, and the processes that query them.

Object names are the ones real git computes for the same content, so a command
the simulation does not know can be answered by real git on the same
repository, materialised on the spot.
"""
import calendar
import contextlib
import copy
import errno
import fnmatch
import hashlib
import io
import os
import shlex
import subprocess
import threading
import weakref
import time

from .clock import Clock
from .core import HarnessError, StepBudget

REAL_POPEN = subprocess.Popen
CLEAN_ENV = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/nonexistent',
             'GIT_CONFIG_NOSYSTEM': '1', 'LC_ALL': 'C', 'GIT_CEILING_DIRECTORIES': '/'}


def sha(kind, body):
    return hashlib.sha1(b'%s %d\0' % (kind, len(body)) + body).hexdigest()


class Commit:
    __slots__ = ('sha', 'parents', 'ts', 'tz', 'n')

    def __init__(self, parents, n, ts, tz):
        self.parents, self.n, self.ts, self.tz = parents, n, ts, tz
        blob = sha(b'blob', b'content %d\n' % n)
        tree = sha(b'tree', b'100644 f\0' + bytes.fromhex(blob))
        who = 'A U Thor <a@example.com> %d %s' % (ts, tz)
        early = 'A U Thor <a@example.com> %d %s' % (ts - 86400 * 30, '+0000')
        body = 'tree %s\n' % tree
        for p in parents:
            body += 'parent %s\n' % p.sha
        body += 'author %s\ncommitter %s\n\ncommit %d\n' % (early, who, n)
        self.sha = sha(b'commit', body.encode())

    def ci(self):
        sign = -1 if self.tz[0] == '-' else 1
        off = sign * (int(self.tz[1:3]) * 3600 + int(self.tz[3:5]) * 60)
        return time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(self.ts + off)) + ' ' + self.tz

    def iso(self):
        a = self.ci()
        return a.replace(' ', 'T', 1).replace(' ', '', 1)

    def strict(self):
        a = self.iso()
        tail = a[-5:]
        return a[:-5] + tail[:3] + ':' + tail[3:]


def reachable(c):
    """The commit and its ancestors, newest first."""
    seen = {}
    todo = [] if c is None else [c]
    while todo:
        c = todo.pop()
        if c.n not in seen:
            seen[c.n] = c
            todo += c.parents
    return [seen[n] for n in sorted(seen, reverse=True)]


class Repo:
    """History, tags and uncommitted edits."""

    def __init__(self, abbrev=7):
        self.commits = []
        self.head = None
        self.tags = {}          # name -> (commit, annotated, serial)
        self.dirty = None       # None, 'worktree' or 'index'
        self.abbrev = abbrev
        self.exists = True
        self.serial = 0
        self.signatures = False     # commits are signed and log.showSignature is set

    def commit(self, ts, tz, merge=None):
        parents = [] if self.head is None else [self.head]
        if (merge is not None and merge not in reachable(self.head)
                and self.head not in reachable(merge)):
            parents.append(merge)
        c = Commit(parents, len(self.commits), ts, tz)
        self.commits.append(c)
        self.head = c
        self.dirty = None

    def tag(self, name, annotated):
        self.serial += 1
        self.tags[name] = (self.head, annotated, self.serial)

    def history(self):
        return reachable(self.head)

    def tags_on(self, c):
        return sorted(n for n, t in self.tags.items() if t[0] is c)

    def nearest(self, match, lightweight=True):
        """-> (distance, tag names git may answer with, best first)"""
        found = []
        history = self.history()
        for c in history:
            names = [n for n in self.tags_on(c) if match(n)]
            ann = [n for n in names if self.tags[n][1]]
            if ann:
                names = sorted(ann, key=lambda n: -self.tags[n][2])
            if ann or names and lightweight:
                found.append((len(history) - len(reachable(c)), c, names))
        if not found:
            return None
        d = min(f[0] for f in found)
        best = [f for f in found if f[0] == d]
        return d, [n for f in sorted(best, key=lambda f: -f[1].ts) for n in f[2]]

    def short(self, n=None):
        return self.head.sha[:max(4, n or self.abbrev)]

    # -- the same repository for real git -----------------------------------------
    def materialise(self, root):
        run = _run_real
        run(['init', '-q', '-b', 'main', '.'], root)
        run(['config', 'core.abbrev', str(self.abbrev)], root)
        with open(os.path.join(root, '.git', 'info', 'exclude'), 'w') as f:
            f.write('*\n')
        out = io.BytesIO()
        mark = {}
        for k, c in enumerate(self.commits, 1):
            mark[id(c)] = k
            msg = b'commit %d\n' % c.n
            data = b'content %d\n' % c.n
            out.write(b'commit refs/heads/b%d\nmark :%d\n' % (k, k))
            out.write(b'author A U Thor <a@example.com> %d +0000\n' % (c.ts - 86400 * 30))
            out.write(b'committer A U Thor <a@example.com> %d %s\n' % (c.ts, c.tz.encode()))
            out.write(b'data %d\n%s\n' % (len(msg), msg))
            for word, p in zip((b'from', b'merge'), c.parents):
                out.write(b'%s :%d\n' % (word, mark[id(p)]))
            out.write(b'M 100644 inline f\ndata %d\n%s\n' % (len(data), data))
        if self.head is not None:
            out.write(b'reset refs/heads/main\nfrom :%d\n\n' % mark[id(self.head)])
        for name, (c, ann, serial) in self.tags.items():
            if c is None:
                continue
            ref = os.fsencode(name)
            if ann:
                out.write(b'tag %s\nfrom :%d\ntagger T <t@example.com> %d +0000\ndata 2\nx\n\n'
                          % (ref, mark[id(c)], 1600000000 + serial * 100))
            else:
                out.write(b'reset refs/tags/%s\nfrom :%d\n\n' % (ref, mark[id(c)]))
        run(['fast-import', '--quiet'], root, out.getvalue())
        inner = {p.n for c in self.commits for p in c.parents}
        refs = b''.join(b'create refs/heads/topic/%d %s\n' % (c.n, c.sha.encode())
                        for c in self.commits if c.n not in inner and c is not self.head)
        refs += b''.join(b'delete refs/heads/b%d\n' % k for k in range(1, len(self.commits) + 1))
        if refs:
            run(['update-ref', '--stdin'], root, refs)
        if self.head is not None:
            run(['reset', '-q', '--hard', 'main'], root)
            if self.dirty:
                with open(os.path.join(root, 'f'), 'a') as f:
                    f.write('edited\n')
                if self.dirty == 'index':
                    run(['add', '-f', 'f'], root)


def _run_real(args, cwd, data=None):
    p = REAL_POPEN(['git'] + args, cwd=cwd, env=CLEAN_ENV, stdin=subprocess.PIPE,
                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out, err = p.communicate(data or b'')
    if p.returncode:
        raise HarnessError('real git %r failed: %r' % (args, err[-200:]))
    return out


LOCAL_ENV = ('GIT_DIR', 'GIT_WORK_TREE', 'GIT_INDEX_FILE')


class Unknown(Exception):
    """A command the simulation leaves to real git."""


def match_glob(pattern):
    return lambda name: fnmatch.fnmatchcase(name, pattern)


class Git:
    """Answers git commands run in directories of the simulated machine."""

    def __init__(self):
        self.roots = {}           # directory -> Repo
        self.real = set()
        self.added = []
        self.index = {}          # path -> bytes that the next commit gets there
        self.pause = contextlib.nullcontext      # around what git itself reads

    def find(self, cwd, env=None):
        """-> (directory, repository), as the environment tells git"""
        env = env or {}
        if env.get('GIT_DIR'):
            cwd = os.path.realpath(cwd)
            d = os.path.realpath(os.path.join(cwd, env['GIT_DIR']))
            r = self.roots.get(os.path.dirname(d))
            if os.path.basename(d) != '.git' or r is None or not r.exists:
                return None, None
            if os.path.dirname(d) != cwd:
                r = copy.copy(r)        # what is in cwd is compared with what it holds
                here = self.roots.get(cwd)
                if (here is None or not here.exists or here.head is None or here.dirty
                        or r.head is None or here.head.n != r.head.n):
                    r.dirty = r.dirty or 'worktree'
            return cwd, r
        d, r = self.around(cwd)
        for k, name in (('GIT_WORK_TREE', ''), ('GIT_INDEX_FILE', '.git/index')):
            if r is not None and env.get(k) and os.path.realpath(os.path.join(
                    d, env[k])) != os.path.join(d, name).rstrip('/'):
                r = copy.copy(r)
                r.dirty = r.dirty or 'worktree'
        return d, r

    def around(self, cwd):
        d = os.path.realpath(cwd)
        while True:
            r = self.roots.get(d)
            if r is not None and r.exists:
                return d, r
            up = os.path.dirname(d)
            if up == d:
                return None, None
            d = up

    def kind(self, args):
        """Which of the questions to git this is (faults are keyed by it)."""
        args = list(args)
        while args[:1] == ['-C'] or args[:1] == ['-c']:
            args = args[2:]
        cmd = args[0] if args else ''
        if cmd == 'rev-parse':
            return 'git-dir' if any(a.startswith('--git-dir') or a.startswith('--is-inside')
                                    or a.startswith('--show-t') for a in args) else 'head'
        return {'describe': 'describe', 'rev-list': 'count', 'show': 'date',
                'log': 'date'}.get(cmd, cmd or 'none')

    def run(self, args, cwd, env=None):
        """-> (rc, stdout bytes, stderr bytes)"""
        if cwd is None:
            if args[:1] != ['-C']:
                return 128, b'', b'fatal: Unable to read current working directory\n'
            cwd = '/'
        try:
            with self.pause():
                return self.simulate(list(args), cwd, env)
        except Unknown:
            return self.ask_real(list(args), cwd, env)

    def ask_real(self, args, cwd, env=None):
        for root, r in self.roots.items():
            if r.exists and root not in self.real:
                self.real.add(root)
                r.materialise(root)
        mine = {k: v for k, v in (env or {}).items() if k in LOCAL_ENV}
        p = REAL_POPEN(['git'] + args, cwd=cwd, env=dict(CLEAN_ENV, **mine),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out, err = p.communicate()
        return p.returncode, out, err

    def simulate(self, args, cwd, env=None):
        while args[:1] == ['-C']:
            cwd = os.path.join(cwd, args[1])
            args = args[2:]
        if not args:
            raise Unknown()
        if args[0] == '--version' or args[0] == 'version':
            return 0, b'git version 2.43.0\n', b''
        root, repo = self.find(cwd, env)
        if root is not None and env and env.get('GIT_DIR'):
            if args[0] == 'rev-parse' and '--git-dir' in args:
                return 0, os.fsencode(env['GIT_DIR']) + b'\n', b''
        if repo is None:
            return 128, b'', b'fatal: not a git repository (or any of the parent directories): .git\n'
        f = getattr(self, 'do_' + args[0].replace('-', '_'), None)
        if f is None:
            raise Unknown()
        r = f(repo, args[1:], root, os.path.realpath(cwd))
        if isinstance(r, tuple):
            return r
        return 0, os.fsencode(r) + b'\n', b''

    def do_add(self, repo, args, root, cwd):
        """What is added goes to the index as it is now, all of it or nothing."""
        flags, paths = [], []
        for k, a in enumerate(args):
            if a == '--':
                paths += args[k + 1:]
                break
            (flags if a.startswith('-') else paths).append(a)
        self.added.append(paths)
        if set(flags) - {'-f', '--force', '-v', '--verbose', '-A', '--all', '--no-all'}:
            self.index = None       # not simulated: nobody knows what it holds now
            return 0, b'', b''
        if not paths:
            if not {'-A', '--all'} & set(flags):
                return 0, b'', b"Nothing specified, nothing added.\n"
            paths = [root]
        new = {}
        for a in paths:
            path = os.path.realpath(os.path.join(cwd, a))
            if path != root and not path.startswith(root + os.sep):
                return 128, b'', b"fatal: %s is outside repository\n" % os.fsencode(a)
            if os.path.isdir(path):
                names = [os.path.join(d, n) for d, _, ns in os.walk(path) for n in ns]
            elif os.path.exists(path):
                names = [path]
            else:
                return 128, b'', b"fatal: pathspec '%s' did not match any files\n" % os.fsencode(a)
            for n in names:
                with open(n, 'rb') as f:
                    new[n] = f.read()
        if self.index is not None:
            self.index.update(new)
        return 0, b'', b''

    do_stage = do_add

    def do_update_index(self, repo, args, root, cwd):
        self.index = None
        raise Unknown()

    def do_rev_parse(self, repo, args, root, cwd):
        if args == ['--git-dir'] or args == ['--absolute-git-dir']:
            return '.git' if cwd == root and args[0] == '--git-dir' else os.path.join(root, '.git')
        if args == ['--show-toplevel']:
            return root
        if args == ['--is-inside-work-tree']:
            return 'true'
        opts = [a for a in args if a.startswith('-')]
        revs = [a for a in args if not a.startswith('-')]
        if revs == ['HEAD'] and repo.head is not None:
            if not opts or opts == ['--verify']:
                return repo.head.sha
            if opts == ['--short']:
                return repo.short()
            if len(opts) == 1 and opts[0].startswith('--short='):
                return repo.short(int(opts[0][8:]))
        elif revs == ['HEAD'] and not opts:
            return 128, b'HEAD\n', b"fatal: ambiguous argument 'HEAD': unknown revision\n"
        raise Unknown()

    def do_describe(self, repo, args, root, cwd):
        o = dict(tags=False, long=False, dirty=None, always=False, abbrev=None, match=None)
        revs = []
        k = 0
        while k < len(args):
            a = args[k]
            if a in ('--tags', '--long', '--always'):
                o[a[2:]] = True
            elif a == '--dirty':
                o['dirty'] = '-dirty'
            elif a.startswith('--dirty='):
                o['dirty'] = a[8:]
            elif a.startswith('--abbrev='):
                o['abbrev'] = int(a[9:])
            elif a == '--match':
                k += 1
                o['match'] = args[k]
            elif a.startswith('--match='):
                o['match'] = a[8:]
            elif a == 'HEAD':
                revs.append(a)
            else:
                raise Unknown()
            k += 1
        if o['abbrev'] == 0 or (revs and o['dirty'] is not None):
            raise Unknown()
        if repo.head is None:
            return 128, b'', b"fatal: bad revision 'HEAD'\n"
        near = repo.nearest(match_glob(o['match']) if o['match'] is not None else lambda n: True,
                            o['tags'])
        mark = o['dirty'] if o['dirty'] is not None and repo.dirty else ''
        h = repo.short(o['abbrev'])
        if near is None:
            if not o['always']:
                return 128, b'', b'fatal: No names found, cannot describe anything.\n'
            return h + mark
        d, names = near
        if d == 0 and not o['long']:
            return names[0] + mark
        return '%s-%d-g%s%s' % (names[0], d, h, mark)

    def do_rev_list(self, repo, args, root, cwd):
        if sorted(args) != ['--count', 'HEAD']:
            raise Unknown()
        if repo.head is None:
            return 128, b'', b"fatal: ambiguous argument 'HEAD': unknown revision\n"
        return str(len(repo.history()))

    def do_show(self, repo, args, root, cwd):
        fmt = None
        for a in args:
            if a.startswith('--format='):
                fmt = a[9:]
            elif a.startswith('--pretty=format:'):
                fmt = a[16:]
            elif a not in ('-s', '-1', '-n1', '--no-patch', 'HEAD'):
                raise Unknown()
        if fmt is None or not ({'-s', '--no-patch'} & set(args)):
            raise Unknown()
        if repo.head is None:
            return 128, b'', b"fatal: ambiguous argument 'HEAD': unknown revision\n"
        for p, v in (('%ci', repo.head.ci()), ('%cI', repo.head.strict()), ('%H', repo.head.sha),
                     ('%h', repo.short()), ('%ct', str(repo.head.ts))):
            fmt = fmt.replace(p, v)
        if '%' in fmt:
            raise Unknown()
        if repo.signatures:
            fmt = ("gpg: Signature made Thu Jan  2 03:04:05 2020 +0000\n"
                   "gpg: Can't check signature: No public key\n") + fmt
        return fmt

    def do_log(self, repo, args, root, cwd):
        if not {'-1', '-n1'} & set(args):
            raise Unknown()
        return self.do_show(repo, args + ['-s'], root, cwd)


class Hung(BaseException):
    """The code under test waits for something that never happens."""


PIPE_SIZE = 65536
WRITING = {'add', 'am', 'apply', 'bisect', 'branch', 'checkout', 'cherry-pick', 'clean', 'clone',
           'commit', 'config', 'fetch', 'gc', 'init', 'maintenance', 'merge', 'mv', 'notes',
           'pack-refs', 'prune', 'pull', 'push', 'rebase', 'reflog', 'repack', 'reset', 'restore',
           'revert', 'rm', 'stash', 'submodule', 'switch', 'symbolic-ref', 'update-index',
           'update-ref', 'worktree', 'write-tree', 'commit-tree', 'replace', 'filter-branch'}


class Pipe(io.BytesIO):
    """The reading end of a pipe that a process fills."""

    def __init__(self, proc, data):
        io.BytesIO.__init__(self, data)
        self.proc = proc
        self.unread = len(data)

    def _before(self):
        self.proc._blocked(self)

    def _done(self):
        self.unread = len(self.getbuffer()) - self.tell()

    def read(self, *a):
        self._before()
        r = io.BytesIO.read(self, *a)
        self._done()
        return r

    read1 = read

    def readinto(self, b):
        self._before()
        r = io.BytesIO.readinto(self, b)
        self._done()
        return r

    def readline(self, *a):
        self._before()
        r = io.BytesIO.readline(self, *a)
        self._done()
        return r

    def readlines(self, *a):
        self._before()
        r = io.BytesIO.readlines(self, *a)
        self._done()
        return r

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def close(self):
        self.unread = 0          # the process gets a SIGPIPE
        io.BytesIO.close(self)


def turn():
    """Another thread may run while this one waits."""
    m = FakePopen.machine
    if m is not None and m.w.sched is not None:
        m.w.sched.yield_point('process')


class FakePopen:
    """Stands for subprocess.Popen; every process is a simulated git."""

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    machine = None      # class attribute, set per run

    @staticmethod
    def mine():
        m = FakePopen.machine
        return m if m is None or m.tasks is None else m.tasks.get(threading.get_ident(), m)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, *rest,
                 text=None, encoding=None, errors=None, **more):
        m = FakePopen.mine()
        if m is None:
            raise HarnessError('a process outside a run')
        if isinstance(args, (str, bytes)):
            argv = shlex.split(os.fsdecode(args))
        else:
            argv = [os.fsdecode(a) for a in args]
        turn()
        self.args = args
        self.pid = 4242
        self.returncode = None
        self.stdin = None
        here = None
        try:
            here = os.fsdecode(cwd) if cwd is not None else os.getcwd()
        except FileNotFoundError:        # started in a directory that is gone
            pass
        if here is not None and not os.path.isdir(here):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), here)
        self._left = 0           # seconds until it ends
        rc, out, err = m.spawn(argv, here, os.environ if env is None else env)
        turn()
        self._left, m.slow = m.slow, 0
        self._clock = m.clock
        textual = bool(universal_newlines or text or encoding or errors)
        if stderr == subprocess.STDOUT:
            out, err = err + out, b''
        elif stderr is None and err:
            m.shown.append((' '.join(argv), err))
        self._rc = rc
        self._pipes = []
        self._waited = dict(args=argv, done=False)
        m.procs.append(self._waited)

        def pipe(data, want):
            if want != subprocess.PIPE:
                return None
            f = Pipe(self, data)
            self._pipes.append(f)
            m.pipes.add(f)
            if textual:
                f = io.TextIOWrapper(f, encoding=encoding or 'utf-8', errors=errors or 'strict')
            return f
        self.stdout = pipe(out, stdout)
        self.stderr = pipe(err, stderr)

    def _blocked(self, reading=None):
        """Waiting for the process, or for the end of one of its pipes."""
        turn()
        if any(f is not reading and f.unread > PIPE_SIZE for f in self._pipes):
            m = FakePopen.mine()
            if m is not None:
                m.hung = True
            raise Hung()
        self._clock.advance(self._left)
        self._left = 0

    def _late(self, timeout):
        if timeout is None or timeout >= self._left:
            return
        self._clock.advance(timeout)
        self._left -= timeout
        raise subprocess.TimeoutExpired(self.args, timeout)

    def communicate(self, input=None, timeout=None):
        turn()
        self._late(timeout)
        for f in self._pipes:
            f.unread = 0
        out = self.stdout.read() if self.stdout else None
        err = self.stderr.read() if self.stderr else None
        for f in (self.stdout, self.stderr):
            if f is not None:
                f.close()
        self.poll()
        return out, err

    def poll(self):
        turn()
        if self._left > 0:       # whoever asks in a loop takes time, too
            self._clock.advance(0.001)
            self._left -= 0.001
        if self._left > 0:
            return None
        if not any(f.unread > PIPE_SIZE for f in self._pipes):
            self.returncode = self._rc
            self._waited['done'] = True
        return self._rc

    def wait(self, timeout=None):
        self._late(timeout)
        self._blocked()
        return self.poll()

    def send_signal(self, sig):
        if self._left > 0:       # it had printed nothing yet
            self._left = 0
            self._rc = -sig
            for f in self._pipes:
                f.truncate(0)
                f.unread = 0

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for f in (self.stdout, self.stderr):
            if f is not None:
                f.close()
        self.wait()

    def __class_getitem__(cls, item):
        return cls


class Machine:
    """The process table of a run: git, and what goes wrong when it is called."""

    def __init__(self, git, world, clock=None):
        self.git = git
        self.w = world
        self.faults = []
        self.ncalls = 0
        self.fired = []
        self.calls = []
        self.procs = []          # every process started, and whether it was waited for
        self.pipes = weakref.WeakSet()
        self.shown = []          # what went to the caller's own stderr
        self.writes = []         # commands that change a repository
        self.hung = False
        self.tasks = None        # thread -> its own Machine, where there are threads
        self.slow = 0            # seconds the process that is starting takes
        self.clock = clock or Clock()

    def set_faults(self, faults):
        self.faults = list(faults)
        self.ncalls = 0
        self.fired = []
        self.calls = []

    def spawn(self, argv, cwd, env=None):
        self.ncalls += 1
        self.w.steps += 1
        if self.ncalls > 2000:
            raise StepBudget('started more than 2000 processes for one question')
        name = os.path.basename(argv[0])
        if name != 'git':
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        kind = self.git.kind(argv[1:])
        self.calls.append(kind)
        if kind in WRITING:
            self.writes.append(' '.join(argv))
        for f in self.faults:
            if f.get('cmd') in (kind, '*') or f.get('n') == self.ncalls:
                return self.fail(f, kind, argv, cwd, env)
        rc, out, err = self.git.run(argv[1:], cwd, env)
        self.w.log('git', kind, rc)
        return rc, out, err

    def fail(self, f, kind, argv, cwd, env=None):
        k = f['kind']
        self.w.count_fault('git-' + k)
        self.w.log('git', kind, 'fault', k)
        if k == 'noisy':         # it complains, but does what it should
            rc, out, err = self.git.run(argv[1:], cwd, env)
            return rc, out, b'warning: simulated\n' * f['lines'] + err
        self.fired.append((k, kind))
        if k == 'slow':          # so does this one, unless somebody loses patience
            r = self.git.run(argv[1:], cwd, env)
            self.slow = f['seconds']
            return r
        if k in ('ENOENT', 'EACCES', 'EAGAIN', 'ENOMEM', 'EMFILE', 'ENOEXEC', 'EIO'):
            e = getattr(errno, k)
            raise OSError(e, os.strerror(e), argv[0])
        if k.startswith('exit'):
            return int(k[4:]), b'', b'fatal: simulated failure\n'
        rc, out, err = self.git.run(argv[1:], cwd, env)
        if k.startswith('late'):         # all output, then a failure
            return int(k[4:]), out, err
        if k == 'killed':
            return -9, out[:f.get('keep', 0)], b''
        if k == 'empty':
            return 0, b'', b''
        if k == 'cut':
            return 0, out[:f.get('keep', 1)], b''
        if k == 'garbage':
            return 0, bytes.fromhex(f['data']), b''
        raise HarnessError('git fault %r' % k)


def timestamp(y, mo, d, h, mi, s):
    return calendar.timegm((y, mo, d, h, mi, s))
