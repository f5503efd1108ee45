"""Version engine: the package's version machinery over simulated git histories.

C15: importing never fails.  C16: the version is the right one, or unknown.
C17: build time, run time and the recorded file agree.  C26: asking leaves no trace.
C27: threads that ask at the same time do not interfere.
"""
import json
import locale
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import warnings

from . import core, gitsim, sched, scratch
from .core import HarnessError, World
from .clock import Clock
from .gitsim import FakePopen, Git, Hung, Machine, Repo

VTAGS = ('v1.0', 'v0.9', 'v2.0rc1', 'v10.11.12', 'v1.0-rc-2', 'v1.2+local', 'v3.4-5-gabcdef1',
         'v1.0-dirty', 'v2020.01', 'v1', "v1'0", 'v1.0_x', 'vega1', 'v0', 'v7.0+a.b-c',
         'v\u00e9t\u00e91', 'v1,2', 'v1(2)', 'v1.0+', 'v1+a+b', 'v+', 'v1-dirty-dirty')
ODDTAGS = ('v1"0', 'v1.\udcff', 'v\udc80\udc81')
OTHERTAGS = ('rel1', '1.0', 'xv1.0', 'release-2', 'V1.0', 'nightly', 'test/v1.0')
BRANCHES = ('HEAD -> master', 'master', 'origin/master', 'HEAD', 'release', 'origin/HEAD')
CMDS = ('git-dir', 'describe', 'head', 'count', 'date')
SPAWN = ('ENOENT', 'EACCES', 'EAGAIN', 'ENOMEM', 'EMFILE', 'ENOEXEC', 'EIO')
NOISE = ('noisy', 'slow')
FAILS = ('exit1', 'exit128', 'exit127', 'exit-15', 'late1', 'late128', 'killed')
LIES = ('empty', 'cut', 'garbage')
UNKNOWN = ('0+unknown', 'unknown')
STYLES = ('pep440', 'pep440-pre', 'pep440-post', 'pep440-old', 'git-describe', 'git-describe-long',
          'default', '')
PREFIXES = ('v', 'v', 'v', '', "''", '""', 'rel', 'release-', 'x', 'V')
SHIPPED = dict(style='pep440', tag_prefix='v', parentdir_prefix='')


class Violation(Exception):
    def __init__(self, kind, detail, opno):
        Exception.__init__(self, kind, detail)
        self.kind, self.detail, self.opno = kind, detail, opno


# -- plans ----------------------------------------------------------------------------

def gen_faults(rng, prop, always=False):
    r = rng.random()
    if not always and r < 0.5:
        return []
    kinds = SPAWN + FAILS + NOISE * 2 + (LIES * 2 if prop in ('C15', 'C26', 'C27') else LIES if prop == 'C17' else ())
    if r < 0.6:
        return [fault(rng, rng.choice(kinds), '*')]
    out = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        f = fault(rng, rng.choice(kinds), rng.choice(CMDS))
        if prop != 'C17' and rng.random() < 0.3:
            del f['cmd']
            f['n'] = rng.randint(1, 5)
        out.append(f)
    return out


def random_tag(rng):
    while True:
        n = ''.join(rng.choice('0123456789abcdfgrv.-+_-+.=,!#%&;{}()<>$') for _ in range(rng.randint(1, 9)))
        if '..' not in n and not n.endswith('.') and not n.endswith('.lock'):
            return 'v' + n


def fault(rng, kind, cmd):
    f = dict(kind=kind, cmd=cmd)
    if kind in ('killed', 'cut'):
        f['keep'] = rng.choice((0, 1, 3, 6, 7, 8, 10, 12, 20, 39, 45))
    if kind == 'noisy':
        f['lines'] = rng.choice((1, 3, 20, 5000, 20000))
    if kind == 'slow':
        f['seconds'] = rng.choice((0.5, 2, 12, 45, 400, 4000))
    if kind == 'garbage':
        f['data'] = rng.choice((
            b'\xff\xfe\x00', b'-dirty', b'-', b'v1.0', b'v1.0-x-g', b'-1-gabc', b'0', b'-5',
            b'9' * 5000, b'\xc2\xb2', b'a-b-c-dirty', b'v-0-gabcdef1', b'warning: x\nv1.0-2-gabc',
            b'\n\n', b'\x00', b'v1.0-\xd9\xa1-gabc', b'x-1-gabc', b'usage: git', b'None',
            b'\xe2\x80\xa8', b'1e5', b'0x10', bytes(rng.randrange(256) for _ in range(9))
        )).hex()
    return f


def generate(prop, rng):
    odd = rng.random() < 0.12
    ops = []
    merging = rng.random() < 0.2
    n = rng.choice((4, 5, 6, 8, 9)) if merging else rng.choice((0, 1, 1, 2, 3, 4, 6, 9, 14))
    ts = gitsim.timestamp(2019, 1, 1, 0, 0, 0) + rng.randrange(10 ** 7)
    pobs = rng.choice((0.15, 0.3, 0.6))
    ptag = rng.choice((0.0, 0.15, 0.4, 0.8))
    ncommits = 0

    def observe():
        op = dict(op='observe', env='checkout', faults=gen_faults(rng, prop))
        r = rng.random()
        if r < 0.3 and ncommits:
            op['env'] = 'archive'
            op['old'] = rng.random() < 0.2
            op['refs'] = rng.sample(BRANCHES, rng.choice((0, 1, 1, 2)))
            op['inside'] = rng.random() < 0.3
        elif r < 0.37:
            op['env'] = 'norepo'
        if rng.random() < 0.2:
            op['link'] = True
        if rng.random() < 0.2:
            op['elsewhere'] = True
        if prop != 'C17' and rng.random() < 0.3:
            op['cwd'] = rng.choice(('base', 'base', 'root', 'gone', 'gone'))
        if prop in ('C15', 'C16') and rng.random() < 0.08:
            op['nofile'] = True
        if rng.random() < 0.15:
            op['hook'] = rng.choice((['GIT_DIR'], ['GIT_DIR'], ['GIT_INDEX_FILE'],
                                     ['GIT_DIR', 'GIT_INDEX_FILE'], ['GIT_DIR', 'GIT_WORK_TREE'],
                                     ['GIT_WORK_TREE']))
        if prop in ('C15', 'C26'):
            op['again'] = gen_faults(rng, prop)
        if rng.random() < 0.2:
            op['pause'] = rng.choice((0, 0.01, 5, 100, 10 ** 6))
        if rng.random() < 0.15:
            op['jump'] = rng.choice((-10 ** 9, -86400, -3, 3600, 10 ** 9))
        return op
    if n == 0 or rng.random() < 0.2:
        ops.append(observe())
    for _ in range(n):
        r = rng.random()
        if ncommits and r < (0.35 if merging else 0.12):
            ops.append(dict(op='checkout', which=rng.randrange(ncommits)))
        ts += rng.choice((1 if merging else 0, 1, 60, 86400, 31 * 86400))
        ops.append(dict(op='commit', ts=ts, tz=rng.choice(('+0000', '+0200', '-0730', '+1345'))))
        if merging and ncommits > 1 and rng.random() < 0.45:
            ops[-1]['merge'] = rng.randrange(ncommits)
        ncommits += 1
        while rng.random() < ptag:
            if rng.random() < 0.3:
                name = rng.choice(OTHERTAGS)
            elif odd and rng.random() < 0.5:
                name = rng.choice(ODDTAGS)
            elif rng.random() < 0.25:
                name = random_tag(rng)
            else:
                name = rng.choice(VTAGS)
            ops.append(dict(op='tag', name=name, ann=rng.random() < 0.5))
        if rng.random() < 0.2:
            ops.append(dict(op='edit', how=rng.choice(('worktree', 'index'))))
            if rng.random() < 0.7:
                ops.append(observe())
            if rng.random() < 0.5:
                ops.append(dict(op='clean'))
        if ncommits > 1 and rng.random() < 0.12:
            # an older revision is looked at
            ops += [dict(op='checkout', which=rng.randrange(ncommits)), observe()]
        if rng.random() < pobs:
            ops.append(observe())
        if prop == 'C17' and rng.random() < 0.3:
            ops.append(dict(op='record', how=rng.choice(('build_py', 'sdist', 'sdist+build_py')),
                            faults=gen_faults(rng, prop) if rng.random() < 0.5 else []))
    if prop == 'C17' and rng.random() < 0.6:
        ops.append(dict(op='record', how='direct', versions=gen_versions(rng)))
    if prop == 'C27':
        ops = [op for op in ops if op['op'] != 'observe'] + [together(rng, observe())]
    if not any(op['op'] in ('observe', 'record', 'together') for op in ops):
        ops.append(observe())
    config = dict(abbrev=rng.choice((7, 7, 7, 8, 10, 12, 40)))
    if prop in ('C15', 'C16') and rng.random() < 0.3:
        config['kept'] = True
    if rng.random() < 0.15:
        config['signatures'] = True
    if rng.random() < 0.3:
        config['setup'] = dict(style=rng.choice(STYLES[:4] if prop == 'C15' else STYLES), tag_prefix=rng.choice(PREFIXES),
                               parentdir_prefix=rng.choice(('', 'proj-', 'proj-', 'pr')))
        config['edited'] = rng.random() < 0.5
    if rng.random() < 0.5:
        config['dirs'] = [rng.choice(('proj-1.2', 'proj-0+x', 'work', 'other', 'src'))
                          for _ in range(rng.choice((2, 2, 3, 4)))]
    if prop == 'C17' and rng.random() < 0.15:
        config['verbose'] = True
    plan = dict(engine='vers', prop=prop, config=config, ops=ops, nontrivial=len(ops) > 2)
    if prop == 'C27':
        plan['sseed'] = rng.getrandbits(32)
        config['instr'] = rng.random() < 0.15
    return plan


def together(rng, op):
    """Threads that ask at once: the imported module, another load of it, one of another project."""
    for k in ('link', 'elsewhere', 'nofile'):
        op.pop(k, None)
    faulty = rng.choice((0, 0.3, 0.6))
    threads = []
    for _ in range(rng.choice((2, 2, 2, 3, 4))):
        asks = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            f = gen_faults(rng, 'C27', True) if rng.random() < faulty else []
            asks.append(dict(who=rng.choice(('here', 'here', 'own', 'other', 'other-here')), faults=f))
        threads.append(asks)
    return dict(op, op='together', threads=threads, cold=rng.random() < 0.5)


def gen_versions(rng):
    def text():
        pieces = ['1.0', '+', 'abc', "'", '"', "'''", '"""', '\\', '\\u0041', '\\n', '\n', '\r\n',
                  '%', '%s', '{}', '\u00e9', '\u2028', '\U0001f600', '\x00', '\t', 'null',
                  "'''  # END VERSION_JSON", '$Format:%d$', '.dirty', '#', ' ', '\\x', '\\N{']
        return ''.join(rng.choice(pieces) for _ in range(rng.randint(1, 5)))
    d = {'version': text(), 'full-revisionid': rng.choice((None, 'a' * 40, text())),
         'dirty': rng.choice((True, False, None)), 'error': rng.choice((None, text())),
         'date': rng.choice((None, '2020-03-04T05:06:07+0200'))}
    return d


# -- execution ------------------------------------------------------------------------

def expected(repo, setup=SHIPPED):
    """What a checkout must report: (what versions look like, may a name in them
    be unreadable), or None when there is nothing to report.  A look is (text,
    whether the short hash follows, text after it)."""
    if repo is None or not repo.exists or repo.head is None:
        return None
    prefix = setup['tag_prefix'].strip('\'"')
    near = repo.nearest(lambda n: n.startswith(prefix))
    if near is None:
        return [look(setup['style'], '', len(repo.history()), bool(repo.dirty))], False
    d, names = near
    return ([look(setup['style'], n[len(prefix):], d, bool(repo.dirty)) for n in names],
            not all(decodable(n) for n in names))


def look(style, base, d, dirty):
    if style == 'pep440-pre':
        return (base + '.post.dev%d' % d if d and base else base or '0.post.dev%d' % d), False, ''
    if style == 'pep440-old':
        if base and not d and not dirty:
            return base, False, ''
        return (base or '0') + '.post%d' % d + ('.dev0' if dirty else ''), False, ''
    plus = '.' if '+' in base else '+'
    if style == 'pep440-post':
        if base and not d and not dirty:
            return base, False, ''
        return (base or '0') + '.post%d' % d + ('.dev0' if dirty else '') + plus + 'g', True, ''
    if style in ('git-describe', 'git-describe-long'):
        mark = '-dirty' if dirty else ''
        if base and not d and style == 'git-describe':
            return base, False, mark
        return base + '-%d-g' % d if base else '', True, mark
    mark = '.dirty' if dirty else ''
    if not base:
        return '0+untagged.%d.g' % d, True, mark
    if d or dirty:
        return base + plus + '%d.g' % d, True, mark
    return base, False, ''


def decodable(name):
    try:
        name.encode()
        return True
    except UnicodeEncodeError:
        return False


def version_matches(v, wants, sha):
    for head, hashed, tail in wants:
        if not hashed:
            if v == head + tail:
                return True
            continue
        if v.startswith(head) and v.endswith(tail):
            h = v[len(head):len(v) - len(tail)]
            if len(h) >= 7 and sha.startswith(h):
                return True
    return False


LOADED = '/sim/gcs/_version.py'
_compiled = {}


class Steps:
    """Counts the points where a thread could be switched."""
    n = 0

    def yield_point(self, kind):
        self.n += 1


class Machines:
    """Which thread started a process."""

    def __init__(self, sim, machines):
        self.sim, self.machines = sim, machines

    def get(self, ident, default):
        t = self.sim.by_ident.get(ident)
        return default if t is None else self.machines[t.tid]


class Watched(sched.Sched):
    """Notes when something of the process is not as it was, at any point where another
    thread could run."""

    def __init__(self, *a):
        sched.Sched.__init__(self, *a)
        self.disturbed = None
        self.was = self.state()

    def state(self):
        try:
            cwd = os.getcwd()
        except FileNotFoundError:
            cwd = None
        return dict(directory=cwd, environment=dict(os.environ._data), output=sys.stdout,
                    errors=sys.stderr, path=list(sys.path), arguments=list(sys.argv))

    def yield_point(self, kind):
        if self.disturbed is None:
            now = self.state()
            if now != self.was:
                self.disturbed = [k for k in now if now[k] != self.was[k]][0]
        sched.Sched.yield_point(self, kind)


class Run:
    def __init__(self, plan, keep_log=False):
        self.plan = plan
        self.prop = plan['prop']
        self.w = World()
        self.w.keep_log = keep_log
        self.opno = -1
        self.m = None
        self.kept = None
        self.schedule = None

    def fail(self, kind, detail):
        raise Violation(kind, detail.replace(self.base, '<scratch>'), self.opno)

    def run(self):
        self.w.log('config', json.dumps(self.plan['config'], sort_keys=True))
        real = subprocess.Popen
        env = {k: os.environ.pop(k) for k in list(os.environ) if k.startswith('GIT_')}
        with scratch.Base() as base:
            self.base = base
            self.setup = self.plan['config'].get('setup', SHIPPED)
            self.root = os.path.join(base, *self.plan['config'].get('dirs', ('src', 'proj')))
            self.decoy = os.path.join(base, 'decoy')
            self.git = Git()
            self.clock = Clock()
            self.m = Machine(self.git, self.w, self.clock)
            FakePopen.machine = self.m
            subprocess.Popen = FakePopen
            self.clock.install()
            try:
                self.populate()
                os.chdir(self.decoy)
                for k, op in enumerate(self.plan['ops']):
                    self.opno = k
                    getattr(self, 'do_' + op['op'])(op)
                    self.w.steps += 1
                    self.clock.advance(op.get('pause', 1))
                    self.clock.jump(op.get('jump', 0))
            finally:
                self.clock.remove()
                subprocess.Popen = real
                FakePopen.machine = None
                os.environ.update(env)

    def populate(self):
        if self.setup is SHIPPED:
            self.module = scratch.FILES['gcs/_version.py']
            scratch.project(self.root)
        else:
            self.module = None
            if self.plan['config'].get('edited'):
                self.module = edited_text(self.setup)
            if self.module is None:
                self.module = installed_text(self)
            scratch.project(self.root, {'gcs/_version.py': self.module,
                                        'setup.cfg': setup_cfg(self.setup)})
        if self.plan['config'].get('verbose'):
            path = os.path.join(self.root, 'setup.cfg')
            with open(path, 'rb') as f:
                text = f.read()
            scratch.write(path, text.replace(b'[versioneer]\n', b'[versioneer]\nverbose = True\n'))
            self.w.probe('verbose')
        os.makedirs(os.path.join(self.root, '.git'))
        os.makedirs(self.decoy)
        os.symlink(self.root, os.path.join(self.base, 'link'))
        self.repo = Repo(self.plan['config']['abbrev'])
        self.repo.signatures = bool(self.plan['config'].get('signatures'))
        self.git.roots[self.root] = self.repo
        d = Repo()
        d.commit(1500000000, '+0000')
        d.tag('v66.6', False)
        self.decoy_repo = self.git.roots[self.decoy] = d

    # -- history -------------------------------------------------------------------
    def changed(self):
        if self.root in self.git.real:
            self.git.real.discard(self.root)
            shutil.rmtree(os.path.join(self.root, '.git'), ignore_errors=True)
            os.makedirs(os.path.join(self.root, '.git'))

    def do_commit(self, op):
        self.changed()
        m = op.get('merge')
        c = self.repo.commits
        self.repo.commit(op['ts'], op['tz'], c[m] if m is not None and m < len(c) else None)
        if len(self.repo.head.parents) > 1:
            self.w.probe('merge')

    def do_tag(self, op):
        self.changed()
        if self.repo.head is not None:
            self.repo.tag(op['name'], op['ann'])

    def do_edit(self, op):
        self.changed()
        if self.repo.head is not None:
            self.repo.dirty = op['how']

    def do_clean(self, op):
        self.changed()
        self.repo.dirty = None

    def do_checkout(self, op):
        self.changed()
        if op['which'] < len(self.repo.commits):
            self.repo.head = self.repo.commits[op['which']]
            self.repo.dirty = None

    # -- observations --------------------------------------------------------------
    def keywords(self, text, op):
        """The file as git archive would export it at HEAD."""
        head = self.repo.head
        tags = self.repo.tags_on(head)
        refs = list(op['refs'])
        refs += [t if op['old'] else 'tag: ' + t for t in tags]
        d = ' (%s)' % ', '.join(refs) if refs else ''
        for k, v in (('%d', d), ('%H', head.sha), ('%ci', head.ci())):
            text = text.replace(b'$Format:' + k.encode() + b'$', os.fsencode(v))
        return text

    def exportable(self, op):
        """Can the keywords be written into a source file at all?  (known finding)"""
        if self.repo.head is None:
            return False
        return op.get('raw') or all(
            decodable(t) and '"' not in t for t in self.repo.tags_on(self.repo.head))

    def want_archive(self, op):
        head = self.repo.head
        prefix = self.prefix()
        names = [t for t in self.repo.tags_on(head) if t.startswith(prefix)]
        if op['old']:
            names = [t for t in names if any(c.isdigit() for c in t)]
        return sorted(n[len(prefix):] for n in names)

    def prefix(self):
        return self.setup['tag_prefix'].strip('\'"')

    def from_directory(self, op):
        """The version the directory names give, if that is how it is set up."""
        p = self.setup['parentdir_prefix']
        if not p or op['env'] == 'archive':
            return None
        for d in self.plan['config'].get('dirs', ('src', 'proj'))[::-1][:3]:
            if d.startswith(p):
                return d[len(p):]
        return None

    def enter(self, op):
        """Set the tree up for an observation; returns what undoes it."""
        path = os.path.join(self.root, 'gcs', '_version.py')
        undo = []
        if op.get('cwd'):
            where = {'base': self.base, 'root': self.root}.get(op['cwd'])
            if where is None:
                where = os.path.join(self.base, 'gone')
                os.mkdir(where)
                os.chdir(where)
                os.rmdir(where)
            else:
                os.chdir(where)
            undo.append(lambda: os.chdir(self.decoy))
            self.w.probe('cwd-' + op['cwd'])
        for k in op.get('hook', ()):         # as in a git hook of the other repository
            os.environ[k] = os.path.join(self.decoy, {
                'GIT_DIR': '.git', 'GIT_INDEX_FILE': '.git/index', 'GIT_WORK_TREE': ''}[k])
            undo.append(lambda k=k: os.environ.pop(k, None))
            self.w.probe('hook')
        if op['env'] == 'archive':
            scratch.write(path, self.keywords(self.module, op))
            undo.append(lambda: scratch.write(path, self.module))
            if op['inside']:
                self.git.roots[self.root] = self.decoy_repo
            else:
                del self.git.roots[self.root]
            undo.append(lambda: self.git.roots.__setitem__(self.root, self.repo))
        elif op['env'] == 'norepo':
            del self.git.roots[self.root]
            undo.append(lambda: self.git.roots.__setitem__(self.root, self.repo))
        return undo

    def do_observe(self, op):
        if op['env'] == 'archive' and not self.exportable(op):
            return
        undo = self.enter(op)
        try:
            if self.prop == 'C17':
                self.agreement(op)
            elif self.prop == 'C26':
                self.no_trace(op)
            elif op.get('nofile'):
                self.frozen(op)
            else:
                self.runtime(op)
        finally:
            for f in undo:
                f()

    def import_root(self, op):
        return os.path.join(self.base, 'link') if op.get('link') else self.root

    def runtime(self, op):
        self.m.set_faults(op['faults'])
        try:
            with scratch.quiet(), scratch.imported(self.import_root(op)) as gcs:
                v = gcs.__version__
                fired = list(self.m.fired)
                self.m.set_faults(op.get('again', op['faults']))
                d = sys.modules['gcs._version'].get_versions()
                fired2 = list(self.m.fired)
                asked = sys.modules['gcs._version'].get_versions
        except (HarnessError, MemoryError):
            raise
        except (Exception, SystemExit) as e:
            self.fail('import-failed', 'import or get_versions() with git faults %r raised %s: %s'
                      % (op['faults'], type(e).__name__, str(e)[:200]))
        finally:
            self.m.set_faults(())
        self.check_shape(v, d)
        self.w.log('observed', v, sorted(d.items()))
        if self.prop == 'C16' or not any(f[0] in LIES for f in fired2):
            self.judge(op, d, fired2)
        if not any(f[0] in LIES for f in fired):
            self.judge_version(op, v, fired)
        if self.plan['config'].get('kept') and op['env'] != 'archive':
            self.same_process(op, asked)

    def same_process(self, op, f):
        """A process that imported the package earlier asks again."""
        if self.kept is None:
            self.kept = f
            return
        self.m.set_faults(op.get('again', op['faults']))
        try:
            with scratch.quiet():
                d = self.kept()
            fired = list(self.m.fired)
        except (HarnessError, MemoryError):
            raise
        except (Exception, SystemExit) as e:
            self.fail('import-failed', 'get_versions() in a process that asked before raised %s: %s'
                      % (type(e).__name__, str(e)[:200]))
        finally:
            self.m.set_faults(())
        self.check_shape(d['version'] if isinstance(d, dict) and 'version' in d else None, d)
        self.w.log('asked again', sorted(d.items()))
        self.w.probe('asked-again')
        if not any(f[0] in LIES for f in fired):
            self.judge(op, d, fired)

    def frozen(self, op):
        """Where modules have no __file__, only an export can know its version."""
        text = self.keywords(self.module, op) if op['env'] == 'archive' else self.module
        space = {'__name__': 'gcs._version', '__package__': 'gcs'}
        self.m.set_faults(op['faults'])
        try:
            with scratch.quiet():
                exec(compile(text, 'frozen', 'exec', dont_inherit=True), space)
                d = space['get_versions']()
        except (HarnessError, MemoryError):
            raise
        except (Exception, SystemExit) as e:
            self.fail('import-failed', 'get_versions() of a module without __file__ raised %s: %s'
                      % (type(e).__name__, str(e)[:200]))
        finally:
            self.m.set_faults(())
        self.check_shape(d['version'] if isinstance(d, dict) and 'version' in d else None, d)
        self.w.log('frozen', sorted(d.items()))
        if op['env'] == 'archive':
            self.judge(op, d, [])
        elif d['version'] not in UNKNOWN or not d['error'] or d['full-revisionid'] is not None:
            self.fail('wrong-version', 'a module without __file__ reported %r' % (d,))

    # -- C26 -----------------------------------------------------------------------
    def surroundings(self):
        """What finding the version must leave alone."""
        mask = os.umask(0o22)
        os.umask(mask)
        try:
            cwd = os.getcwd()
        except FileNotFoundError:
            cwd = None
        out = dict(cwd=cwd, environ=dict(os.environ), umask=mask, argv=list(sys.argv),
                   path=list(sys.path), hooks=(sys.excepthook, sys.displayhook, sys.gettrace()),
                   limit=sys.getrecursionlimit(), threads=threading.active_count(),
                   locale=locale.setlocale(locale.LC_ALL), cwds=os.stat('.').st_ino,
                   filters=list(warnings.filters), tmp=tempfile.tempdir,
                   signals=[signal.getsignal(k) for k in (
                       signal.SIGCHLD, signal.SIGPIPE, signal.SIGINT, signal.SIGTERM)],
                   descriptors=len(os.listdir('/proc/self/fd')))
        tree = {}
        for d, dirs, names in os.walk(self.base):
            dirs[:] = [n for n in dirs if n != '__pycache__' and not (
                n == '.git' and d in self.git.real)]
            for n in names + dirs:
                path = os.path.join(d, n)
                st = os.lstat(path)
                tree[os.path.relpath(path, self.base)] = (
                    (st.st_mode, st.st_ino, st.st_size, st.st_mtime_ns, st.st_nlink)
                    if n in names else st.st_mode)
        out['files'] = tree
        return out

    def traced(self, what, f, op, faults):
        real = set(self.git.real)
        before = self.surroundings()
        del self.m.procs[:], self.m.writes[:], self.m.shown[:]
        self.m.set_faults(faults)
        said = [sys.stdout, sys.stderr]
        try:
            r = f()
        except HarnessError:
            raise
        except (Exception, SystemExit) as e:
            r = e          # another property
        finally:
            self.m.set_faults(())
        printed = ''.join(x.getvalue() for x in said)
        if printed:
            self.fail('left-trace', '%s with git faults %r printed %r'
                      % (what, faults, printed[:300]))
        if self.m.shown and op['env'] == 'norepo' and not faults:
            self.fail('left-trace', '%s outside any repository lets %r print %r'
                      % (what, self.m.shown[0][0], self.m.shown[0][1][:200]))
        if sys.stdout is not said[0] or sys.stderr is not said[1]:
            self.fail('left-trace', '%s with git faults %r replaced a standard stream'
                      % (what, faults))
        for p in self.m.procs:
            if not p['done']:
                self.fail('left-trace', '%s with git faults %r did not wait for %r'
                          % (what, faults, p['args']))
        if any(not x.closed for x in self.m.pipes):
            self.fail('left-trace', '%s with git faults %r keeps a pipe to git open'
                      % (what, faults))
        if self.m.writes:
            self.fail('left-trace', '%s with git faults %r ran commands that change the '
                      'repository: %r' % (what, faults, self.m.writes))
        after = self.surroundings()
        if real != self.git.real:      # the simulator wrote the repositories
            for t in (before['files'], after['files']):
                for k in [k for k in t if '.git' in k.split(os.sep)]:
                    del t[k]
        for k in before:
            if before[k] != after[k]:
                self.fail('left-trace', '%s with git faults %r changed %s: %s'
                          % (what, faults, k, difference(before[k], after[k])))
        return r

    def no_trace(self, op):
        again, faults = op['again'], op['faults']
        with scratch.temporary(self.base), scratch.quiet():
            cm = scratch.imported(self.import_root(op))
            self.traced('importing the package', cm.__enter__, op, faults)
            module = sys.modules.get('gcs._version')
            try:
                if module is not None:
                    a = self.traced('get_versions()', module.get_versions, op, again)
                    if isinstance(a, dict):
                        first = dict(a)
                        for k in list(a):
                            a[k] = 'mine'
                        a.clear()
                        b = self.traced('get_versions()', module.get_versions, op, again)
                        if b != first:
                            self.fail('left-trace', 'the answer is %r after the first one, %r, '
                                      'was changed by its owner' % (b, first))
            finally:
                if 'gcs' in sys.modules and module is not None:
                    cm.__exit__()
        with scratch.temporary(self.base), scratch.build_context(
                self.root, self.decoy if op.get('elsewhere') else None):
            v = scratch.versioneer(self.root)
            a = self.traced('build-time get_versions()', v.get_versions, op, faults)
            if isinstance(a, dict):
                first = dict(a)
                a.clear()
                v = scratch.versioneer(self.root)
                b = self.traced('build-time get_versions()', v.get_versions, op, faults)
                if b != first:
                    self.fail('left-trace', 'the build-time answer is %r after the first one, '
                              '%r, was changed by its owner' % (b, first))
            v = scratch.versioneer(self.root)
            self.traced('build-time get_version()', v.get_version, op, again)
        self.w.log('no trace', op['env'])
        self.w.probe('observed-' + op['env'])

    def check_shape(self, v, d):
        if not isinstance(v, str) or not v:
            self.fail('no-version', '__version__ is %r' % (v,))
        if not isinstance(d, dict) or not isinstance(d.get('version'), str) or not d['version']:
            self.fail('no-version', 'get_versions() returned %r' % (d,))
        for k in ('full-revisionid', 'dirty', 'error'):
            if k not in d:
                self.fail('no-version', 'get_versions() has no %r: %r' % (k, d))

    def judge_version(self, op, v, fired):
        """The bare version string."""
        guess = self.from_directory(op)
        nothing = self.must_be_unknown(op)
        if fired or nothing or self.may_be_unknown(op):
            if v in UNKNOWN and (guess is None or not nothing):
                return
            if guess is not None and v == guess:
                return
        if v in UNKNOWN or nothing or not self.right(op, v):
            self.fail('wrong-version', 'reported %r, but %s%s'
                      % (v, self.truth(op), ' (failed: %r)' % fired if fired else ''))

    def expected(self):
        return expected(self.repo, self.setup)

    def right(self, op, v):
        if op['env'] == 'archive':
            return v in self.want_archive(op)
        e = self.expected()
        return e is not None and version_matches(v, e[0], self.repo.head.sha)

    def must_be_unknown(self, op):
        if op['env'] == 'archive':
            return not self.want_archive(op)
        return op['env'] == 'norepo' or self.expected() is None

    def may_be_unknown(self, op):
        e = self.expected()
        return op['env'] == 'checkout' and e is not None and e[1]

    def truth(self, op):
        if op['env'] == 'archive':
            return 'the export of %s has version tags %r' % (self.repo.head.sha,
                                                             self.want_archive(op))
        if self.must_be_unknown(op):
            return 'there is no version to report'
        return 'the revision %s is %r' % (self.repo.head.sha, self.expected()[0])

    def judge(self, op, d, fired):
        """The whole answer."""
        v = d['version']
        self.judge_version(op, v, fired)
        sha = None
        if op['env'] == 'archive' or (op['env'] == 'checkout' and self.repo.head is not None):
            sha = self.repo.head.sha
        guess = self.from_directory(op)
        if guess is not None and v == guess and d['full-revisionid'] is None:
            if d['error'] is not None or d['date'] is not None:
                self.fail('wrong-version', 'the version of the directory name comes with more: %r'
                          % (d,))
            self.w.probe('answer-directory')
            return
        if v in UNKNOWN and not (op['env'] == 'archive' and self.right(op, v)):
            if not d['error']:
                self.fail('wrong-version', 'unknown version without an error: %r' % (d,))
            if op['env'] == 'archive':
                if d['full-revisionid'] != sha:
                    self.fail('wrong-version', 'the export of %s reports revision %r'
                              % (sha, d['full-revisionid']))
            elif d['full-revisionid'] not in (None, sha):
                self.fail('wrong-version', 'unknown version with revision %r of %r'
                          % (d['full-revisionid'], sha))
            self.w.probe('answer-unknown')
            return
        want = dict([('full-revisionid', sha), ('error', None), ('date', self.repo.head.iso()),
                     ('dirty', bool(self.repo.dirty) if op['env'] == 'checkout' else False)])
        for k, x in want.items():
            if d.get(k) != x:
                self.fail('wrong-version', '%s is %r, should be %r, in %r' % (k, d.get(k), x, d))
        self.w.probe('answer-right-under-fault' if fired else 'answer-right')

    # -- C27 -----------------------------------------------------------------------
    def do_together(self, op):
        if op['env'] == 'archive' and not self.exportable(op):
            return
        undo = self.enter(op)
        try:
            with scratch.quiet():
                self.together(op)
        finally:
            for f in undo:
                f()

    def load(self, where, imported):
        """The module of a project, loaded afresh."""
        if imported:
            return sys.modules['gcs._version'].get_versions
        path = os.path.join(where, 'gcs', '_version.py')
        with open(path, 'rb') as f:
            text = f.read()
        code = _compiled.get(text)
        if code is None:
            if len(_compiled) > 200:
                _compiled.clear()
            code = _compiled[text] = compile(text, LOADED, 'exec', dont_inherit=True)
        space = {'__name__': 'gcs._version', '__package__': 'gcs', '__file__': path}
        exec(code, space)
        return space['get_versions']

    def ask(self, ask, machine, modules):
        who = ask['who']
        machine.set_faults(ask['faults'])
        try:
            if who == 'own':
                f = self.load(self.root, False)
            elif who == 'other':
                f = self.load(self.decoy, False)
            else:
                f = modules[who]
            d = f()
            return ('answer', dict(d)) if isinstance(d, dict) else ('answer', d)
        except (HarnessError, MemoryError, sched.SimAbort):
            raise
        except Hung:
            return 'hung', None
        except (Exception, SystemExit) as e:
            return 'raised', '%s: %s' % (type(e).__name__, str(e)[:200])

    def together(self, op):
        path = os.path.join(self.decoy, 'gcs', '_version.py')
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path))
            scratch.write(path, self.module)

        def fresh():
            return {'here': self.load(self.root, True), 'other-here': self.load(self.decoy, False)}

        files = {os.path.join(self.root, 'gcs', '_version.py'), LOADED}
        core.EXTRA.update(files)
        try:
            with scratch.imported(self.root):
                modules = fresh()
                alone, total = [], 20
                for asks in op['threads']:
                    alone.append([])
                    for a in asks:
                        m = Machine(self.git, self.w, self.clock)
                        FakePopen.machine = m
                        n = self.w.sched = Steps()
                        try:
                            with core.monitored(self.w, self.plan['config'].get('instr')):
                                alone[-1].append(self.ask(a, m, modules))
                        finally:
                            self.w.sched = None
                            FakePopen.machine = self.m
                        total += n.n
            with scratch.imported(self.root):
                modules = fresh()
                if not op['cold']:
                    for f in modules.values():
                        try:
                            f()
                        except Exception:
                            pass
                self.race(op, modules, alone, total)
        finally:
            core.EXTRA.difference_update(files)

    def race(self, op, modules, alone, total):
        n = len(op['threads'])
        if 'schedule' in self.plan:
            strategy = sched.Replay(self.plan['schedule'])
        else:
            strategy = sched.make_strategy(random.Random(self.plan['sseed']), n, total)[1]
        machines = [Machine(self.git, self.w, self.clock) for _ in range(n)]
        got = [[] for _ in range(n)]

        def body(t):
            def run(task):
                for a in op['threads'][t]:
                    got[t].append(self.ask(a, machines[t], modules))
            return run

        with sched.seams():
            sim = Watched(self.w, [body(t) for t in range(n)], strategy, 100000 + 50 * total)
            self.m.tasks = Machines(sim, machines)
            time.sleep = lambda s: (self.clock.advance(s), sim.yield_point('sleep'))
            try:
                with core.monitored(self.w, self.plan['config'].get('instr')):
                    sim.run()
            finally:
                self.m.tasks = None
        self.schedule = sim.trace
        self.w.log('schedule', sim.trace)
        self.w.probe('asked-together')
        self.w.steps += sim.clock
        if sim.aborting:
            self.fail(*sim.aborting)
        if sim.disturbed:
            self.fail('disturbed', 'while a thread asks for the version, %s of the process is '
                      'changed, which other threads see' % sim.disturbed)
        for t, asks in enumerate(op['threads']):
            for k, a in enumerate(asks):
                self.w.log('answer', t, k, str(got[t][k]))
                if got[t][k] != alone[t][k]:
                    self.fail('interfered', 'thread %d asking %s (git faults %r) got %r, alone it '
                              'gets %r' % (t, a['who'], a['faults'], got[t][k], alone[t][k]))
                self.w.probe('same-as-alone' if a['faults'] else 'same-as-alone-no-fault')

    # -- C17 -----------------------------------------------------------------------
    def guarded(self, what, f, faults=()):
        self.m.set_faults(faults)
        try:
            return f()
        except (HarnessError, MemoryError):
            raise
        except (Exception, SystemExit) as e:
            self.fail('crashed', '%s with git faults %r raised %s: %s'
                      % (what, faults, type(e).__name__, str(e)[:200]))
        finally:
            self.m.set_faults(())

    def at_runtime(self, root):
        with scratch.quiet(), scratch.imported(root) as gcs:
            d = sys.modules['gcs._version'].get_versions()
            if gcs.__version__ != d['version']:
                self.fail('disagree', '__version__ is %r, get_versions() says %r'
                          % (gcs.__version__, d))
        return d

    def at_build(self, root, elsewhere=None):
        with scratch.build_context(root, elsewhere):
            return scratch.versioneer(root).get_versions()

    def printed(self, root):
        """What the version command prints."""
        with scratch.build_context(root), scratch.fake_setuptools():
            v = scratch.versioneer(root)
            v.get_cmdclass()['version'](root, None).run()
            return sys.stdout.getvalue()

    def same(self, what, a, b):
        for k in ('version', 'full-revisionid', 'dirty', 'date'):
            if a.get(k) != b.get(k):
                self.fail('disagree', '%s: %r differs: %r and %r' % (what, k, a, b))
        if bool(a.get('error')) != bool(b.get('error')):
            self.fail('disagree', '%s: %r differs: %r and %r' % (what, 'error', a, b))

    def agreement(self, op):
        faults = op['faults']
        a = self.guarded('run time', lambda: self.at_runtime(self.import_root(op)), faults)
        b = self.guarded('build time', lambda: self.at_build(self.root), faults)
        self.same('run time and build time', a, b)
        if op.get('elsewhere'):
            b = self.guarded('build time', lambda: self.at_build(self.root, self.decoy), faults)
            self.same('run time and build time started in another directory', a, b)
            text = self.guarded('the version command', lambda: self.printed(self.root), faults)
            if 'Version: %s\n' % a['version'] not in text:
                self.fail('disagree', 'the version command prints %r, the run time version is %r'
                          % (text, a['version']))
        path = os.path.join(self.root, 'gcs', '_version.py')
        with open(path, 'rb') as f:
            old = f.read()
        text = installed_text(self)
        if op['env'] == 'archive':
            text = self.keywords(text, op)
        scratch.write(path, text)
        try:
            c = self.guarded('run time of the installed module',
                             lambda: self.at_runtime(self.import_root(op)), faults)
        finally:
            scratch.write(path, old)
        self.same('run time and run time of the module versioneer installs', a, c)
        self.w.log('agreed', sorted(a.items()))
        self.w.probe('agreed')
        if a['version'] in UNKNOWN:
            self.w.probe('agreed-unknown')

    def do_record(self, op):
        with open(os.path.join(self.root, 'gcs', '_version.py'), 'rb') as f:
            before = f.read()
        target = os.path.join(self.base, 'out%d' % self.opno)
        if op['how'] == 'direct':
            want = op['versions']
            scratch.project(target)

            def rec():
                with scratch.build_context(target):
                    v = scratch.versioneer(target)
                    v.write_to_version_file(os.path.join(target, 'gcs', '_version.py'), want)
            self.guarded('recording %r' % (want,), rec)
        else:
            want = self.guarded('build time', lambda: self.at_build(self.root), op['faults'])
            src, how = self.root, op['how']
            if how.startswith('sdist'):
                self.guarded('sdist', lambda: self.command(src, 'sdist', target), op['faults'])
            if how == 'sdist+build_py':
                self.check_recorded(want, target)
                src, target = target, target + 'b'
            if how.endswith('build_py'):
                self.guarded('build_py', lambda: self.command(src, 'build_py', target),
                             op['faults'] if src == self.root else [dict(kind='ENOENT', cmd='*')])
        self.check_recorded(want, target)
        with open(os.path.join(self.root, 'gcs', '_version.py'), 'rb') as f:
            if f.read() != before:
                self.fail('source-changed', 'recording by %s changed the source tree' % op['how'])
        self.w.probe('recorded-' + op['how'])

    def command(self, root, name, target):
        with scratch.build_context(root), scratch.fake_setuptools():
            v = scratch.versioneer(root)
            c = v.get_cmdclass()[name](root, target)
            c.run()
            return c

    def check_recorded(self, want, tree):
        path = os.path.join(tree, 'gcs', '_version.py')
        none = [dict(kind='ENOENT', cmd='*')]
        self.git.roots[tree] = self.decoy_repo     # it must not even be asked
        try:
            got = self.guarded('importing the recorded file', lambda: self.at_runtime(tree), none)
            self.verbatim('imported', want, got)
            got = self.guarded('importing the recorded file', lambda: self.at_runtime(tree))
            self.verbatim('imported inside another repository', want, got)

            def read():
                with scratch.build_context(self.root):
                    return scratch.versioneer(self.root).versions_from_file(path)
            self.verbatim('versions_from_file', want,
                          self.guarded('versions_from_file', read, none))
            if os.path.exists(os.path.join(tree, 'setup.cfg')):
                got = self.guarded('build time of the recorded tree',
                                   lambda: self.at_build(tree), none)
                self.verbatim('read at build time', want, got)
                got = self.guarded('build time of the recorded tree', lambda: self.at_build(tree))
                self.verbatim('read at build time inside another repository', want, got)
        finally:
            del self.git.roots[tree]
        self.w.log('recorded', sorted((k, str(v)) for k, v in want.items()))

    def verbatim(self, what, want, got):
        if got != want:
            self.fail('recorded-differs', '%s: recorded %r, read %r' % (what, want, got))


def difference(a, b):
    if isinstance(a, dict):
        d = [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        return repr(d[:3])[:400]
    return '%s to %s' % (repr(a)[:200], repr(b)[:200])


_installed = {}


def setup_cfg(setup):
    text = scratch.FILES['setup.cfg'].decode().splitlines()
    for k, v in setup.items():
        n = [i for i, line in enumerate(text) if line.split('=')[0].strip() == k]
        if len(n) != 1:
            raise HarnessError('setup.cfg sets %s %d times' % (k, len(n)))
        text[n[0]] = '%s = %s' % (k, v)
    return ('\n'.join(text) + '\n').encode()


def edited_text(setup):
    """The module of the tree with another configuration in it, if it is where it was."""
    text = scratch.FILES['gcs/_version.py']
    for k, v in sorted(setup.items()):
        v = v.strip('\'"') if k == 'tag_prefix' else v
        text, n = re.subn(r'(\.%s = )(["\'])[^"\']*\2'.encode() % k.encode(),
                          lambda m: m.group(1) + repr(v).encode(), text)
        if n != 1:
            return None
    return text


def installed_text(run):
    """The module the installer generates in a clean tree (once per process)."""
    cfg = scratch.FILES['setup.cfg'] if run.setup is SHIPPED else setup_cfg(run.setup)
    key = scratch.FILES['versioneer.py'], cfg
    if key not in _installed:
        with scratch.Base() as base:
            root = os.path.join(base, 'proj')
            scratch.project(root, {'setup.cfg': cfg}, skip=('gcs/_version.py',))

            def go():
                with scratch.build_context(root):
                    scratch.versioneer(root).do_setup()
            cwd = os.open('.', os.O_RDONLY)
            m, run.m = run.m, Machine(Git(), World())     # not part of the run
            FakePopen.machine = run.m
            try:
                run.guarded('the installer', go)
            finally:
                run.m = FakePopen.machine = m
                os.fchdir(cwd)
                os.close(cwd)
            with open(os.path.join(root, 'gcs', '_version.py'), 'rb') as f:
                _installed[key] = f.read()
    return _installed[key]


def prepare():
    scratch.prepare()


def execute(plan, keep_log=False):
    r = Run(plan, keep_log)
    v = None
    try:
        with sched.seams(single=True):
            r.run()
    except Violation as e:
        v = dict(kind=e.kind, detail=e.detail, op=e.opno)
    except core.StepBudget as e:
        v = dict(kind='no-progress', detail=str(e), op=r.opno)
    except Hung:
        pass
    if r.m is not None and r.m.hung:
        v = dict(kind='no-progress', detail='waits for git, which waits for someone to read what '
                 'it writes (more than a pipe holds)', op=r.opno)
    r.w.log('end', v and v['kind'])
    out = dict(violation=v, hash=r.w.h.hexdigest(), steps=r.w.steps, faults=r.w.fault_counts,
               probes=r.w.probes, log=r.w.log_tail)
    if r.schedule is not None:
        out['schedule'] = r.schedule
    return out


TIME_UNIT = 'simulated processes started and history operations'
COMPONENTS = dict(
    real='gcs/__init__.py, gcs/_version.py and versioneer.py of the working tree, imported afresh '
         'in a scratch project tree on a real directory',
    stub='git (an in-process model of repositories that computes real object names; commands it '
         'does not know are answered by real git on the same repository), subprocess.Popen, the '
         'setuptools base commands')
ASSUMPTIONS = [
    'git answers as the model does; the model is compared with the installed git by selftest.py',
    'a history has at most 14 commits (9 when it has merges), each later than its parents']
