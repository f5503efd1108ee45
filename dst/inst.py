"""Crash engine: recording the version file (C18), the installer (C19) and
executable builds (C25) over a simulated disk and process."""
import configparser
import contextlib
import gc
import io
import json
import os
import random
import shutil
import subprocess

from . import core, sched, scratch, simfs
from .core import HarnessError, SimCrash, World
from .clock import Clock
from .gitsim import FakePopen, Git, Machine, Repo
from .vers import UNKNOWN, Violation, gen_versions  # noqa: F401

KINDS = ('EIO', 'EACCES', 'ENOSPC', 'EROFS', 'EMFILE', 'ENOMEM', 'EDQUOT', 'full', 'short',
         'partial', 'applied', 'intr', 'crash', 'crash', 'crash', 'crash-after', 'crash-after',
         'torn', 'torn')
SNIPPET = ['from ._version import get_versions', "__version__ = get_versions()['version']",
           'del get_versions']
VFILE = 'gcs/_version.py'


# -- plans ----------------------------------------------------------------------------

BUILDS = ('ok', 'ok', 'ok', 'error', 'exit', 'intr', 'dead', 'nomem', 'away', 'away-error')


def gen_faults(rng, events, enabled):
    """Faults at positions of a run with these events."""
    out = []
    mutating = [k + 1 for k, e in enumerate(events) if e in simfs.MUTATING]
    writes = [k + 1 for k, e in enumerate(events) if e == 'write']
    for _ in range(rng.choice((1, 1, 1, 2))):
        kind = rng.choice(enabled)
        where = writes if kind in ('short', 'torn', 'partial') and writes else (
            mutating if rng.random() < 0.7 and mutating else range(1, len(events) + 1))
        if not where:
            continue
        f = dict(n=rng.choice(list(where)), kind=kind)
        if kind in ('short', 'torn', 'partial'):
            f['part'] = rng.choice((0.0, 0.1, 0.3, 0.5, 0.8, 0.95, 1.0))
        out.append(f)
    return out


def generate(prop, rng):
    plan = dict(engine='inst', prop=prop, nontrivial=True)
    enabled = [k for k in KINDS if rng.random() < 0.6] or ['crash']
    if prop == 'C18':
        plan['config'] = dict(
            how=rng.choice(('direct', 'direct', 'direct', 'build_py', 'sdist')),
            old=rng.choice(('long', 'long', 'recorded', 'short', 'big')),
            linked=rng.random() < 0.6, readonly=rng.random() < 0.2,
            debris=rng.random() < 0.2, git=rng.choice(('none', 'repo')))
        nruns = rng.choice((1, 1, 1, 2, 3))
        plan['ops'] = [dict(op='run', versions=gen_versions(rng) if rng.random() < 0.4 else
                            plain_versions(rng)) for _ in range(nruns + 1)]
        for a, b in zip(plan['ops'], plan['ops'][1:]):
            if rng.random() < 0.3:
                # the same but for one field
                new = plain_versions(rng)
                k = rng.choice(sorted(set(new) & set(a['versions'])))
                b['versions'] = dict(a['versions'], **{k: new[k]})
        if plan['config']['how'] == 'direct' and rng.random() < 0.5:
            # processes that record at the same time, each in its own time
            plan['threads'] = [[dict(versions=plain_versions(rng))]
                               for _ in range(rng.choice((2, 2, 2, 3)))]
            plan['sseed'] = rng.getrandbits(32)
            for t in plan['threads']:
                if rng.random() < 0.25:
                    t[0]['faults'] = [dict(n=rng.randint(1, 14), kind=rng.choice(enabled),
                                           part=rng.choice((0.0, 0.5, 0.95)))]
    elif prop == 'C25':
        plan['config'] = dict(
            how=rng.choice(('cx_Freeze', 'py2exe', 'py2exe-old')),
            old=rng.choice(('long', 'long', 'recorded', 'expanded', 'short', 'big')),
            readonly=rng.random() < 0.2, debris=rng.random() < 0.2,
            git=rng.choice(('none', 'repo', 'repo')))
        nruns = rng.choice((1, 1, 2, 3))
        plan['ops'] = [dict(op='run', build=rng.choice(BUILDS)) for _ in range(nruns)]
        plan['ops'].append(dict(op='run', build='ok'))
        for op in plan['ops'][1:]:
            if rng.random() < 0.3:
                op['edit'] = rng.choice(('restore', 'append', 'append', 'chmod'))
    else:
        plan['config'] = initial_files(rng)
        nruns = rng.choice((0, 1, 1, 1, 2, 2, 3))
        plan['config']['how'] = rng.choice((None, 'script'))
        plan['ops'] = [dict(op='run', how=rng.choice((None, 'script'))) for _ in range(nruns)]
    if nruns:
        probe = Run(dict(plan, ops=[dict(op, faults=[]) for op in plan['ops'][:1]]))
        probe.probing = True
        try:
            probe.run()
        except Violation:
            pass
        events = probe.events or ['write']
        for op in plan['ops'][:nruns]:
            if prop == 'C25' and rng.random() < 0.3:
                continue
            op['faults'] = gen_faults(rng, events, enabled)
            if prop == 'C19' and rng.random() < 0.15:
                op['git'] = rng.choice(('ENOENT', 'exit128', 'EACCES'))
    return plan


def plain_versions(rng):
    return {'version': '%d.%d' % (rng.randrange(20), rng.randrange(20)),
            'full-revisionid': '%040x' % rng.getrandbits(160), 'dirty': rng.random() < 0.5,
            'error': None, 'date': '2020-03-04T05:06:07+0200'}


def user_text(rng, pieces, snippets):
    """What the user may have in a file; None when there is no such file."""
    if rng.random() < 0.15:
        return None
    lines = [rng.choice(pieces) for _ in range(rng.choice((0, 1, 2, 4, 8)))]
    if rng.random() < 0.4:
        for s in rng.sample(snippets, rng.randint(1, len(snippets))):
            k = rng.randint(0, len(lines))
            lines[k:k] = s
    nl = '\r\n' if rng.random() < 0.1 else '\n'
    text = nl.join(lines)
    if lines and rng.random() < 0.7:
        text += nl
    return text


def initial_files(rng):
    init = user_text(rng, ('"""The package."""', 'import os', '', '__all__ = ["a"]', 'x = 1  # y',
                           'from .storage import Buffer', 'def f():', '    return 1',
                           'from ._version import something', *SNIPPET),
                     (SNIPPET,))
    manifest = user_text(rng, ('include README.md', 'recursive-include gcs *.py', '# comment', '',
                               'include LICENSE NEWS', 'global-exclude *.pyc', 'prune build',
                               'include versioneer.pyx', 'exclude versioneer.py~',
                               'recursive-include docs versioneer.py', 'exclude versioneer.py',
                               '# include versioneer.py gcs/_version.py',
                               'global-exclude gcs/_version.py', 'graft gcs/_version.py',
                               'recursive-include gcs gcs/_version.py', 'includeversioneer.py'),
                         (['include versioneer.py'], ['include gcs/_version.py'],
                          ['include setup.cfg versioneer.py']))
    attrs = user_text(rng, ('*.py text', '# comment', '', '*.bin binary', '* text=auto',
                            'gcs/_version.pyi export-ignore', 'gcs/_version.py.in export-subst',
                            'gcs/_version.py text', 'other/_version.py export-subst',
                            'gcs/_version.py -export-subst', 'gcs/_version.py !export-subst',
                            'gcs/_version.py export-subst=no', '#gcs/_version.py export-subst',
                            '# gcs/_version.py export-subst',
                            'docs/gcs/_version.py export-subst',
                            'gcs/_version.py text -export-subst # export-subst-not'),
                      (['gcs/_version.py export-subst'],))
    cfg = 'ok'
    r = rng.random()
    if r < 0.12:
        cfg = 'nosection'
    elif r < 0.16:
        cfg = 'missing'
    return dict(init=init, manifest=manifest, attrs=attrs, cfg=cfg,
                cfgtail=rng.random() < 0.5, version=rng.choice((None, 'long', 'user', 'torn')),
                setup=None if rng.random() < 0.6 else setup_text(rng), committed=rng.random() < 0.5)


SETUP = ['import versioneer', '      version=versioneer.get_version(),',
         '      cmdclass=versioneer.get_cmdclass(),']
SETTERS = ["versioneer.VCS = 'git'", "versioneer.versionfile_source = 'gcs/_version.py'"]


def setup_text(rng):
    """A setup.py that has what is needed, or lacks some of it, or has old settings."""
    items = list(SETUP)
    if rng.random() < 0.5:
        items.remove(rng.choice(items))
    lines = items[:1] + ['from setuptools import setup', ''] + (
        rng.sample(SETTERS, rng.choice((1, 1, 2))) if rng.random() < 0.25 else []) + [
        "setup(name='gcs',"] + items[1:] + ["      packages=['gcs'])", '']
    return '\n'.join(lines)


def setup_is_good(text):
    return all(x.strip(' ,') in text for x in SETUP) and not any(
        x.split(' ')[0] in text for x in SETTERS)


# -- execution ------------------------------------------------------------------------

class Run:
    def __init__(self, plan, keep_log=False):
        self.plan = plan
        self.cfg = plan['config']
        self.w = World()
        self.w.keep_log = keep_log
        self.opno = -1
        self.probing = False
        self.excused = False        # something failed that is not a file operation
        self.events = None
        self.schedule = None

    def fail(self, kind, detail):
        raise Violation(kind, detail.replace(self.base, '<scratch>'), self.opno)

    def run(self):
        self.w.log('config', json.dumps([self.plan['config'], [
            op.get('versions') for op in self.plan['ops']]], sort_keys=True))
        simfs.ignore_unraisable()
        real = subprocess.Popen
        collecting = gc.isenabled()
        gc.disable()
        gc.freeze()          # collections look at what the run makes only
        with scratch.Base() as base:
            self.base = base
            self.root = os.path.join(base, 'proj')
            self.fs = simfs.SimFS(base, self.w)
            self.repo = Repo()
            if self.cfg.get('git') != 'none':
                self.repo.commit(1560000000, '+0200')
                self.repo.tag('v0.5', True)
            self.git = Git()
            self.git.pause = self.fs.paused
            self.git.roots[self.root] = self.repo
            clock = Clock()
            self.m = Machine(self.git, self.w, clock)
            FakePopen.machine = self.m
            subprocess.Popen = FakePopen
            clock.install()
            try:
                if self.plan['prop'] == 'C18':
                    self.recording()
                elif self.plan['prop'] == 'C25':
                    self.building()
                else:
                    self.installing()
            finally:
                clock.remove()
                subprocess.Popen = real
                FakePopen.machine = None
                gc.unfreeze()
                if collecting:
                    gc.enable()

    def process(self, root, f, faults, armed=True):
        """One process that may fail or die -> ('ok', value) | ('failed'|'dead', text)"""
        fs = self.fs
        fs.reset(faults)
        e = None
        with scratch.temporary(self.base), scratch.build_context(root):
            mod = scratch.versioneer(root)
            prepared = f(mod)
            try:
                if armed:
                    fs.__enter__()
                try:
                    out = ('ok', prepared())
                except HarnessError:
                    raise
                except MemoryError as exc:
                    if not isinstance(exc, core.SimNoMem):
                        raise
                    out = ('failed', 'MemoryError')
                except (Exception, SystemExit, SimCrash, core.SimInterrupt) as exc:
                    e = exc
                    dead = isinstance(e, SimCrash)
                    out = ('dead' if dead or fs.dead else 'failed',
                           '%s: %s' % (type(e).__name__, str(e)[:200]))
                    e.__traceback__ = None
                    e.__context__ = e.__cause__ = None
                e = None
                gc.collect()       # what the process left open is flushed, unless it died
            finally:
                if fs.armed:
                    fs.__exit__()
                mod = prepared = None
        if fs.dead:
            out = ('dead', out[1])
        self.events = list(fs.events)
        self.w.log('process', out[0])
        self.w.probe('process-' + out[0])
        if out[0] != 'ok' and not fs.fired and not self.m.fired and not self.excused:
            self.fail('unexpected-exception', 'raised %s though no fault happened' % out[1])
        return out

    # -- C18 -----------------------------------------------------------------------
    def old_file(self, mod_root):
        kind = self.cfg['old']
        text = scratch.FILES[VFILE]
        if kind == 'short':
            text = b'old = 1\n'
        elif kind == 'expanded':
            text = text.replace(b'$Format:%d$', b' (HEAD -> master, tag: v3.1)')
            text = text.replace(b'$Format:%H$', b'c' * 40)
            text = text.replace(b'$Format:%ci$', b'2020-01-02 03:04:05 +0100')
        elif kind == 'big':
            text += b'# padding\n' * 20000
        return text

    def tree(self, root, target):
        """The distribution tree before its version file is recorded."""
        how = self.cfg['how']
        if how == 'direct':
            path = os.path.join(target, VFILE)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if os.path.lexists(path):
                return
            source = os.path.join(root, VFILE)
            if self.cfg['linked']:
                os.link(source, path)
            else:
                with open(source, 'rb') as f:
                    scratch.write(path, f.read())
            if self.cfg['readonly']:
                os.chmod(path, 0o444)
            if self.cfg['debris']:
                self.debris(path)
        else:
            shutil.rmtree(target, ignore_errors=True)
            os.makedirs(target)

    def debris(self, path):
        for name in ('.tmp', '.%d.tmp' % self.fs.proc.pid, '.2000.tmp'):
            scratch.write(path + name, b'left behind')

    def attempt(self, root, target, op, faults):
        how = self.cfg['how']
        path = os.path.join(target, VFILE)
        if how == 'direct':
            return self.process(root, lambda m: lambda: m.write_to_version_file(
                path, op['versions']), faults)
        fs = self.fs
        with scratch.fake_setuptools():
            def prepare(m):
                c = m.get_cmdclass()[how](root, target)
                c.fs = fs
                return c.run
            return self.process(root, prepare, faults, armed=False)

    def recording(self):
        root = self.root
        scratch.project(root, {VFILE: self.old_file(root)})
        source = os.path.join(root, VFILE)
        target = os.path.join(self.base, 'dist')
        path = os.path.join(target, VFILE)
        if self.cfg['old'] == 'recorded':
            # the tree to record in is itself an unpacked distribution
            with scratch.build_context(root):
                scratch.versioneer(root).write_to_version_file(source, plain_old())
        with open(source, 'rb') as f:
            original = f.read()
        ops = self.plan['ops']
        for k, op in enumerate(ops):
            self.opno = k
            want = self.complete(op, k)
            self.tree(root, target)
            before = self.read(path)
            if before is None:
                before = original
            faults = op.get('faults') or []
            out = self.attempt(root, target, op, faults)
            if self.read(source) != original:
                self.fail('source-changed', 'recording changed the source file that shares '
                          'storage with the old version file')
            got = self.read(path)
            if got != want and not (out[0] != 'ok' and got == before):
                self.fail('not-atomic' if out[0] != 'ok' else 'not-recorded',
                          'after %s with faults %r the version file is %s, neither the old nor '
                          'the new one' % (describe(out), self.fs.fired, summary(got)))
            self.w.log('file', 'new' if got == want else 'old')
            self.w.probe('file-new' if got == want else 'file-old')
            if self.probing:
                return
        if self.plan.get('threads'):
            self.opno = len(ops)
            self.race(root, target, path, original)

    def race(self, root, target, path, original):
        """Several processes record their versions at the same time."""
        self.tree(root, target)
        fs = self.fs
        jobs = [prog[0] for prog in self.plan['threads'] if prog]
        wants = [self.complete(job, 'r%d' % k) for k, job in enumerate(jobs)]
        allowed = {self.read(path), *wants}
        fs.reset(())
        procs = [simfs.Proc(job.get('faults') or [], 2000 + k) for k, job in enumerate(jobs)]
        outs = [None] * len(jobs)
        seen = []

        def turn(op):
            with fs.real_open(path, 'rb') as f:
                got = f.read()
            if got not in allowed and op not in seen:
                seen.append(op)
            sim.yield_point(op)

        def body(k):
            def run(task):
                fs.proc = procs[k]
                try:
                    mods[k].write_to_version_file(path, jobs[k]['versions'])
                    outs[k] = ('ok', None)
                except (Exception, SimCrash, core.SimInterrupt) as e:
                    outs[k] = ('dead' if procs[k].dead else 'failed',
                               '%s: %s' % (type(e).__name__, str(e)[:200]))
                    e.__traceback__ = e.__context__ = e.__cause__ = None
                if procs[k].dead:
                    outs[k] = ('dead', outs[k][1])
                self.w.log('process', k, outs[k][0])
            return run
        if 'schedule' in self.plan:
            strategy = sched.Replay(self.plan['schedule'])
        else:
            rng = random.Random(self.plan['sseed'])
            strategy = sched.make_strategy(rng, len(jobs), 14 * len(jobs))[1]
        with scratch.temporary(self.base), scratch.build_context(root):
            mods = [scratch.versioneer(root) for _ in jobs]
            sim = sched.Sched(self.w, [body(k) for k in range(len(jobs))], strategy, 20000)
            fs.turn = turn
            fs.__enter__()
            try:
                sim.run()
                gc.collect()
            finally:
                fs.turn = None
                fs.__exit__()
        self.schedule = sim.trace
        self.w.probe('recorded-at-once')
        self.w.log('schedule', sim.trace)
        if sim.aborting:
            self.fail(*sim.aborting)
        got = self.read(path)
        done = [w for w, o in zip(wants, outs) if o[0] == 'ok']
        tell = ' and '.join(describe(o) for o in outs)
        if seen:
            self.fail('not-atomic', 'while processes record their versions at the same time the '
                      'version file is neither the old nor a new one (before %s)' % seen)
        if got not in allowed or (done and not any(p.fired for p in procs) and got not in done):
            self.fail('not-atomic', 'after %s at the same time the version file is %s, neither '
                      'the old nor a new one' % (tell, summary(got)))
        for o, p in zip(outs, procs):
            if o[0] != 'ok' and not p.fired and fs.full is None:
                self.fail('unexpected-exception', 'recording while another process does raised %s '
                          'though no fault happened in it' % o[1])
        if self.read(os.path.join(root, VFILE)) != original:
            self.fail('source-changed', 'recording changed the source file that shares '
                      'storage with the old version file')

    # -- C25 -----------------------------------------------------------------------
    def building(self):
        root = self.root
        scratch.project(root, {VFILE: self.old_file(root)})
        path = os.path.join(root, VFILE)
        if self.cfg['old'] == 'recorded':
            with scratch.build_context(root):
                scratch.versioneer(root).write_to_version_file(path, plain_old())
        if self.cfg['debris']:
            self.debris(path)
        if self.cfg['readonly']:
            os.chmod(path, 0o444)
        for k, op in enumerate(self.plan['ops']):
            self.opno = k
            self.edit(path, op.get('edit'), k)
            recorded = self.complete(op, k)
            before, files = self.read(path), self.tree_of(root)
            mode = os.stat(path).st_mode
            self.excused = False
            self.built = 0
            self.unrecorded = None
            faults = op.get('faults') or []
            out = self.build(root, path, op, faults, recorded)
            got = self.read(path)
            failed = '%s (%s, faults %r)' % (describe_build(out), op['build'], self.fs.fired)
            if self.unrecorded:
                self.fail('not-recorded', 'while the executable is built the version module is %s'
                          % self.unrecorded)
            if got == before:
                pass
            elif got != recorded and not (self.fs.fired and self.whole(got)):
                self.fail('not-atomic', 'after %s the version module is %s, neither the original '
                          'nor the recorded one' % (failed, summary(got)))
            elif out[0] != 'dead' and not self.fs.fired:
                self.fail('not-restored', 'after %s the version module of the source tree is still '
                          'the recorded one' % failed)
            if out[0] == 'ok':
                if not self.built:
                    self.fail('not-built', 'nothing was built, but no error was reported')
                if op['build'] not in ('ok', 'away'):
                    self.fail('failure-hidden', 'the build failed (%s), but that was not reported'
                              % op['build'])
                if got != before:
                    self.fail('not-restored', 'after a successful build the version module of the '
                              'source tree is still the recorded one')
                if os.stat(path).st_mode != mode and not self.fs.fired:
                    self.fail('not-restored', 'after a successful build the mode of the version '
                              'module is %o, was %o' % (os.stat(path).st_mode, mode))
                more = self.tree_of(root) - files
                if more:
                    self.fail('not-restored', 'the build left %r behind' % sorted(more))
            self.w.log('file', 'original' if got == before else 'recorded')
            self.w.probe('file-original' if got == before else 'file-recorded')
            if self.probing:
                return

    def edit(self, path, how, k):
        """What the user does to the module between builds."""
        mode = os.stat(path).st_mode
        if how == 'restore':
            os.unlink(path)
            scratch.write(path, scratch.FILES[VFILE])
        elif how == 'append':
            text = self.read(path) + b'# edited %d\n' % k
            os.unlink(path)
            scratch.write(path, text)
            os.chmod(path, mode)
        elif how == 'chmod':
            os.chmod(path, mode ^ 0o222)
        if how:
            self.w.probe('edited')

    def whole(self, got):
        """Whether the file is the complete record of some version."""
        path = os.path.join(self.base, 'whole', VFILE)
        try:
            m = scratch.versioneer(self.root)
            scratch.write(path, got)
            with contextlib.redirect_stdout(io.StringIO()):
                m.write_to_version_file(path, m.versions_from_file(path))
            return self.read(path) == got
        except Exception:
            return False

    def tree_of(self, root):
        return {os.path.relpath(os.path.join(d, n), root) for d, _, names in os.walk(root)
                for n in names if '__pycache__' not in d}

    def build(self, root, path, op, faults, recorded):
        fs = self.fs

        def during():
            fs.__exit__()
            try:
                self.built += 1
                got = self.read(path)
                # a fault may leave fewer sources to find the version in
                if got != recorded and not (fs.fired and self.whole(got)):
                    self.unrecorded = summary(got)
            finally:
                fs.__enter__()
            how = op['build']
            self.w.probe('build-' + how)
            self.excused = how not in ('ok', 'away')
            if how.startswith('away'):
                os.chdir(self.base)
            if how.endswith('error'):
                raise RuntimeError('simulated: the build failed')
            if how == 'exit':
                raise SystemExit(1)
            if how == 'intr':
                raise core.SimInterrupt('simulated interrupt')
            if how == 'nomem':
                raise core.SimNoMem('simulated')
            if how == 'dead':
                fs.die()
        with scratch.fake_setuptools(self.cfg['how']):
            def prepare(m):
                c = m.get_cmdclass()[{'cx_Freeze': 'build_exe'}.get(self.cfg['how'], 'py2exe')](
                    root, None)
                c.during = during
                return c.run
            return self.process(root, prepare, faults)

    def complete(self, op, k):
        """The complete new file: what a recording without faults writes."""
        other = os.path.join(self.base, 'ref%s' % k)
        scratch.project(other, {VFILE: self.old_file(other)})
        path = os.path.join(other, VFILE)
        self.m.set_faults(())
        with scratch.build_context(self.root):
            m = scratch.versioneer(self.root)
            v = op['versions'] if self.cfg['how'] == 'direct' else m.get_versions()
            try:
                m.write_to_version_file(path, v)
                back = m.versions_from_file(path)
            except Exception as e:
                back = '%s: %s' % (type(e).__name__, e)
        if back != v:
            self.fail('not-recorded', 'recording %r without any fault gives %r' % (v, back))
        return self.read(path)

    def read(self, path):
        try:
            with open(path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    # -- C19 -----------------------------------------------------------------------
    FILES = ('gcs/__init__.py', 'MANIFEST.in', '.gitattributes', VFILE, 'setup.cfg')

    def start(self, root):
        c = self.cfg
        scratch.project(root, skip=('gcs/_version.py', 'gcs/__init__.py', 'setup.cfg'))
        os.makedirs(os.path.join(root, 'gcs'), exist_ok=True)
        for name, text in (('gcs/__init__.py', c['init']), ('MANIFEST.in', c['manifest']),
                           ('.gitattributes', c['attrs'])):
            if text is not None:
                scratch.write(os.path.join(root, name), text.encode())
        cfg = scratch.FILES['setup.cfg']
        if c['cfg'] == 'nosection':
            cfg = b'[flake8]\nmax-line-length = 99'
        if c['cfg'] != 'missing':
            cfg = cfg.rstrip(b'\n') + (b'\n' if c['cfgtail'] else b'')
            scratch.write(os.path.join(root, 'setup.cfg'), cfg)
        v = {'long': scratch.FILES[VFILE], 'user': b'version = "mine"\n',
             'torn': scratch.FILES[VFILE][:700]}.get(c['version'])
        if v is not None:
            scratch.write(os.path.join(root, VFILE), v)
        if c.get('setup') is not None:
            scratch.write(os.path.join(root, 'setup.py'), c['setup'].encode())
        # a clean checkout, except that versioneer.py may be there for the first time
        self.git.index = {os.path.realpath(os.path.join(root, n)): x
                          for n, x in self.state(root).items() if x is not None}
        if c.get('committed'):
            path = os.path.join(root, 'versioneer.py')
            self.git.index[os.path.realpath(path)] = self.read(path)

    def staged(self, root, what):
        """A commit now records all that the installer did."""
        index = self.git.index
        if index is None:
            self.w.probe('index-unknown')
            return
        for n in self.FILES + ('versioneer.py',):
            path = os.path.join(root, n)
            now, there = self.read(path), index.get(os.path.realpath(path))
            if now != there:
                self.fail('not-staged', 'after %s git would commit %s as %s, but it is %s'
                          % (what, n, summary(there), summary(now)))

    def install(self, root, faults, gitfault=None, how=None):
        self.git.roots[root] = self.repo
        self.m.set_faults([dict(kind=gitfault, cmd='*')] if gitfault else ())
        if how == 'script':
            return self.process(root, lambda m: scratch.script(root, ['setup']), faults)
        return self.process(root, lambda m: m.do_setup, faults)

    def verdict(self, configured, how):
        """What a complete run reports."""
        if how == 'script' and not setup_is_good(scratch.FILES['setup.py'].decode(
                ) if self.cfg.get('setup') is None else self.cfg['setup']):
            return 'ok', True
        return 'ok', not configured

    def state(self, root):
        return {n: self.read(os.path.join(root, n)) for n in self.FILES}

    def installing(self):
        ref = os.path.join(self.base, 'ref')
        self.start(ref)
        first = self.state(ref)
        configured = self.cfg['cfg'] == 'ok'
        self.opno = -1
        how = self.cfg.get('how')
        out = self.install(ref, (), None, how)
        if (out[0], bool(out[1])) != self.verdict(configured, how):
            self.fail('install-failed', 'a run without faults ends with %r' % (out,))
        want = self.state(ref)
        self.check_state(first, want, configured)
        if configured:
            self.staged(ref, 'a run')
        self.install(ref, ())
        self.same('a second run', want, self.state(ref), True)
        if self.probing:
            return
        root = self.root
        self.start(root)
        for k, op in enumerate(self.plan['ops']):
            self.opno = k
            faults = op.get('faults') or []
            self.git.added = []
            out = self.install(root, faults, op.get('git'), op.get('how'))
            self.w.log('run', k, out[0])
            if out == ('ok', 0) and self.fs.fired:
                self.check_state(first, self.state(root), configured)
                if configured and self.git.added:
                    self.staged(root, 'a run that reported success')
                self.w.probe('succeeded-despite-faults')
        self.opno = len(self.plan['ops'])
        out = self.install(root, (), None, how)
        if (out[0], bool(out[1])) != self.verdict(configured, how):
            self.fail('does-not-converge', 'after interrupted runs a complete run ends with %r'
                      % (out,))
        got = self.state(root)
        self.same('after interrupted runs a complete run', want, got, False)
        self.check_state(first, got, configured)
        if configured:
            self.staged(root, 'interrupted runs and a complete one')
        self.install(root, ())
        self.same('one more run', got, self.state(root), True)

    def same(self, what, a, b, exact):
        for n in self.FILES:
            x, y = a[n], b[n]
            if x != y and (exact or x is None or y is None or nonblank(x) != nonblank(y)):
                self.fail('does-not-converge', '%s leaves %s as %s instead of %s'
                          % (what, n, summary(y), summary(x)))

    def check_state(self, first, now, configured):
        for n in ('gcs/__init__.py', 'MANIFEST.in', '.gitattributes', 'setup.cfg'):
            if first[n] is not None:
                if now[n] is None:
                    self.fail('content-lost', '%s is gone' % n)
                was = first[n].splitlines()
                if [x.rstrip() for x in now[n].splitlines()[:len(was)]] != [
                        x.rstrip() for x in was]:
                    self.fail('content-lost', '%s was %s and is %s'
                              % (n, summary(first[n]), summary(now[n])))
        if not configured:
            p = configparser.ConfigParser()
            try:
                p.read_string((now['setup.cfg'] or b'').decode())
            except configparser.Error as e:
                self.fail('damaged', 'setup.cfg cannot be parsed: %s' % str(e)[:200])
            if not p.has_section('versioneer'):
                self.fail('entry-missing', 'setup.cfg has no [versioneer] section')
            return
        if now['setup.cfg'] != first['setup.cfg']:
            self.fail('content-lost', 'setup.cfg was changed')
        init = now['gcs/__init__.py']
        if first['gcs/__init__.py'] is not None:
            n = count_snippets(init)
            if n != max(1, count_snippets(first['gcs/__init__.py'])):
                self.fail('entry-missing' if n < 1 else 'entry-repeated',
                          '__init__.py has the version lines %d times: %s' % (n, summary(init)))
        lines = (now['MANIFEST.in'] or b'').decode().splitlines()
        user = [] if first['MANIFEST.in'] is None else first['MANIFEST.in'].decode().splitlines()
        for entry in ('versioneer.py', VFILE):
            n = count_includes(lines, entry)
            if n < 1 or n > max(1, count_includes(user, entry)):
                self.fail('entry-missing' if n < 1 else 'entry-repeated',
                          'MANIFEST.in includes %s %d times: %s'
                          % (entry, n, summary(now['MANIFEST.in'])))
        lines = (now['.gitattributes'] or b'').decode().splitlines()
        user = ([] if first['.gitattributes'] is None
                else first['.gitattributes'].decode().splitlines())
        n = count_attrs(lines)
        if n < 1 or n > max(1, count_attrs(user)):
            self.fail('entry-missing' if n < 1 else 'entry-repeated',
                      '.gitattributes marks the version module %d times: %s'
                      % (n, summary(now['.gitattributes'])))
        try:
            if now[VFILE] not in _works:
                d = {'__name__': 'gcs._version', '__file__': os.path.join(self.root, VFILE)}
                exec(compile(now[VFILE], '_version.py', 'exec', dont_inherit=True), d)
                d['get_versions']
                _works.add(now[VFILE])
        except Exception as e:
            self.fail('damaged', 'the version module is broken: %s' % str(e)[:200])


_works = set()


def count_snippets(text):
    lines = [x.strip() for x in text.decode().splitlines()]
    return sum(lines[k:k + 3] == SNIPPET for k in range(len(lines)))


def count_includes(lines, entry):
    return sum(line.split()[1:].count(entry) for line in lines if line.split()[:1] == ['include'])


def count_attrs(lines):
    return sum(1 for line in lines if line.split()[:1] == [VFILE]
               and 'export-subst' in line.split()[1:])


def nonblank(text):
    return [x for x in text.splitlines() if x.strip()]


def plain_old():
    return {'version': '0.1', 'full-revisionid': 'b' * 40, 'dirty': False, 'error': None,
            'date': None}


def describe_build(out):
    return {'ok': 'a successful build', 'failed': 'a failed build (%s)' % (out[1],),
            'dead': 'the process died'}[out[0]]


def describe(out):
    return {'ok': 'a successful recording', 'failed': 'a failed recording (%s)' % (out[1],),
            'dead': 'the process died'}[out[0]]


def summary(data):
    if data is None:
        return 'missing'
    if len(data) > 160:
        return '%d bytes %r...' % (len(data), data[:140])
    return repr(data)


def prepare():
    scratch.prepare()


def execute(plan, keep_log=False):
    r = Run(plan, keep_log)
    v = None
    try:
        with sched.seams(single=True):
            r.run()
    except Violation as e:
        v = dict(kind=e.kind, detail=e.detail, op=e.opno)
    except core.StepBudget as e:
        v = dict(kind='no-progress', detail=str(e), op=r.opno)
    r.w.log('end', v and v['kind'])
    out = dict(violation=v, hash=r.w.h.hexdigest(), steps=r.w.steps, faults=r.w.fault_counts,
               probes=r.w.probes, log=r.w.log_tail)
    if r.schedule is not None:
        out['schedule'] = r.schedule
    return out


TIME_UNIT = 'file operations of the code under test'
COMPONENTS = dict(
    real='versioneer.py of the working tree (write_to_version_file, the build_py and sdist '
         'commands, do_setup, do_vcs_install) on a real scratch directory',
    stub='every file operation passes a seam that injects faults (open, read, write, close, '
         'fsync, stat, unlink, rename, replace, link, chmod, ...), git, the setuptools base '
         'commands, stdout')
ASSUMPTIONS = [
    'a crash is the death of the process: data in its buffers is lost, completed system calls '
    'last (no power loss)',
    'files change only through the Python functions of the os, io and builtins modules']
