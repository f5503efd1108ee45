"""Scratch project trees on a memory disk, and loading code from them."""
import importlib
import importlib.util
import io
import itertools
import os
import shutil
import sys
import tempfile
import types

from . import core

FILES = {}          # relative path -> bytes, read once from the working tree
_codes = {}


def prepare():
    """Read what the project tree consists of."""
    FILES.clear()
    for name in ('setup.cfg', 'setup.py', 'versioneer.py'):
        with open(os.path.join(core.REPO, name), 'rb') as f:
            FILES[name] = f.read()
    d = os.path.join(core.REPO, 'gcs')
    for name in sorted(os.listdir(d)):
        if name.endswith('.py'):
            with open(os.path.join(d, name), 'rb') as f:
                FILES['gcs/' + name] = f.read()


def make_base():
    shm = '/dev/shm'
    where = shm if os.path.isdir(shm) and os.access(shm, os.W_OK) else None
    return os.path.realpath(tempfile.mkdtemp(prefix='dst-', dir=where))


class Base:
    """A scratch directory that goes away with the run."""

    def __enter__(self):
        if not FILES:
            prepare()
        self.cwd = os.getcwd()
        self.path = make_base()
        return self.path

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        shutil.rmtree(self.path, ignore_errors=True)
        return False


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def project(root, replace=(), skip=()):
    replace = dict(replace)
    for name, data in FILES.items():
        if name not in skip:
            write(os.path.join(root, name), replace.pop(name, data))
    for name, data in replace.items():
        write(os.path.join(root, name), data)


def _names():
    return [k for k in sys.modules if k == 'gcs' or k.startswith('gcs.')]


class imported:
    """Import gcs afresh from a tree: with imported(dir) as gcs."""

    def __init__(self, root):
        self.root = root

    def __enter__(self):
        self.saved = {k: sys.modules.pop(k) for k in _names()}
        self.path = list(sys.path)
        importlib.invalidate_caches()
        pkg = os.path.join(self.root, 'gcs')
        try:
            spec = importlib.util.spec_from_file_location(
                'gcs', os.path.join(pkg, '__init__.py'), submodule_search_locations=[pkg])
            m = importlib.util.module_from_spec(spec)
            sys.modules['gcs'] = m
            spec.loader.exec_module(m)
            return m
        except BaseException:
            self.__exit__()
            raise

    def __exit__(self, *exc):
        for k in _names():
            del sys.modules[k]
        sys.modules.update(self.saved)
        sys.path[:] = self.path
        return False


def versioneer(root):
    """The build-time module as setup.py in root would import it."""
    path = os.path.join(root, 'versioneer.py')
    with open(path, 'rb') as f:
        src = f.read()
    code = _codes.get(src)
    if code is None:
        code = _codes[src] = compile(src, '<scratch>/versioneer.py', 'exec', dont_inherit=True)
    m = types.ModuleType('versioneer')
    m.__file__ = path
    sys.modules.pop('versioneer', None)
    exec(code, m.__dict__)
    return m


def script(root, args):
    """`python versioneer.py args` in root -> its exit status"""
    versioneer(root)
    with open(os.path.join(root, 'versioneer.py'), 'rb') as f:
        code = _codes[f.read()]
    m = types.ModuleType('__main__')
    m.__file__ = 'versioneer.py'

    def run():
        sys.argv = ['versioneer.py'] + args
        try:
            exec(code, m.__dict__)
        except SystemExit as e:
            return e.code if isinstance(e.code, int) else int(e.code is not None)
        return 0
    return run


class temporary:
    """Temporary files of the code under test: on another file system (see simfs),
    with names that repeat from run to run."""

    def __init__(self, base):
        self.dir = os.path.join(base, 'tmp')

    def __enter__(self):
        os.makedirs(self.dir, exist_ok=True)
        self.saved = tempfile.tempdir, tempfile._name_sequence
        tempfile.tempdir = self.dir
        tempfile._name_sequence = ('t%d' % i for i in itertools.count())

    def __exit__(self, *exc):
        tempfile.tempdir, tempfile._name_sequence = self.saved
        return False


class quiet:
    """stdout and stderr of the code under test, collected."""

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *exc):
        sys.stdout, sys.stderr = self.saved
        return False


class build_context:
    """cwd, argv and modules of a `python setup.py ...` in root, or of a
    `python root/setup.py ...` elsewhere."""

    def __init__(self, root, elsewhere=None):
        self.root = root
        self.elsewhere = elsewhere

    def __enter__(self):
        self.cwd = os.open('.', os.O_RDONLY)     # it may be gone
        self.argv = sys.argv
        self.had = sys.modules.get('versioneer')
        self.path = list(sys.path)
        os.chdir(self.elsewhere or self.root)
        sys.argv = [os.path.join(self.root, 'setup.py') if self.elsewhere else 'setup.py']
        sys.path.insert(0, self.root)
        self.q = quiet()
        self.q.__enter__()
        return self

    def __exit__(self, *exc):
        self.q.__exit__()
        os.fchdir(self.cwd)
        os.close(self.cwd)
        sys.argv = self.argv
        sys.path[:] = self.path
        sys.modules.pop('versioneer', None)
        if self.had is not None:
            sys.modules['versioneer'] = self.had
        return False


# -- a stand-in for setuptools: the commands versioneer's commands derive from ---------

class Distribution:
    def __init__(self):
        self.metadata = types.SimpleNamespace(version=None)


class BaseCommand:
    fs = None

    def __init__(self, root, target):
        self.root = root
        self.distribution = Distribution()
        self.build_lib = target
        self.base_dir = target


class BuildPy(BaseCommand):
    def run(self):
        self.copy()
        if self.fs is not None:
            self.fs.__enter__()      # what follows is versioneer's own work

    def copy(self):
        d = os.path.join(self.root, 'gcs')
        for name in sorted(os.listdir(d)):
            if name.endswith('.py'):
                with open(os.path.join(d, name), 'rb') as f:
                    write(os.path.join(self.build_lib, 'gcs', name), f.read())


class Sdist(BaseCommand):
    def run(self):
        self.make_release_tree(self.base_dir, [])

    def make_release_tree(self, base_dir, files):
        self.link(base_dir)
        if self.fs is not None:
            self.fs.__enter__()

    def link(self, base_dir):
        for name in ['setup.cfg', 'setup.py', 'versioneer.py'] + [
                'gcs/' + n for n in sorted(os.listdir(os.path.join(self.root, 'gcs')))
                if n.endswith('.py')]:
            target = os.path.join(base_dir, name)
            os.makedirs(os.path.dirname(target), exist_ok=True)
            os.link(os.path.join(self.root, name), target)


class BuildExe(BaseCommand):
    def run(self):
        self.during()


class fake_setuptools:
    def __init__(self, builder=None):
        self.builder = builder      # the executable builder that is installed

    def __enter__(self):
        mods = {}
        if self.builder:
            pkg, name, cls = {'cx_Freeze': ('cx_Freeze', 'dist', 'build_exe'),
                              'py2exe': ('py2exe', 'distutils_buildexe', 'py2exe'),
                              'py2exe-old': ('py2exe', 'build_exe', 'py2exe')}[self.builder]
            mods[pkg] = types.ModuleType(pkg)
            mods[pkg].__path__ = []
            m = mods[pkg + '.' + name] = types.ModuleType(pkg + '.' + name)
            setattr(m, cls, BuildExe)
            setattr(mods[pkg], name, m)
        for name in ('setuptools', 'setuptools.command', 'setuptools.command.build_py',
                     'setuptools.command.sdist', 'distutils', 'distutils.core',
                     'distutils.command', 'distutils.command.build_py',
                     'distutils.command.sdist'):
            m = types.ModuleType(name)
            m.__path__ = []
            if name.endswith('build_py'):
                m.build_py = BuildPy
            elif name.endswith('sdist'):
                m.sdist = Sdist
            m.Command = BaseCommand
            mods[name] = m
            if '.' in name:
                up, _, last = name.rpartition('.')
                setattr(mods[up], last, m)
        self.saved = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)

    def __exit__(self, *exc):
        for k, v in self.saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        return False
