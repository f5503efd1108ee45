#!/opt/venv/bin/python
"""selftest.py git|determinism|all: the simulator against reality and itself.

git:          the simulated git answers as the installed one, on random histories.
determinism:  same seeds, other worker counts and hash seeds, identical event logs.
"""
import json
import os
import random
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dst import gitsim, runner, scratch, vers  # noqa: E402

COMMANDS = (
    ['rev-parse', '--git-dir'], ['rev-parse', 'HEAD'], ['rev-parse', '--short', 'HEAD'],
    ['rev-parse', '--short=10', 'HEAD'], ['rev-parse', '--verify', 'HEAD'],
    ['rev-parse', '--show-toplevel'], ['rev-parse', '--is-inside-work-tree'],
    ['describe', '--tags', '--dirty', '--always', '--long', '--match', 'v*'],
    ['describe', '--tags', '--dirty', '--always', '--match', 'v*'],
    ['describe', '--tags', '--always', '--long', '--match', 'v*'],
    ['describe', '--dirty', '--always', '--long', '--match', 'v*'],
    ['describe', '--tags', '--dirty', '--long', '--match', 'v*'],
    ['describe', '--tags', '--dirty', '--always', '--long'],
    ['describe', '--tags', '--dirty', '--always', '--long', '--abbrev=12', '--match=v*'],
    ['describe'], ['rev-list', 'HEAD', '--count'], ['rev-list', '--count', 'HEAD'],
    ['show', '-s', '--format=%ci', 'HEAD'], ['show', '-s', '--format=%cI', 'HEAD'],
    ['log', '-1', '--format=%ci'], ['log', '-1', '--format=%H %h %ct', 'HEAD'])


def check_git(n, seed):
    bad = answers = 0
    for i in range(n):
        rng = random.Random('%s:git:%d' % (seed, i))
        plan = vers.generate('C16', rng)
        with scratch.Base() as base:
            repo = gitsim.Repo(plan['config']['abbrev'])
            for op in plan['ops']:
                if op['op'] == 'commit':
                    m = op.get('merge')
                    repo.commit(op['ts'], op['tz'], None if m is None else repo.commits[m])
                elif op['op'] == 'tag' and repo.head is not None:
                    repo.tag(op['name'], op['ann'])
                elif op['op'] == 'edit' and repo.head is not None:
                    repo.dirty = op['how']
                elif op['op'] == 'clean':
                    repo.dirty = None
                elif op['op'] == 'checkout':
                    repo.head = repo.commits[op['which']]
                    repo.dirty = None
            root = os.path.join(base, 'r')
            os.makedirs(os.path.join(root, 'sub'))
            git = gitsim.Git()
            git.roots[root] = repo
            other = os.path.join(base, 'other')
            os.makedirs(other)
            git.roots[other] = gitsim.Repo()
            git.roots[other].commit(1500000000, '+0000')
            git.roots[other].tag('v66.6', rng.random() < 0.5)
            hook = {'GIT_DIR': os.path.join(other, '.git')}
            for args in COMMANDS:
                for cwd, env in ((root, {}), (os.path.join(root, 'sub'), {}), (base, {}),
                                 (root, hook), (other, hook), (base, hook),
                                 (root, {'GIT_DIR': '.git'}),
                                 (os.path.join(root, 'sub'), {'GIT_DIR': '.git'})):
                    real = git.ask_real(args, cwd, env)
                    try:
                        sim = git.simulate(args, cwd, env)
                    except gitsim.Unknown:
                        continue
                    answers += 1
                    if (real[0], real[1]) != (sim[0], sim[1]):
                        near = repo.head and repo.nearest(lambda t: True)
                        if (args[0] == 'describe' and near and len(near[1]) > 1 and real[0] == 0
                                and ambiguous(real[1], sim[1], near[1])):
                            continue
                        bad += 1
                        print('git differs', i, args, os.path.relpath(cwd, root), env, real, sim)
    print('git: %d histories, %d answers compared, %d differ' % (n, answers, bad))
    return bad


def ambiguous(a, b, names):
    """Several lightweight tags on one commit: git may answer with any of them."""
    names = [os.fsencode(n) for n in names]
    return any(a.startswith(n) and b == m + a[len(n):] for n in names for m in names
               if a.startswith(n))


def hashes(prop, seed, runs, workers, hashseed):
    fd, path = tempfile.mkstemp(prefix='dst-hash-')
    os.close(fd)
    env = dict(os.environ, DST_HASHES=path, PYTHONHASHSEED=hashseed)
    code = ('import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r)\n'
            'from dst import runner\nrunner.write_evidence = lambda *a: None\n'
            'sys.exit(runner.check(%r, "quick", %r, %d, %d))' % (HERE, prop, seed, runs, workers))
    p = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True)
    with open(path) as f:
        text = f.read()
    os.unlink(path)
    if p.returncode != 0:
        raise SystemExit('%s exits with %d: %s%s' % (prop, p.returncode, p.stdout, p.stderr))
    return json.loads(text)


def check_determinism(props, seeds, runs):
    bad = 0
    for prop in props:
        for seed in seeds:
            a = hashes(prop, seed, runs, 8, '0')
            b = hashes(prop, seed, runs, 3, '12345')
            d = [i for i in a if a[i] != b.get(i)]
            if len(a) != runs or d:
                bad += 1
                print('%s seed %s: %d of %d runs, logs differ at %s' % (prop, seed, len(b), runs, d[:10]))
        print('determinism: %s: %d seeds x %d runs twice, 8 and 3 workers, other hash seed: %s'
              % (prop, len(seeds), runs, 'DIFFERS' if bad else 'identical'))
    return bad


def check_replay(props, n):
    """A plan that went through a file, with the schedule it took, repeats the run exactly."""
    bad = 0
    for prop in props:
        differ = 0
        for k in range(n):
            plan = runner.make_plan(prop, '5', k)
            e = runner.engine(plan['engine'])
            if hasattr(e, 'prepare'):
                e.prepare()
            r = runner.execute(plan)
            if 'schedule' in r:
                plan = dict(plan, schedule=r['schedule'])
            again = runner.execute(json.loads(json.dumps(plan, sort_keys=True, default=repr)))
            differ += again['hash'] != r['hash']
        print('replay: %s: %d runs, %d differ' % (prop, n, differ))
        bad += differ
    return bad


if __name__ == '__main__':
    what = sys.argv[1] if len(sys.argv) > 1 else 'all'
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 60
    bad = 0
    if what in ('git', 'all'):
        bad += check_git(n, os.environ.get('VERIF_SEED', '1'))
    if what in ('determinism', 'all'):
        props = sys.argv[3].split(',') if len(sys.argv) > 3 else sorted(runner.CHECKS)
        bad += check_determinism(props, ['1', '77', '991'], n * 4)
    if what in ('replay', 'all'):
        props = sys.argv[3].split(',') if len(sys.argv) > 3 else sorted(runner.CHECKS)
        bad += check_replay(props, n // 2)
    sys.exit(1 if bad else 0)
