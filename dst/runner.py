"""Runs many seeds of one property in parallel, reports, minimises, replays."""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

from . import core, minimise

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST, CONC, VERS, INST, VAST = 'histories', 'conc', 'vers', 'inst', 'vast'

# property -> engines with their share of the runs, runs per tier
CHECKS = {
    'C01': ([(HIST, 9), (VAST, 1)], 40000, 240000),
    'C02': ([(HIST, 11), (VAST, 1)], 36000, 240000),
    'C03': ([(HIST, 11), (VAST, 1)], 40000, 240000),
    'C04': ([(HIST, 14), (VAST, 1)], 12000, 100000),
    'C05': ([(HIST, 14), (VAST, 1)], 12000, 100000),
    'C06': ([(HIST, 1)], 12000, 100000),
    'C07': ([(CONC, 1)], 14000, 60000),
    'C08': ([(CONC, 1)], 12000, 60000),
    'C09': ([(HIST, 24), (VAST, 1)], 30000, 200000),
    'C10': ([(HIST, 24), (VAST, 1)], 30000, 200000),
    'C11': ([(HIST, 19), (VAST, 1)], 18000, 200000),
    'C12': ([(HIST, 7), (CONC, 3)], 8000, 60000),
    'C13': ([(HIST, 24), (VAST, 1)], 30000, 200000),
    'C14': ([(HIST, 24), (VAST, 1)], 30000, 200000),
    'C15': ([(VERS, 1)], 8000, 80000),
    'C16': ([(VERS, 1)], 8000, 80000),
    'C17': ([(VERS, 1)], 6000, 60000),
    'C18': ([(INST, 1)], 12000, 100000),
    'C19': ([(INST, 1)], 10000, 60000),
    'C26': ([(VERS, 1)], 5000, 60000),
    'C27': ([(VERS, 1)], 8000, 60000),
    'C25': ([(INST, 1)], 10000, 80000),
}
WALL = {'quick': 420, 'thorough': 3600 * 2}     # a cap for slow machines only
RUN_SECONDS = 60


def engine(name):
    return importlib.import_module('dst.' + name)


def pick_engine(prop, index):
    mix = CHECKS[prop][0]
    k = index % sum(n for _, n in mix)
    for name, n in mix:
        if k < n:
            return name
        k -= n


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class limit:
    """At most so many real seconds; a run normally takes milliseconds."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def make_plan(prop, seed, index):
    name = pick_engine(prop, index)
    rng = random.Random('%s:%s:%d' % (seed, prop, index))
    plan = json.loads(json.dumps(engine(name).generate(prop, rng)))
    if name in (HIST, CONC, VAST) and rng.random() < 0.5:
        plan['device_error'] = rng.choice(core.DEVICE_ERRORS)
    plan['seed'] = '%s:%s:%d' % (seed, prop, index)
    return plan


def execute(plan, keep_log=False):
    return engine(plan['engine']).execute(plan, keep_log)


def digest(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()


def nontrivial(plan, r):
    """A run counts when something of the simulator happened in it: a fault
    fired, threads were interleaved, or state was built by several operations."""
    if r['faults'] or r['probes'].get('switches'):
        return True
    return len(plan.get('ops', ())) >= 3 or plan.get('nontrivial', False)


def limit_memory():
    """A runaway run dies here and not at the sandbox's limit."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    want = 6 << 30
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_AS, (want, hard))


def worker(prop, seed, wid, nworkers, count, deadline, bad, conn):
    limit_memory()
    warnings.simplefilter('ignore')
    out = dict(runs=0, steps=0, faults={}, probes={}, engines={}, seen=set(), inter=set(),
               error=None, bad=None, hang=None, samples=[], stopped=False, hashes={})
    keep = os.environ.get('DST_HASHES')
    try:
        for i in range(wid, count, nworkers):
            if i > bad.value:
                break
            if time.monotonic() > deadline:
                out['stopped'] = True
                break
            with limit(RUN_SECONDS):
                plan = make_plan(prop, seed, i)
                r = execute(plan)
            out['runs'] += 1
            out['steps'] += r['steps']
            out['engines'][plan['engine']] = out['engines'].get(plan['engine'], 0) + 1
            for k in ('faults', 'probes'):
                d = out[k]
                for name, n in r[k].items():
                    d[name] = d.get(name, 0) + n
            if keep:
                out['hashes'][i] = r['hash']
            if nontrivial(plan, r):
                out['seen'].add(digest(r['hash']))
                if len(out['samples']) < 2 and r['faults']:
                    out['samples'].append(sample(plan, r))
            if 'interleaving' in r:
                out['inter'].add(r['interleaving'])
            if r['violation']:
                out['bad'] = (i, plan, r)
                with bad.get_lock():
                    bad.value = min(bad.value, i)
                break
    except Hang:
        out['hang'] = i
        with bad.get_lock():
            bad.value = min(bad.value, i)
    except BaseException:
        out['error'] = 'run %d\n%s' % (i, traceback.format_exc())
        with bad.get_lock():
            bad.value = min(bad.value, i)
    conn.send(out)
    conn.close()
    os._exit(0)


def sample(plan, r):
    return dict(seed=plan['seed'], engine=plan['engine'], steps=r['steps'], faults=r['faults'],
                plan=cut(plan))


def cut(x, n=1600):
    s = json.dumps(x, default=repr, sort_keys=True)
    return json.loads(s) if len(s) <= n else s[:n] + '...'


def in_child(f, seconds):
    """Result of f() in a forked process, or None when it takes too long."""
    a, b = multiprocessing.Pipe(False)

    def main():
        a.close()
        limit_memory()
        try:
            b.send(('ok', f()))
        except BaseException:
            b.send(('error', traceback.format_exc()))
        b.close()
        os._exit(0)
    p = multiprocessing.get_context('fork').Process(target=main)
    p.start()
    b.close()
    r = None
    try:
        if a.poll(seconds):
            r = a.recv()
    except EOFError:
        r = ('error', 'the child process died')
    if p.is_alive():
        p.kill()
    p.join()
    return r


def forced(prop, seed, index):
    """Re-run with a step budget: turns a hang into an exact violation."""
    core.FORCE_BUDGET = True
    plan = None
    marks = []

    def alarm(signum, frame):
        w = core.World.last
        marks.append(w and (w.cost, w.steps))
        if len(marks) == 2:
            raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 150, 50)
    try:
        plan = make_plan(prop, seed, index)
        plan.setdefault('config', {}).update(budgeted=True, uncut=True)
        return plan, execute(plan)
    except Hang:
        if plan is None or marks[0] != marks[1]:
            return plan, slow()
        # stuck where no step is ever taken
        return plan, stuck(200)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def slow():
    return dict(violation=None, hash='', steps=0, faults={}, probes={}, log=[])


def stuck(seconds):
    return dict(violation=dict(kind='stuck', op=-1, detail='did not end within %d s of real time, '
                               'a run takes milliseconds' % seconds),
                hash='', steps=0, faults={}, probes={}, log=[])


def check(prop, tier, seed, count=None, nworkers=None):
    t0 = time.monotonic()
    mix, quick, thorough = CHECKS[prop]
    count = count or (quick if tier == 'quick' else thorough)
    nworkers = nworkers or max(1, os.cpu_count() or 1)
    for name, _ in mix:
        e = engine(name)
        if hasattr(e, 'prepare'):
            e.prepare()
    mp = multiprocessing.get_context('fork')
    bad = mp.Value('l', 1 << 60)
    deadline = t0 + WALL[tier]
    procs = []
    for w in range(nworkers):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(prop, seed, w, nworkers, count, deadline, bad, b))
        p.start()
        b.close()
        procs.append((p, a))
    results = []
    errors = []
    for w, (p, a) in enumerate(procs):
        try:
            results.append(a.recv())
        except EOFError:
            errors.append('worker %d died' % w)
        p.join()
    tot = merge(results)
    for r in results:
        if r['error']:
            errors.append(r['error'])
    found = sorted((r['bad'] for r in results if r['bad']), key=lambda b: b[0])
    for r in results:
        if r['hang'] is not None and not (found and found[0][0] < r['hang']):
            f = in_child(lambda i=r['hang']: forced(prop, seed, i), 260)
            if f and f[0] == 'ok' and f[1][1]['violation']:
                found.append((r['hang'],) + tuple(f[1]))
                tot['runs'] += 1
            elif f and f[0] == 'ok':
                tot['runs'] += 1        # slow, not stuck
                tot['slow'] = tot.get('slow', 0) + 1
            else:
                errors.append('run %d did not end within %d s%s' % (
                    r['hang'], RUN_SECONDS, ': ' + f[1] if f and f[0] == 'error' else ''))
    for name, doc in findings(prop):
        f = in_child(lambda: execute(doc['plan']), 120)
        if not f or f[0] != 'ok':
            errors.append('known finding %s: %s' % (name, f and f[1]))
        elif not f[1]['violation']:
            print('  %s no longer occurs' % name)
        elif f[1]['violation']['kind'] == doc['kind']:
            print('KNOWN-FINDING: property=%s %s' % (prop, doc['what']))
        else:
            found.append((-1, doc['plan'], f[1]))
    found.sort(key=lambda b: b[0])
    wall = time.monotonic() - t0
    write_evidence(prop, tier, seed, tot, wall, found)
    report = '%s %s seed=%s: %d runs, %d distinct non-trivial, %d simulated steps, %.1f s, faults %s' % (
        prop, tier, seed, tot['runs'], len(tot['seen']), tot['steps'], wall, tot['faults'])
    print(report)
    if os.environ.get('DST_HASHES'):
        with open(os.environ['DST_HASHES'], 'w') as f:
            json.dump({str(k): v for k, v in sorted(tot['hashes'].items())}, f)
    if found:
        index, plan, r = found[0]
        path = save_replay(prop, tier, seed, index, plan, r)
        print('  %s' % json.dumps(r['violation'], default=repr)[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR: ' + e, file=sys.stderr)
        return 2
    if tot['stopped'] and not tot['runs']:
        print('ERROR: no run finished', file=sys.stderr)
        return 2
    return 0


def findings(prop):
    """Genuine defects that are recorded, not repaired."""
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            w = line.split()
            if w[:2] == ['finding:', 'property=' + prop]:
                with open(os.path.join(HERE, w[2].split('=', 1)[1])) as g:
                    out.append((w[2], json.load(g)))
    return out


def merge(results):
    tot = dict(runs=0, steps=0, faults={}, probes={}, engines={}, seen=set(), inter=set(),
               samples=[], stopped=False, hashes={})
    for r in results:
        tot['runs'] += r['runs']
        tot['steps'] += r['steps']
        tot['seen'] |= r['seen']
        tot['inter'] |= r['inter']
        tot['stopped'] |= r['stopped']
        tot['samples'] += r['samples'][:1]
        tot['hashes'].update(r['hashes'])
        for k in ('faults', 'probes', 'engines'):
            for name, n in r[k].items():
                tot[k][name] = tot[k].get(name, 0) + n
    return tot


def save_replay(prop, tier, seed, index, plan, r):
    if 'schedule' in r:
        plan = dict(plan, schedule=r['schedule'])
    kind = r['violation']['kind']
    m = None
    if kind != 'stuck':
        m = in_child(lambda: minimise.minimise(plan, kind, execute, limit, 60), 150)
    note = 'minimised'
    if m and m[0] == 'ok':
        small, res, tried = m[1]
    else:
        small, res, tried = plan, r, 0
        note = 'not minimised'
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (prop, seed, index))
    doc = dict(property=prop, seed=plan.get('seed'), tier=tier, note=note, candidates_tried=tried,
               violation=res['violation'], hash=res['hash'], plan=small, original=plan)
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=repr, sort_keys=True)
        f.write('\n')
    return path


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    e = engine(doc['plan']['engine'])
    if hasattr(e, 'prepare'):
        e.prepare()
    if doc['plan'].get('config', {}).get('budgeted'):
        core.FORCE_BUDGET = True
    try:
        with limit(300):
            r = execute(doc['plan'], keep_log=True)
    except Hang:
        r = stuck(300)
    for line in r['log'][-60:]:
        print('  ' + line[:300])
    v = r['violation']
    if not v:
        print('the recorded violation does not occur on this tree')
        return 0
    print('  %s' % json.dumps(v, default=repr)[:1000])
    print('trace %s the recorded one' % ('is identical to' if r['hash'] == doc['hash'] else 'DIFFERS from'))
    print('VIOLATION property=%s replay=%s' % (doc['property'], path))
    return 1


def write_evidence(prop, tier, seed, tot, wall, found):
    stub = {}
    for name in tot['engines']:
        stub[name] = engine(name).COMPONENTS
    cov = dict(
        evaluations=tot['runs'],
        distinct_nontrivial=len(tot['seen']),
        rule='one run = one plan (operations, faults, schedule) drawn from its seed and executed '
             'on the real code; non-trivial = a fault fired, threads were interleaved, or at '
             'least three operations built up state; distinct = different event-log hash',
        samples=tot['samples'][:4],
        simulated_runs=tot['runs'],
        seeds_per_hour=int(tot['runs'] / max(wall, 1e-9) * 3600),
        simulated_steps=tot['steps'],
        simulated_time_unit=' / '.join(sorted({engine(n).TIME_UNIT for n in tot['engines']})),
        faults_injected=dict(sorted(tot['faults'].items())),
        probes=dict(sorted(tot['probes'].items())),
        runs_per_engine=tot['engines'],
        components=stub,
        stopped_by_wall_cap=tot['stopped'],
        slow_runs=tot.get('slow', 0),
    )
    if tot['inter']:
        cov['distinct_interleavings'] = len(tot['inter'])
    doc = dict(property=prop, tier=tier, seed=int(seed) if str(seed).lstrip('-').isdigit() else 0,
               level='exploration', coverage=cov, wall_s=round(wall, 3), violations=len(found),
               assumptions=sum((engine(n).ASSUMPTIONS for n in sorted(tot['engines'])), []))
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, default=repr)
        f.write('\n')
    os.replace(tmp, os.path.join(d, '%s.json' % prop))
