"""Profiles of the histories engine: what each property's workload looks like,
which faults it injects, and where they are placed."""

from . import core, sched
from .core import HarnessError
from .hist import KINDS, Exec, Gen, Violation

READ_MIX = dict(get=3, elements=2, slice=3, wrap=1, copy=2, conv=4, inspect=2, set=2, mk=1, drop=1)

PROFILES = {
    'C01': dict(
        kinds=KINDS, nops=(4, 16), nmk=(1, 2), maxh=5,
        mix=dict(set=12, get=3, elements=1, slice=4, wrap=1, mk=1, drop=1),
        always=('set',), psrc=0.15, punspec=0.1,
        faults=('err', 'err_applied', 'enospc'), faultops=('set', 'get', 'elements', 'slice')),
    'C02': dict(
        kinds=('Buffer', 'Strided', 'DM', 'DM'), nops=(4, 14), nmk=(1, 2), maxh=8,
        mix=dict(slice=12, set=6, wrap=3, get=1, mk=1, drop=1), always=('slice',),
        overreach=True, psrc=0.05, maxdim=(1, 2, 3, 3, 4, 5),
        faults=('dead', 'err'), faultops=('slice',), rates=(0.3, 0.7, 1.0)),
    'C03': dict(
        kinds=KINDS, nops=(5, 14), nmk=(1, 1), maxh=7, palias=0.7,
        mix=dict(copy=4, conv=6, slice=5, set=10, wrap=1, drop=1), always=('set',),
        psrc=0.1, faults=('err',), faultops=('copy', 'conv', 'slice'), pdev=(0.5, 0.8, 1.0)),
    'C04': dict(
        kinds=KINDS, hugeel=(400, 520), nops=(3, 9), nmk=(1, 2), maxh=5, mix=READ_MIX,
        inspect=('equal', 'eq', 'ne', 'repr', 'str', 'equal_list'),
        faults=('err', 'err', 'nomem', 'dead', 'intr@line', 'nomem@line'),
        faultops=('get', 'elements', 'slice', 'copy', 'conv', 'inspect', 'wrap'),
        rates=(0.5, 1.0), pdev=(0.8, 1.0, 1.0), multi=2),
    'C05': dict(
        kinds=KINDS, hugeel=(400, 520), nops=(3, 10), nmk=(1, 2), maxh=6,
        mix=dict(set=12, slice=4, wrap=2, conv=1, copy=1, drop=1), always=('set',),
        psrc=0.15, pelem=0.3,
        faults=('err', 'err_applied', 'enospc', 'nomem', 'dead', 'intr@line', 'nomem@line'),
        faultops=('set',), rates=(0.5, 1.0), pdev=(0.8, 1.0, 1.0)),
    'C06': dict(
        kinds=KINDS, hugeel=(400, 520), nops=(5, 14), nmk=(1, 2), maxh=6, arena=True,
        mix=dict(set=12, slice=4, wrap=2, conv=1, copy=1, crash=3), always=('set', 'crash'),
        psrc=0.1,
        faults=('crash', 'crash_applied', 'crash@line', 'err'),
        faultops=('set', 'set', 'set', 'slice', 'conv', 'copy'), rates=(0.1, 0.3, 0.6),
        pdev=(1.0,)),
    'C09': dict(
        kinds=KINDS, nops=(8, 26), nmk=(1, 2), maxh=5,
        mix=dict(iter=5, next=14, abandon=1, set=5, get=1, slice=2, conv=1, copy=1, wrap=1),
        always=('iter', 'next'), pelem=0.6,
        faults=('err', 'nomem'), faultops=('next',), rates=(0.1, 0.2)),
    'C10': dict(
        kinds=KINDS, nops=(4, 14), nmk=(1, 2), maxh=6,
        mix=dict(conv=14, copy=2, set=4, slice=2, wrap=1, elements=1, inspect=1, drop=2),
        always=('conv',), inspect=('equal', 'eqcanon', 'meta'),
        config=dict(order=True), punspec=0.12,
        faults=('err', 'nomem', 'dead'), faultops=('conv', 'copy'), rates=(0.2, 0.5)),
    'C11': dict(
        kinds=KINDS, nops=(4, 14), nmk=(2, 4), maxh=8, arena=True,
        mix=dict(set=10, get=4, elements=2, slice=6, wrap=2, conv=2, copy=2, inspect=1, drop=1),
        config=dict(confine=True), psrc=0.2, inspect=('equal', 'repr', 'eq'),
        faults=('err', 'err_applied', 'nomem'),
        faultops=('set', 'set', 'slice', 'conv', 'copy', 'elements'), rates=(0.2, 0.5),
        pdev=(1.0,)),
    'C12': dict(
        kinds=KINDS, hugeel=(400, 520), nops=(4, 12), nmk=(1, 2), maxh=6,
        mix=dict(iterseq=6, badindex=4, set=3, get=2, elements=2, slice=4, conv=4, copy=1,
                 inspect=2, wrap=1, drop=1, iter=1, next=2, abandon=0.5),
        config=dict(budgeted=True), maxel=(4, 12, 24, 48, 96),
        faults=('err', 'dead', 'intr@line'),
        faultops=('iterseq', 'set', 'get', 'elements', 'slice', 'conv', 'copy'),
        rates=(0.1, 0.3)),
    'C13': dict(
        kinds=KINDS, nops=(5, 14), nmk=(1, 3), maxh=6,
        mix=dict(inspect=14, set=4, slice=3, conv=3, copy=2, wrap=1, drop=1), always=('inspect',),
        inspect=('equal', 'equal', 'equal', 'eq', 'ne', 'eqcanon', 'repr', 'str', 'meta',
                 'equal_list'), stdout=True,
        faults=('err',), faultops=('inspect',), rates=(0.0, 0.1)),
    'C14': dict(
        kinds=KINDS, nops=(4, 12), nmk=(1, 2), maxh=7, palias=0.5,
        mix=dict(set=12, slice=8, wrap=3, short=3, conv=2, copy=1, drop=1),
        always=('set', 'slice'), psrc=0.8, prows=0.25, overlap=True, pelem=0.1,
        faults=('err', 'nomem', 'dead'), faultops=('set',), rates=(0.2, 0.6), pdev=(0.5, 0.9, 1.0)),
}


def generate(prop, rng):
    """One plan: the operations, then faults placed inside their executions."""
    p = dict(PROFILES[prop])
    g = Gen(rng, p)
    ops = g.run()
    config = dict(p.get('config', {}))
    if rng.random() < 0.35:
        config['box'] = True
    config['lazy'] = rng.choice((0, 0, 0, 2, 5, 1000))
    plan = dict(engine='histories', prop=prop, config=config, ops=ops)
    if p.get('stdout'):
        for op in ops:
            if op['op'] == 'inspect':
                op['stdout'] = rng.choice(('ok', 'ok', 'closed', 'full', 'pipe', 'tty', 'none', 'ascii'))
    kinds = p.get('faults', ())
    rate = rng.choice(p.get('rates', (0.1, 0.3, 0.6)))
    if rng.random() < p.get('pfree', 0.2):
        rate = 0.0
    if kinds and rate:
        place(plan, rng, p, kinds, rate)
    return plan


def place(plan, rng, p, kinds, rate):
    """Fault-free pass to learn how many accesses and lines each operation has,
    then faults at positions chosen inside them."""
    enabled = [k for k in kinds if rng.random() < 0.7] or [rng.choice(kinds)]
    wantlines = any(k.endswith('@line') for k in enabled)
    probe = dict(plan, config=dict(plan['config'], monitor=wantlines))
    ex = Exec(probe)
    judged(ex.run, lambda: 0)    # the real execution reports what is wrong
    faultops = p.get('faultops', ())
    for op, (acc, lines) in zip(plan['ops'], ex.counts):
        if op['op'] not in faultops or rng.random() >= rate:
            continue
        faults = []
        for _ in range(rng.randint(1, p.get('multi', 1))):
            k = rng.choice(enabled)
            if k == 'dead':
                faults.append(dict(at='dead', n=0, kind='err'))
            elif k.endswith('@line'):
                if lines:
                    faults.append(dict(at='line', n=rng.randint(1, lines), kind=k[:-5]))
            elif acc:
                n = rng.choice((rng.randint(1, acc), rng.randint(1, acc), 1, acc))
                faults.append(dict(at='acc', n=n, kind=k))
        if faults:
            op['faults'] = faults
    if any(f['at'] == 'line' for op in plan['ops'] for f in op.get('faults', ())):
        plan['config']['monitor'] = True


def judged(run, opno):
    """Run; turn what the code under test did into a verdict."""
    try:
        with sched.seams(single=True):
            run()
    except Violation as e:
        return dict(kind=e.kind, detail=e.detail, op=e.opno)
    except core.StepBudget as e:
        return dict(kind='no-progress', detail=str(e), op=opno())
    except HarnessError:
        raise
    except Exception as e:
        if not core.from_gcs(e):
            raise
        return dict(kind='unexpected-exception', op=opno(),
                    detail='%s: %s' % (type(e).__name__, str(e)[:300]))
    return None


def execute(plan, keep_log=False):
    ex = Exec(plan, keep_log)
    v = judged(ex.run, lambda: ex.opno)
    ex.w.log('end', v and v['kind'])
    return dict(violation=v, hash=ex.w.h.hexdigest(), steps=ex.w.steps,
                faults=ex.w.fault_counts, probes=ex.w.probes, log=ex.w.log_tail)


TIME_UNIT = 'device accesses and executed lines of the code under test'
COMPONENTS = dict(
    real='gcs.storage and gcs.slice_tools of the working tree, unmodified, through their public '
         'classes and methods',
    stub='the backing memory (SimDevice, in place of the list or buffer a caller hands to '
         'Buffer), the allocator and asynchronous interrupts (raised at line events), stdout')
ASSUMPTIONS = [
    'process death is an exception that no handler of the code under test may survive; only the '
    'device contents and the description of the arrays outlive it',
    'device accesses are per element and atomic',
    'faults that are not device accesses strike between lines of the code under test']
