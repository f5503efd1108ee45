"""Shrinks a failing plan while it keeps failing in the same way."""
import copy
import time


def without_op(plan, i):
    """Drop operation i and everything that uses what it made."""
    ops = plan['ops']
    gone = {ops[i]['out']} if 'out' in ops[i] else set()
    keep = ops[:i]
    for op in ops[i + 1:]:
        if any(op.get(k) in gone for k in ('src', 'dst', 'other', 'of', 'it') if k in op):
            if 'out' in op:
                gone.add(op['out'])
            continue
        keep.append(op)
    new = dict(plan, ops=keep)
    if 'threads' in plan:
        new['threads'] = [[op for op in prog if op.get('src') not in gone
                           and op.get('other') not in gone
                           and op.get('from') not in gone] for prog in plan['threads']]
        if 'warm' in plan:
            new['warm'] = [op for op in plan['warm'] if op.get('src') not in gone]
        new.pop('schedule', None)
        if 'schedule' in plan:
            new['schedule'] = plan['schedule']
    return new


def candidates(plan):
    """Smaller plans, biggest reductions first."""
    if 'generic' in plan:
        yield from generic_candidates(plan)
        return
    ops = plan.get('ops', [])
    n = len(ops)
    for i in range(n - 1, -1, -1):
        yield without_op(plan, i)
    for i in range(n):
        if ops[i].get('faults'):
            new = copy.deepcopy(plan)
            del new['ops'][i]['faults']
            yield new
            if len(ops[i]['faults']) > 1:
                for k in range(len(ops[i]['faults'])):
                    new = copy.deepcopy(plan)
                    del new['ops'][i]['faults'][k]
                    yield new
    warm = plan.get('warm')
    if warm:
        size = len(warm)
        while size:
            for a in range(0, len(warm), size):
                yield dict(plan, warm=warm[:a] + warm[a + size:])
            size //= 2
    threads = plan.get('threads', [])
    for t in range(len(threads)):
        if threads[t]:
            new = copy.deepcopy(plan)
            new['threads'][t] = []
            yield new
        for k in range(len(threads[t])):
            new = copy.deepcopy(plan)
            del new['threads'][t][k]
            yield new
            if threads[t][k].get('faults'):
                new = copy.deepcopy(plan)
                del new['threads'][t][k]['faults']
                yield new
    sch = plan.get('schedule')
    if sch:
        size = len(sch) // 2
        while size:
            for a in range(0, len(sch), size):
                new = dict(plan, schedule=merge(sch[:a] + sch[a + size:]))
                yield new
            size //= 2
        for a in range(len(sch) - 1):
            # one switch less: the next thread's segment waits
            s = [list(x) for x in sch]
            s[a], s[a + 1] = s[a + 1], s[a]
            s = merge(s)
            if len(s) < len(sch):
                yield dict(plan, schedule=s)


def generic_candidates(plan):
    """Plans that declare which of their lists and optional keys may shrink."""
    for path in plan['generic']:
        keys = path.split('.')
        node = plan
        for k in keys[:-1]:
            node = node[k]
        v = node.get(keys[-1])
        if isinstance(v, list):
            for i in range(len(v) - 1, -1, -1):
                new = copy.deepcopy(plan)
                n = new
                for k in keys[:-1]:
                    n = n[k]
                del n[keys[-1]][i]
                yield new
        elif v is not None:
            new = copy.deepcopy(plan)
            n = new
            for k in keys[:-1]:
                n = n[k]
            n[keys[-1]] = None
            yield new


def merge(s):
    out = []
    for t, n in s:
        if out and out[-1][0] == t:
            out[-1][1] += n
        else:
            out.append([t, n])
    return out


def minimise(plan, kind, execute, limit, seconds):
    """-> (plan, its result, candidates tried)"""
    end = time.monotonic() + seconds
    with limit(120):
        best, res = plan, execute(plan)
    if not res['violation'] or res['violation']['kind'] != kind:
        raise RuntimeError('the failure does not repeat')
    tried = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for c in candidates(best):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                with limit(20):
                    r = execute(c)
            except Exception:
                continue
            if r['violation'] and r['violation']['kind'] == kind:
                if 'schedule' in r and 'schedule' in c:
                    c = dict(c, schedule=r['schedule'])
                    if size(c) >= size(best):
                        continue
                best, res = c, r
                progress = True
                break
    return best, res, tried


def size(plan):
    return (len(plan.get('ops', ())) + sum(map(len, plan.get('threads', ())))
            + len(plan.get('warm', ())),
            sum(len(op.get('faults', ())) for op in plan.get('ops', ())),
            sum(len(op.get('faults', ())) for p in plan.get('threads', ()) for op in p),
            len(plan.get('schedule', ())))
