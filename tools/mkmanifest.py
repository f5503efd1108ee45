"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import runner  # noqa: E402

NOTES = {
    'histories': 'Seeded search over operation histories of the real gcs.storage code with '
                 'faults placed inside the operations, against a reference model; a sample, not a '
                 'proof. Trusts dst/model.py and the simulated backing memory.',
    'conc': 'Seeded search over schedules of real threads, one running at a time, switched at '
            'lines, bytecodes, device accesses and locks, with faults; a sample, not a proof. '
            'Trusts the reference model and atomicity of single bytecodes.',
    'vers': 'Seeded search over repository histories and git failures, running the real version '
            'code over a simulated git; a sample, not a proof. Trusts the git model, which '
            'selftest.py compares with the installed git.',
    'inst': 'Seeded search over crash points, failed and short file operations of the real '
            'build-time code; process death, not power loss; a sample, not a proof.',
    'vast': 'Part of the runs uses arrays with axes up to 2^53 and devices that exist only where '
            'they are touched, against a sparse model.'}
TECH = {
    'histories': 'deterministic simulation: operation histories with device faults, allocation '
                 'failures, interrupts and crashes, against a reference model',
    'conc': 'deterministic simulation: seeded thread schedules with fault injection, replayable '
            'traces',
    'vers': 'deterministic simulation: simulated git and processes with injected failures',
    'inst': 'deterministic simulation: simulated disk and process crashes at every file '
            'operation, then recovery',
    'vast': 'the same over sparse and lazily backed arrays of vast extent'}
NA = 'A pure function of its arguments: no schedule, clock, fault, I/O or history for a simulator ' \
     'to control (%s).'
NOT_APPLICABLE = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))

props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    pid = p['id']
    if pid not in runner.CHECKS:
        continue
    engines = [n for n, _ in runner.CHECKS[pid][0]]
    checks.append(dict(
        property=pid,
        quick_cmd='/opt/venv/bin/python check.py %s quick' % pid,
        thorough_cmd='/opt/venv/bin/python check.py %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='; '.join(TECH[n] for n in engines),
        level='exploration',
        level_note=' '.join(NOTES[n] for n in engines)))
doc = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python -B -c "import dst.runner, dst.conc, dst.vers, dst.inst, dst.vast"',
    checks=checks,
    not_applicable=[dict(property=p['id'], reason=NOT_APPLICABLE[p['id']]) for p in props
                    if p['id'] not in runner.CHECKS],
    notes='No hooks in /repo: the seams are the backing memory the caller supplies, '
          'subprocess.Popen, the functions of os/io/builtins, sys.stdout and line events of the '
          'interpreter. "replay.py FILE" repeats a reported violation exactly.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
