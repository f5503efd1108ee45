#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough] [--runs N] [--workers N]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import runner  # noqa: E402

if __name__ == '__main__':
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--runs', type=int)
    p.add_argument('--workers', type=int)
    p.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    a = p.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(runner.check(a.property, a.tier, a.seed, a.runs, a.workers))
