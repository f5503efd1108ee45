#!/opt/venv/bin/python
"""replay.py FILE: run a recorded violation again, exactly."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.replay(sys.argv[1]))
