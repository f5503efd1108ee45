"""The clock of the simulated machine: moves when somebody waits, jumps when told to."""
import time

NAMES = 'time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns', 'sleep'


class Clock:
    """Stands for the clock functions of the time module between install() and remove()."""

    def __init__(self, world=None):
        self.passed = 0.0        # since the run started
        self.wall = 1600000000.25
        self.w = world
        self.saved = None

    def advance(self, seconds):
        self.passed += seconds

    def jump(self, seconds):
        """The wall clock is set."""
        self.wall += seconds

    # what the code under test sees
    def time(self):
        return self.wall + self.passed

    def monotonic(self):
        return 5000.5 + self.passed

    perf_counter = monotonic

    def time_ns(self):
        return int(self.time() * 10 ** 9)

    def monotonic_ns(self):
        return int(self.monotonic() * 10 ** 9)

    perf_counter_ns = monotonic_ns

    def sleep(self, seconds):
        if seconds < 0:
            raise ValueError('sleep length must be non-negative')
        self.advance(seconds)

    def install(self):
        self.saved = [(n, getattr(time, n)) for n in NAMES]
        for n in NAMES:
            setattr(time, n, getattr(self, n))

    def remove(self):
        for n, f in self.saved:
            setattr(time, n, f)
