"""In-memory schedulers whose progress is controlled by gates, and helpers on threads."""

from __future__ import annotations

import contextlib
import threading
import time

import numpy as np

from .util import MemScheduler, Violation


class Gate:
    """Permits for the producer; `free()` lets everything pass."""

    def __init__(self, closed=True):
        self.cond = threading.Condition()
        self.permits = 0
        self.open = not closed
        self.entered = 0  # calls that have arrived
        self.passed = 0  # calls that went through

    def allow(self, n=1):
        with self.cond:
            self.permits += n
            self.cond.notify_all()

    def free(self):
        with self.cond:
            self.open = True
            self.cond.notify_all()

    def close(self):
        with self.cond:
            self.open = False
            self.permits = 0

    def wait(self):
        with self.cond:
            self.entered += 1
            self.cond.notify_all()
            self.cond.wait_for(lambda: self.open or self.permits > 0)
            if not self.open:
                self.permits -= 1
            self.passed += 1
            self.cond.notify_all()

    def settle(self, cond, timeout=20.0):
        """Wait for `cond(gate)`; only shapes the schedule, decides nothing."""
        with self.cond:
            self.cond.wait_for(lambda: cond(self), timeout)


class GatedScheduler(MemScheduler):
    """Yields numbered flows; every batch waits at the gate."""

    def __init__(self, n, gate, loop=False):
        flows = np.arange(1, n + 1, dtype=np.float32)[:, None, None, None] * np.ones((1, 2, 3, 2))
        super().__init__(flows.astype(np.float32), files=[f"m{i}" for i in range(n)], loop=loop)
        self.gate = gate

    def get_batch(self, batch_size):
        self.gate.wait()
        return super().get_batch(batch_size)


class GatedEpisodes(GatedScheduler):
    """Episodes of L steps; flow number = 1000 * episode + step + 1."""

    def __init__(self, length, gate, batch):
        super().__init__(1, gate)
        self.length, self.t, self.episode, self.batch = length, 0, 0, batch

    @property
    def episode_length(self):
        return self.length

    def steps_remaining(self):
        return self.length - self.t

    def next_episode(self):
        self.episode += 1
        self.t = 0

    def reset(self):
        self.next_episode()
        self.resets += 1

    def get_batch(self, batch_size):
        from synthpix.scheduler.protocol import EpisodeEnd
        from synthpix.types import SchedulerData

        if self.t >= self.length:
            raise EpisodeEnd
        self.gate.wait()
        self.t += 1
        v = 1000 * self.episode + self.t
        return SchedulerData(
            flow_fields=np.full((batch_size, 2, 3, 2), v, np.float32),
            mask=np.ones(batch_size, bool),
            files=tuple(f"e{self.episode}s{self.t}" for _ in range(batch_size)))


@contextlib.contextmanager
def after(seconds, fn):
    """Run `fn` from another thread, a little later."""
    t = threading.Timer(seconds, fn)
    t.daemon = True
    t.start()
    try:
        yield
    finally:
        t.cancel()
        fn()


def new_threads(before):
    return [t for t in threading.enumerate()
            if t not in before and t.is_alive() and not isinstance(t, threading.Timer)]


def expect_no_threads(before, what, timeout=60.0):
    end = time.monotonic() + timeout
    while new_threads(before):
        if time.monotonic() > end:
            raise Violation(f"{what}: threads left: {[t.name for t in new_threads(before)]}")
        time.sleep(0.005)
