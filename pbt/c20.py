"""C20: prefetching starts, stops and restarts without deadlock or leak."""

import threading
import time

import numpy as np
from hypothesis import strategies as st

from .c19 import LONG, prefetch
from .core import Prop, Sub, Violation
from .sched import Gate, GatedEpisodes, GatedScheduler, after, expect_no_threads, new_threads
from .util import require

WAIT = 100.0  # a call that has not returned by then is blocked


class Caller:
    """Runs a call in a thread of its own, so that one that blocks can be told."""

    def __init__(self, fn):
        self.result, self.error = None, None

        def run():
            try:
                self.result = fn()
            except BaseException as e:  # noqa: BLE001
                self.error = e

        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.start()

    def done(self, what, timeout=WAIT):
        self.thread.join(timeout)
        if self.thread.is_alive():
            raise Violation(f"{what}: the call does not return")
        return self


def inner(case, gate):
    if case["kind"] == "episodes":
        return GatedEpisodes(case["n"], gate, case["size"])
    return GatedScheduler(case["n"], gate, loop=case["kind"] == "loop")


def check_calls(case):
    """Any order of calls; with short timeouts a batch may be missed, but no call may block."""
    from synthpix.scheduler.protocol import EpisodeEnd

    before = set(threading.enumerate())
    gate = Gate(closed=False)
    sched = inner(case, gate)
    if any(case["delays"]):
        plain, count = sched.get_batch, [0]

        def slow(batch_size):
            time.sleep(case["delays"][count[0] % len(case["delays"])] / 1000)
            count[0] += 1
            return plain(batch_size)

        sched.get_batch = slow
    s = prefetch(sched, case["size"], case["buffer"], timeout=case["timeout"])
    down, kinds = False, set()
    first = None  # the position that the next batch has to have, if known
    if case["kind"] != "episodes":
        first = 0
    try:
        for j, (kind, arg) in enumerate(case["ops"]):
            what = f"operation {j} ({kind}) after {[o[0] for o in case['ops'][:j]]}"
            kinds.add(kind)
            if kind == "get":
                c = Caller(lambda: s.get_batch(case["size"])).done(what)
                ok = (StopIteration, EpisodeEnd) if case["kind"] == "episodes" else StopIteration
                require(c.error is None or isinstance(c.error, ok), "{}: {!r}", what, c.error)
                if c.error is None and first is not None:
                    v = float(c.result.flow_fields[0, 0, 0, 0])
                    require(v == first + 1, "{}: flow {} instead of {}", what, v, first + 1)
                    first += case["size"]
                    first = first % case["n"] if case["kind"] == "loop" else first
                elif first is not None and not down and case["kind"] == "loop":
                    first = None  # timed out
            elif kind == "reset":
                c = Caller(s.reset).done(what)
                down = False
                if case["kind"] != "episodes":
                    first = 0
            elif kind == "next":
                c = Caller(lambda: s.next_episode(join_timeout=0.02)).done(what)
            elif kind == "shutdown":
                c = Caller(lambda: s.shutdown(join_timeout=arg)).done(what)
                down, first = True, None
                expect_no_threads(before, what)
                require(not s.is_running(), "{}: is_running() after shutdown", what)
            elif kind == "pause":
                time.sleep(arg)
                continue
            if kind != "get" and c.error is not None:
                raise Violation(f"{what}: {c.error!r}") from c.error
    finally:
        Caller(s.shutdown).done("the last shutdown")
    expect_no_threads(before, f"after {[o[0] for o in case['ops']]} and shutdown")
    Caller(s.shutdown).done("shutdown again")
    del s
    return {"nontrivial": len(kinds) >= 2 and ("shutdown" in kinds or "reset" in kinds),
            "labels": [case["kind"]] + sorted(kinds)}


@st.composite
def call_cases(draw, tier="quick"):
    op = st.one_of(
        st.just(["get", 0]), st.just(["get", 0]), st.just(["get", 0]), st.just(["reset", 0]),
        st.just(["next", 0]), st.tuples(st.just("shutdown"),
                                        st.sampled_from([2.0, 0.01, 0.0])).map(list),
        st.tuples(st.just("pause"), st.sampled_from([0.001, 0.005])).map(list))
    return {"kind": draw(st.sampled_from(["once", "loop", "episodes"])),
            "n": draw(st.integers(1, 8)), "size": draw(st.integers(1, 3)),
            "buffer": draw(st.integers(1, 4)), "timeout": 0.15,
            "delays": draw(st.sampled_from([[0], [0], [1], [0, 10], [20]])),
            "ops": draw(st.lists(op, min_size=1, max_size=14))}


def check_blocked(case):
    """Shutdown and reset while the producer is inside of the wrapped scheduler."""
    before = set(threading.enumerate())
    gate = Gate()
    s = prefetch(inner(case, gate), case["size"], case["buffer"])
    taken, waiting = 0, None
    try:
        if case["taken"] or not case["consumer"]:
            gate.allow(case["taken"] + case["queued"] + 1)
            for _ in range(case["taken"] + 1):
                Caller(lambda: s.get_batch(case["size"])).done("get_batch")
                taken += 1
            gate.settle(lambda g: g.permits == 0, 5)
        if case["consumer"]:  # more than is queued: the consumer ends up waiting
            left = [None]

            def consume():
                while True:
                    try:
                        s.get_batch(case["size"])
                    except StopIteration:
                        left[0] = "end"
                        return

            waiting = Caller(consume)
            gate.settle(lambda g: g.entered > g.passed, 5)
            time.sleep(0.01)
        what = "shutdown" if case["shutdown"] else "reset"
        if case["shutdown"] and case["join"] > 100:  # waits for the producer to end
            with after(case["busy"], gate.free):
                Caller(lambda: s.shutdown(join_timeout=case["join"])).done(what)
            alive = [t.name for t in new_threads(before)
                     if waiting is None or t is not waiting.thread]
            require(not alive, "a shutdown that may wait {} s for the producer, which needs {} s, "
                    "leaves threads: {}", case["join"], case["busy"], alive)
        elif case["shutdown"]:
            Caller(lambda: s.shutdown(join_timeout=case["join"])).done(what)
        else:
            with after(case["busy"], gate.free):
                Caller(s.reset).done(what)
            for k in range(4):  # the producer that was busy must not go on
                c = Caller(lambda: s.get_batch(case["size"])).done("get_batch after that")
                require(c.error is None, "get_batch after a reset: {!r}", c.error)
                v = int(c.result.flow_fields[0, 0, 0, 0])
                want = k + 1 if case["kind"] == "episodes" else case["size"] * k % case["n"] + 1
                require(v % 1000 == want, "batch {} after a reset while the producer loads: flow "
                        "{} instead of {}", k, v, want)
            end = time.monotonic() + 20  # a surviving one would never leave
            while len(new_threads(before)) > 1 and time.monotonic() < end:
                time.sleep(0.01)
            left = [t.name for t in new_threads(before)]
            require(len(left) <= 1, "after a reset while the producer loads: threads {}", left)
        if waiting is not None and case["shutdown"]:
            waiting.done("shutdown leaves a consumer waiting")
            if waiting.error is not None:
                raise Violation(f"the waiting consumer gets {waiting.error!r}")
        gate.free()
        if case["shutdown"]:
            expect_no_threads(before, "shutdown while the producer loads")
            require(not s.is_running(), "is_running() after shutdown")
            if case["again"]:
                Caller(s.reset).done("reset after shutdown")
                c = Caller(lambda: s.get_batch(case["size"])).done("get_batch after that")
                require(c.error is None, "reset after shutdown: {!r}", c.error)
                v = np.unique(c.result.flow_fields[0])
                require(case["kind"] == "episodes" and int(v[0]) % 1000 == 1 or v[0] == 1,
                        "reset after shutdown: starts with flow {}", v)
    finally:
        gate.free()
        Caller(s.shutdown).done("the last shutdown")
    expect_no_threads(before, "at the end")
    return {"labels": ["consumer waits" if case["consumer"] else "queue filled"]}


@st.composite
def blocked_cases(draw, tier="quick"):
    shutdown = draw(st.sampled_from([True, True, False]))
    buffer = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["loop", "episodes"]))
    return {"kind": kind, "n": draw(st.integers(1, 6)) + 30 * (kind == "episodes"),
            "size": draw(st.integers(1, 2)), "buffer": buffer,
            "taken": draw(st.integers(0, 3)), "queued": draw(st.integers(0, buffer)),
            "consumer": draw(st.booleans()) if shutdown else False, "shutdown": shutdown,
            "join": draw(st.sampled_from([0.0, 0.01, 0.05, 200.0])),
            "busy": draw(st.sampled_from([0.0, 0.01, 0.05, 0.25, 0.25, 0.6, 2.3])),
            "again": draw(st.booleans())}


def drain(s, buffer):
    """What is queued may still be read after a shutdown, then comes the end."""
    def consume():
        for k in range(buffer + 2):
            try:
                s.get_batch(1)
            except StopIteration:
                return k
        raise Violation(f"{buffer + 2} batches after shutdown with a buffer of {buffer}")

    c = Caller(consume).done("reading on after shutdown")
    if c.error is not None:
        raise c.error


def check_full(case):
    """Stopping producers that wait for space in the queue, or that have come to the end."""
    before = set(threading.enumerate())
    runs = []
    for n, buffer in case["runs"]:
        s = prefetch(GatedScheduler(n, Gate(closed=False), loop=case["loop"]), 1, buffer)
        s.get_batch(1)
        runs.append(s)
    time.sleep(case["pause"])
    calls = [Caller(getattr(s, case["how"])) for s in runs]
    for c, (n, buffer) in zip(calls, case["runs"]):
        c.done(f"{case['how']} ({n} flows, buffer of {buffer})")
        if c.error is not None:
            raise Violation(f"{case['how']}: {c.error!r}") from c.error
    if case["how"] == "reset":
        for s, (n, _) in zip(runs, case["runs"]):
            c = Caller(lambda: s.get_batch(1)).done("get_batch after reset")  # noqa: B023
            require(c.error is None and float(c.result.flow_fields[0, 0, 0, 0]) == 1.0,
                    "after a reset: {} {}", c.error, c.result)
        for c in [Caller(s.shutdown) for s in runs]:
            c.done("shutdown")
    expect_no_threads(before, "after shutdown")
    if case["drain"]:
        for s, (n, buffer) in zip(runs, case["runs"]):
            drain(s, buffer)
    return {"nontrivial": len(case["runs"]) > 1}


@st.composite
def full_cases(draw, tier="quick"):
    run = st.tuples(st.integers(1, 8), st.integers(1, 5)).map(list)
    return {"runs": draw(st.lists(run, min_size=1, max_size=12)), "loop": draw(st.booleans()),
            "pause": draw(st.sampled_from([0.0, 0.01, 0.05, 0.3])),
            "how": draw(st.sampled_from(["shutdown", "reset"])), "drain": draw(st.booleans())}


PROP = Prop("C20", [
    Sub("calls", lambda tier: call_cases(tier), check_calls, 240, 6000,
        "get_batch, next_episode, reset, shutdown (any join timeout) and pauses in any order "
        "over finite, endless and episodic schedulers of any speed, with short timeouts; each "
        "call runs in a thread of its own and has to return, no thread may be left after "
        "shutdown; non-trivial: several kinds of calls with a stop among them",
        weight=2, hang_s=400),
    Sub("blocked", lambda tier: blocked_cases(tier), check_blocked, 240, 4000,
        "shutdown or reset while the producer is held inside of the wrapped scheduler, with a "
        "filled queue or a waiting consumer; the consumer must be woken, the thread must end, "
        "and a reset starts over", hang_s=400),
    Sub("full", lambda tier: full_cases(tier), check_full, 48, 600,
        "several prefetchers stopped or reset while they wait for space in the queue or have "
        "come to the end; reading on after shutdown has to come to the end", hang_s=400),
])
