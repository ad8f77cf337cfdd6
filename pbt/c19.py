"""C19: prefetching delivers the same batches in the same order."""

import threading
import time

import numpy as np
from hypothesis import strategies as st

from .c11 import KINDS, build, make_scheduler
from .core import Prop, Sub
from .sched import Gate, GatedEpisodes, GatedScheduler, after
from .util import eq, raises, require, scratch

LONG = 200.0


def prefetch(s, batch, buffer, timeout=LONG, startup=None):
    from synthpix.scheduler import PrefetchingFlowFieldScheduler

    return PrefetchingFlowFieldScheduler(s, batch_size=batch, buffer_size=buffer,
                                         startup_timeout=startup or timeout,
                                         steady_state_timeout=timeout)


def check_schedule(case):
    """A scheduler that produces only when it is let, a consumer that takes when it is told."""
    n, size, buffer = case["n"], case["size"], case["buffer"]
    gate = Gate()
    inner = GatedScheduler(n, gate, loop=case["loop"])
    s = prefetch(inner, size, buffer)
    per = -(-n // size)  # batches of an epoch
    got, produced, ended, waits, full = 0, 0, False, 0, 0
    try:
        require(tuple(s.get_flow_fields_shape()) == (2, 3, 2), "get_flow_fields_shape()")
        for j, op in enumerate(case["ops"]):
            what = f"operation {j} ({op})"
            kind, arg = op
            if kind == "allow":
                gate.allow(arg)
                produced += arg
            elif kind == "settle":
                # the producer has done what it may, or is stuck at the full buffer
                if got or arg:
                    want = min(gate.passed + gate.permits, got + buffer + 1)
                    full += want == got + buffer + 1
                    gate.settle(lambda g: g.passed >= want, 0.5)
            elif kind == "wrong":
                raises(ValueError, lambda: s.get_batch(size + 1), "another batch size")
            elif kind == "reset":
                with after(0.003, gate.free):
                    s.reset()
                gate.close()
                got, ended = 0, False
            elif kind == "get" and not ended:
                waits += gate.permits == 0 and gate.passed == gate.entered - 1
                with after(0.002, lambda: gate.allow(1)):
                    try:
                        b = s.get_batch(size)
                    except StopIteration:
                        require(not case["loop"], "{}: the end of an endless stream", what)
                        require(got == per, "{}: the end after {} of {} batches", what, got, per)
                        ended = True
                        continue
                require(case["loop"] or got < per, "{}: a batch after the end", what)
                first = got * size
                idx = [(first + k) % n if case["loop"] else first + k for k in range(size)]
                rows = [i for i in idx if i < n]
                eq(b.mask, np.arange(size) < len(rows), f"{what}: mask of batch {got}")
                want = np.array([i + 1.0 for i in rows] + [0.0] * (size - len(rows)), np.float32)
                eq(b.flow_fields[:, 0, 0, 0], want, f"{what}: flows of batch {got}")
                require(tuple(b.files) == tuple(f"m{i}" for i in rows) + ("",) * (
                    size - len(rows)), "{}: files {} of batch {}", what, b.files, got)
                got += 1
    finally:
        gate.free()
        s.shutdown(join_timeout=30.0)
    lab = (["full buffer"] if full else []) + (["consumer waits"] if waits else [])
    lab += ["ended"] if ended else []
    return {"nontrivial": bool(full or waits or ended), "labels": lab}


@st.composite
def schedule_cases(draw, tier="quick"):
    op = st.one_of(
        st.just(["get", 0]), st.just(["get", 0]), st.just(["get", 0]),
        st.tuples(st.just("allow"), st.integers(1, 6)).map(list),
        st.tuples(st.just("settle"), st.integers(0, 1)).map(list),
        st.just(["reset", 0]), st.just(["wrong", 0]))
    big = draw(st.sampled_from([False] * 9 + [True]))  # more than a handful
    n, size = draw(st.integers(1, 80 if big else 12)), draw(st.integers(1, 20 if big else 3))
    ops = draw(st.lists(op, min_size=2, max_size=24))
    if draw(st.booleans()):
        ops = [["get", 0], ["allow", 5], ["settle", 1]] + ops
    if draw(st.booleans()):
        ops = ops[:12] + [["get", 0]] * (-(-n // size) + 1)
    return {"n": n, "size": size, "buffer": draw(st.integers(1, 20 if big else 4)),
            "loop": draw(st.sampled_from([False, False, True])), "ops": ops}


def check_episodes(case):
    """Episodes are skipped with next_episode, whatever the producer has done by then."""
    from synthpix.scheduler.protocol import EpisodeEnd

    L, size = case["length"], case["size"]
    gate = Gate()
    inner = GatedEpisodes(L, gate, size)
    s = prefetch(inner, size, case["buffer"])
    episode, t, started, early, base = 0, 0, False, 0, -1
    try:
        for j, (kind, arg) in enumerate(case["ops"]):
            what = f"operation {j} ({kind} {arg})"
            if kind == "allow":
                gate.allow(arg)
            elif kind == "settle":
                want = gate.passed + min(gate.permits, 1)
                gate.settle(lambda g: g.passed >= want, 0.05)
            elif kind == "next":
                early += started and 0 < t < L
                join = [0.0, 0.002, LONG][arg % 3]
                if join == LONG:
                    with after(0.002, gate.free):
                        s.next_episode(join_timeout=join)
                    gate.close()
                else:
                    s.next_episode(join_timeout=join)
                if not started:
                    episode = None
                elif episode is not None:
                    episode += 1
                started, t = True, 0
            elif kind == "reset":
                with after(0.003, gate.free):
                    s.reset()
                gate.close()
                started, t, episode = False, 0, None
            elif t == L:
                raises(EpisodeEnd, lambda: s.get_batch(size), what)
            else:
                with after(0.002, lambda: gate.free()):
                    b = s.get_batch(size)
                gate.close()
                v = np.unique(b.flow_fields)
                require(len(v) == 1, "{}: mixed batch {}", what, v)
                e, i = divmod(int(v[0]), 1000)
                if episode is None:  # after a reset or at the start: any later episode
                    require(e > base, "{}: episode {} again", what, e)
                    episode = e
                require((e, i) == (episode, t + 1), "{}: step {} of episode {} instead of step "
                        "{} of episode {}", what, i, e, t + 1, episode)
                base = max(base, e)
                t += 1
                started = True
            require(s.steps_remaining() == L - t, "{}: {} steps remain instead of {}", what,
                    s.steps_remaining(), L - t)
    finally:
        gate.free()
        s.shutdown(join_timeout=30.0)
    return {"nontrivial": early > 0}


@st.composite
def episode_cases(draw, tier="quick"):
    op = st.one_of(
        st.just(["get", 0]), st.just(["get", 0]), st.just(["get", 0]),
        st.tuples(st.just("allow"), st.integers(1, 6)).map(list),
        st.just(["settle", 0]),
        st.tuples(st.just("next"), st.integers(0, 2)).map(list),
        st.tuples(st.just("next"), st.integers(0, 2)).map(list),
        st.sampled_from([["reset", 0], ["get", 0]]))
    big = draw(st.sampled_from([False] * 9 + [True]))
    return {"length": draw(st.integers(1, 14 if big else 5)), "size": draw(st.integers(1, 2)),
            "buffer": draw(st.integers(1, 20 if big else 6)),
            "ops": draw(st.lists(op, min_size=3, max_size=24))}


def check_slow(case):
    """Consumers that come back only seconds after the producer has finished."""
    runs = []
    try:
        for r in case["runs"]:
            gate = Gate(closed=False)
            s = prefetch(GatedScheduler(r["n"], gate), r["size"], r["buffer"])
            got = [s.get_batch(r["size"])]
            runs.append((r, s, got))
        time.sleep(case["pause"])
        for r, s, got in runs:
            while True:
                try:
                    got.append(s.get_batch(r["size"]))
                except StopIteration:
                    break
            ids = [float(x) for b in got for x, m in zip(b.flow_fields[:, 0, 0, 0], b.mask) if m]
            require(ids == [i + 1.0 for i in range(r["n"])], "{} flows in batches of {}, buffer "
                    "of {}, a pause of {} s: flows {}", r["n"], r["size"], r["buffer"],
                    case["pause"], ids)
    finally:
        for _, s, _ in runs:
            s.shutdown()
    return {"nontrivial": True}


@st.composite
def slow_cases(draw, tier="quick"):
    lo = draw(st.sampled_from([1, 7]))
    return {"runs": [{"n": n, "size": size, "buffer": b} for n in range(lo, lo + 6)
                     for b in range(1, 7) for size in (1, 2)],
            "pause": draw(st.sampled_from([2.5, 3.5]))}


def check_pauses(case):
    """Consumers that do other things for a while between any two bursts of calls."""
    runs = []
    try:
        for r in case["runs"]:
            gate = Gate(closed=False)
            if r["length"]:
                inner = GatedEpisodes(r["length"], gate, r["size"])
            else:
                inner = GatedScheduler(r["n"], gate, loop=r["loop"])
            runs.append([r, prefetch(inner, r["size"], r["buffer"]), 0, None, False])
        for j in range(case["rounds"]):
            for run in runs:
                r, s, t, episode, ended = run
                what = f"{r}, burst {j}"
                for op in r["bursts"][j % len(r["bursts"])]:
                    if op == "reset":
                        s.reset()
                        t, episode, ended = 0, None, False
                    elif r["length"] and (op == "next" or t == r["length"]):
                        running = s.is_running()
                        s.next_episode(join_timeout=LONG)
                        episode = episode + 1 if episode is not None and running else None
                        t = 0
                    elif r["length"]:
                        v = np.unique(s.get_batch(r["size"]).flow_fields)
                        require(len(v) == 1, "{}: mixed batch {}", what, v)
                        e, i = divmod(int(v[0]), 1000)
                        episode = e if episode is None else episode
                        require((e, i) == (episode, t + 1), "{}: step {} of episode {} instead "
                                "of step {} of episode {}", what, i, e, t + 1, episode)
                        t += 1
                    elif not ended:
                        per = -(-r["n"] // r["size"])
                        if not r["loop"] and t == per:
                            raises(StopIteration, lambda: s.get_batch(r["size"]), what)
                            ended = True
                            continue
                        b = s.get_batch(r["size"])
                        ids = [(t * r["size"] + k) for k in range(r["size"])]
                        want = [(i % r["n"]) + 1.0 if r["loop"] or i < r["n"] else 0.0
                                for i in ids]
                        eq(b.flow_fields[:, 0, 0, 0], np.array(want, np.float32),
                           f"{what}: flows of batch {t}")
                        t += 1
                run[2:] = [t, episode, ended]
            time.sleep(case["pause"])
    finally:
        for run in runs:
            run[1].shutdown()
    return {"nontrivial": True}


@st.composite
def pauses_cases(draw, tier="quick"):
    burst = st.lists(st.sampled_from(["get"] * 6 + ["next", "next", "reset"]), max_size=4)
    run = st.fixed_dictionaries({
        "length": st.sampled_from([0, 0, 1, 2, 3, 5, 8]), "n": st.integers(1, 14),
        "loop": st.booleans(), "size": st.integers(1, 2), "buffer": st.integers(1, 8),
        "bursts": st.lists(burst, min_size=1, max_size=8)})
    return {"runs": draw(st.lists(run, min_size=1, max_size=60)),
            "rounds": draw(st.integers(2, 8)), "pause": draw(st.sampled_from([0.15, 0.25, 0.4]))}


def check_startup(case):
    """The first batch of an epoch may take longer than those that follow."""
    runs = []
    try:
        for r in case["runs"]:
            gate = Gate(closed=False)
            inner = GatedEpisodes(r["length"], gate, 1) if r["length"] else GatedScheduler(9, gate)
            s = prefetch(inner, 1, r["buffer"], timeout=case["steady"], startup=LONG)
            for _ in range(r["before"]):  # one batch of each epoch
                s.get_batch(1)
                s.reset()
            gate.close()
            out = []

            def take(s=s, out=out):
                try:
                    out.append(s.get_batch(1))
                except BaseException as e:
                    out.append(e)

            runs.append((r, s, gate, out, threading.Thread(target=take, daemon=True)))
        for *_, t in runs:
            t.start()
        time.sleep(case["steady"] + 1.5)
        for _, _, gate, _, _ in runs:
            gate.free()
        for r, s, _, out, t in runs:
            t.join(60.0)
            require(out and not isinstance(out[0], BaseException), "{}: the first batch arrives "
                    "after {} s, the consumer may wait {} s for it and gets {!r}", r,
                    case["steady"] + 1.5, LONG, out[0] if out else None)
            v = float(out[0].flow_fields[0, 0, 0, 0])
            require(v % 1000 == 1.0, "{}: batch {} comes first", r, v)
    finally:
        for _, s, gate, _, _ in runs:
            gate.free()
            s.shutdown()
    return {"nontrivial": True}


@st.composite
def startup_cases(draw, tier="quick"):
    return {"runs": [{"length": n, "buffer": b, "before": k} for n in (0, 1, 4) for b in (1, 3)
                     for k in (0, 1, 2)],
            "steady": draw(st.sampled_from([1.0, 2.0]))}


def check_ended(case):
    """After the end every call says so again, until a reset."""
    n, size = case["n"], case["size"]
    gate = Gate(closed=False)
    s = prefetch(GatedScheduler(n, gate), size, -(-n // size) + 2, timeout=0.5, startup=LONG)
    try:
        for epoch in range(case["epochs"]):
            got = [s.get_batch(size)]
            end = time.monotonic() + 60
            while s.is_running() and time.monotonic() < end:
                time.sleep(0.002)  # all batches are queued then
            for _ in range(-(-n // size) - 1):
                got.append(s.get_batch(size))
            ids = [float(x) for b in got for x, m in zip(b.flow_fields[:, 0, 0, 0], b.mask) if m]
            require(ids == [i + 1.0 for i in range(n)], "epoch {}: flows {}", epoch, ids)
            for k in range(case["calls"]):
                raises(StopIteration, lambda: s.get_batch(size), f"call {k} after the end")
            s.reset()
    finally:
        s.shutdown()
    return {"nontrivial": case["epochs"] > 1}


@st.composite
def ended_cases(draw, tier="quick"):
    return {"n": draw(st.integers(1, 6)), "size": draw(st.integers(1, 3)),
            "epochs": draw(st.integers(1, 3)), "calls": draw(st.integers(1, 2))}


def check_real(case):
    """The schedulers of files, with and without prefetching, side by side."""
    import jax

    with scratch() as d:
        files, expected = build(case, d)
        kw = {"loop": case["loop"], "randomize": case["randomize"]}

        def make():
            return make_scheduler(case["kind"], files, case["hw"],
                                  key=jax.random.PRNGKey(case["key"]), **kw)

        a = make()
        b = prefetch(make(), case["size"], case["buffer"])
        try:
            ended = False
            for j in range(case["steps"]):
                x = y = None
                try:
                    x = a.get_batch(case["size"])
                except StopIteration:
                    ended = True
                try:
                    y = b.get_batch(case["size"])
                except StopIteration:
                    pass
                require((x is None) == (y is None), "batch {}: one of the two has ended", j)
                if x is None:
                    break
                same_batch(x, y, f"batch {j}")
        finally:
            b.shutdown(join_timeout=30.0)
    return {"nontrivial": case["steps"] > 1, "labels": ["ended" if ended else "running"]}


def same_batch(x, y, what):
    require(tuple(x.files) == tuple(y.files), "{}: files {} instead of {}", what, y.files,
            x.files)
    for name in ("flow_fields", "images1", "images2", "mask"):
        u, v = getattr(x, name), getattr(y, name)
        require((u is None) == (v is None), "{}: {} missing", what, name)
        if u is not None:
            eq(v, u, f"{what}: {name}")


@st.composite
def real_cases(draw, tier="quick"):
    kind = draw(st.sampled_from(KINDS))
    nf = draw(st.sampled_from([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 17]))
    return {
        "kind": kind, "hw": [draw(st.integers(2, 5)), draw(st.integers(2, 5))],
        "files": [draw(st.integers(1, 3)) if kind == "h5" else 1 for _ in range(nf)],
        "listing": draw(st.sampled_from(["list", "dir"])), "order": list(range(nf)), "first": 3,
        "loop": draw(st.booleans()), "randomize": draw(st.booleans()),
        "key": draw(st.integers(0, 1000)), "size": draw(st.integers(1, 4)),
        "buffer": draw(st.integers(1, 5)), "steps": draw(st.integers(2, 14)),
        "seed": draw(st.integers(0, 2**20)),
    }


PROP = Prop("C19", [
    Sub("schedule", lambda tier: schedule_cases(tier), check_schedule, 640, 12000,
        "a producer that passes a gate for each batch and a consumer, in drawn interleavings "
        "(waiting consumer, full buffer, resets, refused calls); every batch is compared with "
        "the next one of the wrapped scheduler; non-trivial: the consumer waited, the buffer "
        "was full or the end was reached", weight=2, hang_s=120),
    Sub("episodes", lambda tier: episode_cases(tier), check_episodes, 480, 8000,
        "as before with episodes left by next_episode at any point and with any join timeout; "
        "the flows carry the numbers of episode and step; non-trivial: an episode was left "
        "early", weight=2, hang_s=120),
    Sub("slow", lambda tier: slow_cases(tier), check_slow, 2, 4,
        "72 consumers at a time, of 1-12 flows and buffers of 1-6 batches, that pause 2.5 s or "
        "longer after the first batch, past the end of the producer", hang_s=200,
        max_shards=1),
    Sub("pauses", lambda tier: pauses_cases(tier), check_pauses, 24, 600,
        "up to 60 consumers at a time, of streams and episodes, that call in bursts (batches, "
        "next_episode, reset) and pause for 0.15 to 0.4 s between them, so that the producer "
        "finds its buffer full", hang_s=200),
    Sub("startup", lambda tier: startup_cases(tier), check_startup, 2, 4,
        "18 consumers at a time of streams and episodes, fresh or after a reset, whose first "
        "batch takes longer than the time-out of the following ones", max_shards=1),
    Sub("ended", lambda tier: ended_cases(tier), check_ended, 24, 300,
        "calls after the end, and further epochs after a reset; non-trivial: several epochs"),
    Sub("real", lambda tier: real_cases(tier), check_real, 160, 3000,
        "schedulers of files of all formats, shuffled and looping, next to a prefetched one "
        "with the same key; non-trivial: several batches"),
])
