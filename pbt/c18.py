"""C18: the episode protocol holds after any sequence of calls."""

import os
import time

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .sched import Gate, GatedEpisodes, after
from .util import eq, require, scratch, small_flow, small_img, write_mat

HW = (16, 20)
GRID = (6, 7)


def write_sequences(d, n, length, hw, images):
    """n folders with exactly one run each: the first frame tells the first step."""
    data = {}
    for k in range(n):
        p = os.path.join(d, f"seq{k}")
        os.makedirs(p)
        for t in range(length):
            f = os.path.join(p, f"{t:03d}.mat")
            v = {"V": small_flow(97 * k + t, hw + (2,)) / 512}
            if images:
                v["I0"] = small_img(1000 + 97 * k + t, hw)
                v["I1"] = small_img(2000 + 97 * k + t, hw)
            write_mat(f, **v)
            data[f] = v
    return data


class Slow:
    """Delays the batches of a scheduler."""

    def __init__(self, s, delays):
        self.s, self.delays, self.n = s, delays, 0
        plain = s.get_batch

        def get_batch(batch_size):
            time.sleep(self.delays[self.n % len(self.delays)] / 1000)
            self.n += 1
            return plain(batch_size)

        s.get_batch = get_batch


def build(case, d):
    import jax

    from synthpix.sampler import RealImageSampler
    from synthpix.scheduler import (EpisodicFlowFieldScheduler, MATFlowFieldScheduler,
                                    PrefetchingFlowFieldScheduler)

    images = case["top"] == "real" or case["images"]
    hw = GRID if case["top"] == "synthetic" else (4, 5)
    data = write_sequences(d, case["dirs"], case["length"], hw, images)
    base = MATFlowFieldScheduler([d], include_images=images, output_shape=hw,
                                 randomize=case["randomize"], loop=case["loop"])
    if any(case["delays"]):
        Slow(base, case["delays"])
    s = EpisodicFlowFieldScheduler(base, batch_size=case["lanes"],
                                   episode_length=case["length"],
                                   key=jax.random.PRNGKey(case["key"]))
    if case["buffer"]:
        s = PrefetchingFlowFieldScheduler(s, batch_size=case["lanes"],
                                          buffer_size=case["buffer"], startup_timeout=150.0,
                                          steady_state_timeout=150.0)
    top = None
    if case["top"] == "real":
        top = RealImageSampler(s, batch_size=case["lanes"])
    elif case["top"] == "synthetic":
        from .synth import make_sampler
        g = {"hw": list(HW), "res": 1.0, "dt": 0.5, "vb": [8.0] * 4, "grid": list(GRID),
             "lead": [1.0, 1.0], "trail": [1.0, 1.0]}
        top, _ = make_sampler(g, None, case["lanes"] * case["per"], seed=5, sched=s,
                              k=case["lanes"])
    return data, s, top


def check(case):
    from synthpix.scheduler.protocol import EpisodeEnd

    L, lanes = case["length"], case["lanes"]
    crossed = 0
    with scratch() as d:
        data, s, top = build(case, d)
        try:
            t, lane_dirs = 0, None
            ends = 0
            for j, op in enumerate(case["ops"]):
                what = f"operation {j} ({op}) after {t} of {L} steps"
                if op == "reset":
                    (top or s).reset()
                    t = 0
                elif op == "next_episode":
                    crossed += t < L
                    if top is not None:
                        top.next_episode()
                    elif case["buffer"]:
                        s.next_episode(join_timeout=case["join"])
                    else:
                        s.next_episode()
                    t = 0
                elif t == L:
                    try:
                        b = next(top) if top is not None else s.get_batch(lanes)
                    except EpisodeEnd:
                        ends += 1
                    else:
                        require(False, "{}: a batch ({}) after the end of the episode", what,
                                b.files)
                else:
                    b = next(top) if top is not None else s.get_batch(lanes)
                    require(b.files is not None and len(b.files) == lanes, "{}: files {}", what,
                            b.files)
                    dirs = [os.path.dirname(f) for f in b.files]
                    steps = [int(os.path.basename(f)[:-4]) for f in b.files]
                    require(all(i == t for i in steps), "{}: frames {} instead of {}", what,
                            steps, t)
                    if t == 0:
                        lane_dirs = dirs
                    require(dirs == lane_dirs, "{}: the lanes change sequence", what)
                    require(bool(np.all(b.mask)), "{}: mask {}", what, b.mask)
                    t += 1
                    if top is None or case["top"] == "real":
                        for k, f in enumerate(b.files):
                            eq(b.flow_fields[k], data[f]["V"], f"{what}: flow of lane {k}")
                            if b.images1 is not None:
                                eq(b.images1[k], data[f]["I0"], f"{what}: images1, lane {k}")
                    if top is not None:
                        size = lanes * (case["per"] if case["top"] == "synthetic" else 1)
                        require(b.done is not None, "{}: no done flags", what)
                        eq(b.done, np.full(size, t == L), f"{what}: done")
                require(s.steps_remaining() == L - t, "{}: then {} steps remain instead of {}",
                        what, s.steps_remaining(), L - t)
                require(s.episode_length == L, "{}: episode_length {}", what, s.episode_length)
        finally:
            (top or s).shutdown()
    return {"nontrivial": ends > 0 or crossed > 0,
            "labels": ["prefetched" if case["buffer"] else "direct", case["top"]]
            + (["left early"] if crossed else []) + (["end"] if ends else [])}


@st.composite
def cases(draw, top, tier="quick"):
    big = draw(st.sampled_from([False] * 9 + [True]))  # more than a handful
    L = draw(st.one_of(st.integers(6, 16), st.integers(30, 44)) if big else st.integers(1, 5))
    ops = draw(st.lists(st.sampled_from(["step"] * 8 + ["next_episode"] * 2 + ["reset"]),
                        min_size=3, max_size=24))
    for _ in range(draw(st.integers(0, 2))):  # run over an end
        i = draw(st.integers(0, len(ops)))
        ops = ops[:i] + ["step"] * (L + 1) + ops[i:]
    c = {"top": top, "length": L, "lanes": draw(st.integers(1, 9 if big else 3)),
         "dirs": draw(st.integers(1, 4)), "randomize": draw(st.booleans()),
         "loop": draw(st.booleans()), "images": draw(st.booleans()),
         "buffer": draw(st.sampled_from([0, 1, 2, 5] + [12, 30] * big)), "ops": ops[:100 if big else 34],
         "join": draw(st.sampled_from([0.0, 0.001, 0.01, 2.0])),
         "delays": draw(st.sampled_from([[0], [0], [2], [0, 0, 5], [5, 0]])),
         "per": draw(st.integers(1, 2)), "key": draw(st.integers(0, 10**6))}
    return c


def check_late(case):
    """Batches that do not arrive in time and are asked for again."""
    from synthpix.scheduler import PrefetchingFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd

    L, size = case["length"], case["lanes"]
    gate = Gate()
    s = PrefetchingFlowFieldScheduler(GatedEpisodes(L, gate, size), batch_size=size,
                                      buffer_size=case["buffer"], startup_timeout=case["timeout"],
                                      steady_state_timeout=case["timeout"])
    t, late, fresh, episode = 0, 0, True, None
    try:
        for j, op in enumerate(case["ops"]):
            what = f"operation {j} ({op}) after {t} of {L} steps and {late} time-outs"
            if op == "next":
                with after(0.002, gate.free):
                    s.next_episode(join_timeout=200.0)
                gate.close()
                t, fresh = 0, True
            elif op == "reset":
                with after(0.002, gate.free):
                    s.reset()
                gate.close()
                t, fresh = 0, True
            else:
                if op == "get":
                    gate.allow(1)
                while True:
                    try:
                        b = s.get_batch(size)
                    except StopIteration:  # in time or not, by the machine's load
                        require(t < L, "{}: a time-out after the end of the episode", what)
                        late += 1
                        require(s.steps_remaining() == L - t, "{}: after a time-out {} steps "
                                "remain instead of {}", what, s.steps_remaining(), L - t)
                        if op == "late":
                            break
                        gate.allow(1)
                        continue
                    except EpisodeEnd:
                        require(t == L, "{}: the episode has ended", what)
                        break
                    e, i = divmod(int(b.flow_fields[0, 0, 0, 0]), 1000)
                    require(i == t + 1, "{}: step {} of an episode", what, i)
                    require(e == episode if not fresh else e != episode, "{}: a step of episode "
                            "{} after one of {}", what, e, episode)
                    t, fresh, episode = t + 1, False, e
                    break
            require(s.steps_remaining() == L - t, "{}: then {} steps remain instead of {}",
                    what, s.steps_remaining(), L - t)
    finally:
        gate.free()
        s.shutdown(join_timeout=30.0)
    return {"nontrivial": late > 0, "labels": ["late"] if late else []}


@st.composite
def late_cases(draw, tier="quick"):
    return {"length": draw(st.integers(1, 5)), "lanes": draw(st.integers(1, 2)),
            "buffer": draw(st.integers(1, 4)), "timeout": draw(st.sampled_from([0.02, 0.05])),
            "ops": draw(st.lists(st.sampled_from(["get"] * 5 + ["late"] * 3 + ["next", "reset"]),
                                 min_size=3, max_size=20))}


RULE = ("sequences of steps, next_episode and reset over {} with and without prefetching (slow "
        "loaders, short joins), against a step counter; every folder holds exactly one run, so "
        "that the frames tell the step; non-trivial: an end was run into or an episode left "
        "early")
PROP = Prop("C18", [
    Sub("scheduler", lambda tier: cases("none", tier), check, 320, 6000,
        RULE.format("the schedulers"), weight=2),
    Sub("real", lambda tier: cases("real", tier), check, 160, 3000,
        RULE.format("the real sampler") + "; with done flags"),
    Sub("synthetic", lambda tier: cases("synthetic", tier), check, 24, 600,
        RULE.format("the synthetic sampler") + "; with done flags"),
    Sub("late", lambda tier: late_cases(tier), check_late, 160, 3000,
        "a prefetcher of episodes whose batches do not arrive before the time-out: asked again, "
        "every step is delivered once and counted once; non-trivial: a time-out"),
])
