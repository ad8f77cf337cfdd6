"""C29: real samplers deliver the stored pair with its own flow."""

import os

import numpy as np
from hypothesis import strategies as st

from .c11 import build, check_rows, make_scheduler
from .c18 import write_sequences
from .core import Prop, Sub
from .util import MemScheduler, eq, raises, require, scratch, sides

KINDS = ["npy_img", "mat_img"]


def wrap(s, wrappers, size, length=2):
    import jax

    from synthpix.scheduler import EpisodicFlowFieldScheduler, PrefetchingFlowFieldScheduler

    for w in wrappers:
        if w == "prefetch":
            s = PrefetchingFlowFieldScheduler(s, batch_size=size, buffer_size=2,
                                              startup_timeout=150.0, steady_state_timeout=150.0)
        else:
            s = EpisodicFlowFieldScheduler(s, batch_size=size, episode_length=length,
                                           key=jax.random.PRNGKey(3))
    return s


def check_stream(case):
    from synthpix.sampler import RealImageSampler

    n = case["size"]
    with scratch() as d:
        files, expected = build(case, d)
        base = make_scheduler(case["kind"], files, case["hw"], loop=case["loop"], randomize=False)
        sched = wrap(base, ["prefetch"] if case["buffer"] else [], n)
        s = (RealImageSampler(sched, batch_size=n) if case["how"] == "init" else
             RealImageSampler.from_config(sched, {"batch_size": n}))
        try:
            pos = 0
            for j, op in enumerate(case["ops"]):
                what = f"batch {j} of {len(expected)} records by {n}"
                if op == "reset":
                    s.reset()
                    pos = 0
                    continue
                rows = []
                while len(rows) < n and (case["loop"] or pos < len(expected)):
                    rows.append(expected[pos % len(expected)])
                    pos += 1
                if not rows:
                    if case["buffer"] and op != "end":
                        continue
                    raises(StopIteration, lambda: next(s), what)
                    continue
                b = next(s)
                for a in (b.images1, b.images2, b.flow_fields):
                    require(a.dtype == np.float32, "{}: {}", what, a.dtype)
                check_rows(b, n, rows, True, what)
                require(b.params is None, "{}: parameters of real images", what)
                require(b.done is None or not np.any(b.done), "{}: done {}", what, b.done)
        finally:
            s.shutdown()
    return {"nontrivial": len(expected) > 1 and len(case["ops"]) > 2,
            "labels": [case["kind"], "prefetched" if case["buffer"] else "direct",
                       "partial" if len(expected) % n else "even"]}


@st.composite
def stream_cases(draw, tier="quick"):
    kind = draw(st.sampled_from(KINDS))
    c = {"kind": kind, "hw": draw(sides(2, 9)),
         "seed": draw(st.integers(0, 2**20)), "first": draw(st.integers(1, 12)),
         "files": [1] * draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 2, 3, 4, 5, 6, 7, 25])),
         "listing": "dir" if kind == "mat_img" and draw(st.booleans()) else "files",
         "size": draw(st.sampled_from([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 11])), "loop": draw(st.booleans()),
         "buffer": draw(st.booleans()), "how": draw(st.sampled_from(["init", "config"])),
         "grey": draw(st.sampled_from(["bytes", "wide", "fractions"])),
         "ops": draw(st.lists(st.sampled_from(["next"] * 7 + ["reset"]), min_size=2,
                              max_size=14))}
    if draw(st.booleans()):
        c["ops"] = ["next"] * (-(-len(c["files"]) // c["size"])) + ["end"] + c["ops"]
    c["order"] = draw(st.permutations(range(len(c["files"]))))
    return c


def check_episodes(case):
    """Every lane shows the records of its own sequence."""
    from synthpix.sampler import RealImageSampler
    from synthpix.scheduler import MATFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd

    n, L = case["size"], case["length"]
    hw = tuple(case["hw"])
    with scratch() as d:
        data = write_sequences(d, case["dirs"], L + case["more"], hw, True)
        base = MATFlowFieldScheduler([d], include_images=True, output_shape=hw, loop=True)
        s = RealImageSampler(wrap(base, ["episode"] + ["prefetch"] * case["buffer"], n, L),
                             batch_size=n)
        seen = set()
        try:
            for ep in range(case["episodes"]):
                if ep:
                    s.next_episode()
                for t in range(L):
                    b = next(s)
                    require(len(set(b.files)) <= n and len(b.files) == n, "files {}", b.files)
                    for k, f in enumerate(b.files):
                        seen.add(f)
                        for a, v in ((b.flow_fields, "V"), (b.images1, "I0"), (b.images2, "I1")):
                            eq(np.asarray(a)[k], np.asarray(data[f][v], np.float32),
                               f"episode {ep}, step {t}, lane {k}: {v} of {os.path.basename(f)}")
                    require(bool(np.all(b.mask)), "mask {}", b.mask)
                raises(EpisodeEnd, lambda: next(s), "a step beyond the episode")
        finally:
            s.shutdown()
    return {"nontrivial": len(seen) > 2}


def episode_cases(tier):
    return st.fixed_dictionaries({
        "dirs": st.integers(1, 4), "length": st.integers(1, 4), "more": st.integers(0, 3),
        "size": st.integers(1, 4), "hw": st.lists(st.integers(2, 6), min_size=2, max_size=2),
        "buffer": st.booleans(), "episodes": st.integers(1, 3)})


def check_refuse(case):
    """A scheduler without images is refused, however it is wrapped; with them it is not."""
    from synthpix.sampler import RealImageSampler
    from synthpix.scheduler import MATFlowFieldScheduler, NumpyFlowFieldScheduler

    n = case["size"]
    with scratch() as d:
        if case["kind"] == "mem":
            base = MemScheduler(np.zeros((2, 3, 4, 2), np.float32))
        elif case["kind"] == "mat":
            write_sequences(d, 2, 3, (4, 5), True)
            base = MATFlowFieldScheduler([d], include_images=case["images"], output_shape=(4, 5))
        else:
            c = {"kind": "npy_img", "hw": (4, 5), "seed": 3, "first": 1, "files": [1, 1],
                 "listing": "files", "order": [0, 1]}
            files, _ = build(c, d)
            base = NumpyFlowFieldScheduler(files, include_images=case["images"])
        wrappers = [w for w in case["wrappers"] if w != "episode" or case["kind"] == "mat"]
        sched = wrap(base, wrappers, n)
        try:
            if case["images"] and case["kind"] != "mem":
                RealImageSampler(sched, batch_size=n)
            else:
                raises(ValueError, lambda: RealImageSampler(sched, batch_size=n),
                       f"flows without images ({case['kind']}, {wrappers})")
            for bad in (0, -1, 1.5, "2"):
                raises(ValueError, lambda: RealImageSampler(sched, batch_size=bad),
                       f"batch size {bad!r}")
            raises(TypeError, lambda: RealImageSampler(object(), batch_size=n), "an object")
        finally:
            sched.shutdown()
    return {"nontrivial": bool(wrappers)}


def refuse_cases(tier):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["mem", "mat", "npy"]), "images": st.booleans(),
        "size": st.integers(1, 3),
        "wrappers": st.sampled_from([[], ["prefetch"], ["episode"], ["episode", "prefetch"]])})


PROP = Prop("C29", [
    Sub("stream", lambda tier: stream_cases(tier), check_stream, 720, 12000,
        "real samplers over drawn .mat and .npy datasets with random pixels, read, reset and "
        "run over their end, with and without prefetching; every row against the record it "
        "names, padding zero and marked; non-trivial: several records and batches"),
    Sub("episodes", episode_cases, check_episodes, 240, 4000,
        "real samplers of episodes over drawn sequences: the pair and flow of every lane are "
        "those of the file it names; non-trivial: several frames seen"),
    Sub("refuse", refuse_cases, check_refuse, 480, 4000,
        "schedulers with and without images under drawn wrappers; refused exactly without; "
        "non-trivial: wrapped"),
])
