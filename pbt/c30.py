"""C30: what was delivered stays as it was, and reading alters no input."""

import copy
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

from .c11 import KINDS, build, make_scheduler
from .c18 import write_sequences
from .core import Prop, Sub
from .pipe import aux_files, config, pipelines, write_files
from .synth import geometries, make_sampler
from .util import eq, require, rng, scratch

FIELDS = ("images1", "images2", "flow_fields", "mask", "done")


def fingerprints(d):
    """Content of every file under `d`, and the names."""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in [*files, *dirs]:
            p = os.path.join(root, f)
            if os.path.isfile(p):
                with open(p, "rb") as h:
                    out[p] = hashlib.sha256(h.read()).hexdigest()
            else:
                out[p] = "folder"
    return out


class Keeper:
    """Delivered batches next to what they were when delivered."""

    def __init__(self):
        self.items = []

    def keep(self, b):
        was = {}
        for k in FIELDS:
            v = getattr(b, k, None)
            was[k] = None if v is None else np.array(v, copy=True)
        was["files"] = None if b.files is None else tuple(b.files)
        p = getattr(b, "params", None)
        if p is not None:
            was["params"] = np.array(p.seeding_densities, copy=True)
        self.items.append((b, was))
        return was

    def verify(self, when):
        for n, (b, was) in enumerate(self.items):
            for k in FIELDS:
                v = getattr(b, k, None)
                require((v is None) == (was[k] is None), "batch {}: {} came or went after {}", n,
                        k, when)
                if v is not None:
                    eq(v, was[k], f"{k} of batch {n} after {when}")
            require((None if b.files is None else tuple(b.files)) == was["files"],
                    "files of batch {} changed after {}", n, when)
            if "params" in was:
                eq(b.params.seeding_densities, was["params"], f"densities of batch {n} "
                   f"after {when}")


def scribble(b):
    """Overwrite the arrays of a delivered batch, as their owner may."""
    for k in FIELDS:
        v = getattr(b, k, None)
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 77 if v.dtype != bool else ~v


def same(a, b, what):
    for k in (*FIELDS, "files"):
        require((a[k] is None) == (b[k] is None), "{}: {} only in one run", what, k)
        if k == "files":
            require(a[k] == b[k], "{}: files {} and {}", what, a[k], b[k])
        elif a[k] is not None:
            eq(b[k], a[k], f"{what}: {k}")


# -- schedulers --------------------------------------------------------------
def run_scheduler(case, d, files, spoil):
    """The batches of the operations; with `spoil` each is overwritten once it was seen."""
    from synthpix.scheduler import EpisodicFlowFieldScheduler, PrefetchingFlowFieldScheduler

    import jax

    given = list(files)
    s = make_scheduler(case["kind"], given, case["hw"], loop=case["loop"],
                       randomize=case["randomize"], key=jax.random.PRNGKey(case["seed"]))
    size, L = case["size"], case["episode"]
    if L:
        s = EpisodicFlowFieldScheduler(s, batch_size=size, episode_length=L,
                                       key=jax.random.PRNGKey(case["seed"] + 1))
    if case["buffer"]:
        s = PrefetchingFlowFieldScheduler(s, batch_size=size, buffer_size=case["buffer"],
                                          startup_timeout=200.0, steady_state_timeout=200.0)
    keeper, log, t, ended = Keeper(), [], 0, False
    try:
        for op in case["ops"]:
            if op == "reset":
                s.reset()
                t, ended = 0, False
            elif ended:
                continue
            else:
                if L and t == L:
                    s.next_episode()
                    t = 0
                try:
                    b = s.get_batch(size)
                except StopIteration:
                    log.append(None)
                    ended = True
                    continue
                t += 1
                if spoil:
                    k = Keeper()
                    log.append(k.keep(b))
                    scribble(b)
                else:
                    log.append(keeper.keep(b))
            if not spoil:
                keeper.verify(op)
        require(given == files, "the list of files given was altered: {} instead of {}",
                [os.path.basename(p) for p in given], [os.path.basename(p) for p in files])
    finally:
        if case["buffer"]:
            s.shutdown()
    if not spoil:
        keeper.verify("the end")
    return log


def check_schedulers(case):
    with scratch() as d:
        if case["episode"]:
            images = case["kind"] == "mat_img"
            write_sequences(d, case["dirs"], case["episode"] + 2, tuple(case["hw"]), images)
            files = [d]
        else:
            files, _ = build(case, d)
        before = fingerprints(d)
        kept = run_scheduler(case, d, files, False)
        spoiled = run_scheduler(case, d, files, True)
        require(fingerprints(d) == before, "files of the dataset were altered by reading it")
        require(len(kept) == len(spoiled), "{} batches, {} when delivered ones are overwritten",
                len(kept), len(spoiled))
        for n, (a, b) in enumerate(zip(kept, spoiled)):
            require((a is None) == (b is None), "batch {}: the end moves", n)
            if a is not None:
                same(a, b, f"batch {n} when delivered batches are overwritten")
    return {"nontrivial": sum(a is not None for a in kept) > 1,
            "labels": [case["kind"], "prefetched" if case["buffer"] else "direct",
                       "episodes" if case["episode"] else "plain"]}


@st.composite
def scheduler_cases(draw, tier="quick"):
    kind = draw(st.sampled_from(KINDS))
    L = draw(st.sampled_from([0, 0, 1, 3])) if kind.startswith("mat") else 0
    nf = draw(st.integers(1, 4))
    ops = draw(st.lists(st.sampled_from(["get", "get", "get", "reset"]), min_size=3, max_size=10))
    loop, randomize = draw(st.booleans()), draw(st.booleans())
    buffer = draw(st.sampled_from([0, 0, 1, 3]))
    if buffer and (L or (loop and randomize)):
        # what follows a reset depends on how far the producer has read (see C09)
        ops = ["get"] * len(ops)
    return {
        "kind": kind, "hw": [draw(st.integers(2, 6)), draw(st.integers(2, 6))],
        "files": [draw(st.integers(1, 4)) if kind == "h5" else 1 for _ in range(nf)],
        "dirs": draw(st.integers(1, 3)), "episode": L,
        "listing": draw(st.sampled_from(["list", "dir"])),
        "order": draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=6)),
        "first": draw(st.integers(1, 12)), "size": draw(st.sampled_from([1, 1, 2, 3])),
        "loop": loop, "randomize": randomize, "buffer": buffer, "ops": ops,
        "seed": draw(st.integers(0, 2**20)),
    }


# -- samplers ----------------------------------------------------------------
def check_samplers(case):
    g = case["geom"]
    r = rng(case["seed"])
    flows = r.uniform(-0.1, 0.1, (case["n"], *g["grid"], 2)).astype(np.float32)
    H, W = g["hw"]
    mask = (r.random((H, W)) < 0.7).astype(np.float32) if case["mask"] else None
    hist = None
    if case["histogram"]:
        hist = r.multinomial(H * W, np.ones(256) / 256).astype(np.float32)
    import jax.numpy as jnp

    given = [None if a is None else a.copy() for a in (flows, mask, hist)]
    s, sched = make_sampler(
        g, flows, case["batch"], seed=2 * case["seed"], k=case["k"], bpfb=case["bpfb"], loop=True,
        mask=None if mask is None else jnp.asarray(mask),
        histogram=None if hist is None else jnp.asarray(hist))
    keeper = Keeper()
    for op in case["ops"]:
        if op == "reset":
            s.reset()
        else:
            keeper.keep(next(s))
        keeper.verify(op)
    for a, b, what in zip(given, (flows, mask, hist), ("flows", "mask", "histogram")):
        if a is not None:
            eq(b, a, f"the {what} given to the sampler, afterwards")
    return {"nontrivial": len(keeper.items) > 2,
            "labels": ["mask" if case["mask"] else "no mask", f"bpfb {case['bpfb']}"]}


@st.composite
def sampler_cases(draw, tier="quick"):
    n = draw(st.integers(1, 3))
    k = draw(st.integers(1, n))
    return {"geom": draw(geometries(min_grid=12, max_grid=20, lo=16, hi=32, speed=2.0)), "n": n,
            "k": k, "batch": draw(st.integers(k, 4)), "bpfb": draw(st.integers(1, 3)),
            "mask": draw(st.booleans()), "histogram": draw(st.booleans()),
            "ops": draw(st.lists(st.sampled_from(["get", "get", "get", "reset"]), min_size=3,
                                 max_size=7)), "seed": draw(st.integers(0, 10**6))}


# -- make --------------------------------------------------------------------
def check_make(case):
    """make() and the batches leave the configuration and the files as they were."""
    from .c21 import make

    c = case["pipe"]
    with scratch() as d:
        entries, root = write_files(c, d)
        aux_files(c, d)
        files = {"folder": [root], "text": root}.get(case["dir"])
        files = files or sorted({p for p, _ in entries})
        cfg = config(c, d, files)
        was, before = copy.deepcopy(cfg), fingerprints(d)
        keeper = Keeper()
        s = make(cfg)
        try:
            for _ in range(case["steps"]):
                try:
                    keeper.keep(next(s))
                except StopIteration:
                    s.reset()
                keeper.verify("another batch")
        finally:
            s.shutdown()
        keeper.verify("shutdown")
        require(cfg["file_list"] == was["file_list"], "the file list of the configuration given "
                "was altered: {} instead of {}", cfg["file_list"], was["file_list"])
        for k, v in was.items():
            require(k in cfg and cfg[k] == v, "{} of the configuration given was altered: {} "
                    "instead of {}", k, cfg.get(k), v)
        require(fingerprints(d) == before, "files of the dataset were altered")
    return {"nontrivial": len(keeper.items) > 1,
            "labels": [c["fmt"], "prefetched" if c["buffer"] else "direct"]}


@st.composite
def make_cases(draw, tier="quick"):
    c = draw(pipelines())
    c["randomize"] = draw(st.booleans())
    return {"pipe": c, "dir": draw(st.sampled_from(["list", "folder", "text"])), "steps": draw(st.integers(2, 5))}


def check_real(case):
    """The same for samplers of stored images."""
    from .c21 import make

    hw, L = tuple(case["hw"]), case["episode"]
    with scratch() as d:
        write_sequences(d, case["dirs"], max(L, 1) + 1, hw, True)
        files = [d]
        if case["listing"] == "list":
            files = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)
        cfg = {"scheduler_class": ".mat", "include_images": True, "batch_size": case["batch"],
               "flow_fields_per_batch": 1, "file_list": files, "loop": case["loop"],
               "randomize": case["randomize"], "image_shape": [hw[0] + case["grow"], hw[1]],
               "buffer_size": case["buffer"], "episode_length": L, "seed": case["seed"]}
        was, before = copy.deepcopy(cfg), fingerprints(d)
        keeper, t = Keeper(), 0
        s = make(cfg)
        try:
            for op in case["ops"]:
                if op == "reset" or L and t == L:
                    s.reset() if op == "reset" else s.next_episode()
                    t = 0
                else:
                    try:
                        keeper.keep(next(s))
                        t += 1
                    except StopIteration:
                        s.reset()
                        t = 0
                keeper.verify(op)
        finally:
            s.shutdown()
        keeper.verify("shutdown")
        require(cfg == was, "the configuration given was altered: {} instead of {}", cfg, was)
        require(fingerprints(d) == before, "files of the dataset were altered")
    return {"nontrivial": len(keeper.items) > 1,
            "labels": ["episodes" if L else "plain",
                       "prefetched" if case["buffer"] else "direct"]}


@st.composite
def real_cases(draw, tier="quick"):
    return {"hw": [draw(st.integers(2, 6)), draw(st.integers(2, 6))],
            "grow": draw(st.sampled_from([0, 0, 1, 3])), "dirs": draw(st.integers(1, 3)),
            "episode": draw(st.sampled_from([0, 0, 1, 3])),
            "listing": draw(st.sampled_from(["list", "dir"])),
            "batch": draw(st.integers(1, 3)), "loop": draw(st.booleans()),
            "randomize": draw(st.booleans()), "buffer": draw(st.sampled_from([0, 0, 1, 3])),
            "ops": draw(st.lists(st.sampled_from(["get", "get", "get", "get", "reset"]),
                                 min_size=3, max_size=8)),
            "seed": draw(st.integers(0, 10**6))}


PROP = Prop("C30", [
    Sub("schedulers", lambda tier: scheduler_cases(tier), check_schedulers, 320, 8000,
        "all formats, direct, in episodes and prefetched: after every call the batches delivered "
        "before are compared with copies of them; a second run overwrites each batch delivered "
        "and must deliver the same; the list given and the files (by hash) stay the same; "
        "non-trivial: more than one batch"),
    Sub("samplers", lambda tier: sampler_cases(tier), check_samplers, 24, 800,
        "batches of synthetic samplers after later batches and resets; the flows, mask and "
        "histogram given; non-trivial: more than two batches"),
    Sub("make", lambda tier: make_cases(tier), check_make, 16, 600,
        "pipelines of make(): the configuration, its list and the files afterwards; "
        "non-trivial: more than one batch"),
    Sub("real", lambda tier: real_cases(tier), check_real, 64, 2000,
        "the same for stored images, shuffled, in episodes, prefetched, with resets; "
        "non-trivial: more than one batch"),
])
