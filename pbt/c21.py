"""C21: make() builds the pipeline that the configuration describes."""

import contextlib
import io
import os
import time

import numpy as np
from hypothesis import strategies as st

from .c18 import write_sequences
from .c24 import dump
from .core import Prop, Sub
from .pipe import (aux_files, base_scheduler, by_hand, close_timeouts, config, pipelines, read,
                   same_streams, write_files)
from .util import eq, raises, require, scratch


def make(cfg, d=None, form="dict"):
    """make() from a dictionary, or from a YAML file that holds it."""
    import synthpix

    if form == "yaml":
        p = os.path.join(d, "config.yaml")
        dump(cfg, p)
        cfg = p
    with contextlib.redirect_stdout(io.StringIO()):
        return close_timeouts(synthpix.make(cfg))


def wrappers(s):
    """Names of the schedulers of a sampler, from the outside in."""
    out, x = [], s.scheduler
    while x is not None:
        out.append(type(x).__name__)
        x = getattr(x, "scheduler", None)
    return out


BASE = {".h5": "HDF5FlowFieldScheduler", ".npy": "NumpyFlowFieldScheduler",
        ".mat": "MATFlowFieldScheduler"}


def listed(c, entries, root):
    """The file list in one of its forms, and the files in the order to be read."""
    files = sorted({p for p, _ in entries})
    if c["listing"] == "dir":
        return [root], files
    if c["listing"] == "path":
        return root, files
    if c["listing"] == "file":
        return files[0], files[:1]
    back = files[::-1]
    return back, back


def check_synthetic(case):
    c = case["pipe"]
    with scratch() as d:
        entries, root = write_files(c, d)
        mask, hist = aux_files(c, d)
        given, files = listed(c, entries, root)
        cfg = config(c, d, given)
        for k in case["omit"]:
            cfg.pop(k, None)
        loop = True if "loop" in case["omit"] else c["loop"]
        if "seed" in case["omit"]:
            c = dict(c, seed=0)
        if case["again"]:  # the configuration can be used again
            make(cfg, d, case["form"]).shutdown()
        s = make(cfg, d, case["form"])
        try:
            require(type(s).__name__ == "SyntheticImageSampler", "a {}", type(s).__name__)
            want = (["PrefetchingFlowFieldScheduler"] if c["buffer"] else []) + [BASE[c["fmt"]]]
            require(wrappers(s) == want, "schedulers {} instead of {}", wrappers(s), want)
            got = read(s, case["steps"])
            ref = by_hand(c, base_scheduler(c, files, loop=loop), mask, hist)
            same_streams(got, read(ref, case["steps"]), "make() against the same by hand")
        finally:
            s.shutdown()
    return {"nontrivial": sum(b is not None for b in got) > 1,
            "labels": [c["fmt"], "prefetched" if c["buffer"] else "direct", c["listing"],
                       case["form"]]}


@st.composite
def synthetic_cases(draw, tier="quick"):
    c = draw(pipelines())
    c["randomize"] = False
    c["listing"] = draw(st.sampled_from(["dir", "path", "file", "back"]))
    if c["fmt"] == ".npy" and c["listing"] == "back" and c["n"] > 1:
        c["n"] = max(2, c["n"])
    omit = draw(st.sampled_from([[], [], ["loop"], ["randomize", "device_ids"],
                                 ["seed"], ["seed", "loop"]]))
    steps = draw(st.integers(2, 5))
    if "loop" in omit or draw(st.booleans()):  # beyond the end of the flows
        flows = c["n"] * (3 if c["fmt"] == ".h5" else 1)
        steps = min(14, max(steps, -(-flows // c["k"]) * c["bpfb"] + 1))
    return {"pipe": c, "steps": steps,
            "form": draw(st.sampled_from(["dict", "yaml"])),
            "omit": omit,
            "again": draw(st.booleans())}


def check_shuffled(case):
    """Shuffling and episodes: which files, in which order, at what length."""
    from synthpix.scheduler.protocol import EpisodeEnd

    c = case["pipe"]
    L, k = c["episode"], c["k"]
    with scratch() as d:
        entries, root = write_files(c, d)
        aux_files(c, d)
        cfg = config(c, d, [root])
        want = (["PrefetchingFlowFieldScheduler"] if c["buffer"] else []) + (
            ["EpisodicFlowFieldScheduler"] if L else []) + [BASE[c["fmt"]]]
        s = make(cfg, d, case["form"])
        try:
            require(wrappers(s) == want, "schedulers {} instead of {}", wrappers(s), want)
            if L:
                seq = {}
                for p, _ in entries:
                    seq.setdefault(os.path.dirname(p), []).append(p)
                for ep in range(2):
                    if ep:
                        raises(EpisodeEnd, lambda: next(s), "a step beyond the episode")
                        s.next_episode()
                    last = None
                    for t in range(L):
                        b = next(s)
                        require(len(b.files) == k, "{} files for {} flows per batch",
                                len(b.files), k)
                        eq(b.done, np.full(c["batch"], t == L - 1), f"step {t} of {L}: done")
                        now = [(os.path.dirname(f), seq[os.path.dirname(f)].index(f))
                               for f in b.files]
                        if last is not None:
                            for (d1, i1), (d2, i2) in zip(last, now):
                                require(d1 == d2 and i2 == i1 + 1, "step {}: {} after {}", t,
                                        now, last)
                        last = now
                done = 2 * L
            else:
                flows = [p for p, _ in entries]
                epoch = []
                n = -(-len(flows) // k) * c["bpfb"]
                got = read(s, n)
                require(None not in got, "the flows end early")
                for b in got[::c["bpfb"]]:
                    require(len(b.files) == k, "{} files for {} flows", len(b.files), k)
                    epoch += [f for f, m in zip(b.files, np.asarray(b.mask)) if m]
                epoch = epoch[:len(flows)]
                require(sorted(epoch) == sorted(flows), "an epoch of {} instead of {}",
                        sorted(map(os.path.basename, epoch)), sorted(map(os.path.basename, flows)))
                done = len(got)
        finally:
            s.shutdown()
    return {"nontrivial": done > 1, "labels": [c["fmt"], "episodes" if L else "shuffled",
                                               "prefetched" if c["buffer"] else "direct"]}


@st.composite
def shuffled_cases(draw, tier="quick"):
    episodes = draw(st.booleans())
    c = draw(pipelines(fmts=(".mat",) if episodes else (".npy", ".h5"), episodes=episodes,
                       plain=True))
    c["randomize"] = True if not episodes else draw(st.booleans())
    if episodes:
        c["n"] = 2 * c["episode"] + draw(st.integers(0, 3))
    else:
        c["n"] = draw(st.integers(2, 7))
        c["fmt"] = draw(st.sampled_from([".npy", ".h5"]))
    return {"pipe": c, "form": draw(st.sampled_from(["dict", "yaml"]))}


@contextlib.contextmanager
def counted(cls):
    """Counts the calls of get_batch of a scheduler class."""
    calls = []
    inherited = cls.get_batch

    def get_batch(self, *a, **k):
        calls.append(1)
        return inherited(self, *a, **k)

    own = cls.__dict__.get("get_batch")
    cls.get_batch = get_batch
    try:
        yield calls
    finally:
        if own is None:
            del cls.get_batch
        else:
            cls.get_batch = own


def check_ahead(case):
    """The pipeline reads ahead as many batches as the configuration says."""
    from synthpix.scheduler import MATFlowFieldScheduler

    n, buffer = case["batch"], case["buffer"]
    with scratch() as d:
        write_sequences(d, 1, 3, (4, 4), True)
        cfg = {"scheduler_class": ".mat", "include_images": True, "batch_size": n,
               "flow_fields_per_batch": 1, "file_list": [d], "loop": True,
               "image_shape": [4, 4], "buffer_size": buffer}
        with counted(MATFlowFieldScheduler) as calls:
            s = make(cfg, d, case["form"])
            try:
                for got in range(1, case["steps"] + 1):
                    next(s)
                    until = time.monotonic() + 60
                    while len(calls) < got + buffer and time.monotonic() < until:
                        time.sleep(0.002)
                    time.sleep(case["wait"])
                    ahead = len(calls) - got
                    require(buffer <= ahead <= buffer + 1, "{} batches read ahead of {} "
                            "delivered ones with buffer_size {}", ahead, got, buffer)
            finally:
                s.shutdown()
    return {"nontrivial": buffer > 0, "labels": [f"buffer {min(buffer, 5)}"]}


@st.composite
def ahead_cases(draw, tier="quick"):
    return {"batch": draw(st.integers(1, 4)), "buffer": draw(st.integers(1, 9)),
            "steps": draw(st.integers(1, 4)), "wait": draw(st.sampled_from([0.0, 0.0, 0.03])),
            "form": draw(st.sampled_from(["dict", "yaml"]))}


def check_real(case):
    """Pipelines of stored images, against the same by hand."""
    from synthpix.sampler import RealImageSampler
    from synthpix.scheduler import MATFlowFieldScheduler

    n = case["batch"]
    hw = tuple(case["hw"]) if case["hw"] else (256, 256)
    src = tuple(case["src"])
    with scratch() as d:
        data = write_sequences(d, case["dirs"], case["frames"], src, True)
        cfg = {"scheduler_class": ".mat", "include_images": True, "batch_size": n,
               "flow_fields_per_batch": case["k"], "file_list": [d], "loop": case["loop"]}
        loop = case["loop"]
        if loop is None:  # not given
            cfg.pop("loop")
            loop = True
        if case["hw"]:
            cfg["image_shape"] = list(hw)
        if case["buffer"]:
            cfg["buffer_size"] = case["buffer"]
        if case["seed"] is not None:
            cfg["seed"] = case["seed"]
        L = case["episode"]
        if L:
            cfg["episode_length"] = L
        if case["bpfb"]:
            cfg["batches_per_flow_batch"] = case["bpfb"]
        make(cfg, d, case["form"]).shutdown()  # the configuration can be used again
        s = make(cfg, d, case["form"])
        files = sorted(data)
        try:
            require(type(s).__name__ == "RealImageSampler", "a {}", type(s).__name__)
            want = (["PrefetchingFlowFieldScheduler"] if case["buffer"] else []) + (
                ["EpisodicFlowFieldScheduler"] if L else []) + [BASE[".mat"]]
            require(wrappers(s) == want, "schedulers {} instead of {}", wrappers(s), want)
            if not L:
                ref = RealImageSampler(MATFlowFieldScheduler(
                    files, include_images=True, output_shape=hw, loop=loop), batch_size=n)
                m = len(files) // n + 3
                same_streams(read(s, m), read(ref, m), "make() against the same by hand")
            else:
                last = None
                for t in range(L):
                    b = next(s)
                    require(len(b.files) == n, "{} files in batches of {}", len(b.files), n)
                    eq(b.done, np.full(n, t == L - 1), f"step {t}: done")
                    require(b.images1.shape == (n, *hw), "images of shape {}", b.images1.shape)
                    now = [files.index(f) for f in b.files]
                    require(last is None or all(j == i + 1 for i, j in zip(last, now)),
                            "files {} after {}", now, last)
                    last = now
                    for i, f in enumerate(b.files):
                        if hw == src:
                            eq(np.asarray(b.images1)[i], data[f]["I0"].astype(np.float32),
                               f"images1 of {f}")
        finally:
            s.shutdown()
    return {"nontrivial": True, "labels": ["episodes" if L else "plain",
                                           "prefetched" if case["buffer"] else "direct"]}


@st.composite
def real_cases(draw, tier="quick"):
    src = [draw(st.integers(3, 12)), draw(st.integers(3, 12))]
    L = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return {"src": src, "hw": draw(st.sampled_from([src, src, [7, 5], [12, 30], None])),
            "dirs": draw(st.integers(1, 3)), "frames": draw(st.integers(max(1, L), 4)),
            "batch": draw(st.integers(1, 4)), "k": draw(st.integers(1, 4)),
            "loop": draw(st.sampled_from([True, False, None])), "buffer": draw(st.sampled_from([0, 0, 1, 3])),
            "seed": draw(st.sampled_from([None, 0, 5])), "episode": L,
            "bpfb": draw(st.sampled_from([None, 1, 3])),
            "form": draw(st.sampled_from(["dict", "yaml"]))}


MISSING = "missing"
# (key, value, error): the documented refusals
SPOILS = [
    ["scheduler_class", MISSING, "ValueError"], ["scheduler_class", "h5", "ValueError"],
    ["scheduler_class", ".txt", "ValueError"], ["scheduler_class", "", "ValueError"],
    ["batch_size", MISSING, "ValueError"], ["batch_size", 0, "ValueError"],
    ["batch_size", -3, "ValueError"], ["batch_size", 2.5, "ValueError"],
    ["batch_size", "2", "ValueError"], ["batch_size", None, "ValueError"],
    ["include_images", 1, "TypeError"], ["include_images", "yes", "TypeError"],
    ["include_images", None, "TypeError"], ["buffer_size", -1, "ValueError"],
    ["buffer_size", 1.5, "ValueError"], ["buffer_size", "3", "ValueError"],
    ["episode_length", -1, "ValueError"], ["episode_length", 2.0, "ValueError"],
    ["episode_length", "2", "ValueError"], ["flow_fields_per_batch", MISSING, "ValueError"],
    ["batches_per_flow_batch", MISSING, "ValueError"],
    ["batches_per_flow_batch", 0, "ValueError"], ["batches_per_flow_batch", 1.5, "ValueError"],
    ["flow_fields_per_batch", 99, "ValueError"], ["flow_fields_per_batch", 0, "ValueError"],
    ["mask", 3, "ValueError"], ["mask", "/nowhere/mask.npy", "ValueError"],
    ["mask", "values", "ValueError"],
    ["mask", "one value", "ValueError"], ["mask", "shape", "ValueError"],
    ["histogram", 3, "ValueError"], ["histogram", "/nowhere/hist.npy", "ValueError"],
    ["histogram", "shape", "ValueError"], ["histogram", "sum", "ValueError"],
    ["output_units", "miles", "ValueError"], ["resolution", -1.0, "ValueError"],
    ["velocities_per_pixel", 0, "ValueError"], ["seed", -1, "ValueError"],
    ["p_hide_img1", 1.5, "ValueError"], ["dt", 0, "ValueError"],
    ["image_shape", [0, 4], "ValueError"], ["device_ids", [99], "ValueError"],
    ["flow_field_size", [1.0, 1.0], "ValueError"], ["max_speed_x", "fast", "ValueError"],
    ["max_speed_x", MISSING, "KeyError"], ["min_speed_y", MISSING, "KeyError"],
    ["image_shape", MISSING, "KeyError"], ["dt", MISSING, "KeyError"],
    ["resolution", MISSING, "KeyError"], ["rho_ranges", MISSING, "KeyError"],
    ["output_units", MISSING, "KeyError"], ["noise_uniform", MISSING, "KeyError"],
]
FORMS = [["list", "TypeError"], ["none", "TypeError"], ["number", "TypeError"],
         ["path.yml", "ValueError"], ["absent.yaml", "FileNotFoundError"],
         ["folder.yaml", "ValueError"]]


def check_refuse(case):
    import synthpix

    c = case["pipe"]
    errors = {e.__name__: e for e in (ValueError, TypeError, KeyError, FileNotFoundError)}
    with scratch() as d:
        entries, root = write_files(c, d)
        mask, hist = aux_files(c, d)
        cfg = config(c, d, [root])
        with contextlib.redirect_stdout(io.StringIO()):
            for key, value, err in case["spoils"]:
                bad = dict(cfg)
                if value == MISSING:
                    del bad[key]
                elif key == "mask" and value == "values":
                    np.save(os.path.join(d, "bad.npy"), np.full(c["hw"], 2))
                    bad[key] = os.path.join(d, "bad.npy")
                elif key == "mask" and value == "one value":
                    a = np.ones(c["hw"], np.float32)
                    a[c["hw"][0] // 2, -1] = 0.5
                    np.save(os.path.join(d, "bad.npy"), a)
                    bad[key] = os.path.join(d, "bad.npy")
                elif key == "mask" and value == "shape":
                    np.save(os.path.join(d, "bad.npy"), np.ones((c["hw"][0] + 1, c["hw"][1])))
                    bad[key] = os.path.join(d, "bad.npy")
                elif key == "histogram" and value in ("shape", "sum"):
                    n = 255 if value == "shape" else 256
                    a = np.zeros(n, np.float32)
                    a[3] = c["hw"][0] * c["hw"][1] * (1 if value == "shape" else 2)
                    np.save(os.path.join(d, "bad.npy"), a)
                    bad[key] = os.path.join(d, "bad.npy")
                else:
                    bad[key] = value
                if case["form"] == "yaml":
                    p = os.path.join(d, "bad.yaml")
                    dump(bad, p)
                    bad = p
                raises(errors[err], lambda: synthpix.make(bad), f"{key} = {value!r}")
            for form, err in case["forms"]:
                if form == "list":
                    bad = [cfg]
                elif form == "none":
                    bad = None
                elif form == "number":
                    bad = 3
                else:
                    bad = os.path.join(d, form)
                    if form == "folder.yaml":
                        os.makedirs(bad, exist_ok=True)
                    elif form != "absent.yaml":
                        dump(cfg, bad)
                raises(errors[err], lambda: synthpix.make(bad), f"a configuration {form}")
            if c["fmt"] != ".mat":
                raises(ValueError, lambda: synthpix.make(dict(cfg, include_images=True)),
                       f"images from {c['fmt']} files")
        make(cfg, d, case["form"]).shutdown()  # without any of it
    return {"nontrivial": True, "labels": [s[0] for s in case["spoils"]]}


@st.composite
def refuse_cases(draw, tier="quick"):
    c = draw(pipelines())
    c["fmt"] = draw(st.sampled_from([".npy", ".h5"]))
    c["buffer"] = draw(st.sampled_from([0, 2]))
    return {"pipe": c, "form": draw(st.sampled_from(["dict", "yaml"])),
            "spoils": draw(st.lists(st.sampled_from(SPOILS), min_size=1, max_size=6,
                                    unique_by=lambda s: (s[0], str(s[1])))),
            "forms": draw(st.lists(st.sampled_from(FORMS), max_size=2, unique_by=lambda f: f[0]))}


PROP = Prop("C21", [
    Sub("synthetic", lambda tier: synthetic_cases(tier), check_synthetic, 16, 1000,
        "drawn configurations of all formats, file list forms, buffers and rendering options, as "
        "dictionary or YAML file; every batch equals bit by bit that of the same pipeline put "
        "together from the constructors; non-trivial: several batches", weight=2),
    Sub("shuffled", lambda tier: shuffled_cases(tier), check_shuffled, 16, 600,
        "configurations with shuffling or episodes: the schedulers, whole epochs, runs of "
        "consecutive files of the episode's length and done flags; non-trivial: several batches"),
    Sub("real", lambda tier: real_cases(tier), check_real, 64, 3000,
        "configurations of stored images with and without episodes and prefetching against the "
        "same put together by hand"),
    Sub("ahead", lambda tier: ahead_cases(tier), check_ahead, 24, 400,
        "the number of batches which a pipeline with prefetching has read ahead is that of the "
        "configuration (one more may be in the producer's hands); non-trivial: all"),
    Sub("refuse", lambda tier: refuse_cases(tier), check_refuse, 96, 2000,
        "valid configurations spoiled in one place, each refused with the documented error, and "
        "accepted again without"),
])
