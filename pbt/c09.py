"""C09: the seed determines every batch."""

import hashlib
import json
import os
import random
import subprocess
import sys
import time

import numpy as np
from hypothesis import strategies as st

from .core import HarnessError, Prop, Sub, Violation
from .pipe import (arrays, aux_files, base_scheduler, by_hand, close_timeouts, config, pipelines,
                   read, same_streams, write_files)
from .util import require, scratch, write_mat


def make(cfg):
    import contextlib
    import io

    import synthpix

    with contextlib.redirect_stdout(io.StringIO()):
        return close_timeouts(synthpix.make(cfg))


def prepare(c, d):
    entries, root = write_files(c, d)
    aux_files(c, d)
    files = [root] if c.get("listing", "dir") == "dir" else sorted({p for p, _ in entries})
    return files


def disturb(k):
    """Other users of random numbers."""
    import jax

    np.random.seed(k)
    np.random.rand(7)
    random.seed(k + 1)
    random.random()
    jax.random.normal(jax.random.PRNGKey(k), (3,)).block_until_ready()


def check_process(case):
    """Two pipelines of the same configuration in one process, differently used."""
    c = case["pipe"]
    with scratch() as d:
        files = prepare(c, d)
        a = make(config(c, d, files))
        try:
            disturb(1)
            x = read(a, case["steps"], episodes=c["episode"] > 0)
        finally:
            a.shutdown()
        c2 = dict(c, buffer=case["buffer2"])
        b = make(config(c2, d, files))
        try:
            y = []
            for k in range(len(x)):  # with others in between
                disturb(100 + k)
                y += read(b, 1, episodes=c["episode"] > 0)
            same_streams(x, y, f"two pipelines of the same seed (buffers {c['buffer']} and "
                               f"{case['buffer2']})")
        finally:
            b.shutdown()
    return {"nontrivial": len(x) > 1 and x[1] is not None, "labels": [
        "episodes" if c["episode"] else "plain", "prefetched" if case["buffer2"] else "direct",
        "shuffled" if c["randomize"] else "ordered"]}


@st.composite
def process_cases(draw, tier="quick"):
    episodes = draw(st.booleans())
    c = draw(pipelines(fmts=(".mat",) if episodes else (".npy", ".h5"), episodes=episodes))
    if episodes:
        c["n"] = 2 * c["episode"] + draw(st.integers(0, 3))
    c["listing"] = draw(st.sampled_from(["dir", "files"]))
    c["histogram"] = False
    return {"pipe": c, "steps": draw(st.integers(2, 5)),
            "buffer2": draw(st.sampled_from([0, 1, 4]))}


def check_replay(case):
    """reset() replays the sequence; the schedulers here are not shuffled."""
    c = case["pipe"]
    with scratch() as d:
        files = prepare(c, d)
        s = make(config(c, d, files))
        try:
            x = read(s, case["steps"])
            if x[-1] is None:
                s.reset()
            for k, n in enumerate(case["rounds"]):
                if case["apart"]:
                    s.scheduler.reset()
                s.reset(scheduler_reset=not case["apart"])
                disturb(k)
                y = read(s, min(n, len(x)))
                same_streams(x[:len(y)], y, f"after reset {k}")
        finally:
            s.shutdown()
    return {"nontrivial": len(x) > 1, "labels": ["prefetched" if c["buffer"] else "direct"]}


@st.composite
def replay_cases(draw, tier="quick"):
    c = draw(pipelines(fmts=(".npy", ".h5")))
    c["randomize"] = False
    c["histogram"] = False
    return {"pipe": c, "steps": draw(st.integers(2, 5)),
            "apart": draw(st.booleans()), "rounds": draw(st.lists(st.integers(1, 5), min_size=1, max_size=3))}


def digest(batches):
    out = []
    for b in batches:
        if b is None:
            out.append("end")
            continue
        h = {n: hashlib.sha1(a.tobytes()).hexdigest()[:12] + str(a.shape)
             for n, a in arrays(b).items()
             if a is not None and (n != "done" or a.any())}
        h["files"] = list(b.files)
        out.append(h)
    return out


def child_main(path):
    """Run in a process of its own: the streams of the configurations in `path`."""
    job = json.load(open(path))
    disturb(job["disturb"])
    res = []
    for j in job["jobs"]:
        s = make(j["config"])
        try:
            res.append(digest(read(s, j["steps"], episodes=j["episodes"])))
        finally:
            s.shutdown()
        disturb(job["disturb"] + 1)
    json.dump(res, open(path + ".out", "w"))


def check_separate(case):
    """The same in two processes with other hash seeds, random states and buffers."""
    with scratch() as d:
        jobs = []
        for k, c in enumerate(case["pipes"]):
            sub = os.path.join(d, f"p{k}")
            os.makedirs(sub)
            files = prepare(c, sub)
            if c["episode"]:  # many folders: their order must not depend on the process
                for q in range(5):
                    f = os.path.join(sub, "flows", f"more{q}")
                    os.makedirs(f)
                    for t in range(c["episode"]):
                        write_mat(os.path.join(f, f"{t}.mat"),
                                  V=np.full((6, 7, 2), 0.01 * q, np.float32))
            jobs.append((c, sub, files))
        procs = []
        for n, h in enumerate(case["hash"]):
            path = os.path.join(d, f"job{n}.json")
            buffers = [c["buffer"] if n == 0 else case["buffer2"] for c, _, _ in jobs]
            json.dump({"disturb": 10 * n, "jobs": [
                {"config": config(dict(c, buffer=b), sub, files), "steps": case["steps"],
                 "episodes": c["episode"] > 0}
                for b, (c, sub, files) in zip(buffers, jobs)]}, open(path, "w"))
            env = dict(os.environ, PYTHONHASHSEED=str(h))
            procs.append((path, subprocess.Popen(
                [sys.executable, "-c", "import sys; from pbt import quiet; quiet.install(); "
                 "from pbt.c09 import child_main; child_main(sys.argv[1])", path],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        res = []
        try:
            for path, p in procs:
                txt, _ = p.communicate(timeout=200)
                if not os.path.exists(path + ".out"):
                    if "/repo/" in txt:
                        raise Violation("a pipeline fails in a process of its own: "
                                        + txt[-1500:])
                    raise HarnessError(txt[-2000:])
                res.append(json.load(open(path + ".out")))
        finally:
            for _, p in procs:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        for k, (x, y) in enumerate(zip(*res)):
            require(len(x) == len(y), "pipeline {}: {} batches and {}", k, len(x), len(y))
            for i, (u, v) in enumerate(zip(x, y)):
                require(u == v, "pipeline {}, batch {} differs between two processes: {} and {}",
                        k, i, u, v)
    return {"nontrivial": True, "labels": [f"{len(jobs)} pipelines"]}


@st.composite
def separate_cases(draw, tier="quick"):
    pipes = []
    for episodes in (True, False):
        c = draw(pipelines(fmts=(".mat",) if episodes else (".npy", ".h5"), episodes=episodes))
        if episodes:
            c["n"] = 2 * c["episode"] + draw(st.integers(0, 3))
        c["histogram"] = False
        c["listing"] = "dir"
        pipes.append(c)
    return {"pipes": pipes, "steps": draw(st.integers(2, 4)), "buffer2":
            draw(st.sampled_from([0, 2])),
            "hash": draw(st.lists(st.integers(1, 1000), min_size=2, max_size=2, unique=True))}


class Counting:
    """A scheduler that passes everything on and counts the batches taken from it."""

    def __init__(self, inner):
        self.inner, self.taken = inner, 0
        if hasattr(inner, "episode_length"):
            self.episode_length = inner.episode_length
            self.next_episode, self.steps_remaining = inner.next_episode, inner.steps_remaining

    @property
    def file_list(self):
        return self.inner.file_list

    @file_list.setter
    def file_list(self, value):
        self.inner.file_list = value

    def reset(self):
        self.inner.reset()

    def get_flow_fields_shape(self):
        return self.inner.get_flow_fields_shape()

    def get_batch(self, batch_size):
        b = self.inner.get_batch(batch_size)
        self.taken += 1
        return b


def check_readahead(case):
    """A reset while a shuffled, looping scheduler is prefetched, with two buffer sizes."""
    import jax

    from synthpix.scheduler import NumpyFlowFieldScheduler, PrefetchingFlowFieldScheduler

    with scratch() as d:
        for i in range(case["n"]):
            np.save(os.path.join(d, f"flow_{i + 1}.npy"), np.full((2, 2, 2), i, np.float32))
        orders = []
        for buffer in case["buffers"]:
            inner = Counting(NumpyFlowFieldScheduler(
                [d], randomize=True, loop=True, key=jax.random.PRNGKey(case["seed"])))
            s = PrefetchingFlowFieldScheduler(inner, batch_size=1, buffer_size=buffer,
                                              startup_timeout=200.0, steady_state_timeout=200.0)
            try:
                got = [s.get_batch(1).files[0] for _ in range(case["before"])]
                # the worker reads on until the queue is full and it holds one more batch
                deadline = time.monotonic() + 30
                while inner.taken < case["before"] + buffer + 1:
                    if time.monotonic() > deadline:
                        break
                    time.sleep(0.005)
                s.reset()
                got += [s.get_batch(1).files[0] for _ in range(case["n"])]
            finally:
                s.shutdown()
            orders.append([os.path.basename(f) for f in got])
        a, b = orders
        k = case["before"]
        require(a[:k] == b[:k], "orders {} and {} with buffers of {}", a[:k], b[:k],
                case["buffers"])
        require(a[k:] == b[k:], "after a reset a prefetched shuffled scheduler goes on with {} "
                "or {}, depending on how far it had read ahead", a[k:], b[k:])
    return {"nontrivial": True, "labels": ["same order"]}


@st.composite
def readahead_cases(draw, tier="quick"):
    n = draw(st.integers(4, 6))
    return {"n": n, "buffers": [1, draw(st.integers(n + 1, 3 * n))],
            "before": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6))}


PROP = Prop("C09", [
    Sub("process", lambda tier: process_cases(tier), check_process, 16, 800,
        "two pipelines built by make from the same drawn configuration (formats, shuffling, "
        "episodes, all rendering options), with other buffer sizes and with other random "
        "generators used in between; every field is equal bit by bit; non-trivial: several "
        "batches", weight=2),
    Sub("replay", lambda tier: replay_cases(tier), check_replay, 12, 600,
        "drawn pipelines read, reset and read again, several times; non-trivial: several "
        "batches"),
    Sub("separate", lambda tier: separate_cases(tier), check_separate, 4, 160,
        "two pipelines, one of episodes over several folders, in two processes with different "
        "hash seeds, random states and buffer sizes", max_shards=4),
    Sub("readahead", lambda tier: readahead_cases(tier), check_readahead, 16, 160,
        "a prefetched, shuffled, looping scheduler is reset after its buffer has filled, with "
        "two buffer sizes, and must go on in the same order (known finding: it does not)",
        max_shards=2),
])
