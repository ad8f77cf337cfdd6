"""C12: shuffling permutes each epoch; looping never ends or skips."""

from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .c11 import KINDS, build, make_scheduler
from .core import Prop, Sub
from .util import eq, require, scratch, small_flow


class Model:
    """What may be served next: whole files, each entry of the list once per pass."""

    def __init__(self, files, expected, randomize, loop):
        self.rows = {}
        for r in expected:
            self.rows.setdefault(r[0], [])
            if not any(x is r for x in self.rows[r[0]]):
                self.rows[r[0]].append(r)
        self.order = files
        self.randomize, self.loop = randomize, loop
        self.passes = []
        self.restart()

    def restart(self):
        self.left = Counter(self.order)
        self.current = None  # (path, next slice)
        self.sequence = []

    def at_end(self):
        """No row is left in this pass."""
        return self.current is None and not +self.left

    def take(self, path, what):
        """The row that has to come when it is said to be of `path`."""
        if self.at_end():
            require(self.loop, "{}: a row after the last one", what)
            self.passes.append(tuple(self.sequence))
            self.restart()
        if self.current is None:
            if not self.randomize:
                want = self.order[len(self.sequence)]
                require(path == want, "{}: file {} instead of {}", what, path, want)
            require(self.left[path] > 0, "{}: file {} again in the same pass, before {}", what,
                    path, sorted(+self.left))
            self.left[path] -= 1
            self.sequence.append(path)
            self.current = [path, 0]
        require(path == self.current[0], "{}: file {} before the end of {}", what, path,
                self.current[0])
        row = self.rows[path][self.current[1]]
        self.current[1] += 1
        if self.current[1] == len(self.rows[path]):
            self.current = None
        return row


def check_stream(case):
    import jax

    with scratch() as d:
        files, expected = build(case, d)
        listed = files
        if case["listing"] == "dir":
            listed = sorted({r[0] for r in expected})
        images = case["kind"] in ("npy_img", "mat_img")
        streams = []
        for copy in range(2):
            np.random.seed(copy)
            s = make_scheduler(case["kind"], files, case["hw"], loop=case["loop"],
                               randomize=case["randomize"],
                               key=jax.random.PRNGKey(case["key"]))
            m = Model(listed, expected, case["randomize"], case["loop"])
            stream = []
            for j, op in enumerate(case["ops"]):
                what = f"operation {j} ({op})"
                if op == 0:
                    s.reset()
                    m.restart()
                    continue
                try:
                    b = s.get_batch(op)
                except StopIteration:
                    require(not case["loop"], "{}: the end, but it loops", what)
                    require(m.at_end(), "{}: the end before {}", what, sorted(+m.left))
                    stream.append(None)
                    continue
                mask = np.asarray(b.mask)
                if case["loop"]:
                    require(bool(mask.all()), "{}: a partial batch of an endless stream: {}",
                            what, mask)
                n = int(mask.sum())
                eq(mask, np.arange(op) < n, f"{what}: mask")
                require(n >= 1, "{}: an empty batch", what)
                for k in range(n):
                    w = f"{what}, row {k}"
                    row = m.take(b.files[k], w)
                    eq(b.flow_fields[k], row[1], f"{w}: flow of {row[0]}")
                    if images:
                        eq(b.images1[k], row[2], f"{w}: images1 of {row[0]}")
                        eq(b.images2[k], row[3], f"{w}: images2 of {row[0]}")
                if n < op:
                    require(m.at_end(), "{}: a partial batch before {}", what, sorted(+m.left))
                stream.append(tuple(b.files))
            streams.append(stream)
        require(streams[0] == streams[1], "two schedulers with the same key differ")
    lab = ["loop" if case["loop"] else "once", "shuffled" if case["randomize"] else "ordered"]
    return {"nontrivial": len(expected) >= 2 and len(case["ops"]) >= 3, "labels": lab}


@st.composite
def stream_cases(draw, tier="quick"):
    kind = draw(st.sampled_from(KINDS))
    big = draw(st.sampled_from([False] * 9 + [True]))  # more than a handful
    nf = draw(st.integers(6, 30) if big else st.integers(1, 5))
    if big and draw(st.integers(0, 3)) == 3:
        kind, nf = "npy", draw(st.integers(257, 300))
    loop, randomize = draw(st.sampled_from([(True, False), (True, True), (False, True)]))
    listing = draw(st.sampled_from(["list", "list", "dir"]))
    order = list(range(nf))
    if listing == "list":
        order = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=30 if big else 6))
        if nf > 256:
            order = list(range(nf))
    return {
        "kind": kind, "hw": [draw(st.integers(2, 5)), draw(st.integers(2, 5))],
        "files": [draw(st.integers(1, 20 if big and nf < 12 else 3)) if kind == "h5" else 1 for _ in range(nf)],
        "listing": listing, "order": order, "first": draw(st.integers(1, 8)),
        "loop": loop, "randomize": randomize, "key": draw(st.integers(0, 1000)),
        "ops": draw(st.lists(st.sampled_from([1, 1, 2, 3, 4, 7, 0] + [17, 40, 180] * big), min_size=2, max_size=14)),
        "seed": draw(st.integers(0, 2**20)),
    }


def orders(files, key, epochs, size, loop, kind="npy"):
    """The order of the files in each of several epochs."""
    import jax

    s = make_scheduler(kind, files, (2, 2), loop=loop, randomize=True,
                       key=None if key is None else jax.random.PRNGKey(key))
    out, n = [], len(files)
    for _ in range(epochs):
        got = []
        if loop:
            got = list(s.get_batch(n).files)
        else:
            while True:
                try:
                    got += [f for f in s.get_batch(size).files if f]
                except StopIteration:
                    break
            s.reset()
        require(sorted(got) == sorted(files), "an epoch serves {} instead of {}", got, files)
        out.append([files.index(f) for f in got])
    return np.array(out)


def write_flows(d, n, seed):
    files = []
    for k in range(n):
        p = f"{d}/flow_{k}.npy"
        np.save(p, small_flow(seed + k, (2, 2, 2)))
        files.append(p)
    return files


def check_uniform(case):
    n, epochs = case["n"], case["epochs"]
    with scratch() as d:
        files = write_flows(d, n, 0)
        o = orders(files, case["key"], epochs, case["size"], case["loop"])
        count = np.array([[(o[:, p] == f).sum() for f in range(n)] for p in range(n)])
        sd = np.sqrt(epochs * (1 / n) * (1 - 1 / n))
        require(np.all(np.abs(count - epochs / n) < 6.5 * sd + 1),
                "files are not shuffled evenly over {} epochs; rows: place, columns: file: {}",
                epochs, count.tolist())
        # successive epochs are independent: the same file first twice with chance 1/n
        same = int((o[1:, 0] == o[:-1, 0]).sum())
        require(abs(same - (epochs - 1) / n) < 6.5 * sd + 1,
                "the first file stays first in {} of {} epochs", same, epochs - 1)
    return {"labels": ["loop" if case["loop"] else "reset"]}


@st.composite
def uniform_cases(draw, tier="quick"):
    return {"n": draw(st.integers(2, 5)), "epochs": 120, "key": draw(st.integers(0, 10**6)),
            "size": draw(st.integers(1, 6)), "loop": draw(st.booleans())}


def check_keys(case):
    """Seven files: two orders agree with chance 1/5040."""
    with scratch() as d:
        files = write_flows(d, 7, 0)
        seen = [tuple(map(tuple, orders(files, k, 2, 7, False))) for k in case["keys"]]
        require(len({s[0] for s in seen}) > 1, "different keys: the same order {}", seen[0][0])
        require(len({s[1] for s in seen}) > 1, "different keys: the same 2nd order {}",
                seen[0][1])
        require(any(s[0] != s[1] for s in seen), "every epoch has the order {}", seen[0][0])
    return {"nontrivial": True}


@st.composite
def key_cases(draw, tier="quick"):
    return {"keys": draw(st.lists(st.integers(0, 10**6), min_size=4, max_size=6, unique=True))}


PROP = Prop("C12", [
    Sub("stream", lambda tier: stream_cases(tier), check_stream, 1920, 30000,
        "shuffled and/or looping schedulers of all formats read in batches of varying sizes "
        "with resets in between, over several passes; every row is followed by a model of "
        "passes over whole files; non-trivial: two flows and three operations", weight=2),
    Sub("uniform", lambda tier: uniform_cases(tier), check_uniform, 24, 400,
        "frequency of every file at every place over 120 epochs, and the independence of "
        "successive epochs, within 6.5 sigma"),
    Sub("keys", lambda tier: key_cases(tier), check_keys, 32, 600,
        "orders of seven files over two epochs for 4-6 keys, not all equal"),
])
