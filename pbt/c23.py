"""C23: each scheduler batch is used for the configured number of batches."""

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub, Violation
from .synth import make_sampler
from .util import MemScheduler, close, eq, require


def check(case):
    g = {"hw": [16, 20], "res": case["res"], "dt": 0.5, "vb": [2.0, 2.0, 2.0, 2.0],
         "grid": [6, 7], "lead": [1.0, 1.0], "trail": [1.0, 1.0]}
    n, k, batch, m = case["n"], case["k"], case["batch"], case["bpfb"]
    unit = case["res"] * 0.5
    ids = np.arange(1, n + 1) / n  # the displacement in pixels tells which flow it is
    flows = np.stack([np.broadcast_to(np.array([v, -v]) / unit, (6, 7, 2)) for v in ids])
    sched = MemScheduler(flows.astype(np.float32), files=[f"/data/{i}.npy" for i in range(n)],
                         loop=case["loop"])
    s, _ = make_sampler(g, None, batch, seed=5, sched=sched, k=k, bpfb=m, units=case["units"])
    scale = 1.0 if case["units"] == "pixels" else 1 / unit
    pos, current, used, calls = 0, None, 0, 0
    base = len(sched.calls)
    require(iter(s) is s, "iter(sampler) is another object")
    delivered = 0
    for step, op in enumerate(case["ops"]):
        what = f"step {step} ({op})"
        if op == "reset":
            s.reset()
            pos, current, used = 0, None, 0
            continue
        if op == "reset_keep":
            s.reset(scheduler_reset=False)
            current, used = None, 0
            continue
        end = False
        if current is None or used >= m:
            calls += 1
            idx = []
            for _ in range(k):
                if pos >= n and case["loop"]:
                    pos = 0
                if pos < n:
                    idx.append(pos)
                    pos += 1
            end = not idx
            if not end:
                current, used = idx, 0
        try:
            b = next(s)
        except StopIteration:
            require(end, "{}: iteration ends with {} of {} flows used", what, pos, n)
            require(len(sched.calls) - base == calls, "{}: {} scheduler batches instead of {}",
                    what, len(sched.calls) - base, calls)
            continue
        require(not end, "{}: a batch after the last flow", what)
        used += 1
        delivered += 1
        require(len(sched.calls) - base == calls, "{}: {} scheduler batches drawn instead of {}",
                what, len(sched.calls) - base, calls)
        require(sched.calls[-1] == k, "{}: {} flows drawn instead of {}", what, sched.calls[-1], k)
        val = np.array([ids[i] for i in current] + [0.0] * (k - len(current)))
        want = val[np.arange(batch) % k][:, None, None, None] * np.array([1.0, -1.0]) * scale
        fl = np.asarray(b.flow_fields)
        require(fl.shape[0] == batch and np.asarray(b.images1).shape == (batch, 16, 20)
                and np.asarray(b.images2).shape == (batch, 16, 20), "{}: shapes {} {} {}", what,
                fl.shape, b.images1.shape, b.images2.shape)
        close(fl, np.broadcast_to(want, fl.shape), 1e-4 * (1 + scale), f"{what}: flows")
        eq(b.mask, np.arange(k) < len(current), f"{what}: mask")
        files = tuple(f"/data/{i}.npy" for i in current) + ("",) * (k - len(current))
        require(tuple(b.files) == files, "{}: files {} instead of {}", what, b.files, files)
        for name in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges"):
            a = np.asarray(getattr(b.params, name))
            require(a.shape[0] == batch, "{}: {} of shape {}", what, name, a.shape)
        require(b.done is None, "{}: done without episodes", what)
    s.shutdown()
    require(sched.shut >= 1, "shutdown of the sampler leaves the scheduler running")
    return {"nontrivial": delivered >= 2, "labels": ["uneven" if n % k else "even",
                                                     "loop" if case["loop"] else "once"]}


@st.composite
def cases(draw, tier="quick"):
    big = draw(st.sampled_from([False] * 7 + [True]))  # more than a handful
    k = draw(st.integers(1, 10 if big else 4))
    n = draw(st.integers(1, 24 if big else 7))
    m = draw(st.integers(1, 7 if big else 3))
    if draw(st.sampled_from([False] * 9 + [True])):  # many batches of the same flows
        n, m = draw(st.integers(1, 2 * k)), draw(st.integers(8, 40))
    ops = draw(st.lists(st.sampled_from(["next"] * 12 + ["reset", "reset_keep"]), min_size=4,
                        max_size=30))
    if draw(st.booleans()):  # run over the end
        ops = ["next"] * (m * (-(-n // k)) + 2) + ops[:10]
    return {"n": n, "k": k, "batch": draw(st.integers(k, 12 if big else 6)), "bpfb": m, "ops": ops,
            "loop": draw(st.sampled_from([False, False, True])),
            "res": draw(st.sampled_from([1.0, 4.0])),
            "units": draw(st.sampled_from(["pixels", "measure units per second"]))}


PROP = Prop("C23", [
    Sub("reuse", lambda tier: cases(tier), check, 64, 2400,
        "sequences of next and reset on samplers with varying numbers of flows, flows per "
        "batch and batches per flow, over the end of the data, against a counting model: calls "
        "of the scheduler, flow of every image, mask, files and end; non-trivial: at least two "
        "batches"),
])
