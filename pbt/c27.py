"""C27: several devices."""

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .synth import make_sampler
from .util import MemScheduler, close, eq, require

AMP, DIAM = 40.0, 2.0


def moves(case):
    """Distinct displacements of whole pixels, one of each flow."""
    v = case["max"]
    every = [(x, y) for x in range(-v, v + 1) for y in range(-v, v + 1)]
    r = np.random.default_rng(case["data"])
    return [every[i] for i in r.choice(len(every), case["n"], replace=False)]


def build(case, devices, **kw):
    v = case["max"]
    g = {"hw": case["hw"], "res": case["res"], "dt": case["dt"], "vb": [float(v)] * 4,
         "grid": case["grid"], "lead": [6.0, 6.0], "trail": [2.0, 2.0]}
    unit = case["res"] * case["dt"]
    flows = np.stack([np.broadcast_to(np.array(m, float) / unit, (*case["grid"], 2))
                      for m in moves(case)]).astype(np.float32)
    files = [f"/data/{i}.npy" for i in range(case["n"])]
    sched = MemScheduler(flows, files=files, loop=case["loop"])
    s, _ = make_sampler(g, None, case["batch"], seed=case["seed"], sched=sched, k=case["k"],
                        bpfb=case["bpfb"], device_ids=devices, units=case["units"],
                        seeding_density_range=tuple(case["density"]),
                        diameter_ranges=[(DIAM, DIAM)], intensity_ranges=[(AMP, AMP)],
                        rho_ranges=[(0.0, 0.0)], **kw)
    return s


def stream(s, n):
    out = []
    for _ in range(n):
        try:
            b = next(s)
        except StopIteration:
            break
        d = {f: np.asarray(getattr(b, f)) for f in ("images1", "images2", "flow_fields", "mask")}
        d["density"] = np.asarray(b.params.seeding_densities)
        for f in ("diameter_ranges", "intensity_ranges", "rho_ranges"):
            d[f] = np.asarray(getattr(b.params, f))
        d["files"] = tuple(b.files)
        out.append(d)
    return out


def shift_error(a, b, m, edge):
    """How far b is from a moved by m = (x, y), away from the border."""
    h, w = a.shape
    x, y = m
    c = edge
    core = b[c:h - c, c:w - c]
    return float(np.abs(core - a[c - y:h - c - y, c - x:w - c - x]).max())


def check(case):
    devices = case["devices"]
    B, k, n = case["batch"], case["k"], case["n"]
    D = len(devices)
    size = -(-B // D) * D
    unit = case["res"] * case["dt"]
    scale = 1.0 if case["units"] == "pixels" else 1 / unit
    ms = moves(case)
    s = build(case, devices)
    require(s.batch_size == size, "batch_size {} for {} on {} devices", s.batch_size, B, D)
    total = case["steps"]
    got = stream(s, total)
    per = -(-n // k)  # scheduler batches of an epoch
    want = total if case["loop"] else min(total, per * case["bpfb"])
    require(len(got) == want, "{} batches instead of {}", len(got), want)
    h, w = case["hw"]
    full = 0
    for j, b in enumerate(got):
        what = f"batch {j} on devices {devices}"
        for f in ("images1", "images2"):
            require(b[f].shape == (size, h, w), "{}: {} of shape {}", what, f, b[f].shape)
        for f in ("flow_fields", "density", "diameter_ranges", "intensity_ranges", "rho_ranges"):
            require(b[f].shape[0] == size, "{}: {} of shape {}", what, f, b[f].shape)
        at = (j // case["bpfb"]) * k
        idx = [(at + i) % n for i in range(k)] if case["loop"] else \
            [i for i in range(at, min(at + k, n))]
        eq(b["mask"], np.arange(k) < len(idx), f"{what}: mask")
        require(b["files"] == tuple(f"/data/{i}.npy" for i in idx) + ("",) * (k - len(idx)),
                "{}: files {}", what, b["files"])
        allowed = [ms[i] for i in idx] + [(0, 0)] * (k - len(idx))
        used = []
        for i in range(size):
            f = b["flow_fields"][i] / scale
            m = (int(round(float(f[0, 0, 0]))), int(round(float(f[0, 0, 1]))))
            close(f, np.broadcast_to(np.array(m, float), f.shape), 2e-3, f"{what}, flow {i}")
            require(m in allowed, "{}: flow {} is {}, none of {}", what, i, m, allowed)
            used.append(m)
            e = shift_error(b["images1"][i], b["images2"][i], m, case["max"] + 4)
            require(e <= 0.3, "{}: the images of row {} do not move by its flow {} (error {})",
                    what, i, m, e)
            # the particles are as dense as reported
            area = h * w
            mass = b["images1"][i].sum() / (AMP * 2 * np.pi * (DIAM / 2) ** 2)
            mass2 = b["images2"][i].sum() / (AMP * 2 * np.pi * (DIAM / 2) ** 2)
            exp = float(b["density"][i]) * area
            lo, hi = case["density"]
            require(lo - 1e-6 <= b["density"][i] <= hi + 1e-6, "{}: density {}", what,
                    b["density"][i])
            for q in (mass, mass2):
                require(abs(q - exp) <= 7 * np.sqrt(exp) + 0.25 * exp + 3,
                        "{}: row {} has {:.1f} particles, {:.1f} by its density", what, i, q, exp)
        if len(set(allowed)) == len(allowed) and size % k == 0 and size // D * D == size \
                and k % D == 0 and (size // D) % (k // D) == 0:
            full += 1
            for m in allowed:
                require(used.count(m) == size // k, "{}: flow {} is used {} times, not {}", what,
                        m, used.count(m), size // k)
        for m in set(allowed):
            require(size < k or m in used, "{}: flow {} is not used", what, m)
        for f in ("images1", "images2"):  # every image is another one
            u = {a.tobytes() for a in b[f]}
            require(len(u) == size, "{}: {} of {} {} differ", what, len(u), size, f)
        if j:
            require(not np.array_equal(b["images1"], got[j - 1]["images1"]),
                    "{}: the same images as before", what)
    # the same seed gives the same; resetting replays
    if case["again"] == "reset":
        s.reset()
        other = stream(s, len(got))
    else:
        other = stream(build(case, devices), len(got))
    for j, (a, b) in enumerate(zip(got, other)):
        for f, v in a.items():
            same = v == b[f] if f == "files" else np.array_equal(v, b[f])
            require(same, "{} of batch {} differ after a {}", f, j, case["again"])
    # one device gives the same flows
    one = stream(build(dict(case, batch=size), [0]), min(1, len(got)))
    for j, a in enumerate(one):
        x = sorted(f.tobytes() for f in np.round(a["flow_fields"] / scale).astype(int))
        y = sorted(f.tobytes() for f in np.round(got[j]["flow_fields"] / scale).astype(int))
        if size % k == 0 and (size // D) % max(1, k // D) == 0:
            require(x == y, "batch {}: other flows than on one device", j)
        require(a["images1"].shape == got[j]["images1"].shape, "batch {}: another shape", j)
    return {"nontrivial": D > 1, "labels": [f"{D} devices", "even" if full else "uneven"]}


@st.composite
def cases(draw, tier="quick"):
    D = draw(st.sampled_from([2, 2, 3, 4, 4, 8, 1]))
    devices = draw(st.permutations(range(8)))[:D]
    k = D * draw(st.integers(1, 2 if D < 4 else 1))
    batch = draw(st.integers(k, k + 6)) if draw(st.booleans()) else k * draw(st.integers(1, 2))
    lo = draw(st.sampled_from([0.008, 0.02]))
    return {"devices": list(devices), "k": k, "batch": batch, "n": draw(st.integers(1, 2 * k + 1)),
            "hw": [draw(st.integers(28, 40)), draw(st.integers(28, 40))],
            "grid": [draw(st.integers(8, 16)), draw(st.integers(8, 16))],
            "res": draw(st.sampled_from([1.0, 4.0, 0.5])), "dt": draw(st.sampled_from([1.0, 0.5])),
            "max": 3, "bpfb": draw(st.integers(1, 2)), "loop": draw(st.booleans()),
            "density": [lo, draw(st.sampled_from([lo, 0.05]))], "steps": draw(st.integers(1, 4)),
            "units": draw(st.sampled_from(["pixels", "measure units per second"])),
            "seed": draw(st.integers(0, 2**20)), "data": draw(st.integers(0, 2**20)),
            "again": draw(st.sampled_from(["reset", "new"]))}


PROP = Prop("C27", [
    Sub("devices", lambda tier: cases(tier), check, 24, 1200,
        "samplers on one to eight virtual devices in any order, flows of distinct whole-pixel "
        "displacements, so that each pair of images tells its flow; sizes, pairing, densities, "
        "mask and files, use of every flow, reproducibility, and the flows of one device; "
        "non-trivial: several devices"),
], devices=8, assumptions=("the devices are virtual CPU devices of XLA",
                           "flows per batch are a multiple of the number of devices"))
