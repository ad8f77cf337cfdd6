"""C10: images, batches and seeds get different randomness."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub, Violation
from .synth import find_particles, geometries, make_sampler
from .util import require, rng


def overlap(a, b):
    """Share of the isolated particles of `a` that are where `b` has one."""
    if len(a) == 0 or len(b) == 0:
        return 0.0
    d = np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])
    return float((d.min(1) < 0.05).mean())


def check(case):
    g = case["geom"]
    k, batch = case["k"], case["batch"]
    vb = g["vb"]
    r = rng(case["fseed"])
    # the same slow flow for all, so that only the randomness can make a difference
    flow = np.zeros((*g["grid"], 2))
    flows = np.stack([flow] * k)
    noise = case["noise"]
    runs = {}
    for seed in case["seeds"]:
        s, _ = make_sampler(g, flows, batch, seed=seed, loop=True, bpfb=case["bpfb"],
                            seeding_density_range=(0.004, 0.006), noise_uniform=noise)
        ims, dens = [], []
        for _ in range(case["batches"]):
            b = next(s)
            ims += [(np.asarray(b.images1[i]), np.asarray(b.images2[i])) for i in range(batch)]
            dens += list(np.asarray(b.params.seeding_densities))
        runs[seed] = (ims, dens)
    tags, items = [], []
    for seed, (ims, dens) in runs.items():
        require(len(dens) == len(ims), "{} densities for {} pairs", len(dens), len(ims))
        u = np.unique(np.round(dens, 9)).size
        require(u > len(dens) / 2, "only {} different seeding densities in {} pairs", u,
                len(dens))
        for i, im in enumerate(ims):
            tags.append(f"seed {seed}, batch {i // batch}, pair {i % batch}")
            items.append(im)
    if noise:
        for (ta, a), (tb, b) in itertools.combinations(zip(tags, items), 2):
            for f in (0, 1):
                require(not np.array_equal(a[f], b[f]), "images {} of {} and {} are the same",
                        f + 1, ta, tb)
    else:
        peaks = [(find_particles(a), find_particles(b)) for a, b in items]
        for i, j in itertools.combinations(range(len(items)), 2):
            for f in (0, 1):
                p, q = peaks[i][f], peaks[j][f]
                if len(p) >= 6:
                    o = overlap(p, q)
                    if o > 0.35:
                        raise Violation(f"images {f + 1} of ({tags[i]}) and ({tags[j]}) share "
                                        f"{o:.0%} of their particles")
    del r, vb
    return {"nontrivial": len(items) >= 6, "labels": [f"bpfb {case['bpfb']}",
                                                      "noise" if noise else "clean"]}


@st.composite
def cases(draw, tier="quick"):
    g = draw(geometries(min_grid=12, max_grid=30, lo=44, hi=64, speed=3.0))
    k = draw(st.integers(1, 3))
    a = draw(st.one_of(st.integers(0, 20), st.integers(0, 2**31 - 2)))
    b = draw(st.one_of(st.just(a + 1), st.integers(0, 2**31 - 1),
                       st.integers(1, 30).map(lambda e: a ^ 2**e)))
    return {"geom": g, "k": k, "batch": draw(st.integers(k, 6)),
            "batches": draw(st.integers(2, 4)), "bpfb": draw(st.integers(1, 3)),
            "seeds": [a, b] if a != b else [a], "noise": draw(st.sampled_from([0.0, 0.0, 5.0])),
            "fseed": draw(st.integers(0, 2**20))}


def check_many(case):
    """Large batches, long sequences."""
    g, batch = case["geom"], case["batch"]
    flows = np.zeros((case["k"], *g["grid"], 2))
    s, _ = make_sampler(g, flows, batch, seed=case["seed"], loop=True, bpfb=case["bpfb"],
                        seeding_density_range=(0.006, 0.008))
    tags, peaks = [], []
    for n in range(case["batches"]):
        b = next(s)
        images = np.asarray(b.images1)
        require(len(images) == batch, "{} pairs instead of {}", len(images), batch)
        for i, im in enumerate(images):
            p = find_particles(im)
            if len(p) >= 4:
                tags.append((n, i))
                peaks.append(p)
    # the particle of one image (each in turn) that lies closest to each of another
    for i, p in enumerate(peaks):
        for j in range(i):
            q = peaks[j]
            near = (abs(p[:, None, 0] - q[None, :, 0]) < 0.05) \
                & (abs(p[:, None, 1] - q[None, :, 1]) < 0.05)
            require(near.any(1).sum() < max(3, 0.35 * len(p)),
                    "pair {} of batch {} and pair {} of batch {} share {} of {} particles",
                    tags[i][1], tags[i][0], tags[j][1], tags[j][0], near.any(1).sum(), len(p))
    return {"nontrivial": len(peaks) >= 20, "labels": [f"{len(peaks) // 20 * 20}+ images"]}


@st.composite
def many_cases(draw, tier="quick"):
    g = draw(geometries(min_grid=12, max_grid=16, lo=36, hi=44, speed=2.0))
    k = draw(st.integers(1, 3))
    batch, batches = draw(st.one_of(
        st.tuples(st.integers(30, 140), st.just(1)),
        st.tuples(st.integers(k, 3), st.integers(10, 40))))
    return {"geom": g, "k": k, "batch": batch, "batches": batches,
            "bpfb": draw(st.sampled_from([1, 2, 5, 100])), "seed": draw(st.integers(0, 2**31 - 1))}


PROP = Prop("C10", [
    Sub("diversity", lambda tier: cases(tier), check, 48, 1000,
        "several batches of several pairs of the same zero flow from two seeds: any two images "
        "must differ in their particles (by place), densities or noise; non-trivial: at least "
        "six pairs"),
    Sub("many", lambda tier: many_cases(tier), check_many, 8, 400,
        "batches of 30 to 140 pairs or sequences of 10 to 40 small batches of zero flows: any "
        "two images must differ in their particles; non-trivial: at least 20 images with four "
        "located particles"),
])
