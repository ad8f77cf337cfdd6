"""C08: masks blank exactly the marked pixels; histograms are matched."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .c06 import generate
from .core import Prop, Sub
from .synth import make_sampler
from .util import close, raises, require, rng, sides


def histogram(case, total):
    """A histogram of 256 counts summing to `total`."""
    r = rng(case["hseed"])
    kind = case["hist"]
    if kind == "flat":
        w = np.ones(256)
    elif kind == "spikes":
        w = np.zeros(256)
        w[r.choice(256, case["levels"], replace=False)] = r.uniform(0.1, 1, case["levels"])
    elif kind == "ends":
        w = np.zeros(256)
        w[0], w[255] = 1, 2
    else:
        w = r.exponential(size=256) ** 2
    return r.multinomial(total, w / w.sum()).astype(np.float32)


def matched(src, out, hist, what):
    """Whether `out` is the monotone remapping of `src` to the distribution `hist`."""
    src, out = np.asarray(src, np.float64).ravel(), np.asarray(out, np.float64).ravel()
    bins = np.clip(np.floor(src), 0, 255).astype(int)
    require(np.all(out == np.round(out)) and out.min() >= 0 and out.max() <= 255,
            "{}: levels {} to {} are not grey levels", what, out.min(), out.max())
    level = np.full(256, -1.0)
    for b in np.unique(bins):
        v = np.unique(out[bins == b])
        require(v.size == 1, "{}: pixels of level {} get the levels {}", what, b, v[:5])
        level[b] = v[0]
    used = level[level >= 0]
    require(np.all(np.diff(used) >= 0), "{}: the order of the grey levels changes", what)
    # each level goes to the first template level that reaches its quantile
    n, total = src.size, int(hist.sum())
    cdf = np.cumsum(np.bincount(bins, minlength=256))
    tcdf = np.cumsum(hist.astype(np.int64))
    # quotients by a power of two are exact in the generator too
    exact = n == total and n & (n - 1) == 0
    eps = Fraction(0) if exact else Fraction(1, 10**5)
    for b in np.unique(bins):
        q, v = Fraction(int(cdf[b]), n), int(level[b])
        require(Fraction(int(tcdf[v]), total) >= q - eps,
                "{}: level {} (quantile {:.4f}) is mapped to {} where the histogram has only "
                "reached {:.4f}", what, b, float(q), v, tcdf[v] / total)
        if v > 0:
            require(Fraction(int(tcdf[v - 1]), total) < q + eps,
                    "{}: level {} (quantile {:.4f}) is mapped to {}, the histogram reaches it "
                    "at {} already ({:.4f})", what, b, float(q), v, v - 1, tcdf[v - 1] / total)


def check_match(case):
    import jax.numpy as jnp
    from synthpix.utils import match_histogram

    H, W = case["hw"]
    r = rng(case["seed"])
    src = {"ints": lambda: r.integers(0, 256, (H, W)).astype(np.float32),
           "floats": lambda: r.uniform(0, 255, (H, W)).astype(np.float32),
           "dark": lambda: (r.exponential(8, (H, W)) * (r.random((H, W)) < 0.4)).clip(0, 255)
           .astype(np.float32),
           "bright": lambda: (255 - np.floor(r.exponential(5, (H, W)))).clip(0, 255)
           .astype(np.float32),
           "constant": lambda: np.full((H, W), float(r.integers(0, 256)), np.float32),
           "bytes": lambda: r.integers(0, 256, (H, W)).astype(np.uint8)}[case["src"]]()
    if case["hist"] == "own":  # the image already has it
        hist = np.bincount(np.floor(src).astype(int).ravel(), minlength=256).astype(np.float32)
    else:
        hist = histogram(case, H * W)
    out = np.asarray(match_histogram(jnp.asarray(src), jnp.asarray(hist)))
    require(out.shape == src.shape, "shape {} instead of {}", out.shape, src.shape)
    require(out.dtype == src.dtype, "dtype {} instead of {}", out.dtype, src.dtype)
    matched(src, out, hist, "matched image")
    return {"nontrivial": np.unique(np.floor(src)).size > 2, "labels": [case["src"], case["hist"]]}


HISTS = ["random", "flat", "spikes", "ends"]


@st.composite
def match_cases(draw, tier="quick"):
    return {"hw": [draw(st.sampled_from([4, 9, 16, 16, 16, 16, 300])),
                   draw(st.sampled_from([5, 12, 16, 16, 32]))],
            "src": draw(st.sampled_from(["ints", "floats", "dark", "bright", "constant", "bytes"])),
            "hist": draw(st.sampled_from([*HISTS, "own"])), "levels": draw(st.integers(1, 6)),
            "hseed": draw(st.integers(0, 2**20)), "seed": draw(st.integers(0, 2**20))}


def mask_of(case):
    H, W = case["hw"]
    r = rng(case["mseed"])
    kind = case["mask"]
    m = np.ones((H, W), np.float32)
    if kind == "random":
        m = (r.random((H, W)) < 0.6).astype(np.float32)
    elif kind == "block":
        m[r.integers(0, H // 2):H // 2 + 3, r.integers(0, W // 3):W // 2] = 0
    elif kind == "none":
        m[:] = 0
    return m


def check_pipeline(case):
    """The generator with and without mask and histogram, on the same seed."""
    import jax.numpy as jnp

    H, W = case["hw"]
    B = case["batch"]
    kw = dict(seeding_density_range=(0.01, 0.03), intensity_ranges=[(30.0, 250.0)],
              diameter_ranges=[(1.0, 3.0)], noise_uniform=case["noise"],
              noise_gaussian_mean=case["noise"], noise_gaussian_std=case["noise"] / 4)
    plain = generate(case["seed"], (H, W), B, **kw)[:2]
    m = mask_of(case)
    masked = generate(case["seed"], (H, W), B, mask=jnp.asarray(m), **kw)[:2]
    for name, a, b in zip(("images1", "images2"), plain, masked):
        close(b[:, m == 0], np.zeros_like(b[:, m == 0]), 0, f"excluded pixels of {name}")
        close(b[:, m == 1], a[:, m == 1], 1e-3, f"other pixels of {name}")
    hist = histogram(case, H * W)
    equal = generate(case["seed"], (H, W), B, histogram=jnp.asarray(hist), **kw)[:2]
    for name, a, b in zip(("images1", "images2"), plain, equal):
        for i in range(B):
            # rounding may put a value on the other side of a level
            sure = np.abs(a[i] - np.round(a[i])) > 1e-3
            if case["noise"] and not sure.all():
                continue
            matched(a[i], b[i], hist, f"{name}[{i}] with a histogram")
    both = generate(case["seed"], (H, W), B, mask=jnp.asarray(m), histogram=jnp.asarray(hist),
                    **kw)[:2]
    for name, a, b in zip(("images1", "images2"), masked, both):
        for i in range(B):
            if not case["noise"] or (np.abs(a[i] - np.round(a[i])) > 1e-3)[m == 1].all():
                matched(a[i], b[i], hist, f"{name}[{i}] with a mask and a histogram")
    return {"nontrivial": 0 < m.mean() < 1, "labels": [case["mask"], case["hist"]]}


def check_sampler(case):
    """The same through the sampler, which refuses other shapes."""
    import jax.numpy as jnp

    H, W = case["hw"]
    g = {"hw": [H, W], "res": 1.0, "dt": 1.0, "vb": [2.0, 2.0, 2.0, 2.0], "grid": [20, 24],
         "lead": [1.0, 1.0], "trail": [1.0, 1.0]}
    flows = rng(case["seed"]).uniform(-1, 1, (2, 20, 24, 2)).astype(np.float32)
    kw = dict(seed=case["seed"], loop=True, seeding_density_range=(0.02, 0.02), bpfb=2,
              noise_gaussian_mean=5.0)
    m, hist = mask_of(case), histogram(case, H * W)
    plain, _ = make_sampler(g, flows, case["batch"] + 1, **kw)
    masked, _ = make_sampler(g, flows, case["batch"] + 1, mask=jnp.asarray(m), **kw)
    for b in range(3):
        p, q = next(plain), next(masked)
        for name in ("images1", "images2"):
            x, y = np.asarray(getattr(p, name)), np.asarray(getattr(q, name))
            close(y[:, m == 0], np.zeros_like(y[:, m == 0]), 0, f"batch {b}: masked {name}")
            close(y[:, m == 1], x[:, m == 1], 1e-3, f"batch {b}: other pixels of {name}")
        close(q.flow_fields, p.flow_fields, 1e-6, f"batch {b}: flows with a mask")
    equal, _ = make_sampler(g, flows, case["batch"] + 1, histogram=jnp.asarray(hist), **kw)
    q = next(equal)
    for name in ("images1", "images2"):
        y = np.asarray(getattr(q, name))
        require(np.all(y == np.round(y)) and y.min() >= 0 and y.max() <= 255,
                "{} with a histogram are not grey levels", name)
        require(set(np.unique(y)) <= set(np.flatnonzero(hist)) | {255.0},
                "{} has levels that the histogram has not", name)
    if H != W:
        raises(ValueError, lambda: make_sampler(g, flows, 2, mask=jnp.asarray(m.T), **kw),
               "a transposed mask")
    raises(ValueError, lambda: make_sampler(g, flows, 2, histogram=jnp.asarray(hist * 2), **kw),
           "a histogram of another size")
    raises(ValueError, lambda: make_sampler(g, flows, 2, histogram=jnp.asarray(hist[:-1]), **kw),
           "a histogram of 255 levels")
    return {"nontrivial": 0 < m.mean() < 1, "labels": [case["mask"], case["hist"]]}


@st.composite
def pipeline_cases(draw, tier="quick"):
    return {"hw": draw(sides(20, 36)),
            "batch": draw(st.integers(1, 3)),
            "mask": draw(st.sampled_from(["random", "random", "block", "all", "none"])),
            "hist": draw(st.sampled_from(HISTS)), "levels": draw(st.integers(1, 6)),
            "noise": draw(st.sampled_from([0.0, 8.0])),
            "hseed": draw(st.integers(0, 2**20)), "mseed": draw(st.integers(0, 2**20)),
            "seed": draw(st.integers(0, 2**20))}


PROP = Prop("C08", [
    Sub("match", lambda tier: match_cases(tier), check_match, 400, 6000,
        "images of any kind matched to random, flat, sparse and extreme histograms; every "
        "level must go to the first level of the histogram that reaches its quantile (exact "
        "rationals); non-trivial: more than two levels"),
    Sub("pipeline", lambda tier: pipeline_cases(tier), check_pipeline, 16, 600,
        "generated pairs with a mask or histogram against the same pairs without; "
        "non-trivial: the mask excludes some pixels"),
    Sub("sampler", lambda tier: pipeline_cases(tier), check_sampler, 8, 400,
        "the same through the synthetic sampler over several batches, and refusals; "
        "non-trivial: the mask excludes some pixels"),
])
