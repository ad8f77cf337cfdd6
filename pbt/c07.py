"""C07: images keep to the 8-bit range and carry the configured noise."""

import numpy as np
from hypothesis import strategies as st

from .c06 import generate
from .core import Prop, Sub
from .synth import floats
from .util import close, require, sides


def check_range(case):
    i1, i2, p = generate(
        case["seed"], case["hw"], case["batch"], flow=None,
        seeding_density_range=(0.0, case["density"]), diameter_ranges=[(0.5, case["d"])],
        diameter_var=1.0, intensity_ranges=[(1.0, case["i"])], intensity_var=100.0,
        rho_ranges=[(-0.95, 0.95)], rho_var=1.0, noise_uniform=case["u"],
        noise_gaussian_mean=case["m"], noise_gaussian_std=case["s"])
    for name, a in (("images1", i1), ("images2", i2)):
        require(a.min() >= 0 and a.max() <= 255, "{} ranges over {} to {}", name, a.min(),
                a.max())
        if case["u"] == case["m"] == case["s"] == 0:
            # far fewer particles than pixels leave empty places
            cover = case["density"] * (2 * int(1.5 * case["d"]) + 1) ** 2
            if cover < 0.4:
                require((a == 0).mean() > 0.3, "{}: only {:.0%} of the pixels are empty", name,
                        (a == 0).mean())
    sat = max(i1.max(), i2.max()) >= 254.99
    return {"nontrivial": sat or case["s"] > 0, "labels": ["saturated" if sat else "unsaturated"]}


@st.composite
def range_cases(draw, tier="quick"):
    noisy = draw(st.booleans())
    return {"hw": draw(sides(24, 40)),
            "batch": draw(st.integers(1, 3)), "density": draw(floats(0.001, 0.3)),
            "d": draw(floats(0.6, 4, 1)), "i": draw(st.sampled_from([50.0, 255.0, 1000.0])),
            "u": draw(st.sampled_from([0.0, 10.0, 300.0])) if noisy else 0.0,
            "m": draw(st.sampled_from([0.0, 20.0, 400.0])) if noisy else 0.0,
            "s": draw(st.sampled_from([0.0, 5.0, 100.0])) if noisy else 0.0,
            "seed": draw(st.integers(0, 2**20))}


def moments(x, mean, var, what):
    x = np.asarray(x, np.float64).ravel()
    n = x.size
    require(abs(x.mean() - mean) < 6 * np.sqrt(var / n) + 1e-4 * (1 + mean),
            "{}: mean {:.4f} instead of {:.4f} over {} pixels", what, x.mean(), mean, n)
    # the variance of uniform plus Gaussian noise has a spread of at most sqrt(2/n)
    require(abs(x.var() - var) <= 7 * var * np.sqrt(2 / n) + 1e-4,
            "{}: variance {:.4f} instead of {:.4f} over {} pixels", what, x.var(), var, n)


def corr(a, b, what):
    a, b = a.ravel() - a.mean(), b.ravel() - b.mean()
    r = (a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum())
    require(abs(r) < 6 / np.sqrt(a.size) + 0.01, "{}: correlation {:.3f}", what, r)


def check_noise(case):
    """Noise on images without particles, and on top of particles."""
    u, m, s = case["u"], case["m"], case["s"]
    B, hw = case["batch"], case["hw"]
    kw = dict(noise_uniform=u, noise_gaussian_mean=m, noise_gaussian_std=s)
    empty = dict(seeding_density_range=(0.004, 0.004), p_hide_img1=1.0, p_hide_img2=1.0)
    i1, i2, _ = generate(case["seed"], hw, B, **empty, **kw)
    mean, var = m + u / 2, s * s + u * u / 12
    if not (u or s):
        for a in (i1, i2):
            close(a, np.full_like(a, m), 1e-3, "images without random noise")
        return {"nontrivial": m > 0, "labels": ["constant"]}
    moments(i1, mean, var, "noise of images1")
    moments(i2, mean, var, "noise of images2")
    if s == 0:  # uniform noise only
        for a in (i1, i2):
            v = (a - m) / u
            require(v.min() >= -1e-4 and v.max() <= 1 + 1e-4, "uniform noise in [{:.3f}, {:.3f}]",
                    a.min(), a.max())
            q = np.histogram(v, bins=4, range=(0, 1))[0] / v.size
            require(np.abs(q - 0.25).max() < 6 * np.sqrt(0.1875 / v.size) + 0.003,
                    "uniform noise is not uniform: {}", q)
    if u == 0:  # Gaussian noise only
        for a in (i1, i2):
            f = (np.abs((a - m) / s) < 1).mean()
            require(abs(f - 0.6827) < 6 * np.sqrt(0.217 / a.size) + 0.003,
                    "{:.3f} of the Gaussian noise is within one deviation", f)
    corr(i1, i2, "noise of both frames")
    for a in (i1, i2):
        corr(a[:, 1:], a[:, :-1], "noise of neighbouring rows")
        corr(a[:, :, 1:], a[:, :, :-1], "noise of neighbouring columns")
        for i in range(1, B):
            corr(a[i], a[0], f"noise of images {i} and 0")
            corr(i1[i], i2[0], f"noise of frames of pairs {i} and 0")
    # noise is added to the particles: same seed, dim particles
    dim = dict(seeding_density_range=(0.01, 0.01), intensity_ranges=[(60.0, 70.0)],
               diameter_ranges=[(2.0, 2.5)])
    c1, c2, _ = generate(case["seed"] + 1, hw, B, **dim)
    n1, n2, _ = generate(case["seed"] + 1, hw, B, **dim, **kw)
    for c, n, name in ((c1, n1, "images1"), (c2, n2, "images2")):
        ok = c < 120
        for sel, where in ((ok & (c > 20), "on particles"), (ok & (c <= 20), "between particles")):
            if sel.sum() > 200:
                moments((n - c)[sel], mean, var, f"noise added to {name} {where}")
    return {"nontrivial": True, "labels": ["uniform" if u else "", "gaussian" if s else ""]}


@st.composite
def noise_cases(draw, tier="quick"):
    s = draw(st.sampled_from([0.0, 1.0, 4.0, 9.0]))
    return {"hw": [draw(st.integers(40, 64)), draw(st.integers(40, 64))],
            "batch": draw(st.integers(2, 4)), "s": s,
            "u": draw(st.sampled_from([0.0, 0.0, 6.0, 20.0])),
            # far enough from 0 that the clipping does not matter
            "m": draw(floats(6 * s, 6 * s + 10, 1)), "seed": draw(st.integers(0, 2**20))}


PROP = Prop("C07", [
    Sub("range", lambda tier: range_cases(tier), check_range, 32, 1500,
        "pairs of dense or sparse, dim or saturating particles with and without noise: finite, "
        "in [0, 255], exactly 0 in empty places without noise; non-trivial: saturated or noisy"),
    Sub("noise", lambda tier: noise_cases(tier), check_noise, 24, 800,
        "moments, distribution and correlations of the noise over pixels, frames, pairs, in "
        "empty images and over particles; non-trivial: some noise"),
], assumptions=("statistics of random noise are accepted within six to seven standard "
                "deviations",))
