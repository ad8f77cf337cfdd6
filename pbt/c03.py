"""C03: a rendered image is the sum of its particles' Gaussian spots."""

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub, Violation
from .synth import floats, patch_radius
from .util import close, require, rng, sides

N = 12  # rows passed to the renderer; unused ones have zero intensity


def spots(case):
    H, W = case["hw"]
    r = rng(case["seed"])
    m = case["margin"]  # negative: beyond the border
    pos = r.uniform(0, 1, (N, 2)) * [H - 1 - 2 * m, W - 1 - 2 * m] + m
    if case["grid"]:  # on pixel centres and halves, where rounding shows
        pos = np.round(pos * 2) / 2
    d = r.uniform(case["mind"], case["maxd"], (2, N))
    amp = r.uniform(20, 250, N)
    amp[case["n"]:] = 0.0
    rho = r.uniform(-case["rho"], case["rho"], N)
    f = np.float32
    return pos.astype(f), d[0].astype(f), d[1].astype(f), amp.astype(f), rho.astype(f)


def render(case, pos, dx, dy, amp, rho, clip=False):
    import jax.numpy as jnp
    from synthpix.generate import img_gen_from_data

    return np.asarray(img_gen_from_data(
        jnp.asarray(pos), image_shape=tuple(case["hw"]), max_diameter=case["maxd"],
        diameters_x=jnp.asarray(dx), diameters_y=jnp.asarray(dy), intensities=jnp.asarray(amp),
        rho=jnp.asarray(rho), clip=clip), np.float64)


def reference(hw, pos, dx, dy, amp, rho, reach):
    """Sum of the spots, each limited to `reach` pixels from its centre."""
    Y, X = np.mgrid[:hw[0], :hw[1]].astype(np.float64)
    out = np.zeros(hw)
    for (y, x), a, b, i, r in zip(pos.astype(np.float64), dx, dy, amp, rho):
        u, v, sx, sy, r = Y - y, X - x, a / 2.0, b / 2.0, float(r)
        z = (v / sx) ** 2 + (u / sy) ** 2 - 2 * r * (u / sy) * (v / sx)
        g = float(i) * np.exp(-z / (2 * (1 - r * r)))
        out += np.where((np.abs(u) <= reach) & (np.abs(v) <= reach), g, 0.0)
    return out


def check(case):
    pos, dx, dy, amp, rho = spots(case)
    pr = patch_radius(case["maxd"])
    img = render(case, pos, dx, dy, amp, rho)
    require(img.shape == tuple(case["hw"]), "image shape {}", img.shape)
    require(np.all(np.isfinite(img)), "the image is not finite")
    # the patch reaches at least pr - 1 and at most pr + 1 pixels from the centre
    low = reference(case["hw"], pos, dx, dy, amp, rho, pr - 1)
    high = reference(case["hw"], pos, dx, dy, amp, rho, pr + 1)
    tol = 2e-3 + 1e-4 * high
    for bad, what in ((img < low - tol, "dark"), (img > high + tol, "bright")):
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            raise Violation(f"pixel ({i}, {j}) is too {what}: {img[i, j]:.4f}, the spots make "
                            f"it {low[i, j]:.4f} to {high[i, j]:.4f}")
    close(render(case, pos, dx, dy, amp, rho, clip=True), np.clip(img, 0, 255), 1e-3,
          "clipped image")
    # relations
    perm = rng(case["seed"] + 1).permutation(N)
    close(render(case, pos[perm], dx[perm], dy[perm], amp[perm], rho[perm]), img, tol,
          "image with reordered particles")
    half = np.arange(N) % 2 == 0
    parts = [render(case, pos, dx, dy, amp * m, rho) for m in (half, ~half)]
    close(parts[0] + parts[1], img, tol, "sum of two halves of the particles")
    # particles far outside do not show
    out = pos.copy()
    far = np.array(case["far"], np.float32)
    out[::2] += far + np.sign(far) * max(case["hw"])
    im = render(case, out, dx, dy, amp, rho)
    close(im, parts[1], tol, "image with every other particle outside")
    return {"nontrivial": case["n"] >= 2,
            "labels": ["grid" if case["grid"] else "free", f"margin {case['margin']}"]}


@st.composite
def cases(draw, tier="quick"):
    maxd = draw(st.sampled_from([1.0, 1.5, 2.0, 2.7, 3.4, 4.0, 6.0]))
    lo = patch_radius(maxd) + 2
    return {"hw": draw(sides(lo, lo + 20)),
            "maxd": maxd, "mind": draw(floats(min(0.6, maxd), maxd, 2)),
            "rho": draw(st.sampled_from([0.0, 0.3, 0.9])), "n": draw(st.integers(1, N)),
            "grid": draw(st.booleans()), "margin": draw(st.sampled_from([0, 0, 3, -2, -5])),
            "far": draw(st.sampled_from([[1e3, 0], [-1e3, 0], [0, -60.5], [0, 60.5],
                                         [-70, 70], [1e7, -1e7]])),
            "seed": draw(st.integers(0, 2**20))}


PROP = Prop("C03", [
    Sub("spots", lambda tier: cases(tier), check, 480, 6000,
        "1 to 12 random spots (positions, both diameters, correlation, intensity) in images of "
        "random shape: every pixel lies between two float64 sums that differ only in the reach "
        "of the patch, inside, on and beyond the borders, plus additivity, reordering and clipping; "
        "non-trivial: at least two visible spots"),
])
