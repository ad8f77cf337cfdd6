"""C28: both images are seeded evenly; the flow leaves no empty band."""

import functools

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub, Violation
from .synth import floats, make_sampler
from .util import rng, sides

BAND = 8
AMP = 10.0


@functools.lru_cache(None)
def spot_mass(d):
    """Mean brightness of a spot of amplitude 1 over sub-pixel positions."""
    pr = int(3 * d / 2)
    q = (np.arange(20) + 0.5) / 20
    k = np.arange(-pr, pr + 1)
    a = np.exp(-((k[None, :] - q[:, None]) ** 2) / (2 * (d / 2) ** 2)).sum(1)
    return float(a.mean() ** 2)


def check(case):
    H, W = case["hw"]
    g = {"hw": [H, W], "res": case["res"], "dt": case["dt"], "vb": case["vb"],
         "grid": case["grid"], "lead": case["lead"], "trail": case["trail"]}
    k = case["res"] * case["dt"]
    fx, fy = case["dir"]
    vb = case["vb"]  # +x +y -x -y
    u = float(np.clip(fx * (vb[0] if fx > 0 else vb[2]), -vb[2], vb[0]))
    v = float(np.clip(fy * (vb[1] if fy > 0 else vb[3]), -vb[3], vb[1]))
    flow = np.empty((1, *case["grid"], 2))
    flow[..., 0], flow[..., 1] = u / k, v / k
    d, rho = case["d"], 0.05
    dens = (rho * 0.8, rho * 1.2) if case["wide"] else (rho, rho)
    s, _ = make_sampler(
        g, flow, case["batch"], seed=case["seed"], loop=True, seeding_density_range=dens,
        diameter_ranges=[(d, d)], intensity_ranges=[(AMP, AMP)], rho_ranges=[(0.0, 0.0)],
        p_hide_img1=case["hide"], p_hide_img2=case["hide"])
    b = next(s)
    mean = float(np.mean(np.asarray(b.params.seeding_densities))) * (1 - case["hide"])
    per_px = AMP * spot_mass(d) * mean
    for name in ("images1", "images2"):
        im = np.asarray(getattr(b, name), np.float64)
        B = len(im)
        for band, sl in (("top", np.s_[:, :BAND]), ("bottom", np.s_[:, -BAND:]),
                         ("left", np.s_[:, :, :BAND]), ("right", np.s_[:, :, -BAND:]),
                         ("middle", np.s_[:, BAND:-BAND, BAND:-BAND])):
            a = im[sl]
            n = mean * a.size  # expected particles
            rel = a.sum() / (per_px * a.size)
            # counting statistics, plus what spots at the border lose or gain
            tol = 6 / np.sqrt(n) + (0.12 if band != "middle" else 0.05)
            if abs(rel - 1) > tol:
                raise Violation(
                    f"{name}: the {band} of {B} images holds {rel:.2f} times as many particles "
                    f"as configured (+- {tol:.2f}); the flow moves by ({u:.1f}, {v:.1f}) pixels")
    return {"nontrivial": max(abs(u), abs(v)) >= 3,
            "labels": [f"dir {fx:+.0f}{fy:+.0f}", "wide" if case["wide"] else "exact"]}


@st.composite
def cases(draw, tier="quick"):
    vb = [draw(floats(0, 10, 1)) for _ in range(4)]
    for c in (0, 1):  # at times the flow goes one way only
        side = draw(st.sampled_from([None] * 6 + [0, 2]))
        if side is not None:
            vb[2 - side + c] = -round(vb[side + c] * draw(st.sampled_from([0.3, 0.7, 1.0])), 1)
    return {"hw": draw(sides(36, 60)),
            "res": draw(st.sampled_from([1.0, 2.0, 0.5, 10.0, 1.3])),
            "dt": draw(st.sampled_from([1.0, 0.5, 2.0, 0.1])),
            "vb": vb,
            "dir": draw(st.sampled_from([[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1],
                                         [1, -1], [-1, 1], [0, 0], [0.5, 0.5]])),
            "grid": [draw(st.integers(16, 40)), draw(st.integers(16, 40))],
            "lead": [draw(floats(0.5, 8, 1)), draw(floats(0.5, 8, 1))],
            "trail": [draw(floats(0.5, 8, 1)), draw(floats(0.5, 8, 1))],
            "d": draw(st.sampled_from([1.0, 1.3])), "wide": draw(st.booleans()),
            "hide": draw(st.sampled_from([0.0, 0.0, 0.3])),
            "batch": draw(st.integers(20, 30)), "seed": draw(st.integers(0, 10**6))}


PROP = Prop("C28", [
    Sub("bands", lambda tier: cases(tier), check, 48, 1600,
        "20 to 30 pairs of a uniform flow at the configured velocity bounds in every direction: "
        "brightness of the four border bands and of the middle, in both images, against the "
        "configured density; non-trivial: displacement of at least 3 pixels"),
], assumptions=("statistics over random particles are accepted within six standard "
                "deviations plus 12 % in the border bands",))
