"""Helpers for the synthetic pipeline: geometries, samplers, particle finding."""

from __future__ import annotations

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .core import HarnessError
from .util import MemScheduler, sides


def floats(lo, hi, places=3):
    """Decimal values with few digits, so that cases stay readable."""
    k = 10**places
    return st.integers(round(lo * k), round(hi * k)).map(lambda i: i / k)


@st.composite
def geometries(draw, min_grid=12, max_grid=64, lo=36, hi=76, speed=6.0):
    """An accepted geometry of the sampler, described in pixels."""
    tight = draw(st.booleans())
    vb = [draw(floats(0, speed, 2)) for _ in range(4)]
    for c in (0, 1):  # at times the flow goes one way only
        side = draw(st.sampled_from([None] * 6 + [0, 2]))
        if side is not None:
            vb[2 - side + c] = -round(vb[side + c] * draw(st.sampled_from([0.25, 0.5, 1.0])), 2)
    hw = draw(sides(lo, hi))
    grid = [draw(st.integers(min_grid, max_grid)), draw(st.integers(min_grid, max_grid))]
    if max(hw) <= 128 and draw(st.sampled_from([False] * 5 + [True])):
        grid = list(hw)  # one flow vector per pixel, nominally
    return {
        "hw": hw,
        "res": draw(st.sampled_from([1.0, 2, 0.5, 1.3, 10.0, 153.6, 4])),
        "dt": draw(st.sampled_from([1.0, 0.5, 2, 0.1, 1.7])),
        # velocity bounds in pixels per step: max x, max y, -min x, -min y
        "vb": vb,
        "grid": grid,
        # distance of the position bounds to the flow's edges, in pixels
        "lead": [0.5 if tight else draw(floats(0.5, 12, 1)) for _ in range(2)],
        "trail": [0.5 if tight else draw(floats(0.5, 12, 1)) for _ in range(2)],
    }


def speeds(g):
    k = g["res"] * g["dt"]
    return {"max_speed_x": g["vb"][0] / k, "max_speed_y": g["vb"][1] / k,
            "min_speed_x": -g["vb"][2] / k, "min_speed_y": -g["vb"][3] / k}


def offsets(g):
    """Image offset (length units) and flow field size."""
    v = {k: max(0.0, x) if k.startswith("max") else min(0.0, x) for k, x in speeds(g).items()}
    r, dt = g["res"], g["dt"]
    off = (v["max_speed_y"] * dt + g["lead"][0] / r, v["max_speed_x"] * dt + g["lead"][1] / r)
    size = (off[0] + g["hw"][0] / r - v["min_speed_y"] * dt + g["trail"][0] / r,
            off[1] + g["hw"][1] / r - v["min_speed_x"] * dt + g["trail"][1] / r)
    return off, size


def spec(g, batch, **kw):
    from synthpix.types import ImageGenerationSpecification

    off, _ = offsets(g)
    base = dict(
        batch_size=batch, image_shape=tuple(g["hw"]), img_offset=off,
        seeding_density_range=(0.005, 0.005), p_hide_img1=0.0, p_hide_img2=0.0,
        diameter_ranges=[(2.0, 3.0)], diameter_var=0.0, intensity_ranges=[(80.0, 200.0)],
        intensity_var=0.0, rho_ranges=[(-0.3, 0.3)], rho_var=0.0, dt=g["dt"],
        noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0)
    base.update(kw)
    return ImageGenerationSpecification(**base)


def config_of(args, scratch):
    """The configuration file's form of the arguments of a synthetic sampler."""
    c = dict(args)
    gs = c.pop("generation_specification")
    for k in gs.__dataclass_fields__:
        c[k] = getattr(gs, k)
    for k in ("image_shape", "img_offset", "seeding_density_range", "flow_field_size"):
        c[k] = list(c[k])
    for k in ("diameter_ranges", "intensity_ranges", "rho_ranges"):
        c[k] = [list(t) for t in c[k]]
    for k, name in (("mask_images", "mask"), ("histogram", "histogram")):
        a = c.pop(k)
        if a is not None:
            c[name] = os.path.join(scratch, name + ".npy")
            np.save(c[name], np.asarray(a))
    return c


def make_sampler(g, flows, batch, *, seed=0, vpp=1.0, units="pixels", bpfb=1, k=None,
                 sched=None, mask=None, histogram=None, device_ids=(0,), loop=False, **kw):
    """A synthetic sampler; those of odd seeds are built from a configuration."""
    from synthpix.sampler import SyntheticImageSampler

    if sched is None:
        sched = MemScheduler(np.asarray(flows, np.float32), loop=loop)
    if flows is None:
        flows = np.zeros((1, *g["grid"], 2))
    _, size = offsets(g)
    args = dict(
        batches_per_flow_batch=bpfb,
        flow_fields_per_batch=k if k is not None else len(flows), flow_field_size=size,
        resolution=g["res"], velocities_per_pixel=vpp, seed=seed, output_units=units,
        device_ids=list(device_ids) if device_ids is not None else None,
        generation_specification=spec(g, batch, **kw), mask_images=mask,
        histogram=histogram, **speeds(g))
    if seed % 3 == 0:  # another sampler of the same sizes beforehand: nothing is shared
        SyntheticImageSampler(scheduler=MemScheduler(np.asarray(flows, np.float32) * 0), **{
            **args, "seed": seed + 1, "resolution": g["res"] * 2, "flow_field_size":
            tuple(x / 2 for x in size), "output_units": "measure units per second",
            **{k: v / 2 for k, v in speeds(g).items()}, "mask_images": None, "histogram": None,
            "generation_specification": args["generation_specification"].update(
                img_offset=tuple(x / 2 for x in offsets(g)[0]), seeding_density_range=(0.0, 0.0)),
            "velocities_per_pixel": vpp})
    if seed % 2:
        with tempfile.TemporaryDirectory(prefix="pbt_") as d:
            return SyntheticImageSampler.from_config(sched, config_of(args, d)), sched
    return SyntheticImageSampler(scheduler=sched, **args), sched


_G = np.array([(y, x) for y in (-1, 0, 1) for x in (-1, 0, 1)], float)
_A = np.stack([np.ones(9), _G[:, 0], _G[:, 1], _G[:, 0] ** 2, _G[:, 1] ** 2,
               _G[:, 0] * _G[:, 1]], 1)
_PINV = np.linalg.pinv(_A)


def find_particles(img, tol=2e-3, floor=5.0):
    """Isolated particles of a noise-free image: rows (y, x, amplitude, Hyy, Hxx, Hxy).

    A spot is exp of a quadratic; a local maximum whose 3x3 neighbourhood is one
    (six parameters, nine values) is certified to be a single particle.
    """
    img = np.asarray(img, np.float64)
    H, W = img.shape
    c = img[1:-1, 1:-1]
    top = c > floor
    for dy in (-1, 0, 1):
        for dx in (-1, 0, 1):
            if dy or dx:
                top &= c >= img[1 + dy:H - 1 + dy, 1 + dx:W - 1 + dx]
    out = []
    for y, x in np.argwhere(top) + 1:
        p = img[y - 1:y + 2, x - 1:x + 2].ravel()
        if p.min() <= 0 or p.max() >= 254.9:
            continue
        z = np.log(p)
        q = _PINV @ z
        if np.abs(_A @ q - z).max() > tol:
            continue
        hyy, hxx, hxy = -2 * q[3], -2 * q[4], -q[5]
        det = hyy * hxx - hxy * hxy
        if hyy <= 0 or hxx <= 0 or det <= 0:
            continue
        dy = (hxx * q[1] - hxy * q[2]) / det
        dx = (hyy * q[2] - hxy * q[1]) / det
        if abs(dy) > 0.75 or abs(dx) > 0.75:
            continue
        amp = np.exp(q[0] + 0.5 * (q[1] * dy + q[2] * dx))
        out.append((y + dy, x + dx, amp, hyy, hxx, hxy))
    return np.array(out).reshape(-1, 6)


def spot_params(h):
    """(sigma_y, sigma_x, rho) of the spot with inverse covariance (hyy, hxx, hxy)."""
    hyy, hxx, hxy = h
    det = hyy * hxx - hxy * hxy
    sy2, sx2, sxy = hxx / det, hyy / det, -hxy / det
    return np.sqrt(sy2), np.sqrt(sx2), sxy / np.sqrt(sy2 * sx2)


def sample_flow(flow, y, x, hw):
    """Bilinear value of a returned flow at image position (y, x)."""
    fh, fw = flow.shape[:2]
    a = np.clip(y * fh / hw[0], 0, fh - 1)
    b = np.clip(x * fw / hw[1], 0, fw - 1)
    i, j = min(int(a), max(fh - 2, 0)), min(int(b), max(fw - 2, 0))
    i1, j1 = min(i + 1, fh - 1), min(j + 1, fw - 1)
    a, b = a - i, b - j
    return ((1 - a) * (1 - b) * flow[i, j] + (1 - a) * b * flow[i, j1]
            + a * (1 - b) * flow[i1, j] + a * b * flow[i1, j1])


def patch_radius(max_diameter):
    return int(3 * max_diameter / 2)


def ensure(cond, what):
    if not cond:
        raise HarnessError(what)
