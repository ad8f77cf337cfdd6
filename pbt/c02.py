"""C02: the returned flow is the configured region of the source flow, in its units."""

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub, Violation
from .synth import floats, geometries, make_sampler, offsets
from .util import MemScheduler, close, require, rng, sides

UNITS = ["pixels", "measure units per second"]


# -- the adapter function against a float64 reference -----------------------
def ref_bilinear(a, x, y):
    H, W = a.shape
    x, y = np.clip(x, 0, W - 1), np.clip(y, 0, H - 1)
    x0, y0 = np.floor(x).astype(int), np.floor(y).astype(int)
    x1, y1 = np.minimum(x0 + 1, W - 1), np.minimum(y0 + 1, H - 1)
    wx, wy = x - x0, y - y0
    return ((1 - wy) * ((1 - wx) * a[y0, x0] + wx * a[y0, x1])
            + wy * ((1 - wx) * a[y1, x0] + wx * a[y1, x1]))


def check_adapter(case):
    import jax.numpy as jnp
    from synthpix.utils import flow_field_adapter

    n, gh, gw = case["n"], *case["grid"]
    flows = rng(case["seed"]).normal(size=(n, gh, gw, 2)).astype(np.float32)
    res, rx, ry = case["res"], case["rx"], case["ry"]
    H, W = case["hw"]
    nh, nw = case["out"]
    (py, px), (oy, ox), (iy, ix) = case["pad"], case["off"], case["img"]
    bounds = (H + iy + case["extra"][0], W + ix + case["extra"][1])
    out, region = flow_field_adapter(
        jnp.asarray(flows), new_flow_field_shape=(nh, nw), image_shape=(H, W),
        img_offset=(iy, ix), resolution=res, res_x=rx, res_y=ry, position_bounds=bounds,
        position_bounds_offset=(oy, ox), batch_size=case["batch"],
        output_units=case["units"], dt=case["dt"], zero_padding=(py, px))
    F = np.pad(flows.astype(np.float64), ((0, 0), (py, 0), (px, 0), (0, 0)), mode="edge")
    # the region starts at the offsets and spans the image, node to node
    y = np.linspace(oy * ry + iy / res * ry, oy * ry + iy / res * ry + H / res * ry - 1, nh)
    x = np.linspace(ox * rx + ix / res * rx, ox * rx + ix / res * rx + W / res * rx - 1, nw)
    X, Y = np.meshgrid(x, y)
    k = res * case["dt"] if case["units"] == "pixels" else 1.0
    ref = np.stack([np.stack([ref_bilinear(f[..., c], X, Y) for c in (0, 1)], -1)
                    for f in F]) * k
    ref = ref[np.arange(case["batch"]) % n]
    # an error of a coordinate moves the value by at most the steepest slope
    slope = np.abs(np.diff(F, axis=1)).max(initial=0) + np.abs(np.diff(F, axis=2)).max(initial=0)
    tol = k * (1e-5 * (1 + slope) * max(gh + py, gw + px) + 1e-5)
    close(out, ref, tol, "adapted flow")
    require(region.shape[0] == n and region.shape[3] == 2, "region shape {}", region.shape)
    nb = region.shape[1:3]
    for a, (size, r) in enumerate(((bounds[0], ry), (bounds[1], rx))):
        want = size / res * r
        require(abs(nb[a] - max(1, want)) <= 1 + 1e-6 * want,
                "region has {} steps along axis {} instead of about {}", nb[a], a, want)
    y = np.linspace(oy * ry, oy * ry + bounds[0] / res * ry - 1, nb[0])
    x = np.linspace(ox * rx, ox * rx + bounds[1] / res * rx - 1, nb[1])
    X, Y = np.meshgrid(x, y)
    ref = np.stack([np.stack([ref_bilinear(f[..., c], X, Y) for c in (0, 1)], -1) for f in F])
    close(region, ref, tol / k, "flow of the position bounds")
    lab = [case["units"]]
    if py or px:
        lab.append("padded")
    if case["batch"] % n:
        lab.append("uneven")
    return {"nontrivial": gh != gw and (nh > 1 or nw > 1), "labels": lab}


@st.composite
def adapter_cases(draw, tier="quick"):
    n = draw(st.integers(1, 3))
    batch = draw(st.integers(1, 7))
    if draw(st.integers(0, 9)) == 7:
        n, batch = draw(st.integers(8, 20)), draw(st.integers(8, 40))
    grid, hw, out = draw(sides(2, 24)), [draw(st.integers(1, 20)) for _ in "yx"], \
        draw(sides(1, 12))
    # sizes that coincide
    kind = draw(st.sampled_from([None] * 4 + ["out grid", "image grid", "image out", "all"]))
    if kind in ("image out", "all"):
        hw = list(grid) if kind == "all" else hw
        out = list(hw)
    if kind in ("out grid", "all"):
        out = list(grid)
    if kind == "image grid":
        hw = list(grid)
    return {
        "n": n, "grid": grid, "hw": hw, "out": out,
        "res": draw(st.sampled_from([1.0, 2.0, 0.5, 1.25, 10.0])),
        "rx": draw(floats(0.3, 3, 2)), "ry": draw(floats(0.3, 3, 2)),
        "pad": [draw(st.integers(0, 3)), draw(st.integers(0, 3))],
        "off": [draw(floats(0, 5, 2)), draw(floats(0, 5, 2))],
        "img": [draw(st.integers(0, 6)), draw(st.integers(0, 6))],
        "extra": [draw(st.integers(0, 6)), draw(st.integers(0, 6))],
        "batch": batch, "units": draw(st.sampled_from(UNITS)),
        "dt": draw(st.sampled_from([1.0, 0.5, 0.1, 2.0])),
        "seed": draw(st.integers(0, 2**20)),
    }


# -- the sampler: position, units and pairing -------------------------------
def check_region(case):
    """Flows growing with the position, so that values tell where they come from."""
    g = case["geom"]
    gh, gw = g["grid"]
    off, size = offsets(g)
    k, batch = case["k"], case["batch"]
    dt, res = g["dt"], g["res"]
    y = (np.arange(gh) / gh * size[0])[:, None]
    x = (np.arange(gw) / gw * size[1])[None, :]
    coef = np.array(case["coef"])  # k, component, (1, y, x)
    flows = np.stack([np.stack([c[0] * np.ones((gh, gw)) + c[1] * y + c[2] * x for c in f], -1)
                      for f in coef])
    s, sched = make_sampler(
        g, flows, batch, seed=3, vpp=case["vpp"], units=case["units"], loop=True,
        seeding_density_range=(0.002, 0.004) if case["wide"] else (0.002, 0.002))
    H, W = g["hw"]
    b = next(s)
    out = np.asarray(b.flow_fields, np.float64)
    nh, nw = int(H * case["vpp"] + 1e-9), int(W * case["vpp"] + 1e-9)
    require(out.shape[0] == batch and out.shape[3] == 2, "flow shape {}", out.shape)
    require(abs(out.shape[1] - nh) <= 1 and abs(out.shape[2] - nw) <= 1,
            "flow shape {} for images {} with {} velocities per pixel", out.shape, (H, W),
            case["vpp"])
    nh, nw = out.shape[1:3]
    # centre of the output cells in length units
    py = off[0] + (np.arange(nh)[:, None] + 0.5) / nh * H / res
    px = off[1] + (np.arange(nw)[None, :] + 0.5) / nw * W / res
    sy, sx = size[0] / gh, size[1] / gw  # a grid step
    unit = res * dt if case["units"] == "pixels" else 1.0
    for i in range(batch):
        for c in range(2):
            a, by, bx = coef[i % k][c]
            want = (a + by * py + bx * px) * unit
            # sampling conventions: two grid steps, a pixel and half an output cell
            tol = unit * (abs(by) * (2.0 * sy + 1.0 / res + 0.5 * H / res / nh)
                          + abs(bx) * (2.0 * sx + 1.0 / res + 0.5 * W / res / nw))
            tol += 1e-4 * (np.abs(want).max() + 1e-3)
            err = np.abs(out[i, ..., c] - want)
            if not np.all(err <= tol):
                j = np.unravel_index(np.argmax(err), err.shape)
                raise Violation(
                    f"flow {i} (source {i % k}), component {'xy'[c]} at {tuple(map(int, j))}: "
                    f"{out[i, j[0], j[1], c]:.5g} instead of {want[j]:.5g} +- {tol:.3g}")
    rel = np.abs(coef[:, :, 1:]).max()
    return {"nontrivial": rel > 0, "labels": [case["units"], "wide" if case["wide"] else "exact"]}


@st.composite
def region_cases(draw, tier="quick"):
    g = draw(geometries(min_grid=24, lo=20, hi=48))
    k = draw(st.integers(1, 3))
    off, size = offsets(g)
    coef = []
    for _ in range(k):
        rows = []
        for _ in range(2):
            sl = [draw(st.sampled_from([0, 1, -1, 3])) for _ in range(2)]
            rows.append([draw(floats(-2, 2, 1)), round(sl[0] / size[0], 6),
                         round(sl[1] / size[1], 6)])
        coef.append(rows)
    return {"geom": g, "k": k, "coef": coef, "batch": draw(st.integers(k, 5)),
            "vpp": draw(st.sampled_from([1.0, 0.5, 0.25, 2.0])),
            "units": draw(st.sampled_from(UNITS)), "wide": draw(st.booleans())}


def check_exact(case):
    """Where all sizes are whole numbers the flow is a slice of the source."""
    from synthpix.sampler import SyntheticImageSampler
    from synthpix.types import ImageGenerationSpecification

    r, res = case["steps"], case["res"]  # grid steps and pixels per unit
    hy, hx = case["units_hw"]
    oy, ox = case["off"]
    my, mx, ny, nx = case["vb"]  # displacement bounds in units per step
    dt = case["dt"]
    size = (oy + my + hy + ny + case["trail"][0], ox + mx + hx + nx + case["trail"][1])
    gh, gw = size[0] * r, size[1] * r
    k, batch, n = case["k"], case["batch"], case["n"]
    flows = rng(case["seed"]).integers(-64, 64, size=(n, gh, gw, 2)).astype(np.float32)
    def build(off, dt, units):
        return SyntheticImageSampler(
            scheduler=MemScheduler(flows), batches_per_flow_batch=case["bpfb"],
            flow_fields_per_batch=k, flow_field_size=(float(size[0]), float(size[1])),
            resolution=res, velocities_per_pixel=r / res, seed=3, max_speed_x=mx / dt,
            max_speed_y=my / dt, min_speed_x=-nx / dt, min_speed_y=-ny / dt,
            output_units=units, device_ids=[0],
            generation_specification=ImageGenerationSpecification(
                batch_size=batch, image_shape=(hy * res, hx * res),
                img_offset=(float(off[0] + my), float(off[1] + mx)),
                seeding_density_range=(0.01, 0.01), p_hide_img1=0.0, p_hide_img2=0.0,
                diameter_ranges=[(1.0, 1.0)], dt=dt))

    if case["decoy"]:  # one of the same sizes beforehand: samplers share nothing
        next(build(case["trail"], dt * 2, UNITS[case["out"] == UNITS[0]]))
    s = build((oy, ox), dt, case["out"])
    y0, x0 = (oy + my) * r, (ox + mx) * r
    unit = res * dt if case["out"] == "pixels" else 1.0
    seen = 0
    for start in range(0, n, k):
        rows = [flows[i] if i < n else np.zeros_like(flows[0]) for i in range(start, start + k)]
        want = np.stack([f[y0:y0 + hy * r, x0:x0 + hx * r] for f in rows]) * unit
        for _ in range(case["bpfb"]):
            b = next(s)
            close(b.flow_fields, want[np.arange(batch) % k], 1e-4 * 64 * max(unit, 1),
                  f"flows of batch {seen}")
            seen += 1
    try:
        next(s)
    except StopIteration:
        pass
    else:
        raise Violation("a batch after the last flow")
    return {"nontrivial": hy != hx, "labels": [case["out"], f"flows {k}"]}


@st.composite
def exact_cases(draw, tier="quick"):
    k = draw(st.integers(1, 3))
    return {
        "steps": draw(st.sampled_from([1, 2, 4])), "res": draw(st.sampled_from([1, 2, 4])),
        "units_hw": [draw(st.integers(4, 10)), draw(st.integers(4, 10))],
        "off": [draw(st.integers(0, 4)), draw(st.integers(0, 4))],
        "vb": [draw(st.integers(0, 3)) for _ in range(4)],
        "trail": [draw(st.integers(0, 3)), draw(st.integers(0, 3))],
        "dt": draw(st.sampled_from([1.0, 0.5, 2.0, 0.25])), "k": k,
        "batch": draw(st.integers(k, 6)), "n": draw(st.integers(1, 5)),
        "bpfb": draw(st.integers(1, 2)), "out": draw(st.sampled_from(UNITS)),
        "decoy": draw(st.booleans()), "seed": draw(st.integers(0, 2**20)),
    }


PROP = Prop("C02", [
    Sub("adapter", lambda tier: adapter_cases(tier), check_adapter, 96, 3000,
        "the flow adapter over random grids, regions, offsets, paddings, resolutions and "
        "units against a float64 reference; non-trivial: non-square field and output"),
    Sub("region", lambda tier: region_cases(tier), check_region, 24, 1200,
        "samplers over random geometries, with flows that encode their position: the "
        "returned value must be that of its place; non-trivial: a position-dependent flow"),
    Sub("exact", lambda tier: exact_cases(tier), check_exact, 24, 1200,
        "geometries in whole numbers, where the returned flows are exact slices of the "
        "source flows, for every image of every batch; non-trivial: non-square image"),
])
