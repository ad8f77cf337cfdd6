"""C01: the second image shows the first displaced by the returned flow."""

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub, Violation
from .synth import (find_particles, floats, geometries, make_sampler, offsets,
                    sample_flow)
from .util import require

MAXD = 3.0


def grid_flow(g, coef):
    """A flow (length units per second) from affine displacements in pixels.

    coef rows: displacement in x and y at the centre, and its change over the field
    along rows and along columns.
    """
    gh, gw = g["grid"]
    k = g["res"] * g["dt"]
    yy = (np.arange(gh) + 0.5)[:, None] / gh - 0.5
    xx = (np.arange(gw) + 0.5)[None, :] / gw - 0.5
    out = np.empty((gh, gw, 2))
    for c in range(2):
        a, b, d = coef[c]
        out[..., c] = (a + b * yy + d * xx) / k
    return out


def spot(img, y, x, fit, slack, what):
    """Every pixel near (y, x) must be at least as bright as the predicted spot."""
    amp, hyy, hxx, hxy = fit[2:]
    H, W = img.shape
    cy, cx = int(round(y)), int(round(x))
    steep = 0.61 * np.sqrt(max(hyy, hxx) + abs(hxy))  # largest relative slope
    for i in (cy - 1, cy, cy + 1):
        for j in (cx - 1, cx, cx + 1):
            u, v = i - y, j - x
            e = amp * np.exp(-0.5 * (hyy * u * u + hxx * v * v) - hxy * u * v)
            # other particles' spots end at their patches, which move by whole pixels: up
            # to 2.9% of at most 200 grey levels each are cut off in one image only
            low = e - amp * (steep * slack + 0.03) - 12
            if img[i, j] < min(low, 242):
                raise Violation(f"{what}: a particle belongs at ({y:.2f}, {x:.2f}), which makes "
                                f"pixel ({i}, {j}) at least {low:.1f}, but it is {img[i, j]:.1f}")


def check(case):
    g = case["geom"]
    H, W = g["hw"]
    k, batch = len(case["flows"]), case["batch"]
    flows = np.stack([grid_flow(g, c) for c in case["flows"]]).astype(np.float32)
    var = case["var"]
    s, _ = make_sampler(
        g, flows, batch, seed=case["seed"], vpp=case["vpp"], units=case["units"], loop=True,
        bpfb=2, diameter_var=0.05 * var, intensity_var=20.0 * var, rho_var=0.01 * var,
        seeding_density_range=(0.003, 0.007) if case["range"] else (0.005, 0.005),
        p_hide_img1=case["hide"], p_hide_img2=case["hide"], rho_ranges=[(-0.4, 0.4)],
        diameter_ranges=[(2.0, MAXD)])
    _, size = offsets(g)
    step_px = (size[0] / g["grid"][0] * g["res"], size[1] / g["grid"][1] * g["res"])
    edge = 2
    n1 = n_ok = n_far = 0
    moved = 0.0
    for b in range(2):
        batch_out = next(s)
        im1, im2 = np.asarray(batch_out.images1), np.asarray(batch_out.images2)
        fl = np.asarray(batch_out.flow_fields, np.float64)
        require(im1.shape == (batch, H, W) and im2.shape == (batch, H, W),
                "image shapes {} {}", im1.shape, im2.shape)
        require(fl.shape[0] == batch and fl.shape[3] == 2, "flow shape {}", fl.shape)
        unit = 1.0 if case["units"] == "pixels" else g["res"] * g["dt"]
        for i in range(batch):
            what = f"batch {b}, pair {i}"
            c = np.asarray(case["flows"][i % k])
            # displacement per pixel of distance, times the sampling conventions' leeway
            grad = np.array([[abs(c[a][1]) / (size[0] * g["res"]),
                              abs(c[a][2]) / (size[1] * g["res"])] for a in range(2)])
            tol = 0.05 + float((grad * (2.0 * np.array(step_px) + 1.0)).sum(1).max())
            p1, p2 = find_particles(im1[i]), find_particles(im2[i])
            for f in p1:
                y, x = f[:2]
                if not (edge <= y <= H - 1 - edge and edge <= x <= W - 1 - edge):
                    continue
                d = sample_flow(fl[i], y, x, (H, W)) * unit
                y2, x2 = y + d[1], x + d[0]
                if not (edge <= y2 <= H - 1 - edge and edge <= x2 <= W - 1 - edge):
                    continue
                n1 += 1
                moved = max(moved, abs(d[0]), abs(d[1]))
                if len(p2) and np.hypot(p2[:, 0] - y2, p2[:, 1] - x2).min() <= tol * 1.5:
                    n_ok += 1
                if not (case["hide"] or var):
                    spot(im2[i], y2, x2, f, tol, f"{what}, second image")
            uniform = not np.any(c[:, 1:])
            if uniform and not (case["hide"] or var):
                for f in p2:
                    y, x = f[:2]
                    d = fl[i, fl.shape[1] // 2, fl.shape[2] // 2] * unit
                    y1, x1 = y - d[1], x - d[0]
                    if all(edge <= q <= n - 1 - edge for q, n in
                           ((y, H), (x, W), (y1, H), (x1, W))):
                        n_far += 1
                        spot(im1[i], y1, x1, f, tol, f"{what}, first image")
    keep = 0.6 * (1 - case["hide"]) * (0.8 if var else 1.0)
    if n1 >= 12:
        require(n_ok >= keep * n1 - 2 * np.sqrt(n1),
                "only {} of {} isolated particles of the first images are found in the second "
                "ones where the returned flow puts them", n_ok, n1)
    lab = [case["units"], f"flows {k}"]
    if max(step_px) < 1.2:
        lab.append("fine grid")
    if any(np.any(np.asarray(c)[:, 1:]) for c in case["flows"]):
        lab.append("gradient")
    if case["hide"] or case["range"]:
        lab.append("wider bounds")
    return {"nontrivial": n1 >= 12 and moved > 0.5, "labels": lab}


@st.composite
def cases(draw, tier="quick"):
    fine = draw(st.booleans())
    if fine:  # fine grids and wide margins: little leeway, much to get wrong
        g = draw(geometries(min_grid=90, max_grid=220, lo=48, hi=90, speed=14.0))
    else:
        g = draw(geometries(min_grid=24, max_grid=64 if tier == "quick" else 120))
    k = draw(st.integers(1, 3))
    vb = g["vb"]
    flows = []
    for _ in range(k):
        rows = []
        grad = fine or draw(st.booleans())
        for lo, hi in ((-vb[2], vb[0]), (-vb[3], vb[1])):
            a = draw(floats(lo, hi, 2))
            room = min(hi - a, a - lo)
            if grad:
                b = draw(floats(-1, 1, 2)) * room
                d = draw(floats(-1, 1, 2)) * (2 * room - 2 * abs(b)) / 2
                rows.append([a, round(b, 3), round(d, 3)])
            else:
                rows.append([a, 0, 0])
        flows.append(rows)
    return {
        "geom": g, "flows": flows, "batch": draw(st.integers(k, 5)),
        "units": draw(st.sampled_from(["pixels", "measure units per second"])),
        "vpp": draw(st.sampled_from([1.0, 1, 0.5, 0.25, 2.0, 0.3])),
        "hide": draw(st.sampled_from([0.0, 0.0, 0.0, 0.15])),
        "var": draw(st.sampled_from([0, 0, 0, 1])), "range": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }


PROP = Prop("C01", [
    Sub("displacement", lambda tier: cases(tier), check, 72, 2400,
        "synthetic samplers over random geometries and uniform or affine flows; isolated "
        "particles are located to sub-pixel precision in both images and compared with the "
        "returned flow; non-trivial: at least 12 such particles and a displacement over half "
        "a pixel"),
], assumptions=("particles are located by a log-quadratic fit of their 3x3 neighbourhood, which "
                "certifies itself by its residual; the sampling conventions leave up to two "
                "steps of the flow grid and one pixel of registration, allowed for gradients",))
