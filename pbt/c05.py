"""C05: image warping puts every pixel where the flow says."""

import numpy as np
from hypothesis import strategies as st

from .c04 import ref_linear
from .core import Prop, Sub
from .synth import floats
from .util import close, require, rng, sides


def fields(case):
    H, W = case["hw"]
    r = rng(case["seed"])
    img = r.uniform(0, 255, (H, W)).astype(np.float32)
    kind = case["kind"]
    a = case["coef"]
    y, x = np.mgrid[:H, :W].astype(np.float64)
    if kind == "zero":
        f = np.zeros((H, W, 2))
    elif kind == "random":
        f = r.normal(size=(H, W, 2)) * case["scale"]
    elif kind == "integer":
        f = np.broadcast_to(np.array([round(a[0]), round(a[1])], float), (H, W, 2)).copy()
    else:  # depends on both coordinates and on t
        f = np.stack([a[0] + a[2] * x / W - a[3] * y / H + case["t"],
                      a[1] + a[4] * y / H + a[5] * x / W - case["t"]], -1)
    return img, f.astype(np.float32)


def backward(img, f, dt):
    H, W = img.shape
    y, x = np.mgrid[:H, :W].astype(np.float64)
    return ref_linear(img.astype(np.float64),
                      [y - f[..., 1].astype(np.float64) * dt, x - f[..., 0].astype(np.float64) * dt])


def forward(img, f, dt):
    H, W = img.shape
    y, x = np.mgrid[:H, :W].astype(np.float64)
    yd, xd = y + f[..., 1].astype(np.float64) * dt, x + f[..., 0].astype(np.float64) * dt
    y0, x0 = np.floor(yd).astype(int), np.floor(xd).astype(int)
    out = np.zeros((H, W))
    for dy in (0, 1):
        for dx in (0, 1):
            w = np.abs(1 - dy - (yd - y0)) * np.abs(1 - dx - (xd - x0))
            i, j = y0 + dy, x0 + dx
            ok = (i >= 0) & (i < H) & (j >= 0) & (j < W)
            np.add.at(out, (i[ok], j[ok]), (img * w)[ok])
    return out


def check(case):
    import jax.numpy as jnp
    from synthpix.apply import (apply_flow_to_image_backward, apply_flow_to_image_callable,
                                apply_flow_to_image_forward)

    img, f = fields(case)
    dt = case["dt"]
    J, F = jnp.asarray(img), jnp.asarray(f)
    fwd = np.asarray(apply_flow_to_image_forward(J, F, dt), np.float64)
    bwd = np.asarray(apply_flow_to_image_backward(J, F, dt), np.float64)
    # rounding of a position changes a weight by its error; values add up to `dens`
    mag = 1 + np.abs(f).max() * dt + max(case["hw"])
    dens = forward(np.ones_like(img), f, dt).max() + 4
    rf, rb = forward(img, f, dt), backward(img, f, dt)
    tol = 255 * mag * 1e-6
    close(bwd, rb, 4 * tol, "backward warping")
    close(fwd, rf, 4 * tol * dens, "forward warping")
    if case["kind"] == "zero":
        close(fwd, img, 1e-3, "forward warping by a zero flow")
        close(bwd, img, 1e-3, "backward warping by a zero flow")
    close(fwd.sum(), rf.sum(), 1e-4 * rf.sum() + 1, "brightness after forward warping")
    if case["kind"] == "affine":
        a, (H, W) = case["coef"], case["hw"]

        def flow(t, x, y):
            return (a[0] + a[2] * x / W - a[3] * y / H + t,
                    a[1] + a[4] * y / H + a[5] * x / W - t)

        for d, ref in ((True, rf), (False, rb)):
            got = apply_flow_to_image_callable(J, flow, t=case["t"], dt=dt, forward=d)
            close(got, ref, 8 * tol * (dens if d else 1) * 4,
                  f"{'forward' if d else 'backward'} warping by a function")
        got = apply_flow_to_image_callable(J, flow, t=case["t"], dt=dt)
        close(got, rb, 32 * tol, "warping by a function, default direction")
    return {"nontrivial": case["kind"] != "zero" and case["hw"][0] != case["hw"][1],
            "labels": [case["kind"]]}


@st.composite
def cases(draw, tier="quick"):
    kind = draw(st.sampled_from(["zero", "random", "integer", "affine", "affine"]))
    coef = [draw(floats(-4, 4, 2)) for _ in range(6)]
    return {"hw": draw(sides(2, 16)), "kind": kind,
            "coef": coef, "scale": draw(st.sampled_from([0.4, 2.0, 6.0])),
            "t": draw(floats(0, 3, 1)),
            "dt": 1.0 if kind == "integer" else draw(floats(0.1, 2.5, 2)),
            "seed": draw(st.integers(0, 2**20))}


PROP = Prop("C05", [
    Sub("warp", lambda tier: cases(tier), check, 320, 5000,
        "random images warped forward and backward by zero, random, integer and affine flows, "
        "as arrays and as functions, against float64 references; non-trivial: non-zero flow, "
        "non-square image"),
])
