"""C04: particles advance by the interpolated flow times the time step."""

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .synth import floats
from .util import close, require, rng


def ref_linear(vol, pts):
    """Multilinear interpolation with nearest border values, in float64."""
    shape = vol.shape
    pts = [np.clip(p, 0, n - 1) for p, n in zip(pts, shape)]
    lo = [np.floor(p).astype(int) for p in pts]
    hi = [np.minimum(i + 1, n - 1) for i, n in zip(lo, shape)]
    fr = [p - i for p, i in zip(pts, lo)]
    out = 0.0
    for corner in range(2 ** len(shape)):
        w, idx = 1.0, []
        for a in range(len(shape)):
            up = corner >> a & 1
            w = w * (fr[a] if up else 1 - fr[a])
            idx.append(hi[a] if up else lo[a])
        out = out + w * vol[tuple(idx)]
    return out


def positions(case, shape, n):
    r = rng(case["seed"] + 1)
    m = case["margin"]
    p = r.uniform(-m, 1 + m, (n, len(shape))) * (np.array(shape) - 1)
    if case["nodes"]:
        p = np.round(p)
    # a few on the corners and the far edges
    p[0] = 0
    p[1] = np.array(shape) - 1
    p[2, 0] = shape[0] - 1
    p[3, -1] = shape[-1] - 1
    return p.astype(np.float32)


def check_advance(case):
    import jax.numpy as jnp
    from synthpix.apply import apply_flow_to_particles

    shape = case["grid"]
    dim = len(shape)
    flow = rng(case["seed"]).normal(size=(*shape, dim)).astype(np.float32) * case["scale"]
    pos = positions(case, shape, 24)
    kw = {"flow_field_res_x": case["res"][0], "flow_field_res_y": case["res"][1]}
    if dim == 3:
        kw["flow_field_res_z"] = case["res"][2]
    new = np.asarray(apply_flow_to_particles(jnp.asarray(pos), jnp.asarray(flow),
                                             dt=case["dt"], **kw), np.float64)
    require(new.shape == pos.shape, "shape {} instead of {}", new.shape, pos.shape)
    p = [pos[:, a].astype(np.float64) for a in range(dim)]
    want = np.empty_like(new)
    for a in range(dim):
        # positions are (.., y, x), components (x, y, ..)
        c = dim - 1 - a
        want[:, a] = p[a] + ref_linear(flow[..., c].astype(np.float64), p) * \
            case["res"][c] * case["dt"]
    k = case["scale"] * max(case["res"]) * case["dt"]
    close(new, want, 1e-4 * (1 + k) * max(shape) / 8, "advanced positions")
    return {"nontrivial": len(set(shape)) > 1,
            "labels": [f"{dim}D", "nodes" if case["nodes"] else "free",
                       "outside" if case["margin"] else "inside"]}


def check_interpolate(case):
    import jax.numpy as jnp
    from synthpix.utils import bilinear_interpolate, trilinear_interpolate

    shape = case["grid"]
    vol = rng(case["seed"]).normal(size=shape).astype(np.float32) * case["scale"]
    pos = positions(case, shape, 24)
    p = [pos[:, a] for a in range(len(shape))]
    if len(shape) == 2:
        got = bilinear_interpolate(jnp.asarray(vol), jnp.asarray(p[1]), jnp.asarray(p[0]))
    else:
        got = trilinear_interpolate(jnp.asarray(vol), jnp.asarray(p[2]), jnp.asarray(p[1]),
                                    jnp.asarray(p[0]))
    want = ref_linear(vol.astype(np.float64), [a.astype(np.float64) for a in p])
    close(got, want, 2e-5 * case["scale"] * max(shape), "interpolated values")
    if case["nodes"]:
        i = tuple(np.clip(a, 0, n - 1).astype(int) for a, n in zip(p, shape))
        close(got, vol[i], 1e-5 * case["scale"], "values at the nodes")
    return {"nontrivial": len(set(shape)) > 1, "labels": [f"{len(shape)}D"]}


@st.composite
def cases(draw, tier="quick"):
    dim = draw(st.sampled_from([2, 2, 3]))
    grid = [draw(st.integers(2, 14)) for _ in range(dim)]
    if draw(st.sampled_from([False] * 11 + [True])):
        grid[draw(st.integers(0, dim - 1))] = draw(st.integers(257, 400))
    return {"grid": grid,
            "scale": draw(st.sampled_from([1.0, 0.1, 5.0])),
            "margin": draw(st.sampled_from([0.0, 0.0, 0.3, 2.0])),
            "nodes": draw(st.booleans()), "dt": draw(floats(0.05, 3, 2)),
            "res": [draw(floats(0.2, 4, 2)) for _ in range(3)],
            "seed": draw(st.integers(0, 2**20))}


PROP = Prop("C04", [
    Sub("advance", lambda tier: cases(tier), check_advance, 640, 12000,
        "24 particles (inside, on borders, corners and nodes, and outside) advanced in random "
        "2D and 3D flows with a resolution for each axis, against a float64 reference; "
        "non-trivial: axes of different lengths"),
    Sub("interpolate", lambda tier: cases(tier), check_interpolate, 320, 6000,
        "bilinear and trilinear interpolation against the same reference, and exact values at "
        "grid nodes; non-trivial: axes of different lengths"),
])
