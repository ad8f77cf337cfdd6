"""C22: invalid configurations are refused, valid ones accepted."""

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub, Violation
from .synth import make_sampler, offsets
from .util import require

EPS = [0, 1e-6, -1e-6, 1, -1, 0.5, -0.5, 2, 250, 1e-3]
FIELDS = ["batch_size", "image_shape", "img_offset", "seeding_density_range", "p_hide_img1",
          "p_hide_img2", "diameter_ranges", "diameter_var", "intensity_ranges", "intensity_var",
          "rho_ranges", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean",
          "noise_gaussian_std"]


def valid(name, v):
    """The documented domain of a field."""
    num = isinstance(v, (int, float))
    if name == "batch_size":
        return isinstance(v, int) and v > 0
    if name == "image_shape":
        return len(v) == 2 and all(isinstance(x, int) and x > 0 for x in v)
    if name == "img_offset":
        return len(v) == 2 and all(x >= 0 for x in v)
    if name == "seeding_density_range":
        return len(v) == 2 and 0 <= v[0] <= v[1]
    if name.startswith("p_hide"):
        return 0 <= v <= 1
    if name in ("diameter_ranges", "intensity_ranges"):
        return len(v) > 0 and all(len(r) == 2 and 0 < r[0] <= r[1] for r in v)
    if name == "rho_ranges":
        return len(v) > 0 and all(len(r) == 2 and -1 < r[0] <= r[1] < 1 for r in v)
    if name == "dt":
        return num and v > 0
    return num and v >= 0


def as_field(name, v):
    if name in ("image_shape", "img_offset", "seeding_density_range"):
        return tuple(v)
    if name.endswith("_ranges"):
        return [tuple(r) for r in v]
    return v


def check_spec(case):
    from synthpix.types import ImageGenerationSpecification

    kw = {k: as_field(k, v) for k, v in case["fields"].items()}
    good = all(valid(k, v) for k, v in case["fields"].items())
    for how in ("constructor", "update"):
        try:
            if how == "constructor":
                s = ImageGenerationSpecification(**kw)
            else:
                s = ImageGenerationSpecification().update(**kw)
        except ValueError as e:
            require(not good, "{}: valid values {} are refused: {}", how, kw, e)
        else:
            require(good, "{}: invalid values {} are accepted", how, kw)
            for k, v in kw.items():
                require(getattr(s, k) == v, "{}: {} is {} instead of {}", how, k,
                        getattr(s, k), v)
    return {"nontrivial": True, "labels": ["valid" if good else "invalid"]}


@st.composite
def values(draw, name):
    x = st.sampled_from(EPS)
    if name == "batch_size":
        return draw(st.sampled_from([1, 2, 300, 0, -1, 1.5, 1.0]))
    if name == "image_shape":
        return draw(st.lists(st.sampled_from([1, 2, 64, 0, -3, 8.0, 1, 5]), min_size=1,
                             max_size=3))
    if name in ("img_offset", "seeding_density_range"):
        return draw(st.lists(x, min_size=2, max_size=2)) if draw(st.booleans()) else \
            draw(st.lists(x.map(abs), min_size=1, max_size=3))
    if name.startswith("p_hide"):
        return draw(st.sampled_from([0, 1, 0.0, 1.0, 0.5, -1e-6, 1.000001, 2, -1]))
    if name.endswith("_ranges"):
        if name == "rho_ranges":
            x = st.sampled_from([-1, -0.999, -0.5, 0, 0.5, 0.999, 1, 1.2, -1.2])
        rng_ = st.one_of(st.lists(x, min_size=2, max_size=2).map(sorted),
                         st.lists(x, min_size=2, max_size=2))
        if draw(st.integers(0, 9)) == 0:
            rng_ = st.lists(x, min_size=1, max_size=3)
        return draw(st.lists(rng_, min_size=0 if draw(st.integers(0, 5)) == 0 else 1, max_size=3))
    return draw(x)


@st.composite
def spec_cases(draw, tier="quick"):
    names = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=2, unique=True))
    return {"fields": {n: draw(values(n)) for n in names}}


# -- geometry of the sampler ------------------------------------------------
def check_geometry(case):
    g = case["geom"]
    room = min(g["lead"] + g["trail"])
    fits = room > 0
    off, _ = offsets(g)
    if min(off) < 0:  # the specification itself refuses a negative offset
        fits = False
    flows = np.zeros((case["k"], *g["grid"], 2), np.float32)
    try:
        s, _ = make_sampler(g, flows, case["batch"], seed=1, vpp=case["vpp"],
                            diameter_ranges=[(0.8, case["d"])], p_hide_img1=case["hide"])
    except ValueError as e:
        require(not fits, "a geometry with {} pixels to spare is refused: {}", room, e)
        return {"nontrivial": True, "labels": ["refused"]}
    require(fits, "a geometry that is {} pixels too large is accepted", -room)
    b = next(s)
    H, W = g["hw"]
    for a in (b.images1, b.images2):
        a = np.asarray(a)
        require(a.shape == (case["batch"], H, W), "images of shape {} instead of {}", a.shape,
                (case["batch"], H, W))
        require(np.all(np.isfinite(a)), "images are not finite")
    f = np.asarray(b.flow_fields)
    require(np.all(np.isfinite(f)) and f.shape[0] == case["batch"], "flows of shape {}", f.shape)
    return {"nontrivial": True, "labels": ["accepted"]}


@st.composite
def geometry_cases(draw, tier="quick"):
    px = st.sampled_from([0.2, 0.5, 3.0, 10.0])
    lead, trail = [draw(px), draw(px)], [draw(px), draw(px)]
    bad = draw(st.integers(0, 7))
    if bad < 4:  # one side is too close to the edge of the flow
        (lead + trail)[bad]
        (lead if bad < 2 else trail)[bad % 2] = draw(st.sampled_from([-0.2, -1.0, -5.0]))
    # exact fractions of pixels, so that rounding does not decide
    return {"geom": {"hw": [draw(st.integers(1, 40)), draw(st.integers(1, 40))],
                     "res": draw(st.sampled_from([1.0, 2.0, 0.5, 1.3, 10.0, 3.7])),
                     "dt": draw(st.sampled_from([1.0, 0.5, 0.1, 2.0])),
                     "vb": [draw(st.sampled_from([0.0, 0.3, 4.0, 9.0])) for _ in range(4)],
                     "grid": [draw(st.integers(1, 30)), draw(st.integers(1, 30))],
                     "lead": lead, "trail": trail},
            "k": draw(st.integers(1, 2)), "batch": draw(st.integers(2, 3)),
            "vpp": draw(st.sampled_from([1.0, 2.0, 1.5])), "d": draw(st.sampled_from([1.0, 5.0])),
            "hide": draw(st.sampled_from([0.0, 0.1]))}


# -- other arguments of the sampler -----------------------------------------
G = {"hw": [16, 20], "res": 2.0, "dt": 1.0, "vb": [1.0, 1.0, 1.0, 1.0], "grid": [10, 12],
     "lead": [1.0, 1.0], "trail": [1.0, 1.0]}
ARGS = {
    "batches_per_flow_batch": ([1, 3], [0, -1, 1.5, "2", None]),
    "flow_fields_per_batch": ([1, 2, 4], [0, -1, 5, 1.5, None]),
    "flow_field_size": ([(30.0, 30), (25.0, 40.0)], [(0, 30), (30, -1.0), (1.0, 1.0), (30, "a")]),
    "resolution": ([2, 2.0], [0, -1, "1", None]),
    "velocities_per_pixel": ([1, 0.5, 2], [0, -0.5, "1", None]),
    "seed": ([0, 7, 2**31 - 1], [-1, 1.5, "1", None]),
    "max_speed_x": ([0, 1.5, -0.1], ["1", None, -3, 1e6]),
    "max_speed_y": ([0, 1.5, -0.1], ["1", None, -3, 1e6]),
    "min_speed_x": ([0, -1.5, 0.1], ["1", None, 3, -1e6]),
    "min_speed_y": ([0, -1.5, 0.1], ["1", None, 3, -1e6]),
    "output_units": (["pixels", "measure units per second"], ["px", "", None, "Pixels"]),
    "mask_images": ([None, (16, 20)], [(20, 16), (16, 21), (320,)]),
    "histogram": ([None, "ok"], ["short", "wrong"]),
    "scheduler": (["ok"], ["none", "object"]),
}


def check_args(case):
    import jax.numpy as jnp
    from synthpix.sampler import SyntheticImageSampler

    from .synth import spec, speeds
    from .util import MemScheduler

    off, size = offsets(G)
    kw = dict(scheduler=MemScheduler(np.zeros((4, 10, 12, 2), np.float32)),
              batches_per_flow_batch=1, flow_fields_per_batch=2, flow_field_size=(30.0, 30.0),
              resolution=2.0, velocities_per_pixel=1.0, seed=0, output_units="pixels",
              device_ids=[0], generation_specification=spec(G, 4, img_offset=(3.0, 3.0)),
              **speeds(G))
    good = True
    for name, ok, i in case["args"]:
        v = ARGS[name][0 if ok else 1][i]
        good &= ok
        if name == "mask_images" and v is not None:
            v = jnp.ones(v)
        elif name == "histogram":
            v = {None: None, "ok": jnp.full((256,), 320 / 256), "short": jnp.full((255,), 1.0),
                 "wrong": jnp.full((256,), 1.0)}[v]
        elif name == "scheduler":
            v = {"ok": kw["scheduler"], "none": None, "object": object()}[v]
        kw[name] = v
    try:
        SyntheticImageSampler(**kw)
    except (ValueError, TypeError) as e:
        require(not good, "valid arguments {} are refused: {}", case["args"], e)
    else:
        require(good, "invalid arguments {} are accepted",
                [(n, ARGS[n][1][i]) for n, ok, i in case["args"] if not ok])
    return {"nontrivial": True, "labels": ["valid" if good else "invalid"]}


@st.composite
def arg_cases(draw, tier="quick"):
    # speeds of one axis depend on each other: at most one of each pair
    name = draw(st.sampled_from(sorted(ARGS)))
    out = []
    ok = draw(st.integers(0, 3)) == 0
    out.append([name, ok, draw(st.integers(0, len(ARGS[name][0 if ok else 1]) - 1))])
    other = draw(st.sampled_from(["output_units", "seed", "velocities_per_pixel",
                                  "batches_per_flow_batch"]))
    if other != name:
        out.append([other, True, draw(st.integers(0, len(ARGS[other][0]) - 1))])
    return {"args": out}


PROP = Prop("C22", [
    Sub("spec", lambda tier: spec_cases(tier), check_spec, 2400, 40000,
        "image specifications with one or two fields at or around the limits of their domain, "
        "built and updated, against the documented domains; non-trivial: all"),
    Sub("geometry", lambda tier: geometry_cases(tier), check_geometry, 64, 1500,
        "sampler geometries that fit by, or exceed the flow field by, fractions of a pixel to "
        "ten pixels on each side; accepted ones must give finite images of the right shape; "
        "non-trivial: all"),
    Sub("args", lambda tier: arg_cases(tier), check_args, 240, 4000,
        "one invalid or only valid arguments of the synthetic sampler; non-trivial: all"),
])
