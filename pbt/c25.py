"""C25: batches and specifications keep their fields through every conversion."""

import copy
import dataclasses
import pickle

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .util import eq, raises, require, rng

PARAMS = ["seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges"]
BATCH = ["images1", "images2", "flow_fields", "params", "done", "mask", "files"]
SCHED = ["flow_fields", "images1", "images2", "mask", "files"]


def same(a, b, what):
    """Equal values, with the same identity of absent fields."""
    if a is None or b is None:
        require(a is None and b is None, "{}: {} instead of {}", what, a, b)
    elif dataclasses.is_dataclass(a):
        require(type(a) is type(b), "{}: {}", what, type(b))
        for f in dataclasses.fields(a):
            same(getattr(a, f.name), getattr(b, f.name), f"{what}.{f.name}")
    elif isinstance(a, (tuple, list)) and a and isinstance(a[0], str):
        require(tuple(a) == tuple(b), "{}: {} instead of {}", what, a, b)
    else:
        eq(np.asarray(a), np.asarray(b), what)


def value(name, r, B):
    import jax.numpy as jnp
    from synthpix.types import ImageGenerationParameters

    if name in ("images1", "images2"):
        return jnp.asarray(r.uniform(0, 255, (B, 4, 5)).astype(np.float32))
    if name == "flow_fields":
        return jnp.asarray(r.normal(size=(B, 3, 4, 2)).astype(np.float32))
    if name == "params":
        return ImageGenerationParameters(**{n: value(n, r, B) for n in PARAMS})
    if name == "seeding_densities":
        return jnp.asarray(r.uniform(size=(B,)).astype(np.float32))
    if name in PARAMS:
        return jnp.asarray(r.uniform(size=(B, 2)).astype(np.float32))
    if name in ("done", "mask"):
        return jnp.asarray(r.random(B) < 0.5)
    return tuple(f"file{r.integers(1000)}" for _ in range(B))


def check_batch(case):
    import jax
    from synthpix.types import SchedulerData, SynthpixBatch

    r = rng(case["seed"])
    B = case["B"]
    for cls, names in ((SynthpixBatch, BATCH), (SchedulerData, SCHED)):
        required = {"images1", "images2", "flow_fields"} if cls is SynthpixBatch else {
            "flow_fields"}
        vals = {n: value(n, r, B) if n in required or n in case["present"] else None
                for n in names}
        b = cls(**vals)
        ref = cls(**copy.copy(vals))
        what = cls.__name__
        # positional order of the documented fields
        same(cls(*[vals[n] for n in names]), ref, f"{what} built by position")
        new = {n: value(n, r, B) for n in case["update"] if n in names}
        for n in case["clear"]:
            if n in names and n not in required:
                new[n] = None
        u = b.update(**new)
        require(u is not b and type(u) is cls, "{}: update returns {}", what, type(u))
        same(u, cls(**{**vals, **new}), f"{what} after update of {sorted(new)}")
        same(b, ref, f"{what} itself after update")
        same(b.update(), ref, f"{what} after an empty update")
        same(copy.deepcopy(b), ref, f"copy of {what}")
        if cls is SynthpixBatch:
            leaves, tree = jax.tree_util.tree_flatten(b)
            back = jax.tree_util.tree_unflatten(tree, leaves)
            same(back, ref, "batch flattened and rebuilt")
            seen = jax.tree_util.tree_map(lambda x: x, b)
            same(seen, ref, "batch after tree_map")
            arrays = b.update(files=None)
            out = jax.jit(lambda t: t)(arrays)
            same(out, ref.update(files=None), "batch after jit")
            twice = jax.tree_util.tree_map(lambda x, y: x if x is y else None, arrays, arrays)
            same(twice, arrays, "batch after a two-argument tree_map")
            if vals["params"] is not None:
                p = vals["params"]
                q = jax.tree_util.tree_map(lambda x: x + 1, p)
                for n in PARAMS:
                    eq(np.asarray(getattr(q, n)), np.asarray(getattr(p, n)) + 1, f"params.{n}")
                stacked = jax.vmap(lambda t: t)(p)
                same(stacked, p, "parameters after vmap")
    return {"nontrivial": len(case["present"]) >= 1, "labels": [f"{len(case['present'])} present"]}


@st.composite
def batch_cases(draw, tier="quick"):
    opt = st.lists(st.sampled_from(BATCH), unique=True, max_size=7)
    return {"B": draw(st.integers(1, 4)), "present": draw(opt), "update": draw(opt),
            "clear": draw(st.lists(st.sampled_from(["params", "done", "mask", "files"]),
                                   unique=True, max_size=2)),
            "seed": draw(st.integers(0, 2**20))}


SPEC = {
    "batch_size": st.integers(1, 500),
    "image_shape": st.tuples(st.integers(1, 99), st.integers(1, 99)),
    "img_offset": st.tuples(st.integers(0, 99), st.integers(0, 99)),
    "seeding_density_range": st.tuples(st.integers(0, 9), st.integers(10, 90)),
    "p_hide_img1": st.integers(0, 100).map(lambda i: i / 100),
    "p_hide_img2": st.integers(0, 100).map(lambda i: i / 100),
    "diameter_ranges": st.lists(st.tuples(st.integers(1, 5), st.integers(5, 9)), min_size=1,
                                max_size=3),
    "diameter_var": st.integers(0, 9),
    "intensity_ranges": st.lists(st.tuples(st.integers(1, 50), st.integers(50, 90)), min_size=1,
                                 max_size=3),
    "intensity_var": st.integers(0, 9),
    "rho_ranges": st.lists(st.tuples(st.integers(-9, 0), st.integers(0, 9)).map(
        lambda t: (t[0] / 10, t[1] / 10)), min_size=1, max_size=3),
    "rho_var": st.integers(0, 9), "dt": st.integers(1, 9), "noise_uniform": st.integers(0, 99),
    "noise_gaussian_mean": st.integers(0, 99), "noise_gaussian_std": st.integers(0, 99),
}


def fields(d):
    from .c22 import as_field
    return {k: as_field(k, v) for k, v in d.items()}


def check_spec(case):
    from synthpix.types import ImageGenerationSpecification as S

    base, new = fields(case["base"]), fields(case["new"])
    default = {f: getattr(S(), f) for f in SPEC}
    s = S(**base)
    want = {**default, **base}
    u = s.update(**new)
    require(u is not s, "update returns the same object")
    for name, obj, ref in (("updated", u, {**want, **new}), ("original", s, want),
                           ("copied", copy.deepcopy(s), want),
                           ("unpickled", pickle.loads(pickle.dumps(s)), want),
                           ("rebuilt", S(**{f.name: getattr(s, f.name)
                                            for f in dataclasses.fields(s)}), want)):
        for f in SPEC:
            require(getattr(obj, f) == ref[f], "{} specification: {} is {} instead of {}", name,
                    f, getattr(obj, f), ref[f])
    require(s.update() == s, "an empty update changes the specification")
    bad = {"batch_size": 0, "dt": -1, "p_hide_img1": 2.0, "rho_ranges": [(0.5, 0.1)],
           "diameter_ranges": [], "noise_gaussian_std": -1}
    name = sorted(bad)[case["bad"] % len(bad)]
    raises(ValueError, lambda: s.update(**{name: bad[name]}), f"update to {name}={bad[name]}")
    raises((dataclasses.FrozenInstanceError, AttributeError),
           lambda: setattr(s, name, default[name]), "assignment to a specification")
    return {"nontrivial": len(new) >= 1, "labels": [f"{len(new)} updated"]}


@st.composite
def spec_cases(draw, tier="quick"):
    def some():
        names = draw(st.lists(st.sampled_from(sorted(SPEC)), unique=True, max_size=16))
        return {n: draw(SPEC[n]) for n in names}
    return {"base": some(), "new": some(), "bad": draw(st.integers(0, 5))}


PROP = Prop("C25", [
    Sub("batch", lambda tier: batch_cases(tier), check_batch, 600, 8000,
        "batches and scheduler data with any subset of optional fields: built, flattened, "
        "mapped, jitted and updated in any subset of fields; non-trivial: some optional field "
        "present"),
    Sub("spec", lambda tier: spec_cases(tier), check_spec, 1600, 20000,
        "image specifications updated in any subset of their 16 fields; non-trivial: at least "
        "one field updated"),
])
