"""Complete pipelines: configuration, data files, and the same pipeline assembled by hand."""

from __future__ import annotations

import os

import numpy as np
from hypothesis import strategies as st

from .synth import floats, offsets, speeds
from .util import require, rng, small_img, write_h5, write_mat


@st.composite
def pipelines(draw, fmts=(".npy", ".h5", ".mat"), episodes=False, plain=False):
    """A case of a synthetic pipeline; `plain` leaves the rendering parameters simple."""
    fmt = draw(st.sampled_from(list(fmts)))
    k = draw(st.integers(1, 3))
    c = {
        "fmt": fmt, "hw": [draw(st.integers(14, 30)), draw(st.integers(14, 30))],
        "res": draw(st.sampled_from([1.0, 2.0, 0.5, 8])),
        "dt": draw(st.sampled_from([1.0, 0.5, 2])),
        "vb": [draw(floats(0.3, 3, 1)) for _ in range(4)],
        "grid": [draw(st.integers(6, 14)), draw(st.integers(6, 14))],
        "lead": [draw(floats(8, 12, 1)) for _ in range(2)],
        "trail": [draw(floats(1, 6, 1)) for _ in range(2)],
        "n": draw(st.integers(1, 4)), "k": k, "batch": draw(st.integers(k, 4)),
        "bpfb": 1 if episodes else draw(st.integers(1, 2)),
        "vpp": draw(st.sampled_from([1.0, 0.5, 1.3])),
        "units": draw(st.sampled_from(["pixels", "measure units per second"])),
        "seed": draw(st.integers(0, 2**16)), "data": draw(st.integers(0, 2**20)),
        "loop": draw(st.booleans()), "randomize": draw(st.booleans()),
        "buffer": draw(st.sampled_from([0, 0, 1, 3])),
        "episode": draw(st.integers(1, 3)) if episodes else 0,
        "density": [0.02, 0.02], "hide": [0.0, 0.0], "diameter": [[1.5, 2.5]], "dvar": 0.0,
        "intensity": [[80, 200]], "ivar": 0.0, "rho": [[-0.2, 0.3]], "rvar": 0.0,
        "noise": [0.0, 0.0, 0.0], "mask": False, "histogram": False,
    }
    if not plain:
        lo = draw(floats(0.005, 0.02))
        c["density"] = [lo, lo + draw(st.sampled_from([0.0, 0.02]))]
        c["hide"] = [draw(st.sampled_from([0.0, 0.3])), draw(st.sampled_from([0.0, 0.2]))]
        c["diameter"] = draw(st.sampled_from([[[1.0, 1.5], [2.0, 2.6]], [[1.8, 1.8]]]))
        c["dvar"] = draw(st.sampled_from([0.0, 0.1]))
        c["intensity"] = draw(st.sampled_from([[[50, 60], [150, 200]], [[120, 120]]]))
        c["ivar"] = draw(st.sampled_from([0.0, 30.0]))
        c["rho"] = draw(st.sampled_from([[[-0.5, -0.2], [0.3, 0.4]], [[0.0, 0.1]]]))
        c["rvar"] = draw(st.sampled_from([0.0, 0.05]))
        c["noise"] = [draw(st.sampled_from([0.0, 12.0])), draw(st.sampled_from([0.0, 6.0])),
                      draw(st.sampled_from([0.0, 3.0]))]
        c["mask"] = draw(st.booleans())
        c["histogram"] = draw(st.sampled_from([False, False, False, True]))
    return c


def flow_data(c, shape, i):
    """Flow in length units per second, inside of the velocity bounds."""
    v = speeds(c)
    r = rng(c["data"] + i)
    u = r.uniform(v["min_speed_x"], v["max_speed_x"], shape)
    w = r.uniform(v["min_speed_y"], v["max_speed_y"], shape)
    return np.stack([u, w], -1).astype(np.float32)


def write_files(c, d):
    """Write n files; return the flows in order: [(path, flow)] and the folder."""
    out = []
    grid = tuple(c["grid"])
    root = os.path.join(d, "flows")
    os.makedirs(root)
    for i in range(c["n"]):
        if c["fmt"] == ".h5":
            p = os.path.join(root, f"f{i}.h5")
            a = flow_data(c, (grid[0], 2, grid[1]), i)
            write_h5(p, a)
            out += [(p, a[:, 0]), (p, a[:, 1])]
        elif c["fmt"] == ".npy":
            p = os.path.join(root, f"flow_{i + 1}.npy")
            a = flow_data(c, grid, i)
            np.save(p, a)
            out.append((p, a))
        else:
            sub = root
            if c["episode"]:
                sub = os.path.join(root, f"seq{i % 2}")
                os.makedirs(sub, exist_ok=True)
            p = os.path.join(sub, f"{i:03d}.mat")
            a = flow_data(c, grid, i)
            write_mat(p, V=a, I0=small_img(i, grid), I1=small_img(i + 50, grid))
            out.append((p, a))
    return sorted(out, key=lambda e: e[0]), root


def aux_files(c, d):
    mask = hist = None
    h, w = c["hw"]
    if c["mask"]:
        mask = (rng(c["data"] + 77).random((h, w)) < 0.8).astype(np.int32)
        np.save(os.path.join(d, "mask.npy"), mask)
    if c["histogram"]:
        x = rng(c["data"] + 78).integers(0, 256, h * w)
        hist = np.bincount(x, minlength=256).astype(np.float32)
        np.save(os.path.join(d, "hist.npy"), hist)
    return mask, hist


def config(c, d, file_list):
    """The configuration of the pipeline, as one would write it to a YAML file."""
    off, size = offsets(c)
    cfg = {
        "scheduler_class": c["fmt"], "file_list": file_list, "randomize": c["randomize"],
        "loop": c["loop"], "batch_size": c["batch"], "flow_fields_per_batch": c["k"],
        "batches_per_flow_batch": c["bpfb"], "seed": c["seed"], "device_ids": [0],
        "image_shape": list(c["hw"]), "img_offset": [float(o) for o in off], "dt": c["dt"],
        "seeding_density_range": c["density"], "p_hide_img1": c["hide"][0],
        "p_hide_img2": c["hide"][1], "diameter_ranges": c["diameter"],
        "diameter_var": c["dvar"], "intensity_ranges": c["intensity"],
        "intensity_var": c["ivar"], "rho_ranges": c["rho"], "rho_var": c["rvar"],
        "noise_uniform": c["noise"][0], "noise_gaussian_mean": c["noise"][1],
        "noise_gaussian_std": c["noise"][2], "flow_field_size": [float(s) for s in size],
        "resolution": c["res"], "velocities_per_pixel": c["vpp"], "output_units": c["units"],
        **{k: float(v) for k, v in speeds(c).items()},
    }
    if c["buffer"]:
        cfg["buffer_size"] = c["buffer"]
    if c["episode"]:
        cfg["episode_length"] = c["episode"]
    if c["mask"]:
        cfg["mask"] = os.path.join(d, "mask.npy")
    if c["histogram"]:
        cfg["histogram"] = os.path.join(d, "hist.npy")
    return cfg


def by_hand(c, scheduler, mask, hist):
    """The synthetic sampler of the case, from its constructor."""
    import jax.numpy as jnp

    from synthpix.sampler import SyntheticImageSampler
    from synthpix.types import ImageGenerationSpecification

    off, size = offsets(c)
    sp = ImageGenerationSpecification(
        batch_size=c["batch"], image_shape=tuple(c["hw"]),
        img_offset=tuple(float(o) for o in off),
        seeding_density_range=tuple(c["density"]), p_hide_img1=c["hide"][0],
        p_hide_img2=c["hide"][1], diameter_ranges=[tuple(r) for r in c["diameter"]],
        diameter_var=c["dvar"], intensity_ranges=[tuple(r) for r in c["intensity"]],
        intensity_var=c["ivar"], rho_ranges=[tuple(r) for r in c["rho"]], rho_var=c["rvar"],
        dt=c["dt"], noise_uniform=c["noise"][0], noise_gaussian_mean=c["noise"][1],
        noise_gaussian_std=c["noise"][2])
    return SyntheticImageSampler(
        scheduler=scheduler, batches_per_flow_batch=c["bpfb"], flow_fields_per_batch=c["k"],
        flow_field_size=tuple(float(s) for s in size), resolution=c["res"],
        velocities_per_pixel=c["vpp"], seed=c["seed"], output_units=c["units"],
        device_ids=[0], generation_specification=sp,
        mask_images=None if mask is None else jnp.array(mask),
        histogram=None if hist is None else jnp.array(hist),
        **{k: float(v) for k, v in speeds(c).items()})


def base_scheduler(c, file_list, **kw):
    from synthpix.scheduler import (HDF5FlowFieldScheduler, MATFlowFieldScheduler,
                                    NumpyFlowFieldScheduler)

    cls = {".h5": HDF5FlowFieldScheduler, ".npy": NumpyFlowFieldScheduler,
           ".mat": MATFlowFieldScheduler}[c["fmt"]]
    return cls(file_list, **kw)


FIELDS = ("images1", "images2", "flow_fields", "done", "mask")
PARAMS = ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges")


def arrays(b):
    """All data of a batch as numpy arrays."""
    out = {n: None if getattr(b, n) is None else np.asarray(getattr(b, n)) for n in FIELDS}
    for n in PARAMS:
        p = b.params
        out[n] = None if p is None else np.asarray(getattr(p, n))
    return out


def same(a, b, what):
    """Two batches are equal in every field, bit by bit.

    Without episodes a prefetched pipeline says `done` = all false where an
    unbuffered one says None; both mean that nothing has ended.
    """
    require(a.files == b.files, "{}: files {} and {}", what, a.files, b.files)
    x, y = arrays(a), arrays(b)
    for n in x:
        if n == "done" and (x[n] is None) != (y[n] is None):
            require(not np.any(x[n] if y[n] is None else y[n]), "{}: an end in only one", what)
            continue
        require((x[n] is None) == (y[n] is None), "{}: {} only in one of them", what, n)
        if x[n] is not None:
            require(x[n].shape == y[n].shape and x[n].dtype == y[n].dtype,
                    "{}: {} of {} {} and {} {}", what, n, x[n].dtype, x[n].shape, y[n].dtype,
                    y[n].shape)
            require(np.array_equal(x[n], y[n]), "{}: {} differ in {} of {} values", what, n,
                    int((x[n] != y[n]).sum()), x[n].size)


def read(s, n, what="", episodes=False):
    """The next n batches of a sampler, or fewer at the end (None marks it)."""
    from synthpix.scheduler.protocol import EpisodeEnd

    out = []
    for _ in range(n):
        try:
            out.append(next(s))
        except StopIteration:
            out.append(None)
            break
        except EpisodeEnd:
            if not episodes:
                raise
            s.next_episode()
            out.append(next(s))
    return out


def same_streams(a, b, what):
    require(len(a) == len(b), "{}: {} batches and {}", what, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        require((x is None) == (y is None), "{}: batch {}: only one has ended", what, i)
        if x is not None:
            same(x, y, f"{what}: batch {i}")


def close_timeouts(s):
    """Give the prefetcher of a pipeline all the time that it needs."""
    p = s.scheduler
    if hasattr(p, "startup_timeout"):
        p.startup_timeout = 200.0
        p.steady_state_timeout = 200.0
    return s
