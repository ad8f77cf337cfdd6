"""C15: MAT files of every version load the stored flow and images."""

import os

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .util import eq, raises, require, scratch, sides, small_flow, small_img

VERSIONS = ["5", "5z", "7.3", "7.3h", "7.3m", "7.3a"]


def write(path, version, data):
    """v5 (plain, compressed), v7.3 by h5py (bare, with header, compressed with attributes)
    or as MATLAB writes it."""
    import h5py
    import scipy.io

    if version.startswith("5"):
        scipy.io.savemat(path, data, format="5", do_compression=version == "5z")
        return
    with h5py.File(path, "w", userblock_size=0 if version == "7.3" else 512) as f:
        for k, a in data.items():
            a = np.asarray(a)
            if version == "7.3m":
                ds = f.create_dataset(k, data=np.ascontiguousarray(a.T))
                ds.attrs["MATLAB_class"] = np.bytes_(
                    {"float32": "single", "float64": "double"}.get(str(a.dtype), str(a.dtype)))
            elif version == "7.3a":
                ds = f.create_dataset(k, data=a, chunks=a.ndim > 0 or None,
                                      compression="gzip" if a.ndim > 0 else None)
                ds.attrs["units"] = "px"
            else:
                f.create_dataset(k, data=a)
    if version != "7.3":
        head = b"MATLAB 7.3 MAT-file, Platform: GLNXA64".ljust(116) + b" " * 8 + b"\x00\x02IM"
        with open(path, "r+b") as f:
            f.write(head)


def ramp(h, w, abc):
    """a + b x + c y, x and y the pixel centres."""
    a, b, c = abc
    y, x = np.mgrid[0:h, 0:w]
    return a + b * x + c * y


def check_ramp(got, hw, out, abc, factor, step, what):
    """`got` must be factor * ramp resampled from size hw to out."""
    h, w = hw
    H, W = out
    got = np.asarray(got, np.float64)
    require(got.shape == (H, W), "{}: shape {} instead of {}", what, got.shape, out)
    a, b, c = abc
    sx, sy = w / W, h / H
    x, y = (np.arange(W) + 0.5) * sx - 0.5, (np.arange(H) + 0.5) * sy - 0.5
    want = factor * (a + b * x[None, :] + c * y[:, None])
    src = factor * ramp(h, w, abc)
    eps = 1e-4 * (1 + np.abs(src).max()) + step
    require(got.min() >= src.min() - eps and got.max() <= src.max() + eps,
            "{}: values in [{}, {}] from values in [{}, {}]", what, got.min(), got.max(),
            src.min(), src.max())
    rx, ry = max(1.0, sx), max(1.0, sy)
    inx = (x - rx >= -1e-9) & (x + rx <= w - 1 + 1e-9)
    iny = (y - ry >= -1e-9) & (y + ry <= h - 1 + 1e-9)
    tol = abs(factor) * (abs(b) * (0.1 if sx <= 1 else 0.25 * sx)
                         + abs(c) * (0.1 if sy <= 1 else 0.25 * sy)) + eps
    inner = np.ix_(iny, inx)
    err = np.abs(got - want)[inner]
    if err.size:
        i = np.unravel_index(np.argmax(err), err.shape)
        require(err.max() <= tol, "{}: {} instead of {} at inner pixel {} (tolerance {:.3g})",
                what, got[inner][i], want[inner][i], tuple(int(j) for j in i), tol)
    return err.size


def load(case, p, out, images):
    from synthpix.scheduler import MATFlowFieldScheduler

    s = MATFlowFieldScheduler([p], include_images=images, output_shape=tuple(out))
    require(tuple(s.get_flow_fields_shape()) == tuple(out) + (2,), "get_flow_fields_shape() {}",
            s.get_flow_fields_shape())
    b = s.get_batch(1)
    require(tuple(b.files) == (p,), "files {}", b.files)
    require(b.flow_fields.shape == (1,) + tuple(out) + (2,), "flow of shape {}",
            b.flow_fields.shape)
    if not images:
        require(b.images1 is None and b.images2 is None, "images are not asked for")
    return b


def store(case, d, flow, i0, i1):
    v = {"V": np.moveaxis(flow, -1, 0) if case["first"] else flow}
    if i0 is not None:
        v["I0"], v["I1"] = i0, i1
    for k, n in enumerate(case["extra"]):
        v[n] = np.full((3, 4), k, np.float64)
    items = list(v.items())
    items = items[case["turn"] % len(items):] + items[:case["turn"] % len(items)]
    p = os.path.join(d, "a.mat")
    write(p, case["version"], dict(items))
    return p


def check_same(case):
    """Same size: what is stored, exactly."""
    h, w = case["hw"]
    dt = np.dtype(case["dtype"])
    flow = small_flow(case["seed"], (h, w, 2))
    flow = (flow / 512 * 1000).astype(dt) if dt.kind == "f" else flow.astype(dt)
    shape = (h, w, 3) if case["colour"] else (h, w)
    i0, i1 = small_img(case["seed"] + 1, shape), small_img(case["seed"] + 2, shape)
    with scratch() as d:
        p = store(case, d, flow, i0, i1)
        b = load(case, p, (h, w), case["images"])
        eq(b.flow_fields[0], flow, "flow")
        if case["images"]:
            eq(b.images1[0], i0, "images1")
            eq(b.images2[0], i1, "images2")
    return {"labels": [case["version"], "first" if case["first"] else "last"]}


def check_resize(case):
    h, w = case["hw"]
    out = case["out"]
    u, v = case["u"], case["v"]
    flow = np.stack([ramp(h, w, u), ramp(h, w, v)], -1).astype(case["dtype"])
    ih, iw = case["img_hw"]
    imgs = []
    if case["images"]:
        for a in case["img"]:
            g = np.round(ramp(ih, iw, a)).astype(np.uint8)
            imgs.append(np.stack([g, 255 - g, g], -1) if case["colour"] else g)
    with scratch() as d:
        p = store(case, d, flow, *(imgs or (None, None)))
        b = load(case, p, out, case["images"])
        n = check_ramp(b.flow_fields[0, ..., 0], (h, w), out, u, out[1] / w, 0.0, "flow x")
        check_ramp(b.flow_fields[0, ..., 1], (h, w), out, v, out[0] / h, 0.0, "flow y")
        for k, a in enumerate(case["img"] if case["images"] else []):
            g = np.asarray((b.images1, b.images2)[k][0])
            name = f"images{k + 1}"
            require(g.shape == tuple(out) + ((3,) if case["colour"] else ()), "{}: shape {}",
                    name, g.shape)
            if case["colour"]:
                inv = (255 - a[0], -a[1], -a[2])
                for ch, abc in enumerate((a, inv, a)):
                    check_ramp(g[..., ch], (ih, iw), out, abc, 1.0, 1.6, f"{name}[{ch}]")
            else:
                check_ramp(g, (ih, iw), out, a, 1.0, 1.6, name)
    return {"nontrivial": n > 0 and list(out) != [h, w],
            "labels": ["up" if out[0] > h else "down", case["version"]]}


@st.composite
def base_cases(draw):
    first = draw(st.booleans())
    hw = draw(sides(2, 24))
    hw[1] = max(hw[1], 3 if first else 2)
    return {"version": draw(st.sampled_from(VERSIONS)), "first": first,
            "hw": hw,
            "extra": draw(st.lists(st.sampled_from(["A", "v", "I2", "Z", "I00", "X"]),
                                   max_size=2, unique=True)),
            "turn": draw(st.integers(0, 4)), "images": draw(st.booleans()),
            "colour": draw(st.booleans()), "seed": draw(st.integers(0, 2**20))}


@st.composite
def same_cases(draw, tier="quick"):
    c = draw(base_cases())
    c["dtype"] = draw(st.sampled_from(["float32", "float64", "int16"]))
    return c


@st.composite
def resize_cases(draw, tier="quick"):
    c = draw(base_cases())
    size = st.integers(2, 48)
    c["dtype"] = draw(st.sampled_from(["float32", "float64"]))
    c["out"] = [draw(size), draw(size)]
    c["img_hw"] = c["hw"] if draw(st.booleans()) else [draw(size), draw(size)]
    coef = st.integers(-20, 20).map(lambda i: i / 8)
    c["u"] = [draw(coef) * 4, draw(coef), draw(coef)]
    c["v"] = [draw(coef) * 4, draw(coef), draw(coef)]
    ih, iw = c["img_hw"]
    c["img"] = []
    for _ in range(2):
        b, d = (draw(st.integers(-8, 8)) / 8 * 120 / max(n - 1, 1) for n in (iw, ih))
        c["img"].append([127.0, b / 2, d / 2])
    return c


def check_refuse(case):
    from synthpix.scheduler import MATFlowFieldScheduler

    with scratch() as d:
        p = os.path.join(d, "a.mat")
        write(p, "5", {"V": np.zeros((4, 4, 2), np.float32)})
        kw = {"output_shape": {"list": [4, 4], "one": (4,), "three": (4, 4, 2), "zero": (0, 4),
                               "neg": (4, -4), "float": (4.0, 4), "none": None}[case["shape"]]}
        raises(ValueError, lambda: MATFlowFieldScheduler([p], **kw), f"output_shape {kw}")
        raises(ValueError, lambda: MATFlowFieldScheduler([p], include_images=case["flag"]),
               f"include_images={case['flag']}")


@st.composite
def refuse_cases(draw, tier="quick"):
    return {"shape": draw(st.sampled_from(["list", "one", "three", "zero", "neg", "float",
                                           "none"])),
            "flag": draw(st.sampled_from([1, 0, "yes", None]))}


PROP = Prop("C15", [
    Sub("same", lambda tier: same_cases(tier), check_same, 1920, 30000,
        "v5 (plain, compressed) and v7.3 files (by h5py, with MATLAB header, as MATLAB writes "
        "them) in both layouts, other variables around, grey and colour images; the data is "
        "the stored one exactly", weight=2),
    Sub("resize", lambda tier: resize_cases(tier), check_resize, 2400, 30000,
        "linear flows and grey ramps of any size resampled to any other: linear again inside, "
        "flow components scaled by their own axis, values within the range of the source; "
        "non-trivial: another size, with inner pixels", weight=2),
    Sub("refuse", lambda tier: refuse_cases(tier), check_refuse, 40, 60,
        "output shapes and flags of the wrong type"),
], assumptions=("MATLAB's v7.3 layout (reversed axes, MATLAB_class attribute) is reproduced "
                "with h5py: there is no MATLAB here.",))
