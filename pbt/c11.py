"""C11: one epoch serves every flow exactly once, with its own data."""

import os

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .util import eq, require, scratch, sides, small_flow, small_img, write_h5, write_mat

KINDS = ["h5", "npy", "npy_img", "mat", "mat_img"]


def grey(img, levels):
    """The image with other grey levels: more than a byte holds, or fractions."""
    if levels == "wide":
        return img.astype(np.uint16) * 201 + 7
    return img.astype(np.float32) / 16 + 0.0625 if levels == "fractions" else img


def build(case, d):
    """Write the files of `case`; return (entries, expected slices in order)."""
    from PIL import Image

    kind, (h, w), seed = case["kind"], case["hw"], case["seed"]
    entries, expected = [], []
    if kind == "npy_img":
        # one folder, frames numbered from `first`
        for t in range(case["first"] - 1, case["first"] + len(case["files"])):
            Image.fromarray(small_img(seed + 500 + t, (h, w, 3))).save(
                os.path.join(d, f"img_{t}.jpg"))
    for k, n in enumerate(case["files"]):
        if kind == "h5":
            p = os.path.join(d, f"f{k:02d}.h5")
            arr = small_flow(seed + k, (h, n, w, 2))
            write_h5(p, arr)
            rows = [(p, arr[:, y], None, None) for y in range(n)]
        elif kind.startswith("npy"):
            t = case["first"] + k
            p = os.path.join(d, f"flow_{t}.npy")
            arr = small_flow(seed + k, (h, w, 2))
            np.save(p, arr)
            i0 = i1 = None
            if kind == "npy_img":
                i0, i1 = (np.array(Image.open(os.path.join(d, f"img_{j}.jpg")).convert("RGB"))
                          for j in (t - 1, t))
            rows = [(p, arr, i0, i1)]
        else:
            p = os.path.join(d, f"f{k:02d}.mat")
            arr = small_flow(seed + k, (h, w, 2))
            i0, i1 = (grey(small_img(seed + j + k, (h, w)), case.get("grey")) for j in (100, 200))
            write_mat(p, V=arr, I0=i0, I1=i1)
            rows = [(p, arr, i0, i1) if kind == "mat_img" else (p, arr, None, None)]
        entries.append((p, rows))
    listing = case["listing"]
    if listing == "dir":
        entries.sort()
        expected = [r for _, rows in entries for r in rows]
        return [d], expected
    order = [i % len(entries) for i in case["order"]]
    return [entries[i][0] for i in order], [r for i in order for r in entries[i][1]]


def make_scheduler(kind, files, hw, **kw):
    from synthpix.scheduler import (HDF5FlowFieldScheduler, MATFlowFieldScheduler,
                                    NumpyFlowFieldScheduler)

    if kind == "h5":
        return HDF5FlowFieldScheduler(files, **kw)
    if kind.startswith("npy"):
        return NumpyFlowFieldScheduler(files, include_images=kind == "npy_img", **kw)
    return MATFlowFieldScheduler(files, include_images=kind == "mat_img",
                                 output_shape=tuple(hw), **kw)


def check_rows(batch, size, rows, images, what):
    """`batch` must hold exactly `rows` (path, flow, I0, I1), then padding."""
    n = len(rows)
    mask = np.asarray(batch.mask)
    eq(mask, np.arange(size) < n, f"{what}: mask")
    require(batch.flow_fields.shape[0] == size, "{}: {} flows", what, batch.flow_fields.shape)
    require(batch.files is not None and len(batch.files) == size, "{}: files {}", what,
            batch.files)
    for k in range(size):
        w = f"{what}, row {k}"
        if k < n:
            p, flow, i0, i1 = rows[k]
            eq(batch.flow_fields[k], flow, f"{w}: flow of {os.path.basename(p)}")
            require(batch.files[k] == p, "{}: file {} instead of {}", w, batch.files[k], p)
        else:
            require(not np.any(batch.flow_fields[k]), "{}: padding is not zero", w)
            require(batch.files[k] == "", "{}: padding has a file {}", w, batch.files[k])
        for name, arr, ref in (("images1", batch.images1, 2), ("images2", batch.images2, 3)):
            if not images:
                require(arr is None, "{}: unexpected {}", w, name)
            else:
                require(arr is not None and len(arr) == size, "{}: no {}", w, name)
                if k < n:
                    eq(arr[k], rows[k][ref], f"{w}: {name}")
                else:
                    require(not np.any(arr[k]), "{}: padding of {} is not zero", w, name)


def check_epoch(case):
    with scratch() as d:
        files, expected = build(case, d)
        images = case["kind"] in ("npy_img", "mat_img")
        s = make_scheduler(case["kind"], files, case["hw"], loop=False, randomize=False)
        require(tuple(s.get_flow_fields_shape()) == tuple(case["hw"]) + (2,),
                "get_flow_fields_shape() is {}", s.get_flow_fields_shape())
        for epoch in range(case["epochs"]):
            pos, j = 0, 0
            while True:
                size = case["sizes"][j % len(case["sizes"])]
                j += 1
                what = f"epoch {epoch}, batch {j}"
                try:
                    b = s.get_batch(size)
                except StopIteration:
                    require(pos == len(expected), "{}: stopped after {} of {} flows", what,
                            pos, len(expected))
                    break
                require(pos < len(expected), "{}: a batch after the last flow", what)
                check_rows(b, size, expected[pos:pos + size], images, what)
                pos = min(pos + size, len(expected))
            for _ in range(2):
                try:
                    s.get_batch(size)
                except StopIteration:
                    continue
                require(False, "a batch after StopIteration")
            s.reset()
            # an interrupted epoch, then a reset
            if case["interrupt"]:
                s.get_batch(1 + case["interrupt"] % 3)
                s.reset()
    n = len(expected)
    lab = [case["kind"], case["listing"]]
    if any(n % s for s in case["sizes"]):
        lab.append("partial")
    if any(a == b for a, b in zip(files, files[1:])):
        lab.append("repeat")
    return {"nontrivial": n >= 2, "labels": lab}


@st.composite
def cases(draw, tier="quick"):
    kind = draw(st.sampled_from(KINDS))
    big = draw(st.sampled_from([False] * 9 + [True]))  # more than a handful
    nf = draw(st.integers(6, 30) if big else st.integers(1, 5))
    files = [draw(st.integers(1, 24 if big and nf < 12 else 4)) if kind == "h5" else 1 for _ in range(nf)]
    listing = draw(st.sampled_from(["list", "list", "dir"]))
    order = list(range(nf))
    if listing == "list":
        order = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=40 if big else 7))
    return {
        "kind": kind, "hw": draw(sides(2, 7)),
        "files": files, "listing": listing, "order": order,
        "first": draw(st.integers(1, 120)) if nf < 3 else draw(st.integers(1, 8)),
        "sizes": draw(st.lists(st.integers(1, 40 if big else 6), min_size=1, max_size=3)),
        "epochs": draw(st.integers(1, 2)), "interrupt": draw(st.integers(0, 3)),
        "seed": draw(st.integers(0, 2**20)),
    }


PROP = Prop("C11", [
    Sub("epoch", lambda tier: cases(tier), check_epoch, 4800, 40000,
        "files of all three formats (listed, repeated or found in a folder), with and "
        "without images, read in batches of varying sizes over 1-2 epochs with resets; "
        "compared with the list of all slices; non-trivial: at least two flows"),
])
