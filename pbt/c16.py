"""C16: HDF5 and numpy files load the stored flow unchanged."""

import os

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .util import eq, raises, require, scratch, sides, small_flow, small_img


def array(seed, shape, dtype):
    a = small_flow(seed, shape)
    return np.round(a).astype(dtype) if np.dtype(dtype).kind == "i" else a.astype(dtype)


def check_h5(case):
    import h5py

    from synthpix.scheduler import HDF5FlowFieldScheduler

    h, w = case["hw"]
    with scratch() as d:
        files, want = [], []
        for k, f in enumerate(case["files"]):
            p = os.path.join(d, f"{'zyx'[k]}{k}.h5")
            a = array(case["seed"] + k, (h, f["n"], w, 2), f["dtype"])
            with h5py.File(p, "w", libver=f["libver"]) as file:
                kw = {"chunks": True} if f["chunks"] else {}
                if f["gzip"]:
                    kw["compression"] = "gzip"
                file.create_dataset(f["name"], data=a, **kw)
                for other in f["others"]:  # after the flow, in alphabetical order
                    file.create_dataset(f["name"] + other, data=np.zeros((2, 9, 3)))
                file.attrs["info"] = "x"
            files.append(p)
            want += [(p, a[:, y]) for y in range(f["n"])]
        s = HDF5FlowFieldScheduler(files, loop=False, randomize=False)
        require(tuple(s.get_flow_fields_shape()) == (h, w, 2), "get_flow_fields_shape() {}",
                s.get_flow_fields_shape())
        got = []
        while True:
            try:
                b = s.get_batch(case["size"])
            except StopIteration:
                break
            require(b.images1 is None and b.images2 is None, "images from an HDF5 file")
            got += [(f, x) for f, x, m in zip(b.files, b.flow_fields, b.mask) if m]
        require(len(got) == len(want), "{} slices instead of {}", len(got), len(want))
        for k, ((f, x), (p, a)) in enumerate(zip(got, want)):
            require(f == p, "slice {} from {} instead of {}", k, f, p)
            eq(x, a, f"slice {k} of {os.path.basename(p)}")
    return {"nontrivial": len(want) > 1, "labels": [f["dtype"] for f in case["files"]]}


@st.composite
def h5_cases(draw, tier="quick"):
    file = st.fixed_dictionaries({
        "n": st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 40)), "dtype": st.just(0), "chunks": st.booleans(),
        "gzip": st.booleans(), "name": st.sampled_from(["flow", "a", "V", "0", "data set"]),
        "others": st.lists(st.sampled_from(["2", "_mean", "z"]), max_size=2, unique=True),
        "libver": st.sampled_from(["earliest", "latest"])})
    files = draw(st.lists(file, min_size=1, max_size=3))
    dtype = draw(st.sampled_from(["float32", "float64", "float16", "int16", "int32", ">f4"]))
    for f in files:
        f["dtype"] = dtype
    return {"hw": draw(sides(1, 9)), "files": files,
            "size": draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 17])), "seed": draw(st.integers(0, 2**20))}


def check_npy(case):
    from PIL import Image

    from synthpix.scheduler import NumpyFlowFieldScheduler

    h, w = case["hw"]
    with scratch() as d:
        frames = case["frames"]
        for t in sorted({j for t in frames for j in (t - 1, t)}):
            g = small_img(case["seed"] + t, (h, w) if case["grey"] else (h, w, 3))
            Image.fromarray(g).save(os.path.join(d, f"img_{t}.jpg"), quality=95)
        files, want = [], []
        for k, t in enumerate(frames):
            p = os.path.join(d, f"flow_{t:0{case['digits']}d}.npy")
            a = array(case["seed"] + 7 * t, (h, w, 2), case["dtype"])
            np.save(p, np.asfortranarray(a) if case["fortran"] else a)
            files.append(p)
            want.append(a)
        s = NumpyFlowFieldScheduler(files, loop=False, randomize=False,
                                    include_images=case["images"])
        require(tuple(s.get_flow_fields_shape()) == (h, w, 2), "get_flow_fields_shape() {}",
                s.get_flow_fields_shape())
        k = 0
        while True:
            try:
                b = s.get_batch(case["size"])
            except StopIteration:
                break
            for j in range(int(np.sum(b.mask))):
                require(k < len(files), "more flows than files")
                name = os.path.basename(files[k])
                require(b.files[j] == files[k], "flow {} from {} instead of {}", k, b.files[j],
                        files[k])
                eq(b.flow_fields[j], want[k], f"flow of {name}")
                if not case["images"]:
                    require(b.images1 is None and b.images2 is None, "images are not asked for")
                else:
                    for arr, t, what in ((b.images1, frames[k] - 1, "first"),
                                         (b.images2, frames[k], "second")):
                        ref = Image.open(os.path.join(d, f"img_{t}.jpg")).convert("RGB")
                        eq(arr[j], np.array(ref), f"{what} image of {name}")
                k += 1
        require(k == len(files), "{} flows of {} files", k, len(files))
    return {"nontrivial": case["images"], "labels": ["images" if case["images"] else "flow"]}


@st.composite
def npy_cases(draw, tier="quick"):
    start = draw(st.sampled_from([1, 5, 9, 10, 95, 99, 100, 999, 1000, 12345]))
    more = draw(st.sampled_from([0] * 7 + [30]))
    frames = draw(st.lists(st.integers(start, start + 8 + more), min_size=1 + more // 2,
                           max_size=6 + more, unique=True))
    return {"frames": frames, "digits": draw(st.sampled_from([1, 1, 1, 4])),
            "hw": draw(sides(2, 9)),
            "dtype": draw(st.sampled_from(["float32", "float64", "float16", "int32"])),
            "fortran": draw(st.booleans()), "grey": draw(st.booleans()),
            "images": draw(st.sampled_from([True, True, False])),
            "size": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 2**20))}


def check_refuse(case):
    from PIL import Image

    from synthpix.scheduler import HDF5FlowFieldScheduler, NumpyFlowFieldScheduler

    t, what = case["t"], case["what"]
    with scratch() as d:
        def img(j):
            Image.fromarray(small_img(j, (3, 4, 3))).save(os.path.join(d, f"img_{j}.jpg"))

        def flow(name):
            p = os.path.join(d, name)
            with open(p, "wb") as f:
                np.save(f, np.zeros((3, 4, 2), np.float32))
            return p

        files = []
        for j in range(case["before"]):  # complete ones in front
            img(t - 20 - 2 * j)
            img(t - 19 - 2 * j)
            files.append(flow(f"flow_{t - 19 - 2 * j}.npy"))

        def build(**kw):
            return NumpyFlowFieldScheduler(files, include_images=True, **kw)

        if what == "previous":
            img(t)
            img(t + 1)
            files.append(flow(f"flow_{t}.npy"))
            raises(FileNotFoundError, build, f"no img_{t - 1}.jpg for flow_{t}.npy")
        elif what == "next":
            img(t - 1)
            img(t - 2)
            files.append(flow(f"flow_{t}.npy"))
            raises(FileNotFoundError, build, f"no img_{t}.jpg for flow_{t}.npy")
        elif what == "elsewhere":
            img(t - 1)
            img(t)
            os.makedirs(os.path.join(d, "sub"))
            files.append(flow(f"sub/flow_{t}.npy"))
            raises(FileNotFoundError, build, "the images are in another folder")
        elif what == "name":
            img(t - 1)
            img(t)
            files.append(flow(case["name"]))
            raises(ValueError, build, case["name"])
        elif what == "suffix":
            files.append(flow(f"flow_{t}.h5"))
            raises(ValueError, lambda: NumpyFlowFieldScheduler(files), "a .h5 file")
            raises(ValueError, lambda: HDF5FlowFieldScheduler(
                [flow(f"flow_{t}.npy")] + files[-1:]), "an .npy file")
        else:
            img(t - 1)
            img(t)
            files.append(flow(f"flow_{t}.npy"))
            build()
            raises(ValueError, lambda: NumpyFlowFieldScheduler(files, include_images=1),
                   "include_images=1")
    return {"labels": [what]}


@st.composite
def refuse_cases(draw, tier="quick"):
    return {"what": draw(st.sampled_from(["previous", "next", "elsewhere", "name", "suffix",
                                          "flag"])),
            "t": draw(st.sampled_from([30, 39, 40, 100, 110, 1000])),
            "before": draw(st.integers(0, 2)),
            "name": draw(st.sampled_from(["flow_a.npy", "flow_.npy", "flo_1.npy", "flow1.npy",
                                          "xflow_1.npy", "flow_1.5.npy", "flow_-1.npy",
                                          "flow_1_2.npy", "img_1.npy"]))}


PROP = Prop("C16", [
    Sub("h5", lambda tier: h5_cases(tier), check_h5, 1280, 20000,
        "HDF5 files of any size, type, chunking and dataset name with other datasets behind; "
        "every slice is the stored plane; non-trivial: more than one slice"),
    Sub("npy", lambda tier: npy_cases(tier), check_npy, 1600, 20000,
        "numpy files around 1, 10, 100 ... in any order, with grey or colour images next to "
        "them; the flow is the stored one and the images are those of frames t-1 and t; "
        "non-trivial: with images"),
    Sub("refuse", lambda tier: refuse_cases(tier), check_refuse, 480, 4000,
        "a missing image, an image elsewhere, wrong names and suffixes, anywhere in the list"),
])
