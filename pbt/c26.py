"""C26: dataset preparation preserves flows, images and splits."""

import contextlib
import importlib.util
import io
import json
import os
import struct
import sys
import types
import urllib.request
import zipfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from .core import REPO, Prop, Sub
from .util import close, eq, raises, require, rng, scratch, sides, small_img


def quietly():
    return contextlib.redirect_stdout(io.StringIO())


def tensorflow_stub():
    """As much of TensorFlow as the script uses, over records in JSON lines."""
    tf = types.ModuleType("tensorflow")

    class T:
        def __init__(self, b):
            self.b = b

        def numpy(self):
            return self.b

        def __eq__(self, o):
            return self.b == (o.b if isinstance(o, T) else o)

        __hash__ = None

    def records(path):
        with open(path) as f:
            return [T(line.encode()) for line in f.read().split("\n") if line]

    def parse(rec, features):
        d = json.loads(rec.numpy())
        if d.get("broken"):
            raise ValueError("not an example")
        out = {}
        for k, v in features.items():
            out[k] = T(payload(d[k])) if k in d else T(v)
        return out

    tf.Tensor = T
    tf.string = "string"
    tf.data = types.SimpleNamespace(TFRecordDataset=lambda p, *a, **k: records(str(p)))
    tf.io = types.SimpleNamespace(
        parse_single_example=parse,
        FixedLenFeature=lambda shape, dtype, default_value=b"": default_value
        if isinstance(default_value, bytes) else default_value.encode())
    return tf


def payload(spec):
    """Bytes of a record's field: [seed, number of floats]."""
    seed, n = spec
    return rng(seed).normal(0, 50, n).astype(np.float32).tobytes()


_scripts = {}


def script(name):
    """Import a script of the repository with the downloads stubbed."""
    if name not in _scripts:
        folder = os.path.join(REPO, "scripts")
        saved = {k: sys.modules.get(k) for k in ("utils", "gdown", "tensorflow")}
        try:
            sys.modules.pop("utils", None)
            sys.modules["gdown"] = types.ModuleType("gdown")
            sys.modules["gdown"].download_folder = None
            sys.modules["tensorflow"] = tensorflow_stub()
            sys.path.insert(0, folder)
            spec = importlib.util.spec_from_file_location("script_" + name,
                                                          os.path.join(folder, name + ".py"))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            _scripts[name] = m
        finally:
            sys.path.remove(folder)
            for k, v in saved.items():
                sys.modules.pop(k, None)
                if v is not None:
                    sys.modules[k] = v
    return _scripts[name]


def resample(a, n, axis):
    """Resampling of one axis with the triangle filter, widened when shrinking."""
    a = np.moveaxis(np.asarray(a, np.float64), axis, 0)
    m = a.shape[0]
    scale = m / n
    width = max(scale, 1.0)
    out = np.empty((n, *a.shape[1:]))
    for i in range(n):
        c = (i + 0.5) * scale
        lo, hi = max(int(c - width + 0.5), 0), min(int(c + width + 0.5), m)
        w = np.maximum(0, 1 - np.abs((np.arange(lo, hi) + 0.5 - c) / width))
        out[i] = np.tensordot(w / w.sum(), a[lo:hi], 1)
    return np.moveaxis(out, 0, axis)


def resized(flow, shape):
    """The flow at another size, in pixels of that size."""
    h, w = flow.shape[:2]
    if (h, w) == tuple(shape):
        return np.asarray(flow, np.float64)
    f = resample(resample(flow, shape[1], 1), shape[0], 0)
    return f * np.array([shape[1] / w, shape[0] / h])


def write_flo(path, flow, magic=b"PIEH", cut=None):
    h, w = flow.shape[:2]
    b = magic + struct.pack("<ii", w, h) + np.ascontiguousarray(flow, "<f4").tobytes()
    with open(path, "wb") as f:
        f.write(b if cut is None else b[:cut])
    return len(b)


def flow_of(seed, hw, dtype="float32"):
    return (rng(seed).normal(0, 8, (*hw, 2))).astype(dtype)


def check_flo(case):
    m = script("download_piv_1")
    flow = flow_of(case["seed"], case["hw"])
    with scratch() as d:
        p = os.path.join(d, "x_flow.flo")
        n = write_flo(p, flow)
        got = m.read_flow(p)
        eq(got, flow, "flow read from a .flo file")
        require(got.dtype == np.float32, "dtype {}", got.dtype)
        cut = case["cut"] % n
        write_flo(p, flow, cut=cut)
        raises(Exception, lambda: m.read_flow(p), f"a file cut to {cut} of {n} bytes")
        write_flo(p, flow, magic=case["magic"].encode())
        raises(Exception, lambda: m.read_flow(p), f"a file that begins with {case['magic']}")
        q = os.path.join(d, "x_flow.txt")
        write_flo(q, flow)
        raises(ValueError, lambda: m.read_flow(q), "a file of an unknown kind")
    return {"nontrivial": flow.shape[0] != flow.shape[1]}


def flo_cases(tier):
    return st.fixed_dictionaries({
        "hw": sides(1, 12), "seed": st.integers(0, 2**20),
        "cut": st.integers(0, 10**4),
        "magic": st.sampled_from(["PIEh", "HEIP", "\x00\x00\x00\x00", "PI E"])})


def check_mat(case):
    import scipy.io

    m = script("download_piv_1")
    flow = flow_of(case["seed"], case["hw"], case["dtype"])
    with scratch() as d:
        p = os.path.join(d, "x_flow.mat")
        v = {"other": np.zeros((3, 3)), "I0": np.zeros(case["hw"])}
        if case["key"]:
            v[case["key"]] = np.moveaxis(flow, -1, 0) if case["first"] else flow
        else:
            v["V"] = flow[..., 0]
        scipy.io.savemat(p, v)
        if case["key"]:
            eq(m.read_flow(p), flow, f"flow read from variable {case['key']}")
        else:
            raises(ValueError, lambda: m.read_flow(p), "a file without a flow")
    return {"nontrivial": case["first"], "labels": [str(case["key"])]}


def mat_cases(tier):
    return st.fixed_dictionaries({
        "hw": st.lists(st.integers(3, 9), min_size=2, max_size=2), "seed": st.integers(0, 2**20),
        "dtype": st.sampled_from(["float32", "float64"]), "first": st.booleans(),
        "key": st.sampled_from(["V", "flow", "u", "uv", "F", None])})


def check_resize(case):
    m = script("download_piv_1")
    flow = flow_of(case["seed"], case["hw"], case["dtype"])
    if case["smooth"]:
        y, x = np.mgrid[:case["hw"][0], :case["hw"][1]]
        flow = np.stack([3 + 0.5 * x - 0.2 * y, -1 + 0.1 * x + y], -1).astype(case["dtype"])
    shape = tuple(case["shape"])
    with quietly():
        got = m.resize_flow(flow, shape)
    require(np.asarray(got).shape == (*shape, 2), "shape {} for {}", np.shape(got), shape)
    close(got, resized(flow, shape), 1e-3 * (1 + np.abs(flow).max()), "resized flow")
    return {"nontrivial": shape != tuple(case["hw"])}


def resize_cases(tier):
    size = sides(1, 24)
    return st.fixed_dictionaries({
        "hw": size, "shape": size, "seed": st.integers(0, 2**20), "smooth": st.booleans(),
        "dtype": st.sampled_from(["float32", "float64"])})


NAME = st.sampled_from(["a", "b", "backstep_Re1000_00001", "DNS_Re20_3", "x_Re5", "SQG_00001",
                        "u_flow_v", "jet_f2_01", "c.d", "e f", "Re7_1", "[z]", "JHTDB_channel"])
FOLDER = st.sampled_from(["", "backstep", "DNS", "DNS/part1", "a_flow.d", "x y", "[q]"])


def write_tif(path, a, mode):
    from PIL import Image

    if mode == "RGB":
        a = np.stack([a, np.roll(a, 1), np.roll(a, 2)], -1)
    Image.fromarray(a, mode).save(path)
    return np.asarray(Image.open(path).convert("L"))


def write_sample(root, s):
    """Write the files of one sample; returns what packing must give, or None."""
    import scipy.io

    folder = os.path.join(root, s["folder"])
    os.makedirs(folder, exist_ok=True)
    base = os.path.join(folder, s["name"])
    flow = flow_of(s["seed"], s["hw"])
    if s["kind"] == "flo":
        write_flo(base + "_flow.flo", flow, cut=17 if s["fault"] == "cut" else None)
    else:
        scipy.io.savemat(base + "_flow.mat", {"q" if s["fault"] == "cut" else "V": flow})
    images = []
    for k, n in enumerate(("_img1.tif", "_img2.tif")):
        if s["fault"] == n:
            continue
        if s["fault"] == "img" and k == 1:
            open(base + n, "w").write("nothing")
            continue
        images.append(write_tif(base + n, small_img(s["seed"] + 1 + k, tuple(s["ihw"])), s["mode"]))
    return None if s["fault"] else (flow, *images)


@st.composite
def samples(draw, faults=True, max_size=6):
    out = draw(st.lists(st.fixed_dictionaries({
        "folder": FOLDER, "name": NAME, "seed": st.integers(0, 2**20),
        "hw": st.lists(st.integers(3, 8), min_size=2, max_size=2),
        "ihw": st.lists(st.integers(2, 9), min_size=2, max_size=2),
        "kind": st.sampled_from(["flo", "mat"]), "mode": st.sampled_from(["L", "L", "RGB"]),
        "fault": st.sampled_from([None] * 4 + ["cut", "img", "_img1.tif", "_img2.tif"])
        if faults else st.none()}), min_size=1, max_size=max_size,
        unique_by=lambda s: (s["folder"], s["name"])))
    return out


def mats(root):
    return {str(p.relative_to(root)): p for p in sorted(Path(root).rglob("*.mat"))}


def check_packed(path, want, shape, what):
    import h5py

    flow, a, b = want
    with h5py.File(path, "r") as f:
        require(set(f) == {"V", "I0", "I1"}, "{}: variables {}", what, sorted(f))
        v, x, y = (np.asarray(f[k]) for k in ("V", "I0", "I1"))
    eq(x, a, f"{what}: I0")
    eq(y, b, f"{what}: I1")
    require(v.shape == (*shape, 2), "{}: flow of shape {}", what, v.shape)
    if tuple(shape) == flow.shape[:2]:
        eq(v, flow, f"{what}: flow")
    close(v, resized(flow, shape), 1e-3 * (1 + np.abs(flow).max()), f"{what}: flow")


def check_convert(case):
    from synthpix.scheduler import MATFlowFieldScheduler

    m = script("download_piv_1")
    shape = tuple(case["shape"])
    with scratch() as d:
        src, dst = os.path.join(d, case["root"]), os.path.join(d, "packed")
        os.makedirs(src)
        want = {}
        for s in case["samples"]:
            r = write_sample(src, s)
            if r is not None:
                want[os.path.normpath(os.path.join(s["folder"], s["name"] + ".mat"))] = r
        for k, (how, hw) in enumerate(case["before"]):  # remains of earlier runs
            if how == "run":
                with quietly():
                    m.convert(src, dst, tuple(hw))
            elif want:
                p = Path(dst, sorted(want)[k % len(want)])
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(b"half a file" * hw[0])
        with quietly():
            m.convert(src, dst, shape)
        got = mats(dst)
        require(set(got) == set(want), "packed {} instead of {}", sorted(got), sorted(want))
        for k, p in got.items():
            check_packed(p, want[k], shape, k)
        if got and min(shape) > 1:  # and the library reads them
            s = MATFlowFieldScheduler([str(got[k]) for k in sorted(got)], include_images=True,
                                      output_shape=shape)
            for k in sorted(got):
                b = s.get_batch(1)
                flow, a, _ = want[k]
                close(b.flow_fields[0], resized(flow, shape),
                      1e-3 * (1 + np.abs(flow).max()), f"{k}: flow loaded")
                if a.shape == shape:
                    eq(b.images1[0], a, f"{k}: image loaded")
    return {"nontrivial": 0 < len(want), "labels": [f"{len(want)} of {len(case['samples'])}"]}


@st.composite
def convert_cases(draw, tier="quick"):
    return {"samples": draw(samples()), "root": draw(st.sampled_from(["raw", "raw_flow.x", "r[1]"])),
            "before": draw(st.lists(st.tuples(
                st.sampled_from(["run", "remains"]),
                st.lists(st.integers(1, 10), min_size=2, max_size=2)).map(list), max_size=2))
            if draw(st.booleans()) else [],
            "shape": draw(st.lists(st.integers(1, 10), min_size=2, max_size=2))}


TOKENS = st.sampled_from(["{}_img1.tif", "{}_img2.tif", "{}_flow.flo", "{}.mat",
                          "./data/{}_img1.tif", "d/e/{}_flow.mat",
                          "{}_img1.tif {}_img2.tif {}_flow.flo", "  {}_img2.tif  x"])


@contextlib.contextmanager
def serving(pages):
    """Replace the download by copies of `pages` (name of the file -> text or None)."""
    old = urllib.request.urlretrieve

    def fake(url, filename=None, *a, **k):
        text = pages.get(url.rsplit("/", 1)[-1].split("?")[0])
        if text is None:
            raise OSError("no such page")
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(filename, mode) as f:
            f.write(text)
        return filename, None

    urllib.request.urlretrieve = fake
    try:
        with quietly():
            yield
    finally:
        urllib.request.urlretrieve = old


def lines(path):
    with open(path) as f:
        return [x for x in f.read().split("\n") if x]


def check_lists(case):
    """The official list is partitioned in the given proportions, by the seed."""
    m = script("download_piv_1")
    items = [f"s{i:05d}_img1.tif s{i:05d}_img2.tif s{i:05d}_flow.flo" for i in range(case["n"])]
    sep = case["sep"]
    pages = {"FlowData_train.list": sep.join(items) + case["end"],
             "FlowData_test.list": None if case["no_test"] else "t1_img1.tif\nt2_img1.tif\n"}
    r = case["ratios"]
    res = []
    with scratch() as d:
        for k, seed in enumerate([case["seed"], case["seed"], case["seed"] + 1]):
            out = Path(d) / f"{k}" / "splits"
            with serving(pages):
                m.fetch_splits(out, seed, list(r))
            got = {s: lines(out / f"{s}.txt") for s in ("train", "val", "tune")}
            every = sum(got.values(), [])
            require(sorted(every) == sorted(items), "the lists lose or repeat samples: {} of {}, "
                    "{} different", len(every), len(items), len(set(every)))
            n = len(items)
            sizes = (len(got["train"]), len(got["val"]), len(got["tune"]))
            want = (n - n * r[1] // 100 - n * r[2] // 100, n * r[1] // 100, n * r[2] // 100)
            require(all(abs(a - b) <= 1 for a, b in zip(sizes, want)),
                    "sizes {} for {} samples in proportions {}", sizes, n, r)
            if not case["no_test"]:
                require(lines(out / "test.txt") == ["t1_img1.tif", "t2_img1.tif"],
                        "the test list is changed")
            res.append(got)
        require(res[0] == res[1], "the same seed gives other lists")
        if n >= 40 and r[0] < 100:
            require(res[0] != res[2], "another seed gives the same lists")
            require(res[0]["train"] + res[0]["val"] + res[0]["tune"] != items, "not shuffled")
        out = Path(d) / "none" / "splits"
        with serving({}):
            m.fetch_splits(out, 1, list(r))
        require(not (out / "val.txt").exists(), "splits although the list is not there")
    return {"nontrivial": n > 10 and r[1] > 0}


@st.composite
def list_cases(draw, tier="quick"):
    a = draw(st.integers(0, 100))
    b = draw(st.integers(0, 100 - a))
    return {"n": draw(st.integers(0, 130)), "ratios": [100 - a - b, a, b],
            "seed": draw(st.integers(0, 2**20)), "sep": draw(st.sampled_from(["\n", "\r\n", "\n\n"])),
            "end": draw(st.sampled_from(["", "\n", "\n \n"])), "no_test": draw(st.booleans())}


SPLITS = ("train", "val", "test", "tune")


def write_splits(folder, case):
    os.makedirs(folder, exist_ok=True)
    for k, s in enumerate(SPLITS):
        with open(os.path.join(folder, f"{s}.txt"), "w") as f:
            for name, tok, where in case["listed"]:
                if where[k]:
                    f.write(tok.replace("{}", name) + case["sep"])


def place(name, folder):
    """Where a sample goes below its split: samples of a Reynolds number in their folder."""
    import re

    g = re.search(r"_(Re[0-9]+)_", name)
    return os.path.normpath(os.path.join(folder, g.group(1) if g else "", name + ".mat"))


def expect_splits(case, have):
    """have: {(folder, name)} -> {split/...}."""
    out = {}
    for folder, name in have:
        for k, s in enumerate(SPLITS):
            if any(n == name and w[k] for n, _, w in case["listed"]):
                out[os.path.join(s, place(name, folder))] = (folder, name)
    return out


def check_assign(case):
    m = script("download_piv_1")
    with scratch() as d:
        packed = Path(d) / "packed_class1"
        packed.mkdir()
        have = {}
        for i, (folder, name) in enumerate(case["packed"]):
            p = packed / folder / (name + ".mat")
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(f"content {i}".encode())
            have[folder, name] = f"content {i}".encode()
        write_splits(os.path.join(d, "splits"), case)
        got = {k: m.load_split_file(Path(d) / "splits" / f"{s}.txt")
               for k, s in enumerate(SPLITS)}
        for k, s in enumerate(SPLITS):
            want = {n + ".mat" for n, _, w in case["listed"] if w[k]}
            require(set(got[k]) == want, "{}: names {} instead of {}", s, sorted(got[k]),
                    sorted(want))
        root = Path(d) / "out"
        if case["lacks"] is not None:
            os.remove(Path(d) / "splits" / f"{SPLITS[case['lacks']]}.txt")
            with quietly():
                raises(FileNotFoundError, lambda: m.perform_split(packed, root), "a missing list")
            return {"nontrivial": False, "labels": ["missing list"]}
        want = expect_splits(case, have)
        with quietly():
            for _ in range(1 + case["again"]):  # a preparation can be run again
                m.perform_split(packed, root)
        have_now = mats(root)
        require(set(have_now) == set(want), "copied {} instead of {}", sorted(have_now),
                sorted(want))
        for k, p in have_now.items():
            require(p.read_bytes() == have[want[k]], "{} has the content of another", k)
        for (folder, name), b in have.items():
            require((packed / folder / (name + ".mat")).read_bytes() == b, "a source was changed")
    return {"nontrivial": len(want) > 1, "labels": [f"{min(len(want), 5)} copies"]}


@st.composite
def assignments(draw, names):
    listed = []
    for n in sorted(set(names)):
        if draw(st.integers(0, 5)):
            listed.append([n, draw(TOKENS), [draw(st.booleans()) for _ in SPLITS]])
    return listed


# blanks separate the columns of a split file, so that names have none
CLEAN = NAME.filter(lambda n: " " not in n and "." not in n and "_flow" not in n)


@st.composite
def assign_cases(draw, tier="quick"):
    packed = draw(st.lists(st.tuples(FOLDER, CLEAN).map(list), max_size=8,
                           unique_by=lambda t: place(t[1], t[0])))
    names = [n for _, n in packed] + draw(st.lists(CLEAN, max_size=2))
    return {"packed": packed, "listed": draw(assignments(names)),
            "sep": draw(st.sampled_from(["\n", "\n\n"])), "again": draw(st.booleans()),
            "lacks": draw(st.sampled_from([None] * 6 + [0, 1, 2, 3]))}


def zip_folder(src, dst):
    with zipfile.ZipFile(dst, "w") as z:
        for p in sorted(Path(src).rglob("*")):
            z.write(p, p.relative_to(src))


def check_class1(case):
    """The whole preparation, from the archives to the splits."""
    m = script("download_piv_1")
    with scratch() as d:
        want = {}
        archives = []
        for k, group in enumerate(case["groups"]):
            src = os.path.join(d, f"src{k}")
            os.makedirs(src)
            for s in group:
                s = dict(s, folder=os.path.join(f"set{k}", s["folder"]))
                r = write_sample(src, s)
                # the first folder has the odd archives, the second the even ones
                if r is not None and not 0 < case["fails"] <= 2 - k % 2:
                    want[s["folder"], s["name"]] = r
            zip_folder(src, os.path.join(d, f"src{k}.zip"))
            archives.append(os.path.join(d, f"src{k}.zip"))
        if case["bad_zip"]:
            archives.append(os.path.join(d, "bad.zip"))
            open(archives[-1], "w").write("no archive")
        calls = []

        def download_folder(url=None, output=None, **kw):
            calls.append(url)
            if len(calls) == case["fails"]:
                raise KeyboardInterrupt if case["stopped"] else OSError("no connection")
            for i, a in enumerate(archives):
                if i % 2 == len(calls) % 2:
                    with open(a, "rb") as f, open(os.path.join(output, os.path.basename(a)),
                                                  "wb") as g:
                        g.write(f.read())

        m.gdown.download_folder = download_folder
        out = os.path.join(d, "out")
        write_splits(os.path.join(out, "splits"), case)
        shape = tuple(case["shape"])
        with quietly():
            for _ in range(1 + case["again"]):
                m.main(out, f"{shape[0]}x{shape[1]}")
        packed = mats(os.path.join(out, "packed_class1"))
        names = {os.path.normpath(os.path.join(a, b + ".mat")): v for (a, b), v in want.items()}
        require(set(packed) == set(names), "packed {} instead of {}", sorted(packed),
                sorted(names))
        for k, p in packed.items():
            check_packed(p, names[k], shape, k)
        goal = expect_splits(case, want)
        got = {}
        for s in SPLITS:
            if os.path.isdir(os.path.join(out, s)):
                got.update({os.path.join(s, k): p
                            for k, p in mats(os.path.join(out, s)).items()})
        require(set(got) == set(goal), "splits {} instead of {}", sorted(got), sorted(goal))
        for k, p in got.items():
            check_packed(p, want[goal[k]], shape, k)
    return {"nontrivial": len(goal) > 0, "labels": [f"{min(4, len(goal))} copies"]}


@st.composite
def class1_cases(draw, tier="quick"):
    groups = draw(st.lists(samples(max_size=3), min_size=1, max_size=3))
    for g in groups:
        for s in g:
            s["name"] = s["name"].replace(" ", "").replace(".", "").replace("_flow", "")
            s["folder"] = s["folder"].replace("[", "").replace("]", "")
    groups = [list({(s["folder"], s["name"]): s for s in g}.values()) for g in groups]
    return {"groups": groups, "listed": draw(assignments([s["name"] for g in groups for s in g])),
            "sep": "\n", "bad_zip": draw(st.booleans()), "again": draw(st.booleans()),
            "fails": draw(st.sampled_from([0, 0, 0, 1, 2])), "stopped": draw(st.booleans()),
            "shape": draw(st.lists(st.integers(2, 9), min_size=2, max_size=2))}


FULL = 256 * 256 * 2


def check_records(case):
    """Every complete record becomes a numbered file with its own flow and images."""
    import h5py

    m = script("download_piv_2")
    with scratch() as d:
        raw = Path(d) / "out" / "raw_class2"
        raw.mkdir(parents=True)
        src = Path(d) / "src"
        src.mkdir()
        want = {}
        for name, recs in case["files"]:
            (src / name).write_text("".join(json.dumps(r) + "\n" for r in recs))
            if "RAFT256" not in name:
                continue
            sub = ("train" if "Training" in name else "val" if "Validation" in name else "other")
            k = 0
            for r in recs:
                if r.get("broken") or any(r.get(f, [0, 0])[1] != FULL for f in ("target", "flow")):
                    continue
                want[f"{sub}/sample_{k:05d}.mat"] = r
                k += 1
        archive = Path(d) / "a.zip"
        zip_folder(src, archive)
        if case["direct"]:
            for name, recs in case["files"]:
                if "RAFT256" in name:
                    sub = ("train" if "Training" in name else
                           "val" if "Validation" in name else "other")
                    with quietly():
                        m.process_tfrecord(str(src / name),
                                           str(Path(d) / "out" / "packed_class2" / sub))
        else:
            with serving({"Data_ProblemClass2_RAFT-PIV.zip": archive.read_bytes()}):
                m.main(str(Path(d) / "out"))
        packed = Path(d) / "out" / "packed_class2"
        got = mats(packed) if packed.exists() else {}
        require(set(got) == set(want), "files {} instead of {}", sorted(got), sorted(want))
        for k, p in got.items():
            target = np.frombuffer(payload(want[k]["target"]), np.float32).reshape(256, 256, 2)
            flow = np.frombuffer(payload(want[k]["flow"]), np.float32).reshape(256, 256, 2)
            with h5py.File(p, "r") as f:
                eq(f["I0"], target[..., 0], f"{k}: I0")
                eq(f["I1"], target[..., 1], f"{k}: I1")
                eq(f["V"], flow, f"{k}: flow")
    return {"nontrivial": len(want) > 1, "labels": [f"{min(5, len(want))} samples"]}


@st.composite
def record_cases(draw, tier="quick"):
    names = draw(st.lists(st.sampled_from([
        "Training_Dataset_RAFT256.tfrecord-0", "Validation_RAFT256.tfrecord", "RAFT256_x.tfrecord",
        "Training_RAFT32.tfrecord-1"]), min_size=1, max_size=3, unique=True))
    files = []
    for n in names:
        recs = []
        for _ in range(draw(st.integers(0, 4))):
            r = {"target": [draw(st.integers(0, 999)), FULL],
                 "flow": [draw(st.integers(0, 999)), FULL], "label": [0, 3]}
            fault = draw(st.sampled_from([None] * 5 + ["target", "flow", "broken", "half"]))
            if fault == "broken":
                r["broken"] = True
            elif fault == "half":
                r["flow"][1] = FULL // 2
            elif fault:
                del r[fault]
            recs.append(r)
        files.append([n, recs])
    return {"files": files, "direct": draw(st.booleans())}


PROP = Prop("C26", [
    Sub("flo", flo_cases, check_flo, 1200, 40000,
        "drawn flows written as Middlebury files, read back exactly; cut at any byte or with "
        "another magic they are refused; non-trivial: height differs from width"),
    Sub("mat", mat_cases, check_mat, 400, 10000,
        "flows in MAT files under every accepted name and in both layouts; non-trivial: "
        "components first"),
    Sub("resize", resize_cases, check_resize, 1200, 40000,
        "drawn flows and target sizes against a triangle-filter resampling in double precision "
        "with vectors scaled by the size ratios; non-trivial: another size"),
    Sub("convert", lambda tier: convert_cases(tier), check_convert, 800, 12000,
        "trees of samples, some incomplete or damaged, packed and compared with what was "
        "written, and read again with the scheduler; non-trivial: something packed"),
    Sub("lists", lambda tier: list_cases(tier), check_lists, 800, 12000,
        "official lists of drawn length split in drawn proportions: a partition, the same for "
        "the same seed; non-trivial: over ten samples and a validation share"),
    Sub("assign", lambda tier: assign_cases(tier), check_assign, 960, 20000,
        "packed trees and split files with drawn assignments; each sample is copied to exactly "
        "the splits that list it; non-trivial: several copies"),
    Sub("class1", lambda tier: class1_cases(tier), check_class1, 192, 4000,
        "the whole class 1 preparation from archives of drawn samples, with the downloads "
        "replaced; non-trivial: something reached a split"),
    Sub("records", lambda tier: record_cases(tier), check_records, 96, 1600,
        "class 2 archives of record files, with TensorFlow's reader replaced; every complete "
        "record is written under its number; non-trivial: several"),
], assumptions=(
    "gdown, urlretrieve and TensorFlow's record reader are replaced by stand-ins that deliver "
    "the generated data",))
