"""C13: unreadable files are skipped, never mixed in, never hang."""

import os

import numpy as np
from hypothesis import strategies as st

from .c11 import KINDS, build, make_scheduler
from .c12 import Model
from .core import Prop, Sub
from .util import eq, require, scratch, small_flow, write_h5, write_mat

BAD = {
    "h5": ["empty", "garbage", "truncated", "group", "flat", "gone", "nothing",
           "rank 3", "rank 5", "one component", "no plane"],
    "npy": ["empty", "garbage", "truncated", "pickle", "gone", "rank 2", "rank 4",
            "one component"],
    "npy_img": ["empty", "garbage", "truncated", "gone", "image", "cut_image", "no_image",
                "rank 2", "rank 4"],
    "mat": ["empty", "garbage", "truncated", "no_flow", "flat", "channels", "gone"],
    "mat_img": ["empty", "garbage", "truncated", "no_flow", "no_image", "flat", "gone"],
}
SHAPES = {"rank 2": (4, 4), "rank 3": (4, 2, 4), "rank 4": (1, 4, 4, 2),
          "rank 5": (4, 2, 4, 2, 2), "one component": (4, 3, 4, 1),
          "no plane": (4, 0, 4, 2)}


def image_of(path):
    t = int(os.path.basename(path)[5:-4])
    return os.path.join(os.path.dirname(path), f"img_{t}.jpg")


def spoil(path, how, kind, seed):
    """Make the data of `path` unreadable."""
    target = image_of(path) if how in ("image", "cut_image") else path
    if how == "empty":
        open(path, "wb").close()
    elif how in ("garbage", "image"):
        with open(target, "wb") as f:
            f.write(np.random.default_rng(seed).integers(0, 256, 300).astype(np.uint8).tobytes())
    elif how in ("truncated", "cut_image"):
        data = open(target, "rb").read()
        with open(target, "wb") as f:
            f.write(data[:len(data) // 2])
    elif how == "gone":
        os.remove(path)
    elif how == "group":
        import h5py
        with h5py.File(path, "w") as f:
            f.create_group("a").create_dataset("flow", data=np.zeros((2, 2, 2, 2)))
    elif how == "nothing":
        import h5py
        h5py.File(path, "w").close()
    elif how == "flat" and kind == "h5":
        write_h5(path, np.zeros((3, 2)))
    elif kind == "h5" and how in SHAPES:
        write_h5(path, np.zeros(SHAPES[how], np.float32))
    elif kind in ("npy", "npy_img") and how in SHAPES:
        np.save(path, np.zeros(SHAPES[how][-3:] if how == "one component" else SHAPES[how],
                               np.float32))
    elif how == "pickle":
        np.save(path, np.array([{"a": 1}], dtype=object), allow_pickle=True)
    elif kind in ("mat", "mat_img"):
        v = {"V": np.zeros((4, 4, 2), np.float32), "I0": np.zeros((4, 4), np.uint8),
             "I1": np.zeros((4, 4), np.uint8)}
        if how == "no_flow":
            v["U"] = v.pop("V")
        elif how == "no_image":
            del v["I1"]
        elif how == "flat":
            v["V"] = np.zeros((4, 4), np.float32)
        elif how == "channels":
            v["V"] = np.zeros((4, 4, 3), np.float32)
        write_mat(path, **v)
    elif how == "no_image":
        os.remove(image_of(path))


def check(case):
    import jax

    with scratch() as d:
        files, expected = build(case, d)
        listed = sorted({r[0] for r in expected}) if case["listing"] == "dir" else files
        kind = case["kind"]
        images = kind in ("npy_img", "mat_img")
        own = sorted({r[0] for r in expected})
        stored = {p: open(os.path.join(d, p), "rb").read()
                  for p in (os.path.join(d, q) for q in os.listdir(d))}
        bad = {}

        def set_state(state):
            for p, content in stored.items():
                with open(p, "wb") as f:
                    f.write(content)
            bad.clear()
            for n, (p, how) in enumerate(zip(own, state)):
                if how >= 0:
                    how = BAD[kind][how % len(BAD[kind])]
                    if how in ("cut_image", "truncated") and bad:
                        how = "garbage"  # the image may be shared with another flow
                    bad[p] = how
            for n, (p, how) in enumerate(bad.items()):
                if how == "no_image" and kind == "npy_img":
                    if os.path.exists(image_of(p)):
                        os.remove(image_of(p))
                else:
                    if how in ("image", "cut_image") and not os.path.exists(image_of(p)):
                        continue
                    spoil(p, how, kind, case["seed"] + n)

        def unreadable():
            out = set(bad)
            if kind == "npy_img":  # the image is also the first one of the next flow
                lost = {image_of(p) for p, how in bad.items()
                        if how in ("image", "cut_image", "no_image")}
                for p in own:
                    t = int(os.path.basename(p)[5:-4])
                    if os.path.join(d, f"img_{t - 1}.jpg") in lost:
                        out.add(p)
            return out

        if case["late"]:  # complete when the scheduler is built
            s = make_scheduler(kind, files, case["hw"], loop=case["loop"],
                               randomize=case["randomize"], key=jax.random.PRNGKey(3))
            set_state(case["states"][0])
        else:
            set_state([h if BAD[kind][h % len(BAD[kind])] not in ("gone", "no_image") else -1
                       for h in case["states"][0]])
            s = make_scheduler(kind, files, case["hw"], loop=case["loop"],
                               randomize=case["randomize"], key=jax.random.PRNGKey(3))
        skipped = 0
        for e, state in enumerate(case["states"]):
            if e:
                set_state(state)
                s.reset()
            lost = unreadable()
            skipped += sum(p in lost for p in listed)
            good = [p for p in listed if p not in lost]
            m = Model(good, [r for r in expected if r[0] not in lost], case["randomize"],
                      case["loop"])
            j = rows = 0
            while rows <= 2 * len(expected) + 8:
                size = case["sizes"][j % len(case["sizes"])]
                j += 1
                what = f"epoch {e}, batch {j} (unreadable: " + str(
                    {os.path.basename(p): h for p, h in bad.items()}) + ")"
                try:
                    b = s.get_batch(size)
                except StopIteration:
                    if case["loop"]:
                        require(not good, "{}: the end, but it loops over readable files", what)
                    require(m.at_end(), "{}: the end before {}", what, sorted(+m.left))
                    break
                n = int(np.asarray(b.mask).sum())
                eq(np.asarray(b.mask), np.arange(size) < n, f"{what}: mask")
                require(n >= 1, "{}: an empty batch", what)
                require(n == size or not case["loop"], "{}: a partial batch", what)
                for k in range(n):
                    w = f"{what}, row {k}"
                    require(b.files[k] in m.rows, "{}: from the unreadable file {}", w,
                            b.files[k])
                    row = m.take(b.files[k], w)
                    eq(b.flow_fields[k], row[1], f"{w}: flow of {row[0]}")
                    if images:
                        eq(b.images1[k], row[2], f"{w}: images1 of {row[0]}")
                        eq(b.images2[k], row[3], f"{w}: images2 of {row[0]}")
                if n < size:
                    require(m.at_end(), "{}: a partial batch before {}", what, sorted(+m.left))
                rows += n
            else:
                require(case["loop"], "epoch {} does not end", e)
    return {"nontrivial": skipped > 0, "labels": [kind, "loop" if case["loop"] else "once",
                                                  "none readable" if not good else "some"]}


@st.composite
def cases(draw, tier="quick"):
    kind = draw(st.sampled_from(KINDS))
    big = draw(st.sampled_from([False] * 9 + [True]))  # more than a handful
    nf = draw(st.integers(6, 20) if big else st.integers(1, 5))
    listing = draw(st.sampled_from(["list", "dir"]))
    order = list(range(nf))
    if listing == "list" and draw(st.booleans()):
        order = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=20 if big else 6))
    late = draw(st.booleans())
    how = st.sampled_from([-1] * 5 + list(range(11)))
    allbad = draw(st.sampled_from([False, False, False, True]))
    if allbad:
        how = draw(st.sampled_from([st.integers(0, 10), st.just(draw(st.integers(0, 10))),
                                    st.just(10)]))
    return {
        "kind": kind, "hw": [4, 5] if kind.startswith("mat") else [draw(st.integers(2, 5)), 4],
        "files": [draw(st.integers(1, 3)) if kind == "h5" else 1 for _ in range(nf)],
        "listing": listing, "order": order, "first": draw(st.integers(1, 8)),
        "loop": draw(st.booleans()), "randomize": draw(st.sampled_from([False, False, True])),
        "states": draw(st.lists(st.lists(how, min_size=nf, max_size=nf), min_size=1,
                                max_size=3)),
        "late": late,
        "sizes": draw(st.lists(st.integers(1, 25 if big else 5), min_size=1, max_size=3)),
        "seed": draw(st.integers(0, 2**20)),
    }


PROP = Prop("C13", [
    Sub("skip", lambda tier: cases(tier), check, 1600, 20000,
        "files of all formats of which drawn ones are empty, garbage, truncated, deleted, of "
        "another structure or with unreadable images, changing between epochs, looping or not, "
        "shuffled or not; rows are followed by the model of passes over the readable files; "
        "non-trivial: at least one file is unreadable", hang_s=100),
])
