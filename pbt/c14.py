"""C14: a directory stands for exactly its files of the format."""

import os

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .util import eq, raises, require, scratch, small_flow, write_h5, write_mat

DIRS = ["a", "b c", "x[1]", "q?", "s*t", "é", "a.mat.d", "[ab]", "[!a]", "1", "10", "2", "A",
        "flow_1", "h5", "a-b", "a.b", "**", "{a,b}", "$HOME", "~", "mat",
        "d.mat", "d.h5", "flow_d.npy"]
STEMS = ["a", "b", "0001", "0010", "10", "9", "x[2]", "flow_1", "flow_12", "flow_", "flow_x",
         "img_1", "é", "a b", "B", "flow_003", "a.h5", "a.npy", "a.mat", "flow_2.npy", "[a]"]
EXTS = [".mat", ".h5", ".npy", ".txt", ".mat.bak", ".MAT", "", ".h5~", ".npz", ".hdf5"]


def write(path, fmt, seed):
    arr = small_flow(seed, (2, 2, 2))
    if fmt == ".h5":
        write_h5(path, arr[:, None])
    elif fmt == ".npy":
        with open(path, "wb") as f:
            np.save(f, arr)
    else:
        write_mat(path, V=arr)
    return arr


def scheduler(fmt, files, **kw):
    from synthpix.scheduler import (HDF5FlowFieldScheduler, MATFlowFieldScheduler,
                                    NumpyFlowFieldScheduler)

    if fmt == ".h5":
        return HDF5FlowFieldScheduler(files, **kw)
    if fmt == ".npy":
        return NumpyFlowFieldScheduler(files, **kw)
    return MATFlowFieldScheduler(files, output_shape=(2, 2), **kw)


def own_files(d, fmt):
    """The files of the format in `d`: the specification."""
    out = []
    for base, _, names in os.walk(d):
        if fmt == ".npy" and os.path.normpath(base) != os.path.normpath(d):
            continue
        for n in names:
            if n.endswith(fmt) and (fmt != ".npy" or n.startswith("flow_")):
                out.append(os.path.join(base, n))
    return sorted(out)


def absolute(p, d):
    return os.path.normpath(os.path.join(d, p))


def check(case):
    here = os.getcwd()
    try:
        return check_tree(case)
    finally:
        os.chdir(here)


def check_tree(case):
    fmt = case["fmt"]
    with scratch() as d:
        content = {}
        os.makedirs(os.path.join(d, "root"))
        for n, (dirs, stem, ext) in enumerate(case["tree"]):
            p = os.path.join(d, *(["root"] + dirs))
            try:
                os.makedirs(p, exist_ok=True)
            except (FileExistsError, NotADirectoryError):
                continue  # a file has that name
            p = os.path.join(p, stem + ext)
            if os.path.isdir(p):
                continue
            if p in content:
                continue
            if p.endswith(fmt) and content and n % 5 == case["seed"] % 10:
                q = sorted(content)[n % len(content)]
                os.symlink(q, p)  # a link to another file of the tree
                content[p] = content[q]
            elif p.endswith(fmt):
                content[p] = write(p, fmt, case["seed"] + n)
            else:
                open(p, "wb").write(b"something else")
        listing, want = [], []
        everything = sorted(content)
        for kind, i in case["list"]:
            if kind == "file" and everything:
                p = everything[i % len(everything)]
                listing.append(p)
                want.append(p)
            elif kind in ("dir", "dir/"):
                dirs = sorted({b for b, _, _ in os.walk(os.path.join(d, "root"))})
                p = dirs[i % len(dirs)]
                listing.append(p + "/" if kind == "dir/" else p)
                want += own_files(p, fmt)
            elif kind == "missing":
                listing.append(os.path.join(d, "root", f"missing_{i}{fmt}"))
                want.append(None)
            elif kind == "other":
                p = os.path.join(d, f"flow_{i}" + case.get("other", ".txt"))
                open(p, "w").close()
                listing.append(p)
                want.append(None)
        if case["relative"]:
            os.chdir(d)
            listing = [os.path.relpath(p, d) + "/" * p.endswith("/") for p in listing]
        given = list(listing)
        if not want or None in want:
            raises(ValueError, lambda: scheduler(fmt, listing), f"file_list {listing}")
            return {"nontrivial": bool(listing), "labels": ["refused"]}
        s = scheduler(fmt, listing)
        require(listing == given, "the list given has been changed to {}", listing)
        require([absolute(p, d) for p in s.file_list] == [absolute(p, d) for p in want],
                "file_list is {} instead of {}", s.file_list, want)
        require(len(s) == len(want), "len() is {} instead of {}", len(s), len(want))
        b = s.get_batch(len(want) + 1)
        require([absolute(f, d) if f else f for f in b.files]
                == [absolute(p, d) for p in want] + [""], "files served {}", b.files)
        for k, p in enumerate(want):
            eq(b.flow_fields[k], content[os.path.normpath(p)], f"flow of {p}")
        sub = any(os.path.dirname(p) != os.path.join(d, "root") for p in want)
    return {"nontrivial": any(k.startswith("dir") for k, _ in case["list"]),
            "labels": [fmt, "nested" if sub else "flat"]}


@st.composite
def cases(draw, tier="quick"):
    fmt = draw(st.sampled_from([".mat", ".h5", ".npy"]))
    depth = 3 if fmt != ".npy" else 1
    stems = STEMS if fmt != ".npy" else STEMS + [s for s in STEMS if s.startswith("flow")] * 3
    entry = st.tuples(st.lists(st.sampled_from(DIRS), max_size=depth), st.sampled_from(stems),
                      st.sampled_from([fmt] * 8 + EXTS)).map(list)
    kinds = ["dir", "dir", "dir", "dir/", "file"]
    if draw(st.sampled_from([False, False, False, True])):
        kinds += ["missing", "other"]
    return {"fmt": fmt, "tree": draw(st.lists(entry, min_size=1, max_size=12)),
            "list": draw(st.lists(st.tuples(st.sampled_from(kinds),
                                            st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7]))
                                  .map(list),
                                  min_size=1, max_size=4)),
            "relative": draw(st.sampled_from([False, False, True])), "seed": draw(st.integers(0, 2**20))}


def check_types(case):
    with scratch() as d:
        p = os.path.join(d, "flow_1" + case["fmt"])
        write(p, case["fmt"], 1)
        bad = {"str": p, "tuple": (p,), "none": None, "mixed": [p, 3], "empty": [],
               "path": [__import__("pathlib").Path(p)], "dict": {p: 1}}[case["what"]]
        raises(ValueError, lambda: scheduler(case["fmt"], bad), f"file_list={case['what']}")
        for name in ("randomize", "loop"):
            raises(ValueError, lambda: scheduler(case["fmt"], [p], **{name: case["flag"]}),
                   f"{name}={case['flag']}")


@st.composite
def type_cases(draw, tier="quick"):
    return {"fmt": draw(st.sampled_from([".mat", ".h5", ".npy"])),
            "what": draw(st.sampled_from(["str", "tuple", "none", "mixed", "empty", "path",
                                          "dict"])),
            "flag": draw(st.sampled_from([1, 0, "yes", None, 0.5]))}


def check_foreign(case):
    """A list with a file of another format, which may have any name, is refused."""
    fmt, name = case["fmt"], case["name"]
    if name.endswith(fmt):
        return {"nontrivial": False}
    with scratch() as d:
        sub = os.path.join(d, case["dir"])
        os.makedirs(sub)
        files = []
        for n in range(case["n"]):
            files.append(os.path.join(sub, f"flow_{n}{fmt}"))
            write(files[-1], fmt, n)
        p = os.path.join(sub, name)
        open(p, "wb").close() if case["empty"] else write(p, fmt, 1)
        listing = files[:case["at"]] + [p] + files[case["at"]:]
        raises(ValueError, lambda: scheduler(fmt, listing), f"file_list {listing}")
        os.unlink(p)
        raises(ValueError, lambda: scheduler(fmt, listing), f"file_list {listing}")
        if case["link"]:
            os.symlink(os.path.join(sub, "nowhere"), p)
            raises(ValueError, lambda: scheduler(fmt, listing), f"file_list {listing}")
        if files:
            s = scheduler(fmt, files if case["link"] else [sub])
            require(s.file_list == files, "file_list is {} instead of {}", s.file_list, files)


@st.composite
def foreign_cases(draw, tier="quick"):
    fmt = draw(st.sampled_from([".mat", ".h5", ".npy"]))
    n = draw(st.integers(0, 3))
    return {"fmt": fmt, "n": n, "at": draw(st.integers(0, n)),
            "dir": draw(st.sampled_from(["a", "x" + fmt, fmt[1:], "é"])),
            "name": "flow_9" + draw(st.sampled_from(
                [fmt + ".bak", fmt + "x", "_" + fmt[1:], fmt + " ", fmt.upper(), fmt + ".1", "",
                 ".txt", "~", ".mat", ".h5", ".npy", ".npz", ".hdf5", fmt[:-1], "." + fmt[2:]])),
            "empty": draw(st.booleans()), "link": draw(st.booleans())}


PROP = Prop("C14", [
    Sub("tree", lambda tier: cases(tier), check, 2400, 30000,
        "directory trees with odd names (glob characters, spaces, other suffixes), lists of "
        "directories and files; compared with a walk of the tree; missing files, foreign files "
        "and empty results must be refused; non-trivial: a directory is listed", weight=3),
    Sub("foreign", lambda tier: foreign_cases(tier), check_foreign, 720, 6000,
        "lists of real files with one of another name (suffixes added, cut, in capitals) or "
        "deleted, or a dangling link, at any position: refused", weight=1),
    Sub("types", lambda tier: type_cases(tier), check_types, 120, 400,
        "arguments that are no lists of paths, no booleans"),
])
