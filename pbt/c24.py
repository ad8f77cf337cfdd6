"""C24: the sanity tool records the extremes of the data and keeps the rest."""

import builtins
import contextlib
import io
import math
import os
import sys

import h5py
import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .pipe import aux_files, config, pipelines, write_files
from .util import raises, require, rng, scratch, write_h5

SPEEDS = ("min_speed_x", "max_speed_x", "min_speed_y", "max_speed_y")


def dump(cfg, path):
    from ruamel.yaml import YAML

    y = YAML(typ="safe", pure=True)
    y.sort_base_mapping_type_on_output = False
    with open(path, "w", encoding="utf-8") as f:
        y.dump(cfg, f)


def load(path):
    """Read with a loader of our own, not the one of the tool."""
    from ruamel.yaml import YAML

    with open(path, encoding="utf-8") as f:
        return YAML(typ="safe", pure=True).load(f)


def identical(a, b):
    """Equal with the same types: 1, 1.0 and True are different settings."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(identical(a[k], b[k]) for k in a) or (
            set(a) == set(b) and all(identical(a[k], b[k]) for k in a))
    if isinstance(a, list):
        return len(a) == len(b) and all(map(identical, a, b))
    return a == b or (isinstance(a, float) and math.isnan(a) and math.isnan(b))


@contextlib.contextmanager
def answering(answers):
    """Replace input(); yields what was printed and how many answers were used."""
    out = io.StringIO()
    asked = []

    def fake(prompt=""):
        asked.append(prompt)
        require(len(asked) <= len(answers), "asked {} times: {}", len(asked), asked)
        return answers[len(asked) - 1]

    old = builtins.input
    builtins.input = fake
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            yield out, asked
    finally:
        builtins.input = old


def data_of(f):
    r = rng(f["seed"])
    a = r.normal(0, 1, (*f["shape"], 2)) * f["scale"]
    a[..., 0] += f["shift"][0]
    a[..., 1] += f["shift"][1]
    a = a.astype(f["dtype"])
    for c, pos, v in f["peaks"]:  # extremes at one place
        flat = a[..., c].reshape(-1)
        flat[pos % flat.size] = v
        a[..., c] = flat.reshape(a.shape[:-1])
    return a


@st.composite
def file_data(draw):
    nd = draw(st.sampled_from([3, 2]))
    shape = [draw(st.integers(1, 6)) for _ in range(nd)]
    if draw(st.sampled_from([False] * 9 + [True])):  # more than a handful
        shape[draw(st.integers(0, nd - 1))] = draw(st.integers(60, 300))
    return {"shape": shape,
            "seed": draw(st.integers(0, 2**20)), "scale": draw(st.sampled_from([1.0, 0.01, 40.0])),
            "shift": [draw(st.sampled_from([0.0, 7.5, -90.0])) for _ in range(2)],
            "dtype": draw(st.sampled_from(["float32", "float64"])),
            "peaks": draw(st.lists(st.tuples(
                st.integers(0, 1), st.integers(0, 10**4),
                st.sampled_from([-300.25, 300.5, 0.0, -1e-3])).map(list), max_size=3))}


def extremes(arrays):
    x = np.concatenate([a[..., 0].reshape(-1).astype(np.float64) for a in arrays])
    y = np.concatenate([a[..., 1].reshape(-1).astype(np.float64) for a in arrays])
    return {"min_speed_x": x.min(), "max_speed_x": x.max(),
            "min_speed_y": y.min(), "max_speed_y": y.max()}


def check_extremes(case):
    from synthpix.sanity import calculate_min_and_max_speeds

    with scratch() as d:
        paths, arrays = [], []
        for i, f in enumerate(case["files"]):
            arrays.append(data_of(f))
            paths.append(os.path.join(d, f"{i}.h5"))
            write_h5(paths[-1], arrays[-1], name=case["name"])
            if case["other"] > case["name"]:  # the first dataset by name is the flow
                with h5py.File(paths[-1], "a") as h:
                    h.create_dataset(case["other"], data=1000.0 * arrays[-1])
        with answering([]):
            got = calculate_min_and_max_speeds(paths)
        want = extremes(arrays)
        require(set(got) == set(want), "keys {}", sorted(got))
        for k, v in want.items():
            require(isinstance(got[k], float) and got[k] == v, "{}: {} instead of {}", k, got[k],
                    v)
        if case["bad"] is not None:  # data of another layout is refused
            p = os.path.join(d, "bad.h5")
            write_h5(p, np.zeros(case["bad"], np.float32))
            at = case["at"] % (len(paths) + 1)
            with answering([]):
                raises(ValueError, lambda: calculate_min_and_max_speeds(
                    paths[:at] + [p] + paths[at:]), f"data of shape {case['bad']}")
    return {"nontrivial": len(paths) > 1 and any(a[..., 0].size > 1 for a in arrays),
            "labels": ["3-D" if a.ndim == 3 else "4-D" for a in arrays]}


def extremes_cases(tier):
    return st.fixed_dictionaries({
        "files": st.one_of(*[st.lists(file_data(), min_size=1, max_size=5)] * 9,
                           st.lists(file_data(), min_size=17, max_size=40)),
        "name": st.sampled_from(["flow", "V", "a b", "Zz"]),
        "other": st.sampled_from(["", "", "a", "u", "zz", "Zzz"]),
        "bad": st.sampled_from([None, None, [4], [3, 4], [3, 4, 3], [2, 2, 2, 2, 2]]),
        "at": st.integers(0, 9)})


TEXT = st.text(st.characters(codec="utf-8", exclude_categories=("Cs", "Cc", "Co", "Cn"),
                             exclude_characters="\u2028\u2029\ufeff"), max_size=12)
AWKWARD = st.sampled_from(["1e3", "0o17", "012", "yes", "null", "~", "", " ", "a: b", "- a",
                           "#x", "12:30:45", "2020-01-01", "[1]", "{a: 1}", "%d", "'", '"', "é",
                           "a" * 200, "a b " * 60, "*x", "&x", "!!str", "0x1F", "1_000", ".5"])
SCALAR = st.one_of(st.none(), st.booleans(), st.integers(-10**9, 10**9),
                   st.floats(allow_nan=False, width=64), TEXT, AWKWARD)
VALUE = st.recursive(SCALAR, lambda s: st.one_of(
    st.lists(s, max_size=4), st.dictionaries(st.one_of(TEXT, AWKWARD), s, max_size=3)),
    max_leaves=8)
KEYS = st.one_of(st.sampled_from(["resolution", "seed", "image_shape", "noise_uniform", "mask",
                                  "diameter_ranges", "a key"]), TEXT.filter(bool))


def settings_cases():
    return st.dictionaries(KEYS.filter(lambda k: k not in SPEEDS and k != "file_list"), VALUE,
                           max_size=6)


def check_update(case):
    """update_config_file sets the given values and nothing else."""
    from synthpix.sanity import update_config_file

    with scratch() as d:
        p = os.path.join(d, "c.yaml")
        cfg = dict(case["settings"])
        if case["list_at"] is not None:
            items = list(cfg.items())
            items.insert(case["list_at"] % (len(items) + 1), ("file_list", case["file_list"]))
            cfg = dict(items)
        dump(cfg, p)
        if not identical(load(p), cfg):  # not representable
            return {"nontrivial": False, "labels": ["skipped"]}
        new = dict(case["updates"])
        kind = {"np": np.float64, "np32": np.float32, "int": np.int64, "py": lambda v: v}
        update_config_file(p, {k: kind[case["kind"]](v) for k, v in new.items()})
        got = load(p)
        for k, v in cfg.items():
            if k not in new:
                require(k in got, "{!r} is lost", k)
                require(identical(got[k], v), "{!r} was {!r} and is {!r}", k, v, got[k])
        for k, v in new.items():
            w = float(np.float32(v)) if case["kind"] == "np32" else v
            w = int(w) if case["kind"] == "int" else w
            require(k in got and got[k] == w, "{} is {} after an update with {}", k, got.get(k), w)
        require(set(got) == set(cfg) | set(new), "keys {}", set(got) ^ (set(cfg) | set(new)))
    return {"nontrivial": len(cfg) > 1 and len(new) > 0}


def update_cases(tier):
    num = st.one_of(st.integers(-50, 50), st.floats(-1e3, 1e3))
    return st.fixed_dictionaries({
        "settings": settings_cases(), "list_at": st.one_of(st.none(), st.integers(0, 9)),
        "file_list": st.lists(st.one_of(TEXT, AWKWARD), max_size=3),
        "updates": st.dictionaries(st.sampled_from([*SPEEDS, "resolution", "new key"]), num,
                                   max_size=4),
        "kind": st.sampled_from(["np", "np32", "int", "py"])})


BAD = {"no key": None, "text": "fast", "list": [1.0], "none": "null"}


def check_panel(case):
    """The dialogue: what is asked, what is returned, and what the file says after it."""
    from synthpix.sanity import missing_speeds_panel

    with scratch() as d:
        paths, arrays = [], []
        for i, f in enumerate(case["files"]):
            arrays.append(data_of(f))
            paths.append(os.path.join(d, case["names"][i % len(case["names"])] + f"{i}.h5"))
            write_h5(paths[-1], arrays[-1])
        cfg = dict(case["settings"])
        cfg["file_list"] = paths
        given = {}
        for k, v in zip(SPEEDS, case["speeds"]):
            if v == "missing":
                continue
            cfg[k] = v
            if isinstance(v, (int, float)):
                given[k] = v
        p = os.path.join(d, "c.yaml")
        dump(cfg, p)
        if not identical(load(p), cfg):
            return {"nontrivial": False, "labels": ["skipped"]}
        before = open(p, "rb").read()
        missing = [k for k in SPEEDS if k not in given]
        result = err = None
        with answering(case["answers"]) as (out, asked):
            try:
                result = missing_speeds_panel(p)
            except RuntimeError as e:
                err = e
        got = load(p)
        for k, v in cfg.items():
            if k not in SPEEDS:
                require(k in got and identical(got[k], v), "{!r} was {!r} and is {!r}", k, v,
                        got.get(k))
        require(set(got) <= set(cfg) | set(SPEEDS), "new keys {}", set(got) - set(cfg))
        if not missing:
            require(not asked and err is None, "asked although nothing is missing")
            require(before == open(p, "rb").read(), "the file was changed")
            want = given
        else:
            for k in missing:
                require(k in out.getvalue(), "{} is not reported", k)
            require(asked, "nothing was asked")
            if case["answers"][0] != "1":
                require(isinstance(err, RuntimeError), "continued after the answer {!r}",
                        case["answers"][0])
                require(before == open(p, "rb").read(), "the file was changed without consent")
                want = None
            else:
                true = extremes(arrays)
                for k in missing:
                    require(got.get(k) == true[k], "{}: recorded {} instead of {}", k,
                            got.get(k), true[k])
                for k in given:
                    require(got.get(k) in (given[k], true[k]), "{}: recorded {} for {}", k,
                            got.get(k), given[k])
                if case["answers"][1].lower() == "y":
                    require(err is None, "{} after consent", err)
                    want = {k: got[k] for k in SPEEDS}
                else:
                    require(isinstance(err, RuntimeError), "continued without consent")
                    want = None
        if want is not None:
            order = ("max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y")
            require(tuple(result) == tuple(want[k] for k in order), "returned {} for {}", result,
                    want)
    return {"nontrivial": bool(missing), "labels": [f"{len(missing)} missing",
                                                    *case["answers"][:len(asked)]]}


@st.composite
def panel_cases(draw, tier="quick"):
    speed = st.one_of(st.just("missing"), st.just("missing"), st.sampled_from(["fast", None, [1.0]]),
                      st.floats(-9, 9), st.integers(-9, 9))
    full = draw(st.integers(0, 4)) == 0
    return {"files": draw(st.lists(file_data(), min_size=1, max_size=3)),
            "names": draw(st.lists(st.sampled_from(["a", "b c", "é", "x#", "1e", "z: "]),
                                   min_size=1, max_size=3)),
            "settings": draw(settings_cases()),
            "speeds": [draw(st.floats(-9, 9) if full else speed) for _ in SPEEDS],
            "answers": [draw(st.sampled_from(["1", "1", "1", "2", "3", ""])),
                        draw(st.sampled_from(["y", "y", "Y", "n", ""]))]}


def check_tool(case):
    """The tool as a whole: after consent the configuration is complete and usable."""
    import synthpix
    from synthpix import sanity

    c = case["pipe"]
    with scratch() as d:
        entries, _ = write_files(c, d)
        aux_files(c, d)
        cfg = config(c, d, sorted({p for p, _ in entries}))
        for k in case["drop"]:
            del cfg[k]
        if case["spoil"]:
            cfg[case["spoil"][0]] = case["spoil"][1]
        p = os.path.join(d, "c.yaml")
        dump(cfg, p)
        argv = sys.argv
        sys.argv = ["sanity", "--config", p]
        code = 0
        try:
            with answering(["1", "y"]) as (out, asked):
                try:
                    sanity.main()
                except SystemExit as e:
                    code = e.code
        finally:
            sys.argv = argv
        if case["spoil"]:
            require(code == 1, "a configuration with {} passes", case["spoil"])
            return {"nontrivial": True, "labels": ["refused"]}
        require(code == 0, "refused although everything is given (missing before: {})",
                case["drop"])
        got = load(p)
        for k, v in cfg.items():
            if k not in SPEEDS:
                require(identical(got[k], v), "{!r} was {!r} and is {!r}", k, v, got[k])
        with contextlib.redirect_stdout(io.StringIO()):
            s = synthpix.make(p)
        s.shutdown()
    return {"nontrivial": bool(case["drop"]), "labels": ["completed" if case["drop"] else "full"]}


@st.composite
def tool_cases(draw, tier="quick"):
    c = draw(pipelines(fmts=(".h5",)))
    c["buffer"] = 0
    return {"pipe": c, "drop": draw(st.lists(st.sampled_from(SPEEDS), unique=True, max_size=4)),
            "spoil": draw(st.one_of(st.none(), st.none(), st.sampled_from([
                ["p_hide_img1", 2.0], ["dt", 0.0], ["batch_size", -1], ["image_shape", [0, 9]],
                ["resolution", 0], ["seeding_density_range", [0.5, 0.1]]])))}


PROP = Prop("C24", [
    Sub("extremes", extremes_cases, check_extremes, 1200, 40000,
        "one to five HDF5 files of drawn 3-D and 4-D shapes, with the extremes anywhere; the "
        "recorded speeds are exactly those of all data; other layouts are refused; non-trivial: "
        "several files"),
    Sub("update", update_cases, check_update, 1600, 60000,
        "drawn configurations with nested values and awkward strings, drawn updates; every other "
        "value survives with its type; non-trivial: several settings and an update"),
    Sub("panel", lambda tier: panel_cases(tier), check_panel, 800, 30000,
        "drawn configurations with speeds missing or invalid, data and answers; returned and "
        "recorded speeds against the data; nothing changes without consent; non-trivial: "
        "something is missing"),
    Sub("tool", lambda tier: tool_cases(tier), check_tool, 48, 1200,
        "the tool run on a full pipeline configuration with speeds left out or a setting "
        "spoiled; accepted exactly when valid, and make() builds the result; non-trivial: "
        "something left out or spoiled"),
])
