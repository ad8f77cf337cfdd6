"""C17: an episode is a run of consecutive frames of one sequence."""

import os

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub
from .util import eq, raises, require, scratch, small_flow, small_img, write_mat

HW = (3, 4)


def build_tree(case, d):
    """Write the sequences; return {directory: [frame paths in order]}, data and the listing."""
    data, dirs = {}, {}
    n = 0
    for k, s in enumerate(case["dirs"]):
        p = os.path.join(d, *s["path"])
        if p in dirs or any(q.startswith(p + os.sep) or p.startswith(q + os.sep) for q in dirs):
            p = os.path.join(d, f"extra{k}")
        os.makedirs(p, exist_ok=True)
        frames = []
        for t in range(s["n"]):
            f = os.path.join(p, s["name"].format(s["first"] + t * s["step"]))
            n += 1
            v = {"V": small_flow(case["seed"] + n, HW + (2,))}
            if case["images"]:
                v["I0"] = small_img(case["seed"] + 2 * n, HW)
                v["I1"] = small_img(case["seed"] + 2 * n + 1, HW)
            write_mat(f, **v)
            data[f] = v
            frames.append(f)
        frames.sort()
        for o in s["others"]:
            open(os.path.join(p, o), "w").write("x")
        dirs[p] = frames
    for k in range(case["stray"]):  # frames in folders that have subfolders: no sequence
        f = os.path.join(d, f"stray_{k}.mat")
        write_mat(f, V=np.zeros(HW + (2,), np.float32))
        data[f] = None
    listing = {"root": [d], "dirs": sorted(dirs), "files": sorted(data),
               "one each": [fs[len(fs) // 2] for fs in dirs.values()]}[case["listing"]]
    return dirs, data, listing


def make(case, listing, length, lanes, key):
    import jax

    from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler

    base = MATFlowFieldScheduler(listing, include_images=case["images"], output_shape=HW,
                                 randomize=case["randomize"], loop=case["loop"],
                                 key=jax.random.PRNGKey(1))
    return EpisodicFlowFieldScheduler(base, batch_size=lanes, episode_length=length,
                                      key=jax.random.PRNGKey(key))


def locate(dirs, f, what):
    p = os.path.dirname(f)
    require(p in dirs and f in dirs[p], "{}: {} is not a frame of a sequence", what, f)
    return p, dirs[p].index(f)


def check_runs(case):
    lanes, L = case["lanes"], case["length"]
    with scratch() as d:
        dirs, data, listing = build_tree(case, d)
        short = [p for p, fs in dirs.items() if len(fs) < L]
        if short:
            raises(ValueError, lambda: make(case, listing, L, lanes, case["key"]),
                   f"episodes of {L} frames, sequences of {[len(f) for f in dirs.values()]}")
            return {"nontrivial": False, "labels": ["too short"]}
        streams = []
        for _ in range(2):
            s = make(case, listing, L, lanes, case["key"])
            require(s.episode_length == L and len(s) == L, "episode_length {}", s.episode_length)
            require(tuple(s.get_flow_fields_shape()) == HW + (2,), "get_flow_fields_shape()")
            stream = []
            for e, (end, steps) in enumerate(case["episodes"]):
                steps = L if end == "full" else min(steps, L)
                start = None
                for t in range(steps):
                    what = f"episode {e}, step {t}"
                    b = s.get_batch(lanes)
                    require(bool(np.all(b.mask)) and len(b.files) == lanes, "{}: mask {}, files "
                            "{}", what, b.mask, b.files)
                    at = [locate(dirs, f, what) for f in b.files]
                    if t == 0:
                        start = at
                        for p, i in at:
                            require(i + L <= len(dirs[p]), "{}: a run of {} frames from frame {} "
                                    "of {}", what, L, i, len(dirs[p]))
                    for k in range(lanes):
                        require(at[k] == (start[k][0], start[k][1] + t), "{}, lane {}: frame {} "
                                "of {} after the start at {}", what, k, at[k][1], at[k][0],
                                start[k])
                        v = data[b.files[k]]
                        eq(b.flow_fields[k], v["V"], f"{what}, lane {k}: flow")
                        if case["images"]:
                            eq(b.images1[k], v["I0"], f"{what}, lane {k}: images1")
                            eq(b.images2[k], v["I1"], f"{what}, lane {k}: images2")
                    stream.append(tuple(b.files))
                if end == "reset":
                    s.reset()
                elif end == "reset_episode":
                    s.reset_episode()
                else:
                    s.next_episode()
            streams.append(stream)
        require(streams[0] == streams[1], "the same key: other runs")
    return {"nontrivial": L >= 2 and len(streams[0]) >= 3,
            "labels": [case["listing"], "shuffled base" if case["randomize"] else "plain base"]}


NAMES = ["{:04d}.mat", "flow_{:05d}.mat", "{:03d}_a.mat", "a[{:02d}].mat", "frame {:04d}.mat"]


@st.composite
def cases(draw, tier="quick"):
    big = draw(st.sampled_from([False] * 9 + [True]))  # more than a handful
    L = draw(st.integers(1, 14 if big else 5))
    seq = st.fixed_dictionaries({
        "path": st.lists(st.sampled_from(["a", "b", "seq 1", "x[1]", "10", "9", "é"]),
                         min_size=1, max_size=3),
        "n": st.integers(L, L + (30 if big else 5)), "name": st.sampled_from(NAMES),
        "first": st.integers(0, 20), "step": st.sampled_from([1, 1, 2, 5]),
        "others": st.lists(st.sampled_from(["notes.txt", "0000.h5", "0001.mat.bak"]),
                           max_size=2, unique=True)})
    dirs = draw(st.lists(seq, min_size=1, max_size=9 if big else 4))
    if draw(st.booleans()):  # the frames of all sequences have the same names
        for s in dirs[1:]:
            s.update({k: dirs[0][k] for k in ("name", "first", "step")})
    if draw(st.sampled_from([False] * 6 + [True])) and L > 1:
        dirs[0]["n"] = draw(st.integers(1, L - 1))
    end = st.tuples(st.sampled_from(["full", "full", "next", "reset", "reset_episode"]),
                    st.integers(0, 5)).map(list)
    return {"dirs": dirs, "length": L, "lanes": draw(st.integers(1, 12 if big else 4)),
            "images": draw(st.booleans()), "randomize": draw(st.booleans()),
            "loop": draw(st.booleans()), "stray": draw(st.sampled_from([0, 0, 1])),
            "listing": draw(st.sampled_from(["root", "dirs", "files", "one each"])),
            "episodes": draw(st.lists(end, min_size=1, max_size=4)),
            "key": draw(st.integers(0, 10**6)), "seed": draw(st.integers(0, 2**20))}


def check_choice(case):
    """All admissible starts are equally likely, for every lane and episode."""
    L, lanes, E = case["length"], case["lanes"], case["count"]
    with scratch() as d:
        dirs, _, listing = build_tree(case, d)
        starts = [(p, i) for p, fs in dirs.items() for i in range(len(fs) - L + 1)]
        n = len(starts)
        s = make(case, listing, L, lanes, case["key"])
        hit = np.zeros((E, lanes), int)
        for e in range(E):
            b = s.get_batch(lanes)
            hit[e] = [starts.index(locate(dirs, f, f"episode {e}")) for f in b.files]
            s.next_episode()
        N = E * lanes

        def near(count, total, prob, what):
            sd = np.sqrt(total * prob * (1 - prob))
            require(abs(count - total * prob) <= 6.5 * sd + 2, "{}: {} of {}, expected {:.1f}",
                    what, count, total, total * prob)

        for k, (p, i) in enumerate(starts):
            near((hit == k).sum(), N, 1 / n, f"episodes that start at frame {i} of {p}")
        for p, fs in dirs.items():  # parts of long sequences
            own = [k for k, (q, _) in enumerate(starts) if q == p]
            if len(own) >= 12:
                for a in range(3):
                    part = own[a * len(own) // 3:(a + 1) * len(own) // 3]
                    near(np.isin(hit, part).sum(), N, len(part) / n, "episodes that start at "
                         f"frames {starts[part[0]][1]} to {starts[part[-1]][1]} of {p}")
        near((hit[1:] == hit[:-1]).sum(), N - lanes, 1 / n, "the next episode is the same run")
        if lanes > 1:
            near((hit[:, 1:] == hit[:, :-1]).sum(), E * (lanes - 1), 1 / n,
                 "neighbouring lanes have the same run")
        other = make(case, listing, L, lanes, case["key"] + 1)
        runs = []
        for e in range(30):
            runs.append(tuple(starts.index(locate(dirs, f, "")) for f in
                              other.get_batch(lanes).files))
            other.next_episode()
        if n > 1:  # chance of agreement at most 2**-30
            require(runs != [tuple(h) for h in hit[:30]], "another key: the same runs")
    return {"nontrivial": n > 1}


@st.composite
def choice_cases(draw, tier="quick"):
    c = draw(cases(tier))
    c["images"] = False
    c["count"] = 80
    c["dirs"] = c["dirs"][:3]
    for s in c["dirs"]:
        s["n"] = c["length"] + draw(st.integers(0, 3))
    if draw(st.sampled_from([False] * 4 + [True])):  # one long sequence
        c["dirs"], c["count"] = c["dirs"][:1], 200
        c["dirs"][0]["n"] = c["length"] + draw(st.integers(30, 80))
    return c


PROP = Prop("C17", [
    Sub("runs", lambda tier: cases(tier), check_runs, 400, 6000,
        "trees of frame folders (nested, odd names, other files around), listed as root, "
        "folders, files or single frames, over a plain or shuffled scheduler; the files of "
        "every batch are located in the tree; too short sequences must be refused; "
        "non-trivial: runs of two frames, three batches"),
    Sub("choice", lambda tier: choice_cases(tier), check_choice, 40, 800,
        "frequency of every admissible start over 80 to 200 episodes, of repetitions and of equal "
        "lanes, within 6.5 sigma; another key gives other runs; non-trivial: several starts"),
])
