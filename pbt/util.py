"""Helpers of the checks: scratch folders, data files, in-memory schedulers."""

from __future__ import annotations

import contextlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .core import HarnessError, Violation, require  # noqa: F401


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="case_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rng(seed):
    return np.random.default_rng(seed)


def small_flow(seed, shape):
    """A flow whose values identify it: multiples of 1/8, exact in float32."""
    return (rng(seed).integers(-4000, 4000, size=shape) / 8.0).astype(np.float32)


def small_img(seed, shape):
    return rng(seed).integers(0, 256, size=shape).astype(np.uint8)


def write_mat(path, version="5", **v):
    import h5py
    import scipy.io

    if version == "7.3":
        with h5py.File(path, "w") as f:
            for k, a in v.items():
                f.create_dataset(k, data=a)
    else:
        scipy.io.savemat(path, v, format=version)


def write_h5(path, arr, name="flow", **kw):
    import h5py

    with h5py.File(path, "w") as f:
        f.create_dataset(name, data=arr, **kw)


def eq(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, "{}: shape {} instead of {}", what, a.shape, b.shape)
    if not np.array_equal(a, b):
        bad = np.argwhere(a != b)
        i = tuple(bad[0])
        raise Violation(f"{what}: {len(bad)} of {a.size} values differ, first at {i}: "
                        f"{a[i]} instead of {b[i]}")


def close(a, b, tol, what):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    require(a.shape == b.shape, "{}: shape {} instead of {}", what, a.shape, b.shape)
    require(np.all(np.isfinite(a)), "{}: not finite", what)
    err = np.abs(a - b)
    if err.size and np.any(err > tol):
        t = np.broadcast_to(np.asarray(tol, np.float64), err.shape)
        i = np.unravel_index(np.argmax(err - t), err.shape)
        raise Violation(f"{what}: at {tuple(int(j) for j in i)} {a[i]} instead of {b[i]} "
                        f"(tolerance {t[i]:.4g})")


def raises(exc, fn, what):
    """`fn` must raise `exc` and nothing else."""
    try:
        r = fn()
    except exc as e:
        return e
    raise Violation(f"{what}: no {exc} raised, returned {str(r)[:200]}")


class MemScheduler:
    """A finite or endless in-memory scheduler following the documented protocol."""

    def __init__(self, flows, files=None, loop=False, mask_pad=True):
        self.flows = np.asarray(flows)
        self.files = files
        self.loop = loop
        self.i = 0
        self.calls = []
        self.resets = 0
        self.shut = 0

    def shutdown(self):
        self.shut += 1

    def get_flow_fields_shape(self):
        return tuple(int(s) for s in self.flows.shape[1:])

    def reset(self):
        self.i = 0
        self.resets += 1

    @property
    def file_list(self):
        return list(self.files or [])

    @file_list.setter
    def file_list(self, v):
        self.files = v

    def get_batch(self, batch_size):
        from synthpix.types import SchedulerData

        self.calls.append(batch_size)
        idx = []
        while len(idx) < batch_size:
            if self.i >= len(self.flows):
                if not self.loop:
                    break
                self.i = 0
            idx.append(self.i)
            self.i += 1
        if not idx:
            raise StopIteration
        rows = [self.flows[i] for i in idx]
        files = [self.files[i] if self.files else f"mem{i}" for i in idx]
        mask = np.zeros(batch_size, bool)
        mask[: len(idx)] = True
        while len(rows) < batch_size:
            rows.append(np.zeros_like(self.flows[0]))
            files.append("")
        return SchedulerData(flow_fields=np.stack(rows), mask=mask, files=tuple(files))


@st.composite
def sides(draw, lo, hi, far=400):
    """Height and width; at times equal, or one of them beyond what fits a byte."""
    hw = [draw(st.integers(lo, hi)), draw(st.integers(lo, hi))]
    if draw(st.sampled_from([False] * 11 + [True])):
        hw[draw(st.integers(0, 1))] = draw(st.integers(257, far))
    elif draw(st.sampled_from([False] * 7 + [True])):
        hw[1] = hw[0]
    return hw
