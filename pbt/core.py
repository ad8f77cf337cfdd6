"""Generated-input search: Hypothesis strategies + explicit oracles.

A property is a list of `Sub` checks.  Each `Sub` has a Hypothesis strategy
that yields a JSON-able case, and a `check(case)` that runs the code under test
on it and raises `Violation` when the oracle disagrees.  `check` may return a
dict {"nontrivial": bool, "labels": [...]} describing the case.

Verdicts
  * `Violation`, or any exception that passed through code under /repo
    -> the property is broken on this case.
  * any other exception -> an error of the harness (exit 2, no VIOLATION line).
"""

from __future__ import annotations

import dataclasses
import hashlib
import json
import os
import sys
import threading
import time
import traceback
from collections import Counter
from collections.abc import Callable

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """The harness itself is wrong or the environment failed."""


class _Stop(BaseException):
    """Ends a Hypothesis run: budget used up, or the shrink time is over."""


def require(cond, msg, *args) -> None:
    """Raise a Violation with `msg` unless `cond`."""
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


@dataclasses.dataclass
class Sub:
    """One generated check of a property."""

    name: str
    strategy: Callable  # tier -> hypothesis strategy of JSON-able cases
    check: Callable  # case -> dict | None
    quick: int  # examples over all shards
    thorough: int
    rule: str
    weight: float = 1.0  # share of the time budget
    max_shards: int = 64  # e.g. 1 for checks that spawn processes themselves
    hang_s: float = 240.0  # a case that runs longer did not terminate


@dataclasses.dataclass
class Prop:
    id: str
    subs: list[Sub]
    needs_jax: bool = True
    shards_quick: int = 8
    shards_thorough: int = 8
    devices: int = 1  # virtual devices of XLA
    assumptions: tuple[str, ...] = ()


ENVIRONMENT = (MemoryError, KeyboardInterrupt)


def classify(exc: BaseException) -> str:
    """Return "violation" or "error" for an exception raised by a check."""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError) or isinstance(exc, ENVIRONMENT):
        return "error"
    if isinstance(exc, OSError) and exc.errno in (12, 23, 24, 28):
        return "error"
    if "RESOURCE_EXHAUSTED" in str(exc):
        return "error"
    # Also outside of the code under test: the check could not make sense of what it got (a
    # value of another kind, a file that was not written), which does not happen otherwise.
    return "violation"


def case_key(sub: str, case) -> str:
    return hashlib.sha1((sub + json.dumps(case, sort_keys=True)).encode()).hexdigest()


class Watchdog:
    """Reports a case that does not terminate: writes the record and exits."""

    def __init__(self, on_hang: Callable[[str, object], None]):
        self.on_hang = on_hang
        self.current = None
        self.lock = threading.Lock()
        t = threading.Thread(target=self._run, daemon=True)
        t.start()

    def start(self, sub, case, limit):
        with self.lock:
            self.current = (time.monotonic() + limit, sub, case)

    def stop(self):
        with self.lock:
            self.current = None

    def _run(self):
        while True:
            time.sleep(1.0)
            with self.lock:
                cur = self.current
            if cur is not None and time.monotonic() > cur[0]:
                self.on_hang(cur[1], cur[2])
                return


@dataclasses.dataclass
class SubResult:
    name: str
    evaluations: int = 0
    nontrivial: int = 0
    keys: set = dataclasses.field(default_factory=set)
    labels: Counter = dataclasses.field(default_factory=Counter)
    samples: list = dataclasses.field(default_factory=list)
    failure: dict | None = None
    error: str | None = None
    budget_hit: bool = False


def run_sub(sub: Sub, tier: str, seed: int, examples: int, budget_s: float,
            shrink_s: float, known: list[dict], watchdog: Watchdog,
            skip_first: bool = False) -> SubResult:
    """Search for a failing case of `sub` with Hypothesis.

    Hypothesis begins with the simplest case, in every shard; `skip_first` leaves
    it to the first of them.
    """
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = SubResult(sub.name)
    t_start = time.monotonic()
    state = {"first_fail": None, "skip": skip_first}

    def body(case):
        if state["skip"]:
            state["skip"] = False
            return
        now = time.monotonic()
        if state["first_fail"] is not None and now - state["first_fail"] > shrink_s:
            raise _Stop
        if state["first_fail"] is None and now - t_start > budget_s and res.evaluations:
            res.budget_hit = True
            raise _Stop
        watchdog.start(sub.name, case, sub.hang_s)
        try:
            info = sub.check(case) or {}
        except (Exception, SystemExit) as e:  # noqa: BLE001
            watchdog.stop()
            if classify(e) == "error":
                res.error = "".join(traceback.format_exception(e))[-6000:]
                res.error += "\ncase: " + json.dumps(case)[:2000]
                raise _Stop from e
            sig = {"sub": sub.name, "case": case, "message": f"{type(e).__name__}: {e}"}
            if match_known(sig, known):
                res.evaluations += 1
                res.labels["known-finding"] += 1
                return
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            size = len(json.dumps(case))
            if res.failure is None or size <= res.failure["size"]:
                res.failure = {
                    "size": size, "case": case, "sub": sub.name,
                    "message": sig["message"],
                    "traceback": "".join(traceback.format_exception(e))[-4000:],
                }
            raise Violation("failing case") from None
        watchdog.stop()
        if state["first_fail"] is not None:
            return
        res.evaluations += 1
        for lab in info.get("labels", ()):
            res.labels[lab] += 1
        k = case_key(sub.name, case)
        if info.get("nontrivial", True):
            if k not in res.keys:
                res.keys.add(k)
                res.nontrivial += 1
                if len(res.samples) < 2:
                    s = json.dumps(case)
                    res.samples.append(case if len(s) < 1500 else s[:1500])

    body.__name__ = "check_" + sub.name.replace("-", "_")
    test = given(sub.strategy(tier))(body)
    test = settings(
        max_examples=max(1, examples) + skip_first, database=None, deadline=None,
        print_blob=False, report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Stop:
        pass
    except Exception as e:  # noqa: BLE001
        if res.failure is None and res.error is None:
            res.error = "".join(traceback.format_exception(e))[-6000:]
    except BaseException as e:  # noqa: BLE001
        if res.failure is None and res.error is None:
            res.error = "".join(traceback.format_exception(e))[-6000:]
    watchdog.stop()
    return res


def match_known(sig: dict, known: list[dict]) -> bool:
    """Whether a failure is one of the listed known findings.

    A finding names the sub-check, conditions on the case (exact values of the
    listed keys) and a fragment of the message.
    """
    for k in known:
        if k.get("sub") != sig["sub"]:
            continue
        if any(sig["case"].get(a) != b for a, b in k.get("case", {}).items()):
            continue
        if k.get("message", "") not in sig["message"]:
            continue
        return True
    return False


def load_known(prop: str, path: str) -> list[dict]:
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def log(*a):
    print(*a, file=sys.stderr, flush=True)
