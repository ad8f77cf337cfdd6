#!/opt/venv/bin/python
"""Runner of the checks: `run.py check C01 [--tier quick]`, `run.py replay FILE`."""

import argparse
import importlib
import json
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
KNOWN = os.path.join(HERE, "known_findings.json")
EVIDENCE = os.path.join(HERE, "evidence")

BUDGET = {"quick": 240.0, "thorough": 2400.0}  # search time of a shard, seconds
SHRINK = {"quick": float(os.environ.get("VERIF_SHRINK", 40)), "thorough": 120.0}
LIMIT = {"quick": 780.0, "thorough": 6000.0}  # the whole check


def free_port() -> int:
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def child_env(scratch: str, devices: int = 1) -> dict:
    env = dict(os.environ)
    for k in ("PYTEST_ADDOPTS", "XLA_FLAGS", "PYTHONSTARTUP"):
        env.pop(k, None)
    env.update(
        JAX_PLATFORMS="cpu",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        GOGGLES_PORT=str(free_port()),
        TMPDIR=scratch,
        PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), HERE]),
        # compile fast: most of the time of a case is compilation
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0"
                  " --xla_llvm_disable_expensive_passes=true",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hypothesis"),
        MPLBACKEND="Agg", HOME=scratch, LANG="C.UTF-8",
        JAX_TRACEBACK_FILTERING="off",
    )
    if devices > 1:
        env["XLA_FLAGS"] += f" --xla_force_host_platform_device_count={devices}"
    return env


def devices_of(prop: str) -> int:
    with open(os.path.join(HERE, "pbt", "meta.json")) as f:
        return json.load(f).get(prop, {}).get("devices", 1)


def load_prop(pid: str):
    sys.path.insert(0, HERE)
    from pbt import quiet

    quiet.install()
    return importlib.import_module(f"pbt.{pid.lower()}").PROP


def shard_main(args) -> None:
    from pbt import core

    out = args.out
    record = {"subs": [], "failure": None, "error": None}

    def write():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(record, f)
        os.replace(tmp, out)

    def on_hang(sub, case):
        if sub == "@import":
            record["error"] = "importing the code under test did not finish"
        else:
            record["failure"] = {
                "size": len(json.dumps(case)), "case": case, "sub": sub,
                "message": "the case did not terminate", "traceback": "", "hang": True,
            }
        write()
        os._exit(0)

    dog = core.Watchdog(on_hang)
    try:
        prop = load_prop(args.prop)
        known = core.load_known(prop.id, KNOWN)
        total_w = sum(s.weight for s in prop.subs)
        for n, sub in enumerate(prop.subs):
            shards = min(args.shards, sub.max_shards)
            if args.shard >= shards:
                continue
            if args.only and sub.name != args.only:
                continue
            full = sub.quick if args.tier == "quick" else sub.thorough
            examples = full // shards + (1 if args.shard < full % shards else 0)
            if examples == 0:
                continue
            budget = BUDGET[args.tier] * sub.weight / total_w
            seed = args.seed * 1000003 + n * 1009 + args.shard
            t0 = time.monotonic()
            r = core.run_sub(sub, args.tier, seed, examples, budget,
                             SHRINK[args.tier], known, dog, args.shard > 0)
            record["subs"].append({
                "name": r.name, "evaluations": r.evaluations,
                "keys": sorted(r.keys), "labels": dict(r.labels),
                "samples": r.samples, "budget_hit": r.budget_hit,
                "wall": round(time.monotonic() - t0, 2),
            })
            if r.failure is not None:
                record["failure"] = r.failure
                break
            if r.error is not None:
                record["error"] = f"{sub.name}: {r.error}"
                break
    except BaseException as e:  # noqa: BLE001
        import traceback
        record["error"] = "".join(traceback.format_exception(e))[-6000:]
    write()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def kill(procs) -> None:
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    for p in procs:
        try:
            p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            pass


def check_main(args) -> int:
    t0 = time.monotonic()
    tier, seed = args.tier, args.seed
    sys.path.insert(0, HERE)
    from pbt import core  # no JAX here

    meta = json.load(open(os.path.join(HERE, "pbt", "meta.json")))[args.prop]
    shards = args.shards or meta.get("shards", 8)
    scratch = tempfile.mkdtemp(prefix=f"pbt_{args.prop}_", dir=args.tmp)
    os.makedirs(EVIDENCE, exist_ok=True)
    procs, outs, logs = [], [], []
    try:
        for k in range(shards):
            sdir = os.path.join(scratch, f"s{k}")
            os.makedirs(sdir)
            out = os.path.join(scratch, f"out{k}.json")
            lg = open(os.path.join(scratch, f"log{k}"), "w")
            cmd = [PY, os.path.join(HERE, "run.py"), "shard", args.prop,
                   "--tier", tier, "--seed", str(seed), "--shard", str(k),
                   "--shards", str(shards), "--out", out]
            if args.only:
                cmd += ["--only", args.only]
            procs.append(subprocess.Popen(cmd, env=child_env(sdir, devices_of(args.prop)), cwd=sdir, stdout=lg,
                                          stderr=lg, start_new_session=True))
            outs.append(out)
            logs.append(lg.name)
        deadline = t0 + LIMIT[tier]
        grace = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.2)
            now = time.monotonic()
            if grace is None:
                for o in outs:
                    if os.path.exists(o) and json.load(open(o))["failure"]:
                        grace = now + 15
            if now > deadline or (grace is not None and now > grace):
                break
        timed_out = time.monotonic() > deadline
        kill(procs)
        records = []
        errors = []
        for k, o in enumerate(outs):
            if os.path.exists(o):
                r = json.load(open(o))
                records.append(r)
                if r["error"]:
                    errors.append(f"shard {k}: {r['error']}")
            elif grace is None:
                tail = open(logs[k]).read()[-3000:]
                errors.append(f"shard {k} ended without a result"
                              f" (timed out: {timed_out})\n{tail}")
        failures = [r["failure"] for r in records if r["failure"]]
        known_lines, known_errors, refound = replay_known(args.prop, scratch)
        errors += known_errors
        failures += refound
        write_evidence(args, records, failures, t0)
        for line in known_lines:
            print(line)
        if failures:
            best = min(failures, key=lambda f: f["size"])
            path = os.path.join(EVIDENCE, f"replay_{args.prop}.json")
            with open(path, "w") as f:
                json.dump({"property": args.prop, **best}, f, indent=1)
            print(f"failing check: {best['sub']}")
            print(f"case: {json.dumps(best['case'])[:3000]}")
            print(best["message"][:3000])
            print(f"VIOLATION property={args.prop} replay={path}", flush=True)
            return 1
        if errors:
            for e in errors[:3]:
                print("HARNESS ERROR", e)
            return 2
        n = sum(s["evaluations"] for r in records for s in r["subs"])
        print(f"{args.prop}: held on {n} cases ({time.monotonic() - t0:.1f} s)")
        return 0
    finally:
        kill(procs)
        shutil.rmtree(scratch, ignore_errors=True)


def replay_known(prop, scratch):
    """Replay the listed findings, each of which carries its failing case."""
    from pbt import core

    lines, errors, refound = [], [], []
    for n, k in enumerate(core.load_known(prop, KNOWN)):
        lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    # Repaired findings are regression cases: their replay must pass.
    data = json.load(open(KNOWN)) if os.path.exists(KNOWN) else {}
    cases = [f for f in data.get("fixed", []) if f["property"] == prop and "replay" in f]
    if cases:
        path = os.path.join(scratch, "regress.json")
        json.dump([c["replay"] for c in cases], open(path, "w"))
        out = os.path.join(scratch, "regress_out.json")
        sdir = os.path.join(scratch, "regress")
        os.makedirs(sdir, exist_ok=True)
        p = subprocess.Popen([PY, os.path.join(HERE, "run.py"), "regress", prop, path, out],
                             env=child_env(sdir, devices_of(prop)), cwd=sdir,
                             start_new_session=True,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            txt, _ = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            kill([p])
            txt = "timeout"
        if not os.path.exists(out):
            errors.append("replay of the repaired findings: " + txt[-2000:])
        else:
            r = json.load(open(out))
            refound += r["failures"]
            errors += r["errors"]
    return lines, errors, refound


def regress_main(args) -> None:
    from pbt import core

    res = {"failures": [], "errors": []}
    prop = load_prop(args.prop)
    subs = {s.name: s for s in prop.subs}

    def on_hang(sub, case):
        res["failures"].append({"size": len(json.dumps(case)), "case": case, "sub": sub,
                                "message": "the case did not terminate", "traceback": ""})
        json.dump(res, open(args.out, "w"))
        os._exit(0)

    dog = core.Watchdog(on_hang)
    for r in json.load(open(args.path)):
        dog.start(r["sub"], r["case"], 100)
        try:
            subs[r["sub"]].check(r["case"])
        except Exception as e:  # noqa: BLE001
            if core.classify(e) == "violation":
                res["failures"].append({"size": len(json.dumps(r["case"])), "case": r["case"],
                                        "sub": r["sub"], "traceback": "",
                                        "message": f"{type(e).__name__}: {e}"})
            else:
                import traceback
                res["errors"].append("".join(traceback.format_exception(e))[-3000:])
        dog.stop()
    json.dump(res, open(args.out, "w"))
    os._exit(0)


def write_evidence(args, records, failures, t0) -> None:
    meta = json.load(open(os.path.join(HERE, "pbt", "meta.json")))[args.prop]
    subs = {}
    keys, samples, labels = {}, {}, {}
    for r in records:
        for s in r["subs"]:
            d = subs.setdefault(s["name"], {"evaluations": 0, "budget_hit": False})
            d["evaluations"] += s["evaluations"]
            d["budget_hit"] |= s["budget_hit"]
            keys.setdefault(s["name"], set()).update(s["keys"])
            labels.setdefault(s["name"], Counter()).update(s["labels"])
            samples.setdefault(s["name"], []).extend(s["samples"])
    for n, d in subs.items():
        d["distinct_nontrivial"] = len(keys[n])
        d["labels"] = dict(labels[n].most_common(20))
    ev = {
        "property": args.prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in subs.values()),
            "distinct_nontrivial": sum(len(k) for k in keys.values()),
            "rule": " | ".join(f"{s['name']}: {s['rule']}" for s in meta["subs"]),
            "samples": [{"check": n, "case": c} for n, cs in samples.items() for c in cs[:2]],
            "checks": subs,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    with open(os.path.join(EVIDENCE, f"{args.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay_main(args) -> int:
    """Run one saved case, without Hypothesis."""
    rec = json.load(open(args.path))
    scratch = tempfile.mkdtemp(prefix="pbt_replay_")
    try:
        if os.environ.get("PBT_REPLAY_CHILD") != "1":
            env = child_env(scratch, devices_of(rec["property"]))
            env["PBT_REPLAY_CHILD"] = "1"
            return subprocess.call([PY, os.path.join(HERE, "run.py"), "replay", args.path],
                                   env=env)
        from pbt import core
        prop = load_prop(rec["property"])
        sub = {s.name: s for s in prop.subs}[rec["sub"]]
        try:
            info = sub.check(rec["case"])
            print("held:", info)
            code = 0
        except Exception as e:  # noqa: BLE001
            import traceback
            traceback.print_exception(e)
            code = 1 if core.classify(e) == "violation" else 2
            if code == 1:
                print(f"VIOLATION property={rec['property']} replay={args.path}")
        sys.stdout.flush()
        sys.stderr.flush()
        if os.environ.get("PBT_REPLAY_CHILD") == "1":
            os._exit(code)
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def meta_main(args) -> None:
    """Write pbt/meta.json (what the parent needs to know without importing JAX)."""
    sys.path.insert(0, HERE)
    from pbt import quiet

    quiet.install()
    meta = {}
    for f in sorted(os.listdir(os.path.join(HERE, "pbt"))):
        if f.startswith("c") and f[1:3].isdigit() and f.endswith(".py"):
            p = importlib.import_module(f"pbt.{f[:-3]}").PROP
            meta[p.id] = {
                "subs": [{"name": s.name, "rule": s.rule} for s in p.subs],
                "assumptions": list(p.assumptions),
                "shards": p.shards_quick,
                "devices": p.devices,
            }
    with open(os.path.join(HERE, "pbt", "meta.json"), "w") as f:
        json.dump(meta, f, indent=1)
    os._exit(0)


def main() -> int:
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="mode", required=True)
    a = sp.add_parser("check")
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--shards", type=int, default=0)
    a.add_argument("--only", default="")
    a.add_argument("--tmp", default=None)
    a = sp.add_parser("shard")
    a.add_argument("prop")
    a.add_argument("--tier")
    a.add_argument("--seed", type=int)
    a.add_argument("--shard", type=int)
    a.add_argument("--shards", type=int)
    a.add_argument("--out")
    a.add_argument("--only", default="")
    a = sp.add_parser("regress")
    a.add_argument("prop")
    a.add_argument("path")
    a.add_argument("out")
    a = sp.add_parser("replay")
    a.add_argument("path")
    sp.add_parser("meta")
    args = ap.parse_args()
    return {"check": check_main, "shard": shard_main, "replay": replay_main,
            "meta": meta_main, "regress": regress_main}[args.mode](args) or 0


if __name__ == "__main__":
    sys.exit(main())
