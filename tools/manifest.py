"""Write MANIFEST.json for the properties that have a module in pbt/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
LEVEL = ("Generated-input search: no failing case among the generated ones; the evidence "
         "file has their number and samples. Not a proof. ")
NOTES = {
    "C01": "Reference: positions of spots found in both images of sparse noise-free pairs, to sub-pixel tolerance.",
    "C02": "Reference: an independent numpy resampler in float64; tolerance for float32.",
    "C03": "Reference: an independent numpy renderer; additivity and order relations.",
    "C04": "Reference: an independent numpy bilinear/trilinear interpolation.",
    "C05": "Reference: independent numpy warps.",
    "C06": "Statistics over many particles, tolerance 6 sigma plus slack.",
    "C07": "Statistics over pixels, tolerance 6 sigma plus slack.",
    "C19": "Schedules are driven by gates in the wrapped scheduler, not by sleeping.",
    "C20": "A call that does not return within minutes counts as a deadlock.",
    "C27": "Devices are virtual CPU devices of XLA.",
}
checks = []
done = []
for f in sorted(os.listdir(os.path.join(HERE, "pbt"))):
    if f.startswith("c") and f[1:3].isdigit() and f.endswith(".py"):
        pid = f[:3].upper()
        done.append(pid)
        checks.append({
            "property": pid,
            "quick_cmd": f"{PY} run.py check {pid} --tier quick",
            "thorough_cmd": f"{PY} run.py check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "property-based testing (Hypothesis, shrinking) against a reference",
            "level": "exploration",
            "level_note": LEVEL + NOTES.get(pid, "Trusts the reference in pbt/"
                                            f"{f} and the installed JAX, numpy and h5py/scipy."),
        })
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": f"{PY} -c 'import hypothesis, jax, numpy, scipy, h5py'",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "no check has been built for it yet"}
                       for i in ids if i not in done],
    "notes": "See DESIGN.md. `run.py replay FILE` reruns a saved case without Hypothesis.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
