"""Writes MANIFEST.json from the checks present in checks/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
PENDING = "Not claimed yet: the check for it is still being built."
NOTE = (
    "Every path of the harness through the current source of /repo is executed symbolically within the bounds "
    "stated in the evidence and DESIGN.md; z3 decides each branch and each assertion for all values at once, and "
    "a violation is replayed on the plain code before it is reported. Trusted: z3, CPython, the proxies of sx/ "
    "(sampled paths are re-run on the plain code on every run), and the stand-in design for picker's output."
)

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"python3-vt check.py {i} quick",
                "thorough_cmd": f"python3-vt check.py {i} thorough",
                "technique": "path-exhaustive symbolic execution of the real code, decided by z3",
                "level": "model_checking",
                "level_note": NOTE,
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {
    "version": 1,
    "setup_cmd": "python3-vt tools/selftest.py",
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
