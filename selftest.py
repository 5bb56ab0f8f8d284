#!/usr/bin/env python3-vt
"""setup: checks that the interpreters and solvers are there, and that the verification engine proves small correct functions and refutes
deliberately broken ones (pyvc/selftest)."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if len(sys.argv) > 1 and sys.argv[1] == "engine":
    sys.path.insert(0, os.path.join(HERE, "pyvc", "selftest"))
    import st_specs  # noqa
    from pyvc.api import HARNESSES
    from pyvc.worker import run_harness
    bad = 0
    for h in HARNESSES:
        r = run_harness(h, 60)
        proved = not r["unsupported"] and r["obligations"] and all(o["status"] == "proved" for o in r["obligations"])
        failed = not r["unsupported"] and any(o["status"] == "failed" for o in r["obligations"])
        good = proved if h.name.startswith("ok_") else failed
        if not good:
            bad += 1
            print("ENGINE SELF-TEST FAILED", h.name, r["unsupported"], [(o["name"], o["status"]) for o in r["obligations"]])
    print(len(HARNESSES) - bad, "of", len(HARNESSES), "engine self-tests as expected")
    sys.exit(1 if bad else 0)
import z3  # noqa
subprocess.run(["/opt/venv/bin/python", "-c", "import carbon, pandas, numpy"], check=True, cwd=os.environ.get("PYVC_REPO", "/repo"),
               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
from pyvc.specload import load  # noqa
print(len(load()), "contracts;", "z3", z3.get_version_string())
sys.exit(subprocess.run([sys.executable, os.path.abspath(__file__), "engine"],
                        env=dict(os.environ, PYVC_REPO=os.path.join(HERE, "pyvc", "selftest"))).returncode)
