#!/usr/bin/env python3
"""Development tool (no check uses it): builds /verif/seeded/<id>/ from a definition file tools/bugs/<id>.py and confirms it in a scratch copy.

definition: PROP, FILE, EDITS=[(old,new),...], NEEDS, BREAKS, DEMO (python source; run with /repo and /repo/benchmark importable)
usage: mkbug.py ID [--no-tests] [--no-check]
"""
import json, os, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("BUGW", "/tmp/bw")
DEMO_SH = """#!/bin/bash
# run with cwd /repo
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD:$PWD/benchmark"
exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def main(bid, tests, check):
    d = runpy.run_path(f"{ROOT}/tools/bugs/{bid}.py")
    out = f"{ROOT}/seeded/{bid}"
    os.makedirs(out, exist_ok=True)
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    edits = d.get("EDITS")
    for fn, old, new in [(d["FILE"], o, n) if True else None for o, n in edits] + d.get("EDITS2", []):
        p = f"{W}/{fn}"
        s = open(p, newline="").read()
        if s.count(old) != 1:
            if s.count(old.replace("\n", "\r\n")) == 1:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            else:
                sys.exit(f"{bid}: {s.count(old)} matches in {fn} of: {old}")
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run("git diff", shell=True, cwd=W, capture_output=True).stdout
    open(f"{out}/patch.diff", "wb").write(diff)
    open(f"{out}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{out}/demo.sh", 0o755)
    open(f"{out}/demo.py", "w").write(d["DEMO"].lstrip("\n"))
    json.dump(dict(property=d["PROP"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(f"{out}/meta.json", "w"), indent=1)
    r0 = sh(f"{out}/demo.sh", cwd="/repo")
    r1 = sh(f"{out}/demo.sh", cwd=W)
    print(f"{bid}: demo clean={r0.returncode} patched={r1.returncode}", (r1.stderr or r1.stdout).strip().splitlines()[-1:] if r1.returncode else "")
    if r0.returncode:
        print(r0.stdout[-800:], r0.stderr[-800:])
    if tests:
        t = open("/opt/vp/test.sh").read().replace("/repo", W)
        open("/tmp/bwtest.sh", "w").write(t)
        r = sh(f"PYTHONPATH={W} bash /tmp/bwtest.sh /tmp/bwout.json")
        print(f"{bid}: tests:", (r.stdout.strip().splitlines() or ["?"])[-1])
    if check:
        r = sh(f"PYVC_REPO={W} {ROOT}/check.py {d['PROP']}", cwd=ROOT)
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "# "))]
        print(f"{bid}: check exit {r.returncode}", *[x[:220] for x in v[:6]], sep="\n   ")
    shutil.rmtree(W, ignore_errors=True)


a = [x for x in sys.argv[1:] if not x.startswith("-")]
for b in a:
    main(b, "--no-tests" not in sys.argv, "--no-check" not in sys.argv)
