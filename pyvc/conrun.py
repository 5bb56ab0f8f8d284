"""Concrete runner (PyPy): executes contracts against the real code, for bounded checks and replays.

usage: conrun.py sample  JOB.json OUT.json     JOB: {prop, seed, scale, harness:[..], deadline}
       conrun.py replay  JOB.json OUT.json     JOB: {prop, items:[{harness, values, ...}], tries, seconds}
"""
import hashlib
import io
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "benchmark"))
if REPO != "/repo":
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)

from pyvc.conctx import ConCtx          # noqa: E402
from pyvc.api import Skip               # noqa: E402
from pyvc.specload import load          # noqa: E402
import warnings                         # noqa: E402
warnings.simplefilter("ignore")


class Quiet:
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o


class TooLong(Exception):
    pass


def _alarm(*a):
    raise TooLong()


import signal                           # noqa: E402
signal.signal(signal.SIGALRM, _alarm)


def run_once(h, rnd, values=None):
    c = ConCtx(rnd, values)
    skipped = False
    try:
        with Quiet():
            signal.setitimer(signal.ITIMER_REAL, 20)
            try:
                h.fn(c)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except Skip:
        skipped = True
    except TooLong:
        c.failed.append(("terminates", "no result within 20 s"))
    except Exception as e:
        if type(e).__name__ in ("OverflowError", "MemoryError") and not c.failed:
            skipped = True
        else:
            c.failed.append(("no exception escapes", "%s: %s" % (type(e).__name__, str(e)[:200])))
            c.tb = traceback.format_exc()[-1500:]
    return c, skipped


def jsonable(v):
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, float):
        return v if abs(v) < 1e300 and v == v else repr(v)
    return repr(v)


def sample(job, out):
    hs = {h.name: h for h in load(job["prop"])}
    res = []
    for name in job["harness"]:
        h = hs[name]
        n = int(h.samples * job.get("scale", 1))
        t_end = time.time() + job.get("seconds", 60) * max(1, h.weight)
        seen = set()
        r = dict(harness=name, evaluations=0, skipped=0, distinct=0, reached={}, failures=[], samples=[])
        base = hashlib.sha256(("%s|%s|%s" % (job["prop"], name, job["seed"])).encode()).hexdigest()
        for k in range(n * 4):
            if r["evaluations"] >= n or time.time() > t_end:
                break
            rnd = random.Random("%s|%d" % (base, k))
            c, sk = run_once(h, rnd)
            if c.failed:
                r["failures"].append(dict(harness=name, obligation=c.failed[0][0], note=c.failed[0][1],
                                          inputs={a: jsonable(b) for a, b in c.inputs.items()}, tb=getattr(c, "tb", "")))
                if len(r["failures"]) >= 3:
                    break
            if sk and not c.reached:
                r["skipped"] += 1
                continue
            r["evaluations"] += 1
            for a, b in c.reached.items():
                r["reached"][a] = r["reached"].get(a, 0) + b
            if c.reached:
                key = repr(sorted(c.inputs.items(), key=lambda t: t[0]))
                if key not in seen:
                    seen.add(key)
                    if len(r["samples"]) < 3:
                        r["samples"].append({a: jsonable(b) for a, b in list(c.inputs.items())[:12]})
        r["distinct"] = len(seen)
        res.append(r)
        with open(out, "w") as fh:
            json.dump(res, fh)
    with open(out, "w") as fh:
        json.dump(res, fh)


def perturb(values, rnd, level):
    v = dict(values)
    for k, x in values.items():
        if k.startswith("#"):
            continue
        if rnd.random() < level:
            v[k] = None
        elif isinstance(x, int) and not isinstance(x, bool) and rnd.random() < 0.5:
            v[k] = x + rnd.choice([-2, -1, 0, 1, 2, 7])
        elif isinstance(x, str) and "/" in x and rnd.random() < 0.4:
            p, q = x.split("/")
            try:
                v[k] = (int(p) / int(q)) * rnd.choice([1, 1 + 1e-3, 1 - 1e-3, 2, .5, 1.1, .9])
            except OverflowError:
                v[k] = None
    return v


def replay(job, out):
    hs = {h.name: h for h in load(job["prop"])}
    res = []
    t_all = time.time() + job.get("seconds", 120)
    for it in job["items"]:
        h = hs[it["harness"]]
        vals = it["values"] or {}
        found = None
        t_end = min(t_all, time.time() + job.get("per_item", 20))
        k = 0
        tries = job.get("tries", 400)
        while k < tries and (k == 0 or time.time() < t_end):
            rnd = random.Random("replay|%d|%s" % (k, job.get("seed", 0)))
            v = vals if k == 0 else perturb(vals, rnd, 0.1 if k < tries * .3 else 0.6 if k < tries * .6 else 1.0)
            if k > tries * .8:
                v = {}
            c, sk = run_once(h, rnd, v)
            if c.failed:
                found = dict(harness=it["harness"], obligation=c.failed[0][0], note=c.failed[0][1],
                             inputs={a: jsonable(b) for a, b in c.inputs.items()}, try_=k, tb=getattr(c, "tb", ""))
                break
            k += 1
        res.append(dict(item=it, found=found, tried=k + 1))
        with open(out, "w") as fh:
            json.dump(res, fh)
    with open(out, "w") as fh:
        json.dump(res, fh)


if __name__ == "__main__":
    with open(sys.argv[2]) as fh:
        job = json.load(fh)
    {"sample": sample, "replay": replay}[sys.argv[1]](job, sys.argv[3])
